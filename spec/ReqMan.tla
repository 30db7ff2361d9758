-------------------------------- MODULE ReqMan --------------------------------
(* The request manager of a webwire client. Calls of concurrent workers are     *)
(* open intervals: Call.. starts one, an effect takes place atomically at some   *)
(* point inside of it, Ret.. ends it.                                            *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

VARIABLES
  req,   \* request -> [st, v, id, ret, taken]
  ctx,   \* context -> "" | "canceled" | "timeout"
  wk,    \* worker -> what it's doing
  fin    \* the driver is completing whatever was left over
vars == <<req, ctx, wk, fin>>

Reqs == 1..16
Ctxs == 1..8
Workers == 1..6

Idle == [k |-> "", q |-> 0, v |-> "", ctx |-> 0, known |-> FALSE, res |-> ""]
None == [k |-> "", v |-> ""]
Init0 ==
  /\ req = [q \in Reqs |-> [st |-> "none", v |-> None, id |-> "", ret |-> FALSE,
                            wins |-> 0, taken |-> 0]]
  /\ ctx = [c \in Ctxs |-> ""]
  /\ wk = [w \in Workers |-> Idle]
  /\ fin = FALSE

Pending == {q \in Reqs : req[q].st = "pend"}

Call(w, k, q, v, c) ==
  /\ wk[w] = Idle
  /\ wk' = [wk EXCEPT ![w] =
       [k |-> k, q |-> q, v |-> v, ctx |-> c,
        known |-> q > 0 /\ req[q].ret, res |-> ""]]
  /\ UNCHANGED <<req, ctx, fin>>

CtxOf(w) == IF wk[w].ctx = 0 THEN "" ELSE ctx[wk[w].ctx]

Done(w, res) == wk' = [wk EXCEPT ![w].res = res]
Busy(w, k) == wk[w].k = k /\ wk[w].res = ""

CreateEff(w) ==
  /\ Busy(w, "create")
  /\ req' = [req EXCEPT ![wk[w].q].st = "pend"]
  /\ Done(w, "ok")
  /\ UNCHANGED <<ctx, fin>>

\* A completion: by a reply or by a failure. It succeeds exactly if the request
\* is still pending
CompleteEff(w) ==
  /\ Busy(w, "fulfill") \/ Busy(w, "fail")
  /\ LET q == wk[w].q IN
     IF wk[w].known /\ req[q].st = "pend"
     THEN /\ req' = [req EXCEPT ![q].st = "done", ![q].wins = @ + 1,
                ![q].v = [k |-> IF wk[w].k = "fulfill" THEN "reply" ELSE "failed",
                          v |-> wk[w].v]]
          /\ Done(w, "true")
     ELSE Done(w, "false") /\ UNCHANGED req
  /\ UNCHANGED <<ctx, fin>>

\* The waiter gets the completion...
TakeEff(w) ==
  /\ Busy(w, "await") /\ wk[w].known
  /\ LET q == wk[w].q IN
     /\ req[q].st = "done" /\ req[q].taken = 0
     /\ req' = [req EXCEPT ![q].taken = @ + 1]
     /\ Done(w, req[q].v.k)
  /\ UNCHANGED <<ctx, fin>>

\* ...or gives up, which ends the request
GiveUpEff(w) ==
  /\ Busy(w, "await") /\ wk[w].known /\ wk[w].ctx > 0
  /\ LET q == wk[w].q IN
     /\ req[q].st = "pend" /\ CtxOf(w) # ""
     /\ req' = [req EXCEPT ![q].st = "gone"]
     /\ Done(w, CtxOf(w))
  /\ UNCHANGED <<ctx, fin>>

AwaitNothing(w) ==
  /\ Busy(w, "await") /\ ~wk[w].known
  /\ Done(w, "none") /\ UNCHANGED <<req, ctx, fin>>

IsPendingEff(w) ==
  /\ Busy(w, "ispending")
  /\ Done(w, IF wk[w].known /\ req[wk[w].q].st = "pend" THEN "true" ELSE "false")
  /\ UNCHANGED <<req, ctx, fin>>

\* Counting may miss requests being created and include those being ended
Starting == {q \in Reqs : \E v \in Workers : wk[v].k = "create" /\ wk[v].q = q}
Ending == {q \in Reqs : req[q].st \in {"done", "gone"} /\
             \E v \in Workers : wk[v].k \in {"fulfill", "fail", "await"} /\ wk[v].q = q}
CountEff(w) ==
  /\ Busy(w, "count")
  /\ \E n \in Cardinality(Pending \ Starting)..Cardinality(Pending \cup Starting \cup Ending) :
       wk' = [wk EXCEPT ![w].res = "count", ![w].ctx = n]
  /\ UNCHANGED <<req, ctx, fin>>

\* Many requests (their number is in ctx) are created and then completed
BurnEff(w) == Busy(w, "burn") /\ Done(w, "burn") /\ UNCHANGED <<req, ctx, fin>>

CtxEff(w) ==
  /\ Busy(w, "cancel") \/ Busy(w, "expire")
  /\ ctx' = [ctx EXCEPT ![wk[w].ctx] =
               IF @ # "" THEN @
               ELSE IF wk[w].k = "cancel" THEN "canceled" ELSE "timeout"]
  /\ Done(w, "ok") /\ UNCHANGED <<req, fin>>

Effect(w) ==
  CreateEff(w) \/ CompleteEff(w) \/ TakeEff(w) \/ GiveUpEff(w) \/ AwaitNothing(w)
  \/ IsPendingEff(w) \/ CountEff(w) \/ CtxEff(w) \/ BurnEff(w)

\* e is what the caller observed
Ret(w, e) ==
  /\ wk[w].res # "" /\ e.r = wk[w].res
  /\ CASE wk[w].k = "create" ->
            \* no other pending request has this identifier
            /\ e.id = e.idb
            /\ \A q \in Pending \ {wk[w].q} : req[q].id # e.id
            /\ req' = [req EXCEPT ![wk[w].q].id = e.id, ![wk[w].q].ret = TRUE]
       [] wk[w].k = "await" /\ e.r \in {"reply", "failed"} ->
            e.v = req[wk[w].q].v.v /\ UNCHANGED req
       [] wk[w].k = "count" -> e.n = wk[w].ctx /\ UNCHANGED req
       [] wk[w].k = "burn" ->
            \* all of them had an identifier of their own and were pending, and
            \* each of them was completed once
            /\ e.d = wk[w].ctx /\ e.mid = wk[w].ctx
            /\ e.first = wk[w].ctx /\ e.again = 0
            /\ UNCHANGED req
       [] OTHER -> UNCHANGED req
  /\ wk' = [wk EXCEPT ![w] = Idle]
  /\ UNCHANGED <<ctx, fin>>

\* Nobody but the waiter of a request that's still pending may be blocked
MayBlock(w) ==
  /\ wk[w].k = "await" /\ wk[w].res = "" /\ wk[w].known
  /\ IF req[wk[w].q].st = "pend" THEN CtxOf(w) = ""
     \* not claimed: waiting twice
     ELSE req[wk[w].q].taken > 0 \/ req[wk[w].q].st = "gone"

\* What's seen while nothing happens
Quiet(blocked, pending, n) ==
  /\ {w \in Workers : wk[w].k # ""} = blocked
  /\ \A w \in blocked : MayBlock(w)
  /\ {q \in Reqs : req[q].st = "pend"} = pending
  /\ Cardinality(Pending) = n
  /\ UNCHANGED vars

---------------------------------------------------------------------------
\* The properties
Once == \A q \in Reqs : req[q].wins <= 1 /\ req[q].taken <= 1
WonIsOver == \A q \in Reqs :
  /\ req[q].wins = 1 <=> req[q].st = "done"
  /\ req[q].st \in {"done", "gone"} => q \notin Pending
Distinct == \A p, q \in Pending : p # q /\ req[p].ret /\ req[q].ret =>
                                  req[p].id # req[q].id
\* Who gave up never gets a value, and nobody completes a request that was given up
Exclusive == \A w \in Workers :
  wk[w].k = "await" /\ wk[w].res # "" /\ wk[w].known =>
    (wk[w].res \in {"canceled", "timeout"}) <=> (req[wk[w].q].st = "gone")
===============================================================================
