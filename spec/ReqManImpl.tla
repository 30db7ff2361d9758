-------------------------------- MODULE ReqManImpl --------------------------------
(* How the request manager works: a map of pending requests under a lock, a       *)
(* counter, and a channel of capacity one for each request. Every behaviour of it *)
(* is a behaviour of ReqMan (PROPERTY Refines). The design decisions can be        *)
(* switched off, and each of them is needed.                                       *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS NW, NQ, NC, MAXCALLS,
  ATOMIC,  \* a completion deregisters and delivers under one lock
  RECHECK, \* who gives up looks for a completion after deregistering
  UNIQUE   \* the counter is incremented atomically
VARIABLES
  lastID, map,   \* identifier -> request or 0
  ch,            \* request -> the completion in its channel
  rid,           \* request -> its identifier
  cx,            \* contexts
  pc, loc, n,
  req, wk        \* history: the state of ReqMan
vars == <<lastID, map, ch, rid, cx, pc, loc, n, req, wk>>

W1 == 1..NW
Qs == 1..NQ
Cs == 1..NC
Ids == 0..NQ+1
A == INSTANCE ReqMan WITH req <- req, ctx <- cx, wk <- wk, fin <- FALSE
NoV == [k |-> "", v |-> ""]

Init ==
  /\ lastID = 0 /\ map = [i \in Ids |-> 0] /\ ch = [q \in Qs |-> NoV]
  /\ rid = [q \in Qs |-> 0] /\ cx = [c \in A!Ctxs |-> ""]
  /\ pc = [w \in W1 |-> "idle"] /\ loc = [w \in W1 |-> 0] /\ n = 0
  /\ req = [q \in A!Reqs |-> [st |-> "none", v |-> NoV, id |-> "", ret |-> FALSE,
                              wins |-> 0, taken |-> 0]]
  /\ wk = [w \in A!Workers |-> A!Idle]

Go(w, p) == pc' = [pc EXCEPT ![w] = p]
Res(w, r) == wk' = [wk EXCEPT ![w].res = r]
Q(w) == wk[w].q

Call(w) ==
  /\ pc[w] = "idle" /\ n < MAXCALLS /\ n' = n + 1
  /\ \/ \E q \in Qs :
          /\ req[q].st = "none" /\ \A v \in W1 : ~(wk[v].k = "create" /\ Q(v) = q)
          /\ wk' = [wk EXCEPT ![w] = [A!Idle EXCEPT !.k = "create", !.q = q]]
          /\ Go(w, "inc")
     \/ \E q \in Qs, k \in {"fulfill", "fail"} :
          /\ req[q].ret
          /\ wk' = [wk EXCEPT ![w] = [A!Idle EXCEPT !.k = k, !.q = q, !.known = TRUE,
                                                    !.v = ToString(w)]]
          /\ Go(w, "find")
     \/ \E q \in Qs, c \in Cs :
          /\ req[q].ret /\ \A v \in W1 : ~(wk[v].k = "await" /\ Q(v) = q)
          /\ req[q].taken = 0 /\ req[q].st # "gone" \* waiting once
          /\ wk' = [wk EXCEPT ![w] = [A!Idle EXCEPT !.k = "await", !.q = q, !.known = TRUE,
                                                    !.ctx = c]]
          /\ Go(w, "select")
     \/ \E c \in Cs : /\ wk' = [wk EXCEPT ![w] = [A!Idle EXCEPT !.k = "cancel", !.ctx = c]]
                      /\ Go(w, "cancel")
  /\ UNCHANGED <<lastID, map, ch, rid, cx, loc, req>>

\* Create
Inc(w) ==
  /\ pc[w] = "inc"
  /\ IF UNIQUE THEN /\ lastID' = lastID + 1 /\ rid' = [rid EXCEPT ![Q(w)] = lastID + 1]
                    /\ Go(w, "reg") /\ UNCHANGED loc
     ELSE loc' = [loc EXCEPT ![w] = lastID] /\ Go(w, "inc2") /\ UNCHANGED <<lastID, rid>>
  /\ UNCHANGED <<map, ch, cx, n, req, wk>>
Inc2(w) ==
  /\ pc[w] = "inc2" /\ lastID' = loc[w] + 1 /\ rid' = [rid EXCEPT ![Q(w)] = loc[w] + 1]
  /\ Go(w, "reg") /\ UNCHANGED <<map, ch, cx, loc, n, req, wk>>
Reg(w) ==
  /\ pc[w] = "reg" /\ map' = [map EXCEPT ![rid[Q(w)]] = Q(w)]
  /\ req' = [req EXCEPT ![Q(w)].st = "pend"] /\ Res(w, "ok") /\ Go(w, "ret")
  /\ UNCHANGED <<lastID, ch, rid, cx, loc, n>>

\* Fulfill and Fail
Win(w) == req' = [req EXCEPT ![Q(w)].st = "done", ![Q(w)].wins = @ + 1,
                    ![Q(w)].v = [k |-> IF wk[w].k = "fulfill" THEN "reply" ELSE "failed",
                                 v |-> wk[w].v]]
Find(w) ==
  /\ pc[w] = "find"
  /\ LET q == map[rid[Q(w)]] IN
     IF q = 0 THEN Res(w, "false") /\ Go(w, "ret") /\ UNCHANGED <<map, ch, req>>
     ELSE IF ATOMIC
     THEN /\ map' = [map EXCEPT ![rid[Q(w)]] = 0] /\ Win(w) /\ Res(w, "true") /\ Go(w, "ret")
          /\ ch' = [ch EXCEPT ![q] = [k |-> wk[w].k, v |-> wk[w].v]]
     ELSE Go(w, "del") /\ UNCHANGED <<map, ch, req, wk>>
  /\ UNCHANGED <<lastID, rid, cx, loc, n>>
Del(w) ==
  /\ pc[w] = "del" /\ ch[Q(w)] = NoV \* or blocked
  /\ map' = [map EXCEPT ![rid[Q(w)]] = 0]
  /\ Win(w) /\ Res(w, "true") /\ Go(w, "ret")
  /\ ch' = [ch EXCEPT ![Q(w)] = [k |-> wk[w].k, v |-> wk[w].v]]
  /\ UNCHANGED <<lastID, rid, cx, loc, n>>

\* AwaitReply
Take(w) ==
  /\ ch[Q(w)] # NoV /\ ch' = [ch EXCEPT ![Q(w)] = NoV]
  /\ req' = [req EXCEPT ![Q(w)].taken = @ + 1]
  /\ Res(w, IF ch[Q(w)].k = "fulfill" THEN "reply" ELSE "failed") /\ Go(w, "ret")
Select(w) ==
  /\ pc[w] = "select"
  /\ \/ Take(w)
     \/ cx[wk[w].ctx] # "" /\ Go(w, "dereg") /\ UNCHANGED <<ch, req, wk>>
  /\ UNCHANGED <<lastID, map, rid, cx, loc, n>>
\* Whoever deregisters a pending request has ended it
Dereg(w) ==
  /\ pc[w] = "dereg" /\ map' = [map EXCEPT ![rid[Q(w)]] = 0]
  /\ IF map[rid[Q(w)]] # 0
     THEN req' = [req EXCEPT ![Q(w)].st = "gone"] /\ Res(w, cx[wk[w].ctx]) /\ Go(w, "ret")
     ELSE IF RECHECK THEN Go(w, "recheck") /\ UNCHANGED <<req, wk>>
     ELSE Res(w, cx[wk[w].ctx]) /\ Go(w, "ret") /\ UNCHANGED req
  /\ UNCHANGED <<lastID, ch, rid, cx, loc, n>>
Recheck(w) ==
  /\ pc[w] = "recheck" /\ Take(w)
  /\ UNCHANGED <<lastID, map, rid, cx, loc, n>>

Cancel(w) ==
  /\ pc[w] = "cancel" /\ Go(w, "ret") /\ Res(w, "ok")
  /\ cx' = [cx EXCEPT ![wk[w].ctx] = IF @ = "" THEN "canceled" ELSE @]
  /\ UNCHANGED <<lastID, map, ch, rid, loc, n, req>>

Ident(w) == IF Q(w) \in Qs THEN ToString(rid[Q(w)]) ELSE ""
Ret(w) ==
  /\ pc[w] = "ret" /\ Go(w, "idle") /\ wk' = [wk EXCEPT ![w] = A!Idle]
  /\ req' = IF wk[w].k = "create"
            THEN [req EXCEPT ![Q(w)].id = Ident(w), ![Q(w)].ret = TRUE] ELSE req
  /\ UNCHANGED <<lastID, map, ch, rid, cx, loc, n>>

Next == \E w \in W1 : Call(w) \/ Inc(w) \/ Inc2(w) \/ Reg(w) \/ Find(w) \/ Del(w) \/ Select(w)
                      \/ Dereg(w) \/ Recheck(w) \/ Cancel(w) \/ Ret(w)
Spec == Init /\ [][Next]_vars

ANext ==
  \E w \in W1 :
    \/ \E k \in {"create", "fulfill", "fail", "await", "cancel"}, q \in 0..NQ, c \in 0..NC :
         A!Call(w, k, q, IF k \in {"fulfill", "fail"} THEN ToString(w) ELSE "", c)
    \/ A!Effect(w)
    \/ A!Ret(w, [r |-> wk[w].res, id |-> Ident(w), idb |-> Ident(w),
                 v |-> IF Q(w) \in Qs THEN req[Q(w)].v.v ELSE "", n |-> wk[w].ctx])
Refines == [][ANext]_(A!vars)
\* The pending requests are those in the map
Registered == \A q \in Qs : req[q].st = "pend" => map[rid[q]] = q
Inv == Registered /\ A!Once /\ A!WonIsOver /\ A!Distinct /\ A!Exclusive
\* Nobody is stuck: who looks for a completion after deregistering finds it
Free == \A w \in W1 : pc[w] = "recheck" => ch[Q(w)] # NoV
===============================================================================
