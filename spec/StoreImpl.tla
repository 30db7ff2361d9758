-------------------------------- MODULE StoreImpl --------------------------------
(* How the default session manager works, one file system operation per step:   *)
(* sessions are saved to a temporary file which then replaces the session file,  *)
(* a lock serializes the operations, and sessions closed before they were saved  *)
(* are remembered. The process may end, and any write may fail, at any step.     *)
(* Every behaviour of it is a behaviour of Store (PROPERTY Refines). Each of the *)
(* design decisions can be switched off, and is needed.                          *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS NW, NK, MAXCALLS, MAXENV,
  LOCK,   \* operations are serialized
  ATOMIC, \* session files are replaced atomically
  TOMB    \* closing a session that isn't stored prevents that it's stored later
VARIABLES
  file,   \* key -> the session file: call that created the session and call of
          \*        the last lookup (c = 0: no file)
  lock,   \* the worker holding the lock, or 0
  closed, \* keys closed before they were saved
  pc, loc,\* worker -> position, and what it has read
  n, ne,  \* number of calls and of events of the environment
  flt,    \* writing may fail
  tomb,   \* history variables: what Store knows
  wk
vars == <<file, lock, closed, pc, loc, n, ne, flt, tomb, wk>>

W1 == 1..NW
KS == 1..NK
None == [c |-> 0, l |-> 0]
Torn == [c |-> 999, l |-> 999]
Good(k) == "good"

A == INSTANCE Store WITH
       LENS <- "ALL", ClassOf <- Good, tr <- 0,
       st <- [k \in 1..40 |-> IF k \in KS THEN file[k].c ELSE 0],
       by <- [k \in 1..40 |-> IF k \in KS THEN file[k].l ELSE 0],
       tomb <- [k \in 1..40 |-> k \in tomb],
       sys <- [fault |-> flt, fin |-> FALSE],
       wk <- wk

Init ==
  /\ file = [k \in KS |-> None] /\ lock = 0 /\ closed = {} /\ tomb = {}
  /\ pc = [w \in W1 |-> "idle"] /\ loc = [w \in W1 |-> None]
  /\ n = 0 /\ ne = 0 /\ flt = FALSE
  /\ wk = [w \in A!Workers |-> A!Idle]

K(w) == wk[w].key
Res(w, r) == wk' = [wk EXCEPT ![w].res = r]
Go(w, p) == pc' = [pc EXCEPT ![w] = p]
Done(w) == Go(w, "ret") /\ lock' = IF lock = w THEN 0 ELSE lock

Call(w, k, key) ==
  /\ pc[w] = "idle" /\ n < MAXCALLS /\ n' = n + 1
  \* keys are unique
  /\ k = "create" => /\ file[key].c = 0
                     /\ \A v \in W1 : ~(wk[v].k = "create" /\ K(v) = key)
  /\ wk' = [v \in A!Workers |->
       IF v = w THEN [A!Idle EXCEPT !.k = k, !.key = key, !.n = n + 1, !.fl = flt,
                        !.over = \E u \in W1 : wk[u].k = "close" /\ wk[u].res = ""
                                                /\ ~wk[u].gone /\ K(u) = key]
       ELSE IF k = "close" /\ wk[v].k = "create" /\ K(v) = key
       THEN [wk[v] EXCEPT !.over = TRUE] ELSE wk[v]]
  /\ Go(w, IF k = "create" THEN "sess" ELSE "lock")
  /\ UNCHANGED <<file, lock, closed, loc, ne, flt, tomb>>

\* The session of the connection may be gone already
Sess(w) ==
  /\ pc[w] = "sess"
  /\ \/ Go(w, "lock") /\ UNCHANGED wk
     \/ wk[w].over /\ Go(w, "ret") /\ Res(w, "err")
  /\ UNCHANGED <<file, lock, closed, loc, n, ne, flt, tomb>>

Lock(w) ==
  /\ pc[w] = "lock"
  /\ IF LOCK THEN lock = 0 /\ lock' = w ELSE UNCHANGED lock
  /\ Go(w, CASE wk[w].k = "create" -> "tomb" [] wk[w].k = "lookup" -> "stat"
             [] OTHER -> "remove")
  /\ UNCHANGED <<file, closed, loc, n, ne, flt, tomb, wk>>

Tomb(w) ==
  /\ pc[w] = "tomb"
  /\ closed' = closed \ {K(w)}
  /\ IF K(w) \in closed THEN Res(w, "err") /\ Done(w) /\ UNCHANGED loc
     ELSE /\ Go(w, "tmp") /\ loc' = [loc EXCEPT ![w] = [c |-> wk[w].n, l |-> wk[w].n]]
          /\ UNCHANGED <<wk, lock>>
  /\ UNCHANGED <<file, n, ne, flt, tomb>>

Stat(w) ==
  /\ pc[w] = "stat"
  /\ IF file[K(w)].c = 0 THEN Res(w, "none") /\ Done(w)
     ELSE Go(w, "parse") /\ UNCHANGED <<wk, lock>>
  /\ UNCHANGED <<file, closed, loc, n, ne, flt, tomb>>

Parse(w) ==
  /\ pc[w] = "parse"
  /\ IF file[K(w)].c \in {0, 999} THEN Res(w, "err") /\ Done(w) /\ UNCHANGED loc
     ELSE loc' = [loc EXCEPT ![w] = file[K(w)]] /\ Go(w, "tmp") /\ UNCHANGED <<wk, lock>>
  /\ UNCHANGED <<file, closed, n, ne, flt, tomb>>

\* Writing the temporary file (or, not atomic, the session file itself)
Tmp(w) ==
  /\ pc[w] = "tmp"
  /\ \/ /\ Go(w, "rename")
        /\ file' = IF ATOMIC THEN file ELSE [file EXCEPT ![K(w)] = Torn]
        /\ UNCHANGED <<wk, lock>>
     \/ wk[w].fl /\ Res(w, "err") /\ Done(w) /\ UNCHANGED file
  /\ UNCHANGED <<closed, loc, n, ne, flt, tomb>>
Rename(w) ==
  /\ pc[w] = "rename"
  /\ \/ /\ file' = [file EXCEPT ![K(w)] = [c |-> loc[w].c, l |-> wk[w].n]]
        /\ wk' = IF wk[w].k = "create" THEN [wk EXCEPT ![w].res = "ok"]
                 ELSE [wk EXCEPT ![w].res = "found", ![w].c = loc[w].c,
                                 ![w].by = loc[w].l]
        /\ tomb' = IF wk[w].k = "create" THEN tomb \ {K(w)} ELSE tomb
     \/ wk[w].fl /\ Res(w, "err") /\ UNCHANGED <<file, tomb>>
  /\ Done(w)
  /\ UNCHANGED <<closed, loc, n, ne, flt>>

Remove(w) ==
  /\ pc[w] = "remove"
  /\ \/ /\ file[K(w)].c # 0 /\ file' = [file EXCEPT ![K(w)].c = 0]
        /\ Res(w, "ok") /\ UNCHANGED <<closed, tomb>>
     \/ /\ file[K(w)].c # 0 /\ wk[w].fl /\ Res(w, "err")
        /\ UNCHANGED <<file, closed, tomb>>
     \/ /\ file[K(w)].c = 0
        /\ closed' = IF TOMB THEN closed \cup {K(w)} ELSE closed
        /\ tomb' = tomb \cup {K(w)}
        /\ wk' = [v \in A!Workers |->
              IF v = w THEN [wk[v] EXCEPT !.res = "err"]
              ELSE IF wk[v].k = "create" /\ wk[v].res = "" /\ ~wk[v].gone /\ wk[v].key = K(w)
              THEN [wk[v] EXCEPT !.doom = TRUE] ELSE wk[v]]
        /\ UNCHANGED file
  /\ Done(w)
  /\ UNCHANGED <<loc, n, ne, flt>>

Ret(w) ==
  /\ pc[w] = "ret"
  /\ Go(w, "idle") /\ wk' = [wk EXCEPT ![w] = A!Idle]
  /\ loc' = [loc EXCEPT ![w] = None]
  /\ UNCHANGED <<file, lock, closed, n, ne, flt, tomb>>

\* The process ends and another one is started
Restart ==
  /\ ne < MAXENV /\ ne' = ne + 1
  /\ lock' = 0 /\ closed' = {} /\ tomb' = {}
  /\ pc' = [w \in W1 |-> IF pc[w] = "idle" THEN "idle" ELSE "ret"]
  /\ wk' = [w \in A!Workers |-> IF wk[w].k = "" THEN A!Idle ELSE [wk[w] EXCEPT !.gone = TRUE]]
  /\ UNCHANGED <<file, loc, n, flt>>
SetFault ==
  /\ ne < MAXENV /\ ne' = ne + 1 /\ flt' = ~flt
  /\ wk' = [w \in A!Workers |-> IF wk[w].k = "" THEN A!Idle ELSE [wk[w] EXCEPT !.fl = @ \/ flt']]
  /\ UNCHANGED <<file, lock, closed, pc, loc, n, tomb>>

Next ==
  \/ \E w \in W1 :
       \/ \E k \in {"create", "lookup", "close"}, key \in KS : Call(w, k, key)
       \/ Sess(w) \/ Lock(w) \/ Tomb(w) \/ Stat(w) \/ Parse(w) \/ Tmp(w) \/ Rename(w)
       \/ Remove(w) \/ Ret(w)
  \/ Restart \/ SetFault
Spec == Init /\ [][Next]_vars

ANext ==
  \/ \E w \in W1 :
       \/ \E k \in {"create", "lookup", "close"}, key \in KS : A!Call(w, k, key, n + 1, FALSE)
       \/ A!Effect(w)
       \/ A!Ret(w, wk[w].res, wk[w].c, TRUE, {wk[w].by})
  \/ \E v \in BOOLEAN : A!SetFault(v)
  \/ A!Restart
Refines == A!InitBut(0) /\ [][ANext]_(A!vars)
\* Readers never find anything torn
NeverTorn == \A w \in W1 : pc[w] = "parse" => file[K(w)] # Torn
===============================================================================
