------------------------------- MODULE ReqManMC -------------------------------
(* Closed model: every sequence of calls of NW workers on NQ requests. With GEN   *)
(* it prints the calls of random behaviours, which are replayed by the driver.   *)
EXTENDS ReqMan, Json
CONSTANTS NW, NQ, NC, MAXCALLS, GEN
VARIABLES n, h
mcvars == <<vars, n, h>>
MCInit == Init0 /\ n = 0 /\ h = <<>>
W == 1..NW
Created == {q \in 1..NQ : req[q].st # "none" \/ \E w \in W : wk[w].k = "create" /\ wk[w].q = q}
Awaited == {q \in 1..NQ : \E i \in DOMAIN h : h[i].k = "await" /\ h[i].q = q}
Calls ==
  {[k |-> "create", q |-> q, v |-> "", ctx |-> 0] : q \in
     IF Created = 1..NQ THEN {} ELSE {CHOOSE q \in 1..NQ : q \notin Created /\ \A p \in 1..(q-1) : p \in Created}}
  \cup {[k |-> k, q |-> q, v |-> ToString(n), ctx |-> 0] : k \in {"fulfill", "fail"}, q \in Created \cup {0}}
  \cup {[k |-> "await", q |-> q, v |-> "", ctx |-> c] : q \in Created \ Awaited, c \in 0..NC}
  \cup {[k |-> "ispending", q |-> q, v |-> "", ctx |-> 0] : q \in Created \cup {0}}
  \cup {[k |-> "count", q |-> 0, v |-> "", ctx |-> 0]}
  \cup {[k |-> k, q |-> 0, v |-> "", ctx |-> c] : k \in {"cancel", "expire"}, c \in 1..NC}
MCCall(w) ==
  /\ n < MAXCALLS /\ n' = n + 1
  /\ \E c \in Calls :
       /\ Call(w, c.k, c.q, c.v, c.ctx)
       /\ h' = Append(h, IF GEN THEN [w |-> w] @@ c ELSE [k |-> c.k, q |-> c.q])
Own(w) == [r |-> wk[w].res, id |-> ToString(wk[w].q), idb |-> ToString(wk[w].q),
           v |-> IF wk[w].k = "await" /\ wk[w].q > 0 THEN req[wk[w].q].v.v ELSE "",
           n |-> wk[w].ctx]
MCNext ==
  \/ \E w \in W : MCCall(w)
  \/ \E w \in W : (Effect(w) \/ Ret(w, Own(w))) /\ UNCHANGED <<n, h>>
MCSpec == MCInit /\ [][MCNext]_mcvars
\* Only the calls of await matter for what can happen next
View == <<vars, n, Awaited>>
GenEnd == /\ n = MAXCALLS /\ n' = n + 1 /\ PrintT(<<"SCN", ToJson(h)>>)
          /\ UNCHANGED <<vars, h>>
GenSpec == MCInit /\ [][MCNext \/ GenEnd]_mcvars
===============================================================================
