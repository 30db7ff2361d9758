------------------------------ MODULE MemChanMC ------------------------------
EXTENDS MemChan, Json
CONSTANTS NW, NP, SIZE, MAXCALLS, GEN, KINDS
VARIABLES n, h, sent, rcvd, cat
mcvars == <<vars, n, h, sent, rcvd, cat>>
MCSizeOf(i) == SIZE
W1 == 1..NW
PS == 1..NP
MCInit == InitBut(0) /\ n = 0 /\ cat = "" /\ h = <<>>
          /\ sent = [p \in PS |-> [d \in Sides |-> <<>>]]
          /\ rcvd = [p \in PS |-> [d \in Sides |-> <<>>]]
\* Which writer a worker holds
Held(w) == {<<p, d>> \in PS \X Sides : wr[p][d].own = w}
SomeBytes == {<<63, 0, n>>, <<255>>, <<63, 0>> \o [i \in 1..(SIZE-2) |-> n],
              <<63, 0>> \o [i \in 1..SIZE |-> n], <<>>}
C(k, s, d, dl, b) == [k |-> k, s |-> s, d |-> d, dl |-> dl, b |-> b]
\* Kinds of calls. Random behaviours choose one of these before the call
Cats == {"conn", "write", "read", "sys", "env"}
CallsOf(w, c) ==
  CASE c = "conn" ->
       {C(k, p, d, "", <<>>) : k \in KINDS \cap {"close", "isconn"}, p \in
          {q \in PS : ~GEN \/ pr[q].conn}, d \in Sides}
       \cup {C("dial", p, "c", "", <<>>) : p \in {q \in PS : ~pr[q].conn}}
  [] c = "write" ->
       IF Held(w) = {}
       THEN {C("gw", p, d, "", <<>>) : p \in {q \in PS : ~GEN \/ pr[q].conn}, d \in Sides}
       ELSE {C("w", pd[1], pd[2], "", b) : pd \in Held(w), b \in SomeBytes}
            \cup {C("wc", pd[1], pd[2], dl, <<>>) : pd \in Held(w), dl \in
                     IF GEN THEN {"", "1", "2", "3"} ELSE {""}}
  [] c = "read" ->
       {C("read", p, d, dl, <<>>) : p \in PS, d \in Sides,
          dl \in {"none", "far"} \cup IF "to" \in KINDS THEN {"past", "soon"} ELSE {}}
  [] c = "sys" ->
       {C(k, 0, "", "", <<>>) : k \in KINDS \cap {"serve", "shutdown"}}
       \cup IF "odd" \in KINDS
            THEN {C("dial", p, d, "", <<>>) : p \in PS, d \in Sides}
                 \cup {C(k, 9, "c", "", <<>>) : k \in {"dial", "close", "isconn"}}
            ELSE {}
  [] OTHER -> {}
MCCall(w) ==
  /\ n < MAXCALLS /\ n' = n + 1
  /\ \E k \in IF GEN THEN {cat} ELSE Cats : \E c \in CallsOf(w, k) :
       /\ Call(w, c.k, c.s, c.d, c.dl, c.b)
       /\ h' = IF GEN THEN Append(h, [w |-> w, op |-> c]) ELSE h
  /\ cat' = ""
  /\ UNCHANGED <<sent, rcvd>>
MCCat ==
  /\ GEN /\ cat = "" /\ n < MAXCALLS
  /\ \E c \in Cats : \E i \in 1..(CASE c = "write" -> 4 [] c = "read" -> 3
                                      [] OTHER -> 1) :
       /\ cat' = c
       /\ c # "env" => \E w \in W1 : wk[w] = Idle /\ CallsOf(w, c) # {}
       /\ c = "env" => KINDS \cap {"flag", "refuse", "sleep"} # {}
  /\ UNCHANGED <<vars, n, h, sent, rcvd>>
\* The environment's moves
MCEnv ==
  /\ n < MAXCALLS /\ n' = n + 1 /\ (GEN => cat = "env") /\ cat' = "" /\ UNCHANGED <<sent, rcvd>>
  /\ \E k \in KINDS \cap {"flag", "refuse", "sleep"} : \E v \in BOOLEAN :
       /\ CASE k = "flag" -> SetFlag(v) [] k = "refuse" -> SetRefuse(v)
            [] k = "sleep" -> Sleep
       /\ h' = IF GEN THEN Append(h, [w |-> 0, op |-> [k |-> k, v |-> v]]) ELSE h
\* Announcements don't wait for anybody
MCAnn == \E p \in PS : pr[p].ann > 0 /\ NewConn(p, TRUE) /\ UNCHANGED <<n, h, sent, rcvd, cat>>
\* What was handed over, in order
MCEff(w) ==
  /\ Effect(w) /\ UNCHANGED <<n, h, cat>>
  /\ LET X == {r \in Workers : wk[r].k = "read" /\ wk[r].res = "" /\ wk'[r].res # "" /\ wk'[r].rel}
     IN /\ sent' = IF wk[w].k = "wc" /\ wk[w].res = "" /\ wk'[w].res = "ok"
                   THEN [sent EXCEPT ![P(w)][wk[w].d] = Append(@, W(w).buf)] ELSE sent
        /\ rcvd' = IF X = {} THEN rcvd
                   ELSE LET r == CHOOSE r \in X : TRUE IN
                        [rcvd EXCEPT ![P(r)][Other(wk[r].d)] = Append(@, wk'[r].b)]
MCNext ==
  \/ \E w \in W1 : wk[w] = Idle /\ MCCall(w)
  \/ MCEnv \/ MCAnn \/ MCCat
  \/ \E w \in W1 : wk[w].k # "" /\ MCEff(w)
  \/ \E w \in W1 : wk[w].k # "" /\ Ret(w, wk[w].res, wk[w].b) /\ UNCHANGED <<n, h, sent, rcvd, cat>>
MCSpec == MCInit /\ [][MCNext]_mcvars
GenEnd == /\ n = MAXCALLS /\ n' = n + 1 /\ PrintT(<<"SCN", ToJson(h)>>)
          /\ UNCHANGED <<vars, h, sent, rcvd, cat>>
GenSpec == MCInit /\ [][MCNext \/ GenEnd]_mcvars

\* Exactly once, unmodified and in order
InOrder == sent = rcvd
\* Nothing that doesn't fit is delivered, and nothing empty
Fits == \A p \in PS : \A d \in Sides : \A i \in DOMAIN rcvd[p][d] :
          Len(rcvd[p][d][i]) \in 1..SIZE
===============================================================================
