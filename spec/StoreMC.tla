-------------------------------- MODULE StoreMC --------------------------------
(* Closed model of the session store, and the source of generated scenarios     *)
EXTENDS Store, Json
CONSTANTS NW, NK, MAXCALLS, GEN, KINDS
VARIABLES n, h, cat,
  live,   \* sessions whose creation was confirmed and nobody tried to close
  dead,   \* sessions whose closing was confirmed
  seen    \* call -> what was live or dead, and healthy, when it began
mcvars == <<vars, n, h, cat, live, dead, seen>>
MCClassOf(k) == "good"
W1 == 1..NW
KS == 1..NK
MCInit == InitBut(0) /\ n = 0 /\ h = <<>> /\ cat = "" /\ live = {} /\ dead = {}
          /\ seen = [w \in W1 |-> [live |-> {}, dead |-> {}]]
Used == {wk[w].key : w \in {v \in W1 : wk[v].k = "create"}}
\* Keys are unique: among what's stored or being created, or ever
Fresh(k) == /\ st[k] = 0 /\ k \notin Used
            /\ \A i \in DOMAIN h : h[i].w > 0 => ~(h[i].op.k = "create" /\ h[i].op.key = k)
Weight(c) == CASE c = "lookup" -> 4 [] c = "create" -> 3 [] c = "close" -> 2 [] OTHER -> 1
Kinds == {"create", "lookup", "close"} \cup KINDS
MCCat ==
  /\ GEN /\ cat = "" /\ n < MAXCALLS
  /\ \E c \in Kinds : \E i \in 1..Weight(c) :
       /\ c = "create" => \E k \in KS : Fresh(k)
       /\ c \in {"create", "lookup", "close"} => \E w \in W1 : wk[w] = Idle
       /\ cat' = c
  /\ UNCHANGED <<vars, n, h, live, dead, seen>>
MCCall(w) ==
  /\ n < MAXCALLS /\ n' = n + 1 /\ cat' = ""
  /\ \E c \in Kinds \ KINDS : \E k \in KS :
       /\ GEN => c = cat
       /\ c = "create" => Fresh(k)
       /\ Call(w, c, k, n + 1, FALSE)
       /\ live' = IF c = "close" THEN {x \in live : x # st[k]} ELSE live
       /\ h' = IF GEN THEN Append(h, [w |-> w, op |-> [k |-> c, key |-> k, n |-> n + 1]])
               ELSE h
  /\ seen' = [seen EXCEPT ![w] = [live |-> live, dead |-> dead]]
  /\ UNCHANGED dead
MCEnv ==
  /\ n < MAXCALLS /\ n' = n + 1 /\ (GEN => cat \in KINDS) /\ cat' = ""
  /\ \E k \in KINDS :
       /\ GEN => k = cat
       /\ CASE k \in {"limit", "ro"} -> SetFault(TRUE) [] k = "heal" -> SetFault(FALSE)
            [] k = "restart" -> Restart
       /\ h' = IF GEN THEN Append(h, [w |-> 0, op |-> [k |-> k, v |-> n]]) ELSE h
  /\ UNCHANGED <<live, dead, seen>>
MCRet(w) ==
  /\ Ret(w, wk[w].res, wk[w].c, TRUE, {wk[w].by})
  /\ live' = IF wk[w].k = "create" /\ wk[w].res = "ok" /\ ~wk[w].gone /\
                ~(\E v \in W1 : wk[v].k = "close" /\ wk[v].key = Key(w)) /\ st[Key(w)] = wk[w].n
             THEN live \cup {wk[w].n} ELSE live
  /\ dead' = IF wk[w].k = "close" /\ wk[w].res = "ok" /\ ~wk[w].gone /\ st[Key(w)] = 0
             THEN dead \cup {x \in 1..n : x \in live} ELSE dead
  /\ UNCHANGED <<n, h, cat, seen>>
\* Sessions that were removed
Gone == {x \in 1..n : x \notin {st[k] : k \in KS}}
MCNext ==
  \/ \E w \in W1 : wk[w] = Idle /\ MCCall(w)
  \/ MCEnv \/ MCCat
  \/ \E w \in W1 : wk[w].k # "" /\ Effect(w) /\ UNCHANGED <<n, h, cat, live, dead, seen>>
  \/ \E w \in W1 : wk[w].k # "" /\ MCRet(w)
MCSpec == MCInit /\ [][MCNext]_mcvars
GenEnd == /\ n = MAXCALLS /\ n' = n + 1 /\ PrintT(<<"SCN", ToJson(h)>>)
          /\ UNCHANGED <<vars, h, cat, live, dead, seen>>
GenSpec == MCInit /\ [][MCNext \/ GenEnd]_mcvars

\* What was live when a lookup began and still is wasn't missed
Durable == \A w \in W1 : wk[w].k = "lookup" /\ wk[w].res \in {"none", "err"} /\ ~wk[w].gone =>
  wk[w].fl \/ \A x \in seen[w].live \cap live : st[Key(w)] # x
\* A live session is stored
LiveStored == \A x \in live : \E k \in KS : st[k] = x
\* What had been closed isn't found
NoResurrection == \A w \in W1 : wk[w].k = "lookup" /\ wk[w].res = "found" =>
  wk[w].c \notin seen[w].dead
\* What's stored has a last lookup time
Lookups == \A k \in KS : st[k] # 0 => by[k] # 0
===============================================================================
