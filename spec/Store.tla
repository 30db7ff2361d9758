--------------------------------- MODULE Store ---------------------------------
(* The default session manager: a persistent store of sessions. Operations of   *)
(* concurrent workers take effect atomically within their interval; failing     *)
(* writes make them fail, a crash ends them either before or after their effect.*)
EXTENDS Integers, FiniteSets, Sequences, TLC

\* ClassOf: "good" keys must work, "odd" ones are plain file names that needn't be
\* accepted, "bad" ones are no plain file names
CONSTANTS LENS, ClassOf(_)
VARIABLES
  tr,
  st,    \* key -> the session stored: the call that created it, or 0
  by,    \* key -> the call that set the last lookup time
  tomb,  \* key -> was closed while it didn't exist
  sys,   \* fault: writes may fail; fin
  wk
vars == <<tr, st, by, tomb, sys, wk>>

Keys == 1..40
Workers == 1..6
Chk(tags, c) == (LENS \notin tags /\ LENS # "ALL") \/ c
Idle == [k |-> "", key |-> 0, n |-> 0, bad |-> FALSE, res |-> "", c |-> 0, by |-> 0,
         doom |-> FALSE, over |-> FALSE, fl |-> FALSE, gone |-> FALSE]

InitBut(t) ==
  /\ tr = t
  /\ st = [k \in Keys |-> 0] /\ by = [k \in Keys |-> 0]
  /\ tomb = [k \in Keys |-> FALSE]
  /\ sys = [fault |-> FALSE, fin |-> FALSE]
  /\ wk = [w \in Workers |-> Idle]

Key(w) == wk[w].key
Open(w, k) == wk[w].k = k /\ wk[w].res = "" /\ ~wk[w].gone

Call(w, k, key, n, bad) ==
  /\ wk[w] = Idle
  /\ wk' = [v \in Workers |->
       IF v = w
       THEN [Idle EXCEPT !.k = k, !.key = key, !.n = n, !.bad = bad, !.fl = sys.fault,
               !.over = \E u \in Workers : Open(u, "close") /\ Key(u) = key]
       \* the connection of the session loses it
       ELSE IF k = "close" /\ wk[v].k = "create" /\ Key(v) = key
       THEN [wk[v] EXCEPT !.over = TRUE] ELSE wk[v]]
  /\ UNCHANGED <<tr, st, by, tomb, sys>>

---------------------------------------------------------------------------
CreateOK(w) ==
  /\ Open(w, "create")
  /\ Chk({"C15"}, ClassOf(Key(w)) # "bad")
  /\ Chk({"C14"}, ~wk[w].bad /\ ~wk[w].doom)
  /\ st' = [st EXCEPT ![Key(w)] = wk[w].n]
  /\ by' = [by EXCEPT ![Key(w)] = wk[w].n]
  /\ tomb' = [tomb EXCEPT ![Key(w)] = FALSE]
  /\ wk' = [wk EXCEPT ![w].res = "ok"]
  /\ UNCHANGED <<tr, sys>>
CreateErr(w) ==
  /\ Open(w, "create")
  /\ Chk({"C14"}, \/ ClassOf(Key(w)) # "good" \/ wk[w].bad \/ wk[w].doom \/ wk[w].over
                  \/ tomb[Key(w)] \/ st[Key(w)] # 0 \/ wk[w].fl)
  /\ \E stored \in BOOLEAN :
       /\ stored => /\ wk[w].fl /\ ~wk[w].doom /\ ~wk[w].bad
                    /\ ClassOf(Key(w)) # "bad"
       /\ st' = IF stored THEN [st EXCEPT ![Key(w)] = wk[w].n] ELSE st
       /\ by' = IF stored THEN [by EXCEPT ![Key(w)] = wk[w].n] ELSE by
  /\ wk' = [wk EXCEPT ![w].res = "err"]
  /\ UNCHANGED <<tr, tomb, sys>>

Found(w) ==
  /\ Open(w, "lookup") /\ st[Key(w)] # 0
  /\ wk' = [wk EXCEPT ![w].res = "found", ![w].c = st[Key(w)], ![w].by = by[Key(w)]]
  /\ by' = [by EXCEPT ![Key(w)] = wk[w].n]
  /\ UNCHANGED <<tr, st, tomb, sys>>
NotFound(w) ==
  /\ Open(w, "lookup") /\ st[Key(w)] = 0
  /\ wk' = [wk EXCEPT ![w].res = "none"]
  /\ UNCHANGED <<tr, st, by, tomb, sys>>
LookupErr(w) ==
  /\ Open(w, "lookup") /\ Chk({"C14"}, wk[w].fl)
  /\ Chk({"C15"}, ClassOf(Key(w)) # "bad")
  /\ \E adv \in BOOLEAN : by' = IF adv THEN [by EXCEPT ![Key(w)] = wk[w].n] ELSE by
  /\ wk' = [wk EXCEPT ![w].res = "err"]
  /\ UNCHANGED <<tr, st, tomb, sys>>

CloseOK(w) ==
  /\ Open(w, "close") /\ st[Key(w)] # 0
  /\ st' = [st EXCEPT ![Key(w)] = 0]
  /\ wk' = [wk EXCEPT ![w].res = "ok"]
  /\ UNCHANGED <<tr, by, tomb, sys>>
\* It may be about to be created. It must not be from now on
CloseAbsent(w) ==
  /\ Open(w, "close") /\ st[Key(w)] = 0
  /\ tomb' = [tomb EXCEPT ![Key(w)] = TRUE]
  /\ \E r \in {"ok", "err"} :
     wk' = [v \in Workers |->
              IF v = w THEN [wk[v] EXCEPT !.res = r]
              ELSE IF Open(v, "create") /\ Key(v) = Key(w)
              THEN [wk[v] EXCEPT !.doom = TRUE] ELSE wk[v]]
  /\ UNCHANGED <<tr, st, by, sys>>
CloseErr(w) ==
  /\ Open(w, "close") /\ st[Key(w)] # 0 /\ Chk({"C14"}, wk[w].fl)
  /\ \E gone \in BOOLEAN : st' = IF gone THEN [st EXCEPT ![Key(w)] = 0] ELSE st
  /\ wk' = [wk EXCEPT ![w].res = "err"]
  /\ UNCHANGED <<tr, by, tomb, sys>>

Effect(w) == CreateOK(w) \/ CreateErr(w) \/ Found(w) \/ NotFound(w) \/ LookupErr(w)
             \/ CloseOK(w) \/ CloseAbsent(w) \/ CloseErr(w)

\* r: result, c: the session, i: whether its info is right, b: the calls that
\* may have set the last lookup time reported
Ret(w, r, c, i, b) ==
  /\ wk[w].k # ""
  /\ \/ wk[w].gone
     \/ r = "fail" \* there was no answer, that's another matter
     \/ /\ wk[w].res # "" /\ r = wk[w].res
        /\ r = "found" => /\ c = wk[w].c
                          /\ Chk({"C14"}, i /\ b \cap {wk[w].by, wk[w].n} # {})
  /\ wk' = [wk EXCEPT ![w] = Idle]
  /\ UNCHANGED <<tr, st, by, tomb, sys>>

SetFault(v) ==
  /\ sys' = [sys EXCEPT !.fault = v]
  /\ wk' = [w \in Workers |-> IF wk[w].k = "" THEN Idle
                              ELSE [wk[w] EXCEPT !.fl = @ \/ v]]
  /\ UNCHANGED <<tr, st, by, tomb>>
\* The end of the process and its successor
Restart ==
  /\ wk' = [w \in Workers |-> IF wk[w].k = "" THEN Idle
                              ELSE [wk[w] EXCEPT !.gone = TRUE]]
  /\ tomb' = [k \in Keys |-> FALSE]
  /\ UNCHANGED <<tr, st, by, sys>>
\* Nothing is going on. Is everything else unharmed?
Quiet(blocked, out) ==
  /\ {w \in Workers : wk[w].k # ""} = blocked
  /\ \A w \in blocked : wk[w].gone
  /\ Chk({"C15"}, out)
  /\ UNCHANGED vars
===============================================================================
