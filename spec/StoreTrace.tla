------------------------------ MODULE StoreTrace ------------------------------
EXTENDS Store, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACES)
VARIABLE l
tvars == <<vars, l>>
TClassOf(k) == D.heads[D.traces[tr].h].class[k]
Evs == D.traces[tr].ev
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
SetOf(s) == {s[i] : i \in DOMAIN s}

Event(e) ==
  IF sys.fin THEN e.e \notin {"crash", "livelock", "stuck", "leak", "overflow"} /\ UNCHANGED vars
  ELSE CASE e.e = "call" -> Call(e.w, e.k, e.key, e.n, Get(e, "i", 0) = 5)
    [] e.e = "ret"  -> Ret(e.w, e.r, Get(e, "c", 0), Get(e, "i", FALSE),
                           SetOf(Get(e, "by", <<>>)))
    [] e.e = "env" -> (CASE e.k \in {"limit", "ro"} -> SetFault(TRUE)
                         [] e.k = "heal" -> SetFault(FALSE)
                         [] e.k = "restart" -> Restart)
    [] e.e = "quiet" -> Quiet(SetOf(e.blocked), e.out)
    [] e.e = "finish" -> sys' = [sys EXCEPT !.fin = TRUE] /\ UNCHANGED <<tr, st, by, tomb, wk>>
    [] e.e \in {"crash", "livelock", "stuck", "leak", "overflow"} -> FALSE

TInit == (\E i \in 1..Len(D.traces) : InitBut(i)) /\ l = 1 /\ TLCSet(tr, 0)
TNext ==
  /\ l <= Len(Evs)
  /\ \/ Event(Evs[l]) /\ l' = l + 1
     \/ ~sys.fin /\ l' = l /\ \E w \in Workers : wk[w].k # "" /\ Effect(w)
TSpec == TInit /\ [][TNext]_tvars
Report ==
  IF l > Len(Evs) THEN TLCGet(tr) = 0 /\ TLCSet(tr, 1) /\ PrintT(<<"ACC", tr>>)
  ELSE TLCGet(tr) = 0
Progress == IF l > TLCGet(tr)
            THEN TLCSet(tr, l) /\ PrintT(<<"MAX", tr, l, st, by, sys, wk>>) ELSE TRUE
================================================================================
