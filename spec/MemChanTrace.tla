----------------------------- MODULE MemChanTrace -----------------------------
EXTENDS MemChan, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACES)
VARIABLE l
tvars == <<vars, l>>
TSizeOf(i) == D.heads[D.traces[i].h].size
Evs == D.traces[tr].ev
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
SetOf(s) == {s[i] : i \in DOMAIN s}

Event(e) ==
  IF sys.fin THEN e.e \notin {"crash", "livelock", "stuck", "leak", "overflow"} /\ UNCHANGED vars
  ELSE CASE e.e = "call" -> Call(e.w, e.k, Get(e, "s", 0), Get(e, "d", ""),
                                 Get(e, "dl", ""), Get(e, "b", <<>>))
    [] e.e = "ret"  -> Ret(e.w, e.r, Get(e, "b", <<>>))
    [] e.e = "newconn" -> NewConn(e.s, e.opt)
    [] e.e = "env" -> (CASE e.k = "flag" -> SetFlag(e.v)
                         [] e.k = "refuse" -> SetRefuse(e.v)
                         [] e.k = "sleep" -> Sleep)
    [] e.e = "quiet" -> Quiet(SetOf(e.blocked), SetOf(e.conn), e.same)
    [] e.e = "finish" -> sys' = [sys EXCEPT !.fin = TRUE] /\ UNCHANGED <<tr, pr, wr, wk>>
    [] e.e \in {"crash", "livelock", "stuck", "leak", "overflow"} -> FALSE

TInit == (\E i \in 1..Len(D.traces) : InitBut(i)) /\ l = 1 /\ TLCSet(tr, 0)
TNext ==
  /\ l <= Len(Evs)
  /\ \/ Event(Evs[l]) /\ l' = l + 1
     \/ ~sys.fin /\ l' = l /\ \E w \in Workers : wk[w].k # "" /\ Effect(w)
TSpec == TInit /\ [][TNext]_tvars
Report ==
  IF l > Len(Evs) THEN TLCGet(tr) = 0 /\ TLCSet(tr, 1) /\ PrintT(<<"ACC", tr>>)
  ELSE TLCGet(tr) = 0
Progress == IF l > TLCGet(tr)
            THEN TLCSet(tr, l) /\ PrintT(<<"MAX", tr, l, pr, wr, sys, wk>>) ELSE TRUE
================================================================================
