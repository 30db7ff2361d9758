------------------------------ MODULE ReqManTrace ------------------------------
EXTENDS ReqMan, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Evs == D.traces[tr].ev
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
SetOf(s) == {s[i] : i \in DOMAIN s}

Event(e) ==
  CASE e.e = "call" -> IF fin THEN UNCHANGED vars ELSE
                       Call(e.w, e.k, Get(e, "q", 0), Get(e, "v", ""), Get(e, "ctx", 0))
    [] e.e = "ret"  -> IF fin THEN UNCHANGED vars ELSE Ret(e.w, e)
    [] e.e = "quiet" -> IF fin THEN UNCHANGED vars
                        ELSE Quiet(SetOf(e.blocked), SetOf(e.pending), e.n)
    [] e.e = "finish" -> fin' = TRUE /\ UNCHANGED <<req, ctx, wk>>
    [] e.e \in {"crash", "livelock", "stuck", "leak", "overflow"} -> FALSE

TInit == tr \in 1..Len(D.traces) /\ l = 1 /\ Init0 /\ TLCSet(tr, 0)
TNext ==
  /\ l <= Len(Evs) /\ tr' = tr
  /\ \/ Event(Evs[l]) /\ l' = l + 1
     \/ ~fin /\ l' = l /\ \E w \in Workers : Effect(w)
TSpec == TInit /\ [][TNext]_tvars
Report ==
  IF l > Len(Evs) THEN TLCGet(tr) = 0 /\ TLCSet(tr, 1) /\ PrintT(<<"ACC", tr>>)
  ELSE TLCGet(tr) = 0
Progress == IF l > TLCGet(tr)
            THEN TLCSet(tr, l) /\ PrintT(<<"MAX", tr, l, req, wk>>) ELSE TRUE
================================================================================
