------------------------------ MODULE ConfigTrace ------------------------------
EXTENDS Config, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<cvars, tr, l>>
Evs == D.traces[tr].ev
Event(e) ==
  CASE e.e = "new" -> New(e, e.out, IF "eff" \in DOMAIN e THEN e.eff ELSE <<>>)
    [] e.e = "conn" -> Connect(e)
    [] e.e = "req" -> Request(e)
    [] e.e = "sig" -> Signal(e)
    [] e.e = "create" -> Create(e)
    [] e.e = "restore" -> Restore(e)
    [] e.e = "info" -> Info(e)
    [] e.e \in {"fail", "crash"} -> FALSE
TInit == srv = NoServer /\ ncon = 0 /\ tr \in 1..Len(D.traces) /\ l = 1
TNext == l <= Len(Evs) /\ Event(Evs[l]) /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_tvars
Report == l > Len(Evs) => PrintT(<<"ACC", tr>>)
Progress == PrintT(<<"MAX", tr, l, srv, ncon>>)
================================================================================
