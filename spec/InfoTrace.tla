------------------------------- MODULE InfoTrace -------------------------------
EXTENDS Info, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<hs, tr, l>>
Evs == D.traces[tr].ev
TInit == hs = <<>> /\ tr \in 1..Len(D.traces) /\ l = 1
TNext == l <= Len(Evs) /\ Evs[l].e \notin {"crash", "panic"} /\ Op(Evs[l])
         /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_tvars
Report == l > Len(Evs) => PrintT(<<"ACC", tr>>)
Progress == PrintT(<<"MAX", tr, l, hs>>)
================================================================================
