-------------------------------- MODULE ConfigMC --------------------------------
(* All combinations of options at and around their boundaries                     *)
EXTENDS Config, Json, IOUtils
CONSTANTS PART
VARIABLES o, mode
mvars == <<cvars, o, mode>>
Digits(n) == <<n % 65536, n \div 65536>>
D3(n) == Digits(n) \o <<0>>
T(n) == [neg |-> FALSE, ms |-> D3(n), sub |-> FALSE]
RTs == {T(0), T(1), T(999), T(1000), T(1001), T(59999), T(60000), T(65535), T(65536),
        T(3600000),
        [neg |-> TRUE, ms |-> D3(1), sub |-> FALSE], [neg |-> TRUE, ms |-> D3(5000), sub |-> FALSE],
        [T(999) EXCEPT !.sub = TRUE], [T(1000) EXCEPT !.sub = TRUE], [T(0) EXCEPT !.sub = TRUE],
        [neg |-> FALSE, ms |-> <<65535, 32767, 0>>, sub |-> FALSE],
        [neg |-> FALSE, ms |-> <<0, 32768, 0>>, sub |-> FALSE],
        [neg |-> FALSE, ms |-> <<65534, 65535, 0>>, sub |-> FALSE],
        [neg |-> FALSE, ms |-> <<65535, 65535, 0>>, sub |-> FALSE],
        [neg |-> FALSE, ms |-> <<65535, 65535, 0>>, sub |-> TRUE],
        [neg |-> FALSE, ms |-> <<0, 0, 1>>, sub |-> FALSE],
        [neg |-> FALSE, ms |-> <<1, 0, 1>>, sub |-> FALSE],
        [neg |-> FALSE, ms |-> <<60000, 0, 1>>, sub |-> FALSE],
        [neg |-> FALSE, ms |-> <<500, 0, 2>>, sub |-> FALSE],
        [neg |-> FALSE, ms |-> <<0, 0, 2147>>, sub |-> FALSE]}
Bufs == {Digits(n) : n \in {0, 1, 2, 16, 30, 31, 32, 33, 64, 100, 255, 256, 1023, 1024, 1025, 2048,
                            4096, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 131073}}
        \cup {<<0, 256>>, <<65535, 32767>>, <<0, 32768>>, <<65535, 65535>>, <<31, 1>>, <<0, 65535>>}
Opt(rt, buf, ses, mgr, gen, par, max, impl, tr, trerr) ==
  [rt |-> rt, buf |-> buf, ses |-> ses, mgr |-> mgr, gen |-> gen, par |-> par, max |-> max,
   impl |-> impl, tr |-> tr, trerr |-> trerr, sub |-> <<>>]
Numbers == {Opt(rt, b, 0, TRUE, TRUE, TRUE, 0, TRUE, TRUE, FALSE) : rt \in RTs, b \in Bufs}
Switches == {Opt(T(5000), DefaultBuffer, ses, m, g, p, x, i, t, e) :
  ses \in 0..2, m \in BOOLEAN, g \in BOOLEAN, p \in BOOLEAN, x \in 0..5,
  i \in BOOLEAN, t \in BOOLEAN, e \in BOOLEAN}
All == IF PART = "numbers" THEN Numbers ELSE Switches
MCInit == srv = NoServer /\ ncon = 0 /\ mode = "new" /\ o \in All
Eff == Effective(o)
MCNext ==
  \/ /\ mode = "new" /\ mode' = "on"
     /\ \E out \in {"ok", "err"} :
        New(o, out, [ses |-> Eff.ses, buf |-> Eff.buf, sub |-> Eff.sub, max |-> Eff.max,
                     rt |-> [neg |-> FALSE, ms |-> Eff.rt], par |-> TRUE, logs |-> TRUE,
                     mgr |-> TRUE, gen |-> TRUE, inits |-> 1])
  \/ /\ mode = "on" /\ srv.on /\ mode' = "ses"
     /\ Create([ok |-> srv.ses, mgr |-> srv.ses /\ srv.mgr, file |-> srv.ses /\ ~srv.mgr,
                gen |-> srv.ses /\ srv.gen, key |-> srv.ses /\ ~srv.gen])
  \/ /\ mode = "ses" /\ mode' = mode /\ ncon < 7
     /\ \E k \in BOOLEAN : \E r \in {"rep", "max", "none", "disabled"} :
          Restore([known |-> k, res |-> r])
MCSpec == MCInit /\ [][MCNext /\ o' = o]_mvars
\* The announcement of a valid configuration is a message that denotes it
Faithful == srv.on =>
  LET m == Denoted(Announcement(srv)) IN
  /\ m # Nothing /\ m.k = "conf" /\ m.maj = 2 /\ m.min = 0
  /\ m.rt \o <<0>> = srv.rt /\ m.bs = srv.buf /\ m.pld = srv.sub
Limits == srv.on => /\ LE(MinBuffer, srv.buf) /\ LE(Second, srv.rt)
                    /\ srv.max > 0 => ncon <= srv.max
\* Whether there's a server is determined by the options
Decided == mode # "new" => srv.on = (Valid(o) /\ ~o.trerr)
Grid == /\ MCInit
        /\ PrintT(<<"SCN", ToJson(o)>>)
GenSpec == Grid /\ [][FALSE]_mvars
===============================================================================
