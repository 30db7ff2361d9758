--------------------------------- MODULE Config ---------------------------------
(* The options of a server: which of them are valid, what unset ones stand for,   *)
(* what's announced to every client and what's enforced. Numbers that exceed      *)
(* TLC's integers are sequences of 16-bit digits, lowest first.                   *)
EXTENDS Codec, TLC
VARIABLES srv,  \* the options in effect, or NoServer
          ncon  \* connections of the session
cvars == <<srv, ncon>>
NoServer == [on |-> FALSE]

RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i = 0 THEN FALSE
                 ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less(a, b, i - 1)
LT(a, b) == Less(a, b, Len(a))
LE(a, b) == ~LT(b, a)

MinBuffer == <<32, 0>>
DefaultBuffer == <<8192, 0>>
DefaultTimeout == <<60000, 0, 0>>  \* in milliseconds
Second == <<1000, 0, 0>>

Timeout(o) == IF o.rt.neg \/ LT(o.rt.ms, Second) THEN DefaultTimeout ELSE o.rt.ms
Buffer(o) == IF o.buf = <<0, 0>> THEN DefaultBuffer ELSE o.buf
Valid(o) ==
  /\ o.impl /\ o.tr
  /\ ~LT(Buffer(o), MinBuffer)
  /\ Timeout(o)[3] = 0          \* the handshake has 32 bits for it
Effective(o) ==
  [on |-> TRUE, rt |-> Timeout(o), buf |-> Buffer(o), ses |-> o.ses # 1,
   mgr |-> o.mgr, gen |-> o.gen, par |-> o.par, max |-> o.max, sub |-> o.sub]
Announcement(s) ==
  Bytes([Msg("conf", "bin", NoId, <<>>, s.sub) EXCEPT
           !.maj = 2, !.min = 0, !.rt = <<s.rt[1], s.rt[2]>>, !.bs = s.buf])

\* Creating a server
New(o, out, eff) ==
  /\ out = IF Valid(o) /\ ~o.trerr THEN "ok" ELSE "err"
  /\ srv' = IF out = "ok" THEN Effective(o) ELSE NoServer
  /\ ncon' = 0
  /\ out = "ok" =>
     LET s == Effective(o) IN
     /\ eff.ses = s.ses /\ eff.buf = s.buf /\ eff.sub = s.sub /\ eff.max = s.max
     /\ ~eff.rt.neg /\ eff.rt.ms = s.rt
     /\ eff.par /\ eff.logs /\ (s.ses => eff.mgr /\ eff.gen)
     /\ eff.inits = 1
\* A client connects: what it's told, how it's understood, what's enforced
Connect(e) ==
  /\ srv.on
  /\ e.b = Announcement(srv)
  /\ e.pok /\ e.p = [maj |-> 2, min |-> 0, rt |-> [neg |-> FALSE, ms |-> srv.rt],
                     buf |-> srv.buf, sub |-> srv.sub]
  /\ e.dl /\ e.cap = srv.buf
  /\ UNCHANGED cvars
Request(e) ==
  /\ srv.on
  /\ IF LE(e.n, srv.buf) THEN e.res = "rep" /\ e.handled = 1
     ELSE e.res = "closed" /\ e.handled = 0
  /\ UNCHANGED cvars
Signal(e) ==
  /\ srv.on
  /\ IF LE(e.n, srv.buf) THEN e.res = "ok" /\ e.out = e.n
     ELSE e.res = "err" /\ e.out = <<0, 0>>
  /\ UNCHANGED cvars
Create(e) ==
  /\ srv.on
  /\ e.ok = srv.ses
  /\ e.mgr = (srv.ses /\ srv.mgr) /\ e.file = (srv.ses /\ ~srv.mgr)
  /\ e.gen = (srv.ses /\ srv.gen) /\ e.key = (srv.ses /\ ~srv.gen)
  /\ ncon' = IF e.ok THEN 1 ELSE 0
  /\ UNCHANGED srv
Restore(e) ==
  /\ srv.on
  /\ LET fits == srv.max = 0 \/ ncon < srv.max IN
     /\ e.res = (IF ~srv.ses THEN "disabled" ELSE IF ~e.known THEN "none"
                 ELSE IF fits THEN "rep" ELSE "max")
     /\ ncon' = IF srv.ses /\ e.known /\ fits THEN ncon + 1 ELSE ncon
  /\ UNCHANGED srv
Info(e) ==
  /\ srv.on /\ e.par = srv.par /\ e.def = ~srv.par
  /\ UNCHANGED cvars
===============================================================================
