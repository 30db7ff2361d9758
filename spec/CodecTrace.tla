------------------------------ MODULE CodecTrace ------------------------------
(* Checks what the real encoders and decoders did against module Codec. An    *)
(* event is one call; the events of a trace were applied to the same objects. *)
EXTENDS Codec, TLC, Json, IOUtils

CONSTANT LENS
D == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>

Chk(tags, c) == (LENS \notin tags /\ LENS # "ALL") \/ c

\* The message an encoding call was asked to encode
Asked(e) ==
  [Msg(e.f, e.enc, IF HasId(e.f) THEN e.id ELSE NoId, e.name, e.pld) EXCEPT
     !.maj = e.maj, !.min = e.min, !.rt = e.rt, !.bs = e.bs]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

EncOK(e) ==
  LET m == Asked(e)
      ok == IF e.safe THEN Representable(m) ELSE Lengths(m)
      b == IF Lengths(m) THEN Bytes(m) ELSE <<>>
  IN
  /\ e.out # "panic"
  \* The writer is closed exactly once and not used afterwards
  /\ Chk({"C18"}, e.closes = 1 /\ ~e.misuse)
  /\ IF ~e.safe /\ ok /\ ~Representable(m) THEN TRUE
     ELSE IF ~ok
     THEN Chk({"C18"}, e.out = "err" /\ e.w = <<>>)
     ELSE IF e.hit
     THEN Chk({"C18"}, e.out = "err" /\ IsPrefixOf(e.w, b))
     ELSE /\ Chk({"C16", "C18"}, e.out = "ok" /\ e.w = b)
          /\ Chk({"C16"}, e.calc = -1 \/ e.calc = Len(b))

\* Connection.Signal: guarded by the buffer size of the server
SignalOK(e) ==
  LET m == Asked(e)
      b == IF Lengths(m) THEN Bytes(m) ELSE <<>>
  IN
  /\ e.out # "panic"
  /\ Chk({"C18"}, e.closes = e.opened /\ ~e.misuse)
  /\ IF ~Representable(m) \/ Len(b) > e.buf
     THEN Chk({"C18"}, e.out = "err" /\ e.w = <<>>)
     ELSE IF e.hit
     THEN Chk({"C18"}, e.out = "err" /\ IsPrefixOf(e.w, b))
     ELSE Chk({"C16", "C18"}, e.out = "ok" /\ e.w = b)

ConfOK(e) ==
  /\ Chk({"C16", "C25"}, e.out = "ok" /\ e.w = Bytes(Asked(e)))

Same(m, r) ==
  /\ r.t = Type(m) /\ r.id = m.id /\ r.idb = m.id
  /\ r.name = m.name
  /\ r.enc = m.enc
  /\ IF m.k = "conf"
     THEN /\ r.pld = <<>>
          /\ r.maj = m.maj /\ r.min = m.min /\ r.rt = m.rt /\ r.bs = m.bs
          /\ r.sub = m.pld
     ELSE /\ r.pld = m.pld
          /\ r.maj = 0 /\ r.min = 0 /\ r.rt = Zero2 /\ r.bs = Zero2 /\ r.sub = <<>>

\* e.buf is the size of the buffer the message is decoded into, e.rerr tells
\* that the reader failed before its end
DecOK(e) ==
  LET m == Denoted(e.b)
      valid == ~e.rerr /\ Len(e.b) <= e.buf /\ m # Nothing
      \* whether this input was produced by the encoder
      wellformed == valid /\ Printable(m.name) /\ ~Loose(m)
  IN
  /\ Chk({"C17"}, e.out # "panic")
  /\ Chk({"C16"}, wellformed => e.out = "ok" /\ Same(m, e.r))
  /\ Chk({"C17"},
       IF ~valid THEN e.out \in {"err", "none"}
       ELSE IF Loose(m) THEN e.out = "ok" => Same(Plain(m), e.r)
       ELSE e.out = "ok" /\ Same(m, e.r))

UtfOK(e) ==
  /\ Chk({"C19"}, e.out # "panic" /\ ~e.mod)
  /\ Chk({"C19"},
       IF e.enc # "utf16" THEN e.out = "ok" /\ e.u = e.b
       ELSE IF Odd(Len(e.b)) THEN e.out = "err"
       ELSE e.out = "ok" /\ e.u = Utf8View(e.b))

Event(e) ==
  CASE e.e = "enc"  -> EncOK(e)
    [] e.e = "sig"  -> SignalOK(e)
    [] e.e = "conf" -> ConfOK(e)
    [] e.e = "dec"  -> DecOK(e)
    [] e.e = "utf"  -> UtfOK(e)
    [] e.e = "crash" -> FALSE

Evs == D.traces[tr].ev
Init == tr \in 1..Len(D.traces) /\ l = 1
Next == l <= Len(Evs) /\ Event(Evs[l]) /\ l' = l + 1 /\ tr' = tr
TSpec == Init /\ [][Next]_vars
Report == l > Len(Evs) => PrintT(<<"ACC", tr>>)
Progress == PrintT(<<"MAX", tr, l>>)
=============================================================================
