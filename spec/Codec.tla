-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The wire format of the webwire protocol: which messages exist, which of  *)
(* them the protocol can represent, which bytes represent them, and what a  *)
(* sequence of bytes denotes. Bytes are numbers, texts sequences of bytes.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Message types by kind and encoding
TypeNo == [err |-> 0, shutdown |-> 1, internal |-> 2, notfound |-> 3, max |-> 4,
           disabled |-> 5, created |-> 21, closed |-> 22, conf |-> 23,
           closereq |-> 31, restore |-> 32, hb |-> 33]
EncNo == [bin |-> 0, utf8 |-> 1, utf16 |-> 2]
SigNo == 63
ReqNo == 127
RepNo == 191

Special == {"shutdown", "internal", "notfound", "max", "disabled"}
Encs == {"bin", "utf8", "utf16"}

NoId == <<0, 0, 0, 0, 0, 0, 0, 0>>
NoConf == [maj |-> 0, min |-> 0, rt |-> 0, bs |-> 0, sub |-> <<>>]
\* rt and bs are pairs of 16-bit numbers (TLC's integers have 32 bits)
Zero2 == <<0, 0>>

Msg(k, e, id, name, pld) ==
  [k |-> k, enc |-> e, id |-> id, name |-> name, pld |-> pld,
   maj |-> 0, min |-> 0, rt |-> Zero2, bs |-> Zero2]

Type(m) ==
  CASE m.k = "sig" -> SigNo + EncNo[m.enc]
    [] m.k = "req" -> ReqNo + EncNo[m.enc]
    [] m.k = "rep" -> RepNo + EncNo[m.enc]
    [] OTHER       -> TypeNo[m.k]

Printable(t) == \A i \in 1..Len(t) : t[i] >= 32 /\ t[i] <= 126
Odd(n) == n % 2 = 1

\* Can the protocol carry this message?
Lengths(m) ==
  CASE m.k \in {"sig", "req"} ->
         /\ Len(m.name) <= 255
         /\ Len(m.name) > 0 \/ Len(m.pld) > 0
         /\ m.enc = "utf16" => ~Odd(Len(m.pld))
    [] m.k = "rep"     -> m.enc = "utf16" => ~Odd(Len(m.pld))
    [] m.k = "err"     -> Len(m.name) \in 1..255
    [] m.k = "restore" -> Len(m.pld) > 0
    [] m.k = "created" -> Len(m.pld) > 0
    [] OTHER           -> TRUE
Representable(m) ==
  Lengths(m) /\ (m.k \in {"sig", "req", "err"} => Printable(m.name))

Pad(c) == IF c THEN <<0>> ELSE <<>>
LE4(p) == <<p[1] % 256, p[1] \div 256, p[2] % 256, p[2] \div 256>>

\* The bytes of a message
Bytes(m) ==
  CASE m.k = "sig" ->
         <<Type(m), Len(m.name)>> \o m.name \o
         Pad(m.enc = "utf16" /\ Odd(Len(m.name))) \o m.pld
    [] m.k = "req" ->
         <<Type(m)>> \o m.id \o <<Len(m.name)>> \o m.name \o
         Pad(m.enc = "utf16" /\ Odd(Len(m.name))) \o m.pld
    [] m.k = "rep" -> <<Type(m)>> \o m.id \o Pad(m.enc = "utf16") \o m.pld
    [] m.k = "err" -> <<Type(m)>> \o m.id \o <<Len(m.name)>> \o m.name \o m.pld
    [] m.k = "restore" -> <<Type(m)>> \o m.id \o m.pld
    [] m.k = "closereq" \/ m.k \in Special -> <<Type(m)>> \o m.id
    [] m.k \in {"hb", "closed"} -> <<Type(m)>>
    [] m.k = "created" -> <<Type(m)>> \o m.pld
    [] m.k = "conf" ->
         <<Type(m), m.maj, m.min>> \o LE4(m.rt) \o LE4(m.bs) \o m.pld

\* What a sequence of bytes denotes: a message, or nothing. The parts of a
\* message are determined by the type and the length flag.
Nothing == [k |-> "nothing"]
Slice(b, i, j) == IF j < i THEN <<>> ELSE SubSeq(b, i, j)
KindOf(t) ==
  CASE t \in SigNo..SigNo + 2 -> "sig"
    [] t \in ReqNo..ReqNo + 2 -> "req"
    [] t \in RepNo..RepNo + 2 -> "rep"
    [] \E k \in DOMAIN TypeNo : TypeNo[k] = t ->
         CHOOSE k \in DOMAIN TypeNo : TypeNo[k] = t
    [] OTHER -> "none"
EncOf(t) ==
  LET n == CASE t \in SigNo..SigNo + 2 -> t - SigNo
             [] t \in ReqNo..ReqNo + 2 -> t - ReqNo
             [] t \in RepNo..RepNo + 2 -> t - RepNo
             [] OTHER -> 0
  IN CHOOSE e \in Encs : EncNo[e] = n
HasId(k) == k \in {"req", "rep", "err", "restore", "closereq"} \cup Special
HasName(k) == k \in {"sig", "req", "err"}

\* A candidate, if the bytes suffice for its fixed parts
Candidate(b) ==
  LET n  == Len(b)
      k  == IF n = 0 THEN "none" ELSE KindOf(b[1])
      e  == IF n = 0 THEN "bin" ELSE EncOf(b[1])
      i0 == IF HasId(k) THEN 9 ELSE 1           \* end of the identifier
  IN IF k = "none" \/ n < i0 THEN Nothing
     ELSE
     LET id == IF HasId(k) THEN Slice(b, 2, 9) ELSE NoId IN
     IF k = "conf" THEN
       IF n < 11 THEN Nothing
       ELSE [Msg(k, "bin", NoId, <<>>, Slice(b, 12, n)) EXCEPT
               !.maj = b[2], !.min = b[3],
               !.rt = <<b[4] + 256 * b[5], b[6] + 256 * b[7]>>,
               !.bs = <<b[8] + 256 * b[9], b[10] + 256 * b[11]>>]
     ELSE IF HasName(k) THEN
       IF n < i0 + 1 \/ n < i0 + 1 + b[i0 + 1] THEN Nothing
       ELSE LET nl == b[i0 + 1]
                p0 == i0 + 1 + nl + (IF e = "utf16" /\ Odd(nl) THEN 1 ELSE 0)
            IN IF n < p0 THEN Nothing
               ELSE Msg(k, e, id, Slice(b, i0 + 2, i0 + 1 + nl), Slice(b, p0 + 1, n))
     ELSE IF k = "rep" /\ e = "utf16" /\ n < 10 THEN Nothing
     ELSE LET p0 == IF k = "rep" /\ e = "utf16" THEN i0 + 1 ELSE i0
          IN Msg(k, e, id, <<>>, Slice(b, p0 + 1, n))

\* Exactly the specified length for the kinds without variable parts
FixedLen(k) == k \in {"hb", "closed", "closereq"}
Denoted(b) ==
  LET m == Candidate(b) IN
  IF m = Nothing THEN Nothing
  ELSE IF FixedLen(m.k) /\ Len(m.pld) > 0 THEN Nothing
  ELSE IF ~Lengths(m) THEN Nothing
  ELSE m

\* Replies that consist of type and identifier only: whether excess bytes are
\* tolerated isn't specified, but they never mean anything
Loose(m) == m.k \in Special /\ Len(m.pld) > 0
Plain(m) == IF m.k \in Special THEN [m EXCEPT !.pld = <<>>] ELSE m

(***************************************************************************)
(* UTF16 (little endian) texts and their UTF8 encoding                      *)
(***************************************************************************)
Unit(b, i) == b[2 * i - 1] + 256 * b[2 * i]
IsHigh(u) == u >= 55296 /\ u <= 56319
IsLow(u) == u >= 56320 /\ u <= 57343
Utf8Of(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
                  128 + ((c \div 64) % 64), 128 + (c % 64)>>
Replacement == 65533
RECURSIVE Utf8From(_, _, _)
Utf8From(b, i, n) ==
  IF i > n THEN <<>>
  ELSE LET u == Unit(b, i) IN
       IF IsHigh(u) /\ i < n /\ IsLow(Unit(b, i + 1))
       THEN Utf8Of(65536 + (u - 55296) * 1024 + (Unit(b, i + 1) - 56320)) \o
            Utf8From(b, i + 2, n)
       ELSE Utf8Of(IF IsHigh(u) \/ IsLow(u) THEN Replacement ELSE u) \o
            Utf8From(b, i + 1, n)
Utf8View(b) == Utf8From(b, 1, Len(b) \div 2)
=============================================================================
