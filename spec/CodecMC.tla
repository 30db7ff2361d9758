------------------------------- MODULE CodecMC -------------------------------
(* Properties of the wire format itself, on small messages and inputs *)
EXTENDS Codec, TLC, Json, IOUtils, SequencesExt

CONSTANT MAXLEN

Texts(A, n) == UNION {[1..i -> A] : i \in 0..n}
Ids == {<<1, 2, 3, 4, 5, 6, 7, 8>>}
Small ==
  {Msg(k, e, id, n, p) : k \in {"sig", "req"}, e \in Encs, id \in Ids,
                         n \in Texts({65, 31}, 3), p \in Texts({0, 255}, 3)}
  \cup {Msg("rep", e, id, <<>>, p) : e \in Encs, id \in Ids, p \in Texts({0, 9}, 3)}
  \cup {Msg("err", "bin", id, n, p) : id \in Ids, n \in Texts({65}, 3), p \in Texts({7}, 2)}
  \cup {Msg(k, "bin", id, <<>>, p) : k \in {"restore"}, id \in Ids, p \in Texts({66, 67}, 3)}
  \cup {Msg(k, "bin", id, <<>>, <<>>) : k \in Special \cup {"closereq"}, id \in Ids}
  \cup {Msg(k, "bin", NoId, <<>>, <<>>) : k \in {"hb", "closed"}}
  \cup {Msg("created", "bin", NoId, <<>>, p) : p \in Texts({66, 67}, 3)}
  \cup {[Msg("conf", "bin", NoId, <<>>, p) EXCEPT !.maj = a, !.min = 1, !.rt = r, !.bs = s] :
          p \in Texts({66}, 2), a \in {0, 2}, r \in {<<1, 2>>, <<65535, 65535>>},
          s \in {<<0, 0>>, <<515, 1>>}}

NoIdKinds == {"sig", "hb", "closed", "created", "conf"}
Canon(m) == IF m.k \in NoIdKinds THEN [m EXCEPT !.id = NoId] ELSE m

Alphabet == {0, 1, 2, 5, 21, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 193, 250}

VARIABLE x
Init == x \in {[m |-> m, b |-> <<>>] : m \in Small} \cup
              {[m |-> Nothing, b |-> <<t>>] : t \in Alphabet}
\* Extend an input byte by byte
Next == /\ x.m = Nothing /\ Len(x.b) < MAXLEN
        /\ \E v \in (IF Len(x.b) \in {1, 9} THEN {0, 1, 2, 3} ELSE {Len(x.b) + 64}) :
             x' = [x EXCEPT !.b = Append(x.b, v)]
Spec == Init /\ [][Next]_x

\* Every message the protocol can carry is denoted by its bytes
RoundTrip == x.m # Nothing /\ Representable(x.m) => Denoted(Bytes(x.m)) = Canon(x.m)
\* No two messages have the same bytes, and what is denoted has (up to the value
\* of the padding and what isn't specified) the bytes it was read from
Normal(b, m) ==
  IF m.enc = "utf16" /\ (m.k = "rep" \/ Odd(Len(m.name)))
  THEN [b EXCEPT ![(IF m.k = "rep" THEN 10
                    ELSE IF m.k = "sig" THEN 3 + Len(m.name)
                    ELSE 11 + Len(m.name))] = 0]
  ELSE b
Exact == x.m = Nothing =>
  LET m == Denoted(x.b) IN
  m # Nothing =>
    /\ Loose(m) \/ Bytes(m) = Normal(x.b, m)
    /\ Lengths(m)
\* Nothing is denoted by a proper prefix that lacks a fixed part
MinLen ==
  x.m = Nothing =>
    LET k == KindOf(x.b[1]) m == Denoted(x.b) IN
    m # Nothing => Len(x.b) >=
      CASE k = "sig" -> (IF m.enc = "utf16" THEN 4 ELSE 3)
        [] k = "req" -> (IF m.enc = "utf16" THEN 12 ELSE 11)
        [] k = "rep" -> (IF m.enc = "utf16" THEN 10 ELSE 9)
        [] k = "err" -> 11
        [] k = "restore" -> 10
        [] k = "created" -> 2
        [] k = "conf" -> 11
        [] k \in {"hb", "closed"} -> 1
        [] OTHER -> 9

(***************************************************************************)
(* Generation of inputs for the implementation                              *)
(***************************************************************************)
Pattern(n, s) == [i \in 1..n |-> (i * 37 + s * 101 + 11) % 256]
\* Valid name characters, position dependent
NamePat(n, s) == [i \in 1..n |-> 32 + ((i * 7 + s) % 95)]
NatRange(a, b) == {i \in a..b : i >= 0}
\* Lengths around everything that matters for a length flag nl
LensFor(nl, big) == NatRange(0, 15) \cup NatRange(nl + 1, nl + 5) \cup
                    NatRange(nl + 9, nl + 15) \cup big
Flags == {0, 1, 2, 3, 4, 5, 8, 127, 128, 254, 255}
DecBytes(t, n, nl, s) ==
  LET k == KindOf(t)
      f == IF k = "sig" THEN 2 ELSE 10
  IN [i \in 1..n |-> IF i = 1 THEN t
                     ELSE IF HasName(k) /\ i = f THEN nl
                     ELSE Pattern(n, s)[i]]
DecTypes == {0, 1, 2, 3, 4, 5, 21, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129,
             191, 192, 193}
OtherTypes == {6, 20, 24, 30, 34, 62, 66, 126, 130, 190, 194, 255}
DecCases ==
  UNION {{[t |-> t, n |-> n, nl |-> nl] : n \in LensFor(nl, {})} :
           t \in {u \in DecTypes : HasName(KindOf(u))}, nl \in Flags}
  \cup {[t |-> t, n |-> n, nl |-> 0] : t \in DecTypes, n \in 1..24}
  \cup {[t |-> t, n |-> n, nl |-> 0] : t \in OtherTypes, n \in {1, 2, 9, 10, 12}}
NameLens == {0, 1, 2, 3, 7, 8, 127, 254, 255, 256, 300}
PldLens == {0, 1, 2, 3, 4, 9, 10, 64}
EncCases ==
  {[f |-> f, enc |-> e, nl |-> n, pl |-> p] :
     f \in {"sig", "req"}, e \in Encs, n \in NameLens, p \in PldLens}
  \cup {[f |-> "rep", enc |-> e, nl |-> 0, pl |-> p] : e \in Encs, p \in PldLens}
  \cup {[f |-> "err", enc |-> "bin", nl |-> n, pl |-> p] : n \in NameLens, p \in PldLens}
  \cup {[f |-> k, enc |-> "bin", nl |-> 0, pl |-> 0] :
          k \in Special \cup {"closereq", "hb", "closed"}}
  \cup {[f |-> k, enc |-> "bin", nl |-> 0, pl |-> p] :
          k \in {"restore", "created"}, p \in PldLens \ {0}}
Emit == JsonSerialize(IOEnv.OUT,
          [dec |-> SetToSeq({[c |-> c, b |-> DecBytes(c.t, c.n, c.nl, 1)] : c \in DecCases}),
           enc |-> SetToSeq(EncCases)])
GenInit == x = 0 /\ Emit
GenSpec == GenInit /\ [][FALSE]_x
=============================================================================
