---------------------------------- MODULE Info ----------------------------------
(* Session infos, sessions and info field values handed out by the library, as    *)
(* pure values. A program holds handles: "raw" maps, "info" objects, field values *)
(* ("val"), sessions and connections. Only "raw" and "val" can be modified, at    *)
(* any depth, and a session's fields. Values are trees:                           *)
(*  [k |-> "s", t, s]       a scalar of type t                                    *)
(*  [k |-> "m", t, nil, e]  a map of type t, e: from key to tree                  *)
(*  [k |-> "l", t, nil, e]  a slice, e: a sequence of trees                       *)
(*  [k |-> "n"]             nil                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLE hs  \* handles: what they are, their values, and the raw map that may be
             \* shared: an info may keep the map it was made from
Nil == [k |-> "n"]
NoInfo == [k |-> "noinfo"]
NoSess == [k |-> "nosess"]
NilMap == [k |-> "m", t |-> "map[string]interface {}", nil |-> TRUE, e |-> <<>>]
Same(a, b) == IF DOMAIN a = {} \/ DOMAIN b = {} THEN DOMAIN a = {} /\ DOMAIN b = {} ELSE a = b
InfoOf(m) == [k |-> "info", e |-> m]
NewMap(m) == [k |-> "m", t |-> "map[string]interface {}", nil |-> FALSE, e |-> m]

\* A tree with the container at the path p replaced. Steps of a path are keys of
\* maps and indices of slices
RECURSIVE At(_, _)
At(v, p) == IF p = <<>> THEN v
            ELSE At(v.e[IF p[1].i > 0 THEN p[1].i ELSE p[1].s], Tail(p))
RECURSIVE Put(_, _, _)
Put(v, p, x) ==
  IF p = <<>> THEN x
  ELSE LET j == IF p[1].i > 0 THEN p[1].i ELSE p[1].s IN
       [v EXCEPT !.e = [y \in DOMAIN v.e |-> IF y = j THEN Put(v.e[y], Tail(p), x) ELSE v.e[y]]]
\* A container after a modification
Without(e, key) == [y \in DOMAIN e \ {key} |-> e[y]]
Changed(c, m) ==
  CASE m.o = "set" -> [c EXCEPT !.e = IF c.k = "l" THEN [c.e EXCEPT ![m.i] = m.v]
                                      ELSE (m.s :> m.v) @@ c.e]
    [] m.o = "del" -> [c EXCEPT !.e = Without(c.e, m.s)]
    [] m.o = "app" -> [c EXCEPT !.e = Append(c.e, m.v), !.nil = FALSE]
    [] m.o = "cut" -> [c EXCEPT !.e = SubSeq(c.e, 1, m.i)]
Modified(v, m) == Put(v, m.p, Changed(At(v, m.p), m))

\* JSON can't tell empty maps from empty sequences
RECURSIVE Eq(_, _)
Eq(a, b) ==
  IF a = b THEN TRUE
  ELSE /\ DOMAIN a = DOMAIN b
       /\ \A f \in DOMAIN a :
            IF f = "e" /\ "nil" \notin DOMAIN a THEN
              DOMAIN a.e = DOMAIN b.e /\ \A x \in DOMAIN a.e : Eq(a.e[x], b.e[x])
            ELSE IF f = "e" THEN
              (IF DOMAIN a.e = {} THEN DOMAIN b.e = {}
               ELSE DOMAIN a.e = DOMAIN b.e /\ \A x \in DOMAIN a.e : Eq(a.e[x], b.e[x]))
            ELSE IF f \in {"info", "s"} /\ a.k \in {"sess", "con"} THEN Eq(a[f], b[f])
            ELSE a[f] = b[f]

Fields(h) == IF hs[h].kind = "con"
             THEN IF hs[h].val.s.k = "sess" /\ hs[h].val.s.info.k = "info"
                  THEN hs[h].val.s.info.e ELSE <<>>
             ELSE hs[h].val.e
Root(h) == IF hs[h].kind = "raw" THEN h ELSE hs[h].al

\* Sessions are sent to the client, encoded in JSON. What isn't listed here can be
\* encoded, what is may fail
RECURSIVE JsonOk(_)
JsonOk(v) == CASE v.k \in {"n", "noinfo"} -> TRUE
               [] v.k = "s" -> v.t # "complex128"
               [] OTHER -> /\ v.k = "info" \/ v.t \notin {"map[interface {}]interface {}", "map[bool]string"}
                           /\ \A y \in DOMAIN v.e : JsonOk(v.e[y])

\* What an operation results in: kind, value, what it may be shared with
H(kind, val, al) == [kind |-> kind, val |-> val, al |-> al]
SessOf(info, got) == [k |-> "sess", key |-> got.key, c |-> got.c, l |-> got.l, info |-> info]
Result(e, got) ==
  CASE e.e = "raw" -> H("raw", e.v, 0)
    [] e.e = "noinfo" -> H("info", NoInfo, 0)
    [] e.e = "zero" -> H("info", InfoOf(<<>>), 0)
    [] e.e = "parse" -> H("info", InfoOf(hs[e.h].val.e), e.h)
    [] e.e = "copy" -> H("info", hs[e.h].val, 0)
    [] e.e = "varmap" -> H("raw", IF hs[e.h].val = NoInfo THEN NilMap
                                  ELSE NewMap(hs[e.h].val.e), 0)
    [] e.e = "value" -> H("val", IF e.f \in DOMAIN Fields(e.h) THEN Fields(e.h)[e.f] ELSE Nil, 0)
    [] e.e = "nosess" -> H("sess", NoSess, 0)
    [] e.e = "sess" -> H("sess", SessOf(hs[e.h].val, [key |-> e.f, c |-> got.c, l |-> got.l]),
                         hs[e.h].al)
    [] e.e = "newsess" -> H("sess", SessOf(hs[e.h].val, [key |-> e.f, c |-> got.c, l |-> got.c]),
                            hs[e.h].al)
    [] e.e = "clone" -> H("sess", hs[e.h].val, 0)
    [] e.e = "infoof" -> H("info", hs[e.h].val.info, hs[e.h].al)
    [] e.e = "con" -> H("con", [k |-> "con", s |-> NoSess], 0)
    [] e.e = "restore" -> H("con", [k |-> "con", s |->
         IF ~e.ok THEN NoSess ELSE
         SessOf(IF hs[e.h].val.nil THEN NoInfo ELSE InfoOf(hs[e.h].val.e),
                [key |-> e.f, c |-> got.c, l |-> got.l])], e.h)
    [] e.e = "session" -> H("sess", hs[e.h].val.s, 0)
Creates(e) == e.e \notin {"mod", "create", "close", "field"}

Seen(e, i) == IF \E j \in DOMAIN e.chg : e.chg[j].h = i
              THEN e.chg[CHOOSE j \in DOMAIN e.chg : e.chg[j].h = i].v
              ELSE hs[i].val
\* The session within the value of a session or connection
Ses(v) == IF v.k = "con" THEN v.s ELSE v
Got(v) == IF Ses(v).k = "sess" THEN Ses(v) ELSE [key |-> "", c |-> "", l |-> ""]

\* What the handle i becomes
After(e, i, x) ==
  LET h == hs[i] IN
  CASE e.e = "mod" /\ i = e.h -> Eq(Modified(h.val, e.m), x)
    \* May have been shared with its source
    [] e.e = "mod" /\ h.al = e.h ->
         (IF h.kind = "info" THEN x.k = h.val.k
          ELSE Ses(x).k = Ses(h.val).k /\ Got(x).key = Got(h.val).key
               /\ Got(x).c = Got(h.val).c /\ Got(x).l = Got(h.val).l)
    [] e.e = "create" /\ i = e.h -> IF ~e.ok THEN x = h.val ELSE
         /\ Got(x).key # "" /\ Got(x).c = Got(x).l
         /\ Eq([k |-> "con", s |-> SessOf(hs[e.g].val, Got(x))], x)
    [] e.e = "close" /\ i = e.h -> x = [k |-> "con", s |-> NoSess]
    [] e.e = "field" /\ i = e.h ->
         (CASE e.f = "key" -> Eq([h.val EXCEPT !.key = e.s], x)
            [] e.f = "info" -> Eq([h.val EXCEPT !.info = NoInfo], x)
            [] e.f = "time" -> Got(x).c # h.val.c /\ Got(x).l # h.val.l
                               /\ Eq([h.val EXCEPT !.c = Got(x).c, !.l = Got(x).l], x))
    [] OTHER -> Eq(h.val, x)

Legal(e) ==
  /\ e.e = "create" => IF hs[e.h].val.s # NoSess THEN ~e.ok
                      ELSE e.ok \/ ~JsonOk(hs[e.g].val)
  /\ e.e = "restore" => e.ok \/ ~JsonOk(hs[e.h].val)
  /\ e.e = "close" => e.ok
  /\ \A i \in DOMAIN hs : After(e, i, Seen(e, i))
  /\ Creates(e) => /\ \E j \in DOMAIN e.chg : e.chg[j].h = Len(hs) + 1
                   /\ \A j \in DOMAIN e.chg : e.chg[j].h = Len(hs) + 1 =>
                        Eq(Result(e, Got(e.chg[j].v)).val, e.chg[j].v)
Outcome(e) ==
  LET same == [i \in DOMAIN hs |->
                 [hs[i] EXCEPT !.val = Seen(e, i),
                    !.al = CASE e.e = "create" /\ i = e.h -> IF e.ok THEN hs[e.g].al ELSE @
                             [] e.e = "close" /\ i = e.h -> 0
                             [] OTHER -> @]]
  IN IF Creates(e)
     THEN Append(same, LET x == e.chg[CHOOSE j \in DOMAIN e.chg :
                                        e.chg[j].h = Len(hs) + 1].v
                       IN [Result(e, Got(x)) EXCEPT !.val = x])
     ELSE same
Op(e) == Legal(e) /\ hs' = Outcome(e)
===============================================================================
