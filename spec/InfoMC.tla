--------------------------------- MODULE InfoMC ---------------------------------
(* A program and library with a heap: maps and slices are nodes handles refer to. *)
(* With deep copies it never does what Info forbids, with shallow ones it does.   *)
(* Also the source of generated scenarios.                                        *)
EXTENDS Info, Json, IOUtils, SequencesExt
CONSTANTS DEEP,   \* copies are deep
          GEN, MAXOPS, MAXH, OPS
P == JsonDeserialize(IOEnv.POOL)
VARIABLES heap, roots, ok, n, cat, log
mvars == <<hs, heap, roots, ok, n, cat, log>>

RECURSIVE Tree(_, _)
Tree(hp, x) ==
  IF hp[x].k \in {"s", "n"} THEN hp[x]
  ELSE [hp[x] EXCEPT !.e = [y \in DOMAIN hp[x].e |-> Tree(hp, hp[x].e[y])]]
\* Allocates a tree, its node is the last one
RECURSIVE Alloc(_, _), AllocAll(_, _, _, _)
AllocAll(hp, e, left, got) ==
  IF left = {} THEN [hp |-> hp, e |-> got]
  ELSE LET y == CHOOSE z \in left : TRUE
           h2 == Alloc(hp, e[y])
       IN AllocAll(h2, e, left \ {y}, [got EXCEPT ![y] = Len(h2)])
Alloc(hp, v) ==
  IF v.k \in {"s", "n"} THEN Append(hp, v)
  ELSE LET r == AllocAll(hp, v.e, DOMAIN v.e, [y \in DOMAIN v.e |-> 0])
       IN Append(r.hp, [v EXCEPT !.e = r.e])
Copied(hp, x) == IF DEEP THEN Alloc(hp, Tree(hp, x)) ELSE Append(hp, hp[x])

\* Handles: what they refer to
R(kind, x, s, key, c) == [kind |-> kind, n |-> x, s |-> s, key |-> key, c |-> c, l |-> c]
ValueOf(hp, r) ==
  LET info == IF r.n = 0 THEN NoInfo ELSE InfoOf(Tree(hp, r.n).e)
      sess == IF r.s THEN [k |-> "sess", key |-> r.key, c |-> r.c, l |-> r.l, info |-> info]
              ELSE NoSess
  IN CASE r.kind \in {"raw", "val"} -> Tree(hp, r.n)
       [] r.kind = "info" -> info
       [] r.kind = "sess" -> sess
       [] r.kind = "con" -> [k |-> "con", s |-> sess]
Num == "k" \o ToString(n)
Time == "t" \o ToString(n)

\* Carries an operation out
Do(e, hp, rs) ==
  LET new == [i \in DOMAIN rs |-> ValueOf(hp, rs[i])]
      diff == {i \in DOMAIN rs : i > Len(hs) \/ (i <= Len(hs) /\ hs[i].val # new[i])}
      idx == SetToSeq(diff)
      ev == e @@ [chg |-> [j \in DOMAIN idx |-> [h |-> idx[j], v |-> new[idx[j]]]]]
  IN /\ heap' = hp /\ roots' = rs
     /\ ok' = Legal(ev) /\ hs' = Outcome(ev)
     /\ log' = IF GEN THEN Append(log, e) ELSE log
     /\ cat' = "" /\ n' = n + 1
Add(e, hp, r) == Do(e, hp, Append(roots, r))
Of(kind) == {i \in DOMAIN roots : roots[i].kind = kind}
Infos == {i \in Of("info") : roots[i].n # 0}
Deep(x) == IF x = 0 THEN heap ELSE Copied(heap, x)
DeepN(x) == IF x = 0 THEN 0 ELSE Len(Copied(heap, x))

\* Paths to the maps and slices within a tree
RECURSIVE Paths(_)
Paths(v) == IF v.k \notin {"m", "l"} \/ v.nil THEN {}
            ELSE {<<>>} \cup UNION {{<<[s |-> IF v.k = "m" THEN y ELSE "",
                                       i |-> IF v.k = "l" THEN y ELSE 0]>> \o q :
                                     q \in Paths(v.e[y])} : y \in DOMAIN v.e}
Values(t) == P.pool[t]
NewKeys(t) == P.keys[t]
\* Modifications of a container
Mods(c, p) ==
  LET vs == Values(c.t) IN
  IF c.k = "m" THEN
    {[o |-> "set", s |-> y, i |-> 0, v |-> vs[j], p |-> p] :
       y \in DOMAIN c.e \cup {NewKeys(c.t)[z] : z \in DOMAIN NewKeys(c.t)}, j \in DOMAIN vs}
    \cup {[o |-> "del", s |-> y, i |-> 0, v |-> Nil, p |-> p] : y \in DOMAIN c.e}
  ELSE
    {[o |-> "set", s |-> "", i |-> y, v |-> vs[j], p |-> p] : y \in DOMAIN c.e, j \in DOMAIN vs}
    \cup {[o |-> "app", s |-> "", i |-> 0, v |-> vs[j], p |-> p] : j \in DOMAIN vs}
    \cup {[o |-> "cut", s |-> "", i |-> y - 1, v |-> Nil, p |-> p] : y \in DOMAIN c.e}
RECURSIVE NodeAt(_, _, _)
NodeAt(hp, x, p) == IF p = <<>> THEN x
                    ELSE NodeAt(hp, hp[x].e[IF p[1].i > 0 THEN p[1].i ELSE p[1].s], Tail(p))
Modify(h, m) ==
  LET x == NodeAt(heap, roots[h].n, m.p)
      h2 == IF m.o \in {"set", "app"} THEN Alloc(heap, m.v) ELSE heap
      c == Changed(heap[x], [m EXCEPT !.v = Len(h2)])
  IN Do([e |-> "mod", h |-> h, m |-> m], [h2 EXCEPT ![x] = c], roots)

\* One of the choices when generating, all of them when exploring
Pick(S) == IF GEN /\ S # {} THEN {RandomElement(S)} ELSE S
Weight(c) == CASE c = "mod" -> 8 [] c \in {"copy", "value", "clone", "session", "varmap"} -> 3
               [] c \in {"parse", "raw", "create", "sess"} -> 2 [] OTHER -> 1
Room == Len(roots) < MAXH
CanDo(c) ==
  CASE c \in {"raw", "noinfo", "zero", "nosess", "con"} -> Room
    [] c \in {"parse", "restore"} -> Room /\ Of("raw") # {}
    [] c \in {"copy", "value"} -> Room /\ (Infos # {} \/ (c = "value" /\ Of("con") # {}))
    [] c \in {"varmap", "sess", "newsess"} -> Room /\ Of("info") # {}
    [] c = "clone" -> Room /\ Of("sess") # {}
    [] c = "infoof" -> Room /\ \E i \in Of("sess") : roots[i].s
    [] c = "session" -> Room /\ Of("con") # {}
    [] c = "create" -> Of("info") # {} /\ \E i \in Of("con") : ~roots[i].s
    [] c = "close" -> \E i \in Of("con") : roots[i].s
    [] c = "field" -> \E i \in Of("sess") : roots[i].s
    [] c = "mod" -> \E i \in Of("raw") \cup Of("val") : Paths(ValueOf(heap, roots[i])) # {}
Cat == /\ GEN /\ cat = "" /\ n < MAXOPS
       /\ \E c \in OPS : \E i \in 1..Weight(c) : CanDo(c) /\ cat' = c
       /\ UNCHANGED <<hs, heap, roots, ok, n, log>>
Is(c) == n < MAXOPS /\ ok /\ c \in OPS /\ CanDo(c) /\ (GEN => cat = c)
Step ==
  \/ Is("raw") /\ \E j \in Pick(DOMAIN P.roots) :
       LET hp == Alloc(heap, P.roots[j]) IN
       Add([e |-> "raw", v |-> P.roots[j]], hp, R("raw", Len(hp), FALSE, "", ""))
  \/ Is("noinfo") /\ Add([e |-> "noinfo"], heap, R("info", 0, FALSE, "", ""))
  \/ Is("zero") /\ LET hp == Alloc(heap, NewMap(<<>>)) IN
       Add([e |-> "zero"], hp, R("info", Len(hp), FALSE, "", ""))
  \/ Is("parse") /\ \E h \in Pick(Of("raw")) :
       Add([e |-> "parse", h |-> h], heap, R("info", roots[h].n, FALSE, "", ""))
  \/ Is("copy") /\ \E h \in Pick(Infos) :
       Add([e |-> "copy", h |-> h], Deep(roots[h].n), R("info", DeepN(roots[h].n), FALSE, "", ""))
  \/ Is("varmap") /\ \E h \in Pick(Of("info")) :
       LET hp == IF roots[h].n = 0 THEN Append(heap, NilMap) ELSE Deep(roots[h].n) IN
       Add([e |-> "varmap", h |-> h], [hp EXCEPT ![Len(hp)].nil = roots[h].n = 0],
           R("raw", Len(hp), FALSE, "", ""))
  \/ Is("value") /\ \E h \in Pick(Infos \cup Of("con")) :
       \E f \in Pick(DOMAIN Fields(h) \cup {"absent"}) :
         LET x == IF f \in DOMAIN Fields(h) THEN heap[roots[h].n].e[f] ELSE 0
             hp == IF x = 0 THEN Append(heap, Nil) ELSE Copied(heap, x)
         IN Add([e |-> "value", h |-> h, f |-> f], hp, R("val", Len(hp), FALSE, "", ""))
  \/ Is("nosess") /\ Add([e |-> "nosess"], heap, R("sess", 0, FALSE, "", ""))
  \/ Is("sess") /\ \E h \in Pick(Of("info")) :
       Add([e |-> "sess", h |-> h, f |-> Num], heap, R("sess", roots[h].n, TRUE, Num, Time))
  \/ Is("newsess") /\ \E h \in Pick(Of("info")) :
       Add([e |-> "newsess", h |-> h, f |-> Num], heap, R("sess", roots[h].n, TRUE, Num, Time))
  \/ Is("clone") /\ \E h \in Pick(Of("sess")) :
       Add([e |-> "clone", h |-> h], Deep(roots[h].n), [roots[h] EXCEPT !.n = DeepN(@)])
  \/ Is("infoof") /\ \E h \in Pick({i \in Of("sess") : roots[i].s}) :
       Add([e |-> "infoof", h |-> h], heap, R("info", roots[h].n, FALSE, "", ""))
  \/ Is("con") /\ Add([e |-> "con"], heap, R("con", 0, FALSE, "", ""))
  \/ Is("create") /\ \E h \in Pick({i \in Of("con") : ~roots[i].s}), g \in Pick(Of("info")) :
       LET yes == JsonOk(ValueOf(heap, roots[g])) IN
       Do([e |-> "create", h |-> h, g |-> g, ok |-> yes], heap,
          IF yes THEN [roots EXCEPT ![h] = R("con", roots[g].n, TRUE, Num, Time)] ELSE roots)
  \/ Is("close") /\ \E h \in Pick({i \in Of("con") : roots[i].s}) :
       Do([e |-> "close", h |-> h, ok |-> TRUE], heap, [roots EXCEPT ![h] = R("con", 0, FALSE, "", "")])
  \/ Is("restore") /\ \E h \in Pick(Of("raw")) :
       LET yes == JsonOk(ValueOf(heap, roots[h])) IN
       Add([e |-> "restore", h |-> h, f |-> Num, ok |-> yes], heap,
           IF yes THEN R("con", IF heap[roots[h].n].nil THEN 0 ELSE roots[h].n, TRUE, Num, Time)
           ELSE R("con", 0, FALSE, "", ""))
  \/ Is("session") /\ \E h \in Pick(Of("con")) :
       Add([e |-> "session", h |-> h], Deep(roots[h].n),
           [roots[h] EXCEPT !.n = DeepN(@), !.kind = "sess"])
  \/ Is("field") /\ \E h \in Pick({i \in Of("sess") : roots[i].s}) :
       \/ Do([e |-> "field", h |-> h, f |-> "key", s |-> Num], heap,
             [roots EXCEPT ![h].key = Num])
       \/ Do([e |-> "field", h |-> h, f |-> "info", s |-> ""], heap, [roots EXCEPT ![h].n = 0])
       \/ Do([e |-> "field", h |-> h, f |-> "time", s |-> ""], heap,
             [roots EXCEPT ![h].c = Time, ![h].l = Time])
  \/ Is("mod") /\ \E h \in Pick({i \in Of("raw") \cup Of("val") :
                                       Paths(ValueOf(heap, roots[i])) # {}}) :
       LET v == ValueOf(heap, roots[h]) IN
       \E p \in Pick(Paths(v)) : \E m \in Pick(Mods(At(v, p), p)) : Modify(h, m)
Init == LET hp == Alloc(<<>>, P.roots[1]) IN
  /\ heap = hp
  /\ roots = <<R("raw", Len(hp), FALSE, "", "")>>
  /\ hs = <<H("raw", P.roots[1], 0)>>
  /\ ok = TRUE /\ n = 1 /\ cat = "" /\ log = <<>>
Spec == Init /\ [][Step]_mvars
End == n = MAXOPS /\ GEN /\ n' = n + 1 /\ PrintT(<<"SCN", ToJson(log)>>)
       /\ UNCHANGED <<hs, heap, roots, ok, cat, log>>
GInit == /\ hs = <<>> /\ heap = <<>> /\ roots = <<>> /\ ok = TRUE /\ n = 0 /\ cat = "raw"
         /\ log = <<>>
GenSpec == GInit /\ [][Cat \/ Step \/ End]_mvars
Isolated == ok
===============================================================================
