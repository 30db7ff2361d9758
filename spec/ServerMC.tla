------------------------------ MODULE ServerMC ------------------------------
(***************************************************************************)
(* Closes module Server with an environment (clients, users of the server,  *)
(* the session manager, the network) and with the order in which a server   *)
(* takes the steps the specification allows. Used                            *)
(*  - to check the properties on the specification, exhaustively for small  *)
(*    scenarios (TLC, invariants below and liveness of quiescent states),   *)
(*  - to generate scenarios: the commands of the environment are recorded   *)
(*    in h and replayed against the real server by harness/cmd/srv.         *)
(* The scenarios are read from the JSON file named by TEMPL.                *)
(***************************************************************************)
EXTENDS Server, Json, IOUtils

CONSTANT GEN    \* generate scenarios

D == JsonDeserialize(IOEnv.TEMPL)
MCHeadOf(i) == D[i].head
T == D[tr]

VARIABLES
  q,      \* messages on the way to the server, by connection
  shut,   \* closed gates: blocked hooks, handlers and writers
  store,  \* keys of the sessions known to the session manager
  gi,     \* number of generated keys
  gd,     \* CreateSession calls that have generated their key
  h,      \* commands of the environment so far
  \* history, for the properties
  rep,    \* number of replies by message
  sta,    \* number of handler executions by message
  des,    \* destroyed keys (sequence)
  told    \* what the clients know about their session

envv == <<q, shut, store, gi, gd>>
hist == <<rep, sta, des, told>>
mcvars == <<vars, envv, h, hist>>
View == <<vars, envv, hist>>

MCInit ==
  /\ tr \in 1..Len(D)
  /\ Init0
  /\ q = [c \in Cons |-> <<>>]
  /\ shut = Range(T.gates)
  /\ store = Range(T.store)
  /\ gi = 0
  /\ gd = {}
  /\ h = <<>>
  /\ rep = [m \in Msgs |-> 0]
  /\ sta = [m \in Msgs |-> 0]
  /\ des = <<>>
  /\ told = [c \in Cons |-> ""]

Open(k, x) == (k \o ":" \o x) \notin shut
OpenN(k, n) == Open(k, ToString(n))

\* The server can write to the connection
Wr(c) == OpenN("fl", c) /\ ~con[c].lost /\ ~con[c].scl

NoHist == UNCHANGED hist
-----------------------------------------------------------------------------
(* Steps of the server *)

Conf == [t |-> "conf", major |-> 2, minor |-> 0, rt |-> H.cfg.rt,
         buf |-> H.cfg.buf, sub |-> H.cfg.sub]

SConnection(c) ==
  /\ \/ con[c].st = "acc" /\ Wr(c) /\ SendConf(c, Conf)
     \/ con[c].st = "conf" /\ OnConn(c, TRUE)
     \/ con[c].st = "hook" /\ OpenN("oc", c) /\ OnConnRet(c)
     \/ con[c].st = "live" /\
          (con[c].scl \/ (con[c].lost /\ q[c] = <<>>)) /\ ReadErr(c, 0)
     \/ con[c].st = "dead" /\ Disc(c, TRUE)
     \/ con[c].st = "disc" /\ OpenN("od", c) /\ DiscRet(c)
     \/ ~con[c].ret /\ con[c].st = "end" /\ ConnRet(c)
     \/ ~con[c].ret /\ con[c].st = "acc" /\ con[c].lost /\ ConnRet(c)
     \/ ~con[c].scl /\ con[c].st # "no" /\ SockClose(c)
     \/ CloseEff(c)
     \/ Unlink(c)
  /\ UNCHANGED envv /\ NoHist

CanRead(c) ==
  /\ con[c].st = "live" /\ ~con[c].scl
  /\ IF Serial(c)
     THEN {m \in MsgsOf(c) : msg[m].st \in {"read", "adm", "run"}} = {}
     ELSE /\ {m \in MsgsOf(c) : msg[m].st \in {"read", "adm"}} = {}
          /\ Cardinality(Running(c)) < Lim(c)

SRead(c) ==
  /\ q[c] # <<>> /\ CanRead(c)
  /\ LET m == Head(q[c]) IN
       IF M(m).k = "bad" THEN ReadErr(c, m) ELSE Read(c, m)
  /\ q' = [q EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<shut, store, gi, gd>> /\ NoHist

Content(m) == [k |-> M(m).k, id |-> IF M(m).k = "req" THEN M(m).id ELSE "",
               n |-> M(m).n, enc |-> M(m).enc, p |-> M(m).p]

SHandler(m) ==
  LET c == M(m).c IN
  /\ \/ (Admit(m) \/ Refuse(m) \/ ReplyLost(m)) /\ UNCHANGED sta
     \/ /\ M(m).k \in {"req", "sig"} /\ msg[m].st = "adm"
        /\ HStart(c, m, Content(m))
        /\ sta' = [sta EXCEPT ![m] = @ + 1]
     \/ /\ msg[m].st = "run" /\ msg[m].fin
        /\ HEnd(c, m, Content(m)) /\ UNCHANGED sta
  /\ UNCHANGED envv /\ UNCHANGED <<rep, des, told>>

Reply(m, e) ==
  LET c == M(m).c IN
  /\ Wr(c)
  /\ SendReply(c, m, e)
  /\ rep' = [rep EXCEPT ![m] = @ + 1]
  /\ told' = IF M(m).k = "restore" /\ e.t = "reply"
             THEN [told EXCEPT ![c] = M(m).key]
             ELSE IF M(m).k = "close" /\ e.t = "reply"
             THEN [told EXCEPT ![c] = ""] ELSE told
  /\ UNCHANGED envv /\ UNCHANGED <<sta, des>>

SReply(m) ==
  LET k == M(m).k IN
  CASE msg[m].st = "ref" -> Reply(m, [t |-> "shutdown"])
    [] msg[m].st = "ret" /\ k = "req" -> Reply(m, ReplyOf(m))
    [] msg[m].st = "adm" /\ k \in {"restore", "close"} /\ ~H.cfg.sess ->
         Reply(m, [t |-> "disabled"])
    [] msg[m].st = "adm" /\ k = "close" /\ msg[m].ph = "eff" ->
         Reply(m, EmptyReply)
    [] msg[m].st = "adm" /\ k = "restore" ->
         IF msg[m].ph = "eff"
         THEN Reply(m, [t |-> "reply", enc |-> "utf8",
                        p |-> "sess:" \o M(m).key])
         ELSE \/ msg[m].full /\ Reply(m, [t |-> "max"])
              \/ msg[m].ph = "looked" /\
                   \/ msg[m].lk \in {"err", "bad", "big"} /\
                        Reply(m, [t |-> "internal"])
                   \/ (msg[m].lk = "nil" \/ msg[m].dstl) /\
                        Reply(m, [t |-> "notfound"])
    [] OTHER -> FALSE

LookupOf(k) ==
  IF k \in DOMAIN T.lookup /\ T.lookup[k] # "noinfo" /\
       (T.lookup[k] = "err" \/ k \in store)
  THEN T.lookup[k]
  ELSE IF k \in store THEN "found" ELSE "nil"

SRestore(m) ==
  /\ M(m).k = "restore"
  /\ LET k == M(m).key IN
     \/ H.cfg.sess /\ Lookup(m, k)
     \/ Open("lk", k) /\ LookupRet(m, k, LookupOf(k))
     \/ Open("lr", k) /\ RestoreEff(m)
  /\ UNCHANGED envv /\ NoHist

SCloseReq(m) == CloseReqEff(m) /\ UNCHANGED envv /\ NoHist

SCreate(o) ==
  LET c == O(o).c
      NewKey == IF gi < Len(T.gens) THEN T.gens[gi + 1]
                ELSE "auto" \o ToString(gi) IN
  /\ O(o).k = "create"
  /\ \/ /\ op[o].st = "called" /\ H.cfg.sess /\ "gen" \notin shut
        /\ o \notin gd /\ con[c].sess = ""
        /\ GenRet(NewKey)
        /\ gi' = gi + 1 /\ gd' = gd \cup {o}
        /\ UNCHANGED <<q, shut, store>> /\ NoHist
     \/ /\ op[o].st = "called" /\ o \in gd /\ Wr(c)
        /\ \E k \in g.gens :
             /\ SendCreated(c, o, [k |-> k, i |-> O(o).i, ok |-> TRUE])
             /\ told' = [told EXCEPT ![c] = k]
        /\ UNCHANGED envv /\ UNCHANGED <<rep, sta, des>>
     \/ /\ op[o].st = "eff" /\ OnCreated(c, o, [k |-> con[c].sess, ok |-> TRUE])
        /\ UNCHANGED envv /\ NoHist
     \/ /\ op[o].st = "hook" /\ OpenN("cr", c) /\ OnCreatedRet(c, o)
        /\ store' = store \cup {op[o].key}
        /\ UNCHANGED <<q, shut, gi, gd>> /\ NoHist
     \/ /\ op[o].st \in {"called", "hooked"}
        /\ \E r \in {"ok", "err", "panic"} : RetCreate(o, r)
        /\ UNCHANGED envv /\ NoHist

SOp(o) ==
  LET k == O(o).k c == O(o).c IN
  \/ k = "close" /\ op[o].st = "called" /\ RetClose(o) /\
       UNCHANGED envv /\ NoHist
  \/ k = "shutdown" /\ op[o].st = "called" /\
       ((g.tsh = 0 /\ TransportShut) \/ RetShutdown(o, "ok")) /\
       UNCHANGED envv /\ NoHist
  \/ (ConCloseEff(o) \/ SrvCloseSnap(o)) /\ UNCHANGED envv /\ NoHist
  \/ k = "cclose" /\ InProgress(o) /\
       (RetConClose(o, "ok") \/ RetConClose(o, "err")) /\
       UNCHANGED envv /\ NoHist
  \/ k = "sclose" /\ op[o].st = "eff" /\
       (LET n == Cardinality(op[o].snap) IN
          \E s, e \in [1..n -> Cons] :
            RetSrvClose(o, [n |-> n, ne |-> n, cons |-> s,
              errs |-> IF op[o].er = {} THEN <<>> ELSE e,
              r |-> IF op[o].er = {} THEN "ok" ELSE "err"])) /\
       UNCHANGED envv /\ NoHist
  \/ k = "signal" /\ op[o].st \in {"called", "eff"} /\
       (\/ op[o].st = "called" /\ Wr(c) /\
             SendSignal(c, o, [n |-> O(o).n, p |-> O(o).p, enc |-> O(o).enc])
        \/ \E r \in {"ok", "err"} : RetSignal(o, r)) /\
       UNCHANGED envv /\ NoHist
  \/ \E x \in Cons :
       \/ SrvCloseEff(o, x) /\ UNCHANGED envv /\ NoHist
       \/ ClosedLost(o, x) /\ UNCHANGED envv /\ NoHist
       \/ /\ (x \in op[o].nt \/ Closing(x, o)) /\ Wr(x) /\ SendClosed(x, o)
          /\ told' = [told EXCEPT ![x] = ""]
          /\ UNCHANGED envv /\ UNCHANGED <<rep, sta, des>>
       \/ /\ (x \in op[o].nt \/ Closing(x, o)) /\ Gone(x) /\ con[x].wf = 0 /\ WFail(x)
          /\ UNCHANGED envv /\ NoHist

SDestroy ==
  \/ \E k \in Range(g.owed) :
       /\ k \notin g.dh /\ With(k) = {}
       /\ Destroy(k) /\ des' = Append(des, k)
       /\ UNCHANGED envv /\ UNCHANGED <<rep, sta, told>>
  \/ \E k \in g.dh :
       /\ Open("cl", k) /\ DestroyRet(k)
       /\ store' = store \ {k}
       /\ UNCHANGED <<q, shut, gi, gd>> /\ NoHist

Sys ==
  /\ \/ \E c \in Cons : SConnection(c) \/ SRead(c)
     \/ \E m \in Msgs : SHandler(m) \/ SReply(m) \/ SRestore(m) \/ SCloseReq(m)
     \/ \E o \in Ops : SCreate(o) \/ SOp(o)
     \/ ShutdownEff /\ UNCHANGED envv /\ NoHist
     \/ SDestroy
  /\ UNCHANGED h

-----------------------------------------------------------------------------
(* Commands of the environment *)

Idle == ~ENABLED Sys

Did(x) == \E i \in DOMAIN h : h[i].x = x
\* Generation: commands are given in an order compatible with T.prec. The last
\* command is marked if the server was still busy when the next one was given
Cmd(x) ==
  IF ~GEN THEN h' = h
  ELSE /\ \A p \in Range(T.prec) : p[2] = x => Did(p[1])
       /\ h' = Append([i \in DOMAIN h |->
                 IF i = Len(h) THEN [h[i] EXCEPT !.nw = ~Idle] ELSE h[i]],
               [x |-> x, nw |-> FALSE])
CmdN(x, n) == Cmd(x \o ":" \o ToString(n))

EConnect(c) == Connect(c) /\ CmdN("connect", c) /\ UNCHANGED envv
EDeliver(m) ==
  LET c == M(m).c IN
  /\ msg[m].st = "new" /\ con[c].st # "no" /\ ~con[c].lost
  /\ Deliver(m)
  /\ q' = [q EXCEPT ![c] = Append(@, m)]
  /\ CmdN("deliver", m)
  /\ UNCHANGED <<shut, store, gi, gd>>
EFinish(m) ==
  /\ msg[m].st = "run" /\ ~msg[m].fin
  /\ Finish(m) /\ CmdN("finish", m) /\ UNCHANGED envv
ELose(c) ==
  /\ con[c].st # "no" /\ ~con[c].lost /\ ~con[c].scl
  /\ T.lose[c]
  /\ Lost(c) /\ CmdN("lose", c) /\ UNCHANGED envv
EOp(o) ==
  /\ O(o).c > 0 => con[O(o).c].st \notin {"no", "acc", "conf"}
  /\ Call(o) /\ CmdN("op", o) /\ UNCHANGED envv
EOpen(x) ==
  /\ x \in shut
  /\ shut' = shut \ {x} /\ Cmd("open:" \o x)
  /\ UNCHANGED <<q, store, gi, gd>> /\ UNCHANGED vars

Env ==
  /\ \/ \E c \in Cons : EConnect(c) \/ ELose(c)
     \/ \E m \in Msgs : EDeliver(m) \/ EFinish(m)
     \/ \E o \in Ops : EOp(o)
     \/ \E x \in shut : EOpen(x)
  /\ NoHist

MCNext == Sys \/ Env
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
(* Generation *)

EnvDone == ~ENABLED Env

GenNext ==
  \/ Sys
  \/ (T.nw \/ Idle) /\ Env
  \/ /\ ~Did("end") /\ Idle /\ EnvDone
     /\ h' = Append(h, [x |-> "end", nw |-> FALSE])
     /\ PrintT(<<"SCN", tr, ToJson(h)>>)
     /\ UNCHANGED <<vars, envv, hist>>
GenSpec == MCInit /\ [][GenNext]_mcvars

-----------------------------------------------------------------------------
(* The properties, stated on the states of the model *)

Started(m) == sta[m] > 0
NoGates == shut = {}
\* Nothing is left to do and nothing is blocked by the environment
Rest == Idle /\ NoGates /\ \A m \in Msgs : msg[m].st # "run"

P_C01 ==
  /\ \A m \in Msgs : rep[m] <= (IF NeedsReply(m) THEN 1 ELSE 0)
  /\ Rest => \A m \in Msgs :
       (NeedsReply(m) /\ ~Gone(M(m).c) /\ msg[m].st \notin {"new", "sent"})
         => rep[m] = 1
P_C02 ==
  /\ \A m \in Msgs : sta[m] <= 1
  /\ \A m \in Msgs : Started(m) => M(m).k \in {"req", "sig"} /\ msg[m].ro > 0
  /\ Rest => \A m \in Msgs :
       (M(m).k \in {"req", "sig"} /\ ~g.sd /\ msg[m].ro > 0 /\
         ~con[M(m).c].ucl /\ ~Gone(M(m).c)) => Started(m)
P_C03 ==
  /\ \A c \in Cons : Cardinality(Running(c)) <= (IF Serial(c) THEN 1 ELSE Lim(c))
  /\ \A c \in Cons : Serial(c) => \A x, y \in MsgsOf(c) :
       (msg[x].st = "run" /\ msg[y].st \in {"adm"} /\
         M(y).k \in {"req", "sig"}) => msg[x].ro < msg[y].ro
P_C04 ==
  /\ \A o \in Ops : (O(o).k = "shutdown" /\ op[o].st = "ret") =>
       g.sd /\ g.tsh = 1 /\ UnfAll = {}
  /\ Rest => \A o \in Ops : (O(o).k = "shutdown" /\ op[o].st # "new") =>
       op[o].st = "ret"
A_C04 == [][g.sd => /\ g'.sd
                    /\ \A m \in Msgs : msg[m].st \in {"new", "sent", "read"} =>
                         msg'[m].st \notin {"adm", "run"}]_mcvars
P_C05 ==
  Rest => \A c \in Cons : con[c].ucl => con[c].scl /\ con[c].unl
A_C05 == [][\A c \in Cons :
              con[c].ucl =>
                /\ con'[c].ucl
                /\ \A m \in MsgsOf(c) : msg[m].st \in {"new", "sent", "read"} =>
                     msg'[m].st \notin {"adm", "run"}
                /\ (con'[c].scl /\ ~con[c].scl /\ con[c].st = "live" /\
                     ~con[c].lost) => Unf(c) = {}]_mcvars
Order == <<"no", "acc", "conf", "hook", "live", "dead", "disc", "end">>
Pos(s) == CHOOSE i \in DOMAIN Order : Order[i] = s
P_C06 ==
  /\ \A m \in Msgs : msg[m].st # "new" => con[M(m).c].st # "no"
  /\ \A m \in Msgs : (Started(m) \/ rep[m] > 0) => Pos(con[M(m).c].st) >= 5
  /\ Rest => \A c \in Cons : con[c].lost => con[c].st \in {"end", "acc"}
A_C06 == [][\A c \in Cons : Pos(con'[c].st) \in {Pos(con[c].st), Pos(con[c].st) + 1}]_mcvars
P_C08 ==
  \A c \in Cons : con[c].unl => (Unf(c) = {} => con[c].sess = "")
P_C09 ==
  H.cfg.max > 0 => \A c \in Cons :
    con[c].sess # "" => Cardinality(With(con[c].sess)) <= H.cfg.max
P_C10 ==
  /\ \A i, j \in DOMAIN des : des[i] = des[j] => i = j
  /\ \A i \in DOMAIN des : With(des[i]) = {}
  /\ Rest => \A o \in Ops :
       (O(o).k = "sclose" /\ op[o].st = "ret" /\ op[o].snap # {}
          /\ \A m \in Msgs : M(m).k # "restore") =>
         (O(o).key \in Range(des) \/ \E c \in op[o].snap : con[c].unl)
P_C11 ==
  /\ \A o, x \in Ops : (o # x /\ op[o].key # "") => op[o].key # op[x].key
  /\ Rest => \A o \in Ops : (O(o).k = "create" /\ op[o].st # "new") =>
       op[o].st = "ret"
\* A session is created for a connection without one only
A_C11 == [][\A o \in Ops :
              (op[o].key = "" /\ op'[o].key # "") =>
                con[O(o).c].sess = "" /\ con'[O(o).c].sess = op'[o].key]_mcvars
P_C12 ==
  /\ \A m \in Msgs : (M(m).k = "restore" /\ msg[m].ph = "eff") =>
       msg[m].lk = "found"
  /\ Rest => \A m \in Msgs :
       (M(m).k = "restore" /\ msg[m].ro > 0 /\ ~Gone(M(m).c)) => rep[m] = 1
\* What the client knows is what the server knows. Changes that cross are
\* announced in any order, unless one waits for the other
P_C13 ==
  (Rest /\ Cardinality({m \in Msgs : M(m).k \in {"restore", "close"}}) +
           Cardinality({o \in Ops : O(o).k \in {"create", "cclose", "sclose"}}) <= 2
        /\ {m \in Msgs : M(m).k \in {"restore", "close"}} = {}) =>
    \A c \in Cons : (con[c].st = "live" /\ ~Gone(c) /\ ~con[c].unl) =>
      told[c] = con[c].sess
P_C24 ==
  Rest => \A c \in Cons : (con[c].lost /\ con[c].st # "no") =>
    con[c].ret /\ con[c].scl /\ con[c].st \in {"end", "acc"}
=============================================================================
