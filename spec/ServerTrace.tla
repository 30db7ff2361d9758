----------------------------- MODULE ServerTrace -----------------------------
(***************************************************************************)
(* Checks whether what the real server did (recorded by harness/cmd/srv) is *)
(* a behaviour of module Server. One TLC run checks a batch of traces: the   *)
(* initial state selects one, every step either consumes its next event or   *)
(* is an internal step of the specification. A trace is accepted if all of   *)
(* its events can be consumed, which is reported by printing its index.      *)
(***************************************************************************)
EXTENDS Server, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACES)
THeadOf(i) == D.heads[D.traces[i].h]

VARIABLE l
tvars == <<vars, l>>

Ev == D.traces[tr].ev[l]
Last == Len(D.traces[tr].ev)

TInit == tr \in 1..Len(D.traces) /\ Init0 /\ l = 1 /\ TLCSet(tr, 0)

\* One of the choices, or nothing if the rule isn't part of what is checked
Some(S, tags, A(_)) ==
  IF S # {} THEN \E x \in S : A(x) ELSE Chk(tags, FALSE) /\ UNCHANGED vars

SendEv(e) ==
  LET c == e.c IN
  CASE e.t = "conf"    -> SendConf(c, e)
    [] e.t = "created" ->
         Some({o \in Ops : O(o).k = "create" /\ O(o).c = c /\ op[o].st = "called"},
              {"C11", "C13"}, LAMBDA o : SendCreated(c, o, e))
    [] e.t = "closed"  ->
         Some({o \in Ops : c \in op[o].nt \/ Closing(c, o)}, {"C13"}, LAMBDA o : SendClosed(c, o))
    [] e.t = "sig"     ->
         Some({o \in Ops : O(o).k = "signal" /\ O(o).c = c /\ op[o].st = "called"},
              {"C16", "C18"}, LAMBDA o : SendSignal(c, o, e))
    [] e.t = "?"       ->
         Chk({"C01", "C06", "C11", "C12", "C13", "C16", "C25"}, FALSE) /\ UNCHANGED vars
    [] OTHER           ->
         IF e.m = 0 THEN Chk({"C01"}, FALSE) /\ UNCHANGED vars
         ELSE SendReply(c, e.m, e)

RetEv(e) ==
  LET o == e.o IN
  CASE e.r = "panic" /\ O(o).k # "create" ->
         Chk({"C04", "C05", "C07", "C08", "C10", "C13", "C18"}, FALSE) /\
         UNCHANGED vars
    [] O(o).k = "close"    -> RetClose(o)
    [] O(o).k = "shutdown" -> RetShutdown(o, e.r)
    [] O(o).k = "create"   -> RetCreate(o, e.r)
    [] O(o).k = "cclose"   -> RetConClose(o, e.r)
    [] O(o).k = "sclose"   -> RetSrvClose(o, e)
    [] O(o).k = "signal"   -> RetSignal(o, e.r)

Event(e) ==
  CASE e.e = "connect"   -> Connect(e.c)
    [] e.e = "send"      -> SendEv(e)
    [] e.e = "onconn"    -> OnConn(e.c, e.ok)
    [] e.e = "onconnret" -> OnConnRet(e.c)
    [] e.e = "rcall"     -> ReadCall(e.c, e.ok)
    [] e.e = "read"      -> Read(e.c, e.m)
    [] e.e = "rerr"      -> ReadErr(e.c, e.m)
    [] e.e = "lost"      -> Lost(e.c)
    [] e.e = "disc"      -> Disc(e.c, e.ok)
    [] e.e = "discret"   -> DiscRet(e.c)
    [] e.e = "connret"   -> ConnRet(e.c)
    [] e.e = "sclose"    -> SockClose(e.c)
    [] e.e = "wfail"     -> WFail(e.c)
    [] e.e = "deliver"   -> Deliver(e.m)
    [] e.e = "hstart"    -> IF e.m = 0
                            THEN Chk({"C02", "C07", "C04", "C05"}, FALSE) /\ UNCHANGED vars
                            ELSE HStart(e.c, e.m, e)
    [] e.e = "hend"      -> IF e.m = 0 THEN UNCHANGED vars
                            ELSE HEnd(e.c, e.m, e)
    [] e.e = "fin"       -> Finish(e.m)
    [] e.e = "call"      -> Call(e.o)
    [] e.e = "ret"       -> RetEv(e)
    [] e.e = "tshut"     -> TransportShut
    [] e.e = "gen"       -> Gen(e.k)
    [] e.e = "genret"    -> GenRet(e.k)
    [] e.e = "oncreated" ->
         Some({o \in Ops : O(o).k = "create" /\ O(o).c = e.c /\ op[o].st = "eff"},
              {"C11"}, LAMBDA o : OnCreated(e.c, o, e))
    [] e.e = "oncreatedret" ->
         Some({o \in Ops : O(o).k = "create" /\ O(o).c = e.c /\ op[o].st = "hook"},
              {"C11"}, LAMBDA o : OnCreatedRet(e.c, o))
    [] e.e = "lookup"    ->
         Some({m \in Msgs : M(m).k = "restore" /\ M(m).key = e.k /\
                 msg[m].st = "adm" /\ msg[m].ph = ""},
              {"C04", "C05", "C12"}, LAMBDA m : Lookup(m, e.k))
    [] e.e = "lookupret" ->
         Some({m \in Msgs : M(m).k = "restore" /\ M(m).key = e.k /\
                 msg[m].st = "adm" /\ msg[m].ph = "lk"},
              {"C04", "C05", "C12"}, LAMBDA m : LookupRet(m, e.k, e.r))
    [] e.e = "sclosed"    -> Destroy(e.k)
    [] e.e = "sclosedret" -> DestroyRet(e.k)
    [] e.e = "release"    -> UNCHANGED vars
    [] e.e = "quiet"      -> Quiet(e)
    [] e.e = "wmisuse"    -> Chk({"C18"}, FALSE) /\ UNCHANGED vars
    [] e.e = "gc"         -> /\ Chk({"C24"}, \A c \in Cons :
                                   con[c].ret => e.freed[c])
                             /\ UNCHANGED vars
    \* goroutines that never end although everything is released and lost
    [] e.e = "leak"       -> Chk({"C24"}, FALSE) /\ UNCHANGED vars
    \* runaway executions and crashes are no behaviours
    [] e.e \in {"overflow", "livelock", "crash"} -> FALSE

Consume == l <= Last /\ Event(Ev) /\ l' = l + 1

Internal ==
  /\ l <= Last
  /\ l' = l
  /\ \/ \E m \in Msgs : Admit(m) \/ Refuse(m) \/ ReplyLost(m)
     \/ \E c \in Cons : CloseEff(c) \/ Unlink(c)
     \/ ShutdownEff
     \/ \E m \in Msgs : RestoreEff(m) \/ CloseReqEff(m)
     \/ \E o \in Ops : ConCloseEff(o) \/ SrvCloseSnap(o)
     \/ \E o \in Ops : \E c \in Cons : SrvCloseEff(o, c) \/ ClosedLost(o, c)

TNext == Consume \/ Internal

TSpec == TInit /\ [][TNext]_tvars

\* With a depth-first search (one worker) the rest of the behaviours of a trace
\* needn't be explored once it's accepted
Report ==
  IF l > Last
  THEN TLCGet(tr) = 0 /\ TLCSet(tr, 1) /\ PrintT(<<"ACC", tr>>)
  ELSE TLCGet(tr) = 0

\* Diagnosis: how far can a trace be followed
Progress == IF l > TLCGet(tr)
            THEN TLCSet(tr, l) /\ PrintT(<<"MAX", tr, l, con, msg, op, g>>)
            ELSE TRUE
DSpec == TInit /\ [][TNext]_tvars
=============================================================================
