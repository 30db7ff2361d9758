------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The abstract specification of a webwire server: connections, messages,  *)
(* handlers, shutdown and sessions.                                         *)
(*                                                                          *)
(* An action is either an observable event (a socket read or write, the    *)
(* entry or exit of a user hook, a call or return of an API method) or an   *)
(* internal step (the server decides to accept or refuse a message, a close *)
(* or shutdown takes effect, a session is assigned, ...). ServerMC explores *)
(* every behaviour of this module within small bounds; ServerTrace checks   *)
(* whether what the real server did is a behaviour of this module.          *)
(*                                                                          *)
(* Every rule is tagged with the properties it belongs to. LENS selects the *)
(* property under check ("ALL" enforces all of them): a rule that does not  *)
(* belong to it is not enforced.                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS
  LENS,      \* the property under check, or "ALL"
  HeadOf(_)  \* the scenarios: what connections, messages and operations there are

VARIABLES
  tr,        \* index of the scenario
  con,       \* connections
  msg,       \* messages sent to the server
  op,        \* operations of the user of the server
  g          \* global state

vars == <<tr, con, msg, op, g>>

H    == HeadOf(tr)
Cons == 1..Len(H.conns)
Msgs == 1..Len(H.msgs)
Ops  == 1..Len(H.ops)
M(m) == H.msgs[m]
O(o) == H.ops[o]
Lim(c) == H.conns[c].lim

Chk(S, cond) == (LENS = "ALL" \/ LENS \in S) => cond

Range(s) == {s[i] : i \in DOMAIN s}

Init0 ==
  /\ con = [c \in Cons |-> [
       st   |-> "no",     \* no acc conf hook live dead disc end
       ret  |-> FALSE,    \* the serving goroutine is gone
       ucl  |-> FALSE,    \* a closure by the user is in effect
       lost |-> FALSE,    \* the peer is gone
       scl  |-> FALSE,    \* the server has closed the socket
       unl  |-> FALSE,    \* removed from the registry
       wf   |-> 0,        \* failed messages not yet accounted for
       n    |-> 0,        \* number of messages read
       sess |-> ""]]      \* key of the assigned session
  /\ msg = [m \in Msgs |-> [
       st   |-> "new",    \* new sent read adm run ret ref done
       fin  |-> FALSE,    \* the handler may return
       ro   |-> 0,        \* position in the read order of the connection
       ph   |-> "",       \* session requests: "" lk looked eff
       lk   |-> "",       \* result of the session lookup
       full |-> FALSE,    \* the session was full during the restoration
       dst  |-> FALSE,    \* the session was being destroyed meanwhile
       dstl |-> FALSE]]   \* (including the time until the closer is done)
  /\ op = [o \in Ops |-> [
       st   |-> "new",    \* new called eff hook hooked noop ret
       key  |-> "",       \* key of the created session
       had  |-> FALSE,    \* the connection had a session meanwhile
       dis  |-> FALSE,    \* the connection was gone meanwhile
       wfl  |-> FALSE,    \* a write failed meanwhile
       nt   |-> {},       \* connections still to be notified
       pre  |-> {},       \* connections notified before they're closed
       er   |-> {},       \* connections that couldn't be notified
       snap |-> {},       \* connections found by a closure of the session
       left |-> {}]]      \* those that haven't had the session meanwhile
  /\ g = [
       sd   |-> FALSE,    \* shutdown in effect
       tsh  |-> 0,        \* transport shut down
       flt  |-> FALSE,    \* there was a fault or bad input
       gens |-> {},       \* generated keys not yet used
       pan  |-> 0,        \* panics of the key generator
       owed |-> <<>>,     \* keys of sessions to be destroyed (sequence)
       dh   |-> {},       \* keys of sessions being destroyed by the hook
       dstc |-> {}]       \* <<closer, key>> of unfinished destructions

-----------------------------------------------------------------------------
(* Helpers *)

Tasks == {"req", "sig", "restore", "close"}
NeedsReply(m) == M(m).k \in {"req", "restore", "close"}

MsgsOf(c)  == {m \in Msgs : M(m).c = c}
\* Accepted but not finished
Unf(c)     == {m \in MsgsOf(c) : msg[m].st \in {"adm", "run", "ret"}}
UnfAll     == {m \in Msgs : msg[m].st \in {"adm", "run", "ret"}}
Running(c) == {m \in MsgsOf(c) : msg[m].st = "run"}

With(k)    == {c \in Cons : con[c].sess = k}
InProgress(o) == op[o].st \notin {"new", "ret"}
OpsOn(c)   == {o \in Ops : O(o).c = c}

Gone(c)    == con[c].lost \/ con[c].scl \/ con[c].st \in {"dead", "disc", "end"}

SeqWithout(s, k) ==
  LET i == CHOOSE j \in DOMAIN s : s[j] = k
  IN  SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))

\* The flags of the restorations in progress after connections or destructions
\* have changed
Watch(ms, cn, gl) ==
  [m \in Msgs |->
     IF M(m).k = "restore" /\ ms[m].st \in {"read", "adm"} THEN
       LET k == M(m).key
           n == Cardinality({c \in Cons : cn[c].sess = k})
           d == k \in Range(gl.owed) \cup gl.dh
       IN [ms[m] EXCEPT
             !.full = @ \/ (H.cfg.max > 0 /\ n >= H.cfg.max),
             !.dst  = @ \/ (ms[m].ph \in {"lk", "looked"} /\ d),
             !.dstl = @ \/ d \/ (\E x \in gl.dstc : x[2] = k)]
     ELSE ms[m]]

\* The flags of the operations in progress after connections have changed
WatchOps(os, cn) ==
  [o \in Ops |->
     IF os[o].st \notin {"new", "ret"} /\ O(o).c > 0 THEN
       LET c == O(o).c IN
       [os[o] EXCEPT
         !.had = @ \/ cn[c].sess # "",
         !.dis = @ \/ cn[c].lost \/ cn[c].scl \/
                      cn[c].st \in {"dead", "disc", "end"}]
     ELSE IF os[o].st = "eff" /\ O(o).k = "sclose" THEN
       [os[o] EXCEPT
         !.left = @ \cup {c \in os[o].snap : cn[c].sess # O(o).key}]
     ELSE os[o]]

\* Assign the given state, updating everything that depends on it
Put(cn, ms, os, gl) ==
  /\ con' = cn
  /\ g'   = gl
  /\ msg' = Watch(ms, cn, gl)
  /\ op'  = WatchOps(os, cn)
  /\ tr'  = tr

SetCon(c, r) == [con EXCEPT ![c] = r]
SetMsg(m, r) == [msg EXCEPT ![m] = r]
SetOp(o, r)  == [op EXCEPT ![o] = r]

-----------------------------------------------------------------------------
(* The reply a request must get for the outcome of its handler *)

ReplyOf(m) ==
  LET r == M(m).out
      okFits  == 9 + (IF r.enc = "utf16" THEN 1 ELSE 0) + r.plen <= H.cfg.buf
      okAlign == r.enc = "utf16" => r.plen % 2 = 0
      errFits == 10 + r.clen + r.mlen <= H.cfg.buf
      codeOk  == r.clen >= 1 /\ r.clen <= 255 /\ r.cprint
  IN CASE r.k = "ok" /\ okFits /\ okAlign ->
            [t |-> "reply", enc |-> r.enc, p |-> r.p]
       [] r.k \in {"err", "perr"} /\ codeOk /\ errFits ->
            [t |-> "err", code |-> r.code, x |-> r.m]
       [] OTHER -> [t |-> "internal"]

SameReply(e, x) ==
  /\ e.t = x.t
  /\ x.t = "reply" => e.enc = x.enc /\ e.p = x.p
  /\ x.t = "err"   => e.code = x.code /\ e.x = x.x

EmptyReply == [t |-> "reply", enc |-> "bin", p |-> "\"\""]

-----------------------------------------------------------------------------
(* Connections *)

Connect(c) ==
  /\ con[c].st = "no"
  /\ Put(SetCon(c, [con[c] EXCEPT !.st = "acc"]), msg, op, g)

ConfOk(e) ==
  /\ e.major = 2 /\ e.minor = 0
  /\ e.rt = H.cfg.rt /\ e.buf = H.cfg.buf /\ e.sub = H.cfg.sub

SendConf(c, e) ==
  /\ Chk({"C06"}, con[c].st = "acc")
  /\ Chk({"C06", "C25"}, ConfOk(e))
  /\ Put(SetCon(c, [con[c] EXCEPT !.st = IF @ = "acc" THEN "conf" ELSE @]),
         msg, op, g)

\* Anything else is sent after the configuration message only
Confd(c) == Chk({"C06"}, con[c].st \notin {"no", "acc"})

OnConn(c, ok) ==
  /\ Chk({"C06"}, con[c].st = "conf" /\ ok)
  /\ Put(SetCon(c, [con[c] EXCEPT !.st = "hook"]), msg, op, g)

OnConnRet(c) ==
  /\ Chk({"C06"}, con[c].st = "hook")
  /\ Put(SetCon(c, [con[c] EXCEPT !.st = "live"]), msg, op, g)

\* The server waits for the next message
ReadCall(c, ok) ==
  /\ Chk({"C06"}, con[c].st = "live")
  \* Undecodable input and errors end the connection
  /\ Chk({"C07", "C24"}, con[c].st \notin {"dead", "disc", "end"})
  /\ Chk({"C06", "C25"}, ok)
  /\ UNCHANGED vars

Read(c, m) ==
  /\ Chk({"C06"}, con[c].st = "live")
  /\ Chk({"C07", "C17", "C25"}, M(m).k # "bad")
  /\ LET n == con[c].n + 1 IN
     Put(SetCon(c, [con[c] EXCEPT !.n = n]),
         SetMsg(m, [msg[m] EXCEPT
           !.st = IF M(m).k \in Tasks THEN "read" ELSE "done", !.ro = n]),
         op, [g EXCEPT !.flt = @ \/ M(m).k \notin (Tasks \cup {"hb"})])

\* Reading failed: the connection was lost or bad input was received
ReadErr(c, m) ==
  /\ Chk({"C07", "C16", "C17", "C02", "C01"}, m # 0 => M(m).k = "bad")
  /\ Put(SetCon(c, [con[c] EXCEPT !.st = "dead"]),
         IF m = 0 THEN msg ELSE SetMsg(m, [msg[m] EXCEPT !.st = "done"]),
         op, [g EXCEPT !.flt = @ \/ m # 0])

Lost(c) ==
  /\ Put(SetCon(c, [con[c] EXCEPT !.lost = TRUE]), msg, op, g)

Disc(c, ok) ==
  /\ Chk({"C06"}, con[c].st = "dead" /\ ok)
  /\ Put(SetCon(c, [con[c] EXCEPT !.st = "disc"]), msg, op, g)

DiscRet(c) ==
  /\ Chk({"C06"}, con[c].st = "disc")
  /\ Put(SetCon(c, [con[c] EXCEPT !.st = "end"]), msg, op, g)

ConnRet(c) ==
  /\ Chk({"C06"}, con[c].st \in {"acc", "end"})
  /\ Put(SetCon(c, [con[c] EXCEPT !.ret = TRUE]), msg, op, g)

SockClose(c) ==
  \* Never without a reason
  /\ Chk({"C05", "C06", "C07"},
       con[c].ucl \/ con[c].lost \/ con[c].st \in {"acc", "dead", "disc", "end"})
  \* Never before the accepted work is finished
  /\ Chk({"C05"}, (con[c].ucl /\ ~con[c].lost /\ con[c].st = "live")
                    => Unf(c) = {})
  /\ Put(SetCon(c, [con[c] EXCEPT !.scl = TRUE]), msg, op, g)

\* A message couldn't be sent
WFail(c) ==
  /\ Put(SetCon(c, [con[c] EXCEPT !.wf = @ + 1]), msg,
         [o \in Ops |-> IF InProgress(o) /\ (O(o).c = c \/ O(o).k = "sclose")
                        THEN [op[o] EXCEPT !.wfl = TRUE] ELSE op[o]],
         [g EXCEPT !.flt = TRUE])

-----------------------------------------------------------------------------
(* Messages *)

Deliver(m) ==
  /\ Put(con, SetMsg(m, [msg[m] EXCEPT !.st = "sent"]), op, g)

\* Internal: the message is accepted ...
Admit(m) ==
  /\ msg[m].st = "read"
  /\ Chk({"C04"}, ~g.sd)
  /\ Chk({"C05"}, ~con[M(m).c].ucl)
  /\ Chk({"C05", "C08"}, ~con[M(m).c].unl)
  /\ Put(con, SetMsg(m, [msg[m] EXCEPT !.st = "adm"]), op, g)

\* ... or refused
Refuse(m) ==
  LET c == M(m).c IN
  /\ msg[m].st = "read"
  /\ Chk({"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10",
           "C11", "C12", "C13", "C24"},
         g.sd \/ con[c].ucl \/ Gone(c))
  /\ Put(con, SetMsg(m, [msg[m] EXCEPT
                !.st = IF NeedsReply(m) THEN "ref" ELSE "done"]), op, g)

Serial(c) == Lim(c) \in {0, 1}

HStart(c, m, e) ==
  /\ Chk({"C02", "C07"}, m # 0 /\ M(m).c = c /\ M(m).k = e.k)
  /\ m # 0
  /\ Chk({"C02"}, /\ e.id = (IF M(m).k = "req" THEN M(m).id ELSE "")
                  /\ e.n = M(m).n /\ e.enc = M(m).enc /\ e.p = M(m).p)
  /\ Chk({"C02", "C04", "C05"}, msg[m].st = "adm")
  /\ Chk({"C06"}, con[c].st \notin {"no", "acc", "conf", "hook"})
  /\ Chk({"C03"}, Lim(c) > 1 => Cardinality(Running(c)) < Lim(c))
  /\ Chk({"C03"}, Serial(c) =>
       /\ Running(c) = {}
       /\ \A x \in MsgsOf(c) : (M(x).k \in {"req", "sig"} /\ msg[x].ro > 0 /\
            msg[x].ro < msg[m].ro) => msg[x].st \notin {"read", "adm", "run"})
  /\ Put(con, SetMsg(m, [msg[m] EXCEPT !.st = "run"]), op, g)

HEnd(c, m, e) ==
  /\ m # 0
  /\ Chk({"C02"}, /\ e.id = (IF M(m).k = "req" THEN M(m).id ELSE "")
                  /\ e.n = M(m).n /\ e.enc = M(m).enc /\ e.p = M(m).p)
  /\ Put(con, SetMsg(m, [msg[m] EXCEPT
                !.st = IF NeedsReply(m) THEN "ret" ELSE "done"]), op, g)

Finish(m) ==
  /\ Put(con, SetMsg(m, [msg[m] EXCEPT !.fin = TRUE]), op, g)

\* The destructions the message has begun are over
Closed(gl, closer) == [gl EXCEPT !.dstc = {x \in @ : x[1] # closer}]

SendReply(c, m, e) ==
  /\ Confd(c)
  /\ Chk({"C01", "C12", "C13"}, m # 0 /\ (m # 0 => M(m).c = c))
  /\ m # 0
  /\ LET s == msg[m] k == M(m).k IN
     /\ Chk({"C01", "C04", "C05"}, s.st \in {"ret", "ref", "adm"})
     /\ IF s.st = "ref"
        THEN /\ Chk({"C01", "C04", "C05"}, e.t = "shutdown")
             /\ Chk({"C08", "C09", "C10", "C12", "C13"}, e.t # "reply")
        ELSE
          CASE k = "req" ->
                 /\ Chk({"C01", "C04", "C05"}, s.st = "ret")
                 /\ Chk({"C01"}, SameReply(e, ReplyOf(m)))
            [] k = "close" ->
                 /\ Chk({"C01", "C13"},
                      IF ~H.cfg.sess THEN e.t = "disabled"
                      ELSE s.ph = "eff" /\ SameReply(e, EmptyReply))
                 /\ Chk({"C08", "C09", "C10"}, e.t = "reply" => s.ph = "eff")
            [] k = "restore" ->
                 /\ Chk({"C08", "C10", "C13"}, e.t = "reply" => s.ph = "eff")
                 /\ Chk({"C01", "C12", "C09"},
                   \/ e.t = "disabled" /\ ~H.cfg.sess
                   \/ e.t = "max"      /\ s.full /\ s.ph # "eff"
                   \/ e.t = "internal" /\ s.lk \in {"err", "bad", "big"}
                   \/ e.t = "notfound" /\ s.ph # "eff" /\
                        (s.lk = "nil" \/ s.dstl)
                   \/ e.t = "reply" /\ s.ph = "eff" /\ e.enc = "utf8" /\
                        e.p = "sess:" \o M(m).key)
            [] OTHER -> Chk({"C01", "C07"}, FALSE)
     /\ Put(con, SetMsg(m, [s EXCEPT !.st = "done"]), op,
            Closed(g, <<"m", m>>))

\* Internal: a reply couldn't be sent (or needn't be, the peer is gone)
ReplyLost(m) ==
  LET c == M(m).c s == msg[m] IN
  /\ \/ s.st \in {"ret", "ref"}
     \/ s.st = "adm" /\ M(m).k = "close" /\ (s.ph = "eff" \/ ~H.cfg.sess)
     \/ s.st = "adm" /\ M(m).k = "restore" /\
          (s.ph \in {"eff", "looked"} \/ ~H.cfg.sess \/ s.full)
  /\ con[c].wf > 0 \/ Gone(c)
  /\ Put(SetCon(c, [con[c] EXCEPT !.wf = IF @ > 0 THEN @ - 1 ELSE 0]),
         SetMsg(m, [s EXCEPT !.st = "done"]), op, Closed(g, <<"m", m>>))

-----------------------------------------------------------------------------
(* Closure of connections and of the server *)

Call(o) ==
  /\ op[o].st = "new"
  /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "called"]), g)

\* Internal: the closure of a connection takes effect
CloseEff(c) ==
  /\ ~con[c].ucl
  /\ \E o \in OpsOn(c) : O(o).k = "close" /\ op[o].st = "called"
  /\ Put(SetCon(c, [con[c] EXCEPT !.ucl = TRUE]), msg, op, g)

\* Internal: a closed or lost connection leaves the session registry, its
\* session is not destroyed
Unlink(c) ==
  /\ ~con[c].unl
  /\ con[c].ucl \/ con[c].st \in {"dead", "disc", "end"}
  /\ Unf(c) = {}
  /\ Put(SetCon(c, [con[c] EXCEPT !.unl = TRUE, !.sess = ""]), msg, op, g)

\* Internal: the shutdown takes effect
ShutdownEff ==
  /\ ~g.sd
  /\ \E o \in Ops : O(o).k = "shutdown" /\ op[o].st = "called"
  /\ Put(con, msg, op, [g EXCEPT !.sd = TRUE])

TransportShut ==
  /\ Chk({"C04"}, g.sd /\ UnfAll = {})
  /\ Put(con, msg, op, [g EXCEPT !.tsh = 1])

RetClose(o) ==
  /\ Chk({"C05"}, con[O(o).c].ucl)
  /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "ret"]), g)

RetShutdown(o, r) ==
  /\ Chk({"C04"}, r = "ok" /\ g.sd /\ UnfAll = {} /\ g.tsh = 1)
  /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "ret"]), g)

-----------------------------------------------------------------------------
(* Sessions *)

Gen(k) ==
  /\ Chk({"C11"}, \E o \in Ops : O(o).k = "create" /\ op[o].st = "called")
  /\ UNCHANGED vars

GenRet(k) ==
  IF k = "!"
  THEN Put(con, msg, op, [g EXCEPT !.pan = @ + 1])
  ELSE Put(con, msg, op, [g EXCEPT !.gens = @ \cup {k}])

\* The client is notified about a new session, which is assigned thereby
SendCreated(c, o, e) ==
  /\ Confd(c)
  /\ O(o).k = "create" /\ O(o).c = c /\ op[o].st = "called"
  /\ Chk({"C11"}, /\ H.cfg.sess
                  /\ e.k \in g.gens
                  /\ con[c].sess = ""
                  /\ ~O(o).bad
                  /\ e.i = O(o).i /\ e.ok)
  /\ Chk({"C05", "C08"}, ~con[c].unl)
  \* Announcements are made in the order of the changes
  /\ Chk({"C13"}, \A x \in Ops : c \notin op[x].nt)
  /\ Put(SetCon(c, [con[c] EXCEPT !.sess = e.k]), msg,
         SetOp(o, [op[o] EXCEPT !.st = "eff", !.key = e.k]),
         [g EXCEPT !.gens = @ \ {e.k}])

OnCreated(c, o, e) ==
  /\ O(o).k = "create" /\ O(o).c = c /\ op[o].st = "eff"
  /\ Chk({"C11"}, con[c].sess = op[o].key => e.k = op[o].key /\ e.ok)
  /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "hook"]), g)

OnCreatedRet(c, o) ==
  /\ O(o).k = "create" /\ O(o).c = c /\ op[o].st = "hook"
  /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "hooked"]), g)

RetCreate(o, r) ==
  /\ Chk({"C11"},
       \/ r = "ok" /\ op[o].st = "hooked"
       \/ r = "err" /\ op[o].st = "called" /\
            (op[o].had \/ op[o].dis \/ op[o].wfl \/ ~H.cfg.sess \/ O(o).bad)
       \/ r = "panic" /\ op[o].st = "called" /\ g.pan > 0)
  /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "ret"]),
         IF r = "panic" THEN [g EXCEPT !.pan = @ - 1] ELSE g)

Lookup(m, k) ==
  /\ M(m).k = "restore" /\ M(m).key = k
  /\ msg[m].st = "adm" /\ msg[m].ph = ""
  /\ Put(con, SetMsg(m, [msg[m] EXCEPT !.ph = "lk"]), op, g)

LookupRet(m, k, r) ==
  /\ M(m).k = "restore" /\ M(m).key = k
  /\ msg[m].st = "adm" /\ msg[m].ph = "lk"
  /\ Put(con, SetMsg(m, [msg[m] EXCEPT !.ph = "looked", !.lk = r]), op, g)

\* No other operation than o has announced the closure of the session of c yet
\* to be closed
Free(c, o) == \A x \in Ops \ {o} : c \notin op[x].pre

\* Internal: the connection joins the session that was found, leaving the one it
\* had without destroying that
RestoreEff(m) ==
  LET c == M(m).c k == M(m).key IN
  /\ msg[m].st = "adm" /\ msg[m].ph = "looked" /\ msg[m].lk = "found"
  /\ Free(c, 0)
  /\ Chk({"C09"}, H.cfg.max = 0 \/ Cardinality(With(k) \ {c}) < H.cfg.max)
  /\ Chk({"C10", "C12"}, ~msg[m].dst)
  /\ Put(SetCon(c, [con[c] EXCEPT !.sess = k]),
         SetMsg(m, [msg[m] EXCEPT !.ph = "eff"]), op, g)

\* The state after connection c has explicitly closed its session
\* (the last one to close it destroys it)
CloseCon(c)  == SetCon(c, [con[c] EXCEPT !.sess = ""])
CloseGlob(c, closer) ==
  LET k == con[c].sess IN
  IF With(k) = {c}
  THEN [g EXCEPT !.owed = Append(@, k), !.dstc = @ \cup {<<closer, k>>}]
  ELSE g

\* Internal: closure requested by the client
CloseReqEff(m) ==
  LET c == M(m).c
      ms == SetMsg(m, [msg[m] EXCEPT !.ph = "eff"]) IN
  /\ M(m).k = "close" /\ msg[m].st = "adm" /\ msg[m].ph = "" /\ H.cfg.sess
  /\ Free(c, 0)
  /\ IF con[c].sess = ""
     THEN Put(con, ms, op, g)
     ELSE Put(CloseCon(c), ms, op, CloseGlob(c, <<"m", m>>))

\* Internal: Connection.CloseSession takes effect
ConCloseEff(o) ==
  LET c == O(o).c IN
  /\ O(o).k = "cclose" /\ op[o].st = "called" /\ H.cfg.sess
  /\ Free(c, o)
  /\ IF con[c].sess = ""
     THEN /\ op[o].pre = {} \/ con[c].unl
          /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "noop", !.pre = {}]), g)
     ELSE Put(CloseCon(c), msg,
              SetOp(o, [op[o] EXCEPT !.st = "eff", !.nt = {c} \ op[o].pre,
                                     !.pre = {}]),
              CloseGlob(c, <<"o", o>>))

\* Connections whose clients were notified about session k while its creation
\* isn't complete: closures of the session are concurrent to it and may miss them
Creating(k) ==
  {c \in With(k) : \E x \in OpsOn(c) :
     O(x).k = "create" /\ op[x].st = "eff" /\ op[x].key = k}

\* Internal: Server.CloseSession collects the connections of the session ...
SrvCloseSnap(o) ==
  /\ O(o).k = "sclose" /\ op[o].st = "called"
  /\ \E missed \in SUBSET Creating(O(o).key) :
       Put(con, msg,
         SetOp(o, [op[o] EXCEPT !.st = "eff",
                                !.snap = With(O(o).key) \ missed]), g)

\* ... and closes the session of each of them
SrvCloseEff(o, c) ==
  /\ O(o).k = "sclose" /\ op[o].st = "eff"
  /\ c \in op[o].snap /\ con[c].sess = O(o).key
  /\ Free(c, o)
  /\ Put(CloseCon(c), msg,
         SetOp(o, [op[o] EXCEPT !.nt = @ \cup ({c} \ op[o].pre),
                                !.pre = @ \ {c}]),
         CloseGlob(c, <<"o", o>>))

\* The session of c is about to be closed by o, which may notify the client first
Closing(c, o) ==
  /\ H.cfg.sess /\ con[c].sess # "" /\ Free(c, 0)
  /\ \/ O(o).k = "cclose" /\ O(o).c = c /\ op[o].st = "called"
     \/ O(o).k = "sclose" /\ op[o].st = "eff" /\ c \in op[o].snap /\
          con[c].sess = O(o).key

\* The client is notified about the closure of its session
SendClosed(c, o) ==
  /\ Confd(c)
  /\ \/ /\ c \in op[o].nt
        /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.nt = @ \ {c}]), g)
     \/ /\ Closing(c, o) /\ c \notin op[o].nt
        /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.pre = @ \cup {c}]), g)

\* Internal: the notification couldn't be sent
ClosedLost(o, c) ==
  /\ con[c].wf > 0
  /\ \/ /\ c \in op[o].nt
        /\ Put(SetCon(c, [con[c] EXCEPT !.wf = @ - 1]), msg,
               SetOp(o, [op[o] EXCEPT !.nt = @ \ {c}, !.er = @ \cup {c}]), g)
     \/ /\ Closing(c, o) /\ c \notin op[o].nt
        /\ Put(SetCon(c, [con[c] EXCEPT !.wf = @ - 1]), msg,
               SetOp(o, [op[o] EXCEPT !.pre = @ \cup {c}, !.er = @ \cup {c}]), g)

RetConClose(o, r) ==
  /\ Chk({"C13", "C10"},
       \/ ~H.cfg.sess
       \/ (r = "ok") = (op[o].er = {}) /\ op[o].st = "noop"
       \/ r = "ok"  /\ op[o].st = "eff" /\ op[o].nt = {} /\ op[o].er = {}
       \/ r = "err" /\ op[o].st = "eff" /\ op[o].nt = {} /\ op[o].er # {})
  /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "ret"]),
         Closed(g, <<"o", o>>))

RetSrvClose(o, e) ==
  /\ Chk({"C13", "C10"},
       /\ op[o].st = "eff" /\ op[o].nt = {}
       /\ \A c \in op[o].pre : con[c].unl
       /\ e.n = Cardinality(op[o].snap) /\ e.ne = e.n
       /\ Range(e.cons) = op[o].snap
       /\ Range(e.errs) = op[o].er
       /\ (e.r = "err") <=> (op[o].er # {})
       /\ op[o].snap \subseteq op[o].left)
  /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "ret"]),
         Closed(g, <<"o", o>>))

\* The session is destroyed
Destroy(k) ==
  /\ Chk({"C10", "C04", "C05"}, k \in Range(g.owed))
  /\ Chk({"C10"}, With(k) = {})
  /\ Put(con, msg, op,
         [g EXCEPT !.owed = IF k \in Range(@) THEN SeqWithout(@, k) ELSE @,
                   !.dh = @ \cup {k}])

DestroyRet(k) ==
  /\ Put(con, msg, op, [g EXCEPT !.dh = @ \ {k}])

-----------------------------------------------------------------------------
(* Signals sent by the server *)

SignalOk(o) ==
  /\ O(o).nlen > 0 \/ O(o).plen > 0
  /\ O(o).nlen <= 255 /\ O(o).nprint
  /\ O(o).enc = "utf16" => O(o).plen % 2 = 0
  /\ 2 + O(o).nlen + O(o).plen +
       (IF O(o).enc = "utf16" /\ O(o).nlen % 2 = 1 THEN 1 ELSE 0) <= H.cfg.buf

SendSignal(c, o, e) ==
  /\ Confd(c)
  /\ O(o).k = "signal" /\ O(o).c = c /\ op[o].st = "called"
  /\ Chk({"C16", "C18"}, SignalOk(o) /\ e.n = O(o).n /\ e.p = O(o).p /\
                         e.enc = O(o).enc)
  /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "eff"]), g)

RetSignal(o, r) ==
  /\ Chk({"C18"},
       \/ r = "ok" /\ op[o].st = "eff"
       \/ r = "err" /\ op[o].st = "called" /\
            (~SignalOk(o) \/ op[o].wfl \/ op[o].dis))
  /\ Put(con, msg, SetOp(o, [op[o] EXCEPT !.st = "ret"]), g)

-----------------------------------------------------------------------------
(* What must hold whenever the server can't do anything on its own.         *)
(* e describes what is observed then: who is waiting where, and the state   *)
(* reported by the getters.                                                 *)

Quiet(e) ==
  LET
    fl(c)    == c \in Range(e.fl)       \* a writer is blocked by the peer
    anyFl    == e.fl # <<>>
    insSess  == e.is                    \* a session hook hasn't returned yet
    Held(c)  == {m \in Running(c) : ~msg[m].fin}
    \* The reader has a reason not to be reading
    Justified(c) ==
      \/ fl(c) \/ insSess
      \/ Serial(c) /\ Held(c) # {}
      \/ Lim(c) > 1 /\ Cardinality(Held(c)) >= Lim(c)
    Stuck(c) == con[c].st = "live" /\ ~e.reading[c] /\ ~Justified(c)
    stuck(m) ==
      LET c == M(m).c IN
      CASE msg[m].st \in {"read", "adm"} -> ~Justified(c)
        [] msg[m].st = "run"             -> msg[m].fin
        [] msg[m].st \in {"ret", "ref"}  -> ~fl(c) /\ ~Gone(c) /\
             ~(M(m).k \in {"restore", "close"} /\ insSess)
        [] OTHER -> FALSE
    opStuck(o) ==
      /\ InProgress(o)
      /\ ~insSess
      /\ CASE O(o).k = "shutdown" -> UnfAll = {}
           [] O(o).k = "sclose"   -> ~anyFl
           [] OTHER               -> ~fl(O(o).c)
    \* No session operation is in progress
    idle ==
      /\ ~insSess /\ ~anyFl
      /\ \A o \in Ops : O(o).k \notin {"shutdown", "signal"} => ~InProgress(o)
      /\ \A m \in Msgs : M(m).k \in {"restore", "close"} =>
           msg[m].st \notin {"read", "adm"}
    keys == DOMAIN e.list
    listed(k) == IF e.list[k] = <<-1>> THEN {} ELSE Range(e.list[k])
  IN
  \* Every closure and shutdown called by now is in effect
  /\ (\E o \in Ops : O(o).k = "shutdown" /\ op[o].st # "new") => g.sd
  /\ \A o \in Ops : (O(o).k = "close" /\ op[o].st # "new") => con[O(o).c].ucl
  /\ \A c \in Cons : ((con[c].ucl \/ con[c].st \in {"dead", "disc", "end"})
                      /\ Held(c) = {} /\ ~insSess /\ ~anyFl) => con[c].unl
  \* Nothing is held back without a reason, everything else is finished
  /\ \A c \in Cons : Stuck(c) =>
       /\ Chk({"C01", "C03"}, FALSE)
       /\ Chk({"C04"}, ~g.sd)
       /\ Chk({"C05"}, ~con[c].ucl)
       /\ Chk({"C07"}, ~g.flt)
  /\ \A m \in Msgs : stuck(m) =>
       LET k == M(m).k IN
       /\ Chk({"C01"}, ~NeedsReply(m))
       /\ Chk({"C02", "C03"}, msg[m].st \notin {"read", "adm"})
       /\ Chk({"C04"}, ~g.sd)
       /\ Chk({"C05"}, ~con[M(m).c].ucl)
       /\ Chk({"C07"}, ~g.flt)
       /\ Chk({"C08", "C09", "C12"}, k # "restore")
       /\ Chk({"C08", "C10", "C13"}, k # "close")
       /\ Chk({"C11"}, k \notin {"close", "restore"})
  /\ \A o \in Ops : opStuck(o) =>
       LET k == O(o).k IN
       /\ Chk({"C04"}, k # "shutdown")
       /\ Chk({"C05"}, k # "close")
       /\ Chk({"C01", "C11", "C13", "C18"}, k # "signal")
       /\ Chk({"C08"}, k \notin {"create", "cclose", "sclose", "close"})
       /\ Chk({"C11"}, k \notin {"create", "cclose", "sclose"})
       /\ Chk({"C10", "C13"}, k \notin {"cclose", "sclose"})
       /\ Chk({"C07"}, ~g.flt)
  /\ Chk({"C10"}, (~insSess) => (g.owed = <<>> /\ g.dh = {}))
  \* Connections that are over
  /\ \A c \in Cons :
       /\ Chk({"C05"}, (con[c].ucl /\ Held(c) = {} /\ ~insSess /\ ~anyFl)
                         => con[c].scl)
       /\ Chk({"C06"}, con[c].st # "dead" \/ anyFl \/ insSess)
       /\ Chk({"C24"},
            (con[c].st \in {"dead", "disc", "end"} /\ c \notin Range(e.od)
               /\ ~insSess /\ ~anyFl) =>
              /\ con[c].ret
              /\ Held(c) = {} => con[c].scl)
       /\ Chk({"C06", "C07", "C24"},
            (con[c].st \in {"acc", "conf"} /\ ~fl(c)) =>
              (con[c].ret /\ con[c].scl))
       /\ Chk({"C05", "C06"}, con[c].st = "live" =>
            e.active[c] = (IF con[c].ucl THEN "false" ELSE "true"))
       /\ Chk({"C06"}, con[c].st \in {"disc", "end"} => e.active[c] = "false")
  \* Nothing was lost on the way
  /\ e.kind \in {"fin", "end"} =>
       \A m \in Msgs : LET c == M(m).c IN
         (msg[m].st = "sent" /\ ~Gone(c) /\ con[c].st = "live") =>
           /\ Chk({"C01", "C02", "C03"}, FALSE)
           /\ Chk({"C07"}, ~g.flt)
  \* The registry and the getters
  /\ Chk({"C09"}, H.cfg.max > 0 =>
       \A k \in keys : Cardinality(listed(k)) <= H.cfg.max)
  /\ idle =>
       /\ Chk({"C08", "C11", "C12", "C13"}, \A k \in keys :
            /\ listed(k) = {c \in Cons : e.sess[c] = k}
            /\ e.num[k] = (IF listed(k) = {} THEN -1 ELSE Cardinality(listed(k)))
            /\ listed(k) = {} => e.list[k] = <<-1>>
            /\ \A c \in listed(k) : ~con[c].scl)
       /\ Chk({"C08"}, e.act = Cardinality({k \in keys : listed(k) # {}}))
       /\ Chk({"C08", "C09", "C10", "C11", "C12", "C13"},
            \A c \in Cons : e.sess[c] # "-" => e.sess[c] = con[c].sess)
       /\ Chk({"C05", "C13", "C24"},
            \A k \in keys : listed(k) \subseteq With(k))
  /\ UNCHANGED vars
=============================================================================
