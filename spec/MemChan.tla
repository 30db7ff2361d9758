------------------------------- MODULE MemChan -------------------------------
(* The in-memory transport: pairs of entangled sockets, their writers and      *)
(* readers, dialing, closing and the shutdown. Calls of concurrent workers are *)
(* open intervals: an effect takes place atomically somewhere inside.          *)
(* A message is handed over by a joint step of the worker that closes the      *)
(* writer and the worker that reads at the other end.                          *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS LENS, SizeOf(_)
VARIABLES
  tr,    \* which trace, or 0
  pr,    \* pair -> connected, announcements due
  wr,    \* pair, side -> writer: owner, content, overflown
  sys,   \* transport: down, flag (shutting down), refuse, fin
  wk     \* worker -> call in progress
vars == <<tr, pr, wr, sys, wk>>

Pairs == 1..3
All == Pairs \cup {9}     \* 9: a socket without a server
Sides == {"c", "s"}
Workers == 1..6
Other(d) == IF d = "c" THEN "s" ELSE "c"
Chk(tags, c) == (LENS \notin tags /\ LENS # "ALL") \/ c

Idle == [k |-> "", s |-> 0, d |-> "", dl |-> "", b |-> <<>>, res |-> "",
         rel |-> FALSE, exp |-> FALSE, fl |-> {}, rf |-> {}, was |-> FALSE]

InitBut(t) ==
  /\ tr = t
  /\ pr = [p \in All |-> [conn |-> FALSE, ann |-> 0, anned |-> FALSE]]
  /\ wr = [p \in All |-> [d \in Sides |-> [own |-> 0, buf |-> <<>>, ovf |-> FALSE]]]
  /\ sys = [down |-> FALSE, flag |-> FALSE, refuse |-> FALSE, fin |-> FALSE]
  /\ wk = [w \in Workers |-> Idle]

Open(w, k) == wk[w].k = k /\ wk[w].res = ""
Res(w, r) == wk' = [wk EXCEPT ![w].res = r]
P(w) == wk[w].s
Conn(w) == pr[wk[w].s].conn

Call(w, k, s, d, dl, b) ==
  /\ wk[w] = Idle
  /\ wk' = [wk EXCEPT ![w] =
       [k |-> k, s |-> s, d |-> d, dl |-> dl, b |-> b, res |-> "", rel |-> FALSE,
        exp |-> FALSE, fl |-> {sys.flag}, rf |-> {sys.refuse}, was |-> sys.down]]
  /\ UNCHANGED <<tr, pr, wr, sys>>

\* The environment
SetFlag(v) ==
  /\ sys' = [sys EXCEPT !.flag = v]
  /\ wk' = [w \in Workers |-> IF wk[w].k = "" THEN Idle
                          ELSE [wk[w] EXCEPT !.fl = @ \cup {v}]]
  /\ UNCHANGED <<tr, pr, wr>>
SetRefuse(v) ==
  /\ sys' = [sys EXCEPT !.refuse = v]
  /\ wk' = [w \in Workers |-> IF wk[w].k = "" THEN Idle
                          ELSE [wk[w] EXCEPT !.rf = @ \cup {v}]]
  /\ UNCHANGED <<tr, pr, wr>>
Sleep ==
  /\ wk' = [w \in Workers |-> [wk[w] EXCEPT !.exp =
              @ \/ (wk[w].k = "read" /\ wk[w].dl \in {"past", "soon"})]]
  /\ UNCHANGED <<tr, pr, wr, sys>>

---------------------------------------------------------------------------
\* Dialing
DialOK(w) ==
  /\ Open(w, "dial") /\ P(w) # 9
  /\ Chk({"C23"}, /\ wk[w].d = "c" /\ ~Conn(w) /\ ~sys.down
                  /\ FALSE \in wk[w].fl /\ FALSE \in wk[w].rf)
  /\ pr' = [pr EXCEPT ![P(w)].conn = TRUE, ![P(w)].ann = @ + 1]
  /\ Res(w, "ok") /\ UNCHANGED <<tr, wr, sys>>
DialFail(w) ==
  /\ Open(w, "dial")
  /\ Chk({"C23"}, \/ wk[w].d = "s" \/ P(w) = 9
                  \/ Conn(w) \/ TRUE \in wk[w].fl \/ TRUE \in wk[w].rf \/ sys.down)
  /\ Res(w, "err") /\ UNCHANGED <<tr, pr, wr, sys>>

\* The server is told about the new connection
NewConn(p, good) ==
  /\ p \in Pairs
  /\ Chk({"C23"}, pr[p].ann > 0 /\ good)
  /\ pr' = [pr EXCEPT ![p].ann = @ - 1, ![p].anned = TRUE]
  /\ UNCHANGED <<tr, wr, sys, wk>>

\* Closing, by either end
CloseEff(w) ==
  /\ Open(w, "close")
  /\ pr' = [pr EXCEPT ![P(w)].conn = FALSE]
  /\ Res(w, "ok") /\ UNCHANGED <<tr, wr, sys>>

IsConnEff(w) ==
  /\ Open(w, "isconn")
  /\ Res(w, IF Conn(w) THEN "true" ELSE "false")
  /\ UNCHANGED <<tr, pr, wr, sys>>

---------------------------------------------------------------------------
\* Writing
W(w) == wr[wk[w].s][wk[w].d]
GwOK(w) ==
  /\ Open(w, "gw") /\ Conn(w) /\ W(w).own = 0
  /\ wr' = [wr EXCEPT ![P(w)][wk[w].d] = [own |-> w, buf |-> <<>>, ovf |-> FALSE]]
  /\ Res(w, "ok") /\ UNCHANGED <<tr, pr, sys>>
GwFail(w) ==
  /\ Open(w, "gw") /\ ~Conn(w)
  /\ Res(w, "err") /\ UNCHANGED <<tr, pr, wr, sys>>

Mine(w) == W(w).own = w

WriteEff(w) ==
  /\ Open(w, "w")
  /\ IF ~Mine(w) THEN Res(w, "skip") /\ UNCHANGED wr
     ELSE IF W(w).ovf \/ Len(W(w).buf) + Len(wk[w].b) > SizeOf(tr)
     THEN /\ Res(w, "overflow")
          /\ wr' = [wr EXCEPT ![P(w)][wk[w].d].buf = <<>>, ![P(w)][wk[w].d].ovf = TRUE]
     ELSE /\ Res(w, "ok")
          /\ wr' = [wr EXCEPT ![P(w)][wk[w].d].buf = @ \o wk[w].b]
  /\ UNCHANGED <<tr, pr, sys>>

\* The writer is given back, whatever became of the message
Free(w) == [own |-> 0, buf |-> <<>>, ovf |-> FALSE]
Release(w) ==
  /\ wk[w].k = "wc" /\ wk[w].res # "" /\ ~wk[w].rel
  /\ wr' = [wr EXCEPT ![P(w)][wk[w].d] = Free(w)]
  /\ wk' = [wk EXCEPT ![w].rel = TRUE]
  /\ UNCHANGED <<tr, pr, sys>>
WcNothing(w) ==
  /\ Open(w, "wc")
  /\ IF ~Mine(w) THEN wk' = [wk EXCEPT ![w].res = "skip", ![w].rel = TRUE]
     ELSE W(w).buf = <<>> /\ Res(w, "err")
  /\ UNCHANGED <<tr, pr, wr, sys>>
WcFail(w) ==
  /\ Open(w, "wc") /\ Mine(w) /\ Chk({"C22"}, ~Conn(w))
  /\ Res(w, "err") /\ UNCHANGED <<tr, pr, wr, sys>>

\* w finishes a message, r gets it. What's no message is delivered as
\* an error, which is the reader's business only
Good(b) == Len(b) >= 3 /\ b[1] = 63 /\ b[2] = 0
Transfer(w, r) ==
  /\ Open(w, "wc") /\ Open(r, "read")
  /\ P(w) = P(r) /\ wk[r].d = Other(wk[w].d)
  /\ Conn(w) /\ Mine(w) /\ W(w).buf # <<>>
  /\ wk' = [wk EXCEPT ![w].res = "ok",
              ![r].res = IF Good(W(w).buf) THEN "msg" ELSE "fail",
              ![r].rel = TRUE,
              ![r].b = W(w).buf]
  /\ UNCHANGED <<tr, pr, wr, sys>>

\* Reading without success
ReadTimeout(r) ==
  /\ Open(r, "read") /\ Chk({"C22"}, wk[r].dl \in {"past", "soon"})
  /\ Res(r, "fail") /\ UNCHANGED <<tr, pr, wr, sys>>
ReadClosed(r) ==
  /\ Open(r, "read") /\ ~Conn(r)
  /\ Res(r, "closed") /\ UNCHANGED <<tr, pr, wr, sys>>
\* A reader that failed may give up the connection
ReadClose(r) ==
  /\ wk[r].k = "read" /\ wk[r].res \in {"fail", "closed"} /\ ~wk[r].rel
  /\ pr[P(r)].conn
  /\ pr' = [pr EXCEPT ![P(r)].conn = FALSE]
  /\ UNCHANGED <<tr, wr, sys, wk>>

---------------------------------------------------------------------------
\* The transport as a whole
ServeEff(w) ==
  /\ Open(w, "serve") /\ sys.down
  /\ Res(w, "done") /\ UNCHANGED <<tr, pr, wr, sys>>
ShutBegin(w) ==
  /\ Open(w, "shutdown")
  /\ sys' = [sys EXCEPT !.down = TRUE]
  /\ wk' = [wk EXCEPT ![w].res = "ok", ![w].rel = sys.down]
  /\ UNCHANGED <<tr, pr, wr>>
ShutClose(w, p) ==
  /\ wk[w].k = "shutdown" /\ wk[w].res = "ok" /\ pr[p].conn
  /\ pr' = [pr EXCEPT ![p].conn = FALSE]
  /\ UNCHANGED <<tr, wr, sys, wk>>

Effect(w) ==
  \/ DialOK(w) \/ DialFail(w) \/ CloseEff(w) \/ IsConnEff(w)
  \/ GwOK(w) \/ GwFail(w) \/ WriteEff(w) \/ WcNothing(w) \/ WcFail(w) \/ Release(w)
  \/ \E r \in Workers : Transfer(w, r)
  \/ ReadTimeout(w) \/ ReadClosed(w) \/ ReadClose(w)
  \/ ServeEff(w) \/ ShutBegin(w) \/ \E p \in Pairs : ShutClose(w, p)

Skip(w) == \/ wk[w].d = "s" /\ P(w) > 0 /\ ~pr[P(w)].anned
           \/ wk[w].k = "gw" /\ Mine(w)

\* r, b: what the caller got
Ret(w, r, b) ==
  /\ wk[w].k # ""
  /\ \/ r = "skip" /\ wk[w].res = "" /\ Skip(w)
     \/ r # "panic" /\ r = wk[w].res
     \/ LENS = "C22" /\ wk[w].k \in {"dial", "close", "isconn", "shutdown", "serve"}
  /\ wk[w].k = "read" /\ r = "msg" => Chk({"C22"}, b = wk[w].b)
  /\ wk[w].k = "wc" /\ r # "skip" => wk[w].rel
  \* all accepted connections are gone
  /\ wk[w].k = "shutdown" /\ ~wk[w].rel =>
       Chk({"C23"}, \A p \in Pairs : ~pr[p].conn)
  /\ wk' = [wk EXCEPT ![w] = Idle]
  /\ UNCHANGED <<tr, pr, wr, sys>>

\* Who may be waiting while nothing happens?
Readers(p, d) == {r \in Workers : Open(r, "read") /\ P(r) = p /\ wk[r].d = d}
Closers(p, d) == {w \in Workers : Open(w, "wc") /\ P(w) = p /\ wk[w].d = d /\ Mine(w)
                                  /\ W(w).buf # <<>>}
MayBlock(w) ==
  /\ wk[w].res = ""
  /\ CASE wk[w].k = "read" -> \* readers of one socket take turns
                              /\ Conn(w) /\ (wk[w].exp => Readers(P(w), wk[w].d) # {w})
                              /\ Closers(P(w), Other(wk[w].d)) = {}
       [] wk[w].k = "wc"   -> /\ Conn(w) /\ Mine(w) /\ W(w).buf # <<>>
                              /\ Readers(P(w), Other(wk[w].d)) = {}
       [] wk[w].k = "gw"   -> W(w).own # 0
       [] wk[w].k = "serve" -> ~sys.down
       [] OTHER -> FALSE

Matter(w) == IF wk[w].k \in {"read", "wc"} THEN IF Conn(w) THEN "C22" ELSE "C23"
             ELSE IF wk[w].k \in {"gw", "w"} THEN "C22" ELSE "C23"
Quiet(blocked, conn, same) ==
  /\ {w \in Workers : wk[w].k # ""} = blocked
  /\ \A w \in blocked : Chk({Matter(w)}, MayBlock(w))
  /\ Chk({"C23"}, /\ same
                  /\ {p \in Pairs : pr[p].conn} = conn
                  /\ \A p \in Pairs : pr[p].ann = 0)
  /\ pr' = [p \in All |-> [pr[p] EXCEPT !.conn = p \in conn]]
  /\ UNCHANGED <<tr, wr, sys, wk>>

---------------------------------------------------------------------------
\* Whoever may not wait can proceed
NoneStuck ==
  \A w \in Workers : wk[w].k # "" /\ wk[w].res = "" /\ ~MayBlock(w) =>
    \/ ENABLED Effect(w)
    \/ wk[w].k = "read" /\ \E v \in Workers : ENABLED Transfer(v, w)
    \* a deadline that hasn't passed, a writer held by somebody else
\* At most one worker holds the writer of a socket
OneWriter == \A w, v \in Workers : \A p \in Pairs : \A d \in Sides :
  (wr[p][d].own = w /\ wr[p][d].own = v) => w = v
\* A shut down transport ends up without connections
ShutIsDown == \A w \in Workers : wk[w].k = "shutdown" /\ wk[w].res = "ok" =>
  sys.down /\ \A v \in Workers : wk[v].k = "dial" => ~ENABLED DialOK(v)
===============================================================================
