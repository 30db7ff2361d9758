ID="C05-notfound-early"; PROP="C05"
NEEDS="Close of the connection while the refusal of a session restoration is being written"
BREAKS="a restoration of an unknown session counts as finished before its reply is written, closing the connection closes the socket first"
EDITS=[("handleSessionRestore.go","""		srv.failMsg(con, msg, ErrSessionNotFound{})
		finalize()
		return
	}

	sessionCreation""","""		srv.deregisterHandler(con)
		srv.failMsg(con, msg, ErrSessionNotFound{})
		msg.Close()
		return
	}

	sessionCreation""")]
DEMO=r'''
package main

import (
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

func main() {
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	writing, cont := make(chan bool), make(chan bool)
	s.mu.Lock()
	s.flush = func([]byte) error { writing <- true; <-cont; return nil }
	s.mu.Unlock()
	s.send(restore(2, "unknown"))
	<-writing
	c.Close()
	time.Sleep(100 * time.Millisecond)
	check(!s.closed(), "the socket was closed before the reply was written")
	cont <- true
	m := s.recv("reply")
	check(m.MsgType == message.MsgReplySessionNotFound, "unexpected reply %d", m.MsgType)
	eventually("closure", s.closed)
}
'''
