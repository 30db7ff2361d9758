ID="C04-session-closure-early"; PROP="C04"
NEEDS="Shutdown while the confirmation of a client's close-session request is being written"
BREAKS="a session closure counts as finished before its reply is written, Shutdown doesn't wait for it"
EDITS=[("handleSessionClosure.go","""	con.sessionLock.Unlock()

	// Send confirmation
	srv.fulfillMsg(con, msg, Payload{})
	finalize()
}""","""	con.sessionLock.Unlock()

	// The session is closed
	srv.deregisterHandler(con)

	// Send confirmation
	srv.fulfillMsg(con, msg, Payload{})

	// Release message buffer
	msg.Close()
}""")]
DEMO=r'''
package main

import (
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := newManager()
	e := start(&impl{}, wwr.ServerOptions{SessionManager: m})
	m.put("k")
	s := e.connect(0)
	s.handshake()
	s.send(restore(1, "k"))
	check(isReply(s.recv("restore reply").MsgType), "restore failed")
	writing, cont := make(chan bool), make(chan bool)
	s.mu.Lock()
	s.flush = func([]byte) error { writing <- true; <-cont; return nil }
	s.mu.Unlock()
	s.send(closeSession(2))
	<-writing
	done := make(chan bool)
	go func() { e.srv.Shutdown(); close(done) }()
	select {
	case <-done:
		fail("Shutdown returned before the reply was written")
	case <-time.After(300 * time.Millisecond):
	}
	cont <- true
	within(5*time.Second, "shutdown", func() { <-done })
}
'''
