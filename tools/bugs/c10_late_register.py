ID="C10-late-register"; PROP="C10"
NEEDS="the client closing a new session while OnSessionCreated is still running"
BREAKS="a created session is registered only after OnSessionCreated, a session closed before that is never destroyed"
EDITS=[("connection.go","""		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
	}

	return nil
""","""		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
	}

	// Register the session unless it was closed in the meantime
	con.sessionLock.Lock()
	defer con.sessionLock.Unlock()
	if con.session != nil {
		return con.srv.sessionRegistry.register(con)
	}

	return nil
"""),("connection.go","""	con.session = &newSession

	con.srv.sessionRegistry.register(con)

	return nil
""","""	con.session = &newSession

	return nil
""")]
DEMO=r'''
package main

import (
	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

func main() {
	m := newManager()
	enter, leave := make(chan string, 1), make(chan bool)
	m.created = func(c wwr.Connection) error { enter <- c.SessionKey(); <-leave; return nil }
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{SessionManager: m})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	done := make(chan bool)
	go func() { c.CreateSession(nil); close(done) }()
	key := <-enter
	check(s.recv("notification").MsgType == message.MsgNotifySessionCreated, "no notification")
	s.send(closeSession(1))
	check(isReply(s.recv("close reply").MsgType), "close failed")
	close(leave)
	<-done
	check(m.destroyed(key) == 1, "the closed session was destroyed %d times", m.destroyed(key))
}
'''
