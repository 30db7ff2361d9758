ID="C11-hook-error-returned"; PROP="C11"
NEEDS="an OnSessionCreated hook that fails"
BREAKS="CreateSession fails although the session was assigned and announced"
EDITS=[("connection.go",'''	// Call session creation hook
	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
	}

	return nil
''','''	return con.srv.sessionManager.OnSessionCreated(con)
''')]
DEMO=r'''
package main

import (
	"errors"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := newManager()
	m.created = func(wwr.Connection) error { return errors.New("failed") }
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{SessionManager: m})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	err := c.CreateSession(nil)
	check((err == nil) == c.HasSession(), "CreateSession returned %v, has session: %v", err, c.HasSession())
}
'''
