ID="C11-registered-before-notified"; PROP="C11"
NEEDS="CreateSession while the client can't be notified"
BREAKS="the session is registered before the client is notified, a failed notification leaves the registry entry behind"
EDITS=[("connection.go","""	// Try to notify about session creation
	if err := con.notifySessionCreated(&newSession); err != nil {
		return fmt.Errorf(""","""	// Register the session
	con.session = &newSession

	con.srv.sessionRegistry.register(con)

	// Try to notify about session creation
	if err := con.notifySessionCreated(&newSession); err != nil {
		con.session = nil
		return fmt.Errorf("""),("connection.go","""	// Register the session
	con.session = &newSession

	con.srv.sessionRegistry.register(con)

	return nil
""","""	return nil
""")]
DEMO=r'''
package main

import (
	"errors"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	s.mu.Lock()
	s.getWriter = func() error { return errors.New("broken") }
	s.mu.Unlock()
	check(c.CreateSession(nil) != nil && !c.HasSession(), "created without notification")
	check(e.srv.ActiveSessionsNum() == 0, "the failed session is registered")
}
'''
