ID="C10-hook-retried"; PROP="C10"
NEEDS="an OnSessionClosed hook that returns an error"
BREAKS="OnSessionClosed is called a second time when it fails"
EDITS=[("newServer.go",'''			if err := srv.sessionManager.OnSessionClosed(
				sessionKey,
			); err != nil {
''','''			err := srv.sessionManager.OnSessionClosed(sessionKey)
			if err != nil {
				// Try again, the storage could be temporarily unavailable
				err = srv.sessionManager.OnSessionClosed(sessionKey)
			}
			if err != nil {
''')]
DEMO=r'''
package main

import (
	"errors"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := newManager()
	m.closing = func(string) error { return errors.New("failed") }
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{SessionManager: m})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	check(c.CreateSession(nil) == nil, "can't create")
	k := c.SessionKey()
	c.CloseSession()
	check(m.destroyed(k) == 1, "destroyed %d times", m.destroyed(k))
}
'''
