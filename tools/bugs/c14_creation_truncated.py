ID="C14-creation-truncated"; PROP="C14"
NEEDS="a session looked up at least twice"
BREAKS="rewriting the session file during a lookup truncates the creation time to seconds"
EDITS=[("defaultSessionManager.go","""		Creation:   file.Creation,
		LastLookup: time.Now().UTC(),
""","""		Creation:   file.Creation.Truncate(time.Second),
		LastLookup: time.Now().UTC(),
""")]
DEMO=r'''
package main

import (
	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := wwr.NewDefaultSessionManager("sessions")
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{SessionManager: m})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	check(c.CreateSession(nil) == nil, "can't create")
	k := c.SessionKey()
	for i := 0; i < 3; i++ {
		r, err := m.OnSessionLookup(k)
		check(err == nil && r != nil && r.Creation().Equal(c.SessionCreation()), "wrong creation time")
	}
}
'''
