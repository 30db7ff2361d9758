ID="C12-last-lookup"; PROP="C12"
NEEDS="a restored session whose last lookup differs from its creation"
BREAKS="the connection gets the creation time as the last lookup of the restored session, the reply is right"
EDITS=[("handleSessionRestore.go",'''		Creation:   sessionCreation,
		LastLookup: sessionLastLookup,
		Info:       parsedSessInfo,
''','''		Creation:   sessionCreation,
		LastLookup: sessionCreation,
		Info:       parsedSessInfo,
''')]
DEMO=r'''
package main

import (
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := newManager()
	a, b := time.Unix(1000, 0), time.Unix(5000, 0)
	m.lookup = func(string) (wwr.SessionLookupResult, error) { return wwr.NewSessionLookupResult(a, b, nil), nil }
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{SessionManager: m})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	s.send(restore(1, "k"))
	check(isReply(s.recv("reply").MsgType), "not restored")
	x := c.Session()
	check(x != nil && x.Creation.Equal(a) && x.LastLookup.Equal(b), "wrong session: %v", x)
}
'''
