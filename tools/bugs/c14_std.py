ID="C14-key-alphabet"; PROP="C14"
NEEDS="a generated session key that contains a slash"
BREAKS="sessions with certain generated keys aren't stored, a restart loses them"
EDITS=[("session.go","base64.URLEncoding.EncodeToString(bytes)","base64.StdEncoding.EncodeToString(bytes)")]
DEMO=r'''
package main

import (
	"os"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	dir, err := os.MkdirTemp("", "wwv-demo-")
	check(err == nil, "no scratch directory")
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }},
		wwr.ServerOptions{SessionManager: wwr.NewDefaultSessionManager(dir)})
	lost := 0
	for i := 0; i < 50; i++ {
		s := e.connect(0)
		s.handshake()
		c := <-cons
		check(c.CreateSession(nil) == nil, "can't create")
		s.recv("notification")
		r, err := wwr.NewDefaultSessionManager(dir).OnSessionLookup(c.SessionKey())
		if r == nil || err != nil {
			lost++
		}
	}
	os.RemoveAll(dir)
	check(lost == 0, "%d of 50 sessions are lost by a restart", lost)
}
'''
