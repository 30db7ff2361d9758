ID="C05-second-close-forces"; PROP="C05"
NEEDS="a second Close on a connection while a handler is still running"
BREAKS="a repeated Close closes the socket at once, the reply of a running handler is lost"
EDITS=[("connection.go",'''	con.stateLock.Lock()
	if !con.isActive {
		con.stateLock.Unlock()
		return
	}
	con.isActive = false
	if con.tasks < 1 {
		unlink = true
	}
	con.stateLock.Unlock()
''','''	con.stateLock.Lock()
	if !con.isActive || con.tasks < 1 {
		// Nothing to wait for, or the closure was requested repeatedly
		unlink = true
	}
	con.isActive = false
	con.stateLock.Unlock()
''')]
DEMO=r'''
package main

import (
	"context"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	in, out := make(chan wwr.Connection, 1), make(chan bool)
	e := start(&impl{request: func(_ context.Context, c wwr.Connection, _ wwr.Message) (wwr.Payload, error) {
		in <- c
		<-out
		return wwr.Payload{}, nil
	}}, wwr.ServerOptions{})
	s := e.connect(0)
	s.handshake()
	s.send(request(1, "a", ""))
	c := <-in
	c.Close()
	c.Close()
	check(!s.closed(), "closed while a handler is running")
	out <- true
	check(isReply(s.recv("reply").MsgType), "no reply")
	eventually("the closure", s.closed)
}
'''
