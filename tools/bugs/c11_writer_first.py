ID="C11-writer-before-encoding"; PROP="C11"
NEEDS="a session info that can't be JSON encoded, then any other message to that client"
BREAKS="the socket writer is taken before the session is encoded and never released when that fails"
EDITS=[("connection.go","""	// Serialize session info
	var sessionInfo""","""	// Notify client about the session creation
	writer, err := con.sock.GetWriter()
	if err != nil {
		return err
	}

	// Serialize session info
	var sessionInfo"""),("connection.go","""	// Notify client about the session creation
	writer, err := con.sock.GetWriter()
	if err != nil {
		return err
	}
	return message.WriteMsgNotifySessionCreated(""","""	return message.WriteMsgNotifySessionCreated(""")]
DEMO=r'''
package main

import (
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	err := c.CreateSession(wwr.GenericSessionInfoParser(map[string]interface{}{"x": make(chan int)}))
	check(err != nil && !c.HasSession(), "the session was created")
	within(3*time.Second, "signal", func() { c.Signal([]byte("a"), wwr.Payload{}) })
	s.recv("signal")
	check(c.CreateSession(nil) == nil, "can't create a session any more")
}
'''
