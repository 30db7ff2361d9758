ID="C06-heartbeat-deadline"; PROP="C06"
NEEDS="heartbeats arriving during a read timeout period without other messages"
BREAKS="heartbeats don't extend the read deadline, idle clients are disconnected in spite of them"
EDITS=[("handleConnection.go","""	for {
		// Get a message buffer
		msg := srv.messagePool.Get()

		// Await message
		if err := sock.Read(
			msg,
			time.Now().Add(srv.options.ReadTimeout), // Deadline
		); err != nil {
""","""	deadline := time.Now().Add(srv.options.ReadTimeout)

	for {
		// Get a message buffer
		msg := srv.messagePool.Get()

		// Await message
		if err := sock.Read(msg, deadline); err != nil {
"""),("handleConnection.go","""		// Parse & handle the message
""","""		if msg.MsgType != message.MsgHeartbeat {
			deadline = time.Now().Add(srv.options.ReadTimeout)
		}

		// Parse & handle the message
"""),("handleConnection.go","""	"time"
)""","""	"time"

	"github.com/qbeon/webwire-go/message"
)""")]
DEMO=r'''
package main

import (
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	e := start(&impl{}, wwr.ServerOptions{ReadTimeout: 10 * time.Second})
	s := e.connect(0)
	s.handshake()
	eventually("idle", s.idle)
	time.Sleep(300 * time.Millisecond)
	sent := time.Now()
	s.send(heartbeat())
	eventually("second read", func() bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		return len(s.deadlines) > 1
	})
	s.mu.Lock()
	d := s.deadlines[1]
	s.mu.Unlock()
	check(!d.Before(sent.Add(10*time.Second)), "the heartbeat didn't extend the deadline")
}
'''
