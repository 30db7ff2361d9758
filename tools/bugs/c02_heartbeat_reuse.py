ID="C02-heartbeat-reuse"; PROP="C02"
NEEDS="a heartbeat on one connection, a handler of another connection that keeps running while the first one receives its next message"
BREAKS="the read loop keeps the message object of a heartbeat although it was put back into the pool, another connection gets the same one"
EDITS=[("handleConnection.go","""	for {
		// Get a message buffer
		msg := srv.messagePool.Get()

""","""	// Get a message buffer
	msg := srv.messagePool.Get()

	for {
"""),("handleConnection.go","""		// Parse & handle the message
		if err := srv.handleMessage(connection, msg); err != nil {
			srv.errorLog.Print("message handler failed: ", err)
		}
""","""		// The message buffer isn't needed for the handling of heartbeats
		isHeartbeat := msg.MsgType == message.MsgHeartbeat

		// Parse & handle the message
		if err := srv.handleMessage(connection, msg); err != nil {
			srv.errorLog.Print("message handler failed: ", err)
		}

		if !isHeartbeat {
			// Get the next message buffer
			msg = srv.messagePool.Get()
		}
"""),("handleConnection.go","""	"time"
)""","""	"time"

	"github.com/qbeon/webwire-go/message"
)""")]
DEMO=r'''
package main

import (
	"context"
	"fmt"
	"runtime"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	runtime.GOMAXPROCS(1)
	enter, leave := make(chan string), make(chan bool)
	e := start(&impl{signal: func(_ context.Context, c wwr.Connection, m wwr.Message) {
		if string(m.Name()) != "slow" {
			return
		}
		enter <- string(m.Payload())
		<-leave
		func() {
			defer func() {
				if r := recover(); r != nil {
					enter <- fmt.Sprint(r)
				}
			}()
			enter <- string(m.Payload())
		}()
	}}, wwr.ServerOptions{})
	for i := 0; i < 50; i++ {
		a := e.connect(0)
		a.handshake()
		a.send(heartbeat())
		eventually("idle", a.idle)
		b := e.connect(0)
		b.handshake()
		b.send(signal("slow", "precious payload"))
		check(<-enter == "precious payload", "wrong payload")
		a.send(signal("quick", "overwritten bytes"))
		eventually("idle", func() bool { return a.idle() || a.hasEnded() })
		leave <- true
		p := <-enter
		check(p == "precious payload", "the payload changed while it was handled: %q", p)
		a.lose()
		b.lose()
	}
}
'''
