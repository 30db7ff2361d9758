ID="C25-buffer-rounded"; PROP="C25"
NEEDS="a message buffer size that's no multiple of 64 and a message slightly bigger than it"
BREAKS="the message buffers are bigger than announced, oversized messages are accepted"
EDITS=[("newServer.go",'''		messagePool:       message.NewSyncPool(opts.MessageBufferSize, 1024),
''','''		messagePool: message.NewSyncPool(
			// Keep the buffers aligned
			(opts.MessageBufferSize+63)/64*64,
			1024,
		),
''')]
DEMO=r'''
package main

import (
	"context"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	e := start(&impl{signal: func(context.Context, wwr.Connection, wwr.Message) {
		fail("a message bigger than the announced buffer was handled")
	}}, wwr.ServerOptions{MessageBufferSize: 40})
	s := e.connect(0)
	s.handshake()
	s.send(signal("", strings.Repeat("x", 40)))
	time.Sleep(300 * time.Millisecond)
}
'''
