ID="C03-slots-capped"; PROP="C03"
NEEDS="a concurrency limit above 16 and 17 overlapping requests"
BREAKS="requests are held back although handler slots are free"
EDITS=[("connection.go","""	// the connection is considered closed when no socket is referenced
	var remoteAddr net.Addr
""","""	// more parallel handlers per connection don't pay off
	slots := int64(options.ConcurrencyLimit)
	if slots > 16 {
		slots = 16
	}

	// the connection is considered closed when no socket is referenced
	var remoteAddr net.Addr
"""),("connection.go","""semaphore.NewWeighted(int64(options.ConcurrencyLimit)),""","""semaphore.NewWeighted(slots),""")]
DEMO=r'''
package main

import (
	"context"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	var running int32
	all := make(chan struct{})
	e := start(&impl{request: func(context.Context, wwr.Connection, wwr.Message) (wwr.Payload, error) {
		if atomic.AddInt32(&running, 1) == 18 {
			close(all)
		}
		select {
		case <-all:
		case <-time.After(5 * time.Second):
		}
		return wwr.Payload{}, nil
	}}, wwr.ServerOptions{})
	s := e.connect(20)
	s.handshake()
	for i := 0; i < 18; i++ {
		s.send(request(i, "r", ""))
	}
	select {
	case <-all:
	case <-time.After(3 * time.Second):
	}
	n := atomic.LoadInt32(&running)
	check(n == 18, "only %d of 18 requests are handled, the limit is 20", n)
}
'''
