ID="C04-checked-before-slot"; PROP="C04"
NEEDS="a Shutdown while a message waits for a handler slot"
BREAKS="the shutdown is only looked at before waiting for a handler slot, handlers start after the shutdown"
EDITS=[("registerHandler.go",'''	// Acquire handler slot if the number of concurrent handlers is limited
''','''	// Refuse the message before it's queued up during the server shutdown
	srv.opsLock.Lock()
	failMsg = srv.shutdown
	srv.opsLock.Unlock()

	// Acquire handler slot if the number of concurrent handlers is limited
'''),("registerHandler.go",'''	srv.opsLock.Lock()
	if srv.shutdown {
		// defer failure due to shutdown of either the server or the connection
		failMsg = true
	} else {
		srv.currentOps++
	}
	srv.opsLock.Unlock()
''','''	if !failMsg {
		srv.opsLock.Lock()
		srv.currentOps++
		srv.opsLock.Unlock()
	}
''')]
DEMO=r'''
package main

import (
	"context"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	var n int32
	out := make(chan bool)
	e := start(&impl{request: func(context.Context, wwr.Connection, wwr.Message) (wwr.Payload, error) {
		atomic.AddInt32(&n, 1)
		<-out
		return wwr.Payload{}, nil
	}}, wwr.ServerOptions{})
	s := e.connect(2)
	s.handshake()
	s.send(request(1, "a", ""), request(2, "a", ""), request(3, "a", ""))
	eventually("handlers", func() bool { return atomic.LoadInt32(&n) == 2 })
	time.Sleep(100 * time.Millisecond)
	go e.srv.Shutdown()
	eventually("shutdown", func() bool { return e.t.isShut() })
	out <- true
	time.Sleep(300 * time.Millisecond)
	check(atomic.LoadInt32(&n) == 2, "handler started during the shutdown")
}
'''
