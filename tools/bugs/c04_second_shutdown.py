ID="C04-second-shutdown"; PROP="C04"
NEEDS="Shutdown called a second time while an operation is still running"
BREAKS="only the first Shutdown call waits for the running operations, a repeated call shuts the transport down at once"
EDITS=[("server.go","""	srv.opsLock.Lock()
	srv.shutdown = true
	// Don't block if there's no currently processed operations
	if srv.currentOps < 1 {
""","""	srv.opsLock.Lock()
	alreadyShuttingDown := srv.shutdown
	srv.shutdown = true
	// Don't block if there's no currently processed operations
	if srv.currentOps < 1 || alreadyShuttingDown {
""")]
DEMO=r'''
package main

import (
	"context"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	gate := make(chan struct{})
	started := make(chan struct{})
	e := start(&impl{signal: func(context.Context, wwr.Connection, wwr.Message) {
		close(started)
		<-gate
	}}, wwr.ServerOptions{})
	s := e.connect(0)
	s.handshake()
	s.send(signal("x", ""))
	<-started
	ret := make(chan int, 2)
	for i := 1; i < 3; i++ {
		i := i
		go func() { e.srv.Shutdown(); ret <- i }()
		time.Sleep(100 * time.Millisecond)
	}
	select {
	case i := <-ret:
		fail("Shutdown call %d returned while a handler is running", i)
	case <-time.After(300 * time.Millisecond):
	}
	check(!e.t.isDown(), "transport shut down while a handler is running")
	close(gate)
	within(5*time.Second, "Shutdown", func() { <-ret; <-ret })
}
'''
