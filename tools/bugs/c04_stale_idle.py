ID="C04-stale-idle"; PROP="C04"
NEEDS="the last operation ends on a connection being closed, and before its connection is unlinked another operation starts and Shutdown is called"
BREAKS="a finished operation decides by an outdated counter that the server is idle: Shutdown doesn't wait for an operation started meanwhile"
EDITS=[("deregisterHandler.go","""	srv.currentOps--
	if srv.shutdown && srv.currentOps < 1 {
		close(srv.shutdownRdy)
	}
	srv.opsLock.Unlock()

	con.deregisterTask()
""","""	srv.currentOps--
	idle := srv.currentOps < 1
	srv.opsLock.Unlock()

	con.deregisterTask()

	if idle && srv.isShuttingDown() {
		close(srv.shutdownRdy)
	}
""")]
DEMO=r'''
package main

import (
	"context"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	enter, leave := make(chan wwr.Connection), map[string]chan bool{"a": make(chan bool), "b": make(chan bool)}
	e := start(&impl{signal: func(_ context.Context, c wwr.Connection, m wwr.Message) {
		n := string(m.Name())
		enter <- c
		<-leave[n]
	}}, wwr.ServerOptions{})
	a, b := e.connect(0), e.connect(0)
	a.handshake()
	b.handshake()
	a.send(signal("a", "x"))
	ca := <-enter
	ca.Close()
	closing, cont := make(chan bool), make(chan bool)
	a.mu.Lock()
	a.onClose = func() { closing <- true; <-cont }
	a.mu.Unlock()
	leave["a"] <- true
	<-closing
	b.send(signal("b", "x"))
	<-enter
	done := make(chan bool)
	go func() { e.srv.Shutdown(); close(done) }()
	time.Sleep(100 * time.Millisecond)
	close(cont)
	select {
	case <-done:
		fail("Shutdown didn't wait for the running operation")
	case <-time.After(300 * time.Millisecond):
	}
	leave["b"] <- true
	within(5*time.Second, "shutdown", func() { <-done })
}
'''
