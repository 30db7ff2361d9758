ID="C05-lost-unlink"; PROP="C05"
NEEDS="Close called between the last handler's look at the connection state and its deregistration"
BREAKS="deregisterTask looks at isActive before taking the lock, a Close in between is missed and the socket is never closed"
EDITS=[("connection.go","""	unlink := false

	con.stateLock.Lock()
	con.tasks--
	if !con.isActive && con.tasks < 1 {
		unlink = true
	}
	con.stateLock.Unlock()
""","""	unlink := !con.IsActive()

	con.stateLock.Lock()
	con.tasks--
	if con.tasks > 0 {
		unlink = false
	}
	con.stateLock.Unlock()
""")]
DEMO=r'''
package main

import (
	"context"
	"runtime"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	// Close races with the end of the last handler of the connection
	runtime.GOMAXPROCS(8)
	for i := 0; i < 25000; i++ {
		done := make(chan wwr.Connection, 1)
		con := make(chan wwr.Connection, 1)
		if i == 0 {
			srv = start(&impl{signal: func(_ context.Context, c wwr.Connection, _ wwr.Message) {
				h := handler
				h(c)
			}}, wwr.ServerOptions{})
		}
		handler = func(c wwr.Connection) {
			con <- c
			<-done
			spin(i % 40)
		}
		s := srv.connect(2)
		s.send(signal("x", ""))
		c := <-con
		done <- nil
		var stop int32
		for k := 0; k < 3; k++ {
			go func() {
				for atomic.LoadInt32(&stop) == 0 {
					c.IsActive()
				}
			}()
		}
		spin((i / 40) % 200)
		c.Close()
		end := time.Now().Add(3 * time.Second)
		for !s.closed() {
			if time.Now().After(end) {
				fail("the closed connection's socket is still open (attempt %d)", i)
			}
			runtime.Gosched()
		}
		atomic.StoreInt32(&stop, 1)
	}
}

var srv *env
var handler func(wwr.Connection)
var sink int

func spin(n int) {
	for i := 0; i < n*4; i++ {
		sink++
	}
}
'''
