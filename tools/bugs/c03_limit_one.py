ID="C03-limit-one-parallel"; PROP="C03"
NEEDS="a connection with the explicit concurrency limit 1 and two overlapping requests"
BREAKS="requests of connections with a concurrency limit of 1 are handled concurrently without any limit"
EDITS=[("handleMessage.go","""		if con.options.ConcurrencyLimit < 0 ||
			con.options.ConcurrencyLimit > 1 {
			go srv.handleRequest(con, msg)
		} else {
			srv.handleRequest(con, msg)
		}
""","""		if con.options.ConcurrencyLimit != 0 {
			go srv.handleRequest(con, msg)
		} else {
			srv.handleRequest(con, msg)
		}
""")]
DEMO=r'''
package main

import (
	"context"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	var running, most int32
	e := start(&impl{request: func(context.Context, wwr.Connection, wwr.Message) (wwr.Payload, error) {
		if n := atomic.AddInt32(&running, 1); n > 1 {
			atomic.StoreInt32(&most, n)
		}
		time.Sleep(50 * time.Millisecond)
		atomic.AddInt32(&running, -1)
		return wwr.Payload{}, nil
	}}, wwr.ServerOptions{})
	s := e.connect(1)
	s.handshake()
	for i := 0; i < 5; i++ {
		s.send(request(i, "r", ""))
	}
	for i := 0; i < 5; i++ {
		s.recv("reply")
	}
	check(most < 2, "%d handlers at the same time", most)
}
'''
