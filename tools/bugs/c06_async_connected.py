ID="C06-connected-async"; PROP="C06"
NEEDS="a connection with a concurrency limit above 1 that sends a message before OnClientConnected returned"
BREAKS="OnClientConnected runs concurrently with the handlers of connections that have concurrent handlers"
EDITS=[("handleConnection.go",'''	srv.impl.OnClientConnected(connectionOptions, connection)

''','''	if connectionOptions.ConcurrencyLimit > 1 {
		// Don't hold up the handlers
		go srv.impl.OnClientConnected(connectionOptions, connection)
	} else {
		srv.impl.OnClientConnected(connectionOptions, connection)
	}

''')]
DEMO=r'''
package main

import (
	"context"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	started, cont := make(chan bool, 1), make(chan bool)
	e := start(&impl{
		connected: func(wwr.ConnectionOptions, wwr.Connection) { <-cont },
		signal:    func(context.Context, wwr.Connection, wwr.Message) { started <- true },
	}, wwr.ServerOptions{})
	s := e.connect(2)
	s.handshake()
	s.send(signal("a", ""))
	select {
	case <-started:
		fail("handler started before OnClientConnected returned")
	case <-time.After(500 * time.Millisecond):
	}
	cont <- true
	<-started
}
'''
