ID="C23-client-close-keeps-entry"; PROP="C23"
NEEDS="Shutdown of the transport while OnBeforeCreation of a dial is running"
BREAKS="the connection options are checked after connecting, a refused client is connected"
EDITS=[("transport/memchan/socket.go","""	connOpts := sock.server.OnBeforeCreation()
	if connOpts.Connection != wwr.Accept {
		return errors.New("connection refused")
	}

	// Connect the sockets and execute the server callback
	return sock.server.onConnect(sock, connOpts)
""","""	connOpts := sock.server.OnBeforeCreation()

	// Connect the sockets and execute the server callback
	if err := sock.server.onConnect(sock, connOpts); err != nil {
		return err
	}
	if connOpts.Connection != wwr.Accept {
		sock.Close()
		return errors.New("connection refused")
	}
	return nil
""")]
LIB=False
NEEDS="a connection refused by OnBeforeCreation"
BREAKS="a refused connection is established and handed to the server before it is closed"
DEMO=r'''
package main

import (
	"fmt"
	"os"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/transport/memchan"
)

func main() {
	n := make(chan bool, 1)
	t := &memchan.Transport{OnBeforeCreation: func() wwr.ConnectionOptions {
		return wwr.ConnectionOptions{Connection: wwr.Refuse}
	}}
	t.Initialize(wwr.ServerOptions{MessageBufferSize: 64}, func() bool { return false }, func(wwr.ConnectionOptions, wwr.Socket) { n <- true })
	c, _ := (&memchan.ClientTransport{Server: t}).NewSocket(0)
	err := c.Dial(time.Time{})
	if err == nil || c.IsConnected() {
		fmt.Println("BROKEN: not refused")
		os.Exit(1)
	}
	select {
	case <-n:
		fmt.Println("BROKEN: the refused connection was handed to the server")
		os.Exit(1)
	case <-time.After(time.Second):
	}
}
'''
