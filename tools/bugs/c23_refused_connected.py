ID="C23-dial-after-shutdown"; PROP="C23"
NEEDS="dialing after the transport was shut down, while the server doesn't report to be shutting down"
BREAKS="a dial is only refused by the server's state and not by the transport's, connections are accepted after its shutdown"
EDITS=[("transport/memchan/transport.go","""	if atomic.LoadUint32(&srv.status) != serverActive {
		return errors.New("server is closed")
	}

	if clientSocket""","""	if clientSocket""")]
LIB=False
DEMO=r'''
package main

import (
	"fmt"
	"os"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/transport/memchan"
)

func main() {
	t := &memchan.Transport{}
	t.Initialize(wwr.ServerOptions{MessageBufferSize: 64}, func() bool { return false }, func(wwr.ConnectionOptions, wwr.Socket) {})
	c, _ := (&memchan.ClientTransport{Server: t}).NewSocket(0)
	t.Shutdown()
	if err := c.Dial(time.Time{}); err == nil || c.IsConnected() {
		fmt.Println("BROKEN: connected to a transport that was shut down")
		os.Exit(1)
	}
}
'''
