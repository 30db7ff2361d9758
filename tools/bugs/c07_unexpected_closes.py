ID="C07-unexpected-closes"; PROP="C07"
NEEDS="a well-formed message of a type clients don't send"
BREAKS="unexpected message types end the connection"
EDITS=[("handleMessage.go",'''		// Immediately deregister handlers for unexpected message types
		srv.deregisterHandler(con)
''','''		// Clients must not send anything else
		con.Close()
		srv.deregisterHandler(con)
''')]
DEMO=r'''
package main

import (
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	e := start(&impl{}, wwr.ServerOptions{})
	s := e.connect(0)
	s.handshake()
	s.send([]byte{22}) // session closed notification
	time.Sleep(50 * time.Millisecond)
	s.send(request(1, "a", ""))
	check(isReply(s.recv("reply").MsgType), "not served")
}
'''
