ID="C03-unexpected-type-slot"; PROP="C03"
NEEDS="n messages of an unexpected type on a connection with a concurrency limit n > 1, then one more message"
BREAKS="an unexpected message type keeps its handler slot, the connection stops handling messages after n of them"
EDITS=[("handleMessage.go","""		// Immediately deregister handlers for unexpected message types
		srv.deregisterHandler(con)
""","""		// Immediately finish the operation for unexpected message types
		srv.opsLock.Lock()
		srv.currentOps--
		if srv.shutdown && srv.currentOps < 1 {
			close(srv.shutdownRdy)
		}
		srv.opsLock.Unlock()
		con.deregisterTask()
""")]
DEMO=r'''
package main

import (
	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

func main() {
	e := start(&impl{}, wwr.ServerOptions{})
	s := e.connect(2)
	s.handshake()
	unexpected := cat([]byte{message.MsgReplyBinary}, ident(7), []byte("x"))
	for i := 1; i < 6; i++ {
		s.send(unexpected, request(i, "r", ""))
		m := s.recv("reply")
		check(isReply(m.MsgType), "unexpected message: %d", m.MsgType)
	}
}
'''
