ID="C13-error-slots"; PROP="C13"
NEEDS="Server.CloseSession on several connections where a connection other than the first one can't be notified"
BREAKS="the errors of Server.CloseSession aren't in the slots of the connections they belong to"
EDITS=[("server.go","""			errors[i] = err
			errNum++
		} else {
			errors[i] = nil
		}
""","""			errors[errNum] = err
			errNum++
		}
""")]
DEMO=r'''
package main

import (
	"errors"
	"fmt"
	"net"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := newManager()
	e := start(&impl{}, wwr.ServerOptions{SessionManager: m})
	var _ net.Addr
	for round := 0; round < 20; round++ {
		key := fmt.Sprint("k", round)
		m.put(key)
		var broken *sock
		for i := 0; i < 3; i++ {
			s := e.connect(0)
			s.handshake()
			s.send(restore(1, key))
			check(isReply(s.recv("restore reply").MsgType), "restore failed")
			broken = s
		}
		broken.mu.Lock()
		broken.getWriter = func() error { return errors.New("broken") }
		broken.mu.Unlock()
		cons, errs, gen := e.srv.CloseSession(key)
		check(len(cons) == 3 && len(errs) == 3 && gen != nil, "wrong result")
		for i, c := range cons {
			check((errs[i] != nil) == (c.RemoteAddr().String() == broken.RemoteAddr().String()), "wrong error slot")
		}
	}
}
'''
