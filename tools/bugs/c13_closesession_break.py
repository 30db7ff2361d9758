ID="C13-closesession-stops"; PROP="C13"
NEEDS="Server.CloseSession on a session with several connections one of which can't be notified"
BREAKS="Server.CloseSession stops at the first connection it can't notify, the remaining ones keep the session"
EDITS=[("server.go","""		if err != nil {
			errors[i] = err
			errNum++
		} else {
			errors[i] = nil
		}
		i++
""","""		if errors[i] = err; err != nil {
			errNum++
			break
		}
		i++
""")]
DEMO=r'''
package main

import (
	"errors"
	"fmt"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := newManager()
	e := start(&impl{}, wwr.ServerOptions{SessionManager: m})
	for round := 0; round < 10; round++ {
		key := fmt.Sprint("k", round)
		m.put(key)
		var ss []*sock
		for i := 0; i < 4; i++ {
			s := e.connect(0)
			s.handshake()
			s.send(restore(1, key))
			check(isReply(s.recv("restore reply").MsgType), "restore failed")
			ss = append(ss, s)
		}
		ss[1].mu.Lock()
		ss[1].getWriter = func() error { return errors.New("broken") }
		ss[1].mu.Unlock()
		cons, errs, gen := e.srv.CloseSession(key)
		check(len(cons) == 4 && len(errs) == 4 && gen != nil, "wrong result")
		for i, c := range cons {
			check(c != nil && !c.HasSession(), "connection %d still has the closed session", i)
		}
		check(e.srv.SessionConnectionsNum(key) == -1, "the session is still registered")
	}
}
'''
