ID="C09-limit-toctou"; PROP="C09"
NEEDS="two restorations of one session at the limit minus one, both checking before either registers"
BREAKS="the connection limit of a session is checked under the read lock, separately from the registration"
EDITS=[("sessionRegistry.go","""	if connSet, exists := asr.registry[con.session.Key]; exists {
		// Ensure max connections isn't exceeded
		if asr.maxConns > 0 && uint(len(connSet)+1) > asr.maxConns {
			asr.lock.Unlock()
			return fmt.Errorf(
				"Max conns (%d) reached for session %s",
				asr.maxConns,
				con.session.Key,
			)
		}
		// Overwrite""","""	asr.lock.Unlock()

	// Ensure max connections isn't exceeded
	conns := asr.sessionConnectionsNum(con.session.Key)
	if conns > 0 && asr.maxConns > 0 && uint(conns+1) > asr.maxConns {
		return fmt.Errorf(
			"Max conns (%d) reached for session %s",
			asr.maxConns,
			con.session.Key,
		)
	}

	asr.lock.Lock()
	if connSet, exists := asr.registry[con.session.Key]; exists {
		// Overwrite""")]
DEMO=r'''
package main

import (
	"fmt"
	"runtime"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	runtime.GOMAXPROCS(8)
	m := newManager()
	e := start(&impl{}, wwr.ServerOptions{SessionManager: m, MaxSessionConnections: 2})
	end := time.Now().Add(25 * time.Second)
	var ss []*sock
	for i := 0; i < 8; i++ {
		s := e.connect(0)
		s.handshake()
		ss = append(ss, s)
	}
	for r := 0; time.Now().Before(end); r++ {
		k := fmt.Sprint("k", r)
		m.put(k)
		for _, s := range ss {
			s.send(restore(r, k))
		}
		for _, s := range ss {
			s.recv("reply")
		}
		n := e.srv.SessionConnectionsNum(k)
		check(n <= 2, "%d connections share the session", n)
	}
}
'''
