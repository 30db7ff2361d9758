ID="C08-stale-after-hook-panic"; PROP="C08"
NEEDS="an OnSessionClosed hook that panics"
BREAKS="a destroyed session is only removed from the registry after the hook returned, it remains registered when the hook panics"
EDITS=[("sessionRegistry.go","""			delete(asr.registry, conn.session.Key)
			if destroy {
				asr.beginDestruction(conn.session.Key)
			}
			asr.lock.Unlock()
""","""			if destroy {
				asr.beginDestruction(conn.session.Key)
			} else {
				delete(asr.registry, conn.session.Key)
			}
			asr.lock.Unlock()
"""),("sessionRegistry.go","""				asr.onSessionDestroy(conn.session.Key)
			}
""","""				asr.onSessionDestroy(conn.session.Key)

				// The session is gone, forget it
				asr.lock.Lock()
				delete(asr.registry, conn.session.Key)
				asr.lock.Unlock()
			}
""")]
DEMO=r'''
package main

import (
	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := newManager()
	m.closing = func(string) error { panic("hook") }
	e := start(&impl{}, wwr.ServerOptions{SessionManager: m})
	m.put("k")
	s := e.connect(0)
	s.handshake()
	s.send(restore(1, "k"))
	check(isReply(s.recv("restore reply").MsgType), "restore failed")
	s.send(closeSession(2))
	check(isReply(s.recv("close reply").MsgType), "close failed")
	check(e.srv.SessionConnectionsNum("k") == -1 && e.srv.ActiveSessionsNum() == 0, "the closed session is still registered")
}
'''
