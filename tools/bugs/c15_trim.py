ID="C15-trimmed"; PROP="C15"
NEEDS="a key with surrounding white space"
BREAKS="white space around keys is ignored by the file names, different keys denote the same stored session"
EDITS=[("defaultSessionManager.go",'''	return filepath.Join(mng.path, sessionKey+".wwrsess")
''','''	return filepath.Join(
		mng.path,
		strings.TrimSpace(sessionKey)+".wwrsess",
	)
'''),("defaultSessionManager.go",'''	"path/filepath"
''','''	"path/filepath"
	"strings"
''')]
DEMO=r'''
package main

import (
	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := wwr.NewDefaultSessionManager("sessions")
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{SessionManager: m, SessionKeyGenerator: keygen{func() string { return "a" }}})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	check(c.CreateSession(nil) == nil, "can't create")
	for _, k := range []string{"a ", " a", "a\t"} {
		r, err := m.OnSessionLookup(k)
		check(r == nil && err == nil, "key %q is the session of another key: %v %v", k, r, err)
	}
}
'''
