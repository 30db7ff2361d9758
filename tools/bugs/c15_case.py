ID="C15-case-folded"; PROP="C15"
NEEDS="two session keys that differ in case only"
BREAKS="session file names are lower-cased, keys that only differ in case denote the same session"
EDITS=[("defaultSessionManager.go","""	return filepath.Join(mng.path, sessionKey+".wwrsess")
""","""	// Be independent of the case sensitivity of the file system
	return filepath.Join(mng.path, strings.ToLower(sessionKey)+".wwrsess")
"""),("defaultSessionManager.go","""	"path/filepath"
""","""	"path/filepath"
	"strings"
""")]
DEMO=r'''
package main

import (
	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := wwr.NewDefaultSessionManager("sessions")
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{SessionManager: m, SessionKeyGenerator: keygen{func() string { return "Abc" }}})
	s := e.connect(0)
	s.handshake()
	check((<-cons).CreateSession(nil) == nil, "can't create")
	r, err := m.OnSessionLookup("aBC")
	check(err == nil && r == nil, "a different key found the session")
	m.OnSessionClosed("abc")
	r, err = m.OnSessionLookup("Abc")
	check(err == nil && r != nil, "a different key closed the session")
}
'''
