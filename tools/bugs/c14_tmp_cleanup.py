ID="C14-leftovers"; PROP="C14"
NEEDS="a restart and a session key that starts with tmp"
BREAKS="the removal of temporary files on start also removes the sessions whose key starts with tmp"
EDITS=[("defaultSessionManager.go",'''			sessFilesPath,
			err,
		))
	}

	return &DefaultSessionManager{
''','''			sessFilesPath,
			err,
		))
	}

	// Remove what's left of interrupted writes
	leftovers, _ := filepath.Glob(filepath.Join(sessFilesPath, "tmp*"))
	for _, leftover := range leftovers {
		os.Remove(leftover)
	}

	return &DefaultSessionManager{
'''),("defaultSessionManager.go",'''	_, err := os.Stat(sessFilesPath)
	if os.IsNotExist(err) {
''','''	if _, err := os.Stat(sessFilesPath); os.IsNotExist(err) {
''')]
DEMO=r'''
package main

import (
	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := wwr.NewDefaultSessionManager("sessions")
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{SessionManager: m, SessionKeyGenerator: keygen{func() string { return "tmpfoo" }}})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	check(c.CreateSession(nil) == nil, "can't create")
	m = wwr.NewDefaultSessionManager("sessions")
	r, err := m.OnSessionLookup("tmpfoo")
	check(r != nil && err == nil, "lost after a restart: %v %v", r, err)
}
'''
