ID="C14-lookup-coalesced"; PROP="C14"
NEEDS="two lookups of one session in quick succession"
BREAKS="lookups within a second of the previous one don't advance the stored last-lookup time"
EDITS=[("defaultSessionManager.go","""	if err := newSessionFile.Save(mng.filePath(key)); err != nil {
		return nil, fmt.Errorf(
			"Couldn't update last lookup field, failed writing file: %s",
			err,
		)
	}
""","""	if newSessionFile.LastLookup.Sub(file.LastLookup) >= time.Second {
		if err := newSessionFile.Save(mng.filePath(key)); err != nil {
			return nil, fmt.Errorf(
				"Couldn't update last lookup field, failed writing file: %s",
				err,
			)
		}
	}
""")]
DEMO=r'''
package main

import (
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	m := wwr.NewDefaultSessionManager("sessions")
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{SessionManager: m})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	check(c.CreateSession(nil) == nil, "can't create")
	k := c.SessionKey()
	time.Sleep(20 * time.Millisecond)
	before := time.Now()
	_, err := m.OnSessionLookup(k)
	check(err == nil, "lookup: %v", err)
	time.Sleep(20 * time.Millisecond)
	r, err := m.OnSessionLookup(k)
	check(err == nil && r != nil && !r.LastLookup().Before(before), "the first lookup wasn't stored")
}
'''
