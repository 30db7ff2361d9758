ID="C08-shared-list"; PROP="C08"
NEEDS="a list of a session's connections that's looked at after asking for another session's connections"
BREAKS="the list of a session's connections contains connections of another session"
EDITS=[("sessionRegistry.go","""	registry         map[string]map[*connection]struct{}
""","""	registry         map[string]map[*connection]struct{}

	// list is reused for listing the connections of a session
	list []Connection

"""),("sessionRegistry.go","""	asr.lock.RLock()
	if connSet, exists := asr.registry[sessionKey]; exists {
		list := make([]Connection, len(connSet))
		index := 0
		for conn := range connSet {
			list[index] = conn
			index++
		}
		asr.lock.RUnlock()
		return list
	}
	asr.lock.RUnlock()
	return nil
""","""	asr.lock.Lock()
	defer asr.lock.Unlock()
	if connSet, exists := asr.registry[sessionKey]; exists {
		asr.list = asr.list[:0]
		for conn := range connSet {
			asr.list = append(asr.list, conn)
		}
		return asr.list
	}
	return nil
""")]
DEMO=r'''
package main

import (
	"context"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	e := start(&impl{request: func(_ context.Context, c wwr.Connection, _ wwr.Message) (wwr.Payload, error) {
		err := c.CreateSession(nil)
		return wwr.Payload{Data: []byte(c.SessionKey())}, err
	}}, wwr.ServerOptions{})
	a, b := e.connect(0), e.connect(0)
	a.handshake()
	b.handshake()
	a.send(request(1, "a", ""))
	a.recv("notification")
	ka := string(a.recv("reply").MsgPayload.Data)
	b.send(request(1, "b", ""))
	b.recv("notification")
	kb := string(b.recv("reply").MsgPayload.Data)
	la := e.srv.SessionConnections(ka)
	lb := e.srv.SessionConnections(kb)
	check(len(la) == 1 && len(lb) == 1 && la[0].SessionKey() == ka && lb[0].SessionKey() == kb,
		"the connections of session %s have session %s", ka, la[0].SessionKey())
}
'''
