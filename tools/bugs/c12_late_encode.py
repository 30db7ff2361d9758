ID="C12-switched-on-failure"; PROP="C12"
NEEDS="a looked-up session whose info can't be JSON encoded"
BREAKS="the connection keeps the looked-up session although the restoration was answered with an internal error"
EDITS=[("handleSessionRestore.go","""	encodedSession, err := json.Marshal(&encodedSessionObj)
	if err != nil {
		srv.failMsg(con, msg, nil)
		finalize()
		srv.errorLog.Printf(
			"couldn't encode session object (%v): %s",
			encodedSessionObj,
			err,
		)
		return
	}
""","""	encodedSession, encodingErr := json.Marshal(&encodedSessionObj)
"""),("handleSessionRestore.go","""	srv.fulfillMsg(con, msg, encodedReply)
	finalize()
""","""	if encodingErr != nil {
		srv.failMsg(con, msg, nil)
		finalize()
		srv.errorLog.Printf(
			"couldn't encode session object (%v): %s",
			encodedSessionObj,
			encodingErr,
		)
		return
	}

	srv.fulfillMsg(con, msg, encodedReply)
	finalize()
""")]
DEMO=r'''
package main

import (
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

func main() {
	m := newManager()
	m.lookup = func(string) (wwr.SessionLookupResult, error) {
		return wwr.NewSessionLookupResult(time.Now(), time.Now(), map[string]interface{}{"f": func() {}}), nil
	}
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{SessionManager: m})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	s.send(restore(1, "k"))
	r := s.recv("reply")
	check(r.MsgType == message.MsgReplyInternalError, "unexpected reply %d", r.MsgType)
	check(!c.HasSession(), "the connection has the session in spite of the failure")
}
'''
