ID="C08-closed-keeps-session"; PROP="C08"
NEEDS="a connection with a session that's closed or lost, looked at afterwards"
BREAKS="a closed connection still reports its session"
EDITS=[("connection.go",'''	con.srv.sessionRegistry.deregister(con, false)
	con.session = nil

	// Close connection
	con.sock.Close()
''','''	con.srv.sessionRegistry.deregister(con, false)

	// Close connection
	if err := con.sock.Close(); err != nil {
		con.session = nil
	}
''')]
DEMO=r'''
package main

import (
	wwr "github.com/qbeon/webwire-go"
)

func main() {
	cons := make(chan wwr.Connection, 1)
	e := start(&impl{connected: func(_ wwr.ConnectionOptions, c wwr.Connection) { cons <- c }}, wwr.ServerOptions{})
	s := e.connect(0)
	s.handshake()
	c := <-cons
	check(c.CreateSession(nil) == nil, "can't create")
	k := c.SessionKey()
	c.Close()
	eventually("the closure", s.closed)
	check(e.srv.SessionConnectionsNum(k) == -1, "still registered")
	check(!c.HasSession() && c.Session() == nil && c.SessionKey() == "", "the closed connection has a session that isn't registered")
}
'''
