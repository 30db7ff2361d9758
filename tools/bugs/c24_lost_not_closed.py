ID="C24-lost-not-closed"; PROP="C24"
NEEDS="a connection lost because of its peer"
BREAKS="the socket of a lost connection isn't closed as it's not connected any more, its resources leak"
EDITS=[("connection.go","""	// Close connection
	con.sock.Close()
""","""	// Close connection unless it's already gone
	if con.sock.IsConnected() {
		con.sock.Close()
	}
""")]
DEMO=r'''
package main

import (
	wwr "github.com/qbeon/webwire-go"
)

func main() {
	e := start(&impl{}, wwr.ServerOptions{})
	s := e.connect(0)
	s.handshake()
	eventually("idle", s.idle)
	s.lose()
	eventually("end of the connection", s.hasEnded)
	eventually("closure of the socket", s.closed)
}
'''
