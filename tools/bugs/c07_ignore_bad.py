ID="C07-bad-input-ignored"; PROP="C07"
NEEDS="undecodable input on a socket that stays connected"
BREAKS="undecodable input doesn't end the connection as long as the socket is connected"
EDITS=[("handleConnection.go","""			if !err.IsCloseErr() {
				srv.warnLog.Printf("abnormal closure error: %s", err)
			}
""","""			if abnormal := !err.IsCloseErr(); abnormal {
				srv.warnLog.Printf("abnormal read error: %s", err)
				if sock.IsConnected() && connection.IsActive() {
					// Skip the message
					continue
				}
			}
""")]
DEMO=r'''
package main

import (
	wwr "github.com/qbeon/webwire-go"
)

func main() {
	e := start(&impl{}, wwr.ServerOptions{})
	s := e.connect(0)
	s.handshake()
	s.send([]byte{255, 1, 2})
	eventually("end of the connection", s.hasEnded)
}
'''
