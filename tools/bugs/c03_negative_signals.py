ID="C03-negative-signals"; PROP="C03"
NEEDS="a negative concurrency limit and a signal handler that takes its time"
BREAKS="signal handlers of connections with a negative limit block the connection"
EDITS=[("handleMessage.go",'''		message.MsgSignalUtf16:
		if con.options.ConcurrencyLimit < 0 ||
			con.options.ConcurrencyLimit > 1 {
''','''		message.MsgSignalUtf16:
		if con.options.ConcurrencyLimit > 1 {
''')]
DEMO=r'''
package main

import (
	"context"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	in, out := make(chan bool, 9), make(chan bool)
	e := start(&impl{signal: func(context.Context, wwr.Connection, wwr.Message) {
		in <- true
		<-out
	}}, wwr.ServerOptions{})
	s := e.connect(-1)
	s.handshake()
	s.send(signal("a", ""), signal("a", ""))
	<-in
	within(3e9, "the second signal", func() { <-in })
}
'''
