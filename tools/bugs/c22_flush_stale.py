ID="C22-stale-after-failure"; PROP="C22"
NEEDS="a message that couldn't be delivered because the connection was closed, then a reconnect on the same socket"
BREAKS="an undelivered message stays in the buffer and is sent along with the next one"
EDITS=[("transport/memchan/buffer.go",'''	err = buf.onFlush(buf.buf[:buf.len])
	buf.reset()
	return err
''','''	if err = buf.onFlush(buf.buf[:buf.len]); err == nil {
		buf.reset()
	}
	return err
''')]
LIB=False
DEMO=r'''
package main

import (
	"fmt"
	"os"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
)

func main() {
	t := &memchan.Transport{}
	t.Initialize(wwr.ServerOptions{MessageBufferSize: 64}, func() bool { return false }, func(wwr.ConnectionOptions, wwr.Socket) {})
	a, b := memchan.NewEntangledSockets(t)
	if b.Dial(time.Time{}) != nil {
		os.Exit(3)
	}
	w, _ := b.GetWriter()
	w.Write([]byte{63, 1, 'a'})
	b.Close()
	if w.Close() == nil {
		fmt.Println("BROKEN: delivered on a closed connection")
		os.Exit(1)
	}
	if b.Dial(time.Time{}) != nil {
		os.Exit(3)
	}
	go func() {
		w, _ := b.GetWriter()
		w.Write([]byte{63, 1, 'b'})
		w.Close()
	}()
	m := message.NewMessage(64)
	if err := a.Read(m, time.Time{}); err != nil || string(m.MsgName) != "b" || len(m.MsgPayload.Data) > 0 {
		fmt.Println("BROKEN: received", m.MsgBuffer.Data(), err)
		os.Exit(1)
	}
}
'''
