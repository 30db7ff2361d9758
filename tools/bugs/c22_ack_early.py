ID="C22-acknowledged-early"; PROP="C22"
NEEDS="a writer that reuses the buffer while the reader is still copying the previous message"
BREAKS="the reader releases the writer before it has read the message, the next message overwrites it"
EDITS=[("transport/memchan/socket.go",'''	typeParsed, parseErr := msg.ReadBytes(data)
	if parseErr != nil {
		sock.readerErr <- nil
		sock.readLock.Unlock()
''','''	sock.readerErr <- nil
	typeParsed, parseErr := msg.ReadBytes(data)
	if parseErr != nil {
		sock.readLock.Unlock()
'''),("transport/memchan/socket.go",'''	if !typeParsed {
		sock.readerErr <- nil
		sock.readLock.Unlock()
''','''	if !typeParsed {
		sock.readLock.Unlock()
'''),("transport/memchan/socket.go",'''	sock.readerErr <- nil
	sock.readLock.Unlock()
	return nil
''','''	sock.readLock.Unlock()
	return nil
''')]
LIB=False
DEMO=r'''
package main

import (
	"bytes"
	"fmt"
	"os"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
)

const size = 1 << 21

func main() {
	t := &memchan.Transport{}
	t.Initialize(wwr.ServerOptions{MessageBufferSize: size + 64}, func() bool { return false }, func(wwr.ConnectionOptions, wwr.Socket) {})
	a, b := memchan.NewEntangledSockets(t)
	if b.Dial(time.Time{}) != nil {
		os.Exit(3)
	}
	const n = 200
	data := [][]byte{}
	for i := 0; i < 4; i++ {
		data = append(data, append([]byte{63, 0}, bytes.Repeat([]byte{byte(i + 1)}, size)...))
	}
	go func() {
		for i := 0; i < n; i++ {
			w, err := b.GetWriter()
			if err != nil {
				return
			}
			w.Write(data[i%4])
			w.Close()
		}
	}()
	for i := 0; i < n; i++ {
		m := message.NewMessage(size + 64)
		if err := a.Read(m, time.Time{}); err != nil {
			fmt.Println("BROKEN:", err)
			os.Exit(1)
		}
		if !bytes.Equal(m.MsgBuffer.Data(), data[i%4]) {
			fmt.Println("BROKEN: message", i, "was modified")
			os.Exit(1)
		}
	}
}
'''
