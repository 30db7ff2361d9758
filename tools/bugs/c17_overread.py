ID="C17-name-overread"; PROP="C17"
NEEDS="a request whose name length flag is exactly one more than the bytes that follow, in a buffer that held a longer message before"
BREAKS="the last byte of a request name can be a byte beyond the end of the message"
EDITS=[("message/parseRequest.go","""		// Subtract one to not require the payload but at least the name
		if msg.MsgBuffer.len < MinLenRequest+nameLen-1 {""","""		// Subtract the header byte and the payload, only the name is required
		if msg.MsgBuffer.len < MinLenRequest+nameLen-2 {""")]
LIB=False
DEMO=r'''
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/qbeon/webwire-go/message"
)

func main() {
	d := append([]byte{message.MsgRequestBinary}, "12345678\x04abc"...)
	m := message.NewMessage(64)
	if ok, err := m.Read(bytes.NewReader(d)); err == nil || !ok && false {
		fmt.Printf("BROKEN: a truncated request was read with the name %q\n", m.MsgName)
		os.Exit(1)
	}
}
'''
