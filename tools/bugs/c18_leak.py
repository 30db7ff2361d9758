ID="C18-writer-leak"; PROP="C18"
NEEDS="a write of the payload of a reply that fails"
BREAKS="the writer isn't closed when writing the payload of a reply fails, the connection can't send any more"
EDITS=[("message/writeMsgReply.go","""	// Write payload
	if _, err := writer.Write(payloadData); err != nil {
		if closeErr := writer.Close(); closeErr != nil {
			return fmt.Errorf("%s: %s", err, closeErr)
		}
		return err
	}
""","""	// Write payload
	if len(payloadData) > 0 {
		if _, err := writer.Write(payloadData); err != nil {
			return fmt.Errorf("couldn't write payload: %s", err)
		}
	}
""")]
LIB=False
DEMO=r'''
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/payload"
)

type wc struct{ n, fail, closed int }

func (w *wc) Write(p []byte) (int, error) {
	w.n++
	if w.n == w.fail {
		return 0, errors.New("failed")
	}
	return len(p), nil
}
func (w *wc) Close() error { w.closed++; return nil }

func main() {
	for f := 1; f < 5; f++ {
		w := &wc{fail: f}
		err := message.WriteMsgReply(w, []byte("12345678"), payload.Utf16, []byte("xx"))
		if err == nil || w.closed != 1 {
			fmt.Println("BROKEN: writer closed", w.closed, "times after failed write", f, err)
			os.Exit(1)
		}
	}
}
'''
