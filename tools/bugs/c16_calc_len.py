ID="C16-calc-signal-len"; PROP="C16"
NEEDS="a UTF16 signal with an odd name and no payload"
BREAKS="the announced length of UTF16 signals with an odd name and no payload lacks the padding that's written"
EDITS=[("message/calcMsgLen.go","""	if encoding == pld.Utf16 && len(name)%2 != 0 {
		return 3 + len(name) + len(payload)
	}
""","""	if encoding == pld.Utf16 && len(payload) > 0 && len(name)%2 != 0 {
		return 3 + len(name) + len(payload)
	}
""")]
LIB=False
DEMO=r'''
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/payload"
)

type wc struct{ bytes.Buffer }

func (*wc) Close() error { return nil }

func main() {
	for _, n := range []string{"a", "ab", "abc"} {
		for _, p := range []string{"", "xx"} {
			for _, e := range []payload.Encoding{payload.Binary, payload.Utf8, payload.Utf16} {
				w := &wc{}
				err := message.WriteMsgSignal(w, []byte(n), e, []byte(p), true)
				if l := message.CalcMsgLenSignal([]byte(n), e, []byte(p)); err != nil || l != w.Len() {
					fmt.Println("BROKEN: predicted", l, "written", w.Len(), err)
					os.Exit(1)
				}
			}
		}
	}
}
'''
