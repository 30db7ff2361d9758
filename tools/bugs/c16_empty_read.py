ID="C16-empty-read"; PROP="C16"
NEEDS="a reader that returns zero bytes without an error in the middle of a message"
BREAKS="an empty read is taken for the end of the message"
EDITS=[("message/buffer.go",'''			if err == io.EOF {
				buf.len = cursor
				return nil
			}

			buf.Close()
			return err
		}
''','''			if err == io.EOF {
				buf.len = cursor
				return nil
			}

			buf.Close()
			return err
		}
		if readBytes < 1 {
			// Nothing left
			buf.len = cursor
			return nil
		}
'''),("message/buffer.go",'''		if readBytes < 0 {
			panic("negative read len")
		}
''','')]
LIB=False
DEMO=r'''
package main

import (
	"fmt"
	"io"
	"os"

	"github.com/qbeon/webwire-go/message"
)

type r struct{ parts [][]byte }

func (r *r) Read(p []byte) (int, error) {
	if len(r.parts) < 1 {
		return 0, io.EOF
	}
	n := copy(p, r.parts[0])
	r.parts = r.parts[1:]
	return n, nil
}

func main() {
	m := message.NewMessage(64)
	ok, err := m.Read(&r{[][]byte{{63, 1}, {}, []byte("axyz")}})
	if !ok || err != nil || string(m.MsgName) != "a" || string(m.MsgPayload.Data) != "xyz" {
		fmt.Println("BROKEN:", ok, err, m.MsgName, m.MsgPayload.Data)
		os.Exit(1)
	}
}
'''
