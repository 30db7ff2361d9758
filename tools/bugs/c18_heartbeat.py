ID="C18-heartbeat-success"; PROP="C18"
NEEDS="a writer that fails when it's closed (flushed)"
BREAKS="writing a heartbeat reports success although it wasn't handed over"
EDITS=[("message/writeMsgHeartbeat.go",'''	return writer.Close()
''','''	writer.Close()
	return nil
''')]
LIB=False
DEMO=r'''
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/qbeon/webwire-go/message"
)

type wc struct{}

func (wc) Write(p []byte) (int, error) { return len(p), nil }
func (wc) Close() error               { return errors.New("failed") }

func main() {
	if message.WriteMsgHeartbeat(wc{}) == nil {
		fmt.Println("BROKEN: success reported")
		os.Exit(1)
	}
}
'''
