ID="C25-oversized-accepted"; PROP="C25"
NEEDS="a read timeout beyond what 32 bits of milliseconds can express"
BREAKS="the read timeout is capped in the announcement only, the server enforces a different one than announced"
EDITS=[("message/newAcceptConfMessage.go","""	if readTimeoutMs > 4294967295 {
		return nil, fmt.Errorf(
			"read timeout (milliseconds) overflow in server conf message (%s)",
			conf.ReadTimeout.String(),
		)
	} else if""","""	if readTimeoutMs > 4294967295+1 {
		return nil, fmt.Errorf(
			"read timeout (milliseconds) overflow in server conf message (%s)",
			conf.ReadTimeout.String(),
		)
	} else if""")]
NEEDS="a read timeout of exactly 2^32 milliseconds"
BREAKS="a read timeout of 2^32 ms is accepted and announced as zero"
LIB=True
DEMO=r'''
package main

import (
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	_, err := wwr.NewServer(&impl{}, wwr.ServerOptions{Sessions: wwr.Disabled, ReadTimeout: 4294967296 * time.Millisecond}, &trans{})
	check(err != nil, "a read timeout the handshake can't express is accepted")
}
'''
