ID="C25-one-second"; PROP="C25"
NEEDS="a read timeout of exactly one second"
BREAKS="the valid read timeout of exactly one second is replaced by the default"
EDITS=[("serverOptions.go","""	if op.ReadTimeout < 1*time.Second {""","""	if op.ReadTimeout <= 1*time.Second {""")]
DEMO=r'''
package main

import (
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	e := start(&impl{}, wwr.ServerOptions{ReadTimeout: time.Second})
	s := e.connect(0)
	m := s.recv("configuration")
	check(m.ServerConfiguration.ReadTimeout == time.Second, "announced timeout: %s", m.ServerConfiguration.ReadTimeout)
}
'''
