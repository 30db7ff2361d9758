ID="C19-bom"; PROP="C19"
NEEDS="a UTF16 text that starts with U+FEFF"
BREAKS="a leading U+FEFF is missing in the UTF8 view"
EDITS=[("payload/payload.go",'''		return utf8str.Bytes(), nil
''','''		// Skip the byte order mark
		return bytes.TrimPrefix(utf8str.Bytes(), []byte("\\xef\\xbb\\xbf")), nil
''')]
LIB=False
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/qbeon/webwire-go/payload"
)

func main() {
	p := payload.Payload{Encoding: payload.Utf16, Data: []byte{0xff, 0xfe, 'a', 0}}
	b, err := p.Utf8()
	if err != nil || string(b) != "\ufeffa" {
		fmt.Println("BROKEN:", b, err)
		os.Exit(1)
	}
}
'''
