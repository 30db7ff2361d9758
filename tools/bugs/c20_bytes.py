ID="C20-bytes-shared"; PROP="C20"
NEEDS="an info field that's a byte slice and is changed after copying"
BREAKS="byte slices are shared between a copy and its original"
EDITS=[("genericSessionInfo.go",'''		if original.IsNil() {
			return
		}
		// Make a new slice and copy each element.
''','''		if original.IsNil() || original.Type().Elem().Kind() == reflect.Uint8 {
			// No need to copy binary data
			cpy.Set(original)
			return
		}

		// Make a new slice and copy each element.
''')]
LIB=False
DEMO=r'''
package main

import (
	"fmt"
	"os"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	b := []byte("abc")
	i := wwr.GenericSessionInfoParser(map[string]interface{}{"x": b})
	c := i.Copy()
	b[0] = 'z'
	if string(c.Value("x").([]byte)) != "abc" {
		fmt.Println("BROKEN: the copy changed")
		os.Exit(1)
	}
}
'''
