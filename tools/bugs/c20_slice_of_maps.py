ID="C20-slice-of-maps"; PROP="C20"
NEEDS="an info value that's a slice of maps"
BREAKS="the elements of slices of maps are shared between a copy and the original"
EDITS=[("genericSessionInfo.go","""		for i := 0; i < original.Len(); i++ {
			copyRecursive(original.Index(i), cpy.Index(i))
		}
""","""		switch original.Type().Elem().Kind() {
		case reflect.Interface, reflect.Slice:
			for i := 0; i < original.Len(); i++ {
				copyRecursive(original.Index(i), cpy.Index(i))
			}
		default:
			// Copy plain values at once
			reflect.Copy(cpy, original)
		}
""")]
LIB=False
DEMO=r'''
package main

import (
	"fmt"
	"os"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	orig := []map[string]interface{}{{"x": 1}}
	info := wwr.GenericSessionInfoParser(map[string]interface{}{"a": orig})
	s := wwr.Session{Key: "k", Info: info}
	c := s.Clone()
	orig[0]["x"] = 2
	if v := c.Info.Value("a").([]map[string]interface{})[0]["x"]; v != 1 {
		fmt.Println("BROKEN: the copy changed with the original:", v)
		os.Exit(1)
	}
}
'''
