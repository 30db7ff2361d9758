ID="C21-identifier-wraps"; PROP="C21"
NEEDS="a request that's still pending when 65536 further requests were created"
BREAKS="a new request gets the identifier of a pending one and replaces it: the older request is never completed"
EDITS=[("requestManager/requestManager.go","""	identBytes := make([]byte, 8)
	binary.LittleEndian.PutUint64(identBytes, ident)
""","""	identBytes := make([]byte, 8)
	binary.LittleEndian.PutUint16(identBytes, uint16(ident))
""")]
DEMO=r'''
package main

import (
	"errors"
	"fmt"
	"os"

	reqman "github.com/qbeon/webwire-go/requestManager"
)

func main() {
	m := reqman.NewRequestManager()
	first := m.Create()
	for i := 0; i < 1<<16; i++ {
		q := m.Create()
		if q.Identifier == first.Identifier {
			fmt.Println("BROKEN: the identifier of a pending request was assigned again")
			os.Exit(1)
		}
		if !m.Fail(q.Identifier, errors.New("x")) {
			fmt.Println("not pending")
			os.Exit(1)
		}
	}
	if !m.IsPending(first.Identifier) || m.PendingRequests() != 1 {
		fmt.Println("BROKEN: the first request isn't pending any longer")
		os.Exit(1)
	}
}
'''
