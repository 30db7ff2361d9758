ID="C21-cancelled-pending"; PROP="C21"
NEEDS="a request that's cancelled instead of timing out"
BREAKS="cancelled requests stay pending, only timed out ones are deregistered"
EDITS=[("requestManager/request.go","""		req.manager.deregister(req.Identifier)
""","""		if ctx.Err() == context.DeadlineExceeded {
			req.manager.deregister(req.Identifier)
		}
""")]
LIB=False
DEMO=r'''
package main

import (
	"context"
	"fmt"
	"os"

	rm "github.com/qbeon/webwire-go/requestManager"
)

func main() {
	m := rm.NewRequestManager()
	r := m.Create()
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	_, err := r.AwaitReply(ctx)
	if err == nil || m.IsPending(r.Identifier) || m.PendingRequests() != 0 {
		fmt.Println("BROKEN: a cancelled request is still pending")
		os.Exit(1)
	}
}
'''
