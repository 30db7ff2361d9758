ID="C21-identifier-race"; PROP="C21"
NEEDS="two requests created at the same moment"
BREAKS="identifiers are generated without synchronisation, two pending requests can get the same one"
EDITS=[("requestManager/requestManager.go","""	ident := atomic.AddUint64(&manager.lastID, 1)
""","""	ident := atomic.LoadUint64(&manager.lastID) + 1
	atomic.StoreUint64(&manager.lastID, ident)
""")]
LIB=False
DEMO=r'''
package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"

	rm "github.com/qbeon/webwire-go/requestManager"
)

func main() {
	runtime.GOMAXPROCS(8)
	for round := 0; round < 200; round++ {
		m := rm.NewRequestManager()
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				<-start
				for i := 0; i < 1000; i++ {
					m.Create()
				}
				wg.Done()
			}()
		}
		close(start)
		wg.Wait()
		if n := m.PendingRequests(); n != 8000 {
			fmt.Println("BROKEN: 8000 requests created,", n, "pending")
			os.Exit(1)
		}
	}
}
'''
