ID="C02-pool-hot-slot"; PROP="C02"
NEEDS="two connections fetching a message object at the same moment, right after one was released"
BREAKS="the message pool keeps the last released message in an unprotected slot, two connections can get the same message object"
EDITS=[("message/syncPool.go","""	pool       *sync.Pool
}
""","""	pool       *sync.Pool

	// recent caches the most recently released message
	recent *Message
}
"""),("message/syncPool.go","""	pool := &sync.Pool{}
	pool.New = func() interface{} {
		msg := NewMessage(bufferSize)
		msg.onClose = func() {
			pool.Put(msg)
		}
		return msg
	}
	return &SyncPool{
		bufferSize: bufferSize,
		pool:       pool,
	}
}
""","""	pool := &sync.Pool{}
	mbp := &SyncPool{
		bufferSize: bufferSize,
		pool:       pool,
	}
	pool.New = func() interface{} {
		msg := NewMessage(bufferSize)
		msg.onClose = func() {
			if mbp.recent == nil {
				mbp.recent = msg
				return
			}
			pool.Put(msg)
		}
		return msg
	}
	return mbp
}
"""),("message/syncPool.go","""	return mbp.pool.Get().(*Message)
""","""	if msg := mbp.recent; msg != nil {
		mbp.recent = nil
		return msg
	}
	return mbp.pool.Get().(*Message)
""")]
DEMO=r'''
package main

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	runtime.GOMAXPROCS(8)
	e := start(&impl{signal: func(_ context.Context, _ wwr.Connection, m wwr.Message) {
		n := string(m.Name())
		for i := 0; i < 3; i++ {
			p := string(m.Payload())
			if n == "" || p != strings.Repeat(n, 20) {
				fail("a handler saw name %q with payload %q", n, p)
			}
			runtime.Gosched()
		}
	}}, wwr.ServerOptions{})
	var wg sync.WaitGroup
	for c := 0; c < 8; c++ {
		s := e.connect(0)
		s.handshake()
		name := fmt.Sprint("name", c)
		wg.Add(1)
		go func() {
			defer wg.Done()
			end := time.Now().Add(8 * time.Second)
			for time.Now().Before(end) {
				if s.hasEnded() {
					fail("a connection was disconnected because of a message of another one")
				}
				for i := 0; i < 50; i++ {
					s.send(signal(name, strings.Repeat(name, 20)))
				}
				for !s.idle() && !s.hasEnded() {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
}
'''
