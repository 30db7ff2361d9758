package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	rm "github.com/qbeon/webwire-go/requestManager"
	"github.com/qbeon/webwire-go/transport/memchan"
)

type rw interface {
	wwr.Socket
}

func memRound(r rnd) {
	t := &memchan.Transport{}
	var servers sync.WaitGroup
	srvs := make(chan wwr.Socket, 16)
	servers.Add(1)
	t.Initialize(wwr.ServerOptions{MessageBufferSize: 64}, func() bool { return false }, func(_ wwr.ConnectionOptions, s wwr.Socket) {
		srvs <- s
	})
	go func() { t.Serve(); servers.Done() }()
	n := 1 + r.Intn(3)
	var wg sync.WaitGroup
	var ends []wwr.Socket
	var all []*memEnd
	for i := 0; i < n; i++ {
		c, _ := (&memchan.ClientTransport{Server: t}).NewSocket(time.Second)
		if err := c.Dial(time.Time{}); err != nil {
			bad("memchan", "dial: %s", err)
			return
		}
		ends = append(ends, c)
	}
	for i := 0; i < n; i++ {
		ends = append(ends, <-srvs)
	}
	var stop int32
	for _, s := range ends {
		s := s
		e := &memEnd{}
		all = append(all, e)
		// Reader
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := message.NewMessage(64)
			for {
				dl := time.Time{}
				if rr.Intn(2) == 0 {
					dl = time.Now().Add(time.Hour)
				}
				if err := s.Read(m, dl); err != nil {
					if atomic.LoadInt32(&stop) == 0 {
						bad("memchan", "reading failed: %s", err)
					}
					return
				}
				d := m.MsgPayload.Data
				if len(d) < 8 {
					bad("memchan", "received %q", d)
					continue
				}
				w, x := binary.LittleEndian.Uint32(d), binary.LittleEndian.Uint32(d[4:])
				e.mu.Lock()
				if w > 3 || x != e.next[w] {
					bad("memchan", "received message %d of writer %d, %d expected", x, w, e.next[w%4])
				}
				e.next[w%4]++
				e.mu.Unlock()
				m.Close()
			}
		}()
	}
	var writers sync.WaitGroup
	msgs := 5 + r.Intn(40)
	abrupt := r.Intn(2) == 0
	for k, s := range ends {
		peer := all[(k+n)%(2*n)]
		_ = peer
		for w := 0; w < 1+r.Intn(3); w++ {
			s, w := s, w
			wr := rand.New(rand.NewSource(r.Int63()))
			writers.Add(1)
			go func() {
				defer writers.Done()
				for x := 0; x < msgs; x++ {
					wc, err := s.GetWriter()
					if err != nil {
						if atomic.LoadInt32(&stop) == 0 {
							bad("memchan", "no writer: %s", err)
						}
						return
					}
					b := make([]byte, 8)
					binary.LittleEndian.PutUint32(b, uint32(w))
					binary.LittleEndian.PutUint32(b[4:], uint32(x))
					wc.Write([]byte{message.MsgSignalBinary, 1})
					if wr.Intn(3) == 0 {
						runtime.Gosched()
					}
					wc.Write([]byte{'n'})
					wc.Write(b)
					if err := wc.Close(); err != nil {
						if atomic.LoadInt32(&stop) == 0 {
							bad("memchan", "sending failed: %s", err)
						}
						return
					}
					s.IsConnected()
				}
			}()
		}
	}
	if !abrupt {
		wait("memchan", "a writer", &writers)
	} else {
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
	}
	atomic.StoreInt32(&stop, 1)
	var closers sync.WaitGroup
	for i := 0; i < 2+r.Intn(3); i++ {
		s := ends[r.Intn(len(ends))]
		sh := r.Intn(3) == 0
		closers.Add(1)
		go func() {
			defer closers.Done()
			if sh {
				t.Shutdown()
			}
			s.Close()
		}()
	}
	// Dial while disconnecting
	cx, _ := (&memchan.ClientTransport{Server: t}).NewSocket(time.Second)
	cx.Dial(time.Time{})
	wait("memchan", "Close", &closers)
	t.Shutdown()
	wait("memchan", "a writer", &writers)
	wait("memchan", "a reader", &wg)
	wait("memchan", "Serve", &servers)
	if cx.IsConnected() {
		bad("memchan", "a socket is connected after the shutdown")
	}
	for _, s := range ends {
		if s.IsConnected() {
			bad("memchan", "a socket is connected after the shutdown")
		}
	}
}

type memEnd struct {
	mu   sync.Mutex
	next [4]uint32
}

func reqRound(r rnd) {
	m := rm.NewRequestManager()
	g := 2 + r.Intn(6)
	per := 20 + r.Intn(100)
	ids := make(chan [8]byte, g*per)
	var wg, cw sync.WaitGroup
	var seen sync.Map
	for x := 0; x < g; x++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				q := m.Create()
				if _, dup := seen.LoadOrStore(q.Identifier, true); dup {
					bad("request", "identifier used twice")
				}
				ctx, cancel := context.WithCancel(context.Background())
				if gr.Intn(3) == 0 {
					go cancel()
				} else if gr.Intn(3) == 0 {
					cancel()
				}
				ids <- q.Identifier
				if gr.Intn(2) == 0 {
					runtime.Gosched()
				}
				rep, err := q.AwaitReply(ctx)
				if err == nil && string(rep.Payload()) != string(q.IdentifierBytes) {
					bad("request", "got the reply of another request")
				}
				if m.IsPending(q.Identifier) {
					bad("request", "a finished request is pending")
				}
				cancel()
			}
		}()
	}
	stop := make(chan struct{})
	for x := 0; x < 3; x++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		cw.Add(1)
		go func() {
			defer cw.Done()
			for {
				var id [8]byte
				select {
				case id = <-ids:
				case <-stop:
					return
				}
				m.PendingRequests()
				if gr.Intn(3) == 0 {
					m.Fail(id, errors.New("x"))
				} else {
					msg := message.NewMessage(64)
					msg.ReadBytes(append(append([]byte{message.MsgReplyBinary}, id[:]...), id[:]...))
					m.Fulfill(msg)
				}
				if gr.Intn(4) == 0 {
					m.Fail(id, errors.New("x"))
				}
			}
		}()
	}
	wait("request", "AwaitReply", &wg)
	close(stop)
	wait("request", "completion", &cw)
	if n := m.PendingRequests(); n != 0 {
		bad("request", "%d requests are pending at the end", n)
	}
}

type fcon struct {
	wwr.Connection
	s wwr.Session
}

func (c *fcon) Session() *wwr.Session { return &c.s }

func storeRound(r rnd) {
	dir, err := os.MkdirTemp("", "wwv-race")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	m := wwr.NewDefaultSessionManager(filepath.Join(dir, "s"))
	var wg sync.WaitGroup
	now := time.Now()
	keys := 1 + r.Intn(3)
	for k := 0; k < keys; k++ {
		m.OnSessionCreated(&fcon{s: wwr.Session{Key: fmt.Sprint("k", k), Creation: now, LastLookup: now}})
	}
	for g := 0; g < 6; g++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 10; i++ {
				k := fmt.Sprint("k", gr.Intn(keys))
				switch x := gr.Intn(20); {
				case x < 14:
					res, err := m.OnSessionLookup(k)
					if err != nil {
						bad("store", "lookup failed: %s", err)
					} else if res != nil && !res.Creation().Equal(now) {
						bad("store", "wrong creation time")
					}
				case x < 16:
					m.OnSessionClosed(k)
					if res, err := m.OnSessionLookup(k); err != nil || res != nil {
						bad("store", "a closed session was found: %v %v", res, err)
					}
				default:
					u := fmt.Sprint("u", g, "-", i)
					err := m.OnSessionCreated(&fcon{s: wwr.Session{Key: u, Creation: now, LastLookup: now}})
					res, err2 := m.OnSessionLookup(u)
					if err != nil || err2 != nil || res == nil {
						bad("store", "a created session wasn't found: %v %v", err, err2)
					}
				}
			}
		}()
	}
	wait("store", "an operation", &wg)
}
