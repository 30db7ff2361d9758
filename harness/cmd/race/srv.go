package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/url"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

type trans struct {
	onNew wwr.OnNewConnection
	down  int32
}

func (t *trans) Initialize(_ wwr.ServerOptions, _ wwr.IsShuttingDown, n wwr.OnNewConnection) error {
	t.onNew = n
	return nil
}
func (t *trans) Serve() error     { return nil }
func (t *trans) Address() url.URL { return url.URL{} }
func (t *trans) Shutdown() error  { atomic.AddInt32(&t.down, 1); return nil }

type sockErr struct{ closed bool }

func (e sockErr) Error() string    { return "sock" }
func (e sockErr) IsCloseErr() bool { return e.closed }

type addr int

func (a addr) Network() string { return "race" }
func (a addr) String() string  { return fmt.Sprint(int(a)) }

// sock shares no state with other sockets, it must not order their accesses
type sock struct {
	id     int
	in     chan []byte
	gone   chan struct{}
	once   sync.Once
	wmu    sync.Mutex
	omu    sync.Mutex
	out    [][]byte
	closed bool
	con    chan wwr.Connection
	limit  int
	ended  chan struct{}
	r      rnd
	active int32

	// client side
	sent map[uint64]bool
}

// rnd is a random generator of a single goroutine
type rnd = *rand.Rand

func (s *sock) lose() { s.once.Do(func() { close(s.gone) }) }
func (s *sock) Read(into *message.Message, _ time.Time) wwr.ErrSockRead {
	select {
	case <-s.gone:
		return sockErr{true}
	default:
	}
	select {
	case <-s.gone:
		return sockErr{true}
	case d := <-s.in:
		if ok, err := into.Read(bytes.NewReader(d)); err != nil || !ok {
			return sockErr{false}
		}
		return nil
	}
}
func (s *sock) IsConnected() bool {
	select {
	case <-s.gone:
		return false
	default:
		return true
	}
}
func (s *sock) RemoteAddr() net.Addr { return addr(s.id) }
func (s *sock) Close() error {
	s.omu.Lock()
	s.closed = true
	s.omu.Unlock()
	s.lose()
	return nil
}

type writer struct {
	s   *sock
	buf []byte
}

func (s *sock) GetWriter() (io.WriteCloser, error) {
	s.wmu.Lock()
	if !s.IsConnected() {
		s.wmu.Unlock()
		return nil, errors.New("disconnected")
	}
	return &writer{s: s}, nil
}
func (w *writer) Write(p []byte) (int, error) { w.buf = append(w.buf, p...); return len(p), nil }
func (w *writer) Close() error {
	s := w.s
	w.s = nil
	defer s.wmu.Unlock()
	if !s.IsConnected() {
		return errors.New("disconnected")
	}
	s.omu.Lock()
	s.out = append(s.out, w.buf)
	s.omu.Unlock()
	return nil
}

// mng is a session manager
type mng struct {
	mu     sync.Mutex
	keys   map[string]time.Time
	closed map[string]int
}

func (m *mng) OnSessionCreated(c wwr.Connection) error {
	s := c.Session()
	if s != nil && len(s.Key) > 0 && s.Info != nil {
		_ = s.Info.Value("a")
	}
	return nil
}
func (m *mng) OnSessionLookup(k string) (wwr.SessionLookupResult, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if t, ok := m.keys[k]; ok {
		return wwr.NewSessionLookupResult(t, t, map[string]interface{}{"a": []interface{}{1, 2}}), nil
	}
	return nil, nil
}
func (m *mng) OnSessionClosed(k string) error {
	m.mu.Lock()
	delete(m.keys, k)
	m.closed[k]++
	m.mu.Unlock()
	return nil
}

type srvImpl struct {
	socks []*sock
	srv   wwr.Server
	keys  []string
	shut  int32
	max   int
}

func (i *srvImpl) of(c wwr.Connection) *sock { return i.socks[int(c.RemoteAddr().(addr))] }
func (i *srvImpl) OnClientConnected(_ wwr.ConnectionOptions, c wwr.Connection) {
	s := i.of(c)
	runtime.Gosched()
	s.con <- c
}
func (i *srvImpl) OnClientDisconnected(c wwr.Connection, _ error) {
	c.IsActive()
	c.SessionKey()
}

// work uses the connection the way handlers do
func (i *srvImpl) work(c wwr.Connection, m wwr.Message) {
	s := i.of(c)
	if n := atomic.AddInt32(&s.active, 1); s.limit >= 0 && n > 1 && int(n) > s.limit {
		bad("limit", "%d handlers at the limit %d", n, s.limit)
	}
	if atomic.LoadInt32(&i.shut) > 0 {
		bad("shutdown", "a handler started after the shutdown")
	}
	n, p := string(m.Name()), string(m.Payload())
	id := m.Identifier()
	x := byte(0)
	if len(p) > 2 {
		x = p[2]
	}
	switch x % 12 {
	case 0:
		c.CreateSession(wwr.GenericSessionInfoParser(map[string]interface{}{"a": []interface{}{1}}))
	case 1:
		c.CloseSession()
	case 2:
		c.Session()
		c.SessionInfo("a")
	case 3:
		c.HasSession()
		c.SessionKey()
		c.SessionCreation()
	case 4:
		c.Signal([]byte("sig"), wwr.Payload{Data: []byte("x")})
	case 5:
		for _, k := range i.keys {
			if n := i.srv.SessionConnectionsNum(k); i.max > 0 && n > i.max {
				bad("max", "%d connections on a session", n)
			}
		}
	case 6:
		if p[3]%8 == 0 {
			c.Close()
		}
	default:
		runtime.Gosched()
	}
	if string(m.Name()) != n || string(m.Payload()) != p || m.Identifier() != id || (len(n) > 0 && p[:2] != n) {
		bad("message", "the message changed: %q %q", n, p)
	}
	if atomic.LoadInt32(&i.shut) > 0 {
		bad("shutdown", "Shutdown returned while a handler was running")
	}
	atomic.AddInt32(&s.active, -1)
}
func (i *srvImpl) OnSignal(_ context.Context, c wwr.Connection, m wwr.Message) { i.work(c, m) }
func (i *srvImpl) OnRequest(_ context.Context, c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	p := append([]byte(nil), m.Payload()...)
	i.work(c, m)
	if len(p) > 3 && p[3]%5 == 0 {
		return wwr.Payload{}, wwr.ErrRequest{Code: "CODE", Message: string(p)}
	}
	return wwr.Payload{Data: p}, nil
}

func ident(id uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, id)
	return b
}

func cat(p ...[]byte) (r []byte) {
	for _, x := range p {
		r = append(r, x...)
	}
	return
}

type keygen struct{ n int64 }

func (k *keygen) Generate() string { return fmt.Sprint("g", atomic.AddInt64(&k.n, 1)) }

func srvRound(r rnd) {
	nul := log.New(ioutil.Discard, "", 0)
	m := &mng{keys: map[string]time.Time{}, closed: map[string]int{}}
	i := &srvImpl{max: r.Intn(4)}
	for k := 0; k < 3; k++ {
		key := fmt.Sprint("k", k)
		i.keys = append(i.keys, key)
		m.keys[key] = time.Now()
	}
	t := &trans{}
	srv, err := wwr.NewServer(i, wwr.ServerOptions{
		SessionManager: m, MaxSessionConnections: uint(i.max), WarnLog: nul, ErrorLog: nul,
		SessionKeyGenerator: &keygen{}, MessageBufferSize: 64 + uint32(r.Intn(200)),
	}, t)
	if err != nil {
		bad("server", "can't be created: %s", err)
		return
	}
	i.srv = srv
	n := 2 + r.Intn(5)
	limits := []int{0, 1, 2, 3, -1, -1}
	for c := 0; c < n; c++ {
		i.socks = append(i.socks, &sock{
			id: c, in: make(chan []byte, 512), gone: make(chan struct{}), con: make(chan wwr.Connection, 1),
			limit: limits[r.Intn(len(limits))], ended: make(chan struct{}), sent: map[uint64]bool{},
			r: rand.New(rand.NewSource(r.Int63())),
		})
	}
	var wg, conns sync.WaitGroup
	nmsg := 5 + r.Intn(60)
	lossy := r.Intn(3) == 0
	for _, s := range i.socks {
		s := s
		conns.Add(1)
		go func() {
			t.onNew(wwr.ConnectionOptions{ConcurrencyLimit: s.limit}, s)
			close(s.ended)
			conns.Done()
		}()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := s.r
			for x := 0; x < nmsg; x++ {
				p := make([]byte, 4+r.Intn(12))
				r.Read(p)
				name := string([]byte{byte('a' + s.id), byte('a' + r.Intn(26))})
				copy(p, name)
				id := uint64(s.id*1000000 + x)
				switch k := r.Intn(20); {
				case k < 8:
					s.sent[id] = true
					s.in <- cat([]byte{message.MsgRequestBinary}, ident(id), []byte{2}, []byte(name), p)
				case k < 12:
					s.in <- cat([]byte{message.MsgSignalBinary, 2}, []byte(name), p)
				case k < 13:
					s.in <- []byte{message.MsgHeartbeat}
				case k < 17:
					s.sent[id] = true
					s.in <- cat([]byte{message.MsgRequestRestoreSession}, ident(id), []byte(i.keys[r.Intn(len(i.keys))]))
				case k < 19:
					s.sent[id] = true
					s.in <- cat([]byte{message.MsgRequestCloseSession}, ident(id))
				default:
					s.in <- cat([]byte{message.MsgReplyBinary}, ident(id), []byte("x"))
				}
				if r.Intn(3) == 0 {
					runtime.Gosched()
				}
				if lossy && r.Intn(40) == 0 {
					s.lose()
					return
				}
			}
		}()
	}
	// Users of the server
	for u := 0; u < 2; u++ {
		ur := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := 0; x < 20; x++ {
				k := i.keys[ur.Intn(len(i.keys))]
				switch ur.Intn(6) {
				case 0:
					srv.ActiveSessionsNum()
				case 1, 2:
					for _, c := range srv.SessionConnections(k) {
						c.SessionKey()
						c.Session()
						c.IsActive()
					}
				case 3:
					if ur.Intn(4) == 0 {
						srv.CloseSession(k)
					}
				case 4:
					srv.SessionConnectionsNum(k)
				case 5:
					s := i.socks[ur.Intn(n)]
					select {
					case c := <-s.con:
						c.Signal([]byte("n"), wwr.Payload{})
						c.CreateSession(nil)
						c.CloseSession()
						c.Info(1)
						if ur.Intn(4) == 0 {
							c.Close()
						}
						s.con <- c
					default:
					}
				}
				runtime.Gosched()
			}
		}()
	}
	early := r.Intn(3) == 0
	if !early {
		wait("server", "a client", &wg)
		// Everything is answered unless the connection ended
		for _, s := range i.socks {
			s := s
			end := time.Now().Add(30 * time.Second)
			for s.IsConnected() {
				seen := s.answered()
				if len(seen) >= len(s.sent) {
					for id := range s.sent {
						if seen[id] != 1 {
							bad("reply", "request %d was answered %d times", id, seen[id])
						}
					}
					break
				}
				if time.Now().After(end) {
					hang("reply", fmt.Sprintf("%d of %d requests answered, the handling", len(seen), len(s.sent)))
				}
				time.Sleep(time.Millisecond)
			}
		}
	}
	var sh sync.WaitGroup
	for x := 0; x < 1+r.Intn(2); x++ {
		sh.Add(1)
		go func() {
			srv.Shutdown()
			if atomic.LoadInt32(&t.down) < 1 {
				bad("shutdown", "Shutdown returned before the transport was shut down")
			}
			atomic.StoreInt32(&i.shut, 1)
			sh.Done()
		}()
	}
	wait("shutdown", "Shutdown", &sh)
	wait("server", "a client", &wg)
	for _, s := range i.socks {
		s.lose()
	}
	wait("connection", "a connection", &conns)
	// The last handler of a closed connection could still be cleaning up
	soon(func() bool { return srv.ActiveSessionsNum() == 0 }, "registry",
		"sessions are active without any connection")
	for _, s := range i.socks {
		s.answered()
		soon(func() bool {
			s.omu.Lock()
			defer s.omu.Unlock()
			return s.closed
		}, "leak", "the socket of a lost connection wasn't closed")
	}
}

// answered returns how often which requests were answered
func (s *sock) answered() map[uint64]int {
	s.omu.Lock()
	out := s.out
	s.omu.Unlock()
	seen := map[uint64]int{}
	for _, d := range out {
		m := message.NewMessage(uint32(len(d) + 16))
		if ok, err := m.ReadBytes(d); !ok || err != nil {
			bad("reply", "the server sent garbage: %v", d)
			continue
		}
		switch m.MsgType {
		case message.MsgAcceptConf, message.MsgNotifySessionCreated, message.MsgNotifySessionClosed,
			message.MsgSignalBinary:
		default:
			id := binary.LittleEndian.Uint64(m.MsgIdentifier[:])
			seen[id]++
			if seen[id] > 1 {
				bad("reply", "request %d was answered %d times", id, seen[id])
			}
			if int(id/1000000) != s.id {
				bad("reply", "connection %d got the reply %d", s.id, id)
			}
			if m.MsgType == message.MsgReplyBinary && len(m.MsgPayload.Data) > 1 && int(m.MsgPayload.Data[0]-'a') != s.id {
				bad("reply", "connection %d got the payload of another one: %q", s.id, m.MsgPayload.Data)
			}
		}
	}
	return seen
}
