package main

// Scripted transport, sockets and hooks for the demonstrations

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"net"
	"net/url"
	"os"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

func fail(f string, a ...interface{}) {
	fmt.Printf("BROKEN: "+f+"\n", a...)
	os.Exit(1)
}

func check(c bool, f string, a ...interface{}) {
	if !c {
		fail(f, a...)
	}
}

// within fails unless f returns in time
func within(d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		fail("%s takes too long", what)
	}
}

func eventually(what string, f func() bool) {
	for i := 0; i < 500; i++ {
		if f() {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	fail("%s never happened", what)
}

type impl struct {
	connected    func(wwr.ConnectionOptions, wwr.Connection)
	disconnected func(wwr.Connection, error)
	signal       func(context.Context, wwr.Connection, wwr.Message)
	request      func(context.Context, wwr.Connection, wwr.Message) (wwr.Payload, error)
}

func (i *impl) OnClientConnected(o wwr.ConnectionOptions, c wwr.Connection) {
	if i.connected != nil {
		i.connected(o, c)
	}
}
func (i *impl) OnClientDisconnected(c wwr.Connection, e error) {
	if i.disconnected != nil {
		i.disconnected(c, e)
	}
}
func (i *impl) OnSignal(x context.Context, c wwr.Connection, m wwr.Message) {
	if i.signal != nil {
		i.signal(x, c, m)
	}
}
func (i *impl) OnRequest(x context.Context, c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	if i.request != nil {
		return i.request(x, c, m)
	}
	return wwr.Payload{}, nil
}

type result struct {
	creation time.Time
	info     map[string]interface{}
}

// manager keeps sessions in memory
type manager struct {
	mu      sync.Mutex
	store   map[string]result
	closed  map[string]int
	created func(wwr.Connection) error
	lookup  func(string) (wwr.SessionLookupResult, error)
	closing func(string) error
}

func newManager() *manager {
	return &manager{store: map[string]result{}, closed: map[string]int{}}
}
func (m *manager) OnSessionCreated(c wwr.Connection) error {
	if m.created != nil {
		return m.created(c)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if s := c.Session(); s != nil {
		m.store[s.Key] = result{creation: s.Creation}
	}
	return nil
}
func (m *manager) put(k string) {
	m.mu.Lock()
	m.store[k] = result{creation: time.Now()}
	m.mu.Unlock()
}
func (m *manager) get(k string) (wwr.SessionLookupResult, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if r, ok := m.store[k]; ok {
		return wwr.NewSessionLookupResult(r.creation, r.creation, r.info), nil
	}
	return nil, nil
}
func (m *manager) OnSessionLookup(k string) (wwr.SessionLookupResult, error) {
	if m.lookup != nil {
		return m.lookup(k)
	}
	return m.get(k)
}
func (m *manager) OnSessionClosed(k string) error {
	m.mu.Lock()
	m.closed[k]++
	delete(m.store, k)
	m.mu.Unlock()
	if m.closing != nil {
		return m.closing(k)
	}
	return nil
}
func (m *manager) destroyed(k string) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.closed[k]
}

type keygen struct{ f func() string }

func (k keygen) Generate() string { return k.f() }

type trans struct {
	onNew    wwr.OnNewConnection
	isShut   wwr.IsShuttingDown
	opts     wwr.ServerOptions
	shutdown int
	mu       sync.Mutex
}

func (t *trans) Initialize(o wwr.ServerOptions, s wwr.IsShuttingDown, n wwr.OnNewConnection) error {
	t.opts, t.isShut, t.onNew = o, s, n
	return nil
}
func (t *trans) Serve() error     { return nil }
func (t *trans) Address() url.URL { return url.URL{} }
func (t *trans) Shutdown() error {
	t.mu.Lock()
	t.shutdown++
	t.mu.Unlock()
	return nil
}
func (t *trans) isDown() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.shutdown > 0
}

type env struct {
	srv wwr.Server
	t   *trans
	n   int
}

func start(i *impl, o wwr.ServerOptions) *env {
	quiet := log.New(ioutil.Discard, "", 0)
	o.WarnLog, o.ErrorLog = quiet, quiet
	if o.SessionManager == nil && o.Sessions != wwr.Disabled {
		o.SessionManager = newManager()
	}
	t := &trans{}
	s, err := wwr.NewServer(i, o, t)
	if err != nil {
		fmt.Println("can't create server:", err)
		os.Exit(3)
	}
	return &env{srv: s, t: t}
}

type sockErr struct{ closed bool }

func (e sockErr) Error() string    { return "sock error" }
func (e sockErr) IsCloseErr() bool { return e.closed }

type addr int

func (a addr) Network() string { return "demo" }
func (a addr) String() string  { return fmt.Sprint(int(a)) }

// sock is the server side of a connection
type sock struct {
	mu        sync.Mutex
	cond      *sync.Cond
	in        [][]byte
	out       [][]byte
	next      int
	up        bool
	closes    int
	ended     bool // handleConnection has returned
	reading   bool
	writers   int
	wlock     sync.Mutex
	flush     func(data []byte) error // called before a message is sent
	getWriter func() error
	onClose   func()
	deadlines []time.Time
	id        int
}

func (e *env) connect(limit int) *sock {
	return e.connectWith(wwr.ConnectionOptions{ConcurrencyLimit: limit}, nil)
}

func (e *env) connectWith(o wwr.ConnectionOptions, prep func(*sock)) *sock {
	e.n++
	s := &sock{up: true, id: e.n}
	s.cond = sync.NewCond(&s.mu)
	if prep != nil {
		prep(s)
	}
	go func() {
		e.t.onNew(o, s)
		s.mu.Lock()
		s.ended = true
		s.mu.Unlock()
	}()
	return s
}

func (s *sock) hasEnded() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.ended
}

// handshake expects the configuration message
func (s *sock) handshake() {
	m := s.recv("configuration message")
	check(m.MsgType == message.MsgAcceptConf, "unexpected first message: %d", m.MsgType)
}

func (s *sock) Read(into *message.Message, dl time.Time) wwr.ErrSockRead {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.deadlines = append(s.deadlines, dl)
	s.reading = true
	for s.up && len(s.in) < 1 {
		s.cond.Wait()
	}
	s.reading = false
	if !s.up {
		return sockErr{true}
	}
	d := s.in[0]
	s.in = s.in[1:]
	if ok, err := into.Read(bytes.NewReader(d)); err != nil || !ok {
		return sockErr{false}
	}
	return nil
}

// idle tells whether everything was read and the server waits for more
func (s *sock) idle() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.reading && len(s.in) < 1
}

func (s *sock) send(ms ...[]byte) {
	s.mu.Lock()
	s.in = append(s.in, ms...)
	s.cond.Broadcast()
	s.mu.Unlock()
}

// lose simulates the loss of the connection
func (s *sock) lose() {
	s.mu.Lock()
	s.up = false
	s.cond.Broadcast()
	s.mu.Unlock()
}

func (s *sock) IsConnected() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.up
}
func (s *sock) RemoteAddr() net.Addr { return addr(s.id) }
func (s *sock) Close() error {
	s.mu.Lock()
	f := s.onClose
	s.mu.Unlock()
	if f != nil {
		f()
	}
	s.mu.Lock()
	s.closes++
	s.up = false
	s.cond.Broadcast()
	s.mu.Unlock()
	return nil
}
func (s *sock) closed() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.closes > 0
}

type writer struct {
	s    *sock
	buf  []byte
	done bool
}

func (s *sock) GetWriter() (io.WriteCloser, error) {
	s.wlock.Lock()
	s.mu.Lock()
	f := s.getWriter
	s.mu.Unlock()
	if f != nil {
		if err := f(); err != nil {
			s.wlock.Unlock()
			return nil, err
		}
	}
	if !s.IsConnected() {
		s.wlock.Unlock()
		return nil, errors.New("disconnected")
	}
	return &writer{s: s}, nil
}
func (w *writer) Write(p []byte) (int, error) {
	w.buf = append(w.buf, p...)
	return len(p), nil
}
func (w *writer) Close() error {
	if w.done {
		fail("writer closed twice")
	}
	w.done = true
	defer w.s.wlock.Unlock()
	w.s.mu.Lock()
	f := w.s.flush
	w.s.mu.Unlock()
	if f != nil {
		if err := f(w.buf); err != nil {
			return err
		}
	}
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if !w.s.up {
		return errors.New("disconnected")
	}
	w.s.out = append(w.s.out, w.buf)
	w.s.cond.Broadcast()
	return nil
}

func parse(d []byte) *message.Message {
	m := message.NewMessage(uint32(len(d) + 64))
	if ok, err := m.Read(bytes.NewReader(d)); err != nil || !ok {
		fail("the server sent garbage: %v (%v)", d, err)
	}
	return m
}

// poll returns the next message sent by the server, or nil
func (s *sock) poll(d time.Duration) *message.Message {
	end := time.Now().Add(d)
	for {
		s.mu.Lock()
		if s.next < len(s.out) {
			m := s.out[s.next]
			s.next++
			s.mu.Unlock()
			return parse(m)
		}
		s.mu.Unlock()
		if time.Now().After(end) {
			return nil
		}
		time.Sleep(time.Millisecond)
	}
}

func (s *sock) recv(what string) *message.Message {
	m := s.poll(5 * time.Second)
	check(m != nil, "no %s received", what)
	return m
}

func ident(id int) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, uint64(id))
	return b
}

func cat(p ...[]byte) (r []byte) {
	for _, x := range p {
		r = append(r, x...)
	}
	return
}

// client messages
func request(id int, name, payload string) []byte {
	return cat([]byte{message.MsgRequestBinary}, ident(id), []byte{byte(len(name))}, []byte(name), []byte(payload))
}
func signal(name, payload string) []byte {
	return cat([]byte{message.MsgSignalBinary, byte(len(name))}, []byte(name), []byte(payload))
}
func restore(id int, key string) []byte {
	return cat([]byte{message.MsgRequestRestoreSession}, ident(id), []byte(key))
}
func closeSession(id int) []byte {
	return cat([]byte{message.MsgRequestCloseSession}, ident(id))
}
func heartbeat() []byte { return []byte{message.MsgHeartbeat} }

func isReply(t byte) bool {
	return t == message.MsgReplyBinary || t == message.MsgReplyUtf8 || t == message.MsgReplyUtf16
}

var _ = sync.Mutex{}
