// Package fake provides a simple transport whose clients are the driver
package fake

import (
	"errors"
	"io"
	"net"
	"net/url"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

// Transport implements wwr.Transport
type Transport struct {
	Err   error // returned by Initialize
	Opts  wwr.ServerOptions
	Inits int
	new   wwr.OnNewConnection
	stop  chan struct{}
	once  sync.Once
}

// NewTransport makes a new transport
func NewTransport() *Transport { return &Transport{stop: make(chan struct{})} }

// Initialize implements wwr.Transport
func (t *Transport) Initialize(
	o wwr.ServerOptions, down wwr.IsShuttingDown, n wwr.OnNewConnection,
) error {
	t.Opts, t.new = o, n
	t.Inits++
	return t.Err
}

// Serve implements wwr.Transport
func (t *Transport) Serve() error {
	<-t.stop
	return nil
}

// Shutdown implements wwr.Transport
func (t *Transport) Shutdown() error {
	t.once.Do(func() { close(t.stop) })
	return nil
}

// Address implements wwr.Transport
func (t *Transport) Address() url.URL { return url.URL{} }

// Connect connects a new client. The connection is handled by a new goroutine
func (t *Transport) Connect(o wwr.ConnectionOptions) *Socket {
	s := NewSocket()
	t.Attach(o, s)
	return s
}

// Attach connects a socket
func (t *Transport) Attach(o wwr.ConnectionOptions, s *Socket) {
	s.Done = make(chan struct{})
	go func() {
		defer close(s.Done)
		t.new(o, s)
	}()
}

// Err implements wwr.ErrSockRead
type Err struct{ closed bool }

func (e Err) Error() string { return "fake socket" }

// IsCloseErr implements wwr.ErrSockRead
func (e Err) IsCloseErr() bool { return e.closed }

// Read describes one call of Socket.Read
type Read struct {
	At, Deadline time.Time
	Buf          int
}

// Socket is the server's end of a connection
type Socket struct {
	mu    sync.Mutex
	cond  *sync.Cond
	wlock sync.Mutex
	up    bool
	in    [][]byte
	out   [][]byte
	Fail  bool // writers fail after the message was sent
	Done  chan struct{}
	Reads []Read
}

// NewSocket makes a connected socket
func NewSocket() *Socket {
	s := &Socket{up: true}
	s.cond = sync.NewCond(&s.mu)
	return s
}

// Send sends a message to the server
func (s *Socket) Send(b []byte) {
	s.mu.Lock()
	s.in = append(s.in, append([]byte{}, b...))
	s.cond.Broadcast()
	s.mu.Unlock()
}

// Await waits for the n-th message of the server
func (s *Socket) Await(n int, d time.Duration) []byte {
	t := time.AfterFunc(d, s.cond.Broadcast)
	defer t.Stop()
	end := time.Now().Add(d)
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if len(s.out) > n {
			return s.out[n]
		}
		if !s.up || !time.Now().Before(end) {
			return nil
		}
		s.cond.Wait()
	}
}

// AwaitRead waits for the first call of Read
func (s *Socket) AwaitRead(d time.Duration) {
	t := time.AfterFunc(d, s.cond.Broadcast)
	defer t.Stop()
	end := time.Now().Add(d)
	s.mu.Lock()
	defer s.mu.Unlock()
	for len(s.Reads) < 1 && s.up && time.Now().Before(end) {
		s.cond.Wait()
	}
}

// Sent returns what the server sent
func (s *Socket) Sent() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([][]byte{}, s.out...)
}

type writer struct {
	s *Socket
	b []byte
}

func (w *writer) Write(b []byte) (int, error) {
	w.b = append(w.b, b...)
	return len(b), nil
}

func (w *writer) Close() error {
	s := w.s
	defer s.wlock.Unlock()
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.up {
		return errors.New("fake socket: closed")
	}
	if len(w.b) > 0 {
		s.out = append(s.out, w.b)
		s.cond.Broadcast()
	}
	if s.Fail {
		return errors.New("fake socket: failed")
	}
	return nil
}

// GetWriter implements wwr.Socket
func (s *Socket) GetWriter() (io.WriteCloser, error) {
	s.wlock.Lock()
	if !s.IsConnected() {
		s.wlock.Unlock()
		return nil, errors.New("fake socket: closed")
	}
	return &writer{s: s}, nil
}

// Read implements wwr.Socket
func (s *Socket) Read(into *message.Message, deadline time.Time) wwr.ErrSockRead {
	s.mu.Lock()
	s.Reads = append(s.Reads, Read{time.Now(), deadline, len(into.MsgBuffer.Bytes())})
	s.cond.Broadcast()
	for s.up && len(s.in) < 1 {
		s.cond.Wait()
	}
	if !s.up {
		s.mu.Unlock()
		return Err{true}
	}
	b := s.in[0]
	s.in = s.in[1:]
	s.mu.Unlock()
	if ok, err := into.ReadBytes(b); err != nil || !ok {
		return Err{false}
	}
	return nil
}

// IsConnected implements wwr.Socket
func (s *Socket) IsConnected() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.up
}

// RemoteAddr implements wwr.Socket
func (s *Socket) RemoteAddr() net.Addr { return nil }

// Close implements wwr.Socket
func (s *Socket) Close() error {
	s.mu.Lock()
	s.up = false
	s.cond.Broadcast()
	s.mu.Unlock()
	return nil
}
