package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

// ftrans is a transport controlled by the driver
type ftrans struct {
	d        *driver
	opts     wwr.ServerOptions
	shutting wwr.IsShuttingDown
	onNew    wwr.OnNewConnection
}

func (t *ftrans) Initialize(
	o wwr.ServerOptions, s wwr.IsShuttingDown, n wwr.OnNewConnection,
) error {
	t.opts, t.shutting, t.onNew = o, s, n
	return nil
}
func (t *ftrans) Serve() error     { return nil }
func (t *ftrans) Address() url.URL { return url.URL{Scheme: "fake"} }
func (t *ftrans) Shutdown() error {
	t.d.rec("tshut", nil)
	return nil
}

type sockErr struct {
	closed bool
	text   string
}

func (e sockErr) Error() string    { return e.text }
func (e sockErr) IsCloseErr() bool { return e.closed }

type faddr int

func (a faddr) Network() string { return "fake" }
func (a faddr) String() string  { return fmt.Sprint("peer", int(a)) }

type item struct {
	m    int // message index (1-based)
	data []byte
	err  wwr.ErrSockRead
}

type fault struct {
	kind string // get write close
	k    int
}

// fsock is a server-side socket controlled by the driver
type fsock struct {
	d        *driver
	c        int
	cond     *sync.Cond // on the lock of the driver, which protects it all
	queue    []item
	reading  bool
	up       bool
	closed   bool // closed by the server
	lastRead time.Time
	wmu      sync.Mutex
	faults   []fault
	connTime time.Time
}

func newSock(d *driver, c int) *fsock {
	s := &fsock{d: d, c: c, up: true, connTime: time.Now()}
	s.cond = sync.NewCond(&d.mu)
	s.lastRead = s.connTime
	return s
}

func (s *fsock) trip(kind string) bool {
	s.d.mu.Lock()
	defer s.d.mu.Unlock()
	for i := range s.faults {
		f := &s.faults[i]
		if f.kind == kind && f.k > 0 {
			f.k--
			if f.k == 0 {
				return true
			}
		}
	}
	return false
}

// Read implements webwire.Socket
func (s *fsock) Read(into *message.Message, dl time.Time) wwr.ErrSockRead {
	now := time.Now()
	s.d.mu.Lock()
	rt := time.Duration(s.d.sc.Cfg.RT) * time.Millisecond
	ok := !dl.IsZero() && !dl.Before(s.lastRead.Add(rt)) && !dl.After(now.Add(rt))
	s.d.recl("rcall", ev{"c": s.c, "ok": ok})
	for {
		if !s.up {
			s.lastRead = time.Now()
			s.d.recl("rerr", ev{"c": s.c, "m": 0})
			s.d.mu.Unlock()
			return sockErr{true, fmt.Sprintf("sock%d closed", s.c)}
		}
		if len(s.queue) > 0 {
			break
		}
		s.reading = true
		s.cond.Wait()
		s.reading = false
	}
	it := s.queue[0]
	s.queue = s.queue[1:]
	s.lastRead = time.Now()
	s.d.mu.Unlock()
	if it.err != nil {
		s.d.mu.Lock()
		s.up = false
		s.d.recl("rerr", ev{"c": s.c, "m": 0})
		s.d.mu.Unlock()
		return it.err
	}
	// Deliver the message in two chunks
	var r io.Reader = bytes.NewReader(it.data)
	typeParsed, err := into.Read(r)
	if err == nil && !typeParsed {
		err = errors.New("no message type")
	}
	if err != nil {
		s.d.rec("rerr", ev{"c": s.c, "m": it.m})
		return sockErr{false, fmt.Sprintf("sock%d bad input m%d", s.c, it.m)}
	}
	s.d.rec("read", ev{"c": s.c, "m": it.m})
	return nil
}

func (s *fsock) push(it item) {
	s.d.mu.Lock()
	s.queue = append(s.queue, it)
	s.cond.Broadcast()
	s.d.mu.Unlock()
}

// drop simulates the loss of the connection
func (s *fsock) drop() {
	s.d.mu.Lock()
	s.d.recl("lost", ev{"c": s.c})
	s.up = false
	s.cond.Broadcast()
	s.d.mu.Unlock()
}

func (s *fsock) IsConnected() bool {
	s.d.mu.Lock()
	defer s.d.mu.Unlock()
	return s.up
}

func (s *fsock) RemoteAddr() net.Addr { return faddr(s.c) }

// Close implements webwire.Socket
func (s *fsock) Close() error {
	s.d.mu.Lock()
	first := !s.closed
	s.closed = true
	s.up = false
	if first {
		s.d.recl("sclose", ev{"c": s.c})
	}
	s.cond.Broadcast()
	s.d.mu.Unlock()
	if s.trip("sock") {
		return errors.New("injected close error")
	}
	return nil
}

// GetWriter implements webwire.Socket
func (s *fsock) GetWriter() (io.WriteCloser, error) {
	s.wmu.Lock()
	if !s.IsConnected() || s.trip("get") {
		s.d.rec("wfail", ev{"c": s.c})
		s.wmu.Unlock()
		return nil, wwr.ErrDisconnected{Cause: errors.New("no writer")}
	}
	return &fwriter{s: s}, nil
}

type fwriter struct {
	s      *fsock
	buf    []byte
	failed bool
	done   bool
}

func (w *fwriter) Write(p []byte) (int, error) {
	if w.done {
		w.s.d.rec("wmisuse", ev{"c": w.s.c, "x": "write after close"})
		return 0, errors.New("write after close")
	}
	if w.failed {
		return 0, errors.New("writer failed before")
	}
	if w.s.trip("write") {
		w.failed = true
		w.s.d.rec("wfail", ev{"c": w.s.c})
		return 0, errors.New("injected write error")
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *fwriter) Close() error {
	s := w.s
	if w.done {
		s.d.rec("wmisuse", ev{"c": s.c, "x": "closed twice"})
		return errors.New("writer closed twice")
	}
	w.done = true
	if !w.failed {
		s.d.gate(fmt.Sprintf("fl:%d", s.c))
	}
	defer s.wmu.Unlock()
	if w.failed {
		return errors.New("writer failed before")
	}
	if s.trip("close") {
		s.d.rec("wfail", ev{"c": s.c})
		return errors.New("injected close error")
	}
	if len(w.buf) < 1 {
		// The encoder refused the message
		return errors.New("no data written")
	}
	s.d.mu.Lock()
	up := s.up
	if up {
		s.d.sent(s.c, w.buf)
	} else {
		s.d.recl("wfail", ev{"c": s.c})
	}
	s.d.mu.Unlock()
	if !up {
		return errors.New("not connected")
	}
	return nil
}
