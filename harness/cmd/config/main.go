// config creates servers with all kinds of options and observes what they
// announce and enforce
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"wwrverif/fake"
)

type obj = map[string]any

type options struct {
	Impl  bool   `json:"impl"`
	Tr    bool   `json:"tr"`
	TrErr bool   `json:"trerr"`
	Ses   int    `json:"ses"`
	Mgr   bool   `json:"mgr"`
	Gen   bool   `json:"gen"`
	Par   bool   `json:"par"`
	Log   bool   `json:"log"`
	Max   int    `json:"max"`
	RT    string `json:"rtns"`
	Buf   string `json:"bufs"`
	Sub   []int  `json:"sub"`
}

type scenario struct {
	ID string  `json:"id"`
	O  options `json:"o"`
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func toInts(b []byte) []int {
	l := make([]int, len(b))
	for i, x := range b {
		l[i] = int(x)
	}
	return l
}

// limbs splits a number into 16-bit digits
func limbs(n uint64, k int) []int {
	l := make([]int, k)
	for i := range l {
		l[i] = int(n >> (16 * uint(i)) & 0xffff)
	}
	return l
}

func rt(d time.Duration) obj {
	if d < 0 {
		return obj{"neg": true, "ms": []int{0, 0, 0}}
	}
	return obj{"neg": false, "ms": limbs(uint64(d/time.Millisecond), 3)}
}

// own session manager, key generator and parser
type manager struct {
	mu      sync.Mutex
	s       map[string]*wwr.Session
	created int
}

func (m *manager) OnSessionCreated(c wwr.Connection) error {
	s := c.Session()
	m.mu.Lock()
	defer m.mu.Unlock()
	m.created++
	m.s[s.Key] = s
	return nil
}
func (m *manager) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if s := m.s[key]; s != nil {
		return wwr.NewSessionLookupResult(s.Creation, s.LastLookup,
			wwr.SessionInfoToVarMap(s.Info)), nil
	}
	return nil, nil
}
func (m *manager) OnSessionClosed(key string) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	delete(m.s, key)
	return nil
}

type generator struct{ n int }

func (g *generator) Generate() string {
	g.n++
	return fmt.Sprint("own-", g.n)
}

type info struct{}

func (info) Copy() wwr.SessionInfo    { return info{} }
func (info) Fields() []string         { return []string{"own"} }
func (info) Value(string) interface{} { return "own" }

type impl struct {
	mu        sync.Mutex
	handled   int
	sigErr    error
	createErr error
	key       string
	parsed    interface{}
}

func (m *impl) OnClientConnected(wwr.ConnectionOptions, wwr.Connection) {}
func (m *impl) OnClientDisconnected(wwr.Connection, error)              {}
func (m *impl) OnSignal(context.Context, wwr.Connection, wwr.Message)   {}
func (m *impl) OnRequest(
	_ context.Context, con wwr.Connection, msg wwr.Message,
) (wwr.Payload, error) {
	p := append([]byte{}, msg.Payload()...)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.handled++
	switch p[0] {
	case 's':
		n, err := strconv.Atoi(string(p[1:]))
		must(err)
		m.sigErr = con.Signal(nil, wwr.Payload{Data: make([]byte, n)})
	case 'c':
		m.createErr = con.CreateSession(
			wwr.GenericSessionInfoParser(map[string]interface{}{"own": "generic"}))
		m.key = con.SessionKey()
	case 'i':
		m.parsed = con.SessionInfo("own")
	}
	return wwr.Payload{Data: []byte("ok")}, nil
}

const wait = 10 * time.Second

// ask sends a request and returns the type of its reply
func ask(s *fake.Socket, typ byte, rest []byte) int {
	const id = "01234567"
	n := len(s.Sent())
	s.Send(append(append([]byte{typ}, id...), rest...))
	for ; ; n++ {
		m := s.Await(n, wait)
		if m == nil {
			return -1
		}
		if len(m) >= 9 && string(m[1:9]) == id {
			return int(m[0])
		}
	}
}

func replyName(t int) string {
	switch byte(t) {
	case message.MsgReplyBinary, message.MsgReplyUtf8:
		return "rep"
	case message.MsgReplyMaxSessConnsReached:
		return "max"
	case message.MsgReplySessionNotFound:
		return "none"
	case message.MsgReplySessionsDisabled:
		return "disabled"
	}
	return "other"
}

var defaultKey = regexp.MustCompile(`^[A-Za-z0-9_-]{64}$`)

func run(sc *scenario) []obj {
	o := sc.O
	dir, err := ioutil.TempDir(os.Getenv("WWV_SCRATCH"), "config")
	must(err)
	defer os.RemoveAll(dir)
	os.Args[0] = filepath.Join(dir, "prog")
	must(os.Chdir(dir))

	ns, err := strconv.ParseInt(o.RT, 10, 64)
	must(err)
	buf, err := strconv.ParseUint(o.Buf, 10, 32)
	must(err)
	sub := []byte(nil)
	for _, x := range o.Sub {
		sub = append(sub, byte(x))
	}
	mgr := &manager{s: map[string]*wwr.Session{}}
	gen := &generator{}
	m := &impl{}
	tr := fake.NewTransport()
	if o.TrErr {
		tr.Err = errors.New("transport failed")
	}
	opts := wwr.ServerOptions{
		Sessions:              wwr.OptionValue(o.Ses),
		MaxSessionConnections: uint(o.Max),
		ReadTimeout:           time.Duration(ns),
		MessageBufferSize:     uint32(buf),
		SubProtocolName:       sub,
	}
	if o.Mgr {
		opts.SessionManager = mgr
	}
	if o.Gen {
		opts.SessionKeyGenerator = gen
	}
	if o.Par {
		opts.SessionInfoParser = func(map[string]interface{}) wwr.SessionInfo { return info{} }
	}
	if o.Log {
		l := log.New(ioutil.Discard, "", 0)
		opts.WarnLog, opts.ErrorLog = l, l
	}
	var im wwr.ServerImplementation
	if o.Impl {
		im = m
	}
	var tp wwr.Transport
	if o.Tr {
		tp = tr
	}
	ev := obj{"e": "new", "impl": o.Impl, "tr": o.Tr, "trerr": o.TrErr, "ses": o.Ses,
		"mgr": o.Mgr, "gen": o.Gen, "par": o.Par, "max": o.Max,
		"rt": rt(opts.ReadTimeout), "buf": limbs(buf, 2), "sub": toInts(sub)}
	evs := []obj{ev}
	done := func() (res bool) {
		defer func() {
			if r := recover(); r != nil {
				ev["out"] = "panic"
			}
		}()
		srv, err := wwr.NewServer(im, opts, tp)
		ev["out"] = "err"
		if err == nil && srv != nil {
			ev["out"] = "ok"
		} else if err == nil {
			ev["out"] = "nil"
		}
		return ev["out"] == "ok"
	}()
	if !done {
		return evs
	}
	e := tr.Opts
	ev["eff"] = obj{"ses": e.Sessions == wwr.Enabled, "rt": rt(e.ReadTimeout),
		"buf": limbs(uint64(e.MessageBufferSize), 2), "sub": toInts(e.SubProtocolName),
		"max": int(e.MaxSessionConnections),
		"mgr": e.SessionManager != nil, "gen": e.SessionKeyGenerator != nil,
		"par": e.SessionInfoParser != nil, "logs": e.WarnLog != nil && e.ErrorLog != nil,
		"inits": tr.Inits}
	eff, size := e.ReadTimeout, int(e.MessageBufferSize)
	// The announcement must not depend on what becomes of the given slice
	for i := range sub {
		sub[i] ^= 0x55
	}

	big := size > 1<<17
	connect := func() *fake.Socket {
		start := time.Now()
		s := fake.NewSocket()
		s.Fail = big
		tr.Attach(wwr.ConnectionOptions{ConcurrencyLimit: -1}, s)
		c := s.Await(0, wait)
		x := obj{"e": "conn", "b": toInts(c), "dl": true, "cap": limbs(uint64(size), 2)}
		if big {
			<-s.Done
		} else {
			// Its first read
			s.AwaitRead(wait)
			if len(s.Reads) < 1 {
				x["dl"] = false
			} else {
				r := s.Reads[0]
				x["cap"] = limbs(uint64(r.Buf), 2)
				// what's effective may be the given or the announced timeout
				lo := eff / time.Millisecond * time.Millisecond
				x["dl"] = !r.Deadline.Before(start.Add(lo)) && !r.Deadline.After(r.At.Add(eff))
			}
		}
		p := message.NewMessage(uint32(len(c) + 16))
		ok, err := p.ReadBytes(c)
		x["pok"] = ok && err == nil
		if ok && err == nil {
			y := p.ServerConfiguration
			x["p"] = obj{"maj": int(y.MajorProtocolVersion), "min": int(y.MinorProtocolVersion),
				"rt":  rt(y.ReadTimeout),
				"buf": limbs(uint64(y.MessageBufferSize), 2), "sub": toInts(y.SubProtocolName)}
		}
		evs = append(evs, x)
		return s
	}
	over := func(s *fake.Socket) {
		s.Close()
		<-s.Done
	}
	c := connect()
	if big {
		over(connect())
		return evs
	}
	// The size of incoming messages
	for _, d := range []int{-1, 0, 1, 2, 37} {
		s := connect()
		m.handled = 0
		n := size + d
		t := ask(s, message.MsgRequestBinary, append([]byte{0}, make([]byte, n-10)...))
		res := "closed"
		if t >= 0 {
			res = replyName(t)
		} else if s.IsConnected() {
			res = "nothing"
		}
		over(s)
		evs = append(evs, obj{"e": "req", "n": limbs(uint64(n), 2), "res": res, "handled": m.handled})
	}
	// The size of signals
	for _, d := range []int{-1, 0, 1, 2, 50} {
		n := size + d
		sent := len(c.Sent())
		t := ask(c, message.MsgRequestBinary, append([]byte{0, 's'}, strconv.Itoa(n-2)...))
		if replyName(t) != "rep" {
			evs = append(evs, obj{"e": "fail"})
			return evs
		}
		res := "ok"
		if m.sigErr != nil {
			res = "err"
		}
		out := 0
		for _, b := range c.Sent()[sent:] {
			if len(b) > 0 && b[0] == message.MsgSignalBinary {
				out = len(b)
			}
		}
		evs = append(evs, obj{"e": "sig", "n": limbs(uint64(n), 2), "res": res,
			"out": limbs(uint64(out), 2)})
	}
	if size < 1024 {
		over(c)
		return evs
	}
	// Sessions
	evs = append(evs, obj{"e": "restore", "known": false,
		"res": replyName(ask(c, message.MsgRequestRestoreSession, []byte("nope")))})
	ask(c, message.MsgRequestBinary, []byte{0, 'c'})
	x := obj{"e": "create", "ok": m.createErr == nil, "mgr": mgr.created > 0, "gen": gen.n > 0,
		"key": defaultKey.MatchString(m.key)}
	fs, _ := filepath.Glob(filepath.Join(dir, "wwrsess", "*.wwrsess"))
	x["file"] = len(fs) > 0
	evs = append(evs, x)
	if m.createErr == nil {
		cs := []*fake.Socket{}
		for i := 0; i < 4; i++ {
			s := connect()
			cs = append(cs, s)
			r := replyName(ask(s, message.MsgRequestRestoreSession, []byte(m.key)))
			evs = append(evs, obj{"e": "restore", "known": true, "res": r})
			if r == "rep" {
				m.parsed = nil
				ask(s, message.MsgRequestBinary, []byte{0, 'i'})
				evs = append(evs, obj{"e": "info", "par": m.parsed == "own",
					"def": m.parsed == "generic"})
			}
		}
		for _, s := range cs {
			over(s)
		}
	}
	over(c)
	return evs
}

func main() {
	stdout := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(stdout)
	emit := func(kind string, v any) {
		b, err := json.Marshal(v)
		must(err)
		fmt.Fprintf(out, "%s %s\n", kind, b)
		out.Flush()
	}
	var deadline time.Time
	if ms, err := strconv.ParseInt(os.Getenv("WWV_DEADLINE"), 10, 64); err == nil {
		deadline = time.UnixMilli(ms)
	}
	for deadline.IsZero() || time.Now().Before(deadline) {
		line, err := in.ReadBytes('\n')
		if len(line) < 1 && err != nil {
			break
		}
		sc := &scenario{}
		must(json.Unmarshal(line, sc))
		emit("HEAD", obj{"id": sc.ID, "head": obj{}})
		emit("RUN", obj{"id": sc.ID, "sched": 0})
		emit("TRACE", obj{"id": sc.ID, "sched": 0, "ev": run(sc)})
		emit("DONE", obj{"id": sc.ID, "runs": 1})
	}
}
