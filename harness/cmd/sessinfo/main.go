// sessinfo works with session infos, sessions and field values of the library,
// modifies what it can get hold of, and tells how all of it looks afterwards
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"wwrverif/fake"
)

type obj = map[string]any
type named string
type namedMap map[string]interface{}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var types = map[string]reflect.Type{}

func init() {
	for _, x := range []interface{}{
		"", 0, int8(0), int32(0), int64(0), uint8(0), uint64(0), 0.5, float32(0), false,
		complex(1, 1), time.Second, named(""),
		map[string]interface{}{}, map[string]string{}, map[string]int{},
		map[int]interface{}{}, map[interface{}]interface{}{}, map[string][]string{},
		map[string]map[string]int{}, map[bool]string{}, namedMap{}, map[int][][]int{},
		[]interface{}{}, []string{}, []int{}, [][]int{}, []uint8{}, []float64{},
		[]map[string]interface{}{}, []map[string]int{}, [][]interface{}{},
	} {
		types[reflect.TypeOf(x).String()] = reflect.TypeOf(x)
	}
}

// node is the description of a value
type node struct {
	K   string          `json:"k"`
	T   string          `json:"t"`
	S   string          `json:"s"`
	Nil bool            `json:"nil"`
	E   json.RawMessage `json:"e"`
}

func scalar(t reflect.Type, s string) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Bool:
		v.SetBool(s == "true")
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(s, 64)
		must(err)
		v.SetFloat(f)
	case reflect.Complex128:
		f, err := strconv.ParseFloat(s, 64)
		must(err)
		v.SetComplex(complex(f, -f))
	case reflect.Uint8, reflect.Uint64:
		n, err := strconv.ParseUint(s, 10, 64)
		must(err)
		v.SetUint(n)
	default:
		n, err := strconv.ParseInt(s, 10, 64)
		must(err)
		v.SetInt(n)
	}
	return v
}

func repr(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Complex128:
		return strconv.FormatFloat(real(v.Complex()), 'g', -1, 64)
	case reflect.Uint8, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Int, reflect.Int8, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	}
	return "?" + v.Kind().String()
}

// Keys of maps are strings, or "type:value" if they aren't strings in the map
func keyOf(t reflect.Type, s string) reflect.Value {
	if t.Kind() == reflect.String {
		return scalar(t, s)
	}
	i := strings.IndexByte(s, ':')
	if s[:i] == "nil" {
		return reflect.Zero(t)
	}
	return scalar(types[s[:i]], s[i+1:])
}

func keyName(k reflect.Value) string {
	if k.Kind() == reflect.String {
		return k.String()
	}
	if k.Kind() == reflect.Interface {
		if k.IsNil() {
			return "nil:"
		}
		k = k.Elem()
	}
	return k.Type().String() + ":" + repr(k)
}

// make a value of the description, assignable to type t
func build(raw json.RawMessage) reflect.Value {
	var n node
	must(json.Unmarshal(raw, &n))
	if n.K == "n" {
		return reflect.Value{}
	}
	t := types[n.T]
	if t == nil {
		panic("unknown type " + n.T)
	}
	set := func(raw json.RawMessage, f func(reflect.Value)) {
		v := build(raw)
		if !v.IsValid() {
			v = reflect.Zero(t.Elem())
		}
		f(v)
	}
	switch n.K {
	case "s":
		return scalar(t, n.S)
	case "m":
		if n.Nil {
			return reflect.Zero(t)
		}
		v := reflect.MakeMap(t)
		es := map[string]json.RawMessage{}
		if !bytes.HasPrefix(n.E, []byte("[")) {
			must(json.Unmarshal(n.E, &es))
		}
		for k, e := range es {
			set(e, func(x reflect.Value) { v.SetMapIndex(keyOf(t.Key(), k), x) })
		}
		return v
	case "l":
		if n.Nil {
			return reflect.Zero(t)
		}
		es := []json.RawMessage{}
		must(json.Unmarshal(n.E, &es))
		// with some capacity left
		v := reflect.MakeSlice(t, 0, len(es)+len(es)%3)
		for _, e := range es {
			set(e, func(x reflect.Value) { v = reflect.Append(v, x) })
		}
		return v
	}
	panic("unknown kind " + n.K)
}

func describe(v reflect.Value) obj {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		return obj{"k": "n"}
	}
	t := v.Type().String()
	switch v.Kind() {
	case reflect.Map:
		e := obj{}
		for _, k := range v.MapKeys() {
			e[keyName(k)] = describe(v.MapIndex(k))
		}
		return obj{"k": "m", "t": t, "nil": v.IsNil(), "e": e}
	case reflect.Slice:
		e := make([]obj, v.Len())
		for i := range e {
			e[i] = describe(v.Index(i))
		}
		return obj{"k": "l", "t": t, "nil": v.IsNil(), "e": e}
	}
	return obj{"k": "s", "t": t, "s": repr(v)}
}

func describeInfo(i wwr.SessionInfo) obj {
	if i == nil {
		return obj{"k": "noinfo"}
	}
	if v := reflect.ValueOf(i); v.Kind() == reflect.Ptr && v.IsNil() {
		return obj{"k": "nilinfo"}
	}
	e := obj{}
	fs := i.Fields()
	if fs == nil {
		return obj{"k": "nilfields"}
	}
	for _, f := range fs {
		if e[f] != nil {
			return obj{"k": "duplicate field", "f": f}
		}
		e[f] = describe(reflect.ValueOf(i.Value(f)))
	}
	return obj{"k": "info", "e": e}
}

func stamp(t time.Time) string {
	return t.Location().String() + "/" + strconv.FormatInt(t.UnixNano(), 10)
}

func describeSess(s *wwr.Session) obj {
	if s == nil {
		return obj{"k": "nosess"}
	}
	return obj{"k": "sess", "key": s.Key, "c": stamp(s.Creation), "l": stamp(s.LastLookup),
		"info": describeInfo(s.Info)}
}

type handle struct {
	v    reflect.Value // raw and val
	info wwr.SessionInfo
	sess *wwr.Session
	con  wwr.Connection
	sock *fake.Socket
	kind string
}

func describeCon(c wwr.Connection) obj {
	s := c.Session()
	d := describeSess(s)
	// The other accessors must agree
	odd := func(what string) obj { return obj{"k": "con", "s": obj{"k": "mismatch", "what": what}} }
	if c.HasSession() != (s != nil) {
		return odd("HasSession")
	}
	key, created := "", time.Time{}
	if s != nil {
		key, created = s.Key, s.Creation
	}
	if c.SessionKey() != key {
		return odd("SessionKey")
	}
	if c.SessionCreation() != created {
		return odd("SessionCreation")
	}
	if c.SessionInfo("absent") != nil {
		return odd("SessionInfo of an absent field")
	}
	if s != nil && s.Info != nil {
		for _, f := range s.Info.Fields() {
			if !reflect.DeepEqual(describe(reflect.ValueOf(c.SessionInfo(f))),
				describe(reflect.ValueOf(s.Info.Value(f)))) {
				return odd("SessionInfo")
			}
		}
	}
	return obj{"k": "con", "s": d}
}

func (h *handle) describe() obj {
	switch h.kind {
	case "info":
		return describeInfo(h.info)
	case "sess":
		return describeSess(h.sess)
	case "con":
		return describeCon(h.con)
	}
	return describe(h.v)
}

// server

type program struct {
	cons    chan wwr.Connection
	tr      *fake.Transport
	lookup  wwr.SessionLookupResult
	keys    int
	handles []*handle
	last    []string
	n       int
}

func (p *program) OnClientConnected(_ wwr.ConnectionOptions, c wwr.Connection) { p.cons <- c }
func (p *program) OnClientDisconnected(wwr.Connection, error)                  {}
func (p *program) OnSignal(context.Context, wwr.Connection, wwr.Message)       {}
func (p *program) OnRequest(
	context.Context, wwr.Connection, wwr.Message,
) (wwr.Payload, error) {
	return wwr.Payload{}, nil
}
func (p *program) OnSessionCreated(wwr.Connection) error { return nil }
func (p *program) OnSessionClosed(string) error          { return nil }
func (p *program) OnSessionLookup(string) (wwr.SessionLookupResult, error) {
	return p.lookup, nil
}
func (p *program) Generate() string { p.keys++; return fmt.Sprint("key", p.keys) }

func (p *program) connect() *handle {
	if p.tr == nil {
		p.tr = fake.NewTransport()
		l := log.New(ioutil.Discard, "", 0)
		_, err := wwr.NewServer(p, wwr.ServerOptions{SessionManager: p, SessionKeyGenerator: p,
			MessageBufferSize: 1 << 16, WarnLog: l, ErrorLog: l}, p.tr)
		must(err)
	}
	s := fake.NewSocket()
	p.tr.Attach(wwr.ConnectionOptions{}, s)
	return &handle{kind: "con", con: <-p.cons, sock: s}
}

// operations

type step struct {
	S string `json:"s"`
	I int    `json:"i"`
}

type mod struct {
	O string          `json:"o"`
	S string          `json:"s"`
	I int             `json:"i"`
	V json.RawMessage `json:"v"`
	P []step          `json:"p"`
}

type operation struct {
	E string          `json:"e"`
	H int             `json:"h"`
	G int             `json:"g"`
	F string          `json:"f"`
	S string          `json:"s"`
	V json.RawMessage `json:"v"`
	M *mod            `json:"m"`
}

func elem(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	return v
}

// modify changes what's at the path. put replaces the container in its parent
func modify(v reflect.Value, p []step, m *mod, put func(reflect.Value)) {
	v = elem(v)
	if len(p) > 0 {
		if p[0].I > 0 {
			x := v.Index(p[0].I - 1)
			modify(x, p[1:], m, x.Set)
			return
		}
		k := keyOf(v.Type().Key(), p[0].S)
		modify(v.MapIndex(k), p[1:], m, func(x reflect.Value) { v.SetMapIndex(k, x) })
		return
	}
	x := reflect.Zero(v.Type().Elem())
	if m.O == "set" || m.O == "app" {
		if y := build(m.V); y.IsValid() {
			x = y
		}
	}
	switch {
	case m.O == "set" && m.I > 0:
		v.Index(m.I - 1).Set(x)
	case m.O == "set":
		v.SetMapIndex(keyOf(v.Type().Key(), m.S), x)
	case m.O == "del":
		v.SetMapIndex(keyOf(v.Type().Key(), m.S), reflect.Value{})
	case m.O == "app":
		put(reflect.Append(v, x))
	case m.O == "cut":
		put(v.Slice(0, m.I))
	}
}

// do carries out the operation, returning the new handle, if there's one
func (p *program) do(o *operation, ev obj) *handle {
	var h, g *handle
	if o.H > 0 {
		h = p.handles[o.H-1]
	}
	if o.G > 0 {
		g = p.handles[o.G-1]
	}
	p.n++
	now := func() time.Time {
		p.n++
		t := time.Unix(1500000000, 0).Add(time.Duration(p.n) * 1234567891)
		if p.n%2 > 0 {
			return t.UTC()
		}
		return t.In(time.FixedZone("zone", 7200))
	}
	raw := func(h *handle) map[string]interface{} {
		return h.v.Interface().(map[string]interface{})
	}
	switch o.E {
	case "raw":
		return &handle{kind: "raw", v: build(o.V)}
	case "noinfo":
		return &handle{kind: "info"}
	case "zero":
		return &handle{kind: "info", info: &wwr.GenericSessionInfo{}}
	case "parse":
		return &handle{kind: "info", info: wwr.GenericSessionInfoParser(raw(h))}
	case "copy":
		return &handle{kind: "info", info: h.info.Copy()}
	case "varmap":
		return &handle{kind: "raw", v: reflect.ValueOf(wwr.SessionInfoToVarMap(h.info))}
	case "value":
		var v interface{}
		if h.kind == "con" {
			v = h.con.SessionInfo(o.F)
		} else {
			v = h.info.Value(o.F)
		}
		return &handle{kind: "val", v: reflect.ValueOf(v)}
	case "nosess":
		return &handle{kind: "sess"}
	case "sess":
		return &handle{kind: "sess", sess: &wwr.Session{
			Key: o.F, Creation: now(), LastLookup: now(), Info: h.info}}
	case "newsess":
		s := wwr.NewSession(h.info, func() string { return o.F })
		return &handle{kind: "sess", sess: &s}
	case "clone":
		return &handle{kind: "sess", sess: h.sess.Clone()}
	case "infoof":
		return &handle{kind: "info", info: h.sess.Info}
	case "con":
		return p.connect()
	case "create":
		err := h.con.CreateSession(g.info)
		ev["ok"] = err == nil
	case "close":
		ev["ok"] = h.con.CloseSession() == nil
	case "restore":
		c := p.connect()
		p.lookup = wwr.NewSessionLookupResult(now(), now(), raw(h))
		n := len(c.sock.Sent())
		c.sock.Send(append([]byte{message.MsgRequestRestoreSession, 1, 2, 3, 4, 5, 6, 7, 8},
			o.F...))
		for {
			m := c.sock.Await(n, 20*time.Second)
			n++
			if len(m) < 9 || m[1] != 1 || m[8] != 8 {
				if m != nil {
					continue
				}
			}
			ev["ok"] = len(m) > 0 && m[0] == message.MsgReplyUtf8
			break
		}
		return c
	case "session":
		return &handle{kind: "sess", sess: h.con.Session()}
	case "field":
		switch o.F {
		case "key":
			h.sess.Key = o.S
		case "info":
			h.sess.Info = nil
		case "time":
			h.sess.Creation, h.sess.LastLookup = now(), now()
		}
	case "mod":
		modify(h.v, o.M.P, o.M, func(x reflect.Value) { h.v = x })
	default:
		panic("unknown operation " + o.E)
	}
	return nil
}

func (p *program) changes() []obj {
	res := []obj{}
	for i, h := range p.handles {
		d := h.describe()
		b, err := json.Marshal(d)
		must(err)
		if i >= len(p.last) {
			p.last = append(p.last, "")
		}
		if p.last[i] != string(b) {
			p.last[i] = string(b)
			res = append(res, obj{"h": i + 1, "v": d})
		}
	}
	return res
}

func run(ops []json.RawMessage) (evs []obj) {
	p := &program{cons: make(chan wwr.Connection, 1)}
	defer func() {
		for _, h := range p.handles {
			if h.sock != nil {
				h.sock.Close()
				<-h.sock.Done
			}
		}
	}()
	for _, raw := range ops {
		ev := obj{}
		must(json.Unmarshal(raw, &ev))
		o := &operation{}
		must(json.Unmarshal(raw, o))
		evs = append(evs, ev)
		ok := func() bool {
			defer func() {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					if i := strings.Index(st, "panic("); i > 0 {
						st = st[i:]
					}
					// A panic of the driver itself: the operation isn't applicable,
					// things aren't as the scenario expects
					fr := []string{}
					for _, l := range strings.Split(st, "\n") {
						if strings.HasPrefix(l, "main.") || strings.Contains(l, "webwire-go.") {
							fr = append(fr, l)
						}
					}
					if len(fr) < 1 || strings.HasPrefix(fr[0], "main.") {
						evs = evs[:len(evs)-1]
						return
					}
					ev["e"], ev["of"], ev["why"] = "panic", o.E, fmt.Sprint(r)
					ev["at"] = fr[0]
				}
			}()
			if h := p.do(o, ev); h != nil {
				p.handles = append(p.handles, h)
			}
			ev["chg"] = p.changes()
			return true
		}()
		if !ok {
			break
		}
	}
	return evs
}

func main() {
	stdout := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(stdout)
	emit := func(kind string, v any) {
		b, err := json.Marshal(v)
		must(err)
		fmt.Fprintf(out, "%s %s\n", kind, b)
		out.Flush()
	}
	var deadline time.Time
	if ms, err := strconv.ParseInt(os.Getenv("WWV_DEADLINE"), 10, 64); err == nil {
		deadline = time.UnixMilli(ms)
	}
	for deadline.IsZero() || time.Now().Before(deadline) {
		line, err := in.ReadBytes('\n')
		if len(line) < 1 && err != nil {
			break
		}
		var sc struct {
			ID    string            `json:"id"`
			Steps []json.RawMessage `json:"steps"`
		}
		must(json.Unmarshal(line, &sc))
		emit("HEAD", obj{"id": sc.ID, "head": obj{}})
		emit("RUN", obj{"id": sc.ID, "sched": 0})
		emit("TRACE", obj{"id": sc.ID, "sched": 0, "ev": run(sc.Steps)})
		emit("DONE", obj{"id": sc.ID, "runs": 1})
	}
}
