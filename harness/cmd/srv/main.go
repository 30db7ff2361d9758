// srv replays environment behaviours against the real server and records what
// the server does
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"wwrverif/quiet"
	"wwrverif/vy"
)

type ev = map[string]any

const maxEvents = 1500

type driver struct {
	mu     sync.Mutex
	sc     *Scenario
	events []json.RawMessage
	over   bool
	srv    wwr.Server
	tr     *ftrans
	socks  []*fsock
	conns  []wwr.Connection
	gates  map[string]chan struct{}
	inside map[string]int // goroutines waiting at closed gates
	opened map[string]bool

	genN     int
	store    map[string]bool
	sessInfo map[string][]sessRec
	started  map[int]bool
	hcmd     map[int]chan func()
	running  map[int]bool
	last     string
}

type sessRec struct {
	creation time.Time
	last     time.Time
	info     string
}

var base = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

func (d *driver) recl(name string, f ev) {
	if d.over {
		return
	}
	if len(d.events) >= maxEvents {
		d.over = true
		d.events = append(d.events, json.RawMessage(`{"e":"overflow"}`))
		return
	}
	if f == nil {
		f = ev{}
	}
	f["e"] = name
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	d.events = append(d.events, b)
}

func (d *driver) rec(name string, f ev) {
	d.mu.Lock()
	d.recl(name, f)
	d.mu.Unlock()
}

// gate blocks the calling goroutine while the gate is closed
func (d *driver) gate(name string) {
	d.mu.Lock()
	ch, closed := d.gates[name]
	if !closed {
		d.mu.Unlock()
		return
	}
	d.inside[name]++
	d.mu.Unlock()
	<-ch
	d.mu.Lock()
	d.inside[name]--
	d.mu.Unlock()
}

func (d *driver) open(name string) {
	d.mu.Lock()
	if ch, ok := d.gates[name]; ok {
		close(ch)
		delete(d.gates, name)
	}
	d.opened[name] = true
	d.mu.Unlock()
}

// find returns the message of the connection with the given identifier. It
// prefers messages that are accepted by the filter
func (d *driver) byID(c int, id string) int {
	best := 0
	for i := range d.sc.Msgs {
		m := &d.sc.Msgs[i]
		if m.C == c && m.ID == id && m.ID != "" &&
			(m.K == "req" || m.K == "restore" || m.K == "close") {
			best = i + 1
		}
	}
	return best
}

// sent records a message sent by the server
func (d *driver) sent(c int, b []byte) {
	f := decode(b)
	f["c"] = c
	if id, ok := f["id"]; ok {
		f["m"] = d.byID(c, id.(string))
		delete(f, "id")
	}
	switch f["t"] {
	case "created":
		var s wwr.JSONEncodedSession
		raw := f["raw"].(string)
		delete(f, "raw")
		if err := json.Unmarshal([]byte(raw), &s); err != nil {
			f["k"], f["i"], f["ok"] = "?", "?", false
			break
		}
		f["k"] = s.Key
		f["i"] = "null"
		if s.Info != nil {
			f["i"] = canon(s.Info)
		}
		f["ok"] = time.Since(s.Creation) < time.Minute &&
			!s.Creation.After(time.Now()) && !s.LastLookup.IsZero()
		d.sessInfo[s.Key] = append(d.sessInfo[s.Key], sessRec{
			s.Creation, s.LastLookup, f["i"].(string),
		})
	case "reply":
		raw := f["raw"].([]byte)
		delete(f, "raw")
		m := f["m"].(int)
		if m > 0 && d.sc.Msgs[m-1].K == "restore" {
			var s wwr.JSONEncodedSession
			if json.Unmarshal(raw, &s) == nil && s.Key != "" {
				res := lookupResult(s.Key, d.sc.Lookup[s.Key])
				if s.Creation.Equal(res.Creation()) &&
					s.LastLookup.Equal(res.LastLookup()) &&
					canon(s.Info) == canon(res.Info()) {
					f["p"] = "sess:" + s.Key
				}
			}
		}
	}
	d.recl("send", f)
}

func lookupResult(key, mode string) wwr.SessionLookupResult {
	n := 0
	for _, c := range key {
		n = n*31 + int(c)
	}
	info := map[string]any{
		"key": "info of " + key, "n": float64(n % 1000),
		"l": []any{"x", map[string]any{"y": float64(1)}},
	}
	if mode == "noinfo" {
		info = nil
	}
	if mode == "bad" {
		info["bad"] = make(chan int)
	}
	if mode == "big" {
		info["big"] = strings.Repeat("x", 70000)
	}
	return &lookedUp{
		base.Add(time.Duration(n%1000) * time.Hour),
		base.Add(time.Duration(n%1000+1) * time.Hour), info,
	}
}

// lookedUp implements the SessionLookupResult interface
type lookedUp struct {
	creation, last time.Time
	info           map[string]any
}

func (l *lookedUp) Creation() time.Time   { return l.creation }
func (l *lookedUp) LastLookup() time.Time { return l.last }
func (l *lookedUp) Info() map[string]any  { return l.info }

func opInfo(n int) wwr.SessionInfo {
	switch n {
	case 1:
		return wwr.GenericSessionInfoParser(map[string]interface{}{
			"a": "x1",
		})
	case 2:
		return wwr.GenericSessionInfoParser(map[string]interface{}{
			"a": "x2", "n": float64(42), "b": true,
			"l": []interface{}{"p", float64(7)},
			"m": map[string]interface{}{"deep": "z"},
		})
	case 3:
		return wwr.GenericSessionInfoParser(map[string]interface{}{})
	case 4:
		return badInfo{}
	}
	return nil
}

// badInfo is a session info that can't be encoded
type badInfo struct{}

func (badInfo) Fields() []string        { return []string{"ok", "bad"} }
func (b badInfo) Copy() wwr.SessionInfo { return b }
func (badInfo) Value(f string) interface{} {
	if f == "ok" {
		return "fine"
	}
	return func() {}
}

func infoLabel(i wwr.SessionInfo) string {
	if i == nil {
		return "null"
	}
	m := map[string]any{}
	for _, f := range i.Fields() {
		m[f] = i.Value(f)
	}
	// An empty info is omitted on the wire
	if len(m) < 1 {
		return "null"
	}
	return canon(m)
}

// ---- user code ----

func conIndex(con wwr.Connection) int {
	if con == nil || reflect.ValueOf(con).IsNil() {
		return 0
	}
	c, _ := con.Info(1).(int)
	return c
}

func (d *driver) OnClientConnected(o wwr.ConnectionOptions, con wwr.Connection) {
	c := conIndex(con)
	oc, _ := o.Info[1].(int)
	ra := con.RemoteAddr()
	ok := oc == c && ra != nil && ra.String() == faddr(c).String() &&
		con.Info(2) == nil && !con.Creation().IsZero() && con.IsActive() &&
		!con.HasSession() && con.Session() == nil && con.SessionKey() == ""
	d.mu.Lock()
	if c > 0 {
		d.conns[c-1] = con
	}
	d.recl("onconn", ev{"c": c, "ok": ok})
	d.mu.Unlock()
	d.gate(fmt.Sprintf("oc:%d", c))
	d.rec("onconnret", ev{"c": c})
}

func (d *driver) OnClientDisconnected(con wwr.Connection, reason error) {
	c := conIndex(con)
	why := ""
	if reason != nil {
		why = reason.Error()
	}
	ok := strings.HasPrefix(why, fmt.Sprintf("sock%d ", c))
	act := con.IsActive()
	d.rec("disc", ev{"c": c, "ok": ok, "act": act})
	d.gate(fmt.Sprintf("od:%d", c))
	d.rec("discret", ev{"c": c})
}

type content struct {
	Id string `json:"id"`
	N  string `json:"n"`
	En string `json:"enc"`
	P  string `json:"p"`
}

func (c content) fields(f ev) ev {
	f["id"], f["n"], f["enc"], f["p"] = c.Id, c.N, c.En, c.P
	return f
}

func readContent(m wwr.Message) (c content) {
	defer func() {
		if r := recover(); r != nil {
			c = content{"!", "!", "!", fmt.Sprint(r)}
		}
	}()
	id := m.Identifier()
	c.Id = strings.TrimRight(string(id[:]), "\x00")
	c.N = string(m.Name())
	c.En = "?"
	if e := int(m.PayloadEncoding()); e >= 0 && e < 3 {
		c.En = encNames[e]
	}
	c.P = lab(m.Payload())
	return c
}

// match finds the message a handler was called with
func (d *driver) match(kind string, c int, got content) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	best, bestScore := 0, 0
	for i := range d.sc.Msgs {
		m := &d.sc.Msgs[i]
		if m.K != kind {
			continue
		}
		score := 0
		if m.C == c {
			score += 4
		}
		if kind == "req" && m.ID == got.Id {
			score += 4
		}
		if m.N == got.N {
			score += 2
		}
		if lab(m.payload()) == got.P {
			score += 3
		}
		if m.Enc == got.En {
			score++
		}
		if d.started[i+1] {
			score -= 2
		}
		if score > bestScore {
			best, bestScore = i+1, score
		}
	}
	if best > 0 {
		d.started[best] = true
	}
	return best
}

func (d *driver) handler(kind string, con wwr.Connection, msg wwr.Message) int {
	c := conIndex(con)
	got := readContent(msg)
	m := d.match(kind, c, got)
	d.mu.Lock()
	d.recl("hstart", got.fields(ev{"c": c, "m": m, "k": kind}))
	d.running[m] = true
	auto := m == 0 || d.sc.Msgs[m-1].Auto || d.opened[fmt.Sprintf("h:%d", m)]
	ch := d.hcmd[m]
	d.mu.Unlock()
	if !auto {
		for f := range ch {
			f()
		}
	}
	got = readContent(msg)
	d.mu.Lock()
	d.running[m] = false
	d.recl("hend", got.fields(ev{"c": c, "m": m}))
	d.mu.Unlock()
	return m
}

func (d *driver) OnSignal(_ context.Context, con wwr.Connection, msg wwr.Message) {
	d.handler("sig", con, msg)
}

func pad(s string, n int) string {
	for len(s) < n {
		s += string(rune('a' + len(s)%26))
	}
	return s
}

func (d *driver) OnRequest(
	_ context.Context, con wwr.Connection, msg wwr.Message,
) (wwr.Payload, error) {
	m := d.handler("req", con, msg)
	if m == 0 {
		return wwr.Payload{}, nil
	}
	o := &d.sc.Msgs[m-1].Out
	switch o.K {
	case "err":
		return wwr.Payload{}, wwr.ErrRequest{
			Code: pad(o.Code, o.CLen), Message: pad(o.M, o.MLen),
		}
	case "perr":
		return wwr.Payload{}, &wwr.ErrRequest{
			Code: pad(o.Code, o.CLen), Message: pad(o.M, o.MLen),
		}
	case "wrap":
		return wwr.Payload{}, fmt.Errorf("secret: %w", wwr.ErrRequest{
			Code: pad(o.Code, o.CLen), Message: pad(o.M, o.MLen),
		})
	case "wrapspec":
		return wwr.Payload{}, fmt.Errorf("secret: %w", wwr.ErrServerShutdown{})
	case "nilperr":
		var e *wwr.ErrRequest
		return wwr.Payload{}, e
	case "other":
		return wwr.Payload{Data: []byte("leak")}, errors.New("secret " + o.M)
	case "special":
		switch o.M {
		case "notfound":
			return wwr.Payload{}, wwr.ErrSessionNotFound{}
		case "max":
			return wwr.Payload{}, wwr.ErrMaxSessConnsReached{}
		case "disabled":
			return wwr.Payload{}, wwr.ErrSessionsDisabled{}
		case "shutdown":
			return wwr.Payload{}, wwr.ErrServerShutdown{}
		}
		return wwr.Payload{}, wwr.ErrInternal{}
	}
	return wwr.Payload{
		Encoding: wwr.PayloadEncoding(encIdx(o.Enc)),
		Data:     payloadBytes(o.Enc, o.P, o.PLen),
	}, nil
}

// Generate implements the session key generator
func (d *driver) Generate() string {
	d.mu.Lock()
	key := fmt.Sprintf("auto%d", d.genN)
	if d.genN < len(d.sc.Gens) {
		key = d.sc.Gens[d.genN]
	}
	d.genN++
	d.recl("gen", ev{"k": key})
	d.mu.Unlock()
	d.gate("gen")
	d.rec("genret", ev{"k": key})
	if key == "!" {
		panic("scripted generator panic")
	}
	return key
}

func (d *driver) OnSessionCreated(con wwr.Connection) error {
	c := conIndex(con)
	s := con.Session()
	k := ""
	ok := true
	if s != nil {
		k = s.Key
		ok = d.sessionOK(s)
	}
	d.mu.Lock()
	if s != nil {
		d.store[k] = true
	}
	d.recl("oncreated", ev{"c": c, "k": k, "ok": ok})
	d.mu.Unlock()
	d.gate(fmt.Sprintf("cr:%d", c))
	d.rec("oncreatedret", ev{"c": c, "k": k})
	if d.sc.OnCreat == "err" {
		return errors.New("scripted OnSessionCreated error")
	}
	return nil
}

func (d *driver) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	d.rec("lookup", ev{"k": key})
	d.gate("lk:" + key)
	d.mu.Lock()
	mode := d.sc.Lookup[key]
	res := "found"
	if mode == "err" {
		res = "err"
	} else if mode == "nil" || !d.store[key] {
		res = "nil"
	} else if mode == "bad" || mode == "big" {
		res = mode
	}
	var r wwr.SessionLookupResult
	var err error
	switch res {
	case "err":
		err = errors.New("scripted lookup error")
	case "nil":
	default:
		r = lookupResult(key, mode)
		if res == "found" {
			i := "null"
			if mode != "noinfo" {
				i = canon(r.Info())
			}
			d.sessInfo[key] = append(d.sessInfo[key], sessRec{
				r.Creation(), r.LastLookup(), i,
			})
		}
	}
	d.recl("lookupret", ev{"k": key, "r": res})
	d.mu.Unlock()
	d.gate("lr:" + key)
	return r, err
}

func (d *driver) OnSessionClosed(key string) error {
	d.rec("sclosed", ev{"k": key})
	d.gate("cl:" + key)
	d.mu.Lock()
	d.store[key] = false
	mode := d.sc.OnClose[key]
	d.recl("sclosedret", ev{"k": key})
	d.mu.Unlock()
	switch mode {
	case "err":
		return errors.New("scripted OnSessionClosed error")
	case "panic":
		panic("scripted OnSessionClosed panic")
	}
	return nil
}

// sessionOK returns true if the session is exactly one that was announced
func (d *driver) sessionOK(s *wwr.Session) bool {
	label := infoLabel(s.Info)
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, r := range d.sessInfo[s.Key] {
		if r.creation.Equal(s.Creation) &&
			r.last.Equal(s.LastLookup) && r.info == label {
			return true
		}
	}
	return false
}

// ---- driver commands ----

func num(v any) int {
	switch x := v.(type) {
	case float64:
		return int(x)
	case int:
		return x
	}
	panic(fmt.Sprintf("not a number: %v", v))
}

func (d *driver) connect(c int) {
	d.mu.Lock()
	if d.socks[c-1] != nil {
		d.mu.Unlock()
		return
	}
	s := newSock(d, c)
	d.socks[c-1] = s
	d.recl("connect", ev{"c": c})
	d.mu.Unlock()
	onNew := d.tr.onNew
	lim := d.sc.Conns[c-1].Lim
	go func() {
		onNew(wwr.ConnectionOptions{
			Info:             map[int]interface{}{1: c},
			ConcurrencyLimit: lim,
		}, s)
		d.rec("connret", ev{"c": c})
	}()
}

func (d *driver) op(o int) {
	def := &d.sc.Ops[o-1]
	d.mu.Lock()
	var con wwr.Connection
	if def.C > 0 {
		con = d.conns[def.C-1]
	}
	d.mu.Unlock()
	if con == nil && def.K != "shutdown" && def.K != "sclose" {
		return
	}
	d.rec("call", ev{"o": o})
	f := func() {
		r := ev{"o": o}
		defer func() {
			if p := recover(); p != nil {
				r["r"] = "panic"
			}
			d.rec("ret", r)
		}()
		res := func(err error) {
			r["r"] = "ok"
			if err != nil {
				r["r"] = "err"
			}
		}
		switch def.K {
		case "close":
			con.Close()
			r["r"] = "ok"
		case "shutdown":
			res(d.srv.Shutdown())
		case "create":
			res(con.CreateSession(opInfo(def.Info)))
		case "cclose":
			res(con.CloseSession())
		case "signal":
			res(con.Signal([]byte(def.N), wwr.Payload{
				Encoding: wwr.PayloadEncoding(encIdx(def.Enc)),
				Data:     payloadBytes(def.Enc, def.P, def.PLen),
			}))
		case "sclose":
			cons, errs, err := d.srv.CloseSession(def.Key)
			list := []int{}
			bad := []int{}
			for i, c := range cons {
				list = append(list, conIndex(c))
				if i < len(errs) && errs[i] != nil {
					bad = append(bad, conIndex(c))
				}
			}
			r["n"] = len(cons)
			r["ne"] = len(errs)
			r["cons"] = list
			r["errs"] = bad
			res(err)
		}
	}
	d.mu.Lock()
	ch, ok := d.hcmd[def.Via]
	ok = ok && d.running[def.Via] && !d.sc.Msgs[def.Via-1].Auto &&
		!d.opened[fmt.Sprintf("h:%d", def.Via)]
	d.mu.Unlock()
	if ok {
		// Let the handler do it
		select {
		case ch <- f:
			return
		default:
		}
	}
	go f()
}

func (d *driver) finish(m int) {
	name := fmt.Sprintf("h:%d", m)
	d.mu.Lock()
	if !d.opened[name] {
		d.opened[name] = true
		if ch, ok := d.hcmd[m]; ok {
			close(ch)
			d.recl("fin", ev{"m": m})
		}
	}
	d.mu.Unlock()
}

func (d *driver) exec(st []any) {
	switch st[0].(string) {
	case "connect":
		d.connect(num(st[1]))
	case "deliver":
		m := num(st[1])
		def := &d.sc.Msgs[m-1]
		if s := d.socks[def.C-1]; s != nil {
			d.rec("deliver", ev{"m": m})
			s.push(item{m: m, data: def.wire()})
		}
	case "finish":
		d.finish(num(st[1]))
	case "lose":
		c := num(st[1])
		if s := d.socks[c-1]; s != nil {
			if len(st) > 2 && st[2] == "abn" {
				s.push(item{err: sockErr{false, fmt.Sprintf("sock%d timeout", c)}})
			} else {
				s.drop()
			}
		}
	case "op":
		d.op(num(st[1]))
	case "gate":
		d.mu.Lock()
		d.gates[st[1].(string)] = make(chan struct{})
		d.mu.Unlock()
	case "open":
		d.open(st[1].(string))
	case "fault":
		c := num(st[1])
		if s := d.socks[c-1]; s != nil {
			d.mu.Lock()
			s.faults = append(s.faults, fault{st[2].(string), num(st[3])})
			d.mu.Unlock()
		}
	default:
		panic(fmt.Sprint("unknown step ", st))
	}
}

// ---- observation ----

var errLivelock = errors.New("livelock")

func (d *driver) wait() {
	if !quiet.Wait(20 * time.Second) {
		d.rec("livelock", nil)
		panic(errLivelock)
	}
	if vy.Overrun() {
		d.rec("livelock", nil)
		panic(errLivelock)
	}
}

// observe records the observable state while nothing happens
func (d *driver) observe(kind string) {
	if vy.Parked() > 0 {
		return
	}
	vy.Pause(true)
	defer vy.Pause(false)
	q := ev{"kind": kind}
	keys := d.keys()
	nums := map[string]int{}
	lists := map[string][]int{}
	var olock sync.Mutex
	act := -2
	sess := make([]string, len(d.conns))
	active := make([]string, len(d.conns))
	for i := range sess {
		sess[i] = "?"
		active[i] = "?"
	}
	go func() {
		a := d.srv.ActiveSessionsNum()
		n := map[string]int{}
		l := map[string][]int{}
		// The lists don't change later on
		all := map[string][]wwr.Connection{}
		for _, k := range keys {
			n[k] = d.srv.SessionConnectionsNum(k)
			all[k] = d.srv.SessionConnections(k)
		}
		for _, k := range keys {
			cons := all[k]
			ids := []int{}
			for _, c := range cons {
				ids = append(ids, conIndex(c))
			}
			sort.Ints(ids)
			if cons == nil {
				ids = append(ids, -1)
			}
			l[k] = ids
		}
		olock.Lock()
		act, nums, lists = a, n, l
		olock.Unlock()
	}()
	d.mu.Lock()
	conns := append([]wwr.Connection{}, d.conns...)
	d.mu.Unlock()
	for i, con := range conns {
		if con == nil {
			sess[i] = "-"
			active[i] = "-"
			continue
		}
		i, con := i, con
		go func() {
			a := fmt.Sprint(con.IsActive())
			olock.Lock()
			active[i] = a
			olock.Unlock()
		}()
		go func() {
			has := con.HasSession()
			key := con.SessionKey()
			s := con.Session()
			cre := con.SessionCreation()
			v := key
			if s == nil {
				if has || key != "" || !cre.IsZero() ||
					con.SessionInfo("a") != nil {
					v = "!inconsistent"
				}
			} else {
				ok := d.sessionOK(s)
				if !has || s.Key != key || !cre.Equal(s.Creation) || !ok {
					v = "!inconsistent"
				}
				if s.Info != nil {
					for _, f := range s.Info.Fields() {
						if canon(con.SessionInfo(f)) != canon(s.Info.Value(f)) {
							v = "!inconsistent"
						}
					}
				}
			}
			olock.Lock()
			sess[i] = v
			olock.Unlock()
		}()
	}
	d.wait()
	olock.Lock()
	q["act"] = act
	q["num"] = nums
	q["list"] = lists
	q["sess"] = append([]string{}, sess...)
	q["active"] = append([]string{}, active...)
	olock.Unlock()
	d.mu.Lock()
	reading := make([]bool, len(d.socks))
	left := make([]int, len(d.socks))
	for i, s := range d.socks {
		if s != nil {
			reading[i] = s.reading
			left[i] = len(s.queue)
		}
	}
	q["reading"] = reading
	q["left"] = left
	isess := false
	flush := []int{}
	disc := []int{}
	for n, k := range d.inside {
		if k < 1 {
			continue
		}
		kind, arg, _ := strings.Cut(n, ":")
		c, _ := strconv.Atoi(arg)
		switch kind {
		case "fl":
			flush = append(flush, c)
		case "od":
			disc = append(disc, c)
		case "oc":
		default:
			isess = true
		}
	}
	sort.Ints(flush)
	sort.Ints(disc)
	q["is"], q["fl"], q["od"] = isess, flush, disc
	b := canon(q)
	if b != d.last || kind != "mid" {
		d.recl("quiet", q)
	}
	d.last = b
	d.mu.Unlock()
}

func (d *driver) keys() []string {
	set := map[string]bool{"nosuchkey": true}
	for _, k := range d.sc.Gens {
		if k != "!" {
			set[k] = true
		}
	}
	d.mu.Lock()
	for i := len(d.sc.Gens); i < d.genN; i++ {
		set[fmt.Sprintf("auto%d", i)] = true
	}
	d.mu.Unlock()
	for _, k := range d.sc.Store {
		set[k] = true
	}
	for _, m := range d.sc.Msgs {
		if m.Key != "" {
			set[m.Key] = true
		}
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (d *driver) settle() {
	d.wait()
	d.observe("mid")
}

// head describes the scenario to the trace checker
func head(sc *Scenario) ev {
	msgs := []ev{}
	for i := range sc.Msgs {
		m := &sc.Msgs[i]
		o := &m.Out
		code, text := pad(o.Code, o.CLen), pad(o.M, o.MLen)
		printable := true
		for _, c := range []byte(code) {
			printable = printable && c >= 32 && c <= 126
		}
		reply := payloadBytes(o.Enc, o.P, o.PLen)
		enc := o.Enc
		if enc == "" {
			enc = "bin"
		}
		menc := m.Enc
		if menc == "" {
			menc = "bin"
		}
		kind := o.K
		if kind == "" {
			kind = "ok"
		}
		msgs = append(msgs, ev{
			"c": m.C, "k": m.K, "id": m.ID, "enc": menc, "n": m.N,
			"p": lab(m.payload()), "key": m.Key,
			"out": ev{
				"k": kind, "enc": enc, "p": lab(reply),
				"plen": len(reply), "code": lab([]byte(code)),
				"m": lab([]byte(text)), "clen": len(code), "mlen": len(text),
				"cprint": printable,
			},
		})
	}
	ops := []ev{}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		p := payloadBytes(o.Enc, o.P, o.PLen)
		enc := o.Enc
		if enc == "" {
			enc = "bin"
		}
		printable := true
		for _, c := range []byte(o.N) {
			printable = printable && c >= 32 && c <= 126
		}
		ops = append(ops, ev{
			"k": o.K, "c": o.C, "key": o.Key, "i": infoLabel(opInfo(o.Info)),
			"bad": o.Info == 4,
			"n":   o.N, "nlen": len(o.N), "nprint": printable, "enc": enc,
			"p": lab(p), "plen": len(p),
		})
	}
	conns := []ev{}
	for _, c := range sc.Conns {
		conns = append(conns, ev{"lim": c.Lim})
	}
	return ev{"cfg": sc.Cfg, "conns": conns, "msgs": msgs, "ops": ops}
}

// Result is the outcome of one run
type Result struct {
	Ev    []json.RawMessage `json:"ev"`
	Sched Sched             `json:"sched"`
	Leak  int               `json:"leak"`
	Dead  bool              `json:"dead"`
	N     int               `json:"n"`
	Ends  []int             `json:"-"`
}

func run(sc *Scenario, sched Sched) (res Result) {
	d := &driver{
		sc:       sc,
		gates:    map[string]chan struct{}{},
		inside:   map[string]int{},
		opened:   map[string]bool{},
		store:    map[string]bool{},
		sessInfo: map[string][]sessRec{},
		started:  map[int]bool{},
		hcmd:     map[int]chan func(){},
		running:  map[int]bool{},
		socks:    make([]*fsock, len(sc.Conns)),
		conns:    make([]wwr.Connection, len(sc.Conns)),
	}
	for _, g := range sc.Gates {
		d.gates[g] = make(chan struct{})
	}
	for _, k := range sc.Store {
		d.store[k] = true
	}
	for i := range sc.Msgs {
		k := sc.Msgs[i].K
		if k == "req" || k == "sig" {
			d.hcmd[i+1] = make(chan func())
		}
	}
	d.tr = &ftrans{d: d}
	opts := wwr.ServerOptions{
		Sessions:              wwr.Disabled,
		SessionManager:        d,
		SessionKeyGenerator:   d,
		MaxSessionConnections: uint(sc.Cfg.Max),
		WarnLog:               log.New(io.Discard, "", 0),
		ErrorLog:              log.New(io.Discard, "", 0),
		ReadTimeout:           time.Duration(sc.Cfg.RT) * time.Millisecond,
		MessageBufferSize:     uint32(sc.Cfg.Buf),
		SubProtocolName:       []byte(sc.Cfg.Sub),
	}
	if sc.Cfg.Sess {
		opts.Sessions = wwr.Enabled
	}
	srv, err := wwr.NewServer(d, opts, d.tr)
	if err != nil {
		panic(err)
	}
	d.srv = srv
	quiet.Wait(time.Second)
	base := quiet.Goroutines()

	defer func() {
		if r := recover(); r != nil {
			if r == errLivelock {
				res.Dead = true
				d.mu.Lock()
				res.Ev = d.events
				d.mu.Unlock()
				res.Sched = sched
				return
			}
			panic(r)
		}
	}()

	parks := []vy.Park{}
	for _, p := range sched.Parks {
		parks = append(parks, vy.Park{At: p[0], For: p[1]})
	}
	vy.Start(parks, sched.Noise, sched.Seed, 200000)
	for _, st := range sc.Steps {
		nw := len(st) > 0 && st[len(st)-1] == "nw"
		if nw {
			st = st[:len(st)-1]
		}
		d.exec(st)
		if !nw {
			d.settle()
			if vy.Step() {
				d.settle()
			}
		}
		res.Ends = append(res.Ends, vy.Count())
	}
	d.settle()
	for vy.ReleaseOne() {
		d.settle()
	}
	// Open all gates, finish all handlers
	d.mu.Lock()
	names := append([]string{}, sc.Gates...)
	for g := range d.gates {
		names = append(names, g)
	}
	d.mu.Unlock()
	for _, g := range names {
		d.open(g)
	}
	d.wait()
	for i := range sc.Msgs {
		d.finish(i + 1)
	}
	d.rec("release", nil)
	d.wait()
	for vy.ReleaseOne() {
		d.wait()
	}
	d.observe("fin")
	res.N = vy.Count()
	// Lose all connections
	if !sc.NoEnd {
		for _, s := range d.socks {
			if s != nil {
				s.drop()
			}
		}
		d.wait()
		for vy.ReleaseOne() {
			d.wait()
		}
		d.observe("end")
	}
	vy.Stop()
	d.mu.Lock()
	res.Ev = d.events
	d.mu.Unlock()
	if sc.GC {
		d.gc()
		d.mu.Lock()
		res.Ev = d.events
		d.mu.Unlock()
	}
	d.wait()
	res.Leak = quiet.Goroutines() - base
	if res.Leak > 0 {
		d.mu.Lock()
		d.recl("leak", ev{"n": res.Leak})
		res.Ev = d.events
		d.mu.Unlock()
	}
	res.Sched = sched
	return res
}

// gc checks whether the memory of the connections can be reclaimed while the
// server lives on
func (d *driver) gc() {
	var mu sync.Mutex
	freed := make([]bool, len(d.conns))
	n := 0
	for i, con := range d.conns {
		if con == nil {
			freed[i] = true
			continue
		}
		n++
		i := i
		runtime.SetFinalizer(con, func(wwr.Connection) {
			mu.Lock()
			freed[i] = true
			mu.Unlock()
		})
	}
	for i := range d.conns {
		d.conns[i] = nil
	}
	for k := 0; k < 20; k++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
		done := true
		mu.Lock()
		for _, f := range freed {
			done = done && f
		}
		mu.Unlock()
		if done {
			break
		}
	}
	mu.Lock()
	d.rec("gc", ev{"freed": append([]bool{}, freed...)})
	mu.Unlock()
	runtime.KeepAlive(d.srv)
	runtime.KeepAlive(d.tr)
}

// schedules lists the schedules to be tried given the baseline run
func schedules(sc *Scenario, base Result) []Sched {
	x := sc.Explore
	rnd := rand.New(rand.NewSource(x.Seed))
	var l []Sched
	step := func(at int) int {
		for i, e := range base.Ends {
			if at <= e {
				return i
			}
		}
		return len(base.Ends)
	}
	for at := 1; at <= base.N; at++ {
		left := len(sc.Steps) - step(at)
		fors := []int{1}
		for f := 2; f <= left && f <= 4; f++ {
			fors = append(fors, f)
		}
		if left > 4 {
			fors = append(fors, 0)
		}
		for _, f := range fors {
			l = append(l, Sched{Parks: [][2]int{{at, f}}})
		}
	}
	if len(l) > x.Single {
		rnd.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		l = l[:x.Single]
	}
	if base.N > 1 {
		for i := 0; i < x.Double; i++ {
			l = append(l, Sched{Parks: [][2]int{
				{1 + rnd.Intn(base.N), 1 + rnd.Intn(4)},
				{1 + rnd.Intn(base.N), 1 + rnd.Intn(4)},
			}})
		}
	}
	for i := 0; i < x.Noise; i++ {
		l = append(l, Sched{Noise: 0.3, Seed: rnd.Int63()})
	}
	return l
}

func main() {
	runtime.GOMAXPROCS(1)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	emit := func(kind string, v any) {
		fmt.Fprintf(out, "%s %s\n", kind, canon(v))
	}
	// Nothing is explored after the deadline
	var deadline time.Time
	if ms, err := strconv.ParseInt(os.Getenv("WWV_DEADLINE"), 10, 64); err == nil {
		deadline = time.UnixMilli(ms)
	}
	late := func() bool { return !deadline.IsZero() && time.Now().After(deadline) }
	headsOnly := len(os.Args) > 1 && os.Args[1] == "-heads"
	for !late() {
		line, err := in.ReadBytes('\n')
		if len(line) < 1 && err != nil {
			break
		}
		sc := &Scenario{}
		if err := json.Unmarshal(line, sc); err != nil {
			fmt.Fprintln(os.Stderr, "scenario:", err)
			os.Exit(4)
		}
		emit("HEAD", ev{"id": sc.ID, "head": head(sc)})
		if headsOnly {
			emit("DONE", ev{"id": sc.ID, "runs": 0})
			continue
		}
		seen := map[string]bool{}
		runs := 0
		bad := false
		one := func(s Sched) Result {
			emit("RUN", ev{"id": sc.ID, "sched": s})
			out.Flush()
			r := run(sc, s)
			runs++
			k := canon(r.Ev)
			if !seen[k] {
				seen[k] = true
				emit("TRACE", ev{"id": sc.ID, "sched": s, "ev": r.Ev,
					"leak": r.Leak, "dead": r.Dead})
			}
			bad = r.Dead || r.Leak > 0
			return r
		}
		if len(sc.Explore.Plan) > 0 {
			for _, s := range sc.Explore.Plan {
				one(s)
				if bad {
					break
				}
			}
		} else {
			b := one(Sched{})
			if !bad {
				for _, s := range schedules(sc, b) {
					one(s)
					if bad || late() {
						break
					}
				}
			}
		}
		emit("DONE", ev{"id": sc.ID, "runs": runs, "yields": vy.Count()})
		out.Flush()
		if bad {
			// Don't let the leftovers disturb the next scenario
			os.Exit(3)
		}
	}
	out.Flush()
}
