// memchan exercises the in-memory transport
package main

import (
	"encoding/json"
	"io"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
	"wwrverif/sim"
)

type pair struct {
	clt wwr.ClientSocket
	srv wwr.Socket
}

type comp struct {
	mu      sync.Mutex
	rec     *sim.Rec
	tr      *memchan.Transport
	pairs   map[int]*pair
	refuse  bool
	flag    bool
	down    bool
	over    bool
	writers map[held]io.WriteCloser
}

// held identifies the writer a worker holds
type held struct {
	w, s int
	d    string
}

const label = 77

func newComp(sc *sim.Scenario, rec *sim.Rec) *comp {
	c := &comp{rec: rec, pairs: map[int]*pair{}, writers: map[held]io.WriteCloser{}}
	c.tr = &memchan.Transport{}
	if sc.Cfg["nohook"] != true {
		c.tr.OnBeforeCreation = func() wwr.ConnectionOptions {
			c.mu.Lock()
			defer c.mu.Unlock()
			o := wwr.ConnectionOptions{ConcurrencyLimit: label}
			if c.refuse {
				o.Connection = wwr.Refuse
			}
			return o
		}
	}
	size := sim.Num(sc.Cfg, "size")
	opts := wwr.ServerOptions{MessageBufferSize: uint32(size), ReadTimeout: time.Minute}
	if err := c.tr.Initialize(opts, func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.flag
	}, func(o wwr.ConnectionOptions, s wwr.Socket) {
		c.mu.Lock()
		defer c.mu.Unlock()
		id := 0
		for i, p := range c.pairs {
			if p.srv == s {
				id = i
			}
		}
		if id == 0 {
			// There's only one pair in this case
			if p := c.pairs[1]; p.srv == nil {
				p.srv, id = s, 1
			}
		}
		want := label
		if sc.Cfg["nohook"] == true {
			want = 0
		}
		rec.Add("newconn", sim.Ev{"s": id,
			"opt": o.ConcurrencyLimit == want && o.Connection == wwr.Accept})
	}); err != nil {
		panic(err)
	}
	for i := 1; i <= sim.Num(sc.Cfg, "pairs"); i++ {
		if sc.Cfg["ct"] == true {
			s, err := (&memchan.ClientTransport{Server: c.tr}).NewSocket(time.Second)
			if err != nil {
				panic(err)
			}
			c.pairs[i] = &pair{clt: s}
		} else {
			s, k := memchan.NewEntangledSockets(c.tr)
			c.pairs[i] = &pair{clt: k, srv: s}
		}
	}
	// A socket without a server
	s, err := (&memchan.ClientTransport{}).NewSocket(time.Second)
	if err != nil {
		panic(err)
	}
	c.pairs[9] = &pair{clt: s}
	return c
}

func (c *comp) sock(op sim.Ev) wwr.Socket {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := c.pairs[sim.Num(op, "s")]
	if sim.Str(op, "d") == "s" {
		if p.srv == nil {
			return nil
		}
		return p.srv
	}
	return p.clt
}

func bytesOf(x any) []byte {
	b := []byte{}
	l, _ := x.([]any)
	for _, v := range l {
		b = append(b, byte(v.(float64)))
	}
	return b
}

func ints(b []byte) []int {
	l := make([]int, len(b))
	for i, x := range b {
		l[i] = int(x)
	}
	return l
}

func result(err error) sim.Ev {
	if err == nil {
		return sim.Ev{"r": "ok"}
	}
	if _, ok := err.(wwr.ErrBufferOverflow); ok {
		return sim.Ev{"r": "overflow"}
	}
	return sim.Ev{"r": "err"}
}

func yes(b bool) sim.Ev {
	if b {
		return sim.Ev{"r": "true"}
	}
	return sim.Ev{"r": "false"}
}

func (c *comp) Do(w int, op sim.Ev) sim.Ev {
	s := wwr.Socket(nil)
	if sim.Num(op, "s") > 0 {
		if s = c.sock(op); s == nil {
			return sim.Ev{"r": "skip"}
		}
	}
	key := held{w, sim.Num(op, "s"), sim.Str(op, "d")}
	switch sim.Str(op, "k") {
	case "dial":
		d, ok := s.(wwr.ClientSocket)
		if !ok {
			return sim.Ev{"r": "err"}
		}
		return result(d.Dial(time.Time{}))
	case "close":
		return result(s.Close())
	case "isconn":
		return yes(s.IsConnected())
	case "gw":
		c.mu.Lock()
		has := c.writers[key] != nil
		c.mu.Unlock()
		if has {
			return sim.Ev{"r": "skip"}
		}
		wr, err := s.GetWriter()
		if err == nil {
			c.mu.Lock()
			over := c.over
			c.writers[key] = wr
			c.mu.Unlock()
			if over {
				wr.Close()
			}
		}
		return result(err)
	case "w":
		c.mu.Lock()
		wr := c.writers[key]
		c.mu.Unlock()
		if wr == nil {
			return sim.Ev{"r": "skip"}
		}
		b := bytesOf(op["b"])
		n, err := wr.Write(b)
		if err == nil && n != len(b) {
			return sim.Ev{"r": "short"}
		}
		// The caller may reuse its buffer
		for i := range b {
			b[i] = 0xee
		}
		return result(err)
	case "wc":
		c.mu.Lock()
		wr := c.writers[key]
		delete(c.writers, key)
		c.mu.Unlock()
		if wr == nil {
			return sim.Ev{"r": "skip"}
		}
		return result(wr.Close())
	case "read":
		var dl time.Time
		switch sim.Str(op, "dl") {
		case "past":
			dl = time.Now().Add(-time.Second)
		case "soon":
			dl = time.Now().Add(2 * time.Millisecond)
		case "far":
			dl = time.Now().Add(time.Hour)
		}
		m := message.NewMessage(1 << 17)
		err := s.Read(m, dl)
		if err == nil {
			return sim.Ev{"r": "msg", "b": ints(m.MsgBuffer.Data())}
		}
		if err.IsCloseErr() {
			return sim.Ev{"r": "closed"}
		}
		_ = err.Error()
		return sim.Ev{"r": "fail"}
	case "serve":
		c.tr.Serve()
		return sim.Ev{"r": "done"}
	case "shutdown":
		c.mu.Lock()
		c.down = true
		c.mu.Unlock()
		return result(c.tr.Shutdown())
	}
	b, _ := json.Marshal(op)
	panic("unknown operation " + string(b))
}

func (c *comp) Env(op sim.Ev) {
	if sim.Str(op, "k") == "sleep" {
		time.Sleep(4 * time.Millisecond)
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	switch sim.Str(op, "k") {
	case "refuse":
		c.refuse = op["v"] == true
	case "flag":
		c.flag = op["v"] == true
	}
}

func (c *comp) Observe() sim.Ev {
	c.mu.Lock()
	defer c.mu.Unlock()
	l := []int{}
	ok := true
	for i := 1; i < 9; i++ {
		p := c.pairs[i]
		if p == nil {
			continue
		}
		a := p.clt.IsConnected()
		if p.srv != nil && p.srv.IsConnected() != a {
			ok = false
		}
		if a {
			l = append(l, i)
		}
	}
	return sim.Ev{"conn": l, "same": ok}
}

func (c *comp) Finish() bool {
	c.mu.Lock()
	ws := c.writers
	c.writers, c.over = map[held]io.WriteCloser{}, true
	ps := []*pair{}
	for _, p := range c.pairs {
		ps = append(ps, p)
	}
	c.mu.Unlock()
	c.tr.Shutdown()
	for _, p := range ps {
		p.clt.Close()
	}
	for _, w := range ws {
		w.Close()
	}
	return len(ws) > 0
}

func (c *comp) Close() {}

func main() {
	sim.Main(func(sc *sim.Scenario, rec *sim.Rec) sim.Comp {
		return newComp(sc, rec)
	})
}
