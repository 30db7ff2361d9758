// reqman exercises the request manager
package main

import (
	"context"
	"encoding/hex"
	"errors"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
	reqman "github.com/qbeon/webwire-go/requestManager"
	"wwrverif/sim"
	"wwrverif/vy"
)

type fctx struct {
	context.Context
	mu   sync.Mutex
	done chan struct{}
	err  error
}

func (c *fctx) Done() <-chan struct{} { return c.done }
func (c *fctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *fctx) Deadline() (time.Time, bool) { return time.Time{}, false }

func (c *fctx) end(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = err
		close(c.done)
	}
}

type comp struct {
	mu   sync.Mutex
	mng  reqman.RequestManager
	reqs map[int]*reqman.Request
	ctxs map[int]*fctx
	n    int
}

type failure struct{ v string }

func (f failure) Error() string { return f.v }

func (c *comp) req(r int) *reqman.Request {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.reqs[r]
}

func (c *comp) ctx(n int) *fctx {
	c.mu.Lock()
	defer c.mu.Unlock()
	x := c.ctxs[n]
	if x == nil {
		x = &fctx{Context: context.Background(), done: make(chan struct{})}
		c.ctxs[n] = x
	}
	return x
}

func (c *comp) ident(op sim.Ev) (id [8]byte) {
	if q := c.req(sim.Num(op, "q")); q != nil {
		return q.Identifier
	}
	b, _ := hex.DecodeString(sim.Str(op, "id"))
	copy(id[:], b)
	return
}

func yes(b bool) sim.Ev {
	if b {
		return sim.Ev{"r": "true"}
	}
	return sim.Ev{"r": "false"}
}

func (c *comp) Do(w int, op sim.Ev) sim.Ev {
	switch sim.Str(op, "k") {
	case "create":
		q := c.mng.Create()
		c.mu.Lock()
		c.reqs[sim.Num(op, "q")] = q
		c.mu.Unlock()
		return sim.Ev{"r": "ok", "id": hex.EncodeToString(q.Identifier[:]),
			"idb": hex.EncodeToString(q.IdentifierBytes)}
	case "fulfill":
		// A reply message as it's read by a client
		b := append([]byte{message.MsgReplyUtf8}, make([]byte, 8)...)
		id := c.ident(op)
		copy(b[1:], id[:])
		b = append(b, sim.Str(op, "v")...)
		msg := message.NewMessage(64)
		if t, err := msg.ReadBytes(b); !t || err != nil {
			panic("bad reply message")
		}
		return yes(c.mng.Fulfill(msg))
	case "fail":
		return yes(c.mng.Fail(c.ident(op), failure{sim.Str(op, "v")}))
	case "await":
		q := c.req(sim.Num(op, "q"))
		if q == nil {
			return sim.Ev{"r": "none"}
		}
		var ctx context.Context = context.Background()
		if n := sim.Num(op, "ctx"); n > 0 {
			ctx = c.ctx(n)
		}
		rp, err := q.AwaitReply(ctx)
		var f failure
		switch {
		case err == nil && rp == nil:
			return sim.Ev{"r": "nothing"}
		case err == nil:
			p := string(rp.Payload())
			u, uerr := rp.PayloadUtf8()
			if rp.PayloadEncoding() != wwr.PayloadEncoding(pld.Utf8) || uerr != nil ||
				string(u) != p {
				return sim.Ev{"r": "reply", "v": "?" + p}
			}
			rp.Close()
			return sim.Ev{"r": "reply", "v": p}
		case rp != nil:
			return sim.Ev{"r": "both"}
		case errors.As(err, &f):
			return sim.Ev{"r": "failed", "v": f.v}
		}
		if _, ok := err.(wwr.ErrCanceled); ok {
			return sim.Ev{"r": "canceled", "v": ""}
		}
		if _, ok := err.(wwr.ErrDeadlineExceeded); ok {
			return sim.Ev{"r": "timeout", "v": ""}
		}
		return sim.Ev{"r": "error", "v": err.Error()}
	case "ispending":
		return yes(c.mng.IsPending(c.ident(op)))
	case "count":
		return sim.Ev{"r": "count", "n": c.mng.PendingRequests()}
	case "burn":
		// Many requests at once: created, all of them pending, then failed
		vy.Pause(true)
		defer vy.Pause(false)
		n := sim.Num(op, "ctx")
		ids := map[[8]byte]bool{}
		c.mu.Lock()
		for _, q := range c.reqs {
			if c.mng.IsPending(q.Identifier) {
				ids[q.Identifier] = true
			}
		}
		c.mu.Unlock()
		was := len(ids)
		l := []*reqman.Request{}
		for i := 0; i < n; i++ {
			q := c.mng.Create()
			l = append(l, q)
			ids[q.Identifier] = true
		}
		res := sim.Ev{"r": "burn", "d": len(ids) - was}
		mid, first, again := 0, 0, 0
		for _, q := range l {
			if c.mng.IsPending(q.Identifier) {
				mid++
			}
		}
		for _, q := range l {
			if c.mng.Fail(q.Identifier, failure{"burnt"}) {
				first++
			}
		}
		for _, q := range l {
			if c.mng.Fail(q.Identifier, failure{"burnt"}) {
				again++
			}
		}
		res["mid"], res["first"], res["again"] = mid, first, again
		return res
	case "cancel":
		c.ctx(sim.Num(op, "ctx")).end(context.Canceled)
		return sim.Ev{"r": "ok"}
	case "expire":
		c.ctx(sim.Num(op, "ctx")).end(context.DeadlineExceeded)
		return sim.Ev{"r": "ok"}
	}
	panic("unknown operation")
}

func (c *comp) Env(op sim.Ev) {}

func (c *comp) Observe() sim.Ev {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := []int{}
	for r := 1; r <= c.n; r++ {
		if q := c.reqs[r]; q != nil && c.mng.IsPending(q.Identifier) {
			p = append(p, r)
		}
	}
	return sim.Ev{"pending": p, "n": c.mng.PendingRequests()}
}

func (c *comp) Finish() bool {
	// Complete what's still pending
	c.mu.Lock()
	l := []*reqman.Request{}
	for r := 1; r <= c.n; r++ {
		if q := c.reqs[r]; q != nil && c.mng.IsPending(q.Identifier) {
			l = append(l, q)
		}
	}
	c.mu.Unlock()
	for _, q := range l {
		c.mng.Fail(q.Identifier, errors.New("end"))
	}
	return len(l) > 0
}

func (c *comp) Close() {}

func main() {
	sim.Main(func(sc *sim.Scenario, rec *sim.Rec) sim.Comp {
		return &comp{mng: reqman.NewRequestManager(), reqs: map[int]*reqman.Request{},
			ctxs: map[int]*fctx{}, n: 16}
	})
}
