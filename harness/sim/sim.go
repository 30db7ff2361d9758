// Package sim explores the behaviour of a component that's used by a few
// concurrent workers. A scenario lists the operations each of them performs.
// The scenario is repeated under many schedules, the calls, their results and
// what can be observed while nothing happens is recorded.
package sim

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"time"

	"wwrverif/quiet"
	"wwrverif/vy"
)

// Ev is an event or an operation
type Ev = map[string]any

// Step is one operation, performed by a worker (from 1) or the driver (0). The
// driver waits until nothing happens anymore before it proceeds with the next
// step, unless NW is set
type Step struct {
	W  int  `json:"w"`
	Op Ev   `json:"op"`
	NW bool `json:"nw"`
}

// Sched is one schedule
type Sched struct {
	Parks [][2]int `json:"parks"`
	Noise float64  `json:"noise"`
	Seed  int64    `json:"seed"`
}

// Explore defines the schedules to be tried
type Explore struct {
	Single int     `json:"single"`
	Double int     `json:"double"`
	Noise  int     `json:"noise"`
	Seed   int64   `json:"seed"`
	Plan   []Sched `json:"plan"`
}

// Scenario is one driver program
type Scenario struct {
	ID      string  `json:"id"`
	Cfg     Ev      `json:"cfg"`
	Workers int     `json:"workers"`
	Steps   []Step  `json:"steps"`
	Explore Explore `json:"explore"`
}

// Comp is the component under test
type Comp interface {
	// Do performs an operation of a worker
	Do(w int, op Ev) Ev
	// Env performs an operation of the driver, it must not block
	Env(op Ev)
	// Observe returns what can be observed while nothing happens
	Observe() Ev
	// Finish ends everything that may legitimately still be waiting. It's
	// called repeatedly until it returns false
	Finish() bool
	// Close releases the resources of the run
	Close()
}

// Rec records the events of a run
type Rec struct {
	mu     sync.Mutex
	events []json.RawMessage
	over   bool
	busy   map[int]bool
	queued map[int]int
}

const maxEvents = 3000

// Add records an event
func (r *Rec) Add(name string, f Ev) {
	r.mu.Lock()
	r.addl(name, f)
	r.mu.Unlock()
}

func (r *Rec) addl(name string, f Ev) {
	if r.over {
		return
	}
	if len(r.events) >= maxEvents {
		r.over = true
		r.events = append(r.events, json.RawMessage(`{"e":"overflow"}`))
		return
	}
	if f == nil {
		f = Ev{}
	}
	f["e"] = name
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	r.events = append(r.events, b)
}

// Result is the outcome of one run
type Result struct {
	Ev   []json.RawMessage
	Dead bool
	Leak int
	N    int
	Ends []int
}

var errLivelock = errors.New("livelock")
var errStuck = errors.New("stuck")

func clone(m Ev) Ev {
	c := Ev{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func run(sc *Scenario, sched Sched, make_ func(*Scenario, *Rec) Comp) (res Result) {
	rec := &Rec{busy: map[int]bool{}, queued: map[int]int{}}
	comp := make_(sc, rec)
	defer comp.Close()
	quiet.Wait(time.Second)
	base := quiet.Goroutines()

	defer func() {
		if r := recover(); r != nil {
			if r == errLivelock || r == errStuck {
				rec.mu.Lock()
				rec.addl(r.(error).Error(), nil)
				res.Ev, res.Dead = rec.events, true
				rec.mu.Unlock()
				return
			}
			panic(r)
		}
	}()

	queues := make([]chan Ev, sc.Workers+1)
	work := func(w int) {
		for op := range queues[w] {
			rec.mu.Lock()
			rec.busy[w] = true
			rec.queued[w]--
			c := clone(op)
			c["w"] = w
			rec.addl("call", c)
			rec.mu.Unlock()
			var ret Ev
			func() {
				defer func() {
					if r := recover(); r != nil {
						ret = Ev{"r": "panic", "why": fmt.Sprint(r)}
					}
				}()
				ret = comp.Do(w, op)
			}()
			ret["w"] = w
			rec.mu.Lock()
			rec.addl("ret", ret)
			rec.busy[w] = false
			rec.mu.Unlock()
		}
	}
	for w := 1; w <= sc.Workers; w++ {
		queues[w] = make(chan Ev, len(sc.Steps)+1)
		go work(w)
	}
	wait := func() {
		if !quiet.Wait(20*time.Second) || vy.Overrun() {
			panic(errLivelock)
		}
	}
	// Nothing the driver itself calls may block
	guard := func(f func()) {
		vy.Pause(true)
		defer vy.Pause(false)
		done := make(chan struct{})
		go func() {
			defer close(done)
			f()
		}()
		wait()
		select {
		case <-done:
		default:
			panic(errStuck)
		}
	}
	observe := func() {
		if vy.Parked() > 0 {
			return
		}
		var o Ev
		look := func() (n int) {
			rec.mu.Lock()
			n = len(rec.events)
			rec.mu.Unlock()
			guard(func() { o = comp.Observe() })
			if o == nil {
				o = Ev{}
			}
			return
		}
		// A timer may interfere
		n := 0
		for i := 0; ; i++ {
			n = look()
			b, _ := json.Marshal(o)
			if m := look(); m == n {
				if c, _ := json.Marshal(o); bytes.Equal(b, c) {
					break
				}
			}
			if i > 4 {
				return
			}
		}
		rec.mu.Lock()
		defer rec.mu.Unlock()
		if len(rec.events) != n {
			return
		}
		b := []int{}
		for w, busy := range rec.busy {
			if busy {
				b = append(b, w)
			}
		}
		sort.Ints(b)
		o["blocked"] = b
		rec.addl("quiet", o)
	}
	settle := func() {
		wait()
		observe()
	}

	parks := []vy.Park{}
	for _, p := range sched.Parks {
		parks = append(parks, vy.Park{At: p[0], For: p[1]})
	}
	wait()
	vy.Start(parks, sched.Noise, sched.Seed, 100000)
	for _, st := range sc.Steps {
		if st.W == 0 {
			c := clone(st.Op)
			c["w"] = 0
			rec.Add("env", c)
			vy.Pause(true)
			comp.Env(st.Op)
			vy.Pause(false)
		} else {
			rec.mu.Lock()
			rec.queued[st.W]++
			rec.mu.Unlock()
			queues[st.W] <- st.Op
		}
		if !st.NW {
			settle()
			if vy.Step() {
				settle()
			}
		}
		res.Ends = append(res.Ends, vy.Count())
	}
	settle()
	for vy.ReleaseOne() {
		settle()
	}
	res.N = vy.Count()
	rec.Add("finish", nil)
	for i, more := 0, true; i < 100 && more; i++ {
		guard(func() { more = comp.Finish() })
		settle()
	}
	vy.Stop()
	for w := 1; w <= sc.Workers; w++ {
		close(queues[w])
	}
	wait()
	res.Leak = quiet.Goroutines() - base
	rec.mu.Lock()
	if res.Leak > 0 {
		rec.addl("leak", Ev{"n": res.Leak})
	}
	res.Ev = rec.events
	rec.mu.Unlock()
	return
}

func schedules(sc *Scenario, base Result) []Sched {
	x := sc.Explore
	rnd := rand.New(rand.NewSource(x.Seed))
	var l []Sched
	step := func(at int) int {
		for i, e := range base.Ends {
			if at <= e {
				return i
			}
		}
		return len(base.Ends)
	}
	for at := 1; at <= base.N; at++ {
		left := len(sc.Steps) - step(at)
		fors := []int{1}
		for f := 2; f <= left && f <= 4; f++ {
			fors = append(fors, f)
		}
		if left > 4 {
			fors = append(fors, 0)
		}
		for _, f := range fors {
			l = append(l, Sched{Parks: [][2]int{{at, f}}})
		}
	}
	if len(l) > x.Single {
		rnd.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		l = l[:x.Single]
	}
	if base.N > 1 {
		for i := 0; i < x.Double; i++ {
			l = append(l, Sched{Parks: [][2]int{
				{1 + rnd.Intn(base.N), 1 + rnd.Intn(4)},
				{1 + rnd.Intn(base.N), 1 + rnd.Intn(4)},
			}})
		}
	}
	for i := 0; i < x.Noise; i++ {
		l = append(l, Sched{Noise: 0.3, Seed: rnd.Int63()})
	}
	return l
}

func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Main runs the scenarios given on the standard input. A trace is written for
// every schedule that led to something new (apart from the fields in vary)
func Main(make_ func(*Scenario, *Rec) Comp, vary ...string) {
	runtime.GOMAXPROCS(1)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	emit := func(kind string, v any) {
		fmt.Fprintf(out, "%s %s\n", kind, canon(v))
	}
	var deadline time.Time
	if ms, err := strconv.ParseInt(os.Getenv("WWV_DEADLINE"), 10, 64); err == nil {
		deadline = time.UnixMilli(ms)
	}
	late := func() bool { return !deadline.IsZero() && time.Now().After(deadline) }
	for !late() {
		line, err := in.ReadBytes('\n')
		if len(line) < 1 && err != nil {
			break
		}
		sc := &Scenario{}
		if err := json.Unmarshal(line, sc); err != nil {
			fmt.Fprintln(os.Stderr, "scenario:", err)
			os.Exit(4)
		}
		cfg := sc.Cfg
		if cfg == nil {
			cfg = Ev{}
		}
		emit("HEAD", Ev{"id": sc.ID, "head": cfg})
		seen := map[string]bool{}
		runs, bad := 0, false
		one := func(s Sched) Result {
			emit("RUN", Ev{"id": sc.ID, "sched": s})
			out.Flush()
			r := run(sc, s, make_)
			runs++
			k := key(r.Ev, vary)
			if !seen[k] {
				seen[k] = true
				emit("TRACE", Ev{"id": sc.ID, "sched": s, "ev": r.Ev,
					"leak": r.Leak, "dead": r.Dead})
			}
			bad = r.Dead || r.Leak > 0
			return r
		}
		if len(sc.Explore.Plan) > 0 {
			for _, s := range sc.Explore.Plan {
				one(s)
				if bad {
					break
				}
			}
		} else {
			b := one(Sched{})
			if !bad {
				for _, s := range schedules(sc, b) {
					one(s)
					if bad || late() {
						break
					}
				}
			}
		}
		emit("DONE", Ev{"id": sc.ID, "runs": runs, "yields": vy.Count()})
		out.Flush()
		if bad {
			os.Exit(3)
		}
	}
	out.Flush()
}

func key(evs []json.RawMessage, vary []string) string {
	if len(vary) < 1 {
		return canon(evs)
	}
	l := make([]Ev, len(evs))
	for i, e := range evs {
		json.Unmarshal(e, &l[i])
		for _, v := range vary {
			delete(l[i], v)
		}
	}
	return canon(l)
}

// Str returns a field of an operation
func Str(op Ev, k string) string {
	s, _ := op[k].(string)
	return s
}

// Num returns a field of an operation
func Num(op Ev, k string) int {
	f, _ := op[k].(float64)
	return int(f)
}
