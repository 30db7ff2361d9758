// store exercises the default session manager: concurrent operations on its
// sessions, restarts, failing writes and crashes. Everything takes place in a
// scratch directory and as an unprivileged user
package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"wwrverif/sim"
)

// con is the connection a session was created on
type con struct {
	wwr.Connection
	mu   sync.Mutex
	sess *wwr.Session
}

func (c *con) Session() *wwr.Session {
	c.mu.Lock()
	s := c.sess
	c.mu.Unlock()
	return s.Clone()
}

func (c *con) SessionKey() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sess == nil {
		return ""
	}
	return c.sess.Key
}

func (c *con) HasSession() bool { return c.SessionKey() != "" }

func (c *con) close() {
	c.mu.Lock()
	c.sess = nil
	c.mu.Unlock()
}

type span struct{ a, b time.Time }

type comp struct {
	mu      sync.Mutex
	rec     *sim.Rec
	root    string
	dir     string
	arg     string
	gen     int
	epoch   int
	busy    int
	mng     *wwr.DefaultSessionManager
	be      *backend
	keys    []string
	cons    map[int][]*con
	cre     map[int]time.Time
	inf     map[int]int
	looks   map[int]span
	planted map[string]string
	before  string
}

var infos = []map[string]interface{}{
	0: nil,
	1: {"a": "b"},
	2: {"": "", "n": nil, "f": 1.5, "big": 1e300, "neg": -7.0, "t": true, "u": "\u00e4\u4e16\U0001F600\u0000\"\\/<>&"},
	3: {"m": map[string]interface{}{"l": []interface{}{1.0, "x", nil, []interface{}{},
		map[string]interface{}{"y": false}}}, "e": map[string]interface{}{}},
	4: {"long": strings.Repeat("0123456789", 7000)},
	5: {"bad": math.NaN()},
}

func creation(n int) time.Time {
	t := time.Date(2001, 2, 3, 4, 5, 6, 123456789, time.UTC).Add(time.Duration(n) * time.Hour)
	switch n % 3 {
	case 1:
		t = t.In(time.FixedZone("x", 3600+1800))
	case 2:
		t = t.Truncate(time.Second)
	}
	return t
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

const session = `{"c":"2001-02-03T04:05:06Z","l":"2001-02-03T04:05:06Z","i":{"planted":"x"}}`

// The scratch tree:
//
//	top/                     decoys in every directory
//	top/mid/
//	top/mid/sess/            the session directory
//	top/mid/sess/sub/        not the manager's business either
func newComp(sc *sim.Scenario, rec *sim.Rec) *comp {
	c := &comp{rec: rec, cons: map[int][]*con{}, cre: map[int]time.Time{},
		inf: map[int]int{}, looks: map[int]span{}, planted: map[string]string{}}
	c.root = filepath.Join(scratch, fmt.Sprint("r", runs))
	runs++
	mid := filepath.Join(c.root, "top", "mid")
	must(os.MkdirAll(mid, 0755))
	c.dir = filepath.Join(mid, "sess")
	l, _ := sc.Cfg["keys"].([]any)
	for _, k := range l {
		b, err := base64.StdEncoding.DecodeString(k.(string))
		must(err)
		if strings.HasPrefix(string(b), "%GEN") {
			// A key of the default generator
			b = []byte(wwr.NewDefaultSessionKeyGenerator().Generate())
		}
		c.keys = append(c.keys, strings.Replace(string(b), "%ROOT%", c.root, -1))
	}
	if sc.Cfg["plant"] == true {
		must(os.MkdirAll(filepath.Join(c.dir, "sub"), 0755))
		for _, d := range []string{c.root, filepath.Dir(mid), mid, filepath.Join(c.dir, "sub")} {
			for _, n := range []string{"p.wwrsess", "p", ".wwrsess", "sess.wwrsess", "q.txt"} {
				c.plant(filepath.Join(d, n))
			}
		}
		for _, n := range []string{"q.txt", "noext", "notes.wwrsess.bak"} {
			c.plant(filepath.Join(c.dir, n))
		}
	}
	must(os.Chdir(mid))
	switch sim.Str(sc.Cfg, "dir") {
	case "":
		c.arg = c.dir
	case "slash":
		c.arg = c.dir + "/"
	case "rel":
		c.arg = "sess"
	case "dot":
		c.arg = "./../mid/./sess"
	case "deep":
		c.dir = filepath.Join(mid, "x", "y", "sess")
		c.arg = c.dir
	case "default":
		c.arg = ""
		c.dir = filepath.Join(mid, "wwrsess")
		os.Args[0] = filepath.Join(mid, "prog")
	}
	c.start(sc.Cfg["srv"] == true)
	c.before = c.outside()
	return c
}

func (c *comp) start(srv bool) {
	if srv {
		c.be = newBackend(c)
	} else {
		c.mng = wwr.NewDefaultSessionManager(c.arg)
	}
}

func (c *comp) plant(p string) {
	c.planted[p] = session
	must(ioutil.WriteFile(p, []byte(session), 0644))
}

// outside describes everything that isn't a session file
func (c *comp) outside() string {
	var l []string
	filepath.Walk(c.root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			l = append(l, p+" ?")
			return nil
		}
		r, _ := filepath.Rel(c.root, p)
		if strings.HasPrefix(p, c.dir+fmt.Sprint("-", c.gen+1)) {
			return nil
		}
		if filepath.Dir(p) == c.dir && i.Mode().IsRegular() && c.planted[p] == "" {
			return nil
		}
		s := r + " " + i.Mode().String()
		if p == c.dir {
			s = r
		}
		if i.Mode().IsRegular() {
			b, _ := ioutil.ReadFile(p)
			s += " " + string(b)
		}
		l = append(l, s)
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (c *comp) key(op sim.Ev) string { return c.keys[sim.Num(op, "key")-1] }

func (c *comp) same(n int, info map[string]interface{}) bool {
	want := infos[c.inf[n]]
	if len(info) == 0 && len(want) == 0 {
		return true
	}
	a, err := json.Marshal(info)
	b, _ := json.Marshal(want)
	return err == nil && string(a) == string(b)
}

func (c *comp) Do(w int, op sim.Ev) (res sim.Ev) {
	n, k := sim.Num(op, "n"), sim.Num(op, "key")
	key := c.key(op)
	c.mu.Lock()
	mng, epoch := c.mng, c.epoch
	c.busy++
	c.mu.Unlock()
	start := time.Now()
	defer func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		c.busy--
		if epoch != c.epoch {
			res = sim.Ev{"r": "gone"}
		}
	}()
	if c.be != nil {
		return c.served(n, op, key, start)
	}
	switch sim.Str(op, "k") {
	case "create":
		i := sim.Num(op, "i")
		s := &wwr.Session{Key: key, Creation: creation(n), LastLookup: creation(n)}
		if infos[i] != nil {
			s.Info = wwr.GenericSessionInfoParser(infos[i])
		}
		x := &con{sess: s}
		c.mu.Lock()
		c.cre[n], c.inf[n] = s.Creation, i
		c.cons[k] = append(c.cons[k], x)
		c.mu.Unlock()
		if mng.OnSessionCreated(x) != nil {
			return sim.Ev{"r": "err"}
		}
		return sim.Ev{"r": "ok"}
	case "close":
		c.mu.Lock()
		for _, x := range c.cons[k] {
			x.close()
		}
		c.cons[k] = nil
		c.mu.Unlock()
		if mng.OnSessionClosed(key) != nil {
			return sim.Ev{"r": "err"}
		}
		return sim.Ev{"r": "ok"}
	case "lookup":
		c.mu.Lock()
		c.looks[n] = span{a: start}
		c.mu.Unlock()
		r, err := mng.OnSessionLookup(key)
		end := time.Now()
		var cre, last time.Time
		var info map[string]interface{}
		if err == nil && r != nil {
			cre, last, info = r.Creation(), r.LastLookup(), r.Info()
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		c.looks[n] = span{start, end}
		if err != nil {
			return sim.Ev{"r": "err"}
		}
		if r == nil {
			return sim.Ev{"r": "none"}
		}
		return c.found(cre, last, info)
	}
	panic("unknown operation " + sim.Str(op, "k"))
}

// served performs the operation through a server, it's the only one going on
func (c *comp) served(n int, op sim.Ev, key string, start time.Time) sim.Ev {
	r := c.be.do(op, key)
	c.mu.Lock()
	defer c.mu.Unlock()
	switch sim.Str(op, "k") {
	case "create":
		c.inf[n] = sim.Num(op, "i")
		if r["r"] == "ok" {
			c.cre[n] = c.cre[0]
		}
		delete(c.cre, 0)
	case "lookup":
		c.looks[n] = span{start, time.Now()}
		if j, ok := r["j"].(wwr.JSONEncodedSession); ok {
			return c.found(j.Creation, j.LastLookup, j.Info)
		}
	}
	return r
}

// found describes the session that was found
func (c *comp) found(cre, last time.Time, info map[string]interface{}) sim.Ev {
	res := sim.Ev{"r": "found", "c": 0, "i": false}
	for m, t := range c.cre {
		if cre.Equal(t) {
			res["c"], res["i"] = m, c.same(m, info)
		}
	}
	by := []int{}
	for m, s := range c.looks {
		if !last.Before(s.a) && (s.b.IsZero() || !last.After(s.b)) {
			by = append(by, m)
		}
	}
	for m, t := range c.cre {
		if t.Equal(last) {
			by = append(by, m)
		}
	}
	sort.Ints(by)
	res["by"] = by
	return res
}

func limit(n uint64) {
	var l syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l))
	l.Cur = l.Max
	if n < l.Max {
		l.Cur = n
	}
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
}

func (c *comp) Env(op sim.Ev) {
	switch sim.Str(op, "k") {
	case "limit":
		limit(uint64(sim.Num(op, "v")))
	case "ro":
		os.Chmod(c.dir, 0555)
	case "heal":
		limit(math.MaxUint64)
		os.Chmod(c.dir, 0755)
	case "restart":
		// A crash, if anything is in progress
		c.mu.Lock()
		defer c.mu.Unlock()
		c.epoch++
		c.cons = map[int][]*con{}
		if c.busy > 0 {
			var l syscall.Rlimit
			must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l))
			limit(math.MaxUint64)
			c.copyDir()
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
		}
		c.start(c.be != nil)
	}
}

// copyDir replaces the session directory by a copy, nobody who's still working
// on it has an effect anymore
func (c *comp) copyDir() {
	os.Chmod(c.dir, 0755)
	c.gen++
	old := c.dir
	tmp := fmt.Sprint(c.dir, "-", c.gen)
	must(os.Mkdir(tmp, 0755))
	fs, err := ioutil.ReadDir(old)
	must(err)
	for _, f := range fs {
		if f.Mode().IsRegular() {
			b, err := ioutil.ReadFile(filepath.Join(old, f.Name()))
			must(err)
			must(ioutil.WriteFile(filepath.Join(tmp, f.Name()), b, f.Mode()))
		}
	}
	c.dir, c.arg = tmp, tmp
	c.before = c.outside()
}

func (c *comp) Observe() sim.Ev {
	return sim.Ev{"out": c.gen > 0 || c.outside() == c.before}
}

func (c *comp) Finish() bool { return false }

func (c *comp) Close() {
	limit(math.MaxUint64)
	os.Chmod(c.dir, 0755)
	os.Chdir(scratch)
	os.RemoveAll(c.root)
}

var scratch string
var runs int

func main() {
	signal.Ignore(syscall.SIGXFSZ)
	var err error
	scratch, err = ioutil.TempDir(os.Getenv("WWV_SCRATCH"), "store")
	must(err)
	const nobody = 65534
	must(os.Chown(scratch, nobody, nobody))
	must(os.Chdir(scratch))
	if os.Getuid() == 0 {
		must(syscall.Setgroups(nil))
		must(syscall.Setgid(nobody))
		must(syscall.Setuid(nobody))
	}
	sim.Main(func(sc *sim.Scenario, rec *sim.Rec) sim.Comp {
		return newComp(sc, rec)
	})
}
