// race runs the real code with real parallelism, without any instrumentation,
// meant to be built with the race detector: the specifications describe the
// system by atomic steps, which requires the code to be free of data races. It
// also checks the invariants of the specifications that can be read off a run.
//
// A line "X <component> <what>" reports a broken invariant
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"
)

var outMu sync.Mutex
var failed bool

func bad(comp, f string, a ...interface{}) {
	outMu.Lock()
	defer outMu.Unlock()
	failed = true
	fmt.Println("X "+comp, fmt.Sprintf(f, a...))
}

// hang reports what didn't end
func hang(comp, what string) {
	bad(comp, "%s doesn't end", what)
	buf := make([]byte, 1<<20)
	os.Stderr.Write(buf[:runtime.Stack(buf, true)])
	os.Exit(1)
}

// soon complains if the condition isn't met in time
func soon(f func() bool, comp, what string) {
	end := time.Now().Add(20 * time.Second)
	for !f() {
		if time.Now().After(end) {
			bad(comp, "%s", what)
			return
		}
		time.Sleep(100 * time.Microsecond)
	}
}

func wait(comp, what string, wg *sync.WaitGroup) {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		hang(comp, what)
	}
}

func main() {
	mode := flag.String("mode", "srv", "")
	seed := flag.Int64("seed", 1, "")
	secs := flag.Float64("secs", 5, "")
	max := flag.Int("rounds", 1<<30, "")
	flag.Parse()
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	n := 0
	for ; n < *max && time.Now().Before(end) && !failed; n++ {
		rnd := rand.New(rand.NewSource(*seed*1000003 + int64(n)))
		switch *mode {
		case "srv":
			srvRound(rnd)
		case "mem":
			memRound(rnd)
		case "req":
			reqRound(rnd)
		case "store":
			storeRound(rnd)
		}
	}
	fmt.Println("rounds", n)
	if failed {
		os.Exit(1)
	}
}
