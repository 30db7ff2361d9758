// Package quiet detects when all other goroutines of the process are blocked
package quiet

import (
	"bytes"
	"runtime"
	"time"
)

var buf = make([]byte, 1<<20)

// busy returns true if any goroutine other than the caller could still proceed
func busy() (bool, int) {
	n := runtime.Stack(buf, true)
	b := buf[:n]
	first := true
	total := 0
	for {
		// Header: "goroutine 12 [state, ...]:\n"
		if !bytes.HasPrefix(b, []byte("goroutine ")) {
			return true, total
		}
		i := bytes.IndexByte(b, '[')
		j := bytes.IndexByte(b, ']')
		if i < 0 || j < i {
			return true, total
		}
		if !first {
			st := b[i+1 : j]
			if k := bytes.IndexByte(st, ','); k >= 0 {
				st = st[:k]
			}
			switch string(st) {
			case "chan receive", "chan send", "select", "select (no cases)",
				"chan receive (nil chan)", "chan send (nil chan)",
				"sync.Mutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Lock",
				"semacquire", "sync.Cond.Wait", "sync.WaitGroup.Wait",
				"IO wait":
				total++
			case "finalizer wait", "cleanup wait":
			default:
				return true, total
			}
		}
		first = false
		k := bytes.Index(b, []byte("\n\n"))
		if k < 0 {
			return false, total
		}
		b = b[k+2:]
	}
}

// Wait blocks until everything else is blocked. It returns false if that didn't
// happen in time
func Wait(timeout time.Duration) bool {
	for i := 0; i < 16; i++ {
		runtime.Gosched()
	}
	var deadline time.Time
	for i := 0; ; i++ {
		if b, _ := busy(); !b {
			return true
		}
		if i == 0 {
			deadline = time.Now().Add(timeout)
		} else if i%16 == 0 && time.Now().After(deadline) {
			return false
		}
		for k := 0; k < 8; k++ {
			runtime.Gosched()
		}
		if i > 50 {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// Goroutines returns the number of other blocked goroutines
func Goroutines() int {
	_, n := busy()
	return n
}
