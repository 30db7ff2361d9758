// Package vy implements the yield points the checks insert (through a build
// overlay, never into the tree) before the statements of the code under test.
package vy

import (
	"math/rand"
	"runtime"
	"sync"
)

// Park describes a parked goroutine: the goroutine reaching the At-th yield
// point is stopped there until it's released
type Park struct {
	At  int
	For int // number of driver steps to hold it (0: until the end)
}

var (
	mu       sync.Mutex
	on       bool
	count    int
	limit    int
	overrun  bool
	parks    map[int]int
	waiting  map[int]*parked
	noise    float64
	rnd      *rand.Rand
	disabled int
)

type parked struct {
	steps int // remaining driver steps
	ch    chan struct{}
	site  int
}

// Start begins a controlled run
func Start(p []Park, noiseLevel float64, seed int64, maxYields int) {
	mu.Lock()
	on = true
	count = 0
	limit = maxYields
	overrun = false
	parks = map[int]int{}
	for _, x := range p {
		parks[x.At] = x.For
	}
	waiting = map[int]*parked{}
	noise = noiseLevel
	if noise > 0 {
		rnd = rand.New(rand.NewSource(seed))
	}
	mu.Unlock()
}

// Stop ends a controlled run releasing everybody
func Stop() {
	mu.Lock()
	on = false
	for at, w := range waiting {
		close(w.ch)
		delete(waiting, at)
	}
	mu.Unlock()
}

// Pause disables the yield points (while the driver observes the state)
func Pause(p bool) {
	mu.Lock()
	if p {
		disabled++
	} else {
		disabled--
	}
	mu.Unlock()
}

// Count returns the number of yield points passed so far
func Count() int {
	mu.Lock()
	defer mu.Unlock()
	return count
}

// Overrun returns true if the run passed more yield points than allowed
func Overrun() bool {
	mu.Lock()
	defer mu.Unlock()
	return overrun
}

// Parked returns the number of currently parked goroutines
func Parked() int {
	mu.Lock()
	defer mu.Unlock()
	return len(waiting)
}

// Step tells the controller that a driver step is over and returns true if
// goroutines were released
func Step() bool {
	mu.Lock()
	defer mu.Unlock()
	released := false
	for at, w := range waiting {
		if w.steps > 0 {
			w.steps--
			if w.steps == 0 {
				close(w.ch)
				delete(waiting, at)
				released = true
			}
		}
	}
	return released
}

// ReleaseAll releases all parked goroutines, one at a time in order. It returns
// false if there were none
func ReleaseOne() bool {
	mu.Lock()
	defer mu.Unlock()
	min := -1
	for at := range waiting {
		if min < 0 || at < min {
			min = at
		}
	}
	if min < 0 {
		return false
	}
	close(waiting[min].ch)
	delete(waiting, min)
	return true
}

// Y is a yield point
func Y(site int) {
	mu.Lock()
	if !on || disabled > 0 {
		mu.Unlock()
		return
	}
	count++
	if count > limit {
		// Runaway execution: stop the goroutine for good
		overrun = true
		mu.Unlock()
		select {}
	}
	if f, ok := parks[count]; ok {
		w := &parked{steps: f, ch: make(chan struct{}), site: site}
		waiting[count] = w
		mu.Unlock()
		<-w.ch
		return
	}
	if noise > 0 && rnd.Float64() < noise {
		mu.Unlock()
		runtime.Gosched()
		return
	}
	mu.Unlock()
}
