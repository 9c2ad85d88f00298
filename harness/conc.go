package main

import (
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// soon is how long something that has to happen may take before it counts as
// not happening; nothing is that slow unless it never comes.
const soon = 20 * time.Second

// gaveUp is set once something that has to happen did not: what follows would
// take too long, and the recorded history is enough.
var gaveUp atomic.Bool

// within waits until cond holds, at most d.
func within(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// must waits for something that has to happen.
func must(cond func() bool) bool {
	if within(soon, cond) {
		return true
	}
	gaveUp.Store(true)
	return false
}

// mustNot gives something that must not happen the time to happen.
func mustNot(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }

// events of concurrent callers, ordered by one counter that each of them
// advances when it notes an event.
type events struct {
	seq atomic.Int64
	mu  sync.Mutex
	all []event
}

type event struct {
	seq int64
	d   []int
}

// writer returns a function that notes events and one that hands them in.
func (e *events) writer() (note func(d ...int), flush func()) {
	own := []event{}
	note = func(d ...int) { own = append(own, event{e.seq.Add(1), d}) }
	flush = func() {
		e.mu.Lock()
		e.all = append(e.all, own...)
		e.mu.Unlock()
	}
	return
}

func (e *events) sorted() [][]int {
	sort.Slice(e.all, func(i, j int) bool { return e.all[i].seq < e.all[j].seq })
	out := [][]int{}
	for _, x := range e.all {
		out = append(out, x.d)
	}
	return out
}

func jitter(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := r.Intn(400); i > 0; i-- {
			_ = i
		}
	case 2:
		if r.Intn(12) == 0 {
			time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
		}
	}
}

// group runs the functions concurrently and reports whether all of them came back.
func group(fs []func()) bool {
	var left atomic.Int32
	left.Store(int32(len(fs)))
	start := make(chan struct{})
	for _, f := range fs {
		go func(f func()) {
			<-start
			f()
			left.Add(-1)
		}(f)
	}
	close(start)
	if !within(3*soon, func() bool { return left.Load() == 0 }) {
		gaveUp.Store(true)
		return false
	}
	return true
}
