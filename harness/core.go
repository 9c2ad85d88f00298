// Conformance driver: executes histories (scripts generated by TLC from the
// TLA+ specifications, or seeded random ones) on the real gost code through
// its public API and records one trace line per call for TLC to validate.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Op is one call of a history: a name and integer arguments.
type Op struct {
	Op string `json:"op"`
	A  []int  `json:"a"`
}

// Comp is one object under test (with whatever partner objects it needs).
type Comp interface {
	// Exec runs the call on the real code and returns kind and value of its result.
	Exec(op string, a []int) (string, []int)
	// State projects the real object to the specification's state.
	State() [][]int
	// Gen draws the next call of a random history. step 0 must be the "new" call.
	Gen(r *rand.Rand, step, length int) Op
}

// Finisher lets a component release resources at the end of an episode.
type Finisher interface{ Finish() }

// Extra lets a component attach logged fields beyond op/a/k/v/s.
type Extra interface{ Fields() map[string]any }

type tracer struct {
	mu      sync.Mutex
	w       *bufio.Writer
	f       *os.File
	n       int
	sync    bool
	inop    atomic.Int64 // 0: idle, otherwise start time in ns of the call under way
	cur     atomic.Value // Op
	limitMB uint64
}

func ints(b []byte, xs []int) []byte {
	b = append(b, '[')
	for i, x := range xs {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(x), 10)
	}
	return append(b, ']')
}

func (t *tracer) line(op Op, k string, v []int, s [][]int, extra map[string]any) {
	b := make([]byte, 0, 256)
	b = append(b, `{"op":"`...)
	b = append(b, op.Op...)
	b = append(b, `","a":`...)
	b = ints(b, op.A)
	b = append(b, `,"k":"`...)
	b = append(b, k...)
	b = append(b, `","v":`...)
	b = ints(b, v)
	b = append(b, `,"s":[`...)
	for i, x := range s {
		if i > 0 {
			b = append(b, ',')
		}
		b = ints(b, x)
	}
	b = append(b, ']')
	for name, val := range extra {
		j, err := json.Marshal(val)
		if err != nil {
			panic(err)
		}
		b = append(b, `,"`...)
		b = append(b, name...)
		b = append(b, `":`...)
		b = append(b, j...)
	}
	b = append(b, '}', '\n')
	t.mu.Lock()
	t.w.Write(b)
	t.n++
	if t.sync {
		t.w.Flush()
	}
	t.mu.Unlock()
}

// begin marks the call as in flight; in sync mode it also leaves a durable
// note, so that a call that brings the process down can be identified.
func (t *tracer) begin(op Op) {
	t.cur.Store(op)
	if t.sync {
		j, _ := json.Marshal(op)
		os.WriteFile(t.f.Name()+".inflight", j, 0o644)
	}
	t.inop.Store(time.Now().UnixNano())
}

func (t *tracer) end() { t.inop.Store(0) }

// watchdog turns a call that does not return, or that eats all memory, into a
// recorded result ("hang"); the process cannot go on after that.
func (t *tracer) watchdog(limit time.Duration) {
	var ms runtime.MemStats
	for {
		time.Sleep(200 * time.Millisecond)
		st := t.inop.Load()
		if st == 0 {
			continue
		}
		late := time.Duration(time.Now().UnixNano()-st) > limit
		if !late {
			runtime.ReadMemStats(&ms)
		}
		if late || ms.HeapAlloc > t.limitMB<<20 {
			if t.inop.Load() != st {
				continue
			}
			t.line(t.cur.Load().(Op), "hang", []int{}, [][]int{}, nil)
			t.mu.Lock()
			t.w.Flush()
			fmt.Fprintln(os.Stderr, "DRIVER-HANG", t.cur.Load())
			os.Exit(3)
		}
	}
}

// call runs one operation on the real code; a panic of the code under test is
// a result, not a failure of the driver.
func (t *tracer) call(c Comp, op Op) (panicked bool) {
	var k string
	var v []int
	var s [][]int
	func() {
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(harnessError); ok {
					fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", string(he), op)
					os.Exit(2)
				}
				k, v, s, panicked = "panic", []int{}, nil, true
				t.lastPanic(r)
			}
		}()
		t.begin(op)
		k, v = c.Exec(op.Op, op.A)
		s = c.State()
	}()
	t.end()
	if v == nil {
		v = []int{}
	}
	var x map[string]any
	if e, ok := c.(Extra); ok && !panicked {
		x = e.Fields()
	}
	t.line(op, k, v, s, x)
	return panicked
}

var panicText atomic.Value

func (t *tracer) lastPanic(r any) { panicText.Store(fmt.Sprint(r)) }

// harnessError reports a mistake of the harness itself (bad script, bad codec).
type harnessError string

func bad(format string, args ...any) { panic(harnessError(fmt.Sprintf(format, args...))) }

// ---------------------------------------------------------------- helpers

func b2i(b bool) []int {
	if b {
		return []int{1}
	}
	return []int{0}
}

func txt(s string) []int {
	out := make([]int, 0, len(s))
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func byts(s string) []int {
	out := make([]int, 0, len(s))
	for i := 0; i < len(s); i++ {
		out = append(out, int(s[i]))
	}
	return out
}

func untxt(a []int) string {
	out := []byte{}
	for _, x := range a {
		if x >= 2000000 { // a byte that is no character's
			out = append(out, byte(x-2000000))
		} else {
			out = append(out, string(rune(x))...)
		}
	}
	return string(out)
}
