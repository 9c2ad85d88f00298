package main

import (
	"errors"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
)

type futAny struct {
	in Comp
}

// results whose value is an error or a number
var resCodec = Codec[gost.Result[gost.I32]]{
	Enc: func(i int) gost.Result[gost.I32] {
		if i%2 == 1 {
			return gost.Err[gost.I32](futErr(i))
		}
		return gost.Ok(gost.I32(i))
	},
	Dec: func(x gost.Result[gost.I32]) int {
		if x.IsErr() {
			var e futErr
			if errors.As(x.UnwrapErr(), &e) {
				return int(e)
			}
			return -998
		}
		return int(x.Unwrap())
	},
}

type futErr int

func (futErr) Error() string { return "no" }

// anything, 0 being nil
var anyCodec = Codec[any]{
	Enc: func(i int) any {
		switch {
		case i == 0:
			return nil
		case i%2 == 1:
			return gost.String(strCodec.Enc(i))
		}
		return gost.I32(i)
	},
	Dec: func(x any) int {
		switch v := x.(type) {
		case nil:
			return 0
		case gost.String:
			return strCodec.Dec(v)
		case gost.I32:
			return int(v)
		}
		return -997
	},
}

// pointers, to see whether the very same one comes back
type cell struct{ n int }

func ptrCodec() Codec[*cell] {
	var mu sync.Mutex
	known := map[int]*cell{}
	return Codec[*cell]{
		Enc: func(i int) *cell {
			mu.Lock()
			defer mu.Unlock()
			if known[i] == nil {
				known[i] = &cell{i}
			}
			return known[i]
		},
		Dec: func(p *cell) int {
			mu.Lock()
			defer mu.Unlock()
			if p == nil || known[p.n] != p {
				return -996
			}
			return p.n
		},
	}
}

func (v *futAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[0] {
		case 0:
			v.in = &futComp[gost.I32]{c: i32Codec}
		case 1:
			v.in = &futComp[gost.String]{c: strCodec}
		case 2:
			v.in = &futComp[any]{c: anyCodec}
		case 3:
			v.in = &futComp[gost.Result[gost.I32]]{c: resCodec}
		case 4:
			v.in = &futComp[*cell]{c: ptrCodec()}
		}
	}
	return v.in.Exec(op, a)
}
func (v *futAny) State() [][]int { return v.in.State() }
func (v *futAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{r.Intn(5)}}
	}
	return v.in.Gen(r, step, length)
}
func (v *futAny) Finish() { v.in.(Finisher).Finish() }

const futs, futCallers = 6, 6

type futComp[T any] struct {
	c       Codec[T]
	fut     [futs + 1]gost.Future[T]
	gate    [futs + 1]chan struct{}
	dep     [futs + 1]int
	opened  [futs + 1]bool
	runs    [futs + 1]atomic.Int32
	ended   [futs + 1]atomic.Bool
	aw      [futCallers + 1]atomic.Int32
	got     [futCallers + 1]atomic.Int32
	evs     [][]int
	stuck   bool
	stormed bool
}

func (x *futComp[T]) State() [][]int {
	s := make([][]int, 4)
	for i := 1; i <= futs; i++ {
		s[0] = append(s[0], int(x.runs[i].Load()))
		s[3] = append(s[3], b2i(x.ended[i].Load())...)
	}
	for a := 1; a <= futCallers; a++ {
		s[1] = append(s[1], int(x.aw[a].Load()))
		s[2] = append(s[2], int(x.got[a].Load()))
	}
	return s
}

func (x *futComp[T]) Finish() {
	for i := 1; i <= futs; i++ {
		if x.fut[i] != nil && !x.opened[i] {
			x.opened[i] = true
			close(x.gate[i])
		}
	}
}

// clear: can computation i come to its end?
func (x *futComp[T]) clear(i int) bool {
	return i == 0 || x.opened[i] && x.clear(x.dep[i])
}

// settled: has everything happened that has to?
func (x *futComp[T]) settled() bool {
	for i := 1; i <= futs; i++ {
		if x.fut[i] != nil && (x.runs[i].Load() == 0 || x.clear(i) && !x.ended[i].Load()) {
			return false
		}
	}
	for a := 1; a <= futCallers; a++ {
		if i := int(x.aw[a].Load()); i != 0 && x.clear(i) {
			return false
		}
	}
	return true
}

func (x *futComp[T]) waiting() bool {
	for a := 1; a <= futCallers; a++ {
		if x.aw[a].Load() != 0 {
			return true
		}
	}
	return false
}

func (x *futComp[T]) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		for i := range x.got {
			x.got[i].Store(-1)
		}
		return "unit", nil
	case "start":
		i, v, dep := a[0], x.c.Enc(a[1]), x.fut[a[2]]
		x.gate[i] = make(chan struct{})
		x.dep[i] = a[2]
		gate := x.gate[i]
		var back atomic.Bool
		go func() {
			x.fut[i] = gokio.Spawn(func() T {
				x.runs[i].Add(1)
				if dep != nil {
					dep.Await()
				}
				<-gate
				x.ended[i].Store(true)
				return v
			})
			back.Store(true)
		}()
		if !must(back.Load) {
			return "blocked", nil
		}
	case "open":
		x.opened[a[0]] = true
		close(x.gate[a[0]])
	case "await":
		c, f := a[0], x.fut[a[1]]
		x.got[c].Store(-1)
		x.aw[c].Store(int32(a[1]))
		go func() {
			v := f.Await()
			x.got[c].Store(int32(x.c.Dec(v)))
			x.aw[c].Store(0)
		}()
	case "crowd":
		return x.crowd(a[0])
	case "plain":
		return x.plain(int64(a[0]), a[1])
	case "storm":
		x.storm(int64(a[0]), a[1], a[2])
		x.stormed = true
		if x.stuck {
			return "stuck", nil
		}
		return "unit", nil
	case "ev":
		if len(x.evs) == 0 {
			return "none", []int{0, 1, 0}
		}
		d := x.evs[0]
		x.evs = x.evs[1:]
		return "ev", d
	case "calm":
		return "unit", nil
	default:
		bad("future op %s", op)
	}
	must(x.settled)
	if op == "await" && len(a) > 2 {
		mustNot(a[2])
	} else if x.waiting() {
		mustNot(1)
	}
	return "unit", nil
}

// crowd: n computations that all have to be running before any may return.
func (x *futComp[T]) crowd(n int) (string, []int) {
	var running, right atomic.Int32
	gate := make(chan struct{})
	fs := make([]gost.Future[T], n)
	var back atomic.Bool
	go func() {
		for i := range fs {
			v := x.c.Enc(i)
			fs[i] = gokio.Spawn(func() T {
				running.Add(1)
				<-gate
				return v
			})
		}
		back.Store(true)
	}()
	all := must(func() bool { return back.Load() && int(running.Load()) == n })
	close(gate)
	if all {
		var left atomic.Int32
		left.Store(int32(n))
		for i := range fs {
			go func(i int) {
				if x.c.Dec(fs[i].Await()) == i {
					right.Add(1)
				}
				left.Add(-1)
			}(i)
		}
		must(func() bool { return left.Load() == 0 })
	}
	return "crowd", []int{int(running.Load()), int(right.Load())}
}

// plain: functions leave a note in ordinary memory, and whoever has awaited
// one reads it; nothing but the await orders the two.
func (x *futComp[T]) plain(seed int64, n int) (string, []int) {
	before := unordered()
	wrong := make([]int, n)
	fs := []func(){}
	for k := 0; k < n; k++ {
		k := k
		r := rand.New(rand.NewSource(seed*100 + int64(k)))
		v := x.c.Enc(k + 1)
		fs = append(fs, func() {
			notes := make([]int, 8)
			f := gokio.Spawn(func() T {
				jitter(r)
				for i := range notes {
					notes[i] = k + i
				}
				return v
			})
			done := make(chan int, 3)
			for c := 0; c < 3; c++ {
				rc := rand.New(rand.NewSource(seed*100 + int64(k)*10 + int64(c)))
				go func() {
					jitter(rc)
					bad := 0
					for again := 0; again < 2; again++ {
						if x.c.Dec(f.Await()) != k+1 {
							bad++
						}
						for i := range notes {
							if notes[i] != k+i {
								bad++
							}
						}
					}
					done <- bad
				}()
			}
			for c := 0; c < 3; c++ {
				wrong[k] += <-done
			}
		})
	}
	if !group(fs) {
		return "stuck", nil
	}
	sum := 0
	for _, w := range wrong {
		sum += w
	}
	return "plain", []int{sum, unordered() - before}
}

// storm lets computations and awaiting callers run freely.
func (x *futComp[T]) storm(seed int64, n, k int) {
	ev := &events{}
	fs := []func(){}
	var fut [futs + 1]atomic.Pointer[gost.Future[T]]
	for i := 1; i <= n; i++ {
		i := i
		r, rf := rand.New(rand.NewSource(seed*100+int64(i))), rand.New(rand.NewSource(seed*100+50+int64(i)))
		v := int(seed%50)*10 + i - 1
		fs = append(fs, func() {
			note, flush := ev.writer()
			defer flush()
			jitter(r)
			t := x.c.Enc(v)
			note(1, i, v)
			f := gokio.Spawn(func() T {
				note, flush := ev.writer()
				note(2, i, 0)
				jitter(rf)
				note(3, i, 0)
				flush()
				return t
			})
			fut[i].Store(&f)
		})
	}
	for c := 1; c <= futCallers; c++ {
		c := c
		r := rand.New(rand.NewSource(seed*100 + 20 + int64(c)))
		fs = append(fs, func() {
			note, flush := ev.writer()
			defer flush()
			for j := 0; j < n*k; j++ {
				i := 1 + (c+j+r.Intn(2))%n
				f := fut[i].Load()
				if !within(soon, func() bool { f = fut[i].Load(); return f != nil }) {
					return
				}
				note(4, c, i)
				v := (*f).Await()
				note(5, c, x.c.Dec(v))
				jitter(r)
			}
		})
	}
	if !group(fs) {
		x.stuck = true
		return
	}
	// a function that was never awaited runs too
	must(func() bool {
		ev.mu.Lock()
		defer ev.mu.Unlock()
		ends := 0
		for _, e := range ev.all {
			if e.d[0] == 3 {
				ends++
			}
		}
		return ends >= n
	})
	x.evs = ev.sorted()
}

func (x *futComp[T]) Gen(r *rand.Rand, step, length int) Op {
	if x.stormed {
		if len(x.evs) > 0 {
			return Op{"ev", nil}
		}
		x.stormed = false
		return Op{"calm", []int{0}}
	}
	switch flagVariant {
	case "storm":
		return Op{"storm", []int{r.Intn(1 << 20), 1 + r.Intn(futs), 1 + r.Intn(3)}}
	case "plain":
		return Op{"plain", []int{r.Intn(1 << 20), 1 + r.Intn(12)}}
	}
	if r.Intn(400) == 0 {
		return Op{"crowd", []int{1 + r.Intn(600)}}
	}
	for {
		switch i, c := 1+r.Intn(futs), 1+r.Intn(futCallers); r.Intn(4) {
		case 0:
			if x.fut[i] == nil {
				d := 0
				if j := r.Intn(futs + 1); r.Intn(3) == 0 && x.fut[j] != nil {
					d = j
				}
				return Op{"start", []int{i, r.Intn(200), d}}
			}
		case 1:
			if x.fut[i] != nil && !x.opened[i] {
				return Op{"open", []int{i}}
			}
		default:
			if x.fut[i] != nil && x.aw[c].Load() == 0 {
				if r.Intn(400) == 0 {
					return Op{"await", []int{c, i, 250}}
				}
				return Op{"await", []int{c, i}}
			}
		}
	}
}
