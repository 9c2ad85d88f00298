package main

import (
	"math/rand"
	"sync/atomic"

	"github.com/myyrakle/gost"
)

type mutexAny struct {
	in Comp
}

func (v *mutexAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[0] {
		case 0:
			v.in = &mutexComp[gost.I32]{c: i32Codec}
		case 1:
			v.in = &mutexComp[gost.String]{c: strCodec}
		}
	}
	return v.in.Exec(op, a)
}
func (v *mutexAny) State() [][]int { return v.in.State() }
func (v *mutexAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{r.Intn(2), r.Intn(50)}}
	}
	return v.in.Gen(r, step, length)
}
func (v *mutexAny) Finish() {
	if f, ok := v.in.(Finisher); ok {
		f.Finish()
	}
}

const mutexCallers = 6

type mutexComp[T any] struct {
	c       Codec[T]
	m       *gost.Mutex[T]
	m2      *gost.Mutex[T] // used by the driver alone
	held2   *T
	st      [mutexCallers + 1]atomic.Int32 // 0 idle, 1 waiting, 2 holding
	ptr     [mutexCallers + 1]*T
	evs     [][]int
	stuck   bool
	stormed bool
}

func (x *mutexComp[T]) State() [][]int {
	pcs, seen := []int{}, []int{}
	for i := 1; i <= mutexCallers; i++ {
		s := int(x.st[i].Load())
		pcs = append(pcs, s)
		if s == 2 && x.ptr[i] != nil {
			seen = append(seen, x.c.Dec(*x.ptr[i]))
		}
	}
	return [][]int{pcs, seen}
}

func (x *mutexComp[T]) count(s int32) (n int) {
	for i := 1; i <= mutexCallers; i++ {
		if x.st[i].Load() == s {
			n++
		}
	}
	return
}

// promptly runs f, which has nobody to wait for.
func promptly(f func()) bool {
	var done atomic.Bool
	go func() {
		f()
		done.Store(true)
	}()
	return must(done.Load)
}

// Finish lets whoever still waits go.
func (x *mutexComp[T]) Finish() {
	for k := 0; k < 2*mutexCallers && x.count(2) > 0; k++ {
		for i := 1; i <= mutexCallers; i++ {
			if x.st[i].Load() == 2 {
				w := x.count(1)
				x.st[i].Store(0)
				func() {
					defer func() { recover() }()
					x.m.Unlock()
				}()
				if w > 0 && !gaveUp.Load() {
					within(soon, func() bool { return x.count(1) < w })
				}
			}
		}
	}
}

func (x *mutexComp[T]) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		m := gost.MutexNew[T](x.c.Enc(a[1]))
		x.m = &m
		m2 := gost.MutexNew[T](x.c.Enc(a[1]))
		x.m2, x.held2 = &m2, nil
	case "lock2":
		if x.held2 != nil {
			return "skip", nil
		}
		var p *T
		if !promptly(func() { p = x.m2.Lock() }) {
			return "blocked", nil
		}
		x.held2 = p
		return "ok", []int{x.c.Dec(*p)}
	case "trylock2":
		var t gost.Result[*T]
		if !promptly(func() { t = x.m2.TryLock() }) {
			return "blocked", nil
		}
		if t.IsErr() {
			return "err", nil
		}
		x.held2 = t.Unwrap()
		return "ok", []int{x.c.Dec(*x.held2)}
	case "unlock2":
		if x.held2 == nil {
			return "skip", nil
		}
		x.held2 = nil
		if !promptly(x.m2.Unlock) {
			return "blocked", nil
		}
	case "set2":
		if x.held2 == nil {
			return "skip", nil
		}
		*x.held2 = x.c.Enc(a[0])
	case "lock":
		c := a[0]
		if x.st[c].Load() != 0 {
			return "skip", nil
		}
		free := x.count(2) == 0
		x.st[c].Store(1)
		go func() {
			p := x.m.Lock()
			x.ptr[c] = p
			x.st[c].Store(2)
		}()
		if free {
			must(func() bool { return x.st[c].Load() == 2 })
		} else {
			ms := 2
			if len(a) > 1 {
				ms = a[1]
			}
			mustNot(ms)
		}
	case "trylock":
		c := a[0]
		if x.st[c].Load() != 0 {
			return "skip", nil
		}
		var answered atomic.Int32
		var v []int
		go func() {
			r := x.m.TryLock()
			if r.IsOk() {
				x.ptr[c] = r.Unwrap()
				v = []int{x.c.Dec(*x.ptr[c])}
				x.st[c].Store(2)
				answered.Store(1)
			} else {
				answered.Store(2)
			}
		}()
		if !must(func() bool { return answered.Load() != 0 }) {
			return "blocked", nil
		}
		if answered.Load() == 1 {
			return "ok", v
		}
		return "err", nil
	case "unlock":
		c := a[0]
		if x.st[c].Load() != 2 {
			return "skip", nil
		}
		w := x.count(1)
		x.st[c].Store(0)
		x.ptr[c] = nil
		x.m.Unlock()
		if w > 0 {
			must(func() bool { return x.count(1) < w })
		}
		if w > 1 {
			mustNot(1)
		}
	case "set":
		if x.st[a[0]].Load() != 2 {
			return "skip", nil
		}
		*x.ptr[a[0]] = x.c.Enc(a[1])
	case "storm":
		x.storm(int64(a[0]), a[1], a[2])
		x.stormed = true
		if x.stuck {
			return "stuck", nil
		}
	case "ev":
		if len(x.evs) == 0 {
			return "none", []int{0, 1, 0}
		}
		d := x.evs[0]
		x.evs = x.evs[1:]
		return "ev", d
	case "calm":
	default:
		bad("mutex op %s", op)
	}
	return "unit", nil
}

// storm lets n callers take and leave the mutex k times each.
func (x *mutexComp[T]) storm(seed int64, n, k int) {
	m := gost.MutexNew[T](x.c.Enc(0))
	ev := &events{}
	fs := []func(){}
	for c := 1; c <= n; c++ {
		c := c
		r := rand.New(rand.NewSource(seed*100 + int64(c)))
		fs = append(fs, func() {
			note, flush := ev.writer()
			defer flush()
			for i := 0; i < k; i++ {
				var p *T
				if r.Intn(3) == 0 {
					note(6, c, 0)
					t := m.TryLock()
					if t.IsErr() {
						note(8, c, 0)
						jitter(r)
						continue
					}
					p = t.Unwrap()
					v := x.c.Dec(*p)
					note(7, c, v)
				} else {
					note(1, c, 0)
					p = m.Lock()
					v := x.c.Dec(*p)
					note(2, c, v)
				}
				jitter(r)
				if r.Intn(4) != 0 {
					v := x.c.Dec(*p) + 1
					*p = x.c.Enc(v)
					note(3, c, v)
				}
				jitter(r)
				note(9, c, x.c.Dec(*p))
				note(4, c, 0)
				m.Unlock()
				note(5, c, 0)
				jitter(r)
			}
		})
	}
	if !group(fs) {
		x.stuck = true
		return
	}
	x.evs = ev.sorted()
}

func (x *mutexComp[T]) Gen(r *rand.Rand, step, length int) Op {
	if x.stormed {
		if len(x.evs) > 0 {
			return Op{"ev", nil}
		}
		x.stormed = false
		return Op{"calm", []int{0}}
	}
	if flagVariant == "storm" {
		return Op{"storm", []int{r.Intn(1 << 20), 2 + r.Intn(mutexCallers-1), 6 + r.Intn(30)}}
	}
	for {
		c := 1 + r.Intn(mutexCallers)
		switch s := x.st[c].Load(); {
		case r.Intn(6) == 0:
			if x.held2 != nil && r.Intn(3) == 0 {
				return Op{"set2", []int{1 + r.Intn(1000)}}
			}
			return Op{[]string{"lock2", "trylock2", "unlock2", "unlock2"}[r.Intn(4)], []int{0}}
		case s == 0 && r.Intn(3) == 0:
			return Op{"trylock", []int{c}}
		case s == 0 && r.Intn(2) == 0:
			if r.Intn(300) == 0 {
				return Op{"lock", []int{c, 300}}
			}
			return Op{"lock", []int{c}}
		case s == 2 && r.Intn(2) == 0:
			return Op{"set", []int{c, 1 + r.Intn(1000)}}
		case s == 2:
			return Op{"unlock", []int{c}}
		}
	}
}
