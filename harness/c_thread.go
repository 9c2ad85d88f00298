package main

import (
	"math/rand"
	"slices"
	"sync/atomic"
	"time"

	"github.com/myyrakle/gost"
)

const works, workCallers = 6, 6

// threadComp spawns functions that wait for a gate, joins them and asks
// whether they are over.
type threadComp struct {
	handle  [works + 1]*gost.JoinHandle
	gate    [works + 1]chan struct{}
	dep     [works + 1]int
	opened  [works + 1]bool
	runs    [works + 1]atomic.Int32
	ended   [works + 1]atomic.Bool
	left    [works + 1]int // written by the function, plainly
	jo      [workCallers + 1]atomic.Int32
	got     [workCallers + 1]atomic.Int32
	evs     [][]int
	stuck   bool
	stormed bool
}

func (x *threadComp) State() [][]int {
	s := make([][]int, 4)
	for i := 1; i <= works; i++ {
		s[0] = append(s[0], int(x.runs[i].Load()))
		s[3] = append(s[3], b2i(x.ended[i].Load())...)
	}
	for a := 1; a <= workCallers; a++ {
		s[1] = append(s[1], int(x.jo[a].Load()))
		s[2] = append(s[2], int(x.got[a].Load()))
	}
	return s
}

func (x *threadComp) Finish() {
	for i := 1; i <= works; i++ {
		if x.handle[i] != nil && !x.opened[i] {
			x.opened[i] = true
			close(x.gate[i])
		}
	}
}

func (x *threadComp) clear(i int) bool {
	return i == 0 || x.opened[i] && x.clear(x.dep[i])
}

func (x *threadComp) settled() bool {
	for i := 1; i <= works; i++ {
		if x.handle[i] != nil && (x.runs[i].Load() == 0 || x.clear(i) && !x.ended[i].Load()) {
			return false
		}
	}
	for a := 1; a <= workCallers; a++ {
		if i := int(x.jo[a].Load()); i != 0 && x.clear(i) {
			return false
		}
	}
	return true
}

func (x *threadComp) joining() bool {
	for a := 1; a <= workCallers; a++ {
		if x.jo[a].Load() != 0 {
			return true
		}
	}
	return false
}

// ask calls f, which must not block.
func ask(f func() bool) (yes, back bool) {
	var ans atomic.Int32
	go func() {
		if f() {
			ans.Store(1)
		} else {
			ans.Store(2)
		}
	}()
	back = must(func() bool { return ans.Load() != 0 })
	return ans.Load() == 1, back
}

func (x *threadComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		for i := range x.got {
			x.got[i].Store(-1)
		}
		return "unit", nil
	case "spawn":
		i, v := a[0], a[1]
		var dep gost.JoinHandle
		joins := a[2] != 0
		if joins {
			dep = *x.handle[a[2]]
		}
		x.gate[i] = make(chan struct{})
		x.dep[i] = a[2]
		gate := x.gate[i]
		var h gost.JoinHandle
		var back atomic.Bool
		go func() {
			h = gost.Spawn(func() {
				x.runs[i].Add(1)
				if joins {
					dep.Join()
				}
				<-gate
				x.left[i] = v
				x.ended[i].Store(true)
			})
			back.Store(true)
		}()
		if !must(back.Load) {
			return "blocked", nil
		}
		x.handle[i] = &h
	case "open":
		x.opened[a[0]] = true
		close(x.gate[a[0]])
	case "join":
		c, i := a[0], a[1]
		h := *x.handle[i]
		x.got[c].Store(-1)
		x.jo[c].Store(int32(i))
		go func() {
			r := h.Join()
			if r.IsOk() {
				x.got[c].Store(int32(x.left[i]))
			} else {
				x.got[c].Store(-2)
			}
			x.jo[c].Store(0)
		}()
	case "query":
		h := *x.handle[a[0]]
		yes, back := ask(func() bool { return bool(h.IsFinished()) })
		if !back {
			return "blocked", nil
		}
		return "bool", b2i(yes)
	case "poll":
		h := *x.handle[a[0]]
		yes, _ := ask(func() bool { return within(soon, func() bool { return bool(h.IsFinished()) }) })
		return "bool", b2i(yes)
	case "sleep":
		d := gost.DurationNew(gost.U64(a[0]), gost.U32(a[1]))
		// several sleepers; the one that slept least counts
		least := make([]time.Duration, a[2])
		fs := []func(){}
		for i := range least {
			i := i
			fs = append(fs, func() {
				t := time.Now()
				gost.Sleep(d)
				least[i] = time.Since(t)
			})
		}
		if !group(fs) {
			return "stuck", []int{0, -1}
		}
		e := slices.Min(least)
		return "slept", []int{int(e / time.Second), int(e % time.Second)}
	case "sleeplong":
		d := []gost.Duration{
			gost.DurationFromSecs(3600),
			gost.DurationFromSecs(9_300_000_000),
			gost.DurationFromSecs(1 << 34),
			gost.DurationNew(9_223_372_036, 999_999_999),
			gost.DurationFromSecs(1<<63 + 5),
			gost.DurationNew(1<<64-1, 999_999_999),
		}[a[0]]
		var over, broken atomic.Bool
		go func() {
			defer func() {
				if recover() != nil {
					broken.Store(true)
				}
			}()
			gost.Sleep(d)
			over.Store(true)
		}()
		mustNot(a[1])
		if broken.Load() {
			return "panicked", nil
		}
		if over.Load() {
			return "awake", nil
		}
		return "asleep", nil
	case "crowd":
		return x.crowd(a[0])
	case "plain":
		return x.plain(int64(a[0]), a[1])
	case "storm":
		x.storm(int64(a[0]), a[1], a[2])
		x.stormed = true
		if x.stuck {
			return "stuck", nil
		}
		return "unit", nil
	case "ev":
		if len(x.evs) == 0 {
			return "none", []int{0, 1, 0}
		}
		d := x.evs[0]
		x.evs = x.evs[1:]
		return "ev", d
	case "calm":
		return "unit", nil
	default:
		bad("thread op %s", op)
	}
	must(x.settled)
	if op == "join" && len(a) > 2 {
		mustNot(a[2])
	} else if x.joining() {
		mustNot(1)
	}
	return "unit", nil
}

func (x *threadComp) crowd(n int) (string, []int) {
	var running, over atomic.Int32
	gate := make(chan struct{})
	hs := make([]gost.JoinHandle, n)
	var back atomic.Bool
	go func() {
		for i := range hs {
			hs[i] = gost.Spawn(func() {
				running.Add(1)
				<-gate
			})
		}
		back.Store(true)
	}()
	all := must(func() bool { return back.Load() && int(running.Load()) == n })
	close(gate)
	if all {
		var left atomic.Int32
		left.Store(int32(n))
		for i := range hs {
			go func(h gost.JoinHandle) {
				if r := h.Join(); r.IsOk() {
					over.Add(1)
				}
				left.Add(-1)
			}(hs[i])
		}
		must(func() bool { return left.Load() == 0 })
	}
	return "crowd", []int{int(running.Load()), int(over.Load())}
}

// plain: functions write ordinary memory and whoever has joined one reads it;
// nothing but the join orders the two.
func (x *threadComp) plain(seed int64, n int) (string, []int) {
	before := unordered()
	wrong := make([]int, n)
	fs := []func(){}
	for k := 0; k < n; k++ {
		k := k
		r := rand.New(rand.NewSource(seed*100 + int64(k)))
		fs = append(fs, func() {
			notes := make([]int, 8)
			h := gost.Spawn(func() {
				jitter(r)
				for i := range notes {
					notes[i] = k + i + 1
				}
			})
			done := make(chan int, 3)
			for c := 0; c < 3; c++ {
				rc := rand.New(rand.NewSource(seed*100 + int64(k)*10 + int64(c)))
				go func(h gost.JoinHandle) {
					jitter(rc)
					bad := 0
					for again := 0; again < 2; again++ {
						if rc.Intn(2) == 0 {
							h.IsFinished()
						}
						if r := h.Join(); r.IsErr() {
							bad++
						}
						for i := range notes {
							if notes[i] != k+i+1 {
								bad++
							}
						}
					}
					done <- bad
				}(h)
			}
			for c := 0; c < 3; c++ {
				wrong[k] += <-done
			}
		})
	}
	if !group(fs) {
		return "stuck", nil
	}
	sum := 0
	for _, w := range wrong {
		sum += w
	}
	return "plain", []int{sum, unordered() - before}
}

func (x *threadComp) storm(seed int64, n, k int) {
	ev := &events{}
	fs := []func(){}
	var hs [works + 1]atomic.Pointer[gost.JoinHandle]
	var left [works + 1]int
	for i := 1; i <= n; i++ {
		i := i
		r, rf := rand.New(rand.NewSource(seed*100+int64(i))), rand.New(rand.NewSource(seed*100+50+int64(i)))
		v := int(seed%50)*10 + i
		fs = append(fs, func() {
			note, flush := ev.writer()
			defer flush()
			jitter(r)
			note(1, i, v)
			h := gost.Spawn(func() {
				note, flush := ev.writer()
				note(2, i, 0)
				jitter(rf)
				left[i] = v
				note(3, i, 0)
				flush()
			})
			hs[i].Store(&h)
		})
	}
	for c := 1; c <= workCallers; c++ {
		c := c
		r := rand.New(rand.NewSource(seed*100 + 20 + int64(c)))
		fs = append(fs, func() {
			note, flush := ev.writer()
			defer flush()
			for j := 0; j < n*k; j++ {
				i := 1 + (c+j+r.Intn(2))%n
				if !within(soon, func() bool { return hs[i].Load() != nil }) {
					return
				}
				h := *hs[i].Load()
				for q := r.Intn(3); q > 0; q-- {
					note(6, c, i)
					yes := h.IsFinished()
					note(7, c, b2i(bool(yes))[0])
				}
				if r.Intn(3) != 0 {
					note(4, c, i)
					if r := h.Join(); r.IsOk() {
						note(5, c, left[i])
					} else {
						note(5, c, -2)
					}
				}
				jitter(r)
			}
		})
	}
	if !group(fs) {
		x.stuck = true
		return
	}
	must(func() bool {
		ev.mu.Lock()
		defer ev.mu.Unlock()
		ends := 0
		for _, e := range ev.all {
			if e.d[0] == 3 {
				ends++
			}
		}
		return ends >= n
	})
	x.evs = ev.sorted()
}

func (x *threadComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{0}}
	}
	if x.stormed {
		if len(x.evs) > 0 {
			return Op{"ev", nil}
		}
		x.stormed = false
		return Op{"calm", []int{0}}
	}
	switch flagVariant {
	case "storm":
		return Op{"storm", []int{r.Intn(1 << 20), 1 + r.Intn(works), 1 + r.Intn(3)}}
	case "plain":
		return Op{"plain", []int{r.Intn(1 << 20), 1 + r.Intn(12)}}
	case "sleep":
		switch r.Intn(8) {
		case 0:
			return Op{"sleeplong", []int{r.Intn(6), 3 + r.Intn(20)}}
		case 1:
			return Op{"sleep", []int{1, r.Intn(3) * 50_000_000, 3}}
		case 2:
			return Op{"sleep", []int{0, r.Intn(1000), 5}}
		case 3, 4:
			return Op{"sleep", []int{0, r.Intn(1000_000), 10}}
		case 5:
			return Op{"sleep", []int{0, 1_000_000*(1+r.Intn(30)) - 1 - r.Intn(3), 20}}
		}
		return Op{"sleep", []int{0, r.Intn(90_000_000), 10}}
	}
	if r.Intn(400) == 0 {
		return Op{"crowd", []int{1 + r.Intn(600)}}
	}
	for {
		switch i, c := 1+r.Intn(works), 1+r.Intn(workCallers); r.Intn(6) {
		case 0:
			if x.handle[i] == nil {
				d := 0
				if j := r.Intn(works + 1); r.Intn(3) == 0 && x.handle[j] != nil {
					d = j
				}
				return Op{"spawn", []int{i, 1 + r.Intn(200), d}}
			}
		case 1:
			if x.handle[i] != nil && !x.opened[i] {
				return Op{"open", []int{i}}
			}
		case 2:
			if x.handle[i] != nil {
				return Op{"query", []int{i}}
			}
		case 3:
			if x.handle[i] != nil && x.clear(i) {
				return Op{"poll", []int{i}}
			}
		default:
			if x.handle[i] != nil && x.jo[c].Load() == 0 {
				if r.Intn(400) == 0 {
					return Op{"join", []int{c, i, 250}}
				}
				return Op{"join", []int{c, i}}
			}
		}
	}
}
