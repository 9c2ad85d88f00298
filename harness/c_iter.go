package main

import (
	"math/rand"
	"sort"

	"github.com/myyrakle/gost"
)

type iterKind interface {
	into(i int)
	next(i int) (string, []int)
	mapTo(i, k, f int)
	filter(i, k, m, r int)
	fold(i, init int) int
	rev(i, k int)
	collect(i int, list bool) []int
	contents() []int
	calls() []int
	live(i int) bool
	out() []int
	poke(j, x int)
	grow(x int)
	spoil(x int)
}

// iters: iterators of one element type over one container.
type iters[T any] struct {
	c    Codec[T]
	mk   func() gost.Iterator[T] // a fresh iterator over the container
	read func() []int            // the container's contents, not through an iterator where possible
	it   [2]gost.Iterator[T]
	seen []int
	coll gost.Vec[T] // what the last collection produced,
	list gost.LinkedList[T]
	isL  bool        // as a list
	fill func(x int) // overwrites the container
}

func iterFn(f, x int) int {
	switch f {
	case 0:
		return x + 7
	case 1:
		return 5
	case 2:
		return x % 3
	}
	return x
}

func (v *iters[T]) note(x T) int { d := v.c.Dec(x); v.seen = append(v.seen, d); return d }
func (v *iters[T]) take(i int) gost.Iterator[T] {
	t := v.it[i]
	if t == nil {
		bad("iterator %d is not live", i+1)
	}
	v.it[i] = nil
	return t
}
func (v *iters[T]) live(i int) bool { return v.it[i] != nil }
func (v *iters[T]) into(i int)      { v.it[i] = v.mk() }
func (v *iters[T]) next(i int) (string, []int) {
	return optOf(v.c, v.it[i].Next())
}
func (v *iters[T]) mapTo(i, k, f int) {
	t := v.take(i)
	v.it[k] = t.Map(func(x T) T { return v.c.Enc(iterFn(f, v.note(x))) })
}
func (v *iters[T]) filter(i, k, m, r int) {
	t := v.take(i)
	v.it[k] = t.Filter(func(x T) gost.Bool { return gost.Bool(v.note(x)%m == r) })
}
func (v *iters[T]) fold(i, init int) int {
	return v.c.Dec(v.take(i).Fold(v.c.Enc(init), func(acc, x T) T {
		return v.c.Enc((v.c.Dec(acc)*31 + v.note(x)) % 10007)
	}))
}
func (v *iters[T]) rev(i, k int) { t := v.take(i); v.it[k] = t.Rev() }
func (v *iters[T]) collect(i int, list bool) []int {
	t := v.take(i)
	v.isL = list
	if list {
		v.list = t.CollectToLinkedList()
	} else {
		v.coll = t.CollectToVec()
	}
	return v.out()
}
func (v *iters[T]) out() []int {
	if v.isL {
		return drain(v.c, v.list.IntoIter(), 100000)
	}
	return decAll(v.c, v.coll.AsSlice())
}
func (v *iters[T]) poke(j, x int) {
	if !v.isL {
		v.coll.SetUnchecked(gost.USize(j%int(v.coll.Len())), v.c.Enc(x))
		return
	}
	n := int(v.list.Len())
	switch j = j % n; j {
	case 0:
		*v.list.Front().Unwrap() = v.c.Enc(x)
	case n - 1:
		*v.list.Back().Unwrap() = v.c.Enc(x)
	default:
		for i := 0; i < n; i++ {
			y := v.list.PopFront().Unwrap()
			if i == j {
				y = v.c.Enc(x)
			}
			v.list.PushBack(y)
		}
	}
}
func (v *iters[T]) grow(x int) {
	if v.isL {
		v.list.PushBack(v.c.Enc(x))
	} else {
		v.coll.Push(v.c.Enc(x))
	}
}
func (v *iters[T]) spoil(x int)     { v.fill(x) }
func (v *iters[T]) contents() []int { return v.read() }
func (v *iters[T]) calls() []int    { s := v.seen; v.seen = nil; return s }

type iterComp struct {
	in   iterKind
	kind int
}

var pairCodec = Codec[gost.Pair[gost.I32, gost.I32]]{
	Enc: func(i int) gost.Pair[gost.I32, gost.I32] {
		return gost.Pair[gost.I32, gost.I32]{Key: gost.I32(i / 1000), Value: gost.I32(i % 1000)}
	},
	Dec: func(p gost.Pair[gost.I32, gost.I32]) int { return int(p.Key)*1000 + int(p.Value) },
}

// mkIter builds a container of the kind holding q (see Iter.tla); rot turns
// a deque's contents around the end of its storage.
func mkIter[T any](c Codec[T], kind, rot int, q []int) iterKind {
	v := &iters[T]{c: c}
	switch kind {
	case 0:
		s := gost.VecNew[T]()
		for _, x := range q {
			s.Push(c.Enc(x))
		}
		v.mk, v.read = func() gost.Iterator[T] { return s.IntoIter() }, func() []int { return decAll(c, s.AsSlice()) }
		v.fill = func(x int) { s.Fill(c.Enc(x)) }
	case 1:
		s := gost.VecDequeNew[T]()
		for i := rot; i < len(q); i++ {
			s.PushBack(c.Enc(q[i]))
		}
		for i := rot - 1; i >= 0; i-- {
			if i < len(q) {
				s.PushFront(c.Enc(q[i]))
			}
		}
		v.fill = func(x int) { s.Fill(c.Enc(x)) }
		v.mk = func() gost.Iterator[T] { return s.IntoIter() }
		v.read = func() []int {
			out := []int{}
			for i := 0; i < int(s.Len()); i++ {
				out = append(out, c.Dec(s.GetUnchecked(gost.USize(i))))
			}
			return out
		}
	case 2:
		s := gost.LinkedListNew[T]()
		for _, x := range q {
			s.PushBack(c.Enc(x))
		}
		v.fill = func(x int) {
			for n := s.Len(); n > 0; n-- {
				s.PopFront()
				s.PushBack(c.Enc(x))
			}
		}
		v.mk = func() gost.Iterator[T] { return s.IntoIter() }
		v.read = func() []int { return drain(c, s.IntoIter(), 100000) }
	default:
		bad("iter kind %d", kind)
	}
	return v
}

func mkIterOrd[K interface {
	comparable
	gost.Ord[K]
}](c Codec[K], kind int, q []int) iterKind {
	v := &iters[K]{c: c}
	probe := func(has func(K) bool, n int) []int {
		out := []int{}
		for _, x := range q {
			if has(c.Enc(x)) {
				out = append(out, x)
			}
		}
		if n != len(out) {
			out = append(out, -1)
		}
		sort.Ints(out)
		return out
	}
	switch kind {
	case 3:
		s := gost.HashSetNew[K]()
		for _, x := range q {
			s.Insert(c.Enc(x))
		}
		v.mk = func() gost.Iterator[K] { return s.IntoIter() }
		v.read = func() []int { return probe(func(k K) bool { return bool(s.Contains(k)) }, int(s.Len())) }
	case 5, 6: // keys are the elements, or the values are
		s := gost.HashMapNew[K, K]()
		t := gost.HashMapNew[gost.I32, K]()
		for i, x := range q {
			s.Insert(c.Enc(x), c.Enc(x))
			t.Insert(gost.I32(i), c.Enc(x))
		}
		v.mk = func() gost.Iterator[K] { return s.Keys() }
		v.read = func() []int { return probe(func(k K) bool { return bool(s.ContainsKey(k)) }, int(s.Len())) }
		if kind == 6 {
			v.mk = func() gost.Iterator[K] { return t.Values() }
			v.read = func() []int {
				out := []int{}
				for i := range q {
					if o := t.Get(gost.I32(i)); o.IsSome() {
						out = append(out, c.Dec(o.Unwrap()))
					}
				}
				return out
			}
		}
	case 7:
		s := gost.BTreeSetNew[K]()
		for _, x := range q {
			s.Insert(c.Enc(x))
		}
		v.mk = func() gost.Iterator[K] { return s.IntoIter() }
		v.read = func() []int { return probe(func(k K) bool { return bool(s.Contains(k)) }, int(s.Len())) }
	case 9, 10:
		s := gost.BTreeMapNew[K, K]()
		t := gost.BTreeMapNew[gost.I32, K]()
		for i, x := range q {
			s.Insert(c.Enc(x), c.Enc(x))
			t.Insert(gost.I32(i), c.Enc(x))
		}
		v.mk = func() gost.Iterator[K] { return s.Keys() }
		v.read = func() []int { return probe(func(k K) bool { return bool(s.ContainsKey(k)) }, int(s.Len())) }
		if kind == 10 {
			v.mk = func() gost.Iterator[K] { return t.Values() }
			v.read = func() []int {
				out := []int{}
				for i := range q {
					if o := t.Get(gost.I32(i)); o.IsSome() {
						out = append(out, c.Dec(o.Unwrap()))
					}
				}
				return out
			}
		}
	default:
		bad("iter kind %d", kind)
	}
	return v
}

func mkIterPairs(kind int, q []int) iterKind {
	v := &iters[gost.Pair[gost.I32, gost.I32]]{c: pairCodec}
	h, b := gost.HashMapNew[gost.I32, gost.I32](), gost.BTreeMapNew[gost.I32, gost.I32]()
	for _, x := range q {
		p := pairCodec.Enc(x)
		h.Insert(p.Key, p.Value)
		b.Insert(p.Key, p.Value)
	}
	v.mk = func() gost.Iterator[gost.Pair[gost.I32, gost.I32]] { return h.IntoIter() }
	get := h.Get
	if kind == 8 {
		v.mk = func() gost.Iterator[gost.Pair[gost.I32, gost.I32]] { return b.IntoIter() }
		get = b.Get
	}
	v.read = func() []int {
		out := []int{}
		for _, x := range q {
			p := pairCodec.Enc(x)
			if o := get(p.Key); o.IsSome() {
				out = append(out, pairCodec.Dec(gost.Pair[gost.I32, gost.I32]{Key: p.Key, Value: o.Unwrap()}))
			}
		}
		sort.Ints(out)
		return out
	}
	return v
}

func (v *iterComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new": // kind, variant (deque: rotation; odd: strings), elements
		v.kind = a[0]
		q := a[2:]
		switch {
		case a[0] == 4 || a[0] == 8:
			v.in = mkIterPairs(a[0], q)
		case a[0] <= 2 && a[1]%2 == 1:
			v.in = mkIter(strCodec, a[0], a[1], q)
		case a[0] <= 2:
			v.in = mkIter(itemCodec, a[0], a[1], q)
		case a[1]%2 == 1:
			v.in = mkIterOrd(strCodec, a[0], q)
		default:
			v.in = mkIterOrd(i32Codec, a[0], q)
		}
	case "into":
		v.in.into(a[0] - 1)
	case "next":
		if !v.in.live(a[0] - 1) {
			bad("dead iterator")
		}
		return v.in.next(a[0] - 1)
	case "map":
		v.in.mapTo(a[0]-1, a[1]-1, a[2])
	case "filter":
		v.in.filter(a[0]-1, a[1]-1, a[2], a[3])
	case "fold":
		return "int", []int{v.in.fold(a[0]-1, a[1])}
	case "rev":
		v.in.rev(a[0]-1, a[1]-1)
	case "collect", "collectlist":
		return "seq", v.in.collect(a[0]-1, op == "collectlist")
	case "poke":
		v.in.poke(a[0], a[1])
	case "grow":
		v.in.grow(a[0])
	case "spoil":
		v.in.spoil(a[0])
	default:
		bad("iter op %s", op)
	}
	return "unit", nil
}

func (v *iterComp) State() [][]int { return [][]int{v.in.contents(), v.in.calls(), v.in.out()} }

func (v *iterComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		n := r.Intn(9)
		if r.Intn(4) == 0 {
			n = 20 + r.Intn(40)
		}
		span := 90
		if length == bigLen {
			n, span = 60+r.Intn(500), 900
		}
		if length == hugeLen {
			n, span = 600+r.Intn(1800), 4000
		}
		kind := r.Intn(11)
		a := []int{kind, r.Intn(6)}
		seen := map[int]bool{}
		for i := 0; i < n; i++ {
			x := (1+r.Intn(span*2/3))*100 + r.Intn(3)
			k := x
			if kind == 4 || kind == 8 {
				x = (1+r.Intn(span))*1000 + r.Intn(500)
				k = x / 1000
			}
			if kind > 2 && kind != 6 && kind != 10 && seen[k] {
				continue
			}
			seen[k] = true
			a = append(a, x)
		}
		return Op{"new", a}
	}
	if n := len(v.in.out()); n > 0 && r.Intn(4) == 0 {
		x := (1+r.Intn(60))*100 + r.Intn(3)
		switch r.Intn(3) {
		case 0:
			return Op{"poke", []int{r.Intn(n), x}}
		case 1:
			if v.kind <= 2 && !v.in.live(0) && !v.in.live(1) {
				return Op{"spoil", []int{x}}
			}
		default:
			if n < 100 {
				return Op{"grow", []int{x}}
			}
		}
	}
	i := r.Intn(2)
	if !v.in.live(i) || r.Intn(25) == 0 {
		return Op{"into", []int{i + 1}}
	}
	k := i
	if r.Intn(4) == 0 {
		k = 1 - i
	}
	switch c := r.Intn(24); {
	case c < 12:
		return Op{"next", []int{i + 1}}
	case c < 14:
		return Op{"map", []int{i + 1, k + 1, r.Intn(4)}}
	case c < 16:
		m := 2 + r.Intn(3)
		return Op{"filter", []int{i + 1, k + 1, m, r.Intn(m)}}
	case c < 20:
		return Op{"rev", []int{i + 1, k + 1}}
	case c == 20:
		return Op{"fold", []int{i + 1, r.Intn(100)}}
	case c == 21:
		return Op{"collect", []int{i + 1}}
	case c == 22:
		return Op{"collectlist", []int{i + 1}}
	default:
		return Op{"next", []int{i + 1}}
	}
}
