package main

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/myyrakle/gost"
)

// trBox: two containers s and o of one kind over one element type; nil where
// the kind has no such call.
type trBox struct {
	put      func(k, x int)
	empty    func()
	xchg     func()
	clone    func()
	eq       func() bool
	contains func(x int) bool
	dedup    func()
	sort     func(stable bool)
	search   func(x int) gost.Option[gost.USize]
	cmp      func() int
	pop      func() []int
	enum     func() []int
	display  func() gost.String
	read     func(which int) []int
}

type traitsComp struct {
	kind, q int
	b       *trBox
}

func (v *traitsComp) State() [][]int { return [][]int{v.b.read(0), v.b.read(1)} }

func (v *traitsComp) Exec(op string, a []int) (k string, out []int) {
	defer func() {
		if r := recover(); r != nil {
			if _, own := r.(harnessError); own {
				panic(r)
			}
			k, out = "refused", nil
		}
	}()
	b := v.b
	switch op {
	case "new":
		v.kind, v.q = a[0], a[2]
		v.b = trMake(a[0], a[1], a[2], a[3])
	case "put":
		b.put(a[0], a[1])
	case "empty":
		b.empty()
	case "xchg":
		b.xchg()
	case "clone":
		b.clone()
	case "eq":
		return "bool", b2i(b.eq())
	case "contains":
		return "bool", b2i(b.contains(a[0]))
	case "dedup":
		b.dedup()
	case "sort":
		b.sort(true)
	case "sortu":
		b.sort(false)
	case "search":
		if x := b.search(a[0]); x.IsSome() {
			return "opt", []int{int(x.Unwrap())}
		}
		return "opt", nil
	case "cmp":
		return "int", []int{b.cmp()}
	case "pop":
		return "opt", b.pop()
	case "enum":
		return "seq", b.enum()
	case "display":
		return "text", txt(string(b.display()))
	default:
		bad("traits op %s", op)
	}
	return "unit", nil
}

func (v *traitsComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		kind, q := r.Intn(11), r.Intn(3)
		if kind == 6 || kind == 7 {
			q = 2
		}
		return Op{"new", []int{kind, r.Intn(2), q, r.Intn(2)}}
	}
	s := v.b.read(0)
	elems := s
	if v.kind == 3 || v.kind == 4 {
		elems = nil
		for i := 1; i < len(s); i += 2 {
			elems = append(elems, s[i])
		}
	}
	x := func() int { return (1+r.Intn(20))*10 + r.Intn(3) }
	for {
		switch r.Intn(22) {
		case 0, 1, 2, 3, 4:
			n := x()
			if v.kind == 6 { // its element stands for the class
				taken := false
				for _, y := range elems {
					taken = taken || trCls(y) == trCls(n)
				}
				if taken {
					continue
				}
			}
			if (v.kind == 3 || v.kind == 5) && len(elems) >= 4 {
				continue
			}
			return Op{"put", []int{1 + r.Intn(4), n}}
		case 5:
			if v.b.empty != nil && r.Intn(3) == 0 {
				return Op{"empty", nil}
			}
		case 6, 7:
			return Op{"xchg", nil}
		case 8, 9:
			high := false
			for _, y := range elems {
				high = high || y%10 == 9
			}
			if v.b.clone != nil && !high {
				return Op{"clone", nil}
			}
		case 10, 11:
			if v.b.eq != nil {
				return Op{"eq", nil}
			}
		case 12:
			if v.b.contains != nil {
				return Op{"contains", []int{x()}}
			}
		case 13:
			if v.b.dedup != nil {
				return Op{"dedup", nil}
			}
		case 14, 15:
			if v.b.sort != nil {
				return Op{[]string{"sort", "sortu"}[r.Intn(2)], nil}
			}
		case 16:
			if v.b.search != nil {
				return Op{"search", []int{x()}}
			}
		case 17:
			if v.b.cmp != nil {
				return Op{"cmp", nil}
			}
		case 18:
			if v.b.pop != nil {
				return Op{"pop", nil}
			}
		case 19:
			if v.b.enum != nil {
				return Op{"enum", nil}
			}
		default:
			if v.b.display != nil {
				return Op{"display", nil}
			}
		}
	}
}

// reads gives the two containers' contents.
func reads[C any](s, o *C, f func(*C) []int) func(int) []int {
	return func(which int) []int {
		if which == 0 {
			return f(s)
		}
		return f(o)
	}
}

// pairsOf reads a map's entries in key order.
func pairsOf[T any](c Codec[T], next func() gost.Option[gost.Pair[gost.I32, T]]) []int {
	var es [][2]int
	for i := 0; i < 1000; i++ {
		e := next()
		if e.IsNone() {
			break
		}
		es = append(es, [2]int{int(e.Unwrap().Key), c.Dec(e.Unwrap().Value)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i][0] < es[j][0] })
	out := []int{}
	for _, e := range es {
		out = append(out, e[0], e[1])
	}
	return out
}

func ascending(q []int) []int { sort.Ints(q); return q }

func newTr[T comparable](kind int, c Codec[T]) *trBox {
	e, d := c.Enc, c.Dec
	switch kind {
	case 0:
		s, o := gost.VecNew[T](), gost.VecNew[T]()
		read := func(q *gost.Vec[T]) []int {
			out := []int{}
			for i := gost.USize(0); i < q.Len(); i++ {
				out = append(out, d(q.GetUnchecked(i)))
			}
			return out
		}
		return &trBox{
			put:      func(_, x int) { s.Push(e(x)) },
			empty:    func() { s = gost.VecNew[T]() },
			xchg:     func() { s, o = o, s },
			clone:    func() { o = s.Clone() },
			eq:       func() bool { return bool(s.Eq(o)) },
			contains: func(x int) bool { return bool(s.Contains(e(x))) },
			dedup:    func() { s.Dedup() },
			sort: func(stable bool) {
				if stable {
					s.Sort()
				} else {
					s.SortUnstable()
				}
			},
			search:  func(x int) gost.Option[gost.USize] { return s.BinarySearch(e(x)) },
			display: func() gost.String { return s.Display() },
			read:    reads(&s, &o, read),
		}
	case 1:
		s, o := gost.VecDequeNew[T](), gost.VecDequeNew[T]()
		read := func(q *gost.VecDeque[T]) []int {
			out := []int{}
			for i := gost.USize(0); i < q.Len(); i++ {
				out = append(out, d(q.GetUnchecked(i)))
			}
			return out
		}
		return &trBox{
			put: func(k, x int) {
				for i := 0; i < k; i++ { // move the head around
					s.PushFront(e(x))
					s.PopFront()
				}
				s.PushBack(e(x))
			},
			empty:    func() { s = gost.VecDequeNew[T]() },
			xchg:     func() { s, o = o, s },
			clone:    func() { o = *s.Clone() },
			eq:       func() bool { return bool(s.Eq(o)) },
			contains: func(x int) bool { return bool(s.Contains(e(x))) },
			dedup:    func() { s.Dedup(nil) },
			sort: func(stable bool) {
				if stable {
					s.Sort()
				} else {
					s.SortUnstable()
				}
			},
			search:  func(x int) gost.Option[gost.USize] { return s.BinarySearch(e(x)) },
			display: func() gost.String { return s.Display() },
			read:    reads(&s, &o, read),
		}
	case 2:
		s, o := gost.LinkedListNew[T](), gost.LinkedListNew[T]()
		read := func(q *gost.LinkedList[T]) []int { return drain(c, q.IntoIter(), 1000) }
		return &trBox{
			put:     func(_, x int) { s.PushBack(e(x)) },
			empty:   func() { s = gost.LinkedListNew[T]() },
			xchg:    func() { s, o = o, s },
			clone:   func() { o = s.Clone() },
			eq:      func() bool { return bool(s.Eq(o)) },
			display: func() gost.String { return s.Display() },
			read:    reads(&s, &o, read),
		}
	case 3:
		s, o := gost.HashMapNew[gost.I32, T](), gost.HashMapNew[gost.I32, T]()
		return &trBox{
			put:     func(k, x int) { s.Insert(gost.I32(k), e(x)) },
			empty:   func() { s = gost.HashMapNew[gost.I32, T]() },
			xchg:    func() { s, o = o, s },
			clone:   func() { o = s.Clone() },
			eq:      func() bool { return bool(s.Eq(o)) },
			display: func() gost.String { return s.Display() },
			read:    reads(&s, &o, func(q *gost.HashMap[gost.I32, T]) []int { return pairsOf(c, q.IntoIter().Next) }),
		}
	case 4:
		s, o := gost.BTreeMapNew[gost.I32, T](), gost.BTreeMapNew[gost.I32, T]()
		return &trBox{
			put:     func(k, x int) { s.Insert(gost.I32(k), e(x)) },
			empty:   func() { s = gost.BTreeMapNew[gost.I32, T]() },
			xchg:    func() { s, o = o, s },
			eq:      func() bool { return bool(s.Eq(&o)) },
			display: func() gost.String { return s.Display() },
			read:    reads(&s, &o, func(q *gost.BTreeMap[gost.I32, T]) []int { return pairsOf(c, q.IntoIter().Next) }),
		}
	case 5:
		s, o := gost.HashSetNew[T](), gost.HashSetNew[T]()
		return &trBox{
			put:     func(_, x int) { s.Insert(e(x)) },
			empty:   func() { s = gost.HashSetNew[T]() },
			xchg:    func() { s, o = o, s },
			clone:   func() { o = s.Clone() },
			display: func() gost.String { return s.Display() },
			read:    reads(&s, &o, func(q *gost.HashSet[T]) []int { return ascending(drain(c, q.IntoIter(), 1000)) }),
		}
	case 8:
		s, o := gost.None[T](), gost.None[T]()
		return &trBox{
			put:     func(_, x int) { s = gost.Some(e(x)) },
			empty:   func() { s = gost.None[T]() },
			xchg:    func() { s, o = o, s },
			clone:   func() { o = s.Clone() },
			eq:      func() bool { return bool(s.Eq(o)) },
			display: func() gost.String { return s.Display() },
			read: reads(&s, &o, func(q *gost.Option[T]) []int {
				if q.IsSome() {
					return []int{d(q.Unwrap())}
				}
				return []int{}
			}),
		}
	case 9:
		no := fmt.Errorf("e")
		s, o := gost.Err[T](no), gost.Err[T](no)
		return &trBox{
			put:     func(_, x int) { s = gost.Ok(e(x)) },
			empty:   func() { s = gost.Err[T](no) },
			xchg:    func() { s, o = o, s },
			clone:   func() { o = s.Clone() },
			eq:      func() bool { return bool(s.Eq(o)) },
			display: func() gost.String { return s.Display() },
			read: reads(&s, &o, func(q *gost.Result[T]) []int {
				if q.IsOk() {
					return []int{d(q.Unwrap())}
				}
				return []int{}
			}),
		}
	case 10:
		s := gost.Pair[T, T]{Key: e(10), Value: e(20)}
		o := s
		return &trBox{
			put:   func(_, x int) { s = gost.Pair[T, T]{Key: s.Value, Value: e(x)} },
			xchg:  func() { s, o = o, s },
			clone: func() { o = s.Clone() },
			eq:    func() bool { return bool(s.Eq(o)) },
			cmp:   func() int { return int(s.Cmp(o)) },
			read:  reads(&s, &o, func(q *gost.Pair[T, T]) []int { return []int{d(q.Key), d(q.Value)} }),
		}
	}
	bad("traits kind %d", kind)
	return nil
}

func newTrOrd[T interface {
	comparable
	gost.Ord[T]
}](kind int, c Codec[T]) *trBox {
	e, d := c.Enc, c.Dec
	switch kind {
	case 6:
		s, o := gost.BTreeSetNew[T](), gost.BTreeSetNew[T]()
		return &trBox{
			put:     func(_, x int) { s.Insert(e(x)) },
			empty:   func() { s = gost.BTreeSetNew[T]() },
			xchg:    func() { s, o = o, s },
			clone:   func() { o = s.Clone() },
			eq:      func() bool { return bool(s.Eq(o)) },
			enum:    func() []int { return drain(c, s.IntoIter(), 1000) },
			display: func() gost.String { return s.Display() },
			read:    reads(&s, &o, func(q *gost.BTreeSet[T]) []int { return ascending(drain(c, q.IntoIter(), 1000)) }),
		}
	case 7:
		s, o := gost.BinaryHeapNew[T](), gost.BinaryHeapNew[T]()
		return &trBox{
			put:   func(_, x int) { s.Push(e(x)) },
			empty: func() { s = gost.BinaryHeapNew[T]() },
			xchg:  func() { s, o = o, s },
			pop: func() []int {
				if x := s.Pop(); x.IsSome() {
					return []int{d(x.Unwrap())}
				}
				return []int{}
			},
			read: reads(&s, &o, func(q *gost.BinaryHeap[T]) []int {
				out := []int{}
				for _, x := range q.AsSlice() {
					out = append(out, d(x))
				}
				return ascending(out)
			}),
		}
	}
	return newTr(kind, c)
}
