package main

import (
	"math/rand"
	"reflect"
	"sort"

	"github.com/myyrakle/gost"
)

// rowc says how an element of type E holds a row of numbers.
type rowc[E any] struct {
	enc  func([]int) E
	dec  func(E) []int
	poke func(E, int) E // change the element in place, return what is to be stored
}

type (
	gI  = gost.I32
	gV  = gost.Vec[gost.I32]
	gL  = gost.LinkedList[gost.I32]
	gHS = gost.HashSet[gost.I32]
)

var rowI = rowc[gI]{
	enc:  func(r []int) gI { return gI(r[0]) },
	dec:  func(x gI) []int { return []int{int(x)} },
	poke: func(_ gI, x int) gI { return gI(x) },
}
var rowV = rowc[gV]{
	enc: func(r []int) gV {
		v := gost.VecNew[gI]()
		for _, x := range r {
			v.Push(gI(x))
		}
		return v
	},
	dec:  func(v gV) []int { return decAll(i32Codec, v.AsSlice()) },
	poke: func(v gV, x int) gV { v.SetUnchecked(0, gI(x)); return v },
}
var rowL = rowc[gL]{
	enc: func(r []int) gL {
		v := gost.LinkedListNew[gI]()
		for _, x := range r {
			v.PushBack(gI(x))
		}
		return v
	},
	dec:  func(v gL) []int { return drain[gI](i32Codec, v.IntoIter(), 1000) },
	poke: func(v gL, x int) gL { *v.Front().Unwrap() = gI(x); return v },
}
var rowHS = rowc[gHS]{
	enc: func(r []int) gHS {
		v := gost.HashSetNew[gI]()
		for _, x := range r {
			v.Insert(gI(x))
		}
		return v
	},
	dec: func(v gHS) []int {
		q := drain[gI](i32Codec, v.IntoIter(), 1000)
		sort.Ints(q)
		return q
	},
	poke: func(v gHS, x int) gHS { v.Insert(gI(x)); return v },
}

type ccont interface {
	add(i int, r []int)
	addf(i int, r []int)
	popb(i int)
	popf(i int)
	put(i, k int, r []int)
	del(i, k int)
	poke(i, j, x int)
	clear(i int)
	clone(i, k int)
	eq(i, k int) bool
	reserve(i, n int)
	read(i int) [][]int
	slot(i int) any
}

// viaRef replaces a container by what its AsRef refers to.
func viaRef(p any) {
	v := reflect.ValueOf(p)
	v.Elem().Set(v.MethodByName("AsRef").Call(nil)[0].Elem())
}

// seqc: the three sequence kinds
type seqc[E any] struct {
	rc rowc[E]
	v  [3]gost.Vec[E]
	d  [3]gost.VecDeque[E]
	l  [3]gost.LinkedList[E]
	w  int // 0 vector 1 deque 2 list
}

func newSeqc[E any](rc rowc[E], w int) ccont {
	s := &seqc[E]{rc: rc, w: w}
	for i := 0; i < 3; i++ {
		s.clear0(i)
	}
	return s
}
func (s *seqc[E]) clear0(i int) {
	s.v[i], s.d[i], s.l[i] = gost.VecNew[E](), gost.VecDequeNew[E](), gost.LinkedListNew[E]()
}
func (s *seqc[E]) add(i int, r []int) {
	e := s.rc.enc(r)
	switch s.w {
	case 0:
		s.v[i].Push(e)
	case 1:
		s.d[i].PushBack(e)
	default:
		s.l[i].PushBack(e)
	}
}
func (s *seqc[E]) addf(i int, r []int) {
	e := s.rc.enc(r)
	switch s.w {
	case 0:
		s.v[i].Insert(0, e)
	case 1:
		s.d[i].PushFront(e)
	default:
		s.l[i].PushFront(e)
	}
}
func (s *seqc[E]) popb(i int) {
	switch s.w {
	case 0:
		s.v[i].Pop()
	case 1:
		s.d[i].PopBack()
	default:
		s.l[i].PopBack()
	}
}
func (s *seqc[E]) popf(i int) {
	if s.w == 1 {
		s.d[i].PopFront()
	} else {
		s.l[i].PopFront()
	}
}
func (s *seqc[E]) put(i, k int, r []int) { bad("put on a sequence") }
func (s *seqc[E]) del(i, k int)          { bad("del on a sequence") }
func (s *seqc[E]) poke(i, j, x int) {
	switch s.w {
	case 0:
		p := s.v[i].AsSlice()
		p[j-1] = s.rc.poke(p[j-1], x)
	case 1:
		s.d[i].SetUnchecked(gost.USize(j-1), s.rc.poke(s.d[i].GetUnchecked(gost.USize(j-1)), x))
	default: // through the references to the ends where it can be reached, by rebuilding otherwise
		n := int(s.l[i].Len())
		if j == 1 {
			p := s.l[i].Front().Unwrap()
			*p = s.rc.poke(*p, x)
		} else if j == n {
			p := s.l[i].Back().Unwrap()
			*p = s.rc.poke(*p, x)
		} else {
			keep := []E{}
			for k := 1; k < j; k++ {
				keep = append(keep, s.l[i].PopFront().Unwrap())
			}
			p := s.l[i].Front().Unwrap()
			*p = s.rc.poke(*p, x)
			for k := len(keep) - 1; k >= 0; k-- {
				s.l[i].PushFront(keep[k])
			}
		}
	}
}
func (s *seqc[E]) clear(i int) {
	switch s.w {
	case 0:
		s.v[i].Clear()
	case 1:
		s.d[i].Clear()
	default:
		s.l[i].Clear()
	}
}
func (s *seqc[E]) clone(i, k int) {
	switch s.w {
	case 0:
		s.v[k] = s.v[i].Clone()
	case 1:
		s.d[k] = *s.d[i].Clone()
	default:
		s.l[k] = s.l[i].Clone()
	}
}
func (s *seqc[E]) eq(i, k int) bool {
	switch s.w {
	case 0:
		return bool(s.v[i].Eq(s.v[k]))
	case 1:
		return bool(s.d[i].Eq(s.d[k]))
	}
	return bool(s.l[i].Eq(s.l[k]))
}
func (s *seqc[E]) reserve(i, n int) {
	if s.w == 0 {
		s.v[i].Reserve(gost.USize(n))
	} else {
		s.d[i].Reserve(gost.USize(n))
	}
}
func (s *seqc[E]) read(i int) [][]int {
	out := [][]int{}
	switch s.w {
	case 0:
		for _, e := range s.v[i].AsSlice() {
			out = append(out, s.rc.dec(e))
		}
	case 1:
		for j := 0; j < int(s.d[i].Len()); j++ {
			out = append(out, s.rc.dec(s.d[i].GetUnchecked(gost.USize(j))))
		}
	default:
		it := s.l[i].IntoIter()
		for len(out) < 5000 {
			o := it.Next()
			if o.IsNone() {
				break
			}
			out = append(out, s.rc.dec(o.Unwrap()))
		}
		if len(out) != int(s.l[i].Len()) {
			out = append(out, []int{-1})
		}
	}
	return out
}

func (s *seqc[E]) slot(i int) any {
	switch s.w {
	case 0:
		return &s.v[i]
	case 1:
		return &s.d[i]
	}
	return &s.l[i]
}

// mapc: maps and sets
type mapc[E any] struct {
	rc rowc[E]
	h  [3]gost.HashMap[gI, E]
	b  [3]gost.BTreeMap[gI, E]
	hs [3]gost.HashSet[gI]
	bs [3]gost.BTreeSet[gI]
	w  int // 0 hash map 1 ordered map 2 hash set 3 ordered set
}

func newMapc[E any](rc rowc[E], w int) ccont {
	s := &mapc[E]{rc: rc, w: w}
	for i := 0; i < 3; i++ {
		s.h[i], s.b[i], s.hs[i], s.bs[i] = gost.HashMapNew[gI, E](), gost.BTreeMapNew[gI, E](), gost.HashSetNew[gI](), gost.BTreeSetNew[gI]()
	}
	return s
}
func (s *mapc[E]) add(i int, r []int)  { bad("add on a map") }
func (s *mapc[E]) addf(i int, r []int) { bad("addf on a map") }
func (s *mapc[E]) popb(i int)          { bad("popb on a map") }
func (s *mapc[E]) popf(i int)          { bad("popf on a map") }
func (s *mapc[E]) reserve(i, n int)    { bad("reserve on a map") }
func (s *mapc[E]) put(i, k int, r []int) {
	switch s.w {
	case 0:
		s.h[i].Insert(gI(k), s.rc.enc(r))
	case 1:
		s.b[i].Insert(gI(k), s.rc.enc(r))
	case 2:
		s.hs[i].Insert(gI(k))
	default:
		s.bs[i].Insert(gI(k))
	}
}
func (s *mapc[E]) del(i, k int) {
	switch s.w {
	case 0:
		s.h[i].Remove(gI(k))
	case 1:
		s.b[i].Remove(gI(k))
	case 2:
		s.hs[i].Remove(gI(k))
	default:
		s.bs[i].Remove(gI(k))
	}
}
func (s *mapc[E]) poke(i, j, x int) {
	if s.w == 0 {
		s.h[i].Insert(gI(j), s.rc.poke(s.h[i].Get(gI(j)).Unwrap(), x))
	} else {
		s.b[i].Insert(gI(j), s.rc.poke(s.b[i].Get(gI(j)).Unwrap(), x))
	}
}
func (s *mapc[E]) clear(i int) {
	switch s.w {
	case 0:
		s.h[i].Clear()
	case 1:
		s.b[i].Clear()
	case 2:
		s.hs[i].Clear()
	default:
		s.bs[i].Clear()
	}
}
func (s *mapc[E]) clone(i, k int) {
	switch s.w {
	case 0:
		s.h[k] = s.h[i].Clone()
	case 2:
		s.hs[k] = s.hs[i].Clone()
	case 3:
		s.bs[k] = s.bs[i].Clone()
	default:
		bad("clone of an ordered map")
	}
}
func (s *mapc[E]) eq(i, k int) bool {
	switch s.w {
	case 0:
		return bool(s.h[i].Eq(s.h[k]))
	case 1:
		return s.b[i].Eq(&s.b[k])
	case 2:
		return bool(s.hs[i].Eq(s.hs[k]))
	}
	return bool(s.bs[i].Eq(s.bs[k]))
}
func (s *mapc[E]) read(i int) [][]int {
	out := [][]int{}
	n := 0
	switch s.w {
	case 0:
		n = int(s.h[i].Len())
		for k, e := range s.h[i].AsMap() {
			out = append(out, append([]int{int(k)}, s.rc.dec(e)...))
		}
	case 1:
		n = int(s.b[i].Len())
		for _, k := range drain[gI](i32Codec, s.b[i].Keys(), 5000) {
			if o := s.b[i].Get(gI(k)); o.IsSome() {
				out = append(out, append([]int{k}, s.rc.dec(o.Unwrap())...))
			}
		}
	case 2:
		n = int(s.hs[i].Len())
		for _, k := range s.hs[i].AsSlice() {
			if s.hs[i].Contains(k) {
				out = append(out, []int{int(k)})
			}
		}
	default:
		n = int(s.bs[i].Len())
		for _, k := range drain[gI](i32Codec, s.bs[i].IntoIter(), 5000) {
			if s.bs[i].Contains(gI(k)) {
				out = append(out, []int{k})
			}
		}
	}
	if n != len(out) {
		out = append(out, []int{-1, n})
	}
	sort.Slice(out, func(a, b int) bool { return out[a][0] < out[b][0] })
	return out
}

func (s *mapc[E]) slot(i int) any {
	switch s.w {
	case 0:
		return &s.h[i]
	case 1:
		return &s.b[i]
	case 2:
		return &s.hs[i]
	}
	return &s.bs[i]
}

// onec: Option[Vec] (w 0) and Pair[I32, Vec] (w 1)
type onec struct {
	w int
	o [3]gost.Option[gV]
	p [3]gost.Pair[gI, gV]
}

func newOnec(w int) ccont {
	s := &onec{w: w}
	for i := range s.o {
		s.o[i], s.p[i] = gost.None[gV](), gost.Pair[gI, gV]{Key: 0, Value: rowV.enc(nil)}
	}
	return s
}
func (s *onec) add(i int, r []int)  { bad("add") }
func (s *onec) addf(i int, r []int) { bad("addf") }
func (s *onec) popb(i int)          { bad("popb") }
func (s *onec) popf(i int)          { bad("popf") }
func (s *onec) reserve(i, n int)    { bad("reserve") }
func (s *onec) clear(i int)         { bad("clear") }
func (s *onec) put(i, k int, r []int) {
	if s.w == 0 {
		s.o[i] = gost.Some(rowV.enc(r))
	} else {
		s.p[i] = gost.Pair[gI, gV]{Key: gI(k), Value: rowV.enc(r)}
	}
}
func (s *onec) del(i, k int) { s.o[i] = gost.None[gV]() }
func (s *onec) poke(i, j, x int) {
	if s.w == 0 {
		v := s.o[i].Unwrap()
		v.SetUnchecked(0, gI(x))
	} else {
		s.p[i].Value.SetUnchecked(0, gI(x))
	}
}
func (s *onec) clone(i, k int) { s.o[k], s.p[k] = s.o[i].Clone(), s.p[i].Clone() }
func (s *onec) eq(i, k int) bool {
	if s.w == 0 {
		return bool(s.o[i].Eq(s.o[k]))
	}
	return bool(s.p[i].Eq(s.p[k]))
}
func (s *onec) read(i int) [][]int {
	if s.w == 1 {
		return [][]int{append([]int{int(s.p[i].Key)}, rowV.dec(s.p[i].Value)...)}
	}
	if s.o[i].IsNone() {
		return [][]int{}
	}
	return [][]int{rowV.dec(s.o[i].Unwrap())}
}

func (s *onec) slot(i int) any {
	if s.w == 0 {
		return &s.o[i]
	}
	return &s.p[i]
}

type cloneComp struct {
	in   ccont
	kind int
	next []Op // what the generator has in mind
}

func (v *cloneComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		v.kind = a[0]
		switch a[0] {
		case 0, 1, 2:
			v.in = newSeqc(rowI, a[0])
		case 7, 8, 9:
			v.in = newSeqc(rowV, a[0]-7)
		case 12:
			v.in = newSeqc(rowL, 0)
		case 3:
			v.in = newMapc(rowI, 2)
		case 5:
			v.in = newMapc(rowI, 3)
		case 4:
			v.in = newMapc(rowI, 0)
		case 6:
			v.in = newMapc(rowI, 1)
		case 10:
			v.in = newMapc(rowV, 0)
		case 11:
			v.in = newMapc(rowV, 1)
		case 13:
			v.in = newMapc(rowHS, 0)
		case 14, 15:
			v.in = newOnec(a[0] - 14)
		default:
			bad("clone kind %d", a[0])
		}
	case "add":
		v.in.add(a[0]-1, a[1:])
	case "addf":
		v.in.addf(a[0]-1, a[1:])
	case "popb":
		v.in.popb(a[0] - 1)
	case "popf":
		v.in.popf(a[0] - 1)
	case "put":
		v.in.put(a[0]-1, a[1], a[2:])
	case "del":
		v.in.del(a[0]-1, a[1])
	case "range":
		for _, r := range v.in.read(a[0] - 1) {
			if v.kind <= 2 {
				v.in.popb(a[0] - 1)
			} else {
				v.in.del(a[0]-1, r[0])
			}
		}
		for j := 0; j < a[1]; j++ {
			if v.kind <= 2 {
				v.in.add(a[0]-1, []int{a[2] + j*a[3]})
			} else {
				v.in.put(a[0]-1, a[2]+j*a[3], []int{j + 1})
			}
		}
	case "poke":
		v.in.poke(a[0]-1, a[1], a[2])
	case "clear":
		v.in.clear(a[0] - 1)
	case "clone":
		v.in.clone(a[0]-1, a[1]-1)
	case "same": // maps that cannot be cloned: the other is built anew, in another order
		rows := v.in.read(a[0] - 1)
		if a[0] != a[1] {
			v.in.clear(a[1] - 1)
			for i := range rows {
				r := rows[(i*7+3)%len(rows)]
				if len(rows)%7 == 0 {
					r = rows[len(rows)-1-i]
				}
				v.in.put(a[1]-1, r[0], r[1:])
			}
		}
	case "eq":
		return "bool", b2i(v.in.eq(a[0]-1, a[1]-1))
	case "ref":
		viaRef(v.in.slot(a[0] - 1))
	case "reserve":
		v.in.reserve(a[0]-1, a[1])
	default:
		bad("clone op %s", op)
	}
	return "unit", nil
}

func (v *cloneComp) State() [][]int {
	out := [][]int{}
	for i := 0; i < 3; i++ {
		rows := v.in.read(i)
		f := []int{len(rows)}
		for _, r := range rows {
			f = append(append(f, len(r)), r...)
		}
		out = append(out, f)
	}
	return out
}

func (v *cloneComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		if isBig(length) {
			return Op{"new", []int{r.Intn(7)}}
		}
		return Op{"new", []int{r.Intn(16)}}
	}
	if len(v.next) > 0 {
		op := v.next[0]
		v.next = v.next[1:]
		return op
	}
	i := 1 + r.Intn(3)
	keys := 6
	if isBig(length) { // containers of many elements
		keys = 900
		if q := v.in.read(i - 1); len(q) > 30 && r.Intn(3) == 0 { // a copy, changed in one place: the first, the last, any
			k := 1 + i%3
			j := []int{1, len(q), 1 + r.Intn(len(q))}[r.Intn(3)]
			at := q[j-1][0]
			x := 5000 + r.Intn(9)
			copyOp := Op{"clone", []int{i, k}}
			if v.kind == 6 {
				copyOp = Op{"same", []int{i, k}}
			}
			switch v.kind {
			case 0, 1, 2:
				v.next = []Op{{"poke", []int{k, j, x}}}
			case 4, 6:
				v.next = []Op{{"poke", []int{k, at, x}}}
				if r.Intn(2) == 0 {
					v.next = []Op{{"del", []int{k, at}}, {"put", []int{k, 20000 + x, q[j-1][1]}}}
				}
			default:
				v.next = []Op{{"del", []int{k, at}}, {"put", []int{k, 20000 + x}}}
			}
			v.next = append(v.next, Op{"eq", []int{i, k}}, Op{"eq", []int{k, i}})
			return copyOp
		}
		switch d := r.Intn(10); { // copies that differ in one place
		case d < 3 && v.kind != 6 && len(v.in.read(i-1)) > 60:
			return Op{"clone", []int{i, 1 + r.Intn(3)}}
		case d < 3 && v.kind == 6 && len(v.in.read(i-1)) > 60:
			return Op{"same", []int{i, 1 + r.Intn(3)}}
		case d < 6:
			return Op{"eq", []int{i, 1 + r.Intn(3)}}
		case d < 8 && v.kind < 3 && len(v.in.read(i-1)) > 0:
			return Op{"poke", []int{i, 1 + r.Intn(len(v.in.read(i-1))), r.Intn(9)}}
		case d < 8 && (v.kind == 4 || v.kind == 6) && len(v.in.read(i-1)) > 0:
			q := v.in.read(i - 1)
			return Op{"poke", []int{i, q[r.Intn(len(q))][0], r.Intn(9)}}
		}
		if r.Intn(12) == 0 || step <= 2 {
			most := 600
			if length == hugeLen {
				most = 4500
			}
			return Op{"range", []int{i, 1 + r.Intn(most), 1 + r.Intn(4), 1 + r.Intn(3)}}
		}
	}
	row := func() []int {
		switch v.kind {
		case 0, 1, 2, 4, 6:
			return []int{r.Intn(4)}
		}
		q := []int{}
		for n := 1 + r.Intn(3); n > 0; n-- {
			q = append(q, r.Intn(4))
		}
		return q
	}
	has := func() [][]int { return v.in.read(i - 1) }
	for {
		switch c := r.Intn(20); {
		case c < 4 && (v.kind != 6 && v.kind != 11):
			return Op{"clone", []int{i, 1 + r.Intn(3)}}
		case c < 4:
			return Op{"same", []int{i, 1 + r.Intn(3)}}
		case c < 8:
			return Op{"eq", []int{i, 1 + r.Intn(3)}}
		case c == 8:
			return Op{"ref", []int{i}}
		}
		switch v.kind {
		case 0, 1, 2, 7, 8, 9, 12:
			switch c := r.Intn(20); {
			case c < 5:
				return Op{"add", append([]int{i}, row()...)}
			case c < 8:
				return Op{"addf", append([]int{i}, row()...)}
			case c < 10:
				return Op{"popb", []int{i}}
			case c < 12 && (v.kind == 1 || v.kind == 2 || v.kind == 8 || v.kind == 9):
				return Op{"popf", []int{i}}
			case c < 17:
				if q := has(); len(q) > 0 {
					return Op{"poke", []int{i, 1 + r.Intn(len(q)), r.Intn(9)}}
				}
			case c == 17 && r.Intn(3) == 0:
				return Op{"clear", []int{i}}
			case c == 18 && (v.kind < 2 || v.kind == 7 || v.kind == 8):
				return Op{"reserve", []int{i, r.Intn(9)}}
			case c == 19 && v.kind < 3:
				return Op{"range", []int{i, r.Intn(30), r.Intn(4), r.Intn(3)}}
			}
		case 14, 15:
			if c := r.Intn(6); c < 3 {
				return Op{"put", append([]int{i, r.Intn(3)}, row()...)}
			} else if c == 3 && v.kind == 14 {
				return Op{"del", []int{i, 0}}
			} else if q := has(); c > 3 && len(q) > 0 && len(q[0]) > v.kind-14 {
				return Op{"poke", []int{i, 1, r.Intn(9)}}
			}
		default:
			k := 1 + r.Intn(keys)
			switch c := r.Intn(20); {
			case c < 6:
				a := []int{i, k}
				if v.kind != 3 && v.kind != 5 {
					a = append(a, row()...)
				}
				return Op{"put", a}
			case c < 10:
				return Op{"del", []int{i, k}}
			case c < 14 && v.kind != 3 && v.kind != 5:
				if q := has(); len(q) > 0 {
					return Op{"poke", []int{i, q[r.Intn(len(q))][0], r.Intn(9)}}
				}
			case c == 15 && r.Intn(3) == 0:
				return Op{"clear", []int{i}}
			case c == 16 && v.kind <= 6:
				return Op{"range", []int{i, r.Intn(40), 1 + r.Intn(3), 1 + r.Intn(2)}}
			}
		}
	}
}
