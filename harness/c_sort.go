package main

import (
	"math/rand"

	"github.com/myyrakle/gost"
)

// sorter is what Vec and VecDeque have in common here.
type sorter[T any] interface {
	Sort()
	SortBy(func(T, T) gost.Ordering)
	SortUnstable()
	SortUnstableBy(func(T, T) gost.Ordering)
	BinarySearch(T) gost.Option[gost.USize]
	BinarySearchBy(func(T) gost.Ordering) gost.Option[gost.USize]
	Len() gost.USize
	GetUnchecked(gost.USize) T
	Clear()
}

type sortComp[T any] struct {
	c  Codec[T]
	s  sorter[T]
	v  *gost.Vec[T]
	d  *gost.VecDeque[T]
	ty int
}

type sortAny struct{ in Comp }

func (v *sortAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[1] {
		case 0:
			v.in = newSort(itemCodec, a)
		case 1:
			v.in = newSort(i32Codec, a)
		case 2:
			v.in = newSort(strCodec, a)
		case 3:
			v.in = newSort(u64Codec, a)
		default:
			bad("sort type %d", a[1])
		}
		return "unit", nil
	}
	return v.in.Exec(op, a)
}
func (v *sortAny) State() [][]int { return v.in.State() }
func (v *sortAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{r.Intn(2), r.Intn(4), r.Intn(20)}}
	}
	return v.in.Gen(r, step, length)
}

// new: container (0 vec, 1 deque), type, capacity
func newSort[T any](c Codec[T], a []int) Comp {
	x := &sortComp[T]{c: c, ty: a[1]}
	if a[0] == 0 {
		v := gost.VecWithCapacity[T](gost.USize(a[2]))
		x.v, x.s = &v, &v
	} else {
		d := gost.VecDequeWithCapacity[T](gost.USize(a[2]))
		x.d, x.s = &d, &d
	}
	return x
}

func (v *sortComp[T]) State() [][]int {
	n := v.s.Len()
	out := make([]int, 0, n)
	for i := gost.USize(0); i < n; i++ {
		out = append(out, v.c.Dec(v.s.GetUnchecked(i)))
	}
	return [][]int{out}
}

func ord(x int) gost.Ordering {
	if x < 0 {
		return gost.OrderingLess
	} else if x > 0 {
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}

// rank of an element under comparator m: 1 descending by key, 2 by key modulo 3, 3 by tag
func rank(m, x int) int {
	switch m {
	case 1:
		return -key(x)
	case 2:
		return key(x) % 3
	case 3:
		return x % 100
	}
	return key(x)
}

func (v *sortComp[T]) Exec(op string, a []int) (string, []int) {
	d := v.c.Dec
	cmp := func(m int) func(T, T) gost.Ordering {
		return func(x, y T) gost.Ordering { return ord(rank(m, d(x)) - rank(m, d(y))) }
	}
	switch op {
	case "load": // replace the contents
		v.s.Clear()
		for _, x := range a {
			if v.v != nil {
				v.v.Push(v.c.Enc(x))
			} else {
				v.d.PushBack(v.c.Enc(x))
			}
		}
	case "more": // add at the front where possible
		for _, x := range a {
			if v.v != nil {
				v.v.Push(v.c.Enc(x))
			} else {
				v.d.PushFront(v.c.Enc(x))
			}
		}
	case "rot":
		for i := 0; i < a[0]; i++ {
			if v.v != nil {
				if v.v.Len() > 0 {
					x := v.v.Pop().Unwrap()
					v.v.Insert(0, x)
				}
			} else if v.d.Len() > 0 {
				v.d.PushFront(v.d.PopBack().Unwrap())
			}
		}
	case "sort":
		v.s.Sort()
	case "sortu":
		v.s.SortUnstable()
	case "sortby":
		v.s.SortBy(cmp(a[0]))
	case "sortuby":
		v.s.SortUnstableBy(cmp(a[0]))
	case "bsearch":
		return optIdx(v.s.BinarySearch(v.c.Enc(a[0])))
	case "bsearchby": // comparator m, target rank
		return optIdx(v.s.BinarySearchBy(func(x T) gost.Ordering { return ord(rank(a[0], d(x)) - a[1]) }))
	default:
		bad("sort op %s", op)
	}
	return "unit", nil
}

func (v *sortComp[T]) Gen(r *rand.Rand, step, length int) Op {
	n := int(v.s.Len())
	gen := func(n int) []int {
		out := make([]int, n)
		ks := 1 + r.Intn(6)
		if r.Intn(3) == 0 && (n < 900 || v.ty == 0) {
			ks = 60
		}
		shape := r.Intn(4)
		for i := range out {
			k := 1 + r.Intn(ks)
			switch shape {
			case 1:
				k = 1 + i*ks/n
			case 2:
				k = 1 + (n-1-i)*ks/n
			}
			out[i] = k*100 + r.Intn(100)
			if v.ty == 0 { // distinguishable equals
				out[i] = k*100 + i%100
			}
		}
		return out
	}
	switch step % 5 {
	case 1:
		m := r.Intn(12)
		if r.Intn(3) == 0 {
			m = 10 + r.Intn(40)
		}
		if length == hugeLen {
			m = 1000 + r.Intn(1800)
		} else if length > 30 {
			m = 50 + r.Intn(200)
		}
		return Op{"load", gen(m)}
	case 2:
		if r.Intn(2) == 0 {
			return Op{"rot", []int{r.Intn(n + 3)}}
		}
		return Op{"more", gen(r.Intn(6))}
	case 3:
		switch r.Intn(4) {
		case 0:
			return Op{"sort", nil}
		case 1:
			return Op{"sortu", nil}
		case 2:
			return Op{"sortby", []int{r.Intn(4)}}
		default:
			return Op{"sortuby", []int{r.Intn(4)}}
		}
	default:
		// a search is only meaningful where the contents are in order
		st := v.State()[0]
		sorted := func(f func(int) int) bool {
			for i := 1; i < len(st); i++ {
				if f(st[i-1]) > f(st[i]) {
					return false
				}
			}
			return true
		}
		nat := func(x int) int {
			if v.ty == 0 {
				return key(x)
			}
			return x
		}
		if sorted(nat) {
			x := (r.Intn(9))*100 + r.Intn(5)
			if n > 0 && r.Intn(2) == 0 {
				x = st[r.Intn(n)]
				if r.Intn(4) == 0 {
					x += 1 - r.Intn(3)
				}
			}
			return Op{"bsearch", []int{x}}
		}
		for m := 0; m < 4; m++ {
			if sorted(func(x int) int { return rank(m, x) }) {
				t := r.Intn(8)
				if n > 0 && r.Intn(2) == 0 {
					t = rank(m, st[r.Intn(n)])
				}
				return Op{"bsearchby", []int{m, t}}
			}
		}
		return Op{"rot", []int{1}}
	}
}
