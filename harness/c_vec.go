package main

import (
	"math/rand"

	"github.com/myyrakle/gost"
)

// vecComp: two vectors s and o of the same element type (o is the partner for append).
type vecComp[T any] struct {
	c    Codec[T]
	s, o gost.Vec[T]
}

// The outer component picks the element type in its "new" call.
type vecAny struct{ in Comp }

func (v *vecAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[0] {
		case 0:
			v.in = &vecComp[Item]{c: itemCodec}
		case 1:
			v.in = &vecComp[gost.I32]{c: i32Codec}
		case 2:
			v.in = &vecComp[gost.String]{c: strCodec}
		default:
			bad("vec type %d", a[0])
		}
	}
	return v.in.Exec(op, a)
}
func (v *vecAny) State() [][]int { return v.in.State() }
func (v *vecAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		mode := r.Intn(3)
		return Op{"new", []int{r.Intn(3), mode, r.Intn(6)}}
	}
	return v.in.Gen(r, step, length)
}

func (v *vecComp[T]) State() [][]int {
	return [][]int{v.read(&v.s), v.read(&v.o)}
}

func (v *vecComp[T]) read(x *gost.Vec[T]) []int {
	n := x.Len()
	out := make([]int, 0, n)
	for i := gost.USize(0); i < n; i++ {
		out = append(out, v.c.Dec(x.GetUnchecked(i)))
	}
	return out
}

func key(x int) int { return x / 100 }

// index is an index from a log: those no log can hold are written as negative numbers.
func index(i int) gost.USize {
	switch {
	case i >= 0 || i >= -1<<28:
		return gost.USize(i)
	case i < -1<<29:
		return gost.USize(i+1<<30) + 1<<63
	default:
		return gost.USize(i+1<<29) + 1<<32
	}
}

func (v *vecComp[T]) Exec(op string, a []int) (string, []int) {
	e, d := v.c.Enc, v.c.Dec
	switch op {
	case "new": // type, mode, n
		switch a[1] {
		case 0:
			v.s = gost.VecNew[T]()
		case 1:
			v.s = gost.VecWithCapacity[T](gost.USize(a[2]))
		case 2:
			v.s = gost.VecWithLen[T](gost.USize(a[2]))
		}
		v.o = gost.VecNew[T]()
		return "cap", []int{int(v.s.Capacity())}
	case "push":
		v.s.Push(e(a[0]))
	case "pop":
		return optOf(v.c, v.s.Pop())
	case "pushn": // push back n elements in runs of equal ones
		for i := 0; i < a[0]; i++ {
			v.s.Push(e(a[1] + i/a[2]))
		}
	case "popn": // pop up to n elements
		out := []int{}
		for i := 0; i < a[0]; i++ {
			x := v.s.Pop()
			if !x.IsSome() {
				break
			}
			out = append(out, d(x.Unwrap()))
		}
		return "seq", out
	case "insert":
		v.s.Insert(gost.USize(a[0]), e(a[1]))
	case "get":
		return optOf(v.c, v.s.Get(index(a[0])))
	case "getun":
		return "int", []int{d(v.s.GetUnchecked(gost.USize(a[0])))}
	case "set":
		return optOf(v.c, v.s.Set(index(a[0]), e(a[1])))
	case "setun":
		v.s.SetUnchecked(gost.USize(a[0]), e(a[1]))
	case "swap":
		v.s.Swap(gost.USize(a[0]), gost.USize(a[1]))
	case "reverse":
		v.s.Reverse()
	case "retain": // keep elements whose key is r modulo m
		v.s.Retain(func(x T) gost.Bool { return gost.Bool(key(d(x))%a[0] == a[1]) })
	case "dedup":
		v.s.Dedup()
	case "dedupkey":
		v.s.DedupByKey(func(x T) any { return key(d(x)) % a[0] })
	case "contains":
		return "bool", b2i(bool(v.s.Contains(e(a[0]))))
	case "fill":
		v.s.Fill(e(a[0]))
	case "fillwith":
		n := a[0]
		v.s.FillWith(func() T { n++; return e(n - 1) })
	case "append":
		v.s.Append(&v.o)
	case "xchg":
		v.s, v.o = v.o, v.s
	case "clear":
		v.s.Clear()
	case "reserve":
		v.s.Reserve(gost.USize(a[0]))
		return "cap", []int{int(v.s.Capacity())}
	case "capacity":
		return "cap", []int{int(v.s.Capacity())}
	case "len":
		return "int", []int{int(v.s.Len())}
	case "isempty":
		return "bool", b2i(bool(v.s.IsEmpty()))
	case "asslice":
		return "seq", decAll(v.c, v.s.AsSlice())
	case "iter":
		return "seq", drain(v.c, v.s.IntoIter(), 100000)
	default:
		bad("vec op %s", op)
	}
	return "unit", nil
}

func elem(r *rand.Rand) int { return (1+r.Intn(4))*100 + r.Intn(3) }

// Histories of this length work on large collections.
const bigLen = 41

// And of this one, on very large ones.
const hugeLen = 22

func isBig(length int) bool { return length == bigLen || length == hugeLen }

// bulk proposes the bulk calls of such a history on a collection of n elements.
func bulk(r *rand.Rand, step, n, length int) (Op, bool) {
	scale, most := 0, 1500
	if length == hugeLen {
		scale, most = 3, 9000
	}
	many := func() int {
		switch r.Intn(4) {
		case 0:
			return 1 << (5 + scale + r.Intn(6))
		case 1:
			return 1<<(5+scale+r.Intn(6)) + r.Intn(3) - 1
		default:
			return 50 + r.Intn(600<<scale)
		}
	}
	push := func() Op { return Op{"pushn", []int{many(), 100 * (1 + r.Intn(4)), 1 + r.Intn(3)*r.Intn(40)}} }
	switch {
	case step == 1:
		return push(), true
	case step == 2 && r.Intn(2) == 0, step == 4 && r.Intn(4) == 0:
		return Op{"xchg", []int{}}, true
	case n < most && (n < 100 || r.Intn(20) == 0):
		return push(), true
	case r.Intn(12) == 0:
		return Op{"popn", []int{r.Intn(n + 2)}}, true
	case r.Intn(24) == 0:
		return Op{"popn", []int{n - r.Intn(4)}}, true
	}
	return Op{}, false
}

func (v *vecComp[T]) Gen(r *rand.Rand, step, length int) Op {
	n := int(v.s.Len())
	in := func() int { return r.Intn(n) }
	out := func() int {
		switch r.Intn(5) {
		case 0:
			return n
		case 1:
			return n + 1 + r.Intn(40)
		case 2:
			return []int{-1 - r.Intn(n+40), r.Intn(n+40) - 1 - 1<<30, r.Intn(n+40) - 1<<29}[r.Intn(3)]
		default:
			if n > 0 {
				return in()
			}
			return 0
		}
	}
	if isBig(length) {
		if op, ok := bulk(r, step, n, length); ok {
			return op
		}
	}
	for {
		switch r.Intn(34) {
		case 0, 1, 2, 3, 4, 5, 6:
			return Op{"push", []int{elem(r)}}
		case 7, 8:
			return Op{"pop", []int{}}
		case 9, 10:
			return Op{"insert", []int{r.Intn(n + 1), elem(r)}}
		case 11:
			return Op{"get", []int{out()}}
		case 12:
			if n > 0 {
				return Op{"getun", []int{in()}}
			}
		case 13, 14:
			return Op{"set", []int{out(), elem(r)}}
		case 15:
			if n > 0 {
				return Op{"setun", []int{in(), elem(r)}}
			}
		case 16:
			if n > 0 {
				return Op{"swap", []int{in(), in()}}
			}
		case 17:
			return Op{"reverse", []int{}}
		case 18:
			if r.Intn(3) == 0 {
				m := 2 + r.Intn(3)
				return Op{"retain", []int{m, r.Intn(m)}}
			}
		case 19:
			return Op{"dedup", []int{}}
		case 20:
			return Op{"dedupkey", []int{1 + r.Intn(4)}}
		case 21:
			return Op{"contains", []int{elem(r)}}
		case 22:
			if r.Intn(4) == 0 {
				return Op{"fill", []int{elem(r)}}
			}
		case 23:
			return Op{"fillwith", []int{elem(r)}}
		case 24, 25:
			return Op{"append", []int{}}
		case 26, 27:
			return Op{"xchg", []int{}}
		case 28:
			if r.Intn(4) == 0 {
				return Op{"clear", []int{}}
			}
		case 29:
			return Op{"reserve", []int{r.Intn(3) * r.Intn(30)}}
		case 30:
			return Op{"capacity", []int{}}
		case 31:
			return Op{"len", []int{}}
		case 32:
			if r.Intn(2) == 0 {
				return Op{"isempty", []int{}}
			}
			return Op{"iter", []int{}}
		case 33:
			return Op{"asslice", []int{}}
		}
	}
}
