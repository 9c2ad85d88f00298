package main

import (
	"math/rand"

	"github.com/myyrakle/gost"
)

// dequeComp: two double-ended queues s and o of the same element type.
type dequeComp[T any] struct {
	c    Codec[T]
	s, o gost.VecDeque[T]
}

type dequeAny struct{ in Comp }

func (v *dequeAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[0] {
		case 0:
			v.in = &dequeComp[Item]{c: itemCodec}
		case 1:
			v.in = &dequeComp[gost.I32]{c: i32Codec}
		case 2:
			v.in = &dequeComp[gost.String]{c: strCodec}
		default:
			bad("deque type %d", a[0])
		}
	}
	return v.in.Exec(op, a)
}
func (v *dequeAny) State() [][]int { return v.in.State() }
func (v *dequeAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		n := r.Intn(6)
		if r.Intn(6) == 0 {
			n = r.Intn(40)
		}
		return Op{"new", []int{r.Intn(3), r.Intn(3), n}}
	}
	return v.in.Gen(r, step, length)
}

func (v *dequeComp[T]) State() [][]int { return [][]int{v.read(&v.s), v.read(&v.o)} }

func (v *dequeComp[T]) read(x *gost.VecDeque[T]) []int {
	n := x.Len()
	out := make([]int, 0, n)
	for i := gost.USize(0); i < n; i++ {
		out = append(out, v.c.Dec(x.GetUnchecked(i)))
	}
	return out
}

func (v *dequeComp[T]) mk(mode, n int) gost.VecDeque[T] {
	switch mode {
	case 0:
		return gost.VecDequeNew[T]()
	case 1:
		return gost.VecDequeWithCapacity[T](gost.USize(n))
	default:
		return gost.VecDequeWithLen[T](gost.USize(n))
	}
}

func (v *dequeComp[T]) Exec(op string, a []int) (string, []int) {
	e, d := v.c.Enc, v.c.Dec
	switch op {
	case "new": // type, mode, n
		v.s = v.mk(a[1], a[2])
		v.o = gost.VecDequeNew[T]()
		return "cap", []int{int(v.s.Capacity())}
	case "pushb":
		v.s.PushBack(e(a[0]))
	case "pushf":
		v.s.PushFront(e(a[0]))
	case "popb":
		return optOf(v.c, v.s.PopBack())
	case "popf":
		return optOf(v.c, v.s.PopFront())
	case "rot": // rotate left a[0] times through the ends
		for i := 0; i < a[0]; i++ {
			x := v.s.PopFront()
			if x.IsSome() {
				v.s.PushBack(x.Unwrap())
			}
		}
	case "pushn": // push back n elements
		for i := 0; i < a[0]; i++ {
			v.s.PushBack(e(a[1] + i/a[2]))
		}
	case "popn": // pop from the front up to n elements
		out := []int{}
		for i := 0; i < a[0]; i++ {
			x := v.s.PopFront()
			if !x.IsSome() {
				break
			}
			out = append(out, d(x.Unwrap()))
		}
		return "seq", out
	case "get":
		return optOf(v.c, v.s.Get(index(a[0])))
	case "getun":
		return "int", []int{d(v.s.GetUnchecked(gost.USize(a[0])))}
	case "set":
		return optOf(v.c, v.s.Set(index(a[0]), e(a[1])))
	case "setun":
		v.s.SetUnchecked(gost.USize(a[0]), e(a[1]))
	case "front":
		return optOf(v.c, v.s.Front())
	case "back":
		return optOf(v.c, v.s.Back())
	case "swap":
		v.s.Swap(gost.USize(a[0]), gost.USize(a[1]))
	case "retain":
		v.s.Retain(func(x T) gost.Bool { return gost.Bool(key(d(x))%a[0] == a[1]) })
	case "dedup":
		v.s.Dedup(func(x T) any { return x })
	case "contains":
		return "bool", b2i(bool(v.s.Contains(e(a[0]))))
	case "fill":
		v.s.Fill(e(a[0]))
	case "fillwith":
		n := a[0]
		v.s.FillWith(func() T { n++; return e(n - 1) })
	case "append":
		v.s.Append(&v.o)
	case "xchg":
		v.s, v.o = v.o, v.s
	case "clear":
		v.s.Clear()
	case "reserve":
		v.s.Reserve(gost.USize(a[0]))
		return "cap", []int{int(v.s.Capacity())}
	case "capacity":
		return "cap", []int{int(v.s.Capacity())}
	case "len":
		return "int", []int{int(v.s.Len())}
	case "isempty":
		return "bool", b2i(bool(v.s.IsEmpty()))
	case "asslice":
		return "seq", decAll(v.c, v.s.AsSlice())
	case "iter":
		return "seq", drain(v.c, v.s.IntoIter(), 100000)
	default:
		bad("deque op %s", op)
	}
	return "unit", nil
}

func (v *dequeComp[T]) Gen(r *rand.Rand, step, length int) Op {
	n := int(v.s.Len())
	in := func() int { return r.Intn(n) }
	out := func() int {
		switch r.Intn(5) {
		case 0:
			return n
		case 1:
			return n + 1 + r.Intn(40)
		case 2:
			return []int{-1 - r.Intn(n+40), r.Intn(n+40) - 1 - 1<<30, r.Intn(n+40) - 1<<29}[r.Intn(3)]
		default:
			if n > 0 {
				return in()
			}
			return 0
		}
	}
	// each history leans towards one of a few workloads
	lean := length%5 + int(v.s.Capacity())%3
	if isBig(length) {
		if op, ok := bulk(r, step, n, length); ok {
			return op
		}
	}
	for {
		switch r.Intn(38) {
		case 0, 1, 2, 3:
			return Op{"pushb", []int{elem(r)}}
		case 4, 5, 6, 7:
			return Op{"pushf", []int{elem(r)}}
		case 8, 9:
			return Op{"popb", []int{}}
		case 10, 11:
			return Op{"popf", []int{}}
		case 12:
			if lean%2 == 0 {
				return Op{"rot", []int{r.Intn(n + 2)}}
			}
		case 13:
			return Op{"get", []int{out()}}
		case 14:
			if n > 0 {
				return Op{"getun", []int{in()}}
			}
		case 15, 16:
			return Op{"set", []int{out(), elem(r)}}
		case 17:
			if n > 0 {
				return Op{"setun", []int{in(), elem(r)}}
			}
		case 18, 19:
			if n > 0 {
				return Op{"swap", []int{in(), in()}}
			}
		case 20:
			if r.Intn(3) == 0 {
				m := 2 + r.Intn(3)
				return Op{"retain", []int{m, r.Intn(m)}}
			}
		case 21:
			return Op{"dedup", []int{}}
		case 22:
			return Op{"contains", []int{elem(r)}}
		case 23:
			if r.Intn(4) == 0 {
				return Op{"fill", []int{elem(r)}}
			}
		case 24:
			return Op{"fillwith", []int{elem(r)}}
		case 25, 26:
			return Op{"append", []int{}}
		case 27, 28:
			return Op{"xchg", []int{}}
		case 29:
			if r.Intn(5) == 0 {
				return Op{"clear", []int{}}
			}
		case 30, 31:
			return Op{"reserve", []int{r.Intn(3) * r.Intn(30)}}
		case 32:
			return Op{"capacity", []int{}}
		case 33:
			if r.Intn(2) == 0 {
				return Op{"len", []int{}}
			}
			return Op{"isempty", []int{}}
		case 34:
			return Op{"iter", []int{}}
		case 35:
			return Op{"asslice", []int{}}
		case 36:
			if r.Intn(2) == 0 {
				return Op{"front", []int{}}
			}
			return Op{"back", []int{}}
		case 37:
			if n < 60 && r.Intn(2) == 0 {
				return Op{"pushn", []int{r.Intn(30), 100 * (1 + r.Intn(4)), 1 + r.Intn(3)}}
			}
			return Op{"popn", []int{r.Intn(n + 2)}}
		}
	}
}
