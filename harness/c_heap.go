package main

import (
	"math/rand"
	"sort"

	"github.com/myyrakle/gost"
)

// heapComp: two priority queues of one element type (o is the partner for append).
type heapComp[T gost.Ord[T]] struct {
	c    Codec[T]
	s, o gost.BinaryHeap[T]
}

type heapAny struct{ in Comp }

func (v *heapAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[0] {
		case 0:
			v.in = &heapComp[Item]{c: itemCodec}
		case 1:
			v.in = &heapComp[gost.I32]{c: i32Codec}
		case 2:
			v.in = &heapComp[gost.String]{c: strCodec}
		default:
			bad("heap type %d", a[0])
		}
	}
	return v.in.Exec(op, a)
}
func (v *heapAny) State() [][]int { return v.in.State() }
func (v *heapAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{r.Intn(3), r.Intn(3), r.Intn(6)}}
	}
	return v.in.Gen(r, step, length)
}

func (v *heapComp[T]) bag(h *gost.BinaryHeap[T]) []int {
	q := decAll(v.c, h.AsSlice())
	if len(q) != int(h.Len()) {
		return []int{-1, int(h.Len())}
	}
	sort.Ints(q)
	return q
}

func (v *heapComp[T]) State() [][]int { return [][]int{v.bag(&v.s), v.bag(&v.o)} }

func (v *heapComp[T]) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new": // type, mode, n
		switch a[1] {
		case 0:
			v.s = gost.BinaryHeapNew[T]()
		case 1:
			v.s = gost.BinaryHeapWithCapacity[T](gost.USize(a[2]))
		case 2:
			v.s = gost.BinaryHeapWithLen[T](gost.USize(a[2]))
		}
		v.o = gost.BinaryHeapNew[T]()
	case "push":
		v.s.Push(v.c.Enc(a[0]))
	case "pop":
		return optOf(v.c, v.s.Pop())
	case "pushn": // n elements from x on, d apart
		for i := 0; i < a[0]; i++ {
			v.s.Push(v.c.Enc(a[1] + i*a[2]))
		}
	case "popn":
		out := []int{}
		for i := 0; i < a[0]; i++ {
			x := v.s.Pop()
			if x.IsNone() {
				break
			}
			out = append(out, v.c.Dec(x.Unwrap()))
		}
		return "seq", out
	case "append":
		v.s.Append(&v.o)
	case "xchg":
		v.s, v.o = v.o, v.s
	case "clear":
		v.s.Clear()
	case "len":
		return "int", []int{int(v.s.Len())}
	case "isempty":
		return "bool", b2i(bool(v.s.IsEmpty()))
	case "reserve":
		v.s.Reserve(gost.USize(a[0]))
		return "cap", []int{int(v.s.Capacity())}
	case "capacity":
		return "cap", []int{int(v.s.Capacity())}
	case "asslice":
		return "seq", decAll(v.c, v.s.AsSlice())
	case "intovec":
		vec := v.s.IntoVec()
		q := decAll(v.c, vec.AsSlice())
		v.s = gost.BinaryHeapNew[T]()
		return "seq", q
	case "intosorted":
		vec := v.s.IntoSortedVec()
		q := decAll(v.c, vec.AsSlice())
		v.s = gost.BinaryHeapNew[T]()
		return "seq", q
	default:
		bad("heap op %s", op)
	}
	return "unit", nil
}

func (v *heapComp[T]) Gen(r *rand.Rand, step, length int) Op {
	x := func() int { return (1+r.Intn(3+length/8))*100 + r.Intn(3) }
	if n := int(v.s.Len()); length == bigLen {
		switch c := r.Intn(12); {
		case step == 1 || n < 700 && c < 3:
			d := r.Intn(7) - 3
			return Op{"pushn", []int{20 + r.Intn(300), 3000 + r.Intn(100), d}}
		case c == 3:
			return Op{"popn", []int{r.Intn(n + 2)}}
		case c == 4:
			return Op{"push", []int{100 * (10 + r.Intn(40))}}
		}
	}
	if length > 100 { // long runs: grow, then drain
		switch c := r.Intn(20); {
		case c == 0:
			return Op{"append", nil}
		case c == 1:
			return Op{"xchg", nil}
		case c == 2 && r.Intn(10) == 0:
			return Op{"intosorted", nil}
		case (step/60)%2 == 0 && c < 16 || c < 6:
			return Op{"push", []int{x()}}
		default:
			return Op{"pop", nil}
		}
	}
	for {
		switch c := r.Intn(28); {
		case c < 11:
			return Op{"push", []int{x()}}
		case c < 18:
			return Op{"pop", nil}
		case c == 18:
			return Op{"append", nil}
		case c == 19:
			return Op{"xchg", nil}
		case c == 20 && r.Intn(4) == 0:
			return Op{"clear", nil}
		case c == 21:
			return Op{[]string{"len", "isempty"}[r.Intn(2)], nil}
		case c == 22:
			return Op{"reserve", []int{r.Intn(20)}}
		case c == 23:
			return Op{"capacity", nil}
		case c == 24:
			return Op{"asslice", nil}
		case c == 25 && r.Intn(3) == 0:
			return Op{"intovec", nil}
		case c == 26 && r.Intn(2) == 0:
			return Op{"intosorted", nil}
		}
	}
}
