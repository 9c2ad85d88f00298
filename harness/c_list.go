package main

import (
	"math/rand"

	"github.com/myyrakle/gost"
)

// listComp: two linked lists and one reference obtained from Front or Back
// that the history may keep and write through later.
type listComp[T any] struct {
	c    Codec[T]
	s, o gost.LinkedList[T]
	ref  *T
}

type listAny struct{ in Comp }

func (v *listAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[0] {
		case 0:
			v.in = &listComp[Item]{c: itemCodec}
		case 1:
			v.in = &listComp[gost.I32]{c: i32Codec}
		case 2:
			v.in = &listComp[gost.String]{c: strCodec}
		default:
			bad("list type %d", a[0])
		}
	}
	return v.in.Exec(op, a)
}
func (v *listAny) State() [][]int { return v.in.State() }
func (v *listAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{r.Intn(3)}}
	}
	return v.in.Gen(r, step, length)
}

func (v *listComp[T]) State() [][]int {
	return [][]int{drain(v.c, v.s.IntoIter(), 100000), drain(v.c, v.o.IntoIter(), 100000), {int(v.s.Len()), int(v.o.Len())}}
}

func (v *listComp[T]) Exec(op string, a []int) (string, []int) {
	e, d := v.c.Enc, v.c.Dec
	ref := func(x gost.Option[*T]) (string, []int) {
		if x.IsSome() {
			return "opt", []int{d(*x.Unwrap())}
		}
		return "opt", []int{}
	}
	switch op {
	case "new":
		v.s, v.o = gost.LinkedListNew[T](), gost.LinkedListNew[T]()
		v.ref = nil
	case "pushb":
		v.s.PushBack(e(a[0]))
	case "pushf":
		v.s.PushFront(e(a[0]))
	case "pushn": // push back n elements in runs of equal ones
		for i := 0; i < a[0]; i++ {
			v.s.PushBack(e(a[1] + i/a[2]))
		}
	case "popn": // pop up to n elements
		out := []int{}
		for i := 0; i < a[0]; i++ {
			x := v.s.PopFront()
			if !x.IsSome() {
				break
			}
			out = append(out, d(x.Unwrap()))
		}
		return "seq", out
	case "popb":
		return optOf(v.c, v.s.PopBack())
	case "popf":
		return optOf(v.c, v.s.PopFront())
	case "front":
		return ref(v.s.Front())
	case "back":
		return ref(v.s.Back())
	case "setfront", "setback": // write through the reference at once
		x := v.s.Front()
		if op == "setback" {
			x = v.s.Back()
		}
		if x.IsSome() {
			*x.Unwrap() = e(a[0])
			return "bool", []int{1}
		}
		return "bool", []int{0}
	case "holdfront", "holdback": // keep the reference
		x := v.s.Front()
		if op == "holdback" {
			x = v.s.Back()
		}
		v.ref = nil
		if x.IsSome() {
			v.ref = x.Unwrap()
		}
		return ref(x)
	case "write": // through the kept reference
		if v.ref != nil {
			*v.ref = e(a[0])
		}
	case "append":
		v.s.Append(&v.o)
	case "xchg":
		v.s, v.o = v.o, v.s
	case "clear":
		v.s.Clear()
	case "len":
		return "int", []int{int(v.s.Len())}
	case "isempty":
		return "bool", b2i(bool(v.s.IsEmpty()))
	case "iter":
		return "seq", drain(v.c, v.s.IntoIter(), 100000)
	default:
		bad("list op %s", op)
	}
	return "unit", nil
}

func (v *listComp[T]) Gen(r *rand.Rand, step, length int) Op {
	if isBig(length) {
		if op, ok := bulk(r, step, int(v.s.Len()), length); ok {
			return op
		}
	}
	for {
		switch r.Intn(25) {
		case 0, 1, 2:
			return Op{"pushb", []int{elem(r)}}
		case 3, 4, 5:
			return Op{"pushf", []int{elem(r)}}
		case 6, 7, 8:
			return Op{"popb", []int{}}
		case 9, 10, 11:
			return Op{"popf", []int{}}
		case 12:
			return Op{"front", []int{}}
		case 13:
			return Op{"back", []int{}}
		case 14:
			return Op{"setfront", []int{elem(r)}}
		case 15:
			return Op{"setback", []int{elem(r)}}
		case 16:
			return Op{"holdfront", []int{}}
		case 17:
			return Op{"holdback", []int{}}
		case 18:
			return Op{"write", []int{elem(r)}}
		case 19, 20:
			return Op{"append", []int{}}
		case 21, 22:
			return Op{"xchg", []int{}}
		case 23:
			if r.Intn(4) == 0 {
				return Op{"clear", []int{}}
			}
			return Op{"iter", []int{}}
		case 24:
			if r.Intn(2) == 0 {
				return Op{"len", []int{}}
			}
			return Op{"isempty", []int{}}
		}
	}
}
