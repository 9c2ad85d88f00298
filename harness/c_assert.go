package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"

	"github.com/myyrakle/gost"
)

// assertComp calls the assertions; how a call ended is its result.
type assertComp struct{}

// Digit is a caller's type whose equality looks at the last digit only.
type Digit int

func (d Digit) Eq(o Digit) gost.Bool  { return d%10 == o%10 }
func (d Digit) Display() gost.String  { return gost.String("m" + strconv.Itoa(int(d))) }
func (d Digit) ToString() gost.String { return d.Display() }

func (c *assertComp) State() [][]int { return nil }

func operand(a []int) any {
	switch a[0] {
	case 20:
		return gost.F64([]float64{0, math.Copysign(0, -1), math.NaN(), 1.5, math.Inf(1)}[a[1]])
	case 21:
		return Digit(a[1])
	}
	v, _ := value(a, 0)
	return v
}

func message(a []int) []any {
	if a[0] == 2 {
		return nil
	}
	t, args := fmtCall(a[1:])
	if a[0] == 0 {
		return append([]any{t}, args...)
	}
	return append([]any{string(t)}, args...)
}

func assertTwo[T gost.Eq[T]](eq bool, x, y any, msg []any) {
	if eq {
		gost.AssertEq(x.(T), y.(T), msg...)
	} else {
		gost.AssertNe(x.(T), y.(T), msg...)
	}
}

func ending(f func()) (k string, v []int) {
	k = "returned"
	defer func() {
		if r := recover(); r != nil {
			k, v = "panicked", codes(gost.String(fmt.Sprint(r)))
		}
	}()
	f()
	return
}

func (c *assertComp) Exec(op string, a []int) (string, []int) {
	said := func() []gost.String {
		if len(a) == 0 {
			return nil
		}
		return []gost.String{gost.String(untxt(a[1:]))}
	}
	switch op {
	case "new":
		return "unit", nil
	case "assert":
		m := message(a[1:])
		return ending(func() { gost.Assert(a[0] == 1, m...) })
	case "eq", "ne":
		x := operand(a[1 : 1+a[0]])
		b := a[1+a[0]:]
		y := operand(b[1 : 1+b[0]])
		m := message(b[1+b[0]:])
		eq := op == "eq"
		var f func()
		switch x.(type) {
		case gost.I32:
			f = func() { assertTwo[gost.I32](eq, x, y, m) }
		case gost.String:
			f = func() { assertTwo[gost.String](eq, x, y, m) }
		case gost.Bool:
			f = func() { assertTwo[gost.Bool](eq, x, y, m) }
		case gost.F64:
			f = func() { assertTwo[gost.F64](eq, x, y, m) }
		case Digit:
			f = func() { assertTwo[Digit](eq, x, y, m) }
		case gost.Vec[gost.I32]:
			f = func() { assertTwo[gost.Vec[gost.I32]](eq, x, y, m) }
		case gost.LinkedList[gost.I32]:
			f = func() { assertTwo[gost.LinkedList[gost.I32]](eq, x, y, m) }
		case gost.HashSet[gost.I32]:
			f = func() { assertTwo[gost.HashSet[gost.I32]](eq, x, y, m) }
		case gost.Option[gost.I32]:
			f = func() { assertTwo[gost.Option[gost.I32]](eq, x, y, m) }
		default:
			bad("operand %T", x)
		}
		return ending(f)
	case "panic":
		t, args := fmtCall(a[1:])
		return ending(func() { gost.Panic(t, args...) })
	case "unimplemented":
		return ending(func() { gost.Unimplemented(said()...) })
	case "unreachable":
		return ending(func() { gost.Unreachable(said()...) })
	case "todo":
		return ending(func() { gost.Todo(said()...) })
	}
	bad("assert op %s", op)
	return "", nil
}

func (c *assertComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", nil}
	}
	msg := func() []int {
		if r.Intn(4) == 0 {
			return []int{2}
		}
		t, holes := randTemplate(r, 8)
		n := holes
		if r.Intn(6) == 0 {
			n = r.Intn(holes + 3)
		}
		a := append(append([]int{r.Intn(2), len(t)}, t...), n)
		for i := 0; i < n; i++ {
			v := randNested(r, 1)
			if hashes(v) > 0 {
				v = []int{0, 77}
			}
			a = append(a, v...)
		}
		return a
	}
	switch r.Intn(6) {
	case 0:
		return Op{"assert", append([]int{r.Intn(2)}, msg()...)}
	case 1:
		m := msg()
		for m[0] == 2 {
			m = msg()
		}
		return Op{"panic", m}
	case 2:
		op := []string{"unimplemented", "unreachable", "todo"}[r.Intn(3)]
		if r.Intn(3) == 0 {
			return Op{op, nil}
		}
		return Op{op, append([]int{1}, randText(r, 8)...)}
	}
	list := func(k int) []int {
		n := r.Intn(4)
		out := []int{k, n}
		for i := 0; i < n; i++ {
			out = append(out, 0, r.Intn(2))
		}
		return out
	}
	var x, y []int
	switch k := r.Intn(9); k {
	case 0:
		x, y = []int{0, r.Intn(4) - 1}, []int{0, r.Intn(4) - 1}
	case 1:
		t := randText(r, 3)
		x, y = append([]int{1, len(t)}, t...), append([]int{1, len(t)}, t...)
		if r.Intn(2) == 0 {
			u := randText(r, 3)
			y = append([]int{1, len(u)}, u...)
		}
	case 2:
		x, y = []int{2, r.Intn(2)}, []int{2, r.Intn(2)}
	case 3, 4:
		kk := []int{3, 5}[k-3]
		x, y = list(kk), list(kk)
		if r.Intn(2) == 0 {
			y = append([]int{}, x...)
		}
		if r.Intn(3) == 0 && len(y) > 2 {
			y[len(y)-1] = 3
		}
	case 5:
		p := r.Perm(4)[:r.Intn(4)]
		x = append([]int{7, len(p)}, p...)
		y = append([]int{7, len(p)}, p...)
		r.Shuffle(len(p), func(i, j int) { y[i+2], y[j+2] = y[j+2], y[i+2] })
		if r.Intn(2) == 0 && len(p) > 0 {
			y[2] = 9
		}
	case 6:
		x, y = []int{10, 0}, []int{10, 0}
		if r.Intn(3) > 0 {
			x = []int{10, 1, 0, r.Intn(2)}
		}
		if r.Intn(3) > 0 {
			y = []int{10, 1, 0, r.Intn(2)}
		}
	case 7:
		x, y = []int{20, r.Intn(5)}, []int{20, r.Intn(5)}
	case 8:
		x, y = []int{21, r.Intn(40)}, []int{21, r.Intn(40)}
		if r.Intn(2) == 0 {
			y[1] = x[1]%10 + 10*r.Intn(4)
		}
	}
	a := append([]int{len(x)}, x...)
	a = append(append(append(a, len(y)), y...), msg()...)
	return Op{[]string{"eq", "ne"}[r.Intn(2)], a}
}
