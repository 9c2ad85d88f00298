package main

import (
	"errors"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"syscall"

	"github.com/myyrakle/gost"
)

// fmtComp formats and displays values written in prefix form; see Format.tla.
type fmtComp struct{}

func (c *fmtComp) State() [][]int { return nil }

// shown is what one of the text methods of a value returns.
func shown(a []int, method string) (string, []int) {
	v, _ := value(a, 0)
	return "seq", codes(gost.String(reflect.ValueOf(v).MethodByName(method).Call(nil)[0].String()))
}

// value decodes the value at a[i:] and the position behind it.
func value(a []int, i int) (any, int) {
	k := a[i]
	switch k {
	case 0:
		return gost.I32(a[i+1]), i + 2
	case 1:
		return gost.String(untxt(a[i+2 : i+2+a[i+1]])), i + 2 + a[i+1]
	case 2:
		return gost.Bool(a[i+1] == 1), i + 2
	case 3, 4, 5:
		xs := []any{}
		n := a[i+1]
		i += 2
		for ; n > 0; n-- {
			var v any
			v, i = value(a, i)
			xs = append(xs, v)
		}
		if ys, ok := allOf[gost.I32](xs); ok {
			return listOf(k, ys), i
		}
		if ys, ok := allOf[gost.String](xs); ok {
			return listOf(k, ys), i
		}
		if ys, ok := allOf[gost.Vec[gost.I32]](xs); ok {
			return listOf(k, ys), i
		}
		return listOf(k, xs), i
	case 6:
		s := gost.BTreeSetNew[gost.I32]()
		for _, x := range a[i+2 : i+2+a[i+1]] {
			s.Insert(gost.I32(x))
		}
		return s, i + 2 + a[i+1]
	case 7:
		s := gost.HashSetNew[gost.I32]()
		for _, x := range a[i+2 : i+2+a[i+1]] {
			s.Insert(gost.I32(x))
		}
		return s, i + 2 + a[i+1]
	case 8, 9:
		ks, xs := []gost.I32{}, []any{}
		n := a[i+1]
		i += 2
		for ; n > 0; n-- {
			ks = append(ks, gost.I32(a[i]))
			var v any
			v, i = value(a, i+1)
			xs = append(xs, v)
		}
		if ys, ok := allOf[gost.I32](xs); ok {
			return mapOf(k, ks, ys), i
		}
		if ys, ok := allOf[gost.String](xs); ok {
			return mapOf(k, ks, ys), i
		}
		if ys, ok := allOf[gost.Vec[gost.I32]](xs); ok {
			return mapOf(k, ks, ys), i
		}
		return mapOf(k, ks, xs), i
	case 13, 14, 15, 16:
		n := a[i+1]
		i += 2
		ks, xs := []gost.String{}, []any{}
		for ; n > 0; n-- {
			ks = append(ks, gost.String(untxt(a[i+1:i+1+a[i]])))
			i += 1 + a[i]
			if k < 15 {
				var v any
				v, i = value(a, i)
				xs = append(xs, v)
			}
		}
		if k == 15 {
			s := gost.BTreeSetNew[gost.String]()
			for _, x := range ks {
				s.Insert(x)
			}
			return s, i
		}
		if k == 16 {
			s := gost.HashSetNew[gost.String]()
			for _, x := range ks {
				s.Insert(x)
			}
			return s, i
		}
		if ys, ok := allOf[gost.I32](xs); ok {
			return mapOf(k-5, ks, ys), i
		}
		if ys, ok := allOf[gost.String](xs); ok {
			return mapOf(k-5, ks, ys), i
		}
		return mapOf(k-5, ks, xs), i
	case 12:
		x, j := value(a, i+1)
		y, e := value(a, j)
		switch x := x.(type) {
		case gost.I32:
			return pairOf(x, y), e
		case gost.String:
			return pairOf(x, y), e
		case gost.Bool:
			return pairOf(x, y), e
		}
	case 10, 11:
		if a[i+1] == 0 && k == 10 {
			return gost.None[gost.I32](), i + 2
		}
		v, e := value(a, i+2)
		if a[i+1] == 0 {
			return gost.Err[gost.I32](errors.New(string(v.(gost.String)))), e
		}
		switch v := v.(type) {
		case gost.I32:
			return somehow(k, v), e
		case gost.String:
			return somehow(k, v), e
		case gost.Bool:
			return somehow(k, v), e
		case gost.Vec[gost.I32]:
			return somehow(k, v), e
		case gost.Vec[gost.String]:
			return somehow(k, v), e
		case gost.Option[gost.I32]:
			return somehow(k, v), e
		}
	}
	bad("value %v", a[i:])
	return nil, 0
}

func allOf[T any](xs []any) ([]T, bool) {
	out := []T{}
	for _, x := range xs {
		y, ok := x.(T)
		if !ok {
			return nil, false
		}
		out = append(out, y)
	}
	return out, true
}

func listOf[T any](k int, xs []T) any {
	switch k {
	case 3:
		v := gost.VecNew[T]()
		for _, x := range xs {
			v.Push(x)
		}
		return v
	case 4:
		v := gost.VecDequeNew[T]()
		for i := range xs { // wrapped around
			v.PushFront(xs[len(xs)-1-i])
		}
		return v
	default:
		v := gost.LinkedListNew[T]()
		for _, x := range xs {
			v.PushBack(x)
		}
		return v
	}
}

type mapKey[K any] interface {
	comparable
	gost.Ord[K]
}

func mapOf[K mapKey[K], T any](k int, ks []K, xs []T) any {
	if k == 8 {
		m := gost.BTreeMapNew[K, T]()
		for i, x := range ks {
			m.Insert(x, xs[i])
		}
		return m
	}
	m := gost.HashMapNew[K, T]()
	for i, x := range ks {
		m.Insert(x, xs[i])
	}
	return m
}

func somehow[T any](k int, v T) any {
	if k == 10 {
		return gost.Some(v)
	}
	return gost.Ok(v)
}

func pairOf[K any](x K, y any) any {
	switch y := y.(type) {
	case gost.I32:
		return gost.Pair[K, gost.I32]{Key: x, Value: y}
	case gost.String:
		return gost.Pair[K, gost.String]{Key: x, Value: y}
	case gost.Bool:
		return gost.Pair[K, gost.Bool]{Key: x, Value: y}
	}
	bad("pair with %T", y)
	return nil
}

func fmtCall(a []int) (gost.String, []any) {
	t := gost.String(untxt(a[1 : 1+a[0]]))
	args := []any{}
	i := a[0] + 2
	for n := a[a[0]+1]; n > 0; n-- {
		var v any
		v, i = value(a, i)
		args = append(args, v)
	}
	return t, args
}

// captured runs f with standard output going to a file and returns what it wrote.
func captured(f func()) string {
	name := filepath.Join(flagDir, "stdout.capture")
	out, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		bad("%v", err)
	}
	defer out.Close()
	keep, err := syscall.Dup(1)
	if err != nil {
		bad("%v", err)
	}
	syscall.Dup3(int(out.Fd()), 1, 0)
	defer func() {
		syscall.Dup3(keep, 1, 0)
		syscall.Close(keep)
	}()
	f()
	b, err := os.ReadFile(name)
	if err != nil {
		bad("%v", err)
	}
	return string(b)
}

func (c *fmtComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		return "unit", nil
	case "display":
		return shown(a, "Display")
	case "text":
		return shown(a, "ToString")
	case "debug":
		return shown(a, "Debug")
	case "format":
		t, args := fmtCall(a)
		return "seq", codes(gost.Format(t, args...))
	case "print":
		t, args := fmtCall(a)
		return "seq", codes(gost.String(captured(func() { gost.Print(t, args...) })))
	case "println":
		t, args := fmtCall(a)
		return "seq", codes(gost.String(captured(func() { gost.Println(t, args...) })))
	}
	bad("fmt op %s", op)
	return "", nil
}

func randNested(r *rand.Rand, depth int) []int {
	k := r.Intn(12)
	if r.Intn(6) == 0 {
		k = 13 + r.Intn(4)
	}
	if depth == 0 {
		k = r.Intn(3)
	}
	switch k {
	case 0:
		return []int{0, []int{r.Intn(20), -r.Intn(20), r.Intn(1 << 30), -(1 << 31) + 1, 1<<31 - 1}[r.Intn(5)]}
	case 1:
		t := randText(r, 6)
		return append([]int{1, len(t)}, t...)
	case 2:
		return []int{2, r.Intn(2)}
	case 3, 4, 5:
		n := r.Intn(5)
		out := []int{k, n}
		same := randNested(r, depth-1)
		mixed := r.Intn(2) == 0
		for i := 0; i < n; i++ {
			v := same
			if mixed {
				v = randNested(r, depth-1)
			}
			if hashes(v) > 1 {
				v = []int{0, i}
			}
			out = append(out, v...)
		}
		return out
	case 6, 7:
		n := r.Intn(4)
		out := []int{k, n}
		for _, x := range r.Perm(200)[:n] {
			out = append(out, x-100)
		}
		return out
	case 13, 14, 15, 16:
		n := r.Intn(4)
		out := []int{k, 0}
		had := map[string]bool{}
		for ; n > 0; n-- {
			t := randText(r, 5)
			s := string(untxt(t))
			if had[s] {
				continue
			}
			had[s] = true
			out[1]++
			out = append(append(out, len(t)), t...)
			if k < 15 {
				v := randNested(r, depth-1)
				if hashes(v) > 0 {
					v = []int{1, 2, 65, 66}
				}
				out = append(out, v...)
			}
		}
		return out
	case 8, 9:
		n := r.Intn(4)
		out := []int{k, n}
		for _, x := range r.Perm(200)[:n] {
			v := randNested(r, depth-1)
			if hashes(v) > 0 {
				v = []int{1, 2, 65, 66}
			}
			out = append(append(out, x-100), v...)
		}
		return out
	default:
		if r.Intn(3) == 0 {
			if k == 10 {
				return []int{10, 0}
			}
			t := randText(r, 4)
			return append([]int{11, 0, 1, len(t)}, t...)
		}
		v := randNested(r, 0)
		switch r.Intn(4) {
		case 0:
			n := r.Intn(4)
			v = []int{3, n}
			for i := 0; i < n; i++ {
				v = append(v, 0, r.Intn(50))
			}
		case 1:
			v = []int{10, 1, 0, r.Intn(50)}
		}
		return append([]int{k, 1}, v...)
	}
}

// hashes counts hash-based containers, whose order is free.
func hashes(v []int) int {
	n := 0
	for _, x := range v {
		if x == 7 || x == 9 || x == 14 || x == 16 {
			n++
		}
	}
	return n
}

func randTemplate(r *rand.Rand, n int) ([]int, int) {
	t, holes := []int{}, 0
	for i := r.Intn(n + 1); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			t = append(t, '{', '{')
		case 1:
			t = append(t, '}', '}')
		case 2, 3:
			t = append(t, '{', '}')
			holes++
		default:
			ch := int(alphabet[r.Intn(len(alphabet))])
			if ch == '{' {
				ch = '%'
			}
			t = append(t, ch)
		}
	}
	return t, holes
}

func (c *fmtComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", nil}
	}
	if r.Intn(3) == 0 {
		if r.Intn(12) == 0 {
			return Op{[]string{"display", "debug", "text"}[r.Intn(3)], append(append([]int{12}, randNested(r, 0)...), randNested(r, 0)...)}
		}
		return Op{[]string{"display", "display", "debug"}[r.Intn(3)], randNested(r, 3)}
	}
	t, holes := randTemplate(r, 10)
	n := holes + r.Intn(2)
	if r.Intn(25) == 0 {
		n = r.Intn(holes + 1)
	}
	a := append(append([]int{len(t)}, t...), n)
	free := 0
	for i := 0; i < n; i++ {
		v := randNested(r, 2)
		if free += hashes(v); free > 2 {
			v, free = []int{0, 1}, 0
		}
		a = append(a, v...)
	}
	op := []string{"format", "format", "print", "println"}[r.Intn(4)]
	if n < holes {
		op = "format"
	}
	return Op{op, a}
}
