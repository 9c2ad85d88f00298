package main

import (
	"fmt"
	"math/rand"

	"github.com/myyrakle/gost"
)

// guard runs a call whose panic is one of its specified results: the kind is
// "panic" and the value is the text.
func guard(f func() (string, []int)) (k string, v []int) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			k, v = "panic", byts(fmt.Sprint(r))
		}
	}()
	return f()
}

// optComp: two optional values of one type.
type optComp[T any] struct {
	c    Codec[T]
	s    [2]gost.Option[T]
	seen []int
	ref  *T             // the last reference handed out
	at   int            // see Opt.tla: ptr
	held gost.Option[T] // the last option taken, replaced or copied
	copy bool           // held is a copy; see Opt.tla: shared
}

type optAny struct{ in Comp }

func (v *optAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[0] {
		case 0:
			v.in = &optComp[Item]{c: itemCodec}
		case 1:
			v.in = &optComp[gost.I32]{c: i32Codec}
		case 2:
			v.in = &optComp[gost.String]{c: strCodec}
		case 3:
			v.in = &optComp[*Box]{c: boxCodec}
		default:
			bad("opt type %d", a[0])
		}
		return "unit", nil
	}
	return guard(func() (string, []int) { return v.in.Exec(op, a) })
}
func (v *optAny) State() [][]int { return v.in.State() }
func (v *optAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{r.Intn(4)}}
	}
	op := v.in.Gen(r, step, length)
	for op.Op == "display" && isPtr(v.in) { // what pointers point to is not shown
		op = v.in.Gen(r, step, length)
	}
	return op
}

func (v *optComp[T]) State() [][]int {
	out := [][]int{}
	for i := range v.s {
		out = append(out, optInts(v.c, v.s[i]))
	}
	seen := v.seen
	v.seen = nil
	if seen == nil {
		seen = []int{}
	}
	return append(out, seen, optInts(v.c, v.held))
}
func (v *optComp[T]) note(x T) int { d := v.c.Dec(x); v.seen = append(v.seen, d); return d }
func (v *optComp[T]) fn(f int) func(T) T {
	return func(x T) T { return v.c.Enc(iterFn(f, v.note(x))) }
}
func (v *optComp[T]) pred(m, r int) func(T) gost.Bool {
	return func(x T) gost.Bool { return gost.Bool(v.note(x)%m == r) }
}
func (v *optComp[T]) give(x int) func() T {
	return func() T { v.seen = append(v.seen, -1); return v.c.Enc(x) }
}
func (v *optComp[T]) anyOpt(o gost.Option[any]) (string, []int) {
	if o.IsSome() {
		return "opt", []int{v.c.Dec(o.Unwrap().(T))}
	}
	return "opt", []int{}
}

func (v *optComp[T]) Exec(op string, a []int) (string, []int) {
	e := v.c.Enc
	i := a[0] - 1
	move := func(j, k int, q gost.Option[T]) (string, []int) {
		v.s[i], v.s[j] = gost.None[T](), gost.None[T]()
		v.s[k] = q
		return optOf(v.c, q)
	}
	val := func(x T) (string, []int) { return "int", []int{v.c.Dec(x)} }
	switch op {
	case "some", "none", "zero", "map", "filter", "or", "orelse", "xor", "replace":
		v.at = 0
	case "clone":
		if v.at == a[1] {
			v.at = 0
		}
	}
	switch op {
	case "some":
		v.s[i] = gost.Some(e(a[1]))
	case "none":
		v.s[i] = gost.None[T]()
	case "zero":
		var z gost.Option[T]
		v.s[i] = z
	case "issome":
		return "bool", b2i(bool(v.s[i].IsSome()))
	case "isnone":
		return "bool", b2i(bool(v.s[i].IsNone()))
	case "issomeand":
		return "bool", b2i(bool(v.s[i].IsSomeAnd(v.pred(a[1], a[2]))))
	case "expect":
		return val(v.s[i].Expect(untxt(a[1:])))
	case "unwrap":
		return val(v.s[i].Unwrap())
	case "unwrapor":
		return val(v.s[i].UnwrapOr(e(a[1])))
	case "unwraporelse":
		return val(v.s[i].UnwrapOrElse(v.give(a[1])))
	case "map":
		return move(i, a[1]-1, v.s[i].Map(v.fn(a[2])))
	case "mapor":
		return val(v.s[i].MapOr(e(a[1]), v.fn(a[2])))
	case "maporelse":
		return val(v.s[i].MapOrElse(v.give(a[1]), v.fn(a[2])))
	case "and":
		b := gost.None[any]()
		if o := v.s[a[1]-1]; o.IsSome() {
			b = gost.Some[any](any(o.Unwrap()))
		}
		return v.anyOpt(v.s[i].And(b))
	case "andthen":
		return v.anyOpt(v.s[i].AndThen(func(x T) gost.Option[any] {
			d := v.note(x)
			if a[1] == 9 {
				return gost.None[any]()
			}
			return gost.Some[any](any(e(iterFn(a[1], d))))
		}))
	case "filter":
		return move(i, a[1]-1, v.s[i].Filter(v.pred(a[2], a[3])))
	case "or":
		return move(a[1]-1, a[2]-1, v.s[i].Or(v.s[a[1]-1]))
	case "orelse":
		b := v.s[a[1]-1]
		return move(a[1]-1, a[2]-1, v.s[i].OrElse(func() gost.Option[T] { v.seen = append(v.seen, -1); return b }))
	case "xor":
		return move(a[1]-1, a[2]-1, v.s[i].Xor(v.s[a[1]-1]))
	case "copy":
		if a[1] == 0 {
			v.held = v.s[i]
		} else {
			v.held = *v.s[i].AsRef()
		}
		v.at, v.copy = 0, true
		return optOf(v.c, v.held)
	case "insert", "getorinsert", "getorinsertwith":
		var p *T
		if v.copy && op != "insert" && bool(v.s[i].IsSome()) {
			v.held, v.copy = gost.None[T](), false
		}
		switch op {
		case "insert":
			p = v.s[i].Insert(e(a[1]))
		case "getorinsert":
			p = v.s[i].GetOrInsert(e(a[1]))
		default:
			p = v.s[i].GetOrInsertWith(v.give(a[1]))
		}
		d := v.c.Dec(*p)
		*p = e(a[2])
		v.ref, v.at = p, i+1
		return "int", []int{d}
	case "poke":
		*v.ref = e(a[0])
	case "take":
		v.held, v.copy = v.s[i].Take(), false
		if v.at == i+1 {
			v.at = -1
		}
		return optOf(v.c, v.held)
	case "replace":
		v.held, v.copy = v.s[i].Replace(e(a[1])), false
		return optOf(v.c, v.held)
	case "display":
		return "seq", byts(string(v.s[i].Display()))
	case "clone":
		v.s[a[1]-1] = v.s[i].Clone()
		return optOf(v.c, v.s[a[1]-1])
	case "eq":
		return "bool", b2i(bool(v.s[i].Eq(v.s[a[1]-1])))
	default:
		bad("opt op %s", op)
	}
	return "unit", nil
}

func val0(r *rand.Rand) int {
	if r.Intn(5) == 0 {
		return 0
	}
	return elem(r)
}

var msgs = []string{"boom", "", "100% {} %d", "naïve 世界"}

func (v *optComp[T]) Gen(r *rand.Rand, step, length int) Op {
	i, j, k := 1+r.Intn(2), 1+r.Intn(2), 1+r.Intn(2)
	x := val0(r)
	if v.at != 0 && r.Intn(3) == 0 {
		return Op{"poke", []int{x}}
	}
	if v.at > 0 && r.Intn(4) == 0 {
		return Op{"take", []int{v.at}}
	}
	switch r.Intn(28) {
	case 26:
		return Op{"copy", []int{i, r.Intn(2)}}
	case 27:
		if r.Intn(2) == 0 {
			return Op{"insert", []int{i, x, val0(r)}}
		}
		return Op{"replace", []int{i, x}}
	case 0, 1, 2, 3, 4:
		return Op{"some", []int{i, x}}
	case 5:
		return Op{[]string{"none", "zero"}[r.Intn(2)], []int{i}}
	case 6:
		return Op{[]string{"issome", "isnone"}[r.Intn(2)], []int{i}}
	case 7:
		return Op{"issomeand", []int{i, 2, r.Intn(2)}}
	case 8:
		m := msgs[r.Intn(3)]
		return Op{"expect", append([]int{i}, txt(m)...)}
	case 9:
		return Op{"unwrap", []int{i}}
	case 10:
		return Op{"unwrapor", []int{i, x}}
	case 11:
		return Op{"unwraporelse", []int{i, x}}
	case 12:
		return Op{"map", []int{i, k, r.Intn(4)}}
	case 13:
		return Op{"mapor", []int{i, x, r.Intn(4)}}
	case 14:
		return Op{"maporelse", []int{i, x, r.Intn(4)}}
	case 15:
		return Op{"and", []int{i, j}}
	case 16:
		return Op{"andthen", []int{i, []int{0, 1, 2, 9}[r.Intn(4)]}}
	case 17:
		return Op{"filter", []int{i, k, 2, r.Intn(2)}}
	case 18:
		return Op{[]string{"or", "orelse"}[r.Intn(2)], []int{i, j, k}}
	case 19:
		return Op{"xor", []int{i, j, k}}
	case 20, 21:
		return Op{[]string{"insert", "getorinsert", "getorinsertwith"}[r.Intn(3)], []int{i, x, val0(r)}}
	case 22:
		return Op{"take", []int{i}}
	case 23:
		return Op{"replace", []int{i, x}}
	case 24:
		return Op{[]string{"display", "clone", "eq"}[r.Intn(3)], []int{i, j}}
	default:
		return Op{"eq", []int{i, j}}
	}
}

// --------------------------------------------------------------- results

type numErr int

func (e numErr) Error() string { return fmt.Sprintf("err%d", int(e)) }

func errNo(e error) int {
	if n, ok := e.(numErr); ok {
		return int(n)
	}
	return -99
}

type resComp[T any] struct {
	c    Codec[T]
	s    [2]gost.Result[T]
	seen []int
}

type resAny struct{ in Comp }

func newRes[T any](c Codec[T]) Comp {
	return &resComp[T]{c: c, s: [2]gost.Result[T]{gost.Err[T](numErr(0)), gost.Err[T](numErr(0))}}
}

func (v *resAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[0] {
		case 0:
			v.in = newRes(itemCodec)
		case 1:
			v.in = newRes(i32Codec)
		case 2:
			v.in = newRes(strCodec)
		case 3:
			v.in = newRes(boxCodec)
		default:
			bad("res type %d", a[0])
		}
		return "unit", nil
	}
	return guard(func() (string, []int) { return v.in.Exec(op, a) })
}
func (v *resAny) State() [][]int { return v.in.State() }
func (v *resAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{r.Intn(4)}}
	}
	op := v.in.Gen(r, step, length)
	for op.Op == "display" && isPtr(v.in) { // what pointers point to is not shown
		op = v.in.Gen(r, step, length)
	}
	return op
}

func (v *resComp[T]) flat(x gost.Result[T]) []int {
	ok, er := bool(x.IsOk()), bool(x.IsErr())
	if ok == er {
		return []int{2} // both or neither: no specification allows it
	}
	if ok {
		return []int{0, v.c.Dec(x.Unwrap())}
	}
	return []int{1, errNo(x.UnwrapErr())}
}

func (v *resComp[T]) State() [][]int {
	seen := v.seen
	v.seen = nil
	if seen == nil {
		seen = []int{}
	}
	return [][]int{v.flat(v.s[0]), v.flat(v.s[1]), seen}
}

func (v *resComp[T]) Exec(op string, a []int) (string, []int) {
	e := v.c.Enc
	i := a[0] - 1
	note := func(x T) int { d := v.c.Dec(x); v.seen = append(v.seen, d); return d }
	noteE := func(x error) int { d := errNo(x); v.seen = append(v.seen, d); return d }
	fn := func(f int) func(T) T { return func(x T) T { return e(iterFn(f, note(x))) } }
	give := func(x int) func() T { return func() T { v.seen = append(v.seen, -1); return e(x) } }
	put := func(k int, q gost.Result[T]) (string, []int) { v.s[k-1] = q; return "res", v.flat(q) }
	val := func(x T) (string, []int) { return "int", []int{v.c.Dec(x)} }
	answer := func(f, d int) gost.Result[T] {
		if f == 9 {
			return gost.Err[T](numErr(6))
		}
		return gost.Ok(e(iterFn(f, d)))
	}
	switch op {
	case "ok":
		return put(a[0], gost.Ok(e(a[1])))
	case "err":
		return put(a[0], gost.Err[T](numErr(a[1])))
	case "isok":
		return "bool", b2i(bool(v.s[i].IsOk()))
	case "iserr":
		return "bool", b2i(bool(v.s[i].IsErr()))
	case "isokand":
		return "bool", b2i(bool(v.s[i].IsOkAnd(func(x T) gost.Bool { return gost.Bool(note(x)%a[1] == a[2]) })))
	case "iserrand":
		return "bool", b2i(bool(v.s[i].IsErrAnd(func(x error) gost.Bool { return gost.Bool(noteE(x)%a[1] == a[2]) })))
	case "toopt":
		return optOf(v.c, v.s[i].Ok())
	case "toerr":
		if o := v.s[i].Err(); o.IsSome() {
			return "opt", []int{errNo(o.Unwrap())}
		}
		return "opt", []int{}
	case "map":
		return put(a[1], v.s[i].Map(fn(a[2])))
	case "mapor":
		return val(v.s[i].MapOr(e(a[1]), fn(a[2])))
	case "maporelse":
		return val(v.s[i].MapOrElse(give(a[1]), fn(a[2])))
	case "maperr":
		return put(a[1], v.s[i].MapErr(func(x error) error { return numErr(iterFn(a[2], noteE(x))) }))
	case "expect":
		return val(v.s[i].Expect(untxt(a[1:])))
	case "unwrap":
		return val(v.s[i].Unwrap())
	case "expecterr":
		return "int", []int{errNo(v.s[i].ExpectErr(untxt(a[1:])))}
	case "unwraperr":
		return "int", []int{errNo(v.s[i].UnwrapErr())}
	case "and":
		return put(a[2], v.s[i].And(v.s[a[1]-1]))
	case "or":
		return put(a[2], v.s[i].Or(v.s[a[1]-1]))
	case "andthen":
		return put(a[1], v.s[i].AndThen(func(x T) gost.Result[T] { return answer(a[2], note(x)) }))
	case "orelse":
		return put(a[1], v.s[i].OrElse(func(x error) gost.Result[T] { return answer(a[2], noteE(x)) }))
	case "unwrapor":
		return val(v.s[i].UnwrapOr(e(a[1])))
	case "unwraporelse":
		return val(v.s[i].UnwrapOrElse(give(a[1])))
	case "display":
		return "seq", byts(string(v.s[i].Display()))
	case "clone":
		return put(a[1], v.s[i].Clone())
	case "ref":
		return put(a[1], *v.s[i].AsRef())
	case "eq":
		return "bool", b2i(bool(v.s[i].Eq(v.s[a[1]-1])))
	default:
		bad("res op %s", op)
	}
	return "unit", nil
}

func (v *resComp[T]) Gen(r *rand.Rand, step, length int) Op {
	i, j, k := 1+r.Intn(2), 1+r.Intn(2), 1+r.Intn(2)
	x := val0(r)
	switch r.Intn(24) {
	case 0, 1, 2, 3:
		return Op{"ok", []int{i, x}}
	case 4, 5:
		return Op{"err", []int{i, r.Intn(4)}}
	case 6:
		return Op{[]string{"isok", "iserr", "toopt", "toerr"}[r.Intn(4)], []int{i}}
	case 7:
		return Op{[]string{"isokand", "iserrand"}[r.Intn(2)], []int{i, 2, r.Intn(2)}}
	case 8, 9:
		return Op{[]string{"expect", "expecterr"}[r.Intn(2)], append([]int{i}, txt(msgs[r.Intn(3)])...)}
	case 10, 11:
		return Op{[]string{"unwrap", "unwraperr"}[r.Intn(2)], []int{i}}
	case 12:
		return Op{"unwrapor", []int{i, x}}
	case 13:
		return Op{"unwraporelse", []int{i, x}}
	case 14, 15:
		return Op{[]string{"map", "maperr"}[r.Intn(2)], []int{i, k, r.Intn(4)}}
	case 16:
		return Op{[]string{"mapor", "maporelse"}[r.Intn(2)], []int{i, x, r.Intn(4)}}
	case 17, 18:
		return Op{[]string{"andthen", "orelse"}[r.Intn(2)], []int{i, k, []int{0, 1, 2, 9}[r.Intn(4)]}}
	case 19, 20:
		return Op{[]string{"and", "or"}[r.Intn(2)], []int{i, j, k}}
	case 21:
		return Op{"display", []int{i}}
	case 22:
		return Op{[]string{"clone", "ref"}[r.Intn(2)], []int{i, j}}
	default:
		return Op{"eq", []int{i, j}}
	}
}

func isPtr(c Comp) bool {
	switch c.(type) {
	case *optComp[*Box], *resComp[*Box]:
		return true
	}
	return false
}
