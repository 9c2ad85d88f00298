package main

import (
	"math/rand"
	"sort"

	"github.com/myyrakle/gost"
)

// hmapComp: a hash map (kind 0) or hash set (kind 1).
type hmapComp[K comparable] struct {
	c    Codec[K]
	kind int
	univ []int
	m    gost.HashMap[K, gost.I32]
	s    gost.HashSet[K]
}

type hmapAny struct{ in Comp }

// new: kind, type, number of keys, 0 plain or n > 0 with capacity n
func (v *hmapAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[1] {
		case 0:
			v.in = newHmap(itemCodec, a)
		case 1:
			v.in = newHmap(i32Codec, a)
		case 2:
			v.in = newHmap(strCodec, a)
		default:
			bad("hmap type %d", a[1])
		}
		return "unit", nil
	}
	return v.in.Exec(op, a)
}
func (v *hmapAny) State() [][]int { return v.in.State() }
func (v *hmapAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		if length == hugeLen {
			return Op{"new", []int{r.Intn(2), r.Intn(3), 200 + r.Intn(1000), r.Intn(3) * r.Intn(3000)}}
		}
		if length == bigLen {
			return Op{"new", []int{r.Intn(2), r.Intn(3), 30 + r.Intn(150), r.Intn(3) * r.Intn(300)}}
		}
		return Op{"new", []int{r.Intn(2), r.Intn(3), 1 + r.Intn(12), r.Intn(3) * r.Intn(20)}}
	}
	return v.in.Gen(r, step, length)
}

func newHmap[K comparable](c Codec[K], a []int) Comp {
	x := &hmapComp[K]{c: c, kind: a[0]}
	for k := 1; k <= a[2]; k++ {
		for t := 0; t < 3; t++ {
			x.univ = append(x.univ, k*100+t)
		}
	}
	x.m, x.s = gost.HashMapNew[K, gost.I32](), gost.HashSetNew[K]()
	if a[3] > 0 {
		x.m, x.s = gost.HashMapWithCapacity[K, gost.I32](gost.USize(a[3])), gost.HashSetWithCapacity[K](gost.USize(a[3]))
	}
	return x
}

func (v *hmapComp[K]) len() int {
	if v.kind == 0 {
		return int(v.m.Len())
	}
	return int(v.s.Len())
}

func (v *hmapComp[K]) State() [][]int {
	out := []int{}
	for _, x := range v.univ {
		k := v.c.Enc(x)
		if v.kind == 1 {
			if bool(v.s.Contains(k)) {
				out = append(out, x, 0)
			}
			continue
		}
		g := v.m.Get(k)
		if bool(v.m.ContainsKey(k)) != bool(g.IsSome()) {
			out = append(out, x, -1) // Get and ContainsKey differ: no specification allows it
		} else if g.IsSome() {
			out = append(out, x, int(g.Unwrap()))
		}
	}
	return [][]int{{v.len()}, out}
}

func (v *hmapComp[K]) Exec(op string, a []int) (string, []int) {
	e, d := v.c.Enc, v.c.Dec
	mp := v.kind == 0
	switch op {
	case "ins":
		if mp {
			return optOf(i32Codec, v.m.Insert(e(a[0]), gost.I32(a[1])))
		}
		return "bool", b2i(bool(v.s.Insert(e(a[0]))))
	case "rem":
		if mp {
			return optOf(i32Codec, v.m.Remove(e(a[0])))
		}
		return "bool", b2i(bool(v.s.Remove(e(a[0]))))
	case "insn", "remn": // a run of keys
		for i := a[0]; i < a[0]+a[1]; i++ {
			k := e(v.univ[i])
			switch {
			case op == "insn" && mp:
				v.m.Insert(k, gost.I32(a[2]))
			case op == "insn":
				v.s.Insert(k)
			case mp:
				v.m.Remove(k)
			default:
				v.s.Remove(k)
			}
		}
	case "get":
		if mp {
			return optOf(i32Codec, v.m.Get(e(a[0])))
		}
		return optOf(v.c, v.s.Get(e(a[0])))
	case "has":
		if mp {
			return "bool", b2i(bool(v.m.ContainsKey(e(a[0]))))
		}
		return "bool", b2i(bool(v.s.Contains(e(a[0]))))
	case "len":
		return "int", []int{v.len()}
	case "isempty":
		if mp {
			return "bool", b2i(bool(v.m.IsEmpty()))
		}
		return "bool", b2i(bool(v.s.IsEmpty()))
	case "clear":
		if mp {
			v.m.Clear()
		} else {
			v.s.Clear()
		}
	case "fromslice":
		q := []K{}
		for _, x := range a {
			q = append(q, e(x))
		}
		v.s = gost.HashSetFromSlice(q)
	case "asslice":
		return "seq", decAll(v.c, v.s.AsSlice())
	case "asmap":
		out := []int{}
		for k, x := range v.m.AsMap() {
			out = append(out, d(k), int(x))
		}
		return "seq", out
	case "iter":
		out := []int{}
		if mp {
			it := v.m.IntoIter()
			for i := 0; i < 100000; i++ {
				o := it.Next()
				if o.IsNone() {
					break
				}
				p := o.Unwrap()
				out = append(out, d(p.Key), int(p.Value))
			}
		} else {
			for _, x := range drain(v.c, v.s.IntoIter(), 100000) {
				out = append(out, x, 0)
			}
		}
		return "seq", out
	case "keys":
		if mp {
			return "seq", drain(v.c, v.m.Keys(), 100000)
		}
		return "seq", drain(v.c, v.s.IntoIter(), 100000)
	case "values":
		if mp {
			return "seq", drain(i32Codec, v.m.Values(), 100000)
		}
		return "seq", make([]int, v.len())
	default:
		bad("hmap op %s", op)
	}
	return "unit", nil
}

func (v *hmapComp[K]) Gen(r *rand.Rand, step, length int) Op {
	k := func() int { return v.univ[r.Intn(len(v.univ))] }
	if isBig(length) && (step == 1 || r.Intn(8) == 0) {
		j := r.Intn(len(v.univ))
		n := 1 + r.Intn(len(v.univ)-j)
		if step > 1 && r.Intn(2) == 0 {
			return Op{"remn", []int{j, n}}
		}
		if step == 1 {
			j, n = 0, len(v.univ)-r.Intn(20)
		}
		return Op{"insn", []int{j, n, r.Intn(4)}}
	}
	for {
		switch x := r.Intn(24); {
		case x < 8:
			return Op{"ins", []int{k(), r.Intn(4)}}
		case x < 14:
			return Op{"rem", []int{k()}}
		case x == 14:
			return Op{"get", []int{k()}}
		case x == 15:
			return Op{"has", []int{k()}}
		case x == 16:
			return Op{[]string{"len", "isempty"}[r.Intn(2)], nil}
		case x == 17:
			if r.Intn(6) == 0 {
				return Op{"clear", nil}
			}
		case x == 18:
			return Op{"iter", nil}
		case x == 19:
			return Op{"keys", nil}
		case x == 20:
			return Op{"values", nil}
		case x == 21 && v.kind == 0:
			return Op{"asmap", nil}
		case x == 22 && v.kind == 1:
			return Op{"asslice", nil}
		case x == 23 && v.kind == 1 && r.Intn(4) == 0:
			q := []int{}
			for i := r.Intn(8); i > 0; i-- {
				q = append(q, k())
			}
			return Op{"fromslice", q}
		}
	}
}

// ------------------------------------------------------------------ sets

type setOps interface {
	load(i int, q []int)
	ins(i, x int) bool
	rem(i, x int) bool
	op(name string, i, j, k int)
	ask(name string, i, j int) bool
	view(i int) []int
}

// setsComp: three sets of one kind and type (kind 0 hash, 1 ordered).
type setsComp struct {
	in      setOps
	ordered bool
	univ    int
	items   bool
}

// new: kind, type, number of keys
func (v *setsComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		v.ordered, v.univ, v.items = a[0] == 1, a[2], a[1] == 0
		cand := []int{}
		for k := 1; k <= a[2]; k++ {
			cand = append(cand, k*100)
			if !v.ordered && v.items {
				cand = append(cand, k*100+1, k*100+2)
			}
		}
		switch a[0]*10 + a[1] {
		case 0:
			v.in = newHashSets(itemCodec, cand)
		case 1:
			v.in = newHashSets(i32Codec, cand)
		case 2:
			v.in = newHashSets(strCodec, cand)
		case 10:
			v.in = newTreeSets(itemCodec, cand)
		case 11:
			v.in = newTreeSets(i32Codec, cand)
		case 12:
			v.in = newTreeSets(strCodec, cand)
		default:
			bad("sets %v", a)
		}
	case "load":
		v.in.load(a[0]-1, a[1:])
	case "range":
		q := []int{}
		for j := 0; j < a[1]; j++ {
			q = append(q, (a[2]+j*a[3])*100)
		}
		v.in.load(a[0]-1, q)
	case "ins":
		return "bool", b2i(v.in.ins(a[0]-1, a[1]))
	case "rem":
		return "bool", b2i(v.in.rem(a[0]-1, a[1]))
	case "inter", "union", "symdiff":
		v.in.op(op, a[0]-1, a[1]-1, a[2]-1)
	case "subset", "superset", "disjoint", "eq":
		return "bool", b2i(v.in.ask(op, a[0]-1, a[1]-1))
	default:
		bad("sets op %s", op)
	}
	return "unit", nil
}

func (v *setsComp) State() [][]int {
	out := [][]int{}
	for i := 0; i < 3; i++ {
		out = append(out, v.in.view(i))
	}
	return out
}

func (v *setsComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		u := 1 + r.Intn(8)
		if length > 30 {
			u = 60 + r.Intn(60)
			if r.Intn(4) == 0 {
				u = 200 + r.Intn(300)
			}
		}
		return Op{"new", []int{r.Intn(2), r.Intn(3), u}}
	}
	slot := func() int { return 1 + r.Intn(3) }
	x := func() int {
		t := 0
		if v.items {
			t = r.Intn(3)
		}
		return (1+r.Intn(v.univ))*100 + t
	}
	switch c := r.Intn(16); {
	case step <= 2 || c == 0:
		i := step
		if step > 2 {
			i = slot()
		}
		if v.univ > 20 {
			st := 1 + r.Intn(3)
			from := 1 + r.Intn(3)
			return Op{"range", []int{i, r.Intn((v.univ-from)/st + 1), from, st}}
		}
		a := []int{i}
		for n := r.Intn(v.univ + 2); n > 0; n-- {
			a = append(a, x())
		}
		return Op{"load", a}
	case c < 4:
		return Op{"ins", []int{slot(), x()}}
	case c < 6:
		return Op{"rem", []int{slot(), x()}}
	case c < 11:
		return Op{[]string{"inter", "union", "symdiff"}[r.Intn(3)], []int{slot(), slot(), slot()}}
	default:
		return Op{[]string{"subset", "superset", "disjoint", "eq"}[r.Intn(4)], []int{slot(), slot()}}
	}
}

type hashSets[K comparable] struct {
	c    Codec[K]
	cand []int
	s    [3]gost.HashSet[K]
}

func newHashSets[K comparable](c Codec[K], cand []int) setOps {
	return &hashSets[K]{c, cand, [3]gost.HashSet[K]{gost.HashSetNew[K](), gost.HashSetNew[K](), gost.HashSetNew[K]()}}
}
func (h *hashSets[K]) load(i int, q []int) {
	h.s[i] = gost.HashSetNew[K]()
	for _, x := range q {
		h.s[i].Insert(h.c.Enc(x))
	}
}
func (h *hashSets[K]) ins(i, x int) bool { return bool(h.s[i].Insert(h.c.Enc(x))) }
func (h *hashSets[K]) rem(i, x int) bool { return bool(h.s[i].Remove(h.c.Enc(x))) }
func (h *hashSets[K]) op(name string, i, j, k int) {
	switch name {
	case "inter":
		h.s[k] = h.s[i].Intersection(h.s[j])
	case "union":
		h.s[k] = h.s[i].Union(h.s[j])
	default:
		h.s[k] = h.s[i].SymmetricDifference(h.s[j])
	}
}
func (h *hashSets[K]) ask(name string, i, j int) bool {
	switch name {
	case "subset":
		return bool(h.s[i].IsSubset(h.s[j]))
	case "superset":
		return bool(h.s[i].IsSuperset(h.s[j]))
	case "disjoint":
		return bool(h.s[i].IsDisjoint(h.s[j]))
	}
	return bool(h.s[i].Eq(h.s[j]))
}
func (h *hashSets[K]) view(i int) []int {
	out := []int{int(h.s[i].Len())}
	for _, x := range h.cand {
		if h.s[i].Contains(h.c.Enc(x)) {
			out = append(out, x)
		}
	}
	q := drain(h.c, h.s[i].IntoIter(), 100000)
	sort.Ints(q)
	return append(out, q...)
}

type treeSets[K gost.Ord[K]] struct {
	c    Codec[K]
	cand []int
	s    [3]gost.BTreeSet[K]
}

func newTreeSets[K gost.Ord[K]](c Codec[K], cand []int) setOps {
	return &treeSets[K]{c, cand, [3]gost.BTreeSet[K]{gost.BTreeSetNew[K](), gost.BTreeSetNew[K](), gost.BTreeSetNew[K]()}}
}
func (h *treeSets[K]) load(i int, q []int) {
	h.s[i] = gost.BTreeSetNew[K]()
	for _, x := range q {
		h.s[i].Insert(h.c.Enc(x))
	}
}
func (h *treeSets[K]) ins(i, x int) bool { return bool(h.s[i].Insert(h.c.Enc(x))) }
func (h *treeSets[K]) rem(i, x int) bool { return bool(h.s[i].Remove(h.c.Enc(x))) }
func (h *treeSets[K]) op(name string, i, j, k int) {
	switch name {
	case "inter":
		h.s[k] = h.s[i].Intersection(h.s[j])
	case "union":
		h.s[k] = h.s[i].Union(h.s[j])
	default:
		h.s[k] = h.s[i].SymmetricDifference(h.s[j])
	}
}
func (h *treeSets[K]) ask(name string, i, j int) bool {
	switch name {
	case "subset":
		return bool(h.s[i].IsSubset(h.s[j]))
	case "superset":
		return bool(h.s[i].IsSuperset(h.s[j]))
	case "disjoint":
		return bool(h.s[i].IsDisjoint(h.s[j]))
	}
	return bool(h.s[i].Eq(h.s[j]))
}
func (h *treeSets[K]) view(i int) []int {
	out := []int{int(h.s[i].Len())}
	for _, x := range h.cand {
		if h.s[i].Contains(h.c.Enc(x)) {
			out = append(out, x)
		}
	}
	q := drain(h.c, h.s[i].IntoIter(), 100000)
	sort.Ints(q)
	return append(out, q...)
}
