package main

import (
	"math/rand"

	"github.com/myyrakle/gost"
)

// omapComp: an ordered map (kind 0) or ordered set (kind 1). Keys are looked
// up one by one for the state, so that lookups and enumeration are judged
// separately.
type omapComp[K gost.Ord[K]] struct {
	c           Codec[K]
	kind, ty    int
	m           gost.BTreeMap[K, gost.I32]
	s           gost.BTreeSet[K]
	univ, every int
	step        int
	phase       int
}

type omapAny struct{ in Comp }

func (v *omapAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[1] {
		case 0:
			v.in = newOmap(itemCodec, a)
		case 1:
			v.in = newOmap(i32Codec, a)
		case 2:
			v.in = newOmap(strCodec, a)
		default:
			bad("omap type %d", a[1])
		}
		return "unit", nil
	}
	return v.in.Exec(op, a)
}
func (v *omapAny) State() [][]int { return v.in.State() }
func (v *omapAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		u, ev := 6+r.Intn(30), 1
		if length > 200 {
			u, ev = 100+r.Intn(60*length/100), 7
		}
		if flagVariant == "tree" {
			return Op{"new", []int{0, 0, 200, 1 << 30}}
		}
		return Op{"new", []int{r.Intn(2), r.Intn(3), u, ev}}
	}
	return v.in.Gen(r, step, length)
}

// new: kind, type, number of keys, how often lookups of all keys are logged
func newOmap[K gost.Ord[K]](c Codec[K], a []int) Comp {
	x := &omapComp[K]{c: c, kind: a[0], ty: a[1], univ: a[2], every: a[3]}
	if x.kind == 0 {
		x.m = gost.BTreeMapNew[K, gost.I32]()
	} else {
		x.s = gost.BTreeSetNew[K]()
	}
	return x
}

func (v *omapComp[K]) len() int {
	if v.kind == 0 {
		return int(v.m.Len())
	}
	return int(v.s.Len())
}

// probe looks up every key of the universe in increasing order.
func (v *omapComp[K]) probe() []int {
	out := []int{}
	for i := 1; i <= v.univ; i++ {
		k := v.c.Enc(i * 100)
		if v.kind == 0 {
			if v.m.ContainsKey(k) {
				out = append(out, i, -1)
			}
			if g := v.m.Get(k); g.IsSome() {
				if len(out) < 2 || out[len(out)-2] != i {
					out = append(out, i, -2) // found by Get only: no specification allows it
				}
				out[len(out)-1] = int(g.Unwrap())
			}
		} else if v.s.Contains(k) {
			out = append(out, i, 0)
		}
	}
	return out
}

func (v *omapComp[K]) State() [][]int {
	v.step++
	if v.step%v.every == 0 {
		return [][]int{{v.len()}, v.probe()}
	}
	return [][]int{{v.len()}}
}

func (v *omapComp[K]) Exec(op string, a []int) (string, []int) {
	e, d := v.c.Enc, v.c.Dec
	switch op {
	case "ins":
		if v.kind == 0 {
			return optOf(i32Codec, v.m.Insert(e(a[0]), gost.I32(a[1])))
		}
		return "bool", b2i(bool(v.s.Insert(e(a[0]))))
	case "rem":
		if v.kind == 0 {
			return optOf(i32Codec, v.m.Remove(e(a[0])))
		}
		return "bool", b2i(bool(v.s.Remove(e(a[0]))))
	case "get":
		if v.kind == 0 {
			return optOf(i32Codec, v.m.Get(e(a[0])))
		}
		return "bool", b2i(bool(v.s.Contains(e(a[0]))))
	case "has":
		if v.kind == 0 {
			return "bool", b2i(bool(v.m.ContainsKey(e(a[0]))))
		}
		return "bool", b2i(bool(v.s.Contains(e(a[0]))))
	case "load": // n keys starting at a[1] in steps of a[2]
		for i := 0; i < a[0]; i++ {
			k := a[1] + i*a[2]
			if v.kind == 0 {
				v.m.Insert(e(k*100), gost.I32(k))
			} else {
				v.s.Insert(e(k * 100))
			}
		}
	case "unload": // remove n keys starting at a[1] in steps of a[2]
		for i := 0; i < a[0]; i++ {
			k := a[1] + i*a[2]
			if v.kind == 0 {
				v.m.Remove(e(k * 100))
			} else {
				v.s.Remove(e(k * 100))
			}
		}
	case "probe":
		return "seq", v.probe()
	case "len":
		return "int", []int{v.len()}
	case "isempty":
		if v.kind == 0 {
			return "bool", b2i(bool(v.m.IsEmpty()))
		}
		return "bool", b2i(bool(v.s.IsEmpty()))
	case "clear":
		if v.kind == 0 {
			v.m.Clear()
		} else {
			v.s.Clear()
		}
	case "iter":
		out := []int{}
		if v.kind == 0 {
			it := v.m.IntoIter()
			for i := 0; i < 100000; i++ {
				o := it.Next()
				if o.IsNone() {
					break
				}
				p := o.Unwrap()
				out = append(out, d(p.Key), int(p.Value))
			}
		} else {
			for _, x := range drain(v.c, v.s.IntoIter(), 100000) {
				out = append(out, x, 0)
			}
		}
		return "seq", out
	case "keys":
		if v.kind == 0 {
			return "seq", drain(v.c, v.m.Keys(), 100000)
		}
		return "seq", drain(v.c, v.s.IntoIter(), 100000)
	case "values":
		if v.kind == 0 {
			return "seq", drain(i32Codec, v.m.Values(), 100000)
		}
		return "seq", make([]int, v.len())
	case "display":
		if v.kind == 0 {
			return "seq", byts(string(v.m.Display()))
		}
		return "seq", byts(string(v.s.Display()))
	default:
		bad("omap op %s", op)
	}
	return "unit", nil
}

func (v *omapComp[K]) Gen(r *rand.Rand, step, length int) Op {
	n := v.len()
	k := func() int { return (1+r.Intn(v.univ))*100 + r.Intn(3) }
	// phases: grow, shrink, churn, each possibly sweeping in key order
	if step%((v.univ/2)+7) == 1 {
		v.phase = r.Intn(4)
		if v.univ > 50 && n < v.univ/4 && v.phase == 1 {
			v.phase = 0
		}
		if v.univ > 50 && r.Intn(2) == 0 {
			m := v.univ/2 + r.Intn(v.univ/2)
			st := []int{1, 1}
			switch r.Intn(4) {
			case 0:
				st = []int{m, -1}
			case 1:
				st = []int{1 + r.Intn(2), 2}
				m = v.univ/2 - 1
			case 2:
				st = []int{v.univ - m + 1, 1}
			}
			if v.phase == 1 || (v.phase == 2 && n > v.univ/2) {
				return Op{"unload", []int{m, st[0], st[1]}}
			}
			return Op{"load", []int{m, st[0], st[1]}}
		}
	}
	w := []int{6, 2, 4, 1}[v.phase]
	switch x := r.Intn(20); {
	case flagVariant == "enum" && v.every == 1 && r.Intn(2) == 0:
		return Op{[]string{"iter", "keys", "values", "display"}[r.Intn(4)], nil}
	case x < 15:
		if r.Intn(8) < w {
			return Op{"ins", []int{k(), r.Intn(1000)}}
		}
		return Op{"rem", []int{k()}}
	case x == 15:
		return Op{"get", []int{k()}}
	case x == 16:
		return Op{"has", []int{k()}}
	case x == 17:
		if r.Intn(12) == 0 && v.univ < 50 {
			return Op{"clear", nil}
		}
		return Op{"isempty", nil}
	case x == 18:
		return Op{"len", nil}
	default:
		if flagVariant != "enum" || v.every > 1 && r.Intn(3) > 0 {
			return Op{"probe", nil}
		}
		return Op{[]string{"iter", "keys", "values", "display"}[r.Intn(4)], nil}
	}
}
