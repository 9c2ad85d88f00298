package main

import (
	"math/rand"

	"github.com/myyrakle/gost"
)

type strComp struct{ s gost.String }

// codes are the characters of a string; a byte that is not part of one shows
// as a number no character has.
func codes(s gost.String) []int {
	out := []int{}
	for i, r := range string(s) {
		if r == 0xfffd && (i+3 > len(s) || string(s)[i:i+3] != "\uFFFD") {
			out = append(out, 2000000+int(s[i]))
			continue
		}
		out = append(out, int(r))
	}
	return out
}

func (c *strComp) State() [][]int { return [][]int{codes(c.s)} }

func (c *strComp) Exec(op string, a []int) (string, []int) {
	txtR := func(s gost.String) (string, []int) { return "seq", codes(s) }
	switch op {
	case "new":
		c.s = gost.String(untxt(a))
	case "push":
		return txtR(c.s.Push(gost.Char(a[0])))
	case "add":
		return txtR(c.s.Add(gost.String(untxt(a))))
	case "addassign":
		c.s.AddAssign(gost.String(untxt(a)))
		return "unit", nil
	case "pop":
		if o := c.s.Pop(); bool(o.IsSome()) {
			return "opt", []int{int(o.Unwrap())}
		}
		return "opt", []int{}
	case "chars":
		out := []int{}
		v := c.s.Chars()
		for i := gost.USize(0); i < v.Len(); i++ {
			out = append(out, int(v.GetUnchecked(i)))
		}
		return "seq", out
	case "bytes":
		out := []int{}
		v := c.s.IntoBytes()
		for i := gost.USize(0); i < v.Len(); i++ {
			out = append(out, int(v.GetUnchecked(i)))
		}
		return "seq", out
	case "fromutf8":
		v := gost.VecNew[gost.U8]()
		for _, b := range []byte(untxt(a)) {
			v.Push(gost.U8(b))
		}
		c.s = gost.StringFromUTF8(v)
		return txtR(c.s)
	case "fromutf16":
		v := gost.VecNew[gost.U16]()
		for _, u := range a {
			v.Push(gost.U16(u))
		}
		r := gost.StringFromUTF16(v)
		if r.IsErr() {
			return "err", nil
		}
		c.s = r.Unwrap()
		return "ok", codes(c.s)
	case "len":
		return "int", []int{int(c.s.Len())}
	case "isempty":
		return "bool", b2i(c.s.IsEmpty())
	case "contains":
		return "bool", b2i(c.s.Contains(gost.String(untxt(a))))
	case "find":
		if o := c.s.Find(gost.String(untxt(a))); bool(o.IsSome()) {
			return "opt", []int{int(o.Unwrap())}
		}
		return "opt", []int{}
	case "split":
		v := c.s.Split(gost.String(untxt(a)))
		out, chars := []int{int(v.Len())}, []int{}
		for i := gost.USize(0); i < v.Len(); i++ {
			q := codes(v.GetUnchecked(i))
			out = append(out, len(q))
			chars = append(chars, q...)
		}
		return "seq", append(out, chars...)
	case "trim":
		return txtR(c.s.Trim())
	case "replace":
		return txtR(c.s.Replace(gost.String(untxt(a[1:1+a[0]])), gost.String(untxt(a[1+a[0]:]))))
	case "repeat":
		return txtR(c.s.Repeat(gost.USize(a[0])))
	case "lower":
		return txtR(c.s.ToLowercase())
	case "upper":
		return txtR(c.s.ToUppercase())
	default:
		bad("str op %s", op)
	}
	return "unit", nil
}

// letters without case but in ASCII: whitespace of one, two and three bytes;
// characters of one to four bytes.
var alphabet = []rune{'a', 'b', 'a', 'B', 'Z', ',', '0', ' ', '\t', '\n', 0x85, 0xa0, 0x2003, 0x3000, 0x5be, 0x4e16, 0x1f600, 0xffff, 0x10000, 0xfffd, 0, '{', '@', '[', 0xfeff, 0x200b, 0x1680, 0x2028, 0x1c, 0x180e}

func randText(r *rand.Rand, n int) []int {
	out := []int{}
	some := alphabet[:2+r.Intn(len(alphabet)-2)]
	if r.Intn(2) == 0 { // a few, each frequent
		some = nil
		for i := 1 + r.Intn(4); i > 0; i-- {
			some = append(some, alphabet[r.Intn(len(alphabet))])
		}
	}
	for i := r.Intn(n + 1); i > 0; i-- {
		out = append(out, int(some[r.Intn(len(some))]))
	}
	return out
}

func (c *strComp) Gen(r *rand.Rand, step, length int) Op {
	most := 14
	if length == bigLen {
		most = 900
	}
	if length == hugeLen {
		most = 1800
	}
	if step%10 == 0 || len(c.s) > 200+8*most {
		return Op{"new", randText(r, most)}
	}
	cs := codes(c.s)
	odd := false // ill-formed
	for _, x := range cs {
		odd = odd || x >= 2000000
	}
	pat := func() []int {
		if len(cs) > 0 && r.Intn(4) != 0 { // a piece of the string itself
			i := r.Intn(len(cs))
			j := i + 1 + r.Intn(3)
			if j > len(cs) {
				j = len(cs)
			}
			return append([]int{}, cs[i:j]...)
		}
		p := randText(r, 3)
		if len(p) == 0 {
			p = []int{'a'}
		}
		return p
	}
	what := r.Intn(16)
	if odd && (what == 1 || what == 2 || what == 15) {
		what = 3
	}
	switch what {
	case 0:
		if r.Intn(2) == 0 {
			return Op{[]string{"add", "addassign"}[r.Intn(2)], randText(r, 5)}
		}
		return Op{"push", []int{int(alphabet[r.Intn(len(alphabet))])}}
	case 1, 2:
		return Op{"pop", []int{}}
	case 3:
		if odd {
			return Op{[]string{"bytes", "len", "isempty"}[r.Intn(3)], []int{}}
		}
		return Op{[]string{"chars", "bytes", "len", "isempty"}[r.Intn(4)], []int{}}
	case 4:
		t := randText(r, 14)
		if len(t) > 0 && r.Intn(3) == 0 { // bytes that no well-formed text contains
			for i := 1 + r.Intn(3); i > 0; i-- {
				t[r.Intn(len(t))] = 2000000 + []int{0xff, 0xfe, 0xc0, 0xc1, 0xf5}[r.Intn(5)]
			}
		}
		return Op{"fromutf8", t}
	case 5, 6:
		u := []int{}
		for i := r.Intn(7); i > 0; i-- {
			switch r.Intn(4) {
			case 0:
				u = append(u, 0xd800+r.Intn(0x400))
				if r.Intn(4) != 0 {
					u = append(u, 0xdc00+r.Intn(0x400))
				}
			case 1:
				if r.Intn(4) == 0 {
					u = append(u, []int{0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd}[r.Intn(6)])
					break
				}
				fallthrough
			default:
				u = append(u, []int{'a', 'Z', 0x4e16, 0xffff, 0x5be, 0xfffd, 0xfeff, 0xfffe, 0}[r.Intn(9)])
			}
		}
		return Op{"fromutf16", u}
	case 7:
		return Op{"contains", append([]int{}, pat()[:]...)}
	case 8:
		p := pat()
		if r.Intn(8) == 0 {
			p = []int{}
		}
		return Op{"find", p}
	case 9, 10:
		return Op{"split", pat()}
	case 11, 12:
		p := pat()
		return Op{"replace", append(append([]int{len(p)}, p...), randText(r, 3)...)}
	case 13:
		return Op{"repeat", []int{r.Intn(4)}}
	case 14:
		return Op{"trim", []int{}}
	default:
		return Op{[]string{"lower", "upper"}[r.Intn(2)], []int{}}
	}
}
