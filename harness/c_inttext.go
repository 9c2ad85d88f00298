package main

import (
	"math"
	"math/big"
	"math/rand"
	"reflect"

	"github.com/myyrakle/gost"
)

type intTextComp struct{ last gost.String }

func (c *intTextComp) State() [][]int { return nil }

func textValue(a []int) any {
	switch a[0] {
	case 14:
		return gost.Bool(a[1] == 1)
	case 15:
		return gost.Char(a[1])
	case 16:
		return gost.Byte(a[1])
	case 17:
		return bytesStr(a[1:])
	}
	return intTypes[a[0]].val(unnum(a[1:])).Interface()
}

func bytesStr(a []int) gost.String {
	b := make([]byte, len(a))
	for i, x := range a {
		b[i] = byte(x)
	}
	return gost.String(b)
}

func (c *intTextComp) parse(s gost.String, signed bool) (string, []int) {
	if signed {
		if r := s.ParseI64(); bool(r.IsOk()) {
			return "val", bnum(r.Unwrap())
		}
		return "err", nil
	}
	if r := s.ParseU64(); bool(r.IsOk()) {
		return "val", bnum(r.Unwrap())
	}
	return "err", nil
}

func (c *intTextComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		c.last = ""
		return "unit", nil
	case "text", "display", "debug":
		name := map[string]string{"text": "ToString", "display": "Display", "debug": "Debug"}[op]
		s := reflect.ValueOf(textValue(a)).MethodByName(name).Call(nil)[0].String()
		c.last = gost.String(s)
		if op == "debug" && len(s) > 0 {
			for i := range s {
				if s[i] == '(' {
					c.last = gost.String(s[i+1 : len(s)-1])
					break
				}
			}
		}
		return "seq", byts(s)
	case "parsei":
		return c.parse(bytesStr(a), true)
	case "parseu":
		return c.parse(bytesStr(a), false)
	case "backi":
		return c.parse(c.last, true)
	case "backu":
		return c.parse(c.last, false)
	}
	bad("inttext op %s", op)
	return "", nil
}

func (c *intTextComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{}}
	}
	switch r.Intn(8) {
	case 0, 1, 2:
		t := r.Intn(12)
		return Op{[]string{"text", "text", "display", "debug"}[r.Intn(4)], append([]int{t}, num(intTypes[t].draw(r, one))...)}
	case 3:
		return Op{[]string{"backi", "backu"}[r.Intn(2)], []int{}}
	case 4:
		switch r.Intn(5) {
		case 4:
			return Op{[]string{"text", "display", "debug"}[r.Intn(3)], []int{15, []int{r.Intn(300), r.Intn(1 << 21), -r.Intn(1 << 20), math.MaxInt32, math.MinInt32 + 1}[r.Intn(5)]}}
		case 0:
			return Op{[]string{"text", "display"}[r.Intn(2)], []int{14, r.Intn(2)}}
		case 1:
			return Op{[]string{"text", "display", "debug"}[r.Intn(3)], []int{16, r.Intn(256)}}
		case 2:
			return Op{"debug", []int{14, r.Intn(2)}}
		default:
			return Op{[]string{"text", "display", "debug"}[r.Intn(3)], append([]int{17}, drawVal(17, r, nil)[1:]...)}
		}
	}
	// texts of numbers around the ranges, decorated now and then
	t := intTypes[[]int{3, 8, 11}[r.Intn(3)]]
	n := t.draw(r, one)
	if r.Intn(2) == 0 {
		n = new(big.Int).Add(intTypes[[]int{3, 8}[r.Intn(2)]].max, big.NewInt(int64(r.Intn(5)-2)))
		if r.Intn(2) == 0 {
			n.Neg(n)
		}
	}
	s := n.String()
	junk := []string{"+", "-", " ", "_", "0", "00", ".", "e", "x", "\n", "\x00", "١", ""}
	for r.Intn(3) == 0 {
		i := r.Intn(len(s) + 1)
		if r.Intn(2) == 0 {
			i = 0
		}
		s = s[:i] + junk[r.Intn(len(junk))] + s[i:]
	}
	return Op{[]string{"parsei", "parseu"}[r.Intn(2)], byts(s)}
}
