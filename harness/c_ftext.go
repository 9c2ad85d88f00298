package main

import (
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/myyrakle/gost"
)

// floatTextComp: texts of float and complex values, and values of texts
// (FloatText.tla).
type floatTextComp struct {
	last gost.String
	f    floatComp
}

func (c *floatTextComp) State() [][]int { return nil }

func (c *floatTextComp) value(a []int) any {
	re := unvlog(a[1:])
	switch a[0] {
	case 0:
		return gost.F32(re)
	case 1:
		return gost.F64(re)
	}
	im := unvlog(a[1+2+fltLimbs:])
	if a[0] == 2 {
		return gost.Complex64(complex(float32(re), float32(im)))
	}
	return gost.Complex128(complex(re, im))
}

func (c *floatTextComp) parse(s gost.String) (string, []int) {
	if r := s.ParseF64(); bool(r.IsOk()) {
		return "flt", vlog(float64(r.Unwrap()))
	}
	return "err", nil
}

func (c *floatTextComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		c.last = ""
		return "unit", nil
	case "text", "display", "debug":
		name := map[string]string{"text": "ToString", "display": "Display", "debug": "Debug"}[op]
		s := reflect.ValueOf(c.value(a)).MethodByName(name).Call(nil)[0].String()
		c.last = gost.String(s)
		return "seq", byts(s)
	case "parse":
		return c.parse(bytesStr(a))
	case "back":
		return c.parse(c.last)
	}
	bad("ftext op %s", op)
	return "", nil
}

func digits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
		if r.Intn(4) == 0 {
			b[i] = "09"[r.Intn(2)]
		}
	}
	return string(b)
}

// tie is the exact decimal expansion of the point half-way between two
// neighbouring values.
func (c *floatTextComp) tie(r *rand.Rand) string {
	c.f.t = 1
	x := math.Abs(c.f.draw(r))
	if r.Intn(3) == 0 {
		x = math.Abs(math.Float64frombits(r.Uint64()))
	}
	y := math.Nextafter(x, math.Inf(1))
	if math.IsNaN(x) || math.IsInf(y, 0) || x > 1e300 || x < 1e-200 && r.Intn(4) > 0 {
		x, y = 1, math.Nextafter(1, 2)
	}
	m := new(big.Float).SetPrec(2200).Add(new(big.Float).SetPrec(2200).SetFloat64(x), new(big.Float).SetPrec(2200).SetFloat64(y))
	m.Quo(m, big.NewFloat(2).SetPrec(2200))
	s := m.Text('f', 1090)
	if r.Intn(2) == 0 {
		s = m.Text('e', 800)
		i := strings.IndexByte(s, 'e')
		return strings.TrimRight(s[:i], "0") + s[i:]
	}
	return strings.TrimRight(s, "0")
}

func (c *floatTextComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{}}
	}
	if step%8 == 7 {
		return Op{"back", []int{}}
	}
	if r.Intn(2) == 0 {
		t := r.Intn(4)
		c.f.t = t % 2
		a := append([]int{t}, vlog(c.f.drawAny(r))...)
		if t > 1 {
			a = append(a, vlog(c.f.drawAny(r))...)
		}
		return Op{[]string{"text", "text", "display", "debug"}[r.Intn(4)], a}
	}
	var s string
	switch r.Intn(6) {
	case 0, 1:
		s = digits(r, r.Intn(20))
		if r.Intn(2) == 0 {
			s += "." + digits(r, r.Intn(25))
		}
		if r.Intn(2) == 0 {
			s += []string{"e", "E", "e+", "e-"}[r.Intn(4)] + strconv.Itoa(r.Intn([]int{10, 40, 345, 2000}[r.Intn(4)]))
		}
	case 2: // close to a value
		c.f.t = 1
		s = strconv.FormatFloat(c.f.draw(r), "fe"[r.Intn(2)], r.Intn(25), 64)
	case 3: // a tie, or just off it
		s = c.tie(r)
		if i := strings.IndexByte(s, 'e'); i < 0 && strings.IndexByte(s, '.') >= 0 && r.Intn(2) == 0 {
			s += strings.Repeat("0", r.Intn(4)) + "1"
		}
	case 4: // ends of the range
		s = []string{"1.7976931348623157e308", "1.7976931348623158e308", "1.797693134862315807e308", "1.797693134862315808e308", "2e308", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072011e-308", "2.2250738585072014e-308", "1e400", "1e-400", "0e999999999999"}[r.Intn(13)]
	default:
		s = strconv.Itoa(r.Intn(2000000))
	}
	if r.Intn(4) == 0 {
		s = []string{"-", "+"}[r.Intn(2)] + s
	}
	for r.Intn(5) == 0 {
		junk := []string{"+", "-", " ", ".", "0", "00", "e", "a", "f", ",", "\n", "\x00", "٣", ""}
		i := []int{0, len(s), r.Intn(len(s) + 1)}[r.Intn(3)]
		s = s[:i] + junk[r.Intn(len(junk))] + s[i:]
	}
	return Op{"parse", byts(s)}
}
