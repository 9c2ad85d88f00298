package main

import (
	"math"
	"math/big"
	"math/rand"
	"reflect"

	"github.com/myyrakle/gost"
)

// ordComp: three registers of an ordered type, each its encoding and its value.
type ordComp struct {
	t int
	r [3]any
}

type triple = gost.Pair[gost.Pair[gost.I64, gost.Bool], gost.I8]

func ordValue(t int, a []int) any {
	switch {
	case t < 12:
		return intTypes[t].val(unnum(a)).Interface()
	case t == 12:
		return gost.F32(unflt(a))
	case t == 13:
		return gost.F64(unflt(a))
	case t == 14:
		return gost.Bool(a[0] == 1)
	case t == 15:
		return gost.Char(a[0])
	case t == 16:
		return gost.Byte(a[0])
	case t == 17:
		b := make([]byte, a[0])
		for i := range b {
			b[i] = byte(a[1+i])
		}
		return gost.String(b)
	case t == 18:
		return gost.Pair[gost.I32, gost.String]{Key: ordValue(2, a[:12]).(gost.I32), Value: ordValue(17, a[12:]).(gost.String)}
	case t == 19:
		n := 1 + a[0]
		return gost.Pair[gost.String, gost.F64]{Key: ordValue(17, a[:n]).(gost.String), Value: ordValue(13, a[n:]).(gost.F64)}
	case t == 20:
		return triple{Key: gost.Pair[gost.I64, gost.Bool]{Key: ordValue(3, a).(gost.I64), Value: gost.Bool(a[12] == 1)}, Value: ordValue(0, a[13:]).(gost.I8)}
	}
	bad("order type %d", t)
	return nil
}

func (c *ordComp) State() [][]int { return nil }

func (c *ordComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		c.t = a[0]
		return "unit", nil
	case "put":
		c.r[a[0]-1] = ordValue(c.t, a[1:])
		return "unit", nil
	case "cmp":
		out := reflect.ValueOf(c.r[a[0]-1]).MethodByName("Cmp").Call([]reflect.Value{reflect.ValueOf(c.r[a[1]-1])})
		return "int", []int{ordering(out[0].Interface().(gost.Ordering))}
	case "clone":
		c.r[a[1]-1] = reflect.ValueOf(c.r[a[0]-1]).MethodByName("Clone").Call(nil)[0].Interface()
		return "unit", nil
	case "ref":
		c.r[a[1]-1] = reflect.ValueOf(c.r[a[0]-1]).MethodByName("AsRef").Call(nil)[0].Elem().Interface()
		return "unit", nil
	case "eq":
		out := reflect.ValueOf(c.r[a[0]-1]).MethodByName("Eq").Call([]reflect.Value{reflect.ValueOf(c.r[a[1]-1])})
		return "bool", b2i(out[0].Bool())
	}
	bad("order op %s", op)
	return "", nil
}

var ordBytes = []byte{0, 9, 'A', 'Z', 'a', 'b', 'z', 0x7f, 0x80, 0xc3, 0xa9, 0xe4, 0xf0, 0xff}

// drawVal draws an encoded value; near, if any, is an encoding to stay close to.
func drawVal(t int, r *rand.Rand, near []int) []int {
	close := near != nil && r.Intn(2) == 0
	switch {
	case t < 12:
		ty := intTypes[t]
		if close {
			d := new(big.Int).Lsh(one, uint(r.Intn(int(ty.w))))
			if r.Intn(2) == 0 {
				d.Neg(d)
			}
			return num(ty.clampTo(new(big.Int).Add(unnum(near), d)))
		}
		return num(ty.draw(r, one))
	case t <= 13:
		c := floatComp{t: t - 12}
		f := c.draw(r)
		if close {
			f = unflt(near)
			if t == 12 {
				f = float64(math.Nextafter32(float32(f), float32(math.Inf(1-2*r.Intn(2)))))
			} else {
				f = math.Nextafter(f, math.Inf(1-2*r.Intn(2)))
			}
		}
		if r.Intn(20) == 0 {
			f = math.Inf(1 - 2*r.Intn(2))
		}
		if r.Intn(10) == 0 {
			f = 0
		}
		out := flt(f)
		if f == 0 && r.Intn(2) == 0 {
			out[0] = 1
		}
		return out
	case t == 14:
		return []int{r.Intn(2)}
	case t == 15:
		return []int{[]int{0, r.Intn(128), r.Intn(0x2000), 0xffff, 0x10000 + r.Intn(0x10000), 0x10ffff, 'é'}[r.Intn(7)]}
	case t == 16:
		return []int{r.Intn(256)}
	case t == 17:
		if close {
			out := append([]int{}, near...)
			switch n := out[0]; {
			case r.Intn(3) == 0 && n > 0:
				out = out[:n]
				out[0] = n - 1
			case r.Intn(2) == 0 && n > 0:
				out[1+r.Intn(n)] = int(ordBytes[r.Intn(len(ordBytes))])
			default:
				out = append(out, int(ordBytes[r.Intn(len(ordBytes))]))
				out[0] = n + 1
			}
			return out
		}
		out := []int{r.Intn(6)}
		if r.Intn(3) == 0 {
			out[0] = []int{8, 9, 16, 17, 20, 33, 70}[r.Intn(7)] + r.Intn(3)
		}
		some := ordBytes
		if r.Intn(4) == 0 { // long common stretches
			some = ordBytes[3:5]
		}
		for i := 0; i < out[0]; i++ {
			out = append(out, int(some[r.Intn(len(some))]))
		}
		return out
	case t == 18:
		if close {
			return append(append([]int{}, near[:12]...), drawVal(17, r, near[12:])...)
		}
		return append(drawVal(2, r, nil), drawVal(17, r, nil)...)
	case t == 19:
		if close {
			n := 1 + near[0]
			return append(append([]int{}, near[:n]...), drawVal(13, r, near[n:])...)
		}
		return append(drawVal(17, r, nil), drawVal(13, r, nil)...)
	case t == 20:
		if close {
			return append(append(append([]int{}, near[:12]...), r.Intn(2)), drawVal(0, r, near[13:])...)
		}
		return append(append(drawVal(3, r, nil), r.Intn(2)), drawVal(0, r, nil)...)
	}
	return nil
}

type ordGen struct {
	ordComp
	enc [3][]int
}

func (c *ordGen) Exec(op string, a []int) (string, []int) {
	if op == "put" {
		c.enc[a[0]-1] = a[1:]
	}
	if op == "clone" || op == "ref" {
		c.enc[a[1]-1] = c.enc[a[0]-1]
	}
	return c.ordComp.Exec(op, a)
}

func (c *ordGen) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{r.Intn(21)}}
	}
	if step <= 3 || r.Intn(5) == 0 {
		i := r.Intn(3)
		if step <= 3 {
			i = step - 1
		}
		var near []int
		if j := r.Intn(3); c.enc[j] != nil {
			near = c.enc[j]
		}
		return Op{"put", append([]int{i + 1}, drawVal(c.t, r, near)...)}
	}
	if r.Intn(8) == 0 && c.t != 10 && c.t != 11 {
		return Op{[]string{"clone", "ref"}[r.Intn(2)], []int{1 + r.Intn(3), 1 + r.Intn(3)}}
	}
	return Op{[]string{"cmp", "cmp", "eq"}[r.Intn(3)], []int{1 + r.Intn(3), 1 + r.Intn(3)}}
}
