package main

import (
	"math"
	"math/rand"
	"reflect"

	"github.com/myyrakle/gost"
)

// transComp: exponentials, logarithms and powers (Trans.tla). A value in a log
// is a sign, an exponent and 5 limbs of its odd mantissa; zero keeps its sign,
// exponent 9999 is an infinity and 9998 not a number.
type transComp struct{ f floatComp }

func vlog(f float64) []int {
	switch {
	case math.IsNaN(f):
		return []int{0, 9998, 1, 0, 0, 0, 0}
	case f == 0 && math.Signbit(f):
		return []int{1, 0, 0, 0, 0, 0, 0}
	}
	return flt(f)
}

func unvlog(a []int) float64 {
	switch {
	case a[1] == 9998:
		return math.NaN()
	case a[1] == 0 && a[2]|a[3]|a[4]|a[5]|a[6] == 0 && a[0] == 1:
		return math.Copysign(0, -1)
	}
	return unflt(a)
}

func (c *transComp) State() [][]int { return [][]int{vlog(c.f.p.Elem().Float())} }

func (c *transComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		c.f.t = a[0]
		c.f.p = reflect.New(fltTypes[a[0]])
		c.f.p.Elem().SetFloat(unvlog(a[1:]))
		return "unit", nil
	case "set":
		c.f.p.Elem().SetFloat(unvlog(a))
		return "unit", nil
	}
	name, in := fltMethods[op], []reflect.Value{}
	if op == "powi" {
		name = "Powi"
		in = append(in, reflect.ValueOf(a[0]))
	} else if len(a) > 0 {
		v := reflect.New(fltTypes[c.f.t]).Elem()
		v.SetFloat(unvlog(a))
		in = append(in, v)
	}
	if name == "" {
		bad("trans op %s", op)
	}
	out := c.f.p.MethodByName(name).Call(in)
	switch r := out[0].Interface().(type) {
	case gost.F32:
		return "flt", vlog(float64(r))
	case gost.F64:
		return "flt", vlog(float64(r))
	}
	bad("trans result %T", out[0].Interface())
	return "", nil
}

func (c *transComp) fit(f float64) float64 {
	if c.f.t == 0 {
		return float64(float32(f))
	}
	return f
}

// step moves f by k units of its type.
func (c *transComp) step(f float64, k int) float64 {
	for ; k > 0; k-- {
		if c.f.t == 0 {
			f = float64(math.Nextafter32(float32(f), float32(math.Inf(1))))
		} else {
			f = math.Nextafter(f, math.Inf(1))
		}
	}
	for ; k < 0; k++ {
		if c.f.t == 0 {
			f = float64(math.Nextafter32(float32(f), float32(math.Inf(-1))))
		} else {
			f = math.Nextafter(f, math.Inf(-1))
		}
	}
	return f
}

func (c *transComp) draw(r *rand.Rand) float64 {
	hi := []float64{128, 1024}[c.f.t]
	lo := []float64{149, 1074}[c.f.t]
	switch r.Intn(10) {
	case 0:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), 1, -1}[r.Intn(7)]
	case 1: // near one
		return c.step(1, r.Intn(41)-20)
	case 2: // near one, further away
		return c.fit(1 + (r.Float64()-0.5)*math.Ldexp(1, -r.Intn(30)))
	case 3: // where exponentials leave the range
		e := []float64{hi, -lo, -lo - 1, 2 - hi}[r.Intn(4)] * []float64{1, math.Ln2}[r.Intn(2)]
		return c.step(c.fit(e), r.Intn(9)-4)
	case 4: // where they are moderate
		return c.fit((r.Float64() - 0.5) * []float64{2, 20, 2 * hi}[r.Intn(3)])
	case 5: // tiny arguments
		return c.fit((r.Float64() - 0.5) * math.Ldexp(1, -r.Intn(70)))
	case 6: // powers of two and ten, and neighbours
		f := math.Ldexp(1, r.Intn(int(hi+lo))-int(lo))
		if r.Intn(2) == 0 {
			f = math.Pow(10, float64(r.Intn(77)-38))
		}
		return c.step(c.fit(f), []int{0, 0, 1, -1}[r.Intn(4)])
	case 7: // integers
		return c.fit(float64(r.Intn(2001) - 1000))
	}
	return c.f.draw(r)
}

func (c *transComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		c.f.t = r.Intn(2)
		return Op{"new", append([]int{c.f.t}, vlog(c.draw(r))...)}
	}
	if step%4 == 0 {
		return Op{"set", vlog(c.draw(r))}
	}
	x := c.f.p.Elem().Float()
	switch k := r.Intn(10); {
	case k < 5:
		return Op{[]string{"exp", "exp2", "ln", "log2", "log10"}[k], []int{}}
	case k == 5:
		return Op{"log", vlog(c.draw(r))}
	case k == 6:
		n := r.Intn(41) - 20
		switch r.Intn(4) {
		case 0:
			n = r.Intn(4001) - 2000
		case 1:
			n = []int{0, 1, -1, 2, 3, math.MaxInt32, -math.MaxInt32}[r.Intn(7)]
		}
		return Op{"powi", []int{n}}
	}
	y := c.draw(r)
	if r.Intn(3) == 0 { // a moderate result
		if l := math.Log(math.Abs(x)); l != 0 {
			y = (r.Float64() - 0.5) * 100 / l
			if x < 0 || r.Intn(3) == 0 {
				y = math.Round(y)
			}
			y = c.fit(y)
		}
	}
	return Op{"powf", vlog(y)}
}
