package main

import (
	"math"
	"math/big"
	"math/bits"
	"math/rand"
	"reflect"

	"github.com/myyrakle/gost"
)

// A finite float in a log: sign, exponent, 5 limbs of its odd mantissa.
// An infinity has exponent 9999.
const fltLimbs = 5

func flt(f float64) []int {
	out := make([]int, 2, 2+fltLimbs)
	if f < 0 {
		out[0] = 1
	}
	var m uint64
	switch {
	case math.IsInf(f, 0):
		m, out[1] = 1, 9999
	case f != 0:
		fr, e := math.Frexp(math.Abs(f))
		m = uint64(math.Ldexp(fr, 53))
		z := bits.TrailingZeros64(m)
		m >>= z
		out[1] = e - 53 + z
	}
	for i := 0; i < fltLimbs; i++ {
		out = append(out, int(m&4095))
		m >>= 12
	}
	return out
}

func unflt(a []int) float64 {
	var m uint64
	for i := fltLimbs; i >= 1; i-- {
		m = m<<12 | uint64(a[1+i])
	}
	f := math.Ldexp(float64(m), a[1])
	if a[1] == 9999 {
		f = math.Inf(1)
	}
	if a[0] == 1 {
		f = -f
	}
	return f
}

type floatComp struct {
	t int
	p reflect.Value
}

var fltTypes = []reflect.Type{reflect.TypeOf(gost.F32(0)), reflect.TypeOf(gost.F64(0))}
var fltMethods = map[string]string{"floor": "Floor", "ceil": "Ceil", "round": "Round", "trunc": "Trunc", "frac": "Frac", "abs": "Abs", "sqrt": "Sqrt",
	"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "addassign": "AddAssign", "subassign": "SubAssign", "mulassign": "MulAssign", "divassign": "DivAssign",
	"exp": "Exp", "exp2": "Exp2", "ln": "Ln", "log2": "Log2", "log10": "Log10", "log": "Log", "powf": "Powf"}

func (c *floatComp) State() [][]int {
	return [][]int{vlog(c.p.Elem().Float())}
}

func (c *floatComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		c.t = a[0]
		c.p = reflect.New(fltTypes[a[0]])
		c.p.Elem().SetFloat(unvlog(a[1:]))
		return "unit", nil
	case "set":
		c.p.Elem().SetFloat(unvlog(a))
		return "unit", nil
	}
	in := []reflect.Value{}
	name := fltMethods[op]
	if op == "powi" {
		name = "Powi"
		in = append(in, reflect.ValueOf(a[0]))
	} else if len(a) > 0 {
		v := reflect.New(fltTypes[c.t]).Elem()
		v.SetFloat(unvlog(a))
		in = append(in, v)
	}
	if name == "" {
		bad("float op %s", op)
	}
	out := c.p.MethodByName(name).Call(in)
	if len(out) == 0 {
		return "unit", nil
	}
	return "flt", vlog(out[0].Float())
}

// round32 brings a value into the type.
func (c *floatComp) fit(f float64) float64 {
	if c.t == 0 {
		f = float64(float32(f))
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return 1.5
	}
	return f
}

func (c *floatComp) draw(r *rand.Rand) float64 {
	var f float64
	switch r.Intn(9) {
	case 0: // around small integers and halves
		f = float64(r.Intn(41)-20) / 2
		if r.Intn(2) == 0 {
			f = math.Nextafter(f, math.Inf(1-2*r.Intn(2)))
			if c.t == 0 {
				f = float64(math.Nextafter32(float32(math.Round(f*2)/2), float32(math.Inf(1-2*r.Intn(2)))))
			}
		}
	case 1:
		f = float64(r.Intn(2000001)-1000000) / float64(int(1)<<r.Intn(20))
	case 2: // around the top of the precision
		p := []uint{24, 53}[c.t]
		f = math.Ldexp(1, int(p)-r.Intn(4)) + float64(r.Intn(9)-4)/float64(int(1)<<r.Intn(3))
	case 3: // any bit pattern
		if c.t == 0 {
			f = float64(math.Float32frombits(r.Uint32()))
		} else {
			f = math.Float64frombits(r.Uint64())
		}
	case 4: // few bits, any exponent
		f = math.Ldexp(float64(1+r.Intn(255)), r.Intn(2*[]int{120, 1000}[c.t])-[]int{120, 1000}[c.t])
	case 5: // subnormal
		f = float64(r.Intn(50)) * []float64{math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat64}[c.t]
	case 6: // squares
		k := float64(r.Intn(1 << 12))
		if c.t == 1 {
			k = float64(r.Intn(1 << 26))
		}
		f = math.Ldexp(k*k, 2*(r.Intn(40)-20))
		return c.fit(f)
	case 7: // many fractional bits
		f = r.Float64() * math.Ldexp(1, r.Intn(60)-5)
	default:
		f = float64(r.Intn(100))
	}
	if r.Intn(2) == 0 {
		f = -f
	}
	return c.fit(f)
}

// any value of the type, including the special ones
func (c *floatComp) drawAny(r *rand.Rand) float64 {
	if r.Intn(12) == 0 {
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN()}[r.Intn(5)]
	}
	return c.draw(r)
}

// ulp is the unit of the last place of x.
func (c *floatComp) ulp(x float64) float64 {
	_, e := math.Frexp(x)
	if c.t == 0 {
		return math.Ldexp(1, max(e-24, -149))
	}
	return math.Ldexp(1, max(e-53, -1074))
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (c *floatComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		c.t = r.Intn(2)
		return Op{"new", append([]int{c.t}, vlog(c.drawAny(r))...)}
	}
	x := c.p.Elem().Float()
	if step%5 == 0 || (math.IsInf(x, 0) || math.IsNaN(x)) && r.Intn(3) > 0 {
		return Op{"set", vlog(c.drawAny(r))}
	}
	ops := []string{"floor", "ceil", "round", "trunc", "frac", "abs", "sqrt"}
	switch r.Intn(4) {
	case 0:
		return Op{ops[r.Intn(len(ops))], []int{}}
	case 1:
		if r.Intn(3) == 0 {
			return Op{"powi", []int{[]int{0, 1, 2, 3, 4, 5, 10, -1, -2, -7}[r.Intn(10)]}}
		}
	}
	y := c.drawAny(r)
	op := []string{"add", "sub", "mul", "div", "addassign", "subassign", "mulassign", "divassign"}[r.Intn(8)]
	switch r.Intn(9) {
	case 0: // close by
		y = c.fit(x * (1 + float64(r.Intn(5)-2)/float64(int(1)<<(3+r.Intn(20)))))
	case 1:
		y = c.fit(math.Ldexp(1, r.Intn(9)-4))
	case 2: // around half a unit of the last place: ties
		y = c.fit(c.ulp(x) * float64(1+r.Intn(5)) / 2 * (1 + float64(r.Intn(3)-1)/(1<<20)))
	case 3: // of any relative size
		y = c.fit(x * math.Ldexp(1+r.Float64(), r.Intn(130)-65))
	case 4: // a product or quotient near the ends of the range
		e := []float64{math.Ldexp(1, 126), math.Ldexp(1, -126), math.Ldexp(1, -149)}[r.Intn(3)]
		if c.t == 1 {
			e = []float64{math.Ldexp(1, 1022), math.Ldexp(1, -1022), math.Ldexp(1, -1074)}[r.Intn(3)]
		}
		e *= 1 + r.Float64()
		if op[:3] == "div" {
			y = c.fit(x / e)
		} else {
			y = c.fit(e / x)
		}
	case 5: // make an exact quotient likely
		if op[:3] == "div" && y != 0 {
			q, _ := new(big.Float).Mul(big.NewFloat(c.fit(y)), big.NewFloat(float64(1+r.Intn(4000)))).Float64()
			if c.fit(q) == q {
				return Op{"set", vlog(q)}
			}
		}
	}
	return Op{op, vlog(y)}
}
