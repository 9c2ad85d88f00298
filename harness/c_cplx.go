package main

import (
	"math"
	"math/rand"
	"reflect"

	"github.com/myyrakle/gost"
)

// cplxComp: arithmetic on complex numbers (Cplx.tla).
type cplxComp struct {
	f floatComp
	t int
	p reflect.Value
}

var cplxTypes = []reflect.Type{reflect.TypeOf(gost.Complex64(0)), reflect.TypeOf(gost.Complex128(0))}

func clog(z complex128) []int { return append(vlog(real(z)), vlog(imag(z))...) }
func unclog(a []int) complex128 {
	return complex(unvlog(a), unvlog(a[2+fltLimbs:]))
}

func (c *cplxComp) State() [][]int { return [][]int{clog(c.p.Elem().Complex())} }

func (c *cplxComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		c.t = a[0]
		c.p = reflect.New(cplxTypes[a[0]])
		c.p.Elem().SetComplex(unclog(a[1:]))
		return "unit", nil
	case "set":
		c.p.Elem().SetComplex(unclog(a))
		return "unit", nil
	}
	switch op {
	case "clone":
		return "cplx", clog(c.p.Elem().MethodByName("Clone").Call(nil)[0].Complex())
	case "asref":
		return "cplx", clog(c.p.Elem().MethodByName("AsRef").Call(nil)[0].Elem().Complex())
	}
	y := reflect.New(cplxTypes[c.t]).Elem()
	y.SetComplex(unclog(a))
	out := c.p.MethodByName(fltMethods[op]).Call([]reflect.Value{y})
	if len(out) == 0 {
		return "unit", nil
	}
	return "cplx", clog(out[0].Complex())
}

func (c *cplxComp) part(r *rand.Rand) float64 {
	switch r.Intn(5) {
	case 0:
		return float64(r.Intn(41) - 20)
	case 1:
		return c.f.drawAny(r)
	case 2:
		return 0
	}
	return c.f.fit((r.Float64() - 0.5) * math.Ldexp(1, r.Intn(40)-20))
}

func (c *cplxComp) draw(r *rand.Rand) complex128 {
	z := complex(c.part(r), c.part(r))
	if r.Intn(3) == 0 { // parts of one size
		z = complex(real(z), c.f.fit(real(z)*(1+(r.Float64()-0.5)/math.Ldexp(1, r.Intn(30)))))
	}
	return z
}

func (c *cplxComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		c.f.t = r.Intn(2)
		return Op{"new", append([]int{c.f.t}, clog(c.draw(r))...)}
	}
	c.f.t = c.t
	x := c.p.Elem().Complex()
	if step%4 == 0 || math.IsNaN(real(x)) || math.IsNaN(imag(x)) {
		return Op{"set", clog(c.draw(r))}
	}
	if r.Intn(12) == 0 {
		return Op{[]string{"clone", "asref"}[r.Intn(2)], nil}
	}
	y := c.draw(r)
	if r.Intn(6) == 0 { // products of which one part nearly cancels
		y = complex(imag(x), c.f.fit(real(x)*(1+float64(r.Intn(3)-1)/math.Ldexp(1, 10+r.Intn(12)))))
	}
	return Op{[]string{"add", "sub", "mul", "div", "addassign", "subassign", "mulassign", "divassign", "mul", "div"}[r.Intn(10)], clog(y)}
}
