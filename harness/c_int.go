package main

import (
	"math/big"
	"math/rand"
	"reflect"
	"unsafe"

	"github.com/myyrakle/gost"
)

// Numbers in a log: the sign, then 11 limbs of 12 bits.
const numLimbs = 11

var limbMask = big.NewInt(4095)

func num(x *big.Int) []int {
	out := make([]int, 1, 1+numLimbs)
	if x.Sign() < 0 {
		out[0] = 1
	}
	m := new(big.Int).Abs(x)
	for i := 0; i < numLimbs; i++ {
		out = append(out, int(new(big.Int).And(m, limbMask).Int64()))
		m.Rsh(m, 12)
	}
	return out
}

func unnum(a []int) *big.Int {
	m := new(big.Int)
	for i := numLimbs; i >= 1; i-- {
		m.Lsh(m, 12).Or(m, big.NewInt(int64(a[i])))
	}
	if a[0] == 1 {
		m.Neg(m)
	}
	return m
}

type intType struct {
	t        reflect.Type
	w        uint
	signed   bool
	min, max *big.Int
	cMin     any
	cMax     any
}

var one = big.NewInt(1)

func mkType(v any, w uint, signed bool, cmin, cmax any) *intType {
	t := &intType{t: reflect.TypeOf(v), w: w, signed: signed, cMin: cmin, cMax: cmax}
	if signed {
		t.min = new(big.Int).Neg(new(big.Int).Lsh(one, w-1))
		t.max = new(big.Int).Sub(new(big.Int).Lsh(one, w-1), one)
	} else {
		t.min = new(big.Int)
		t.max = new(big.Int).Sub(new(big.Int).Lsh(one, w), one)
	}
	return t
}

var intTypes = []*intType{
	mkType(gost.I8(0), 8, true, gost.I8_MIN, gost.I8_MAX),
	mkType(gost.I16(0), 16, true, gost.I16_MIN, gost.I16_MAX),
	mkType(gost.I32(0), 32, true, gost.I32_MIN, gost.I32_MAX),
	mkType(gost.I64(0), 64, true, gost.I64_MIN, gost.I64_MAX),
	mkType(gost.ISize(0), 64, true, gost.ISize_MIN, gost.ISize_MAX),
	mkType(gost.U8(0), 8, false, gost.U8_MIN, gost.U8_MAX),
	mkType(gost.U16(0), 16, false, gost.U16_MIN, gost.U16_MAX),
	mkType(gost.U32(0), 32, false, gost.U32_MIN, gost.U32_MAX),
	mkType(gost.U64(0), 64, false, gost.U64_MIN, gost.U64_MAX),
	mkType(gost.USize(0), 64, false, gost.USize_MIN, gost.USize_MAX),
	mkType(gost.I128{}, 128, true, gost.I128_MIN, gost.I128_MAX),
	mkType(gost.U128{}, 128, false, gost.U128_MIN, gost.U128_MAX),
	mkType(gost.Byte(0), 8, false, nil, nil),
	mkType(gost.Char(0), 32, true, nil, nil),
}

// wideLow finds which machine word of a 128-bit value is the low one, from
// the value of 1, so that nothing here depends on the order of its fields.
var wideLow = func() int {
	u, i := gost.U128_FromU64(1), gost.I128_FromU64(1)
	if unsafe.Sizeof(u) != 16 || unsafe.Sizeof(i) != 16 {
		return -1
	}
	a, b := *(*[2]uint64)(unsafe.Pointer(&u)), *(*[2]uint64)(unsafe.Pointer(&i))
	if a != b || a[0]+a[1] != 1 {
		return -1
	}
	return int(a[1])
}()

var mod128 = new(big.Int).Lsh(one, 128)

// set stores x in the value v points to.
func (t *intType) set(p reflect.Value, x *big.Int) {
	switch {
	case t.w == 128:
		if wideLow < 0 {
			bad("cannot tell the layout of 128-bit values")
		}
		m := new(big.Int).Mod(x, mod128)
		w := (*[2]uint64)(p.UnsafePointer())
		w[wideLow] = new(big.Int).And(m, new(big.Int).SetUint64(^uint64(0))).Uint64()
		w[1-wideLow] = new(big.Int).Rsh(m, 64).Uint64()
	case t.signed:
		p.Elem().SetInt(x.Int64())
	default:
		p.Elem().SetUint(x.Uint64())
	}
}

// get reads any integer value.
func getInt(v reflect.Value) *big.Int {
	switch {
	case v.CanInt():
		return big.NewInt(v.Int())
	case v.CanUint():
		return new(big.Int).SetUint64(v.Uint())
	case v.Type() == reflect.TypeOf(gost.I128{}) || v.Type() == reflect.TypeOf(gost.U128{}):
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		w := (*[2]uint64)(p.UnsafePointer())
		x := new(big.Int).SetUint64(w[1-wideLow])
		x.Lsh(x, 64).Or(x, new(big.Int).SetUint64(w[wideLow]))
		if v.Type() == reflect.TypeOf(gost.I128{}) && x.Bit(127) == 1 {
			x.Sub(x, mod128)
		}
		return x
	}
	bad("not an integer: %v", v.Type())
	return nil
}

func (t *intType) val(x *big.Int) reflect.Value {
	p := reflect.New(t.t)
	t.set(p, x)
	return p.Elem()
}

type intComp struct {
	n int // type
	t *intType
	p reflect.Value // pointer to the register
}

func (c *intComp) State() [][]int { return [][]int{num(getInt(c.p.Elem()))} }

func (c *intComp) call(name string, args ...reflect.Value) []reflect.Value {
	m := c.p.MethodByName(name)
	if !m.IsValid() {
		bad("%v has no method %s", c.t.t, name)
	}
	return m.Call(args)
}

var intMethods = map[string]string{
	"cadd": "CheckedAdd", "csub": "CheckedSub", "cmul": "CheckedMul", "cdiv": "CheckedDiv", "crem": "CheckedRem",
	"wadd": "WrappingAdd", "wsub": "WrappingSub", "wmul": "WrappingMul", "wdiv": "WrappingDiv",
	"sadd": "SaturatingAdd", "ssub": "SaturatingSub", "smul": "SaturatingMul", "sdiv": "SaturatingDiv",
	"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "absdiff": "AbsDiff",
	"addassign": "AddAssign", "subassign": "SubAssign", "mulassign": "MulAssign", "divassign": "DivAssign", "remassign": "RemAssign",
	"shl": "Shl", "shr": "Shr", "cmp": "Cmp", "eq": "Eq", "abs": "Abs", "neg": "Neg", "ispos": "IsPositive", "isneg": "IsNegative",
}

var rowMethods = map[int]string{
	0: "cadd", 1: "csub", 2: "cmul", 3: "cdiv", 4: "crem",
	10: "wadd", 11: "wsub", 12: "wmul", 13: "wdiv",
	20: "sadd", 21: "ssub", 22: "smul", 23: "sdiv",
	30: "add", 31: "sub", 32: "mul", 33: "div", 34: "rem",
	40: "addassign", 41: "subassign", 42: "mulassign", 43: "divassign", 44: "remassign",
	50: "absdiff", 60: "shl", 61: "shr",
}
var rowArith = []int{0, 1, 2, 3, 4, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33, 34, 40, 41, 42, 43, 44, 50}

func ordering(o gost.Ordering) int {
	switch o {
	case gost.OrderingLess:
		return -1
	case gost.OrderingEqual:
		return 0
	case gost.OrderingGreater:
		return 1
	}
	return -9
}

// result encodes what a method returned.
func intResult(out []reflect.Value) (string, []int) {
	if len(out) == 0 {
		return "unit", nil
	}
	o := out[0]
	if m := o.MethodByName("IsSome"); m.IsValid() {
		if m.Call(nil)[0].Bool() {
			return "opt", num(getInt(o.MethodByName("Unwrap").Call(nil)[0]))
		}
		return "opt", []int{}
	}
	if x, ok := o.Interface().(gost.Ordering); ok {
		return "int", []int{ordering(x)}
	}
	if o.Kind() == reflect.Bool {
		return "bool", b2i(o.Bool())
	}
	return "val", num(getInt(o))
}

func (c *intComp) rowOne(o int, x, y *big.Int) (res int) {
	div := o%10 == 3 || o%10 == 4
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			res = 998
		}
	}()
	if div && o >= 10 && y.Sign() == 0 {
		return 0 // not specified: no call
	}
	c.t.set(c.p, x)
	out := c.call(intMethods[rowMethods[o]], c.t.val(y))
	k, v := intResult(out)
	switch {
	case k == "unit":
		return int(getInt(c.p.Elem()).Int64())
	case k == "opt" && len(v) == 0:
		return 999
	default:
		return int(unnum(v).Int64())
	}
}

func (c *intComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		c.n = a[0]
		c.t = intTypes[a[0]]
		c.p = reflect.New(c.t.t)
		c.t.set(c.p, unnum(a[1:]))
		return "unit", nil
	case "set":
		c.t.set(c.p, unnum(a))
		return "unit", nil
	case "min":
		return "val", num(getInt(reflect.ValueOf(c.t.cMin)))
	case "max":
		return "val", num(getInt(reflect.ValueOf(c.t.cMax)))
	case "row":
		x, keep := big.NewInt(int64(a[1])), getInt(c.p.Elem())
		v := []int{}
		lo, hi := c.t.min.Int64(), c.t.max.Int64()
		if a[0] == 60 || a[0] == 61 {
			lo = 0
		}
		for y := lo; y <= hi; y++ {
			v = append(v, c.rowOne(a[0], x, big.NewInt(y)))
		}
		c.t.set(c.p, keep)
		return "seq", v
	case "pow":
		return intResult(c.call("Pow", reflect.ValueOf(gost.U32(a[0]))))
	case "fromi":
		v := unnum(a)
		c.p.Elem().Set(reflect.ValueOf(gost.I128_FromI64(gost.I64(v.Int64()))))
		return "val", num(getInt(c.p.Elem()))
	case "fromu":
		v := gost.U64(unnum(a).Uint64())
		if c.t.signed {
			c.p.Elem().Set(reflect.ValueOf(gost.I128_FromU64(v)))
		} else {
			c.p.Elem().Set(reflect.ValueOf(gost.U128_FromU64(v)))
		}
		return "val", num(getInt(c.p.Elem()))
	case "text":
		a, b := c.call("ToString")[0].String(), c.call("Display")[0].String()
		if a != b {
			return "seq", append(byts(a), byts("|"+b)...)
		}
		return "seq", byts(a)
	case "abs", "ispos", "isneg":
		return intResult(c.call(intMethods[op]))
	case "neg":
		m := c.p.MethodByName("Neg")
		in := []reflect.Value{}
		for i := 0; i < m.Type().NumIn(); i++ { // the fixed-width types take an operand they ignore
			in = append(in, reflect.Zero(m.Type().In(i)))
		}
		return intResult(m.Call(in))
	}
	name := intMethods[op]
	if name == "" {
		bad("int op %s", op)
	}
	return intResult(c.call(name, c.t.val(unnum(a))))
}

func (t *intType) clampTo(x *big.Int) *big.Int {
	if x.Cmp(t.min) < 0 || x.Cmp(t.max) > 0 {
		m := new(big.Int).Mod(x, new(big.Int).Lsh(one, t.w))
		if m.Cmp(t.max) > 0 {
			m.Sub(m, new(big.Int).Lsh(one, t.w))
		}
		return m
	}
	return x
}

// draw picks operands where the interesting cases are: small, near the bounds,
// of any length, and near the places where sum or product meets a bound.
func (t *intType) draw(r *rand.Rand, x *big.Int) *big.Int {
	d := big.NewInt(int64(r.Intn(7) - 3))
	neg := func(y *big.Int) *big.Int {
		if t.signed && r.Intn(2) == 0 {
			return y.Neg(y)
		}
		return y
	}
	switch r.Intn(12) {
	case 10, 11: // halves of telling patterns
		h := uint(t.w) / 2
		half := func() *big.Int {
			p := []*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Lsh(one, h-1), new(big.Int).Sub(new(big.Int).Lsh(one, h-1), one),
				new(big.Int).Sub(new(big.Int).Lsh(one, h), one), new(big.Int).Lsh(one, uint(r.Intn(int(h)))),
				new(big.Int).Rand(r, new(big.Int).Lsh(one, uint(1+r.Intn(int(h))))), new(big.Int).Rand(r, new(big.Int).Lsh(one, h))}
			return p[r.Intn(len(p))]
		}
		y := new(big.Int).Or(new(big.Int).Lsh(half(), h), half())
		if t.signed && y.Bit(int(t.w)-1) == 1 {
			y.Sub(y, new(big.Int).Lsh(one, uint(t.w)))
		}
		return y
	case 0:
		return t.clampTo(new(big.Int).Add(t.min, d))
	case 1:
		return t.clampTo(new(big.Int).Add(t.max, d))
	case 2:
		return t.clampTo(big.NewInt(int64(r.Intn(25) - 12)))
	case 3:
		return t.clampTo(neg(new(big.Int).Add(new(big.Int).Lsh(one, uint(r.Intn(int(t.w)))), d)))
	case 4: // x + y near a bound
		b := t.max
		if r.Intn(2) == 0 {
			b = t.min
		}
		return t.clampTo(new(big.Int).Add(new(big.Int).Sub(b, x), d))
	case 5: // x - y near a bound
		b := t.max
		if r.Intn(2) == 0 {
			b = t.min
		}
		return t.clampTo(new(big.Int).Add(new(big.Int).Sub(x, b), d))
	case 6, 7: // x * y near a bound
		if x.Sign() != 0 {
			b := t.max
			if r.Intn(2) == 0 && t.signed {
				b = t.min
			}
			return t.clampTo(new(big.Int).Add(new(big.Int).Quo(b, x), d))
		}
		fallthrough
	default:
		y := new(big.Int).Rand(r, new(big.Int).Lsh(one, uint(1+r.Intn(int(t.w)))))
		return t.clampTo(neg(y))
	}
}

var arithOps = []string{"cadd", "csub", "cmul", "cdiv", "crem", "wadd", "wsub", "wmul", "wdiv", "sadd", "ssub", "smul", "sdiv",
	"add", "sub", "mul", "div", "rem", "absdiff", "addassign", "subassign", "mulassign", "divassign", "remassign", "abs", "neg", "pow", "set",
	"cmul", "smul", "wmul", "ispos", "isneg"}
var basicOps = []string{"add", "sub", "mul", "div", "addassign", "subassign", "mulassign", "divassign", "cmp", "eq", "text", "set"}
var wideOps = []string{"add", "sub", "mul", "div", "rem", "addassign", "subassign", "mulassign", "divassign", "remassign",
	"cmp", "eq", "text", "abs", "neg", "ispos", "isneg", "set", "div", "rem", "fromi", "fromu", "text"}

func (c *intComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		n := r.Intn(10)
		if flagVariant == "wide" {
			n = 10 + r.Intn(2)
		} else if flagVariant == "basic" {
			n = 12 + r.Intn(2)
		} else if flagVariant == "shift" {
			n = r.Intn(12)
		}
		t := intTypes[n]
		return Op{"new", append([]int{n}, num(t.draw(r, one))...)}
	}
	t := c.t
	x := getInt(c.p.Elem())
	y := t.draw(r, x)
	if step%6 == 0 {
		return Op{"set", num(y)}
	}
	if flagVariant == "shift" {
		n := big.NewInt(int64(r.Intn(int(t.w))))
		switch r.Intn(6) {
		case 0:
			n = big.NewInt(int64(t.w) + int64(r.Intn(int(t.w))))
		case 1:
			n = t.draw(r, x)
			n.Abs(n)
		}
		if n.Cmp(t.max) > 0 {
			n = t.max
		}
		return Op{[]string{"shl", "shr"}[r.Intn(2)], num(n)}
	}
	ops := arithOps
	if flagVariant == "basic" {
		ops = basicOps
		if r.Intn(10) == 0 {
			y = new(big.Int).Set(x)
		}
	}
	if flagVariant == "wide" {
		ops = wideOps
		if r.Intn(12) == 0 {
			y = new(big.Int).Set(x)
		}
	}
	op := ops[r.Intn(len(ops))]
	if flagVariant != "basic" && flagVariant != "wide" && x.CmpAbs(one) <= 0 && r.Intn(3) == 0 {
		op = "pow"
	}
	if step == length-1 && flagVariant == "wide" && r.Intn(2) == 0 { // panics end a history
		return Op{[]string{"div", "rem", "divassign", "remassign"}[r.Intn(4)], num(new(big.Int))}
	}
	switch op {
	case "wdiv", "sdiv", "div", "rem", "divassign", "remassign":
		if y.Sign() == 0 {
			y = big.NewInt(3)
		}
		if t.w == 128 && y.Cmp(big.NewInt(-1)) == 0 && x.Cmp(t.min) == 0 {
			y = big.NewInt(1)
		}
	case "abs", "neg", "ispos", "isneg":
		if !t.signed {
			return Op{"set", num(y)}
		}
		return Op{op, []int{}}
	case "text":
		return Op{op, []int{}}
	case "pow":
		n := r.Intn(6)
		if x.CmpAbs(one) <= 0 && r.Intn(3) > 0 { // every power fits: exponents of every size
			n = r.Intn(1 << (1 + uint(r.Intn(31))))
			if b := 1 << uint(r.Intn(31)); r.Intn(2) == 0 {
				n = b + r.Intn(2)
			}
			return Op{op, []int{n}}
		}
		switch r.Intn(4) {
		case 0:
			n = r.Intn(int(t.w) + 4)
		case 1: // just around the largest power that fits
			if x.CmpAbs(one) > 0 {
				n = int(t.w)/x.BitLen() + r.Intn(3) - 1
			}
		}
		if n < 0 {
			n = 0
		}
		return Op{op, []int{n}}
	case "fromi":
		if !t.signed {
			op = "fromu"
			y = intTypes[8].draw(r, one)
		} else {
			y = intTypes[3].draw(r, one)
		}
	case "fromu":
		y = intTypes[8].draw(r, one)
	}
	return Op{op, num(y)}
}
