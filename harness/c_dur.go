package main

import (
	"math/big"
	"math/rand"
	"reflect"

	"github.com/myyrakle/gost"
)

type durComp struct{ d gost.Duration }

func bnum(x any) []int { return num(getInt(reflect.ValueOf(x))) }

func (c *durComp) State() [][]int {
	return [][]int{bnum(c.d.AsSecs()), bnum(c.d.SubsecNanos())}
}

func (c *durComp) Exec(op string, a []int) (string, []int) {
	val := func(x any) (string, []int) { return "val", bnum(x) }
	arg := func() gost.U64 { return gost.U64(unnum(a).Uint64()) }
	switch op {
	case "new":
		c.d = gost.DurationNew(0, 0)
	case "dnew":
		c.d = gost.DurationNew(arg(), gost.U32(unnum(a[12:]).Uint64()))
	case "fromsecs":
		c.d = gost.DurationFromSecs(arg())
	case "frommillis":
		c.d = gost.DurationFromMillis(arg())
	case "frommicros":
		c.d = gost.DurationFromMicros(arg())
	case "fromnanos":
		c.d = gost.DurationFromNanos(arg())
	case "iszero":
		return "bool", b2i(c.d.IsZero())
	case "assecs":
		return val(c.d.AsSecs())
	case "submillis":
		return val(c.d.SubsecMillis())
	case "submicros":
		return val(c.d.SubsecMicros())
	case "subnanos":
		return val(c.d.SubsecNanos())
	case "asmillis":
		return val(c.d.AsMillis())
	case "asmicros":
		return val(c.d.AsMicros())
	case "asnanos":
		return val(c.d.AsNanos())
	default:
		bad("duration op %s", op)
	}
	return "unit", nil
}

func (c *durComp) Gen(r *rand.Rand, step, length int) Op {
	t := intTypes[8]
	draw := func() *big.Int {
		x := t.draw(r, one)
		if r.Intn(3) == 0 {
			unit := big.NewInt([]int64{1000, 1000000, 1000000000}[r.Intn(3)])
			x = new(big.Int).Rsh(x, uint(r.Intn(64)))
			x.Mul(x, unit).Add(x, big.NewInt(int64(r.Intn(5)-2)))
			x = t.clampTo(x)
		}
		return x
	}
	if step == 0 {
		return Op{"new", []int{}}
	}
	step--
	if step%9 == 0 {
		if step == 0 || r.Intn(2) == 0 {
			n := intTypes[7].draw(r, one)
			if r.Intn(2) == 0 {
				n = big.NewInt(int64(r.Intn(5))*1000000000 + int64(r.Intn(2))*int64(r.Intn(1000))*1000000 + int64(r.Intn(5)-2))
				n = intTypes[7].clampTo(n)
			}
			s := draw()
			if step < length-10 && s.Cmp(new(big.Int).Sub(t.max, big.NewInt(10))) > 0 {
				s.Sub(s, big.NewInt(10)) // a panic would end the history
			}
			return Op{"dnew", append(num(s), num(n)...)}
		}
		return Op{[]string{"fromsecs", "frommillis", "frommicros", "fromnanos"}[r.Intn(4)], num(draw())}
	}
	return Op{[]string{"iszero", "assecs", "submillis", "submicros", "subnanos", "asmillis", "asmicros", "asnanos"}[step%9-1], []int{}}
}
