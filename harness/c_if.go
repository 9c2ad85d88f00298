package main

import (
	"math/rand"

	"github.com/myyrakle/gost"
)

// ifAny builds conditional chains over values of several types; the value 0
// stands for the type's zero value (a nil pointer, an empty string, ...).
type ifAny struct{ Comp }

func (c *ifAny) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		switch a[0] {
		case 0:
			c.Comp = &ifComp[gost.I32]{enc: func(v int) gost.I32 { return gost.I32(v) }, dec: func(x gost.I32) int { return int(x) }}
		case 1:
			c.Comp = &ifComp[gost.String]{enc: strCodec.Enc, dec: strCodec.Dec}
		case 2:
			c.Comp = &ifComp[*int]{enc: func(v int) *int {
				if v == 0 {
					return nil
				}
				return &v
			}, dec: func(p *int) int {
				if p == nil {
					return 0
				}
				return *p
			}}
		case 3:
			c.Comp = &ifComp[any]{enc: func(v int) any {
				if v == 0 {
					return nil
				}
				return gost.I32(v)
			}, dec: func(x any) int {
				if x == nil {
					return 0
				}
				return int(x.(gost.I32))
			}}
		case 4:
			c.Comp = &ifComp[gost.Option[gost.I32]]{enc: func(v int) gost.Option[gost.I32] {
				if v == 0 {
					return gost.None[gost.I32]()
				}
				return gost.Some(gost.I32(v))
			}, dec: func(o gost.Option[gost.I32]) int {
				if o.IsNone() {
					return 0
				}
				return int(o.Unwrap())
			}}
		}
	}
	return c.Comp.Exec(op, a)
}

func (c *ifAny) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{r.Intn(5)}}
	}
	return c.Comp.Gen(r, step, length)
}

type ifComp[T any] struct {
	enc     func(int) T
	dec     func(T) int
	ctx     chain[T]
	n       int
	log     []int
	closed  bool
	planned int
	bias    int
	kept    *kept[T]
}

// kept is a chain kept unfinished, to be continued more than once.
type kept[T any] struct {
	ctx chain[T]
	n   int
	log []int
}

// chain is what a chain under construction offers.
type chain[T any] struct {
	elseIf func(gost.Bool, func() T) chain[T]
	els    func(func() T) T
}

type unfinished[T, X any] interface {
	ElseIf(gost.Bool, func() T) X
	Else(func() T) T
}

func wrap[T any, X unfinished[T, X]](x X) chain[T] {
	return chain[T]{func(b gost.Bool, g func() T) chain[T] { return wrap[T](x.ElseIf(b, g)) }, x.Else}
}

func start[T any](cond gost.Bool, f func() T) chain[T] { return wrap[T](gost.If(cond, f)) }

func (c *ifComp[T]) State() [][]int { return [][]int{append([]int{}, c.log...)} }

func (c *ifComp[T]) branch(v int) func() T {
	c.n++
	i := c.n
	return func() T {
		c.log = append(c.log, i)
		return c.enc(v)
	}
}

func (c *ifComp[T]) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		c.n, c.log = 0, nil
	case "if":
		c.ctx = start(a[0] == 1, c.branch(a[1]))
	case "elseif":
		c.ctx = c.ctx.elseIf(a[0] == 1, c.branch(a[1]))
	case "else":
		c.closed = true
		return "int", []int{c.dec(c.ctx.els(c.branch(a[0])))}
	case "keep":
		c.kept = &kept[T]{c.ctx, c.n, append([]int{}, c.log...)}
	case "back":
		c.ctx, c.n, c.log = c.kept.ctx, c.kept.n, append([]int{}, c.kept.log...)
		c.closed = false
	case "nest":
		c.log = nil
		m := a[0]
		cond := func(i, j int) gost.Bool { return a[1+i*m+j] == 1 }
		inner := func(o int) func() int {
			return func() int {
				c.log = append(c.log, o)
				place := func(i int) func() int {
					return func() int { c.log = append(c.log, i); return 10*o + i }
				}
				x := start(cond(o, 0), place(1))
				for j := 1; j < m; j++ {
					x = x.elseIf(cond(o, j), place(j+1))
				}
				return x.els(place(m + 1))
			}
		}
		x := start(cond(0, 0), inner(1))
		for j := 1; j < m; j++ {
			x = x.elseIf(cond(0, j), inner(j+1))
		}
		return "int", []int{x.els(inner(m + 1))}
	}
	return "unit", nil
}

func (c *ifComp[T]) Gen(r *rand.Rand, step, length int) Op {
	if c.closed {
		if c.kept != nil && r.Intn(3) > 0 {
			c.planned = c.kept.n + r.Intn(4)
			return Op{"back", nil}
		}
		return Op{"new", []int{r.Intn(5)}}
	}
	if c.n > 0 && r.Intn(6) == 0 {
		if c.kept != nil && r.Intn(3) == 0 {
			return Op{"back", nil}
		}
		return Op{"keep", nil}
	}
	if c.n == 0 {
		c.planned = 1 + r.Intn(r.Intn(40)+1)
		c.bias = 1 + r.Intn(12)
		if r.Intn(8) == 0 {
			m := 1 + r.Intn(4)
			a := []int{m}
			for i := 0; i < m*(m+2); i++ {
				a = append(a, r.Intn(2)*r.Intn(2))
			}
			c.closed = true
			return Op{"nest", a}
		}
	}
	v := r.Intn(3) * r.Intn(1000)
	if c.n >= c.planned {
		return Op{"else", []int{v}}
	}
	cond := 0
	if r.Intn(c.bias) == 0 {
		cond = 1
	}
	if c.n == 0 {
		return Op{"if", []int{cond, v}}
	}
	return Op{"elseif", []int{cond, v}}
}
