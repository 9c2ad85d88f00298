package main

import (
	"fmt"
	"strconv"

	"github.com/myyrakle/gost"
)

// Item is an element whose order looks at K only: elements that compare equal
// remain distinguishable by Tag, which makes stability and "which one was
// kept" observable. In traces an item is the number K*100+Tag.
type Item struct{ K, Tag int }

func (a Item) Cmp(b Item) gost.Ordering {
	if a.K < b.K {
		return gost.OrderingLess
	} else if a.K > b.K {
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}
func (a Item) Eq(b Item) gost.Bool   { return a.K == b.K && a.Tag == b.Tag }
func (a Item) Clone() Item           { return a }
func (a Item) Display() gost.String  { return gost.String(strconv.Itoa(a.K*100 + a.Tag)) }
func (a Item) Debug() gost.String    { return a.Display() }
func (a Item) ToString() gost.String { return a.Display() }

// Codec maps the specification's integers to Go element types and back.
type Codec[T any] struct {
	Enc func(int) T
	Dec func(T) int
}

var itemCodec = Codec[Item]{
	Enc: func(i int) Item { return Item{i / 100, i % 100} },
	Dec: func(x Item) int { return x.K*100 + x.Tag },
}

var i32Codec = Codec[gost.I32]{
	Enc: func(i int) gost.I32 { return gost.I32(i) },
	Dec: func(x gost.I32) int { return int(x) },
}

var u64Codec = Codec[gost.U64]{
	Enc: func(i int) gost.U64 { return gost.U64(i) },
	Dec: func(x gost.U64) int { return int(x) },
}

// strings of fixed width so that their order is the numeric one; 0 is "".
var strCodec = Codec[gost.String]{
	Enc: func(i int) gost.String {
		if i == 0 {
			return ""
		}
		return gost.String(fmt.Sprintf("%08d", i))
	},
	Dec: func(x gost.String) int {
		if x == "" {
			return 0
		}
		n, err := strconv.Atoi(string(x))
		if err != nil {
			return -999 // a value no specification allows
		}
		return n
	},
}

// Box elements are pointers; 0 is the nil one.
type Box struct{ n int }

func (a *Box) Eq(b *Box) gost.Bool { return decBox(a) == decBox(b) }
func (a *Box) Clone() *Box         { return copyBox(a) }

var boxCodec = Codec[*Box]{
	Enc: func(i int) *Box {
		if i == 0 {
			return nil
		}
		return &Box{i}
	},
	Dec: decBox,
}

func copyBox(x *Box) *Box {
	if x == nil {
		return nil
	}
	return &Box{x.n}
}

func decBox(x *Box) int {
	if x == nil {
		return 0
	}
	return x.n
}

func decAll[T any](c Codec[T], xs []T) []int {
	out := make([]int, len(xs))
	for i, x := range xs {
		out[i] = c.Dec(x)
	}
	return out
}

func optOf[T any](c Codec[T], o gost.Option[T]) (string, []int) {
	if o.IsSome() {
		return "opt", []int{c.Dec(o.Unwrap())}
	}
	return "opt", []int{}
}

func optInts[T any](c Codec[T], o gost.Option[T]) []int {
	_, v := optOf(c, o)
	return v
}

func optIdx(o gost.Option[gost.USize]) (string, []int) {
	if o.IsSome() {
		return "opt", []int{int(o.Unwrap())}
	}
	return "opt", []int{}
}

// drain takes at most limit elements by Next.
func drain[T any](c Codec[T], it gost.Iterator[T], limit int) []int {
	out := []int{}
	for i := 0; i < limit; i++ {
		o := it.Next()
		if !o.IsSome() {
			break
		}
		out = append(out, c.Dec(o.Unwrap()))
	}
	return out
}
