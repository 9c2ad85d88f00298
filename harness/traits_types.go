package main

import (
	"fmt"

	"github.com/myyrakle/gost"
)

// Element types with every combination of own operations, for the component
// "traits": Clone or not; neither Eq nor Ord, Eq, both; Display or not.

func trCls(n int) int { return n / 10 % 5 }

func trCmp(a, b int) gost.Ordering {
	switch a, b := trCls(a), trCls(b); {
	case a > b:
		return gost.OrderingLess
	case a < b:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}

func trText(n int) gost.String { return gost.String(fmt.Sprintf("<%d>", n)) }

type el000 struct{ N int }

type el001 struct{ N int }

func (a el001) Display() gost.String { return trText(a.N) }

type el010 struct{ N int }

func (a el010) Eq(b el010) gost.Bool { return trCls(a.N) == trCls(b.N) }

type el011 struct{ N int }

func (a el011) Eq(b el011) gost.Bool { return trCls(a.N) == trCls(b.N) }
func (a el011) Display() gost.String { return trText(a.N) }

type el020 struct{ N int }

func (a el020) Eq(b el020) gost.Bool      { return trCls(a.N) == trCls(b.N) }
func (a el020) Cmp(b el020) gost.Ordering { return trCmp(a.N, b.N) }

type el021 struct{ N int }

func (a el021) Eq(b el021) gost.Bool      { return trCls(a.N) == trCls(b.N) }
func (a el021) Cmp(b el021) gost.Ordering { return trCmp(a.N, b.N) }
func (a el021) Display() gost.String      { return trText(a.N) }

type el100 struct{ N int }

func (a el100) Clone() el100 { return el100{a.N + 1} }

type el101 struct{ N int }

func (a el101) Clone() el101         { return el101{a.N + 1} }
func (a el101) Display() gost.String { return trText(a.N) }

type el110 struct{ N int }

func (a el110) Clone() el110         { return el110{a.N + 1} }
func (a el110) Eq(b el110) gost.Bool { return trCls(a.N) == trCls(b.N) }

type el111 struct{ N int }

func (a el111) Clone() el111         { return el111{a.N + 1} }
func (a el111) Eq(b el111) gost.Bool { return trCls(a.N) == trCls(b.N) }
func (a el111) Display() gost.String { return trText(a.N) }

type el120 struct{ N int }

func (a el120) Clone() el120              { return el120{a.N + 1} }
func (a el120) Eq(b el120) gost.Bool      { return trCls(a.N) == trCls(b.N) }
func (a el120) Cmp(b el120) gost.Ordering { return trCmp(a.N, b.N) }

type el121 struct{ N int }

func (a el121) Clone() el121              { return el121{a.N + 1} }
func (a el121) Eq(b el121) gost.Bool      { return trCls(a.N) == trCls(b.N) }
func (a el121) Cmp(b el121) gost.Ordering { return trCmp(a.N, b.N) }
func (a el121) Display() gost.String      { return trText(a.N) }

func trMake(kind, c, q, d int) *trBox {
	switch c*100 + q*10 + d {
	case 0:
		return newTr(kind, Codec[el000]{func(x int) el000 { return el000{x} }, func(x el000) int { return x.N }})
	case 1:
		return newTr(kind, Codec[el001]{func(x int) el001 { return el001{x} }, func(x el001) int { return x.N }})
	case 10:
		return newTr(kind, Codec[el010]{func(x int) el010 { return el010{x} }, func(x el010) int { return x.N }})
	case 11:
		return newTr(kind, Codec[el011]{func(x int) el011 { return el011{x} }, func(x el011) int { return x.N }})
	case 20:
		return newTrOrd(kind, Codec[el020]{func(x int) el020 { return el020{x} }, func(x el020) int { return x.N }})
	case 21:
		return newTrOrd(kind, Codec[el021]{func(x int) el021 { return el021{x} }, func(x el021) int { return x.N }})
	case 100:
		return newTr(kind, Codec[el100]{func(x int) el100 { return el100{x} }, func(x el100) int { return x.N }})
	case 101:
		return newTr(kind, Codec[el101]{func(x int) el101 { return el101{x} }, func(x el101) int { return x.N }})
	case 110:
		return newTr(kind, Codec[el110]{func(x int) el110 { return el110{x} }, func(x el110) int { return x.N }})
	case 111:
		return newTr(kind, Codec[el111]{func(x int) el111 { return el111{x} }, func(x el111) int { return x.N }})
	case 120:
		return newTrOrd(kind, Codec[el120]{func(x int) el120 { return el120{x} }, func(x el120) int { return x.N }})
	case 121:
		return newTrOrd(kind, Codec[el121]{func(x int) el121 { return el121{x} }, func(x el121) int { return x.N }})
	}
	bad("no element type %d %d %d", c, q, d)
	return nil
}
