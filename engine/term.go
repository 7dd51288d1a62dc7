package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed bit-vector (width 1..64) and boolean (width 0) expressions.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat  // a high, b low
	OExtract // v = lo, width gives size
	OZExt
	OSExt
	OIte
	// floating point on bit patterns
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFNeg
	OF32to64
	OF64to32
	OSIToF // to float of width w
	OUIToF
	OFToSI // to int of width w
	OFToUI
)

var opNames = map[Op]string{OAnd: "and", OOr: "or", ONot: "not", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OIte: "ite"}

type Term struct {
	op      Op
	w       uint8
	xd      uint8 // xor depth (saturating), triggers linear normalisation of equalities
	id      int32
	v       uint64 // constant value / extract low bit
	a, b, c *Term
	name    string
	lo, hi  uint64 // unsigned interval (bit-vectors only)
}

type tkey struct {
	op      Op
	w       uint8
	v       uint64
	a, b, c int32
}

type TM struct {
	tab      map[tkey]*Term
	vars     map[varKey]*Term
	next     int32
	small    [65][]*Term
	True     *Term
	False    *Term
	eqForms  map[string]*Term
	byID     map[int32]*Term
	rows     map[int32][]uint64 // parity terms and their atoms
	linStats struct{ zero, rep, n int }
	rndState uint64
	lin      *linCtx
	pending  []*Term // equalities decided by the linear normal form, to be confirmed by the solver
}

func NewTM() *TM {
	tm := &TM{tab: map[tkey]*Term{}, vars: map[varKey]*Term{}, eqForms: map[string]*Term{}, byID: map[int32]*Term{}, rows: map[int32][]uint64{}, next: 1, rndState: 88172645463325252}
	tm.False = tm.mk(OConst, 0, 0, nil, nil, nil)
	tm.True = tm.mk(OConst, 0, 1, nil, nil, nil)
	for _, w := range []int{8, 16, 32, 64} {
		n := 256
		if w == 64 {
			n = 2048
		}
		tm.small[w] = make([]*Term, n)
		for i := 0; i < n; i++ {
			tm.small[w][i] = tm.mk(OConst, uint8(w), uint64(i), nil, nil, nil)
		}
	}
	return tm
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tm *TM) mk(op Op, w uint8, v uint64, a, b, c *Term) *Term {
	k := tkey{op, w, v, tid(a), tid(b), tid(c)}
	if t, ok := tm.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, v: v, a: a, b: b, c: c, id: tm.next}
	tm.next++
	if w > 0 {
		tm.interval(t)
	}
	xd := 0
	for _, x := range []*Term{a, b, c} {
		if x != nil && int(x.xd) > xd {
			xd = int(x.xd)
		}
	}
	if op == OBXor && xd < 255 {
		xd++
	}
	t.xd = uint8(xd)
	tm.tab[k] = t
	return t
}

func (tm *TM) interval(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.v, t.v
	case OZExt:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OConcat:
		t.lo = t.a.lo<<t.b.w | t.b.lo
		t.hi = t.a.hi<<t.b.w | t.b.hi
		if t.a.lo != t.a.hi {
			t.lo = t.a.lo << t.b.w
			t.hi = t.a.hi<<t.b.w | mask(t.b.w)
		}
	case OAdd:
		s, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && s <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, s
		} else if t.b.op == OConst {
			// x + c with constant wrap-around: exact when every x wraps
			neg := (-t.b.v) & m
			if t.a.lo >= neg && neg != 0 {
				t.lo, t.hi = t.a.lo-neg, t.a.hi-neg
			}
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OBAnd:
		t.hi = min(t.a.hi, t.b.hi)
	case OBOr, OBXor:
		n := bits.Len64(t.a.hi | t.b.hi)
		t.hi = mask(uint8(n))
		if t.op == OBOr {
			t.lo = max(t.a.lo, t.b.lo)
		}
	case OUDiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OURem:
		if t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		}
	case OLshr:
		if t.b.op == OConst && t.b.v < 64 {
			t.lo, t.hi = t.a.lo>>t.b.v, t.a.hi>>t.b.v
		} else {
			t.hi = t.a.hi
		}
	case OExtract:
		if t.v == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OIte:
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	}
}

func (tm *TM) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if s := tm.small[w]; v < uint64(len(s)) {
		return s[v]
	}
	return tm.mk(OConst, w, v, nil, nil, nil)
}

func (tm *TM) Bool(b bool) *Term {
	if b {
		return tm.True
	}
	return tm.False
}

// varKey names an input; inputs of paths that differ in a choice may share a name at different widths.
type varKey struct {
	name string
	w    uint8
}

func (tm *TM) Var(name string, w uint8) *Term {
	if t, ok := tm.vars[varKey{name, w}]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: tm.next}
	tm.next++
	if w > 0 {
		t.hi = mask(w)
	}
	tm.vars[varKey{name, w}] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.v == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.v == 0 }

func (tm *TM) Not(a *Term) *Term {
	if a.isConst() {
		return tm.Bool(a.v == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return tm.mk(ONot, 0, 0, a, nil, nil)
}

func (tm *TM) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tm.False
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if tm.Not(a) == b {
		return tm.False
	}
	if y, l1, h1, ok := rangeLit(a); ok {
		if y2, l2, h2, ok := rangeLit(b); ok && y == y2 {
			switch {
			case h1 < l2 || h2 < l1:
				return tm.False
			case l1 >= l2 && h1 <= h2:
				return a
			case l2 >= l1 && h2 <= h1:
				return b
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tm.mk(OAnd, 0, 0, a, b, nil)
}

// rangeLit: the term says that y lies in lo..hi.
func rangeLit(t *Term) (y *Term, lo, hi uint64, ok bool) {
	neg := false
	if t.op == ONot {
		neg = true
		t = t.a
	}
	switch {
	case t.op == OUlt && t.b.isConst() && t.b.v > 0:
		if neg {
			return t.a, t.b.v, mask(t.a.w), true
		}
		return t.a, 0, t.b.v - 1, true
	case t.op == OEq && t.b.w > 0 && t.b.isConst():
		if !neg {
			return t.a, t.b.v, t.b.v, true
		}
		if t.b.v == 0 {
			return t.a, 1, mask(t.a.w), true
		}
		if t.b.v == mask(t.a.w) {
			return t.a, 0, t.b.v - 1, true
		}
	}
	return nil, 0, 0, false
}

func (tm *TM) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tm.True
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if tm.Not(a) == b {
		return tm.True
	}
	if y, l1, h1, ok := rangeLit(a); ok {
		if y2, l2, h2, ok := rangeLit(b); ok && y == y2 {
			switch {
			case l1 <= l2 && h1 >= h2:
				return a
			case l2 <= l1 && h2 >= h1:
				return b
			case l1 == 0 && h2 == mask(y.w) && h1 >= l2-1, l2 == 0 && h1 == mask(y.w) && h2 >= l1-1:
				return tm.True
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tm.mk(OOr, 0, 0, a, b, nil)
}

func (tm *TM) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.v == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		c, a, b = c.a, b, a
	}
	if a.w == 0 {
		if a.isTrue() {
			return tm.Or(c, b)
		}
		if a.isFalse() {
			return tm.And(tm.Not(c), b)
		}
		if b.isTrue() {
			return tm.Or(tm.Not(c), a)
		}
		if b.isFalse() {
			return tm.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return tm.mk(OIte, a.w, 0, c, a, b)
}

func (tm *TM) Eq(a, b *Term) *Term {
	if a == b {
		return tm.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tm.False // hash-consed, distinct
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tm.Not(a)
		}
		if a == tm.Not(b) {
			return tm.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tm.mk(OEq, 0, 0, a, b, nil)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tm.False
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if a.a.w == 1 && a.a.xd >= 6 && b.v <= 1 && !a.a.isConst() {
				return tm.mk(OEq, 0, 0, a.a, tm.Const(1, b.v), nil) // a single bit decides something: its parity form is not needed yet
			}
			return tm.Eq(a.a, tm.Const(a.a.w, b.v))
		case OConcat:
			return tm.And(tm.Eq(a.a, tm.Const(a.a.w, b.v>>a.b.w)), tm.Eq(a.b, tm.Const(a.b.w, b.v)))
		case OAdd:
			if a.b.isConst() {
				return tm.Eq(a.a, tm.Const(a.w, b.v-a.b.v))
			}
		case OBXor:
			if a.b.isConst() {
				return tm.Eq(a.a, tm.Const(a.w, b.v^a.b.v))
			}
		case OBNot:
			return tm.Eq(a.a, tm.Const(a.w, ^b.v))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				if a.b == b {
					return a.a
				}
				if a.c == b {
					return tm.Not(a.a)
				}
				return tm.False
			}
			if a.b.isConst() {
				if a.b == b {
					return tm.Or(a.a, tm.Eq(a.c, b))
				}
				return tm.And(tm.Not(a.a), tm.Eq(a.c, b))
			}
			if a.c.isConst() {
				if a.c == b {
					return tm.Or(tm.Not(a.a), tm.Eq(a.b, b))
				}
				return tm.And(a.a, tm.Eq(a.b, b))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt {
			x, y := a.a, b.a
			if x.w < y.w {
				x = tm.ZExt(x, y.w)
			} else if y.w < x.w {
				y = tm.ZExt(y, x.w)
			}
			return tm.Eq(x, y)
		}
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w && a.xd < 6 && b.xd < 6 {
			return tm.And(tm.Eq(a.a, b.a), tm.Eq(a.b, b.b))
		}
		if a.op == OConcat && a.xd < 6 && plainBits(b) {
			return tm.eqParts(a, b)
		}
		if b.op == OConcat && b.xd < 6 && plainBits(a) {
			return tm.eqParts(b, a)
		}
	}
	if a.xd >= 6 || b.xd >= 6 {
		if r := tm.linEq(a, b); r != nil {
			return r
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tm.mk(OEq, 0, 0, a, b, nil)
}

func plainBits(t *Term) bool { return t.op == OVar || t.op == OExtract && t.a.op == OVar }

// eqParts compares the pieces a is put together from with the bits b of an input, constants byte by byte.
func (tm *TM) eqParts(a, b *Term) *Term {
	switch {
	case a.op == OConcat:
		return tm.And(tm.eqParts(a.a, tm.Extract(b, a.b.w, a.a.w)), tm.eqParts(a.b, tm.Extract(b, 0, a.b.w)))
	case a.isConst() && a.w > 8 && a.w%8 == 0:
		r := tm.True
		for k := uint8(0); k < a.w; k += 8 {
			r = tm.And(r, tm.Eq(tm.Extract(b, k, 8), tm.Const(8, a.v>>k)))
		}
		return r
	}
	return tm.Eq(a, b)
}

func signedNonNeg(t *Term) bool { return t.hi <= mask(t.w)>>1 }

func (tm *TM) Ult(a, b *Term) *Term {
	if a == b {
		return tm.False
	}
	if a.hi < b.lo {
		return tm.True
	}
	if a.lo >= b.hi {
		return tm.False
	}
	if b.isConst() {
		if b.v == 1 {
			return tm.Eq(a, tm.Const(a.w, 0))
		}
		if b.v == mask(b.w) {
			return tm.Not(tm.Eq(a, b))
		}
		if a.op == OZExt {
			return tm.Ult(a.a, tm.Const(a.a.w, b.v)) // b.v <= a.hi here
		}
		if a.op == OIte && a.c.isConst() {
			if a.c.v < b.v {
				return tm.Or(tm.Not(a.a), tm.Ult(a.b, b))
			}
			return tm.And(a.a, tm.Ult(a.b, b))
		}
		if a.op == OIte && a.b.isConst() {
			if a.b.v < b.v {
				return tm.Or(a.a, tm.Ult(a.c, b))
			}
			return tm.And(tm.Not(a.a), tm.Ult(a.c, b))
		}
		if a.op == OAdd && a.b.isConst() && noWrapAdd(a) && b.v >= a.b.v {
			return tm.Ult(a.a, tm.Const(a.w, b.v-a.b.v))
		}
	}
	if a.isConst() {
		if a.v == 0 {
			return tm.Not(tm.Eq(b, tm.Const(b.w, 0)))
		}
		if b.op == OZExt && a.v <= mask(b.a.w) {
			return tm.Ult(tm.Const(b.a.w, a.v), b.a)
		}
		if b.op == OAdd && b.b.isConst() && noWrapAdd(b) {
			if a.v >= b.b.v {
				return tm.Ult(tm.Const(a.w, a.v-b.b.v), b.a)
			}
		}
		if a.v+1 == b.hi {
			return tm.Eq(b, tm.Const(b.w, b.hi))
		}
		// canonical form: k < x  <=>  not (x < k+1)
		if a.v < mask(a.w) {
			return tm.Not(tm.Ult(b, tm.Const(a.w, a.v+1)))
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return tm.Ult(a.a, b.a)
	}
	return tm.mk(OUlt, 0, 0, a, b, nil)
}

func noWrapAdd(t *Term) bool {
	s, c := bits.Add64(t.a.hi, t.b.hi, 0)
	return c == 0 && s <= mask(t.w)
}

func (tm *TM) Ule(a, b *Term) *Term { return tm.Not(tm.Ult(b, a)) }

func toS(v uint64, w uint8) int64 { return int64(v<<(64-w)) >> (64 - w) }

func (tm *TM) Slt(a, b *Term) *Term {
	if a == b {
		return tm.False
	}
	if a.isConst() && b.isConst() {
		return tm.Bool(toS(a.v, a.w) < toS(b.v, b.w))
	}
	an, bn := signedNonNeg(a), signedNonNeg(b)
	if an && bn {
		return tm.Ult(a, b)
	}
	aneg := a.lo > mask(a.w)>>1
	bneg := b.lo > mask(b.w)>>1
	if an && bneg {
		return tm.False
	}
	if aneg && bn {
		return tm.True
	}
	if aneg && bneg {
		return tm.Ult(a, b)
	}
	return tm.mk(OSlt, 0, 0, a, b, nil)
}
func (tm *TM) Sle(a, b *Term) *Term { return tm.Not(tm.Slt(b, a)) }

func (tm *TM) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.w, a.v+b.v)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.v == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return tm.Add(a.a, tm.Const(a.w, a.b.v+b.v))
		}
	} else {
		// hoist constants: (x + c) + y => (x + y) + c
		if a.op == OAdd && a.b.isConst() {
			return tm.Add(tm.Add(a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isConst() {
			return tm.Add(tm.Add(a, b.a), b.b)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tm.mk(OAdd, a.w, 0, a, b, nil)
}

func (tm *TM) Sub(a, b *Term) *Term {
	if a == b {
		return tm.Const(a.w, 0)
	}
	if b.isConst() {
		return tm.Add(a, tm.Const(a.w, -b.v))
	}
	if a.op == OAdd && a.b.isConst() {
		return tm.Add(tm.Sub(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isConst() {
		return tm.Add(tm.Sub(a, b.a), tm.Const(a.w, -b.b.v))
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	return tm.mk(OSub, a.w, 0, a, b, nil)
}

func (tm *TM) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tm.Const(a.w, a.v*b.v)
		}
		if b.v == 0 {
			return b
		}
		if b.v == 1 {
			return a
		}
		if b.v&(b.v-1) == 0 {
			return tm.Shl(a, tm.Const(a.w, uint64(bits.TrailingZeros64(b.v))))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tm.mk(OMul, a.w, 0, a, b, nil)
}

func (tm *TM) DivRem(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.v != 0 {
		switch op {
		case OUDiv:
			return tm.Const(a.w, a.v/b.v)
		case OURem:
			return tm.Const(a.w, a.v%b.v)
		case OSDiv:
			x, y := toS(a.v, a.w), toS(b.v, b.w)
			if y == -1 {
				return tm.Const(a.w, uint64(-x))
			}
			return tm.Const(a.w, uint64(x/y))
		case OSRem:
			x, y := toS(a.v, a.w), toS(b.v, b.w)
			if y == -1 {
				return tm.Const(a.w, 0)
			}
			return tm.Const(a.w, uint64(x%y))
		}
	}
	if (op == OSDiv || op == OSRem) && signedNonNeg(a) && signedNonNeg(b) {
		if op == OSDiv {
			return tm.DivRem(OUDiv, a, b)
		}
		return tm.DivRem(OURem, a, b)
	}
	if b.isConst() && b.v != 0 && b.v&(b.v-1) == 0 {
		k := uint64(bits.TrailingZeros64(b.v))
		if op == OUDiv {
			return tm.Lshr(a, tm.Const(a.w, k))
		}
		if op == OURem {
			return tm.BAnd(a, tm.Const(a.w, b.v-1))
		}
	}
	return tm.mk(op, a.w, 0, a, b, nil)
}

func (tm *TM) BNot(a *Term) *Term {
	if a.isConst() {
		return tm.Const(a.w, ^a.v)
	}
	if a.op == OBNot {
		return a.a
	}
	return tm.mk(OBNot, a.w, 0, a, nil, nil)
}

// pieces: a bit-vector seen as a concatenation, least significant first.
type piece struct {
	t *Term // nil: zero constant
	w uint8
}

func (tm *TM) pieces(t *Term, out []piece) []piece {
	switch t.op {
	case OConst:
		// split the constant into zero / non-zero byte-ish runs: keep as a single piece unless zero
		if t.v == 0 {
			return append(out, piece{nil, t.w})
		}
		// strip trailing and leading zeros
		tz := uint8(bits.TrailingZeros64(t.v))
		top := uint8(bits.Len64(t.v))
		if tz > 0 {
			out = append(out, piece{nil, tz})
		}
		out = append(out, piece{tm.Const(top-tz, t.v>>tz), top - tz})
		if top < t.w {
			out = append(out, piece{nil, t.w - top})
		}
		return out
	case OZExt:
		out = tm.pieces(t.a, out)
		return append(out, piece{nil, t.w - t.a.w})
	case OConcat:
		out = tm.pieces(t.b, out)
		return tm.pieces(t.a, out)
	}
	return append(out, piece{t, t.w})
}

func (tm *TM) fromPieces(ps []piece) *Term {
	var r *Term
	// build from most significant down, merging zero runs
	for i := len(ps) - 1; i >= 0; i-- {
		w := ps[i].w
		if w == 0 {
			continue
		}
		t := ps[i].t
		if t == nil {
			t = tm.Const(w, 0)
		}
		if r == nil {
			r = t
		} else {
			r = tm.Concat(r, t)
		}
	}
	return r
}

// splitPieces cuts pieces so that boundaries include those of the other list.
func (tm *TM) alignPieces(a, b []piece) ([]piece, []piece) {
	var ra, rb []piece
	i, j := 0, 0
	var oa, ob uint8
	for i < len(a) && j < len(b) {
		la, lb := a[i].w-oa, b[j].w-ob
		n := min(la, lb)
		cut := func(p piece, o uint8) piece {
			if p.t == nil {
				return piece{nil, n}
			}
			t := tm.Extract(p.t, o, n)
			if t.isConst() && t.v == 0 {
				t = nil
			}
			return piece{t, n}
		}
		ra = append(ra, cut(a[i], oa))
		rb = append(rb, cut(b[j], ob))
		oa += n
		ob += n
		if oa == a[i].w {
			i++
			oa = 0
		}
		if ob == b[j].w {
			j++
			ob = 0
		}
	}
	return ra, rb
}

func hasZeroPiece(ps []piece) bool {
	for _, p := range ps {
		if p.t == nil {
			return true
		}
	}
	return false
}

func (tm *TM) BOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.w, a.v|b.v)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.v == 0 {
		return a
	}
	if b.isConst() && b.v == mask(b.w) {
		return b
	}
	if r := tm.disjointMerge(a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tm.mk(OBOr, a.w, 0, a, b, nil)
}

func (tm *TM) disjointMerge(a, b *Term) *Term {
	pa := tm.pieces(a, nil)
	pb := tm.pieces(b, nil)
	if hasZeroPiece(pa) && hasZeroPiece(pb) {
		xa, xb := tm.alignPieces(pa, pb)
		for i := range xa {
			if xa[i].t != nil && xb[i].t != nil {
				return nil
			}
		}
		for i := range xa {
			if xa[i].t == nil {
				xa[i] = xb[i]
			}
		}
		return tm.fromPieces(xa)
	}
	return nil
}

func (tm *TM) BXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.w, a.v^b.v)
	}
	if a == b {
		return tm.Const(a.w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.v == 0 {
			return a
		}
		if b.v == mask(b.w) {
			return tm.BNot(a)
		}
		if a.op == OBXor && a.b.isConst() {
			return tm.BXor(a.a, tm.Const(a.w, a.b.v^b.v))
		}
	} else {
		if a.op == OBXor {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if b.op == OBXor {
			if b.a == a {
				return b.b
			}
			if b.b == a {
				return b.a
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	if r := tm.disjointMerge(a, b); r != nil {
		return r
	}
	return tm.mk(OBXor, a.w, 0, a, b, nil)
}

func (tm *TM) BAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.w, a.v&b.v)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.v == 0 {
			return b
		}
		if b.v == mask(b.w) {
			return a
		}
		// contiguous mask: extract + zero padding
		tz := uint8(bits.TrailingZeros64(b.v))
		run := b.v >> tz
		if run&(run+1) == 0 {
			n := uint8(bits.Len64(run))
			ps := []piece{{nil, tz}, {tm.Extract(a, tz, n), n}, {nil, a.w - tz - n}}
			return tm.fromPieces(ps)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tm.mk(OBAnd, a.w, 0, a, b, nil)
}

// Shl etc. with SMT semantics; shift amount has the same width.
func (tm *TM) Shl(a, s *Term) *Term {
	if s.isConst() {
		if s.v >= uint64(a.w) {
			return tm.Const(a.w, 0)
		}
		if s.v == 0 {
			return a
		}
		k := uint8(s.v)
		return tm.Concat(tm.Extract(a, 0, a.w-k), tm.Const(k, 0))
	}
	if a.isConst() && a.v == 0 {
		return a
	}
	return tm.mk(OShl, a.w, 0, a, s, nil)
}

func (tm *TM) Lshr(a, s *Term) *Term {
	if s.isConst() {
		if s.v >= uint64(a.w) {
			return tm.Const(a.w, 0)
		}
		if s.v == 0 {
			return a
		}
		k := uint8(s.v)
		return tm.ZExt(tm.Extract(a, k, a.w-k), a.w)
	}
	if a.isConst() && a.v == 0 {
		return a
	}
	return tm.mk(OLshr, a.w, 0, a, s, nil)
}

func (tm *TM) Ashr(a, s *Term) *Term {
	if signedNonNeg(a) {
		return tm.Lshr(a, s)
	}
	if s.isConst() {
		k := s.v
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if k == 0 {
			return a
		}
		return tm.SExt(tm.Extract(a, uint8(k), a.w-uint8(k)), a.w)
	}
	return tm.mk(OAshr, a.w, 0, a, s, nil)
}

func (tm *TM) Concat(a, b *Term) *Term {
	if int(a.w)+int(b.w) > 64 {
		panic("concat too wide")
	}
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return tm.Const(w, a.v<<b.w|b.v)
	}
	if a.isConst() && a.v == 0 {
		return tm.ZExt(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.v == b.v+uint64(b.w) {
		return tm.Extract(a.a, uint8(b.v), w)
	}
	// right-nest: concat(concat(x,y), b) => concat(x, concat(y,b))
	if a.op == OConcat {
		return tm.Concat(a.a, tm.Concat(a.b, b))
	}
	if b.op == OConcat {
		// try to merge a with head of b
		h := b.a
		if a.isConst() && h.isConst() {
			return tm.Concat(tm.Const(a.w+h.w, a.v<<h.w|h.v), b.b)
		}
		if a.op == OExtract && h.op == OExtract && a.a == h.a && a.v == h.v+uint64(h.w) {
			return tm.Concat(tm.Extract(a.a, uint8(h.v), a.w+h.w), b.b)
		}
	}
	if b.op == OZExt {
		// concat(a, zext(x)) => concat(a, concat(0, x))
		return tm.mk(OConcat, w, 0, a, tm.mk2Concat0(b), nil)
	}
	if a.op == OZExt {
		return tm.ZExt(tm.Concat(a.a, b), w)
	}
	return tm.mk(OConcat, w, 0, a, b, nil)
}

func (tm *TM) mk2Concat0(z *Term) *Term { return z }

func (tm *TM) Extract(t *Term, lo, n uint8) *Term {
	if n == 0 || lo+n > t.w {
		panic(fmt.Sprintf("bad extract %d+%d of %d", lo, n, t.w))
	}
	if lo == 0 && n == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return tm.Const(n, t.v>>lo)
	case OExtract:
		return tm.Extract(t.a, lo+uint8(t.v), n)
	case OZExt:
		if lo >= t.a.w {
			return tm.Const(n, 0)
		}
		if lo+n <= t.a.w {
			return tm.Extract(t.a, lo, n)
		}
		return tm.ZExt(tm.Extract(t.a, lo, t.a.w-lo), n)
	case OSExt:
		if lo+n <= t.a.w {
			return tm.Extract(t.a, lo, n)
		}
		if lo < t.a.w {
			return tm.SExt(tm.Extract(t.a, lo, t.a.w-lo), n)
		}
		return tm.SExt(tm.Extract(t.a, t.a.w-1, 1), n)
	case OConcat:
		if lo >= t.b.w {
			return tm.Extract(t.a, lo-t.b.w, n)
		}
		if lo+n <= t.b.w {
			return tm.Extract(t.b, lo, n)
		}
		return tm.Concat(tm.Extract(t.a, 0, lo+n-t.b.w), tm.Extract(t.b, lo, t.b.w-lo))
	case OBXor:
		if t.xd < 12 { // deeper ones would be taken apart bit by bit
			return tm.BXor(tm.Extract(t.a, lo, n), tm.Extract(t.b, lo, n))
		}
	case OBOr:
		return tm.BOr(tm.Extract(t.a, lo, n), tm.Extract(t.b, lo, n))
	case OBAnd:
		return tm.BAnd(tm.Extract(t.a, lo, n), tm.Extract(t.b, lo, n))
	case OBNot:
		return tm.BNot(tm.Extract(t.a, lo, n))
	case OIte:
		if t.b.isConst() || t.c.isConst() {
			return tm.Ite(t.a, tm.Extract(t.b, lo, n), tm.Extract(t.c, lo, n))
		}
	case OAdd:
		if lo == 0 && n >= 8 {
			return tm.Add(tm.Extract(t.a, 0, n), tm.Extract(t.b, 0, n))
		}
	case OSub:
		if lo == 0 && n >= 8 {
			return tm.Sub(tm.Extract(t.a, 0, n), tm.Extract(t.b, 0, n))
		}
	case OMul:
		if lo == 0 && n >= 8 {
			return tm.Mul(tm.Extract(t.a, 0, n), tm.Extract(t.b, 0, n))
		}
	}
	if lo > 0 && t.hi>>lo == 0 {
		return tm.Const(n, 0)
	}
	return tm.mk(OExtract, n, uint64(lo), t, nil, nil)
}

func (tm *TM) ZExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return tm.Const(w, t.v)
	}
	if t.op == OZExt {
		return tm.ZExt(t.a, w)
	}
	return tm.mk(OZExt, w, 0, t, nil, nil)
}

func (tm *TM) SExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return tm.Const(w, uint64(toS(t.v, t.w)))
	}
	if signedNonNeg(t) {
		return tm.ZExt(t, w)
	}
	if t.op == OSExt {
		return tm.SExt(t.a, w)
	}
	return tm.mk(OSExt, w, 0, t, nil, nil)
}

// ---- floating point (bit patterns) ----

func fval(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalOp(op Op, w uint8, v uint64, aw uint8, a, b, c uint64) uint64 {
	m := mask(w)
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case ONot:
		return a ^ 1
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OEq:
		return bo(a == b)
	case OUlt:
		return bo(a < b)
	case OSlt:
		return bo(toS(a, aw) < toS(b, aw))
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := toS(a, w), toS(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := toS(a, w), toS(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(toS(a, w)>>b) & m
	case OExtract:
		return a >> v & m
	case OZExt:
		return a
	case OSExt:
		return uint64(toS(a, aw)) & m
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OFAdd, OFSub, OFMul, OFDiv:
		if w == 32 {
			x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
			var z float32
			switch op {
			case OFAdd:
				z = x + y
			case OFSub:
				z = x - y
			case OFMul:
				z = x * y
			default:
				z = x / y
			}
			return uint64(math.Float32bits(z))
		}
		x, y := math.Float64frombits(a), math.Float64frombits(b)
		var z float64
		switch op {
		case OFAdd:
			z = x + y
		case OFSub:
			z = x - y
		case OFMul:
			z = x * y
		default:
			z = x / y
		}
		return math.Float64bits(z)
	case OFLt:
		return bo(fval(a, aw) < fval(b, aw))
	case OFLe:
		return bo(fval(a, aw) <= fval(b, aw))
	case OFEq:
		return bo(fval(a, aw) == fval(b, aw))
	case OFNeg:
		return a ^ (1 << (w - 1))
	case OF32to64:
		return math.Float64bits(float64(math.Float32frombits(uint32(a))))
	case OF64to32:
		return uint64(math.Float32bits(float32(math.Float64frombits(a))))
	case OSIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(toS(a, aw))))
		}
		return math.Float64bits(float64(toS(a, aw)))
	case OUIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return math.Float64bits(float64(a))
	case OFToSI:
		return uint64(int64(fval(a, aw))) & m
	case OFToUI:
		return uint64(fval(a, aw)) & m
	}
	panic("evalOp")
}

func (tm *TM) FOp(op Op, w uint8, a, b *Term) *Term {
	if a.isConst() && (b == nil || b.isConst()) {
		var bv uint64
		if b != nil {
			bv = b.v
		}
		r := evalOp(op, w, 0, a.w, a.v, bv, 0)
		if w == 0 {
			return tm.Bool(r == 1)
		}
		return tm.Const(w, r)
	}
	exact := func(t *Term) (*Term, bool) { // integer whose float64 image this is (exact, non-negative)
		if t.op == OSIToF && t.w == 64 && t.a.hi <= 1<<53 && signedNonNeg(t.a) || t.op == OUIToF && t.w == 64 && t.a.hi <= 1<<53 {
			return tm.ZExt(t.a, 64), true
		}
		if t.isConst() && t.w == 64 {
			f := math.Float64frombits(t.v)
			if f >= 0 && f <= 1<<53 && f == math.Trunc(f) && !(f == 0 && math.Signbit(f)) {
				return tm.Const(64, uint64(f)), true
			}
		}
		return nil, false
	}
	switch op {
	case OFLt, OFLe, OFEq:
		if x, ok := exact(a); ok {
			if y, ok := exact(b); ok {
				switch op {
				case OFLt:
					return tm.Ult(x, y)
				case OFLe:
					return tm.Ule(x, y)
				default:
					return tm.Eq(x, y)
				}
			}
		}
	case OFToSI, OFToUI:
		if x, ok := exact(a); ok {
			return tm.Extract(x, 0, w)
		}
		if a.op == OIte {
			return tm.Ite(a.a, tm.FOp(op, w, a.b, nil), tm.FOp(op, w, a.c, nil))
		}
	case OF32to64, OF64to32:
		if op == OF64to32 && a.op == OF32to64 {
			// float32 -> float64 -> float32: identity except that signalling NaNs become quiet
			return tm.quiet32(a.a)
		}
	}
	if b != nil {
		return tm.mk(op, w, 0, a, b, nil)
	}
	return tm.mk(op, w, 0, a, nil, nil)
}

// isNaN32 over a 32-bit pattern.
func (tm *TM) isNaN32(t *Term) *Term {
	return tm.Ult(tm.Const(31, 0x7f800000), tm.Extract(t, 0, 31))
}
func (tm *TM) isNaN64(t *Term) *Term {
	return tm.Ult(tm.Const(63, 0x7ff0000000000000), tm.Extract(t, 0, 63))
}

// quiet32: the value after a round trip through float64 (hardware quiets signalling NaNs).
func (tm *TM) quiet32(t *Term) *Term {
	return tm.Ite(tm.isNaN32(t), tm.BOr(t, tm.Const(32, 0x00400000)), t)
}

// ---- evaluation under a model ----

type Model struct {
	vals map[int32]uint64 // var term id -> value (absent: 0)
	memo map[int32]uint64
}

func newModel() *Model { return &Model{vals: map[int32]uint64{}, memo: map[int32]uint64{}} }

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.v
	case OVar:
		return m.vals[t.id]
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	var a, b, c uint64
	var r uint64
	if t.op == OIte {
		if m.eval(t.a) != 0 {
			r = m.eval(t.b)
		} else {
			r = m.eval(t.c)
		}
		m.memo[t.id] = r
		return r
	}
	if t.op == OAnd && m.eval(t.a) == 0 || t.op == OOr && m.eval(t.a) == 1 {
		r = m.eval(t.a)
		m.memo[t.id] = r
		return r
	}
	a = m.eval(t.a)
	if t.b != nil {
		b = m.eval(t.b)
	}
	if t.c != nil {
		c = m.eval(t.c)
	}
	if t.op == OConcat {
		r = a<<t.b.w | b
	} else {
		r = evalOp(t.op, t.w, t.v, t.a.w, a, b, c)
	}
	m.memo[t.id] = r
	return r
}

// ---- rebuild with substitution ----

func (tm *TM) rebuild(t, a, b, c *Term) *Term {
	switch t.op {
	case ONot:
		return tm.Not(a)
	case OAnd:
		return tm.And(a, b)
	case OOr:
		return tm.Or(a, b)
	case OEq:
		return tm.Eq(a, b)
	case OUlt:
		return tm.Ult(a, b)
	case OSlt:
		return tm.Slt(a, b)
	case OAdd:
		return tm.Add(a, b)
	case OSub:
		return tm.Sub(a, b)
	case OMul:
		return tm.Mul(a, b)
	case OUDiv, OURem, OSDiv, OSRem:
		return tm.DivRem(t.op, a, b)
	case OBAnd:
		return tm.BAnd(a, b)
	case OBOr:
		return tm.BOr(a, b)
	case OBXor:
		return tm.BXor(a, b)
	case OBNot:
		return tm.BNot(a)
	case OShl:
		return tm.Shl(a, b)
	case OLshr:
		return tm.Lshr(a, b)
	case OAshr:
		return tm.Ashr(a, b)
	case OConcat:
		return tm.Concat(a, b)
	case OExtract:
		return tm.Extract(a, uint8(t.v), t.w)
	case OZExt:
		return tm.ZExt(a, t.w)
	case OSExt:
		return tm.SExt(a, t.w)
	case OIte:
		return tm.Ite(a, b, c)
	}
	return tm.FOp(t.op, t.w, a, b)
}

// ---- GF(2)-linear normal form of equalities ----
//
// Every bit of a term built from xor/shift/extract/concat/mask is an xor of atom bits and a constant.
// Two equalities with the same normal form of (a xor b) are the same proposition; an identically zero
// form is true; a non-zero constant bit makes it false. This is an exact rewriting (CRC folds), checked
// on random assignments each time it is used.

type linForm struct {
	bits []uint64
	k    bool
}

type linCtx struct {
	tm    *TM
	words int
	inv   []uint64
	memo  map[int32][]linForm
	atoms map[uint64]int // termID<<8|bit -> index
}

func (lc *linCtx) atom(t *Term) []linForm {
	lc.tm.byID[t.id] = t
	out := make([]linForm, t.w)
	for i := range out {
		key := uint64(t.id)<<8 | uint64(i)
		ix, ok := lc.atoms[key]
		if !ok {
			ix = len(lc.atoms)
			lc.atoms[key] = ix
			lc.inv = append(lc.inv, key)
		}
		bs := make([]uint64, ix/64+1)
		bs[ix/64] = 1 << (ix % 64)
		lc.words += len(bs)
		out[i] = linForm{bits: bs}
	}
	return out
}

func xorForm(a, b linForm) linForm {
	x, y := a.bits, b.bits
	if len(x) < len(y) {
		x, y = y, x
	}
	if len(y) == 0 {
		return linForm{x, a.k != b.k}
	}
	r := make([]uint64, len(x))
	copy(r, x)
	for i := range y {
		r[i] ^= y[i]
	}
	n := len(r)
	for n > 0 && r[n-1] == 0 {
		n--
	}
	return linForm{r[:n], a.k != b.k}
}

func (lc *linCtx) lin(t *Term) []linForm {
	if r, ok := lc.memo[t.id]; ok {
		return r
	}
	var r []linForm
	switch t.op {
	case OConst:
		r = make([]linForm, t.w)
		for i := range r {
			r[i].k = t.v>>uint(i)&1 == 1
		}
	case OBXor:
		a, b := lc.lin(t.a), lc.lin(t.b)
		r = make([]linForm, t.w)
		for i := range r {
			r[i] = xorForm(a[i], b[i])
			lc.words += len(r[i].bits)
		}
	case OBNot:
		a := lc.lin(t.a)
		r = make([]linForm, t.w)
		for i := range r {
			r[i] = linForm{a[i].bits, !a[i].k}
		}
	case OConcat:
		a, b := lc.lin(t.a), lc.lin(t.b)
		r = append(append([]linForm{}, b...), a...)
	case OExtract:
		if t.a.op == OVar {
			full := lc.atom(t.a)
			r = full[t.v : t.v+uint64(t.w)]
		} else {
			a := lc.lin(t.a)
			r = a[t.v : t.v+uint64(t.w)]
		}
	case OZExt:
		a := lc.lin(t.a)
		r = make([]linForm, t.w)
		copy(r, a)
	case OSExt:
		a := lc.lin(t.a)
		r = make([]linForm, t.w)
		copy(r, a)
		for i := len(a); i < len(r); i++ {
			r[i] = a[len(a)-1]
		}
	case OSub, OMul:
		// 0-x and x*k for a single bit x
		x, k := t.b, mask(t.w)
		if t.op == OMul && t.a.isConst() {
			k = t.a.v
		} else if t.op == OMul && t.b.isConst() {
			x, k = t.a, t.b.v
		} else if t.op == OMul || !t.a.isConst() || t.a.v != 0 {
			break
		}
		f := lc.lin(x)
		for _, b := range f[1:] {
			if len(b.bits) != 0 || b.k {
				f = nil
				break
			}
		}
		if f != nil {
			r = make([]linForm, t.w)
			for i := range r {
				if k>>uint(i)&1 == 1 {
					r[i] = f[0]
				}
			}
		}
	case OBAnd:
		if t.b.isConst() {
			a := lc.lin(t.a)
			r = make([]linForm, t.w)
			for i := range r {
				if t.b.v>>uint(i)&1 == 1 {
					r[i] = a[i]
				}
			}
		}
	}
	if r == nil && t.op == OIte {
		if f := lc.linTable(t); f != nil {
			r = f
		} else {
			r = lc.linIte(t)
		}
	}
	if r == nil {
		r = lc.atom(t)
	}
	lc.memo[t.id] = r
	return r
}

// deep computes the forms of a deep term from the bottom up, so that lin does not recurse far.
func (lc *linCtx) deep(t *Term) {
	stack := []*Term{t}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		if _, ok := lc.memo[t.id]; ok {
			stack = stack[:len(stack)-1]
			continue
		}
		n := len(stack)
		push := func(c *Term) {
			if _, ok := lc.memo[c.id]; !ok {
				stack = append(stack, c)
			}
		}
		switch t.op {
		case OBXor, OConcat:
			push(t.a)
			push(t.b)
		case OBNot, OZExt, OSExt:
			push(t.a)
		case OExtract:
			if t.a.op != OVar {
				push(t.a)
			}
		case OBAnd:
			if t.b.isConst() {
				push(t.a)
			}
		case OIte:
			if t.w > 0 && t.a.op == OEq && t.a.b.isConst() && t.a.a.w > 0 {
				push(t.a.a)
			}
		}
		if len(stack) == n {
			stack = stack[:n-1]
			lc.lin(t)
		}
	}
}

// linIte handles a conditional whose branches differ by a constant.
func (lc *linCtx) linIte(t *Term) []linForm {
	if t.w == 0 {
		return nil
	}
	x, y := lc.lin(t.b), lc.lin(t.c)
	d := make([]bool, t.w)
	for i := range x {
		f := xorForm(x[i], y[i])
		if len(f.bits) != 0 {
			return nil
		}
		d[i] = f.k
	}
	c := lc.cond(t.a)
	r := make([]linForm, t.w)
	for i := range r {
		r[i] = y[i]
		if d[i] {
			r[i] = xorForm(y[i], c)
			lc.words += len(r[i].bits)
		}
	}
	return r
}

// cond gives the one-bit form of a boolean term.
func (lc *linCtx) cond(t *Term) linForm {
	if t.op == ONot {
		f := lc.cond(t.a)
		return linForm{f.bits, !f.k}
	}
	if t.op == OEq && t.b.w > 0 {
		a, b := lc.lin(t.a), lc.lin(t.b)
		var f linForm
		n := 0
		for i := range a {
			g := xorForm(a[i], b[i])
			if len(g.bits) == 0 && !g.k {
				continue
			}
			f = g
			n++
		}
		if n == 1 {
			return linForm{f.bits, !f.k}
		}
	}
	lc.tm.byID[t.id] = t
	key := uint64(t.id) << 8
	ix, ok := lc.atoms[key]
	if !ok {
		ix = len(lc.atoms)
		lc.atoms[key] = ix
		lc.inv = append(lc.inv, key)
	}
	bs := make([]uint64, ix/64+1)
	bs[ix/64] = 1 << (ix % 64)
	return linForm{bits: bs}
}

// linTable recognises a constant lookup table (an ite chain over one index term) that is affine over GF(2).
func (lc *linCtx) linTable(t *Term) []linForm {
	var idx *Term
	tab := map[uint64]uint64{}
	x := t
	for x.op == OIte {
		if x.a.op != OEq || !x.a.b.isConst() || !x.b.isConst() {
			return nil
		}
		if idx == nil {
			idx = x.a.a
		} else if idx != x.a.a {
			return nil
		}
		if _, dup := tab[x.a.b.v]; !dup {
			tab[x.a.b.v] = x.b.v
		}
		x = x.c
	}
	if !x.isConst() || idx == nil || idx.w > 8 {
		return nil
	}
	n := uint64(1) << idx.w
	get := func(i uint64) uint64 {
		if v, ok := tab[i]; ok {
			return v
		}
		return x.v
	}
	f0 := get(0)
	for i := uint64(0); i < n; i++ {
		want := f0
		for b := uint8(0); b < idx.w; b++ {
			if i>>b&1 == 1 {
				want ^= get(1<<b) ^ f0
			}
		}
		if want != get(i) {
			return nil
		}
	}
	in := lc.lin(idx)
	out := make([]linForm, t.w)
	for j := range out {
		f := linForm{k: f0>>uint(j)&1 == 1}
		for b := uint8(0); b < idx.w; b++ {
			if (get(1<<b)^f0)>>uint(j)&1 == 1 {
				f = xorForm(f, in[b])
			}
		}
		out[j] = f
	}
	return out
}

func (tm *TM) linEq(a, b *Term) *Term {
	lc := tm.lin
	if lc == nil || lc.words > 6<<20 || len(lc.memo) > 400000 {
		lc = &linCtx{tm: tm, memo: map[int32][]linForm{}, atoms: map[uint64]int{}}
		tm.lin = lc
	}
	if a.xd > 200 || b.xd > 200 {
		lc.deep(a)
		lc.deep(b)
	}
	fa, fb := lc.lin(a), lc.lin(b)
	inv := lc.inv
	tm.linStats.n++
	var rows []*Term
	for i := range fa {
		f := xorForm(fa[i], fb[i])
		if len(f.bits) == 0 {
			if f.k {
				tm.checkLin(a, b, nil)
				return tm.False
			}
			continue
		}
		var atoms []uint64
		for wi, w := range f.bits {
			for w != 0 {
				ix := wi*64 + bits.TrailingZeros64(w)
				atoms = append(atoms, inv[ix])
				w &= w - 1
			}
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i] < atoms[j] })
		rows = append(rows, tm.parity(atoms, !f.k))
	}
	if len(rows) == 0 {
		tm.linStats.zero++
		if len(tm.pending) < 4 && a.xd <= 75 && b.xd <= 75 {
			tm.pending = append(tm.pending, tm.mk(OEq, 0, 0, a, b, nil))
		}
		tm.checkLin(a, b, tm.True)
		return tm.True
	}
	sort.Slice(rows, func(i, j int) bool { return rows[i].id < rows[j].id })
	r := tm.True
	for _, x := range rows {
		r = tm.And(r, x)
	}
	tm.linStats.rep++
	tm.checkLin(a, b, r)
	return r
}

// parity is the boolean term saying that the XOR of the atoms (term id and bit) is zero (or one); equal
// parities are one term.
func (tm *TM) parity(atoms []uint64, zero bool) *Term {
	var sb strings.Builder
	for _, x := range atoms {
		fmt.Fprintf(&sb, ",%x", x)
	}
	key := sb.String()
	t, ok := tm.eqForms[key]
	if !ok {
		var x *Term
		for _, at := range atoms {
			y := tm.byID[int32(at>>8)]
			if y.w == 0 {
				y = tm.mk(OIte, 1, 0, y, tm.Const(1, 1), tm.Const(1, 0))
			} else if y.w > 1 {
				y = tm.mk(OExtract, 1, at&0xff, y, nil, nil)
			}
			if x == nil {
				x = y
			} else {
				x = tm.mk(OBXor, 1, 0, x, y, nil)
			}
		}
		t = tm.mk(OEq, 0, 0, x, tm.Const(1, 0), nil)
		tm.eqForms[key] = t
		tm.rows[t.id] = atoms
	}
	if zero {
		return t
	}
	return tm.Not(t)
}

func (tm *TM) rnd() uint64 {
	tm.rndState ^= tm.rndState << 13
	tm.rndState ^= tm.rndState >> 7
	tm.rndState ^= tm.rndState << 17
	return tm.rndState
}

func (tm *TM) checkLin(a, b, r *Term) {
	if tm.linStats.n > 500 && tm.linStats.n%16 != 0 {
		return
	}
	m := newModel()
	tm.randomVars(m, a)
	tm.randomVars(m, b)
	want := m.eval(a) == m.eval(b)
	var got bool
	if r != nil {
		got = m.eval(r) == 1
	}
	if want != got {
		panic("internal: linear normalisation disagrees with evaluation")
	}
}

func (tm *TM) randomVars(m *Model, t *Term) {
	seen := map[int32]bool{}
	var walk func(*Term)
	walk = func(t *Term) {
		if t == nil || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			if _, ok := m.vals[t.id]; !ok {
				m.vals[t.id] = tm.rnd() & max(mask(t.w), 1)
				if t.w == 0 {
					m.vals[t.id] &= 1
				}
			}
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(t)
}
