package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"strconv"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const maxSymElems = 4096

func (ex *Exec) nilDeref() {
	ex.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (ex *Exec) load(g *Goro, p Value) Value {
	switch x := p.(type) {
	case Ptr:
		if x.c == nil {
			ex.nilDeref()
		}
		if ex.raceMode {
			ex.raceAccess(g, x.c, x.i, false)
		}
		return ex.copyVal(x.c.slots[x.i])
	case ViewPtr:
		n := &Cont{slots: make([]Value, x.n), epoch: ex.epoch}
		for i := range n.slots {
			if ex.raceMode {
				ex.raceAccess(g, x.c, x.off+i, false)
			}
			n.slots[i] = ex.copyVal(x.c.slots[x.off+i])
		}
		return n
	case SymPtr:
		if ex.raceMode {
			for i := 0; i < x.n; i++ {
				ex.raceAccess(g, x.c, x.off+i, false)
			}
		}
		return ex.copyVal(ex.selectAt(x.c, x.off, x.idx, x.n))
	}
	unsupported("load from %T", p)
	return nil
}

// selectAt reads slot off+idx, 0 <= idx < n, as a guarded selection.
func (ex *Exec) selectAt(c *Cont, off int, idx *Term, n int) Value {
	lo, hi := int(idx.lo), n-1
	if idx.hi < uint64(hi) {
		hi = int(idx.hi)
	}
	if lo > hi {
		lo = hi
	}
	if lo == 0 && hi >= 7 && (hi+1)&hi == 0 {
		if t := ex.affineTable(c.slots[off:off+hi+1], idx); t != nil {
			return t
		}
	}
	r := c.slots[off+hi]
	for k := hi - 1; k >= lo; k-- {
		r = ex.ite(ex.tm.Eq(idx, ex.tm.Const(64, uint64(k))), c.slots[off+k], r)
	}
	return r
}

// affineTable expresses a lookup in a table of constants (a power of two of them, indexed by all of idx's
// values) as an affine function over GF(2), with up to 12 exceptions; nil if the table is nothing of the kind.
// Exact for every index.
func (ex *Exec) affineTable(slots []Value, idx *Term) *Term {
	n := len(slots)
	tab := make([]uint64, n)
	var w uint8
	for i, s := range slots {
		t, ok := s.(*Term)
		if !ok || !t.isConst() || t.w == 0 {
			return nil
		}
		tab[i], w = t.v, t.w
	}
	if w > 64 {
		return nil
	}
	nb := bits.Len(uint(n)) - 1
	var best []int
	var basis []uint64
	var f0 uint64
	for _, r := range []int{0, n - 1, n / 3, n / 2, 5 % n} {
		col := make([]uint64, nb)
		at := func(i int) uint64 {
			v := tab[r]
			for b := 0; b < nb; b++ {
				if (i^r)>>b&1 == 1 {
					v ^= col[b]
				}
			}
			return v
		}
		for b := range col {
			col[b] = tab[r^1<<b] ^ tab[r]
		}
		exc := []int{}
		for i := range tab {
			if at(i) != tab[i] {
				exc = append(exc, i)
			}
		}
		if basis == nil || len(exc) < len(best) {
			best, basis, f0 = exc, col, at(0)
		}
		if len(best) == 0 {
			break
		}
	}
	if len(best) > 12 || len(best)*4 > n {
		return nil
	}
	tm := ex.tm
	zero := tm.Const(w, 0)
	r := tm.Const(w, f0)
	for b, v := range basis {
		if v != 0 {
			r = tm.BXor(r, tm.BAnd(tm.SExt(tm.Extract(idx, uint8(b), 1), w), tm.Const(w, v)))
		}
	}
	for _, i := range best {
		v := f0
		for b := range basis {
			if i>>b&1 == 1 {
				v ^= basis[b]
			}
		}
		r = tm.BXor(r, tm.Ite(tm.Eq(idx, tm.Const(idx.w, uint64(i))), tm.Const(w, v^tab[i]), zero))
	}
	return r
}

func (ex *Exec) store(g *Goro, p, v Value) {
	switch x := p.(type) {
	case Ptr:
		if x.c == nil {
			ex.nilDeref()
		}
		if ex.raceMode {
			ex.raceAccess(g, x.c, x.i, true)
		}
		ex.storeSlot(x.c, x.i, v)
		return
	case ViewPtr:
		src := ex.force(v).(*Cont)
		for i, s := range src.slots {
			if ex.raceMode {
				ex.raceAccess(g, x.c, x.off+i, true)
			}
			ex.storeSlot(x.c, x.off+i, s)
		}
		return
	case SymPtr:
		if _, ok := v.(*Term); !ok {
			ex.store(g, ex.forcePtr(x), v)
			return
		}
		for k := 0; k < x.n; k++ {
			if uint64(k) < x.idx.lo || uint64(k) > x.idx.hi {
				continue
			}
			if ex.raceMode {
				ex.raceAccess(g, x.c, x.off+k, true)
			}
			e := ex.tm.Eq(x.idx, ex.tm.Const(64, uint64(k)))
			ex.setSlot(x.c, x.off+k, ex.ite(e, v, x.c.slots[x.off+k]))
		}
		return
	}
	unsupported("store to %T", p)
}

func (ex *Exec) fieldAddr(p Value, f int) Value {
	p = ex.forcePtr(p)
	x, ok := p.(Ptr)
	if !ok {
		unsupported("field address of %T", p)
	}
	if x.c == nil {
		ex.nilDeref()
	}
	s := x.c.slots[x.i]
	sc, ok := s.(*Cont)
	if !ok {
		unsupported("field address in %T", s)
	}
	return Ptr{sc, f}
}

func (ex *Exec) idx64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return ex.tm.SExt(t, 64)
	}
	return ex.tm.ZExt(t, 64)
}

func (ex *Exec) boundsCheck(idx, n *Term) {
	ok := ex.tm.Ult(idx, n)
	if ok.isTrue() {
		return
	}
	if !ex.branch(ok) {
		is, ns := "?", "?"
		if idx.isConst() {
			is = fmt.Sprint(int64(idx.v))
		}
		if n.isConst() {
			ns = fmt.Sprint(n.v)
		}
		ex.rtPanic("runtime error: index out of range [" + is + "] with length " + ns)
	}
}

func (ex *Exec) elemPtr(c *Cont, off int, idx *Term, n int) Value {
	idx = ex.simp(idx)
	if idx.isConst() {
		return Ptr{c, off + int(idx.v)}
	}
	if n > maxSymElems || off+n > len(c.slots) {
		if off+n > len(c.slots) {
			n = len(c.slots) - off
		}
		if n > maxSymElems {
			return Ptr{c, off + int(ex.concretize(idx))}
		}
	}
	if n > 0 {
		switch c.slots[off].(type) {
		case *Term:
			return SymPtr{c, off, idx, n}
		}
	}
	return Ptr{c, off + int(ex.concretize(idx))}
}

func (ex *Exec) indexAddr(x Value, idx *Term) Value {
	switch s := x.(type) {
	case Slice:
		ex.boundsCheck(idx, s.len)
		n := int(min(s.len.hi, uint64(1<<30)))
		return ex.elemPtr(s.c, s.off, idx, n)
	case Ptr:
		if s.c == nil {
			ex.nilDeref()
		}
		arr := s.c.slots[s.i].(*Cont)
		ex.boundsCheck(idx, ex.tm.Const(64, uint64(len(arr.slots))))
		return ex.elemPtr(arr, 0, idx, len(arr.slots))
	case ViewPtr:
		ex.boundsCheck(idx, ex.tm.Const(64, uint64(s.n)))
		return ex.elemPtr(s.c, s.off, idx, s.n)
	case SymPtr:
		return ex.indexAddr(ex.forcePtr(s), idx)
	}
	unsupported("index address of %T", x)
	return nil
}

func (ex *Exec) index(x Value, idx *Term) Value {
	switch s := x.(type) {
	case Str:
		ex.boundsCheck(idx, ex.strLen(s))
		idx = ex.simp(idx)
		if idx.isConst() {
			return ex.strByte(s, int(idx.v))
		}
		bs := ex.strTerms(s)
		r := bs[len(bs)-1]
		for k := len(bs) - 2; k >= 0; k-- {
			r = ex.tm.Ite(ex.tm.Eq(idx, ex.tm.Const(64, uint64(k))), bs[k], r)
		}
		return r
	case *Cont:
		ex.boundsCheck(idx, ex.tm.Const(64, uint64(len(s.slots))))
		idx = ex.simp(idx)
		if idx.isConst() {
			return s.slots[idx.v]
		}
		return ex.selectAt(s, 0, idx, len(s.slots))
	case Slice:
		p := ex.indexAddr(s, idx)
		return ex.load(nil, p)
	}
	unsupported("index of %T", x)
	return nil
}

func (ex *Exec) makeSlice(elem types.Type, n, c int) Slice {
	cont := &Cont{slots: make([]Value, c), epoch: ex.epoch, name: "make"}
	if c > 0 {
		z := ex.zero(elem)
		_, agg := z.(*Cont)
		for i := range cont.slots {
			if agg && i > 0 {
				z = ex.zero(elem)
			}
			cont.slots[i] = z
		}
	}
	return Slice{cont, 0, ex.tm.Const(64, uint64(n)), ex.tm.Const(64, uint64(c))}
}

func (ex *Exec) slice(fr *Frame, in *inst, i *ssa.Slice) Value {
	tm := ex.tm
	x := ex.getF(fr, &in.a[0])
	var lo, hi, mx *Term
	get := func(v ssa.Value, o *opnd) *Term {
		if v == nil {
			return nil
		}
		return ex.simp(ex.idx64(ex.term(fr, o), v.Type()))
	}
	k := 1
	if i.Low != nil {
		lo = get(i.Low, &in.a[k])
	}
	k = 2
	if i.High != nil {
		hi = get(i.High, &in.a[k])
	}
	k = 3
	if i.Max != nil {
		mx = get(i.Max, &in.a[k])
	}
	z := tm.Const(64, 0)
	if lo == nil {
		lo = z
	}
	fail := func() {
		ex.rtPanic("runtime error: slice bounds out of range")
	}
	if s, ok := x.(Str); ok {
		n := ex.strLen(s)
		if hi == nil {
			hi = n
		}
		if !ex.branch(tm.Ule(hi, n)) {
			fail()
		}
		if !ex.branch(tm.Ule(lo, hi)) {
			fail()
		}
		l := int(ex.concretize(lo))
		hi = ex.simp(hi)
		if s.b == nil {
			h := ex.concretize(hi)
			return Str{s: s.s[l:h]}
		}
		if hi.isConst() {
			return ex.mkStr(s.b[l:hi.v])
		}
		return Str{b: s.b[l:], n: tm.Sub(hi, tm.Const(64, uint64(l)))}
	}
	var c *Cont
	var off int
	var n, cp *Term
	switch s := x.(type) {
	case Slice:
		c, off, n, cp = s.c, s.off, s.len, s.cap
	case Ptr:
		if s.c == nil {
			ex.nilDeref()
		}
		c = s.c.slots[s.i].(*Cont)
		n = tm.Const(64, uint64(len(c.slots)))
		cp = n
	case ViewPtr:
		c, off = s.c, s.off
		n = tm.Const(64, uint64(s.n))
		cp = n
	default:
		unsupported("slice of %T", x)
	}
	if hi == nil {
		hi = n
	}
	if mx == nil {
		mx = cp
	} else if !ex.branch(tm.Ule(mx, cp)) {
		fail()
	}
	if !ex.branch(tm.Ule(hi, mx)) {
		fail()
	}
	if !ex.branch(tm.Ule(lo, hi)) {
		fail()
	}
	lo = ex.simp(lo)
	l := ex.concretize(lo)
	hi, mx = ex.simp(hi), ex.simp(mx)
	lc := tm.Const(64, l)
	if c == nil {
		return Slice{nil, 0, z, z}
	}
	return Slice{c, off + int(l), tm.Sub(hi, lc), tm.Sub(mx, lc)}
}

// ---- conversions ----

func (ex *Exec) convert(from, to types.Type, v Value) Value {
	tm := ex.tm
	uf, ut := under(from), under(to)
	if t, ok := v.(*Term); ok {
		if bt, ok := ut.(*types.Basic); ok {
			if bt.Info()&types.IsString != 0 {
				n := int64(toS(ex.concretize(t), t.w))
				if !isSigned(from) {
					n = int64(ex.concretize(t))
				}
				r := rune(n)
				if int64(r) != n {
					r = utf8.RuneError
				}
				return Str{s: string(r)}
			}
			if bt.Kind() == types.UnsafePointer {
				return Ptr{}
			}
			w := uint8(basicWidth(bt))
			ff, tf := isFloat(from), isFloat(to)
			switch {
			case ff && tf:
				if t.w == w {
					return t
				}
				if w == 64 {
					return tm.FOp(OF32to64, 64, t, nil)
				}
				return tm.FOp(OF64to32, 32, t, nil)
			case ff:
				// out-of-range values are implementation-defined: amd64 goes through a 64-bit signed conversion
				if isSigned(to) || w < 64 {
					r := tm.FOp(OFToSI, 64, t, nil)
					return tm.Extract(r, 0, w)
				}
				return tm.FOp(OFToUI, w, t, nil)
			case tf:
				if isSigned(from) {
					return tm.FOp(OSIToF, w, t, nil)
				}
				return tm.FOp(OUIToF, w, t, nil)
			}
			if w == t.w {
				return t
			}
			if w < t.w {
				return tm.Extract(t, 0, w)
			}
			if isSigned(from) {
				return tm.SExt(t, w)
			}
			return tm.ZExt(t, w)
		}
	}
	switch x := v.(type) {
	case Str:
		if st, ok := ut.(*types.Slice); ok {
			eb := under(st.Elem()).(*types.Basic)
			if basicWidth(eb) == 8 {
				bs := ex.strTerms(x)
				c := &Cont{slots: make([]Value, len(bs)), epoch: ex.epoch}
				for i, b := range bs {
					c.slots[i] = b
				}
				n := ex.strLen(x)
				return Slice{c, 0, n, tm.Const(64, uint64(len(bs)))}
			}
			x = ex.strFix(x)
			if x.b != nil {
				for i, t := range x.b {
					x.b[i] = tm.Const(8, ex.concretize(t))
				}
				x = ex.strNorm(x)
			}
			rs := []rune(x.s)
			c := &Cont{slots: make([]Value, len(rs)), epoch: ex.epoch}
			for i, r := range rs {
				c.slots[i] = tm.Const(32, uint64(uint32(r)))
			}
			n := tm.Const(64, uint64(len(rs)))
			return Slice{c, 0, n, n}
		}
		return v
	case Slice:
		if isString(to) {
			st := uf.(*types.Slice)
			if widthOf(st.Elem()) == 8 {
				return ex.sliceToStr(x)
			}
			n := int(ex.concretize(x.len))
			rs := make([]rune, n)
			for i := range rs {
				rs[i] = rune(int32(ex.concretize(x.c.slots[x.off+i].(*Term))))
			}
			return Str{s: string(rs)}
		}
		return v
	case Ptr, ViewPtr, SymPtr:
		if bt, ok := ut.(*types.Basic); ok && bt.Kind() == types.Uintptr {
			unsupported("pointer to integer conversion")
		}
		return v
	}
	if _, ok := ut.(*types.Basic); !ok {
		return v
	}
	unsupported("conversion of %s to %s", from, to)
	return nil
}

func (ex *Exec) sliceToStr(x Slice) Value {
	if x.c == nil {
		return Str{}
	}
	n := int(min(x.len.hi, uint64(len(x.c.slots)-x.off)))
	if x.len.isConst() {
		n = int(x.len.v)
	}
	bs := make([]*Term, n)
	for i := range bs {
		bs[i] = ex.scalar(x.c.slots[x.off+i])
	}
	if n == 0 {
		return Str{}
	}
	if x.len.isConst() {
		return ex.mkStr(bs)
	}
	return Str{b: bs, n: x.len}
}

func (ex *Exec) scalar(v Value) *Term {
	v = ex.force(v)
	t, ok := v.(*Term)
	if !ok {
		unsupported("expected scalar, got %T", v)
	}
	return t
}

func (ex *Exec) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (ex *Exec) typeAssert(i *ssa.TypeAssert, v Value) Value {
	iv := v.(Iface)
	ok := false
	var res Value
	if it, isI := under(i.AssertedType).(*types.Interface); isI {
		if iv.t != nil && ex.implements(iv.t, it) {
			ok = true
			res = iv
		}
	} else if iv.t != nil && ex.sameType(iv.t, i.AssertedType) {
		ok = true
		res = iv.v
	}
	if !ok {
		if !i.CommaOk {
			ts := "nil"
			if iv.t != nil {
				ts = iv.t.String()
			}
			ex.rtPanic("interface conversion: interface is " + ts + ", not " + i.AssertedType.String())
		}
		res = ex.zero(i.AssertedType)
	}
	if i.CommaOk {
		return Tuple{res, ex.tm.Bool(ok)}
	}
	return res
}

func (ex *Exec) next(i *ssa.Next, it *mapIter) Value {
	tm := ex.tm
	if it.s != nil {
		s := *it.s
		n := int(ex.strLen(s).v)
		if it.pos >= n {
			return Tuple{tm.False, tm.Const(64, 0), tm.Const(32, 0)}
		}
		p := it.pos
		if s.b != nil {
			b := ex.scalar(s.b[p])
			if !ex.branch(tm.Ult(b, tm.Const(8, 0x80))) {
				// decode concretely
				var buf []byte
				for k := p; k < n && k < p+4; k++ {
					buf = append(buf, byte(ex.concretize(s.b[k])))
				}
				r, sz := utf8.DecodeRune(buf)
				it.pos += sz
				return Tuple{tm.True, tm.Const(64, uint64(p)), tm.Const(32, uint64(uint32(r)))}
			}
			it.pos++
			return Tuple{tm.True, tm.Const(64, uint64(p)), tm.ZExt(b, 32)}
		}
		r, sz := utf8.DecodeRuneInString(s.s[p:])
		it.pos += sz
		return Tuple{tm.True, tm.Const(64, uint64(p)), tm.Const(32, uint64(uint32(r)))}
	}
	m := it.m
	if m != nil {
		for it.pos < len(m.keys) {
			k := it.pos
			it.pos++
			if !m.dead[k] {
				return Tuple{tm.True, ex.copyVal(m.keys[k]), ex.copyVal(m.vals[k])}
			}
		}
	}
	tt := i.Type().(*types.Tuple)
	zero := func(j int) Value {
		if b, ok := tt.At(j).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return ex.zero(tt.At(j).Type())
	}
	return Tuple{tm.False, zero(1), zero(2)}
}

// ---- operators ----

func (ex *Exec) unop(i *ssa.UnOp, t *Term) Value {
	tm := ex.tm
	switch i.Op {
	case token.NOT:
		return tm.Not(t)
	case token.SUB:
		if isFloat(i.X.Type()) {
			return tm.FOp(OFNeg, t.w, t, nil)
		}
		return tm.Sub(tm.Const(t.w, 0), t)
	case token.XOR:
		return tm.BNot(t)
	}
	unsupported("unary %s", i.Op)
	return nil
}

func (ex *Exec) shiftCount(y *Term, yt types.Type, w uint8) *Term {
	tm := ex.tm
	if isSigned(yt) && !signedNonNeg(y) {
		if ex.branch(tm.Slt(y, tm.Const(y.w, 0))) {
			ex.rtPanic("runtime error: negative shift amount")
		}
	}
	if y.w == w {
		return y
	}
	if y.w < w {
		return tm.ZExt(y, w)
	}
	if y.isConst() {
		if y.v >= uint64(w) {
			return tm.Const(w, uint64(w))
		}
		return tm.Const(w, y.v)
	}
	if y.hi < uint64(w) {
		return tm.Extract(y, 0, w)
	}
	return tm.Ite(tm.Ult(y, tm.Const(y.w, uint64(w))), tm.Extract(y, 0, w), tm.Const(w, uint64(w)))
}

func (ex *Exec) binop(op token.Token, xt, yt types.Type, xv, yv Value) Value {
	tm := ex.tm
	switch op {
	case token.EQL:
		if _, ok := xv.(Slice); !ok {
			if xs, ok := xv.(Iface); ok {
				if _, isI := yv.(Iface); !isI {
					if _, isC := yv.(*Choice); !isC {
						yv = Iface{yt, yv}
					}
				}
				_ = xs
			} else if _, ok := yv.(Iface); ok {
				if _, isC := xv.(*Choice); !isC {
					xv = Iface{xt, xv}
				}
			}
		}
		return ex.eq(xv, yv, xt)
	case token.NEQ:
		return tm.Not(ex.binop(token.EQL, xt, yt, xv, yv).(*Term))
	}
	xv, yv = ex.force(xv), ex.force(yv)
	if s, ok := xv.(Str); ok {
		return ex.strOp(op, s, yv.(Str))
	}
	x, ok1 := xv.(*Term)
	y, ok2 := yv.(*Term)
	if !ok1 || !ok2 {
		unsupported("operator %s on %T, %T", op, xv, yv)
	}
	if isFloat(xt) {
		switch op {
		case token.ADD:
			return tm.FOp(OFAdd, x.w, x, y)
		case token.SUB:
			return tm.FOp(OFSub, x.w, x, y)
		case token.MUL:
			return tm.FOp(OFMul, x.w, x, y)
		case token.QUO:
			return tm.FOp(OFDiv, x.w, x, y)
		case token.LSS:
			return tm.FOp(OFLt, 0, x, y)
		case token.LEQ:
			return tm.FOp(OFLe, 0, x, y)
		case token.GTR:
			return tm.FOp(OFLt, 0, y, x)
		case token.GEQ:
			return tm.FOp(OFLe, 0, y, x)
		}
		unsupported("float operator %s", op)
	}
	sg := isSigned(xt)
	if x.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return tm.And(x, y)
		case token.OR, token.LOR:
			return tm.Or(x, y)
		}
		unsupported("boolean operator %s", op)
	}
	switch op {
	case token.ADD:
		return tm.Add(x, y)
	case token.SUB:
		return tm.Sub(x, y)
	case token.MUL:
		return tm.Mul(x, y)
	case token.QUO, token.REM:
		if !y.isConst() || y.v == 0 {
			if ex.branch(tm.Eq(y, tm.Const(y.w, 0))) {
				ex.rtPanic("runtime error: integer divide by zero")
			}
		}
		o := OUDiv
		switch {
		case sg && op == token.QUO:
			o = OSDiv
		case sg:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return tm.DivRem(o, x, y)
	case token.AND:
		return tm.BAnd(x, y)
	case token.OR:
		return tm.BOr(x, y)
	case token.XOR:
		return tm.BXor(x, y)
	case token.AND_NOT:
		return tm.BAnd(x, tm.BNot(y))
	case token.SHL:
		return tm.Shl(x, ex.shiftCount(y, yt, x.w))
	case token.SHR:
		if sg {
			return tm.Ashr(x, ex.shiftCount(y, yt, x.w))
		}
		return tm.Lshr(x, ex.shiftCount(y, yt, x.w))
	case token.LSS:
		if sg {
			return tm.Slt(x, y)
		}
		return tm.Ult(x, y)
	case token.LEQ:
		if sg {
			return tm.Sle(x, y)
		}
		return tm.Ule(x, y)
	case token.GTR:
		if sg {
			return tm.Slt(y, x)
		}
		return tm.Ult(y, x)
	case token.GEQ:
		if sg {
			return tm.Sle(y, x)
		}
		return tm.Ule(y, x)
	}
	unsupported("operator %s", op)
	return nil
}

func (ex *Exec) strOp(op token.Token, x, y Str) Value {
	tm := ex.tm
	if op == token.ADD {
		x, y = ex.strFix(x), ex.strFix(y)
		if x.b == nil && y.b == nil {
			return Str{s: x.s + y.s}
		}
		return ex.mkStr(append(append([]*Term(nil), ex.strTerms(x)...), ex.strTerms(y)...))
	}
	x, y = ex.strFix(x), ex.strFix(y)
	var less func(a, b Str) *Term
	less = func(a, b Str) *Term {
		if a.b == nil && b.b == nil {
			return tm.Bool(a.s < b.s)
		}
		at, bt := ex.strTerms(a), ex.strTerms(b)
		r := tm.Bool(len(at) < len(bt))
		for i := min(len(at), len(bt)) - 1; i >= 0; i-- {
			r = tm.Or(tm.Ult(at[i], bt[i]), tm.And(tm.Eq(at[i], bt[i]), r))
		}
		return r
	}
	switch op {
	case token.LSS:
		return less(x, y)
	case token.GTR:
		return less(y, x)
	case token.LEQ:
		return tm.Not(less(y, x))
	case token.GEQ:
		return tm.Not(less(x, y))
	}
	unsupported("string operator %s", op)
	return nil
}

// ---- builtins ----

func growCap(oldLen, oldCap, add int, esize int) int {
	need := oldLen + add
	if need <= oldCap {
		return oldCap
	}
	switch esize {
	case 1:
		return cap(append(make([]byte, oldLen, oldCap), make([]byte, add)...))
	case 2:
		return cap(append(make([]uint16, oldLen, oldCap), make([]uint16, add)...))
	case 4:
		return cap(append(make([]uint32, oldLen, oldCap), make([]uint32, add)...))
	case 8:
		return cap(append(make([]uint64, oldLen, oldCap), make([]uint64, add)...))
	case 16:
		return cap(append(make([][2]uint64, oldLen, oldCap), make([][2]uint64, add)...))
	case 24:
		return cap(append(make([][3]uint64, oldLen, oldCap), make([][3]uint64, add)...))
	}
	return max(need, 2*oldCap)
}

var sizes = types.SizesFor("gc", "amd64")

func (ex *Exec) asSlice(v Value) Slice {
	v = ex.force(v)
	switch s := v.(type) {
	case Slice:
		return s
	case Str:
		return ex.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), s).(Slice)
	}
	unsupported("expected slice, got %T", v)
	return Slice{}
}

func (ex *Exec) appendOp(g *Goro, sv, tv Value, elem types.Type) Value {
	tm := ex.tm
	s, t := ex.asSlice(sv), ex.asSlice(tv)
	tl := int(ex.concretize(t.len))
	if tl == 0 {
		return s
	}
	sl := int(ex.concretize(s.len))
	sc := int(ex.concretize(s.cap))
	// snapshot of the source (it may overlap)
	src := make([]Value, tl)
	for i := range src {
		if ex.raceMode {
			ex.raceAccess(g, t.c, t.off+i, false)
		}
		src[i] = ex.copyVal(t.c.slots[t.off+i])
	}
	if sl+tl <= sc {
		for i, v := range src {
			if ex.raceMode {
				ex.raceAccess(g, s.c, s.off+sl+i, true)
			}
			ex.storeSlot(s.c, s.off+sl+i, v)
		}
		return Slice{s.c, s.off, tm.Const(64, uint64(sl+tl)), s.cap}
	}
	nc := growCap(sl, sc, tl, int(sizes.Sizeof(elem)))
	c := &Cont{slots: make([]Value, nc), epoch: ex.epoch, name: "append"}
	for i := 0; i < sl; i++ {
		if ex.raceMode {
			ex.raceAccess(g, s.c, s.off+i, false)
		}
		c.slots[i] = ex.copyVal(s.c.slots[s.off+i])
	}
	for i, v := range src {
		c.slots[sl+i] = v
	}
	if sl+tl < nc {
		z := ex.zero(elem)
		_, agg := z.(*Cont)
		for i := sl + tl; i < nc; i++ {
			if agg {
				z = ex.zero(elem)
			}
			c.slots[i] = z
		}
	}
	return Slice{c, 0, tm.Const(64, uint64(sl+tl)), tm.Const(64, uint64(nc))}
}

func (ex *Exec) copyOp(g *Goro, dv, sv Value) Value {
	tm := ex.tm
	d, s := ex.asSlice(dv), ex.asSlice(sv)
	dl, sl := ex.simp(d.len), ex.simp(s.len)
	if dl.isConst() && dl.v == 0 || sl.isConst() && sl.v == 0 {
		return tm.Const(64, 0)
	}
	var n *Term
	switch {
	case dl.isConst() && sl.isConst():
		n = tm.Const(64, min(dl.v, sl.v))
	case dl.hi <= sl.lo:
		n = dl
	case sl.hi <= dl.lo:
		n = sl
	default:
		n = tm.Ite(tm.Ult(dl, sl), dl, sl)
	}
	if n.isConst() {
		k := int(n.v)
		if d.c == s.c && d.off == s.off {
			return n
		}
		tmp := make([]Value, k)
		for i := range tmp {
			if ex.raceMode {
				ex.raceAccess(g, s.c, s.off+i, false)
			}
			tmp[i] = s.c.slots[s.off+i]
		}
		for i, v := range tmp {
			if ex.raceMode {
				ex.raceAccess(g, d.c, d.off+i, true)
			}
			ex.storeSlot(d.c, d.off+i, v)
		}
		return n
	}
	hi := int(min(n.hi, min(dl.hi, sl.hi)))
	hi = min(hi, len(s.c.slots)-s.off, len(d.c.slots)-d.off)
	tmp := make([]Value, hi)
	for i := range tmp {
		tmp[i] = s.c.slots[s.off+i]
	}
	for i, v := range tmp {
		if uint64(i) < n.lo {
			ex.storeSlot(d.c, d.off+i, v)
			continue
		}
		ex.storeSlot(d.c, d.off+i, ex.ite(tm.Ult(tm.Const(64, uint64(i)), n), v, d.c.slots[d.off+i]))
	}
	return n
}

func (ex *Exec) builtin(g *Goro, fr *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	tm := ex.tm
	switch b.Name() {
	case "len", "cap":
		x := ex.force(args[0])
		switch s := x.(type) {
		case Slice:
			if b.Name() == "len" {
				return s.len
			}
			return s.cap
		case Str:
			return ex.strLen(s)
		case *MapObj:
			if s == nil {
				return tm.Const(64, 0)
			}
			ex.raceMap(g, s, false)
			return tm.Const(64, uint64(s.live))
		case *ChanObj:
			if s == nil {
				return tm.Const(64, 0)
			}
			if b.Name() == "len" {
				return tm.Const(64, uint64(len(s.buf)))
			}
			return tm.Const(64, uint64(s.cap))
		case *Cont:
			return tm.Const(64, uint64(len(s.slots)))
		case Ptr:
			t := under(b.Type().(*types.Signature).Params().At(0).Type())
			if p, ok := t.(*types.Pointer); ok {
				return tm.Const(64, uint64(under(p.Elem()).(*types.Array).Len()))
			}
		case ViewPtr:
			return tm.Const(64, uint64(s.n))
		}
		unsupported("len of %T", x)
	case "append":
		et := b.Type().(*types.Signature).Params().At(0).Type()
		st, ok := under(et).(*types.Slice)
		if !ok {
			unsupported("append to %s", et)
		}
		if len(args) == 1 {
			return args[0]
		}
		return ex.appendOp(g, args[0], args[1], st.Elem())
	case "copy":
		return ex.copyOp(g, args[0], args[1])
	case "close":
		ex.chanClose(g, ex.force(args[0]))
		return nil
	case "delete":
		m, _ := ex.force(args[0]).(*MapObj)
		if m != nil {
			ex.raceMap(g, m, true)
		}
		ex.mapDelete(m, ex.force(args[1]))
		return nil
	case "clear":
		switch x := ex.force(args[0]).(type) {
		case *MapObj:
			if x != nil {
				ex.mapTouch(x)
				x.keys, x.vals, x.dead, x.index, x.live = nil, nil, nil, map[string]int{}, 0
			}
		case Slice:
			if x.c == nil {
				return nil
			}
			n := int(ex.concretize(x.len))
			st := under(b.Type().(*types.Signature).Params().At(0).Type()).(*types.Slice)
			for i := 0; i < n; i++ {
				ex.storeSlot(x.c, x.off+i, ex.zero(st.Elem()))
			}
		}
		return nil
	case "panic":
		iv, _ := ex.force(args[0]).(Iface)
		panic(goPanic{val: iv, msg: "panic: " + ex.show(iv)})
	case "recover":
		if fr.owner != nil && fr.owner.panicking != nil && !fr.owner.panicking.recovered {
			fr.owner.panicking.recovered = true
			return fr.owner.panicking.val
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Params().At(0).Type()
		if isString(t) || isFloat(t) {
			unsupported("min/max of %s", t)
		}
		r := args[0]
		for _, a := range args[1:] {
			x, y := ex.scalar(a), ex.scalar(r)
			var lt *Term
			if isSigned(t) {
				lt = tm.Slt(x, y)
			} else {
				lt = tm.Ult(x, y)
			}
			if b.Name() == "max" {
				lt = tm.Not(lt)
			}
			r = tm.Ite(lt, x, y)
		}
		return r
	case "ssa:wrapnilchk":
		p := ex.force(args[0])
		if q, ok := p.(Ptr); ok && q.c == nil {
			ex.rtPanic("value method called using nil pointer")
		}
		return p
	case "ssa:deferstack":
		return nil
	case "String":
		p := ex.forcePtr(args[0])
		n := ex.term64(args[1])
		if q, ok := p.(Ptr); ok {
			if q.c == nil {
				return Str{}
			}
			return ex.sliceToStr(Slice{q.c, q.i, n, n})
		}
	case "StringData":
		s := ex.force(args[0]).(Str)
		sl := ex.asSlice(s)
		if sl.c == nil || len(sl.c.slots) == 0 {
			return Ptr{}
		}
		return Ptr{sl.c, sl.off}
	case "SliceData":
		s := ex.asSlice(args[0])
		if s.c == nil {
			return Ptr{}
		}
		return Ptr{s.c, s.off}
	case "Slice":
		p := ex.forcePtr(args[0])
		n := ex.term64(args[1])
		if q, ok := p.(Ptr); ok {
			if q.c == nil {
				z := tm.Const(64, 0)
				return Slice{nil, 0, z, z}
			}
			return Slice{q.c, q.i, n, n}
		}
	}
	unsupported("builtin %s", b.Name())
	return nil
}

func (ex *Exec) term64(v Value) *Term {
	t := ex.scalar(v)
	if t.w < 64 {
		t = ex.tm.ZExt(t, 64)
	}
	return t
}

// show renders a value for messages.
func (ex *Exec) show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Term:
		if x.isConst() {
			return strconv.FormatUint(x.v, 10)
		}
		return "<sym>"
	case Str:
		if x.b == nil {
			return x.s
		}
		return "<symbolic string>"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if p, ok := x.v.(Ptr); ok && p.c != nil {
			if c, ok := p.c.slots[p.i].(*Cont); ok && len(c.slots) > 0 {
				if s, ok := c.slots[0].(Str); ok && s.b == nil {
					return s.s
				}
			}
			return x.t.String()
		}
		return ex.show(x.v)
	case Ptr:
		if x.c == nil {
			return "nil"
		}
		return "<ptr>"
	}
	return fmt.Sprintf("<%T>", v)
}
