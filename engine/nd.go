package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
)

func ndf(name string, f intrinsic) { reg(ndPath+"."+name, f) }

func initND() {
	scalarFn := func(name string, w uint8) {
		ndf(name, func(ex *Exec, c *callCtx) (Value, bool) {
			return ex.newVar(ex.argStr(c.args[0]), w), true
		})
	}
	for n, w := range map[string]uint8{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "I8": 8, "I16": 16, "I32": 32, "I64": 64, "Int": 64, "Bool": 0} {
		scalarFn(n, w)
	}
	ndf("Symbolic", func(ex *Exec, c *callCtx) (Value, bool) { return ex.tm.True, true })
	ndf("Range", func(ex *Exec, c *callCtx) (Value, bool) {
		lo, hi := ex.constInt(c.args[1]), ex.constInt(c.args[2])
		name := ex.argStr(c.args[0])
		if lo == hi {
			return ex.tm.Const(64, uint64(lo)), true
		}
		if lo >= 0 && hi < 1<<16 {
			// a narrow variable keeps intervals tight
			w := uint8(8)
			if hi > 255 {
				w = 16
			}
			t := ex.newVar(name, w)
			if hi < int(mask(w)) {
				ex.assumeND(ex.tm.Ule(t, ex.tm.Const(w, uint64(hi))))
			}
			if lo > 0 {
				ex.assumeND(ex.tm.Ule(ex.tm.Const(w, uint64(lo)), t))
			}
			return ex.tm.ZExt(t, 64), true
		}
		t := ex.newVar(name, 64)
		ex.assumeND(ex.tm.Sle(t, ex.tm.Const(64, uint64(hi))))
		ex.assumeND(ex.tm.Sle(ex.tm.Const(64, uint64(lo)), t))
		return t, true
	})
	ndf("Bytes", func(ex *Exec, c *callCtx) (Value, bool) {
		n := ex.constInt(c.args[1])
		return ex.symBytes(ex.argStr(c.args[0]), n, nil), true
	})
	ndf("BytesUpTo", func(ex *Exec, c *callCtx) (Value, bool) {
		n := ex.constInt(c.args[1])
		name := ex.argStr(c.args[0])
		w := uint8(8)
		if n > 255 {
			w = 16
		}
		l := ex.newVar(name+".len", w)
		if n < int(mask(w)) {
			ex.assumeND(ex.tm.Ule(l, ex.tm.Const(w, uint64(n))))
		}
		return ex.symBytes(name, n, ex.tm.ZExt(l, 64)), true
	})
	ndf("Choose", func(ex *Exec, c *callCtx) (Value, bool) {
		n := ex.constInt(c.args[1])
		if n <= 0 {
			panic(control{"assume", "empty choice"})
		}
		name := ex.argStr(c.args[0])
		t := ex.newVar(name, 16)
		k := ex.pickVar(t, n)
		return ex.tm.Const(64, uint64(k)), true
	})
	ndf("Concrete", func(ex *Exec, c *callCtx) (Value, bool) {
		t := ex.scalar(c.args[0])
		return ex.tm.Const(t.w, ex.concretize(t)), true
	})
	ndf("Assume", func(ex *Exec, c *callCtx) (Value, bool) {
		ex.assumeND(ex.scalar(c.args[0]))
		return nil, true
	})
	ndf("Assert", func(ex *Exec, c *callCtx) (Value, bool) {
		ex.assert(c.g, ex.scalar(c.args[0]), ex.argStr(c.args[1]))
		return nil, true
	})
	ndf("Cover", func(ex *Exec, c *callCtx) (Value, bool) {
		if ex.pos >= len(ex.prefix) {
			// reached under the current path condition, which is satisfiable
			ex.w.cover(ex.argStr(c.args[0]))
		}
		return nil, true
	})
	ndf("And", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.tm.And(ex.scalar(c.args[0]), ex.scalar(c.args[1])), true
	})
	ndf("Or", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.tm.Or(ex.scalar(c.args[0]), ex.scalar(c.args[1])), true
	})
	ndf("Implies", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.tm.Or(ex.tm.Not(ex.scalar(c.args[0])), ex.scalar(c.args[1])), true
	})
	ndf("Iff", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.tm.Eq(ex.scalar(c.args[0]), ex.scalar(c.args[1])), true
	})
	ite := func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.tm.Ite(ex.scalar(c.args[0]), ex.scalar(c.args[1]), ex.scalar(c.args[2])), true
	}
	for _, n := range []string{"IteU8", "IteU16", "IteU64", "IteInt", "IteBool"} {
		ndf(n, ite)
	}
	ndf("EqBytes", func(ex *Exec, c *callCtx) (Value, bool) {
		a, b := ex.asSlice(c.args[0]), ex.asSlice(c.args[1])
		return ex.strEq(ex.rawStr(a), ex.rawStr(b)), true
	})
	ndf("EqStr", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.eq(c.args[0], c.args[1], types.Typ[types.String]), true
	})
	ndf("AsTarget", func(ex *Exec, c *callCtx) (Value, bool) {
		e, _ := ex.force(c.args[0]).(Iface)
		t, _ := ex.force(c.args[1]).(Iface)
		if t.t == nil || e.t == nil {
			return ex.tm.False, true
		}
		p, ok := under(t.t).(*types.Pointer)
		if !ok {
			unsupported("errors.As with a target of type %s", t.t)
		}
		if it, isI := under(p.Elem()).(*types.Interface); isI {
			if !ex.implements(e.t, it) {
				return ex.tm.False, true
			}
			ex.store(c.g, t.v, e)
		} else if ex.sameType(e.t, p.Elem()) {
			ex.store(c.g, t.v, e.v)
		} else {
			return ex.tm.False, true
		}
		return ex.tm.True, true
	})
	ndf("At", func(ex *Exec, c *callCtx) (Value, bool) { // element i, or zero past the end; never forks
		s := ex.asSlice(c.args[0])
		i := ex.constInt(c.args[1])
		z := ex.tm.Const(8, 0)
		if s.c == nil || s.off+i >= len(s.c.slots) || i < 0 {
			return z, true
		}
		return ex.tm.Ite(ex.tm.Ult(ex.tm.Const(64, uint64(i)), s.len), ex.scalar(s.c.slots[s.off+i]), z), true
	})
	ndf("Select", func(ex *Exec, c *callCtx) (Value, bool) { // element at a symbolic index, zero outside; never forks
		s := ex.asSlice(c.args[0])
		idx := ex.term64(c.args[1])
		r := ex.tm.Const(8, 0)
		ts := ex.sliceTerms(s)
		for i := len(ts) - 1; i >= 0; i-- {
			r = ex.tm.Ite(ex.tm.And(ex.tm.Eq(idx, ex.tm.Const(64, uint64(i))), ex.tm.Ult(ex.tm.Const(64, uint64(i)), s.len)), ts[i], r)
		}
		return r, true
	})
	ndf("SameMem", func(ex *Exec, c *callCtx) (Value, bool) { // do two non-empty slices share their backing store?
		a, b := ex.asSlice(c.args[0]), ex.asSlice(c.args[1])
		return ex.tm.Bool(a.c != nil && a.c == b.c), true
	})
	ndf("Fill", func(ex *Exec, c *callCtx) (Value, bool) {
		name := ex.argStr(c.args[0])
		t, p, _, ok := ex.binTarget(c.args[1])
		if !ok || p == nil {
			unsupported("nd.Fill needs a pointer")
		}
		v := ex.freshVal(t, name)
		ex.store(c.g, p, v)
		return nil, true
	})
	ndf("Same", func(ex *Exec, c *callCtx) (Value, bool) {
		ta, pa, _, _ := ex.binTarget(c.args[0])
		tb, pb, _, _ := ex.binTarget(c.args[1])
		if ta == nil || tb == nil || !ex.sameType(ta, tb) {
			return ex.tm.False, true
		}
		return ex.sameDeep(ta, ex.load(nil, pa), ex.load(nil, pb)), true
	})
	ndf("SameType", func(ex *Exec, c *callCtx) (Value, bool) {
		a, b := ex.force(c.args[0]).(Iface), ex.force(c.args[1]).(Iface)
		return ex.tm.Bool(a.t != nil && b.t != nil && ex.sameType(a.t, b.t)), true
	})
	field := func(ex *Exec, v Value) (*types.Struct, *Cont, Ptr) {
		t, p, _, ok := ex.binTarget(v)
		if !ok {
			unsupported("nd field access needs a pointer")
		}
		st, ok := under(t).(*types.Struct)
		if !ok {
			unsupported("nd field access on %s", t)
		}
		q := p.(Ptr)
		return st, q.c.slots[q.i].(*Cont), q
	}
	ndf("NumField", func(ex *Exec, c *callCtx) (Value, bool) {
		st, _, _ := field(ex, c.args[0])
		return ex.tm.Const(64, uint64(st.NumFields())), true
	})
	ndf("FieldIndex", func(ex *Exec, c *callCtx) (Value, bool) {
		st, _, _ := field(ex, c.args[0])
		n := ex.argStr(c.args[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return ex.tm.Const(64, uint64(i)), true
			}
		}
		return ex.tm.Const(64, ^uint64(0)), true
	})
	ndf("FieldName", func(ex *Exec, c *callCtx) (Value, bool) {
		st, _, _ := field(ex, c.args[0])
		return Str{s: st.Field(ex.constInt(c.args[1])).Name()}, true
	})
	ndf("FieldType", func(ex *Exec, c *callCtx) (Value, bool) {
		st, _, _ := field(ex, c.args[0])
		return Str{s: under(st.Field(ex.constInt(c.args[1])).Type()).String()}, true
	})
	ndf("FieldBits", func(ex *Exec, c *callCtx) (Value, bool) {
		_, cont, _ := field(ex, c.args[0])
		v := cont.slots[ex.constInt(c.args[1])]
		k := ex.constInt(c.args[2])
		if a, ok := v.(*Cont); ok {
			v = a.slots[k]
		}
		t := ex.scalar(v)
		if t.w == 0 {
			return ex.tm.Ite(t, ex.tm.Const(64, 1), ex.tm.Const(64, 0)), true
		}
		return ex.tm.ZExt(t, 64), true
	})
	ndf("SetFieldBits", func(ex *Exec, c *callCtx) (Value, bool) {
		_, cont, _ := field(ex, c.args[0])
		i := ex.constInt(c.args[1])
		k := ex.constInt(c.args[2])
		t := ex.scalar(c.args[3])
		if a, ok := cont.slots[i].(*Cont); ok {
			cont, i = a, k
		}
		w := ex.scalar(cont.slots[i]).w
		if w == 0 {
			ex.setSlot(cont, i, ex.tm.Not(ex.tm.Eq(t, ex.tm.Const(t.w, 0))))
		} else {
			ex.setSlot(cont, i, ex.tm.Extract(t, 0, w))
		}
		return nil, true
	})
	ndf("FieldPtr", func(ex *Exec, c *callCtx) (Value, bool) {
		st, cont, _ := field(ex, c.args[0])
		n := ex.argStr(c.args[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return Iface{types.NewPointer(st.Field(i).Type()), Ptr{cont, i}}, true
			}
		}
		unsupported("no field %s", n)
		return nil, true
	})
	ndf("FieldAny", func(ex *Exec, c *callCtx) (Value, bool) {
		st, cont, _ := field(ex, c.args[0])
		i := ex.constInt(c.args[1])
		return Iface{st.Field(i).Type(), ex.copyVal(cont.slots[i])}, true
	})
	ndf("Param", func(ex *Exec, c *callCtx) (Value, bool) {
		n := ex.argStr(c.args[0])
		if v, ok := ex.item.h.Params[n]; ok {
			return ex.tm.Const(64, uint64(v)), true
		}
		return c.args[1], true
	})
	ndf("Note", func(ex *Exec, c *callCtx) (Value, bool) {
		s := ex.force(c.args[1]).(Str)
		if s.b == nil {
			ex.pathInfo[ex.argStr(c.args[0])] = s.s
		}
		return nil, true
	})
	ndf("Yield", nop)
	ndf("Event", func(ex *Exec, c *callCtx) (Value, bool) {
		ex.event(c.g, ex.argStr(c.args[0]))
		return nil, true
	})
	ndf("Hidden", func(ex *Exec, c *callCtx) (Value, bool) { // prevents schedule points (bookkeeping of the harness)
		return nil, true
	})
	// ---- formatting ----
	ndf("Format", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.format(ex.argStr(c.args[0]), ex.anySlice(c.args[1])), true
	})
	ndf("FormatLn", func(ex *Exec, c *callCtx) (Value, bool) {
		var out []*Term
		for i, a := range ex.anySlice(c.args[0]) {
			if i > 0 {
				out = append(out, ex.tm.Const(8, ' '))
			}
			out = append(out, ex.formatArg("%v", a)...)
		}
		return ex.mkStr(out), true
	})
	ndf("ShowsOnce", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.showsLine(ex.force(c.args[0]).(Str), ex.argStr(c.args[1]), c.args[2], 1), true
	})
	ndf("Shows", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.showsLine(ex.force(c.args[0]).(Str), ex.argStr(c.args[1]), c.args[2], int(ex.concretize(ex.scalar(c.args[3])))), true
	})
	ndf("ShowsNone", func(ex *Exec, c *callCtx) (Value, bool) {
		ls := ex.lines(ex.force(c.args[0]).(Str))
		lab := ex.argStr(c.args[1]) + ":"
		for _, l := range ls {
			if ex.hasPrefix(l, lab) {
				return ex.tm.False, true
			}
		}
		return ex.tm.True, true
	})
	ndf("NumLines", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.tm.Const(64, uint64(len(ex.lines(ex.force(c.args[0]).(Str))))), true
	})
	// ---- encoding/binary ----
	ndf("BinSize", func(ex *Exec, c *callCtx) (Value, bool) {
		t, p, s, ok := ex.binTarget(c.args[0])
		n := -1
		switch {
		case t == nil:
		case !ok:
			n = binSize(t)
		case p != nil:
			n = binSize(t)
			if st, isS := under(t).(*types.Slice); isS {
				sl := ex.asSlice(ex.load(nil, p))
				if k := binSize(st.Elem()); k >= 0 {
					n = k * int(ex.concretize(sl.len))
				}
			}
		default:
			if k := binSize(under(t).(*types.Slice).Elem()); k >= 0 {
				n = k * int(ex.concretize(s.len))
			}
		}
		return ex.tm.Const(64, uint64(int64(n))), true
	})
	ndf("BinEncode", func(ex *Exec, c *callCtx) (Value, bool) {
		t, p, s, ok := ex.binTarget(c.args[0])
		big := ex.branch(ex.scalar(c.args[1]))
		var v Value
		switch {
		case !ok:
			v = ex.force(c.args[0]).(Iface).v
		case p != nil:
			if q, isP := p.(Ptr); isP && q.c == nil {
				ex.nilDeref()
			}
			v = ex.load(c.g, p)
			if st, isS := under(t).(*types.Slice); isS {
				s = ex.asSlice(v)
				t = st
				v = nil
			}
		}
		var out []*Term
		if v != nil {
			out = ex.binEncode(t, v, big, nil)
		} else {
			et := under(t).(*types.Slice).Elem()
			for i := 0; i < int(ex.concretize(s.len)); i++ {
				out = ex.binEncode(et, s.c.slots[s.off+i], big, out)
			}
		}
		return ex.bytesSlice(out), true
	})
	ndf("BinDecode", func(ex *Exec, c *callCtx) (Value, bool) {
		bs := ex.asSlice(c.args[0])
		ts := ex.sliceTerms(bs)
		big := ex.branch(ex.scalar(c.args[1]))
		t, p, s, ok := ex.binTarget(c.args[2])
		if !ok {
			unsupported("binary decoding into %v", t)
		}
		if p != nil {
			old := ex.load(nil, p)
			if st, isS := under(t).(*types.Slice); isS {
				s = ex.asSlice(old)
				t = st
				p = nil
			} else {
				v, _ := ex.binDecode(t, ts, big, old, true)
				ex.store(c.g, p, v)
				return nil, true
			}
		}
		et := under(t).(*types.Slice).Elem()
		for i := 0; i < int(ex.concretize(s.len)); i++ {
			var v Value
			v, ts = ex.binDecode(et, ts, big, s.c.slots[s.off+i], true)
			ex.storeSlot(s.c, s.off+i, v)
		}
		return nil, true
	})
}

func (ex *Exec) rawStr(s Slice) Str {
	if s.c == nil {
		return Str{}
	}
	ts := ex.sliceTerms(s)
	if len(ts) == 0 {
		return Str{}
	}
	return Str{b: ts, n: s.len}
}

func (ex *Exec) anySlice(v Value) []Value {
	s := ex.asSlice(v)
	if s.c == nil {
		return nil
	}
	n := int(ex.concretize(s.len))
	return s.c.slots[s.off : s.off+n]
}

func (ex *Exec) constInt(v Value) int {
	t := ex.scalar(v)
	return int(int64(ex.concretize(t)))
}

func (ex *Exec) symBytes(name string, n int, l *Term) Slice {
	c := &Cont{slots: make([]Value, n), epoch: ex.epoch, name: name}
	k := ex.pathVars[name+"[]"]
	ex.pathVars[name+"[]"] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s~%d", name, k)
	}
	for i := range c.slots {
		c.slots[i] = ex.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
	}
	cp := ex.tm.Const(64, uint64(n))
	if l == nil {
		l = cp
	}
	return Slice{c, 0, l, cp}
}

func (ex *Exec) freshVal(t types.Type, name string) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			unsupported("nd.Fill of a string")
		}
		return ex.newVar(name, uint8(basicWidth(u)))
	case *types.Array:
		c := &Cont{slots: make([]Value, int(u.Len())), epoch: ex.epoch}
		for i := range c.slots {
			c.slots[i] = ex.freshVal(u.Elem(), fmt.Sprintf("%s[%d]", name, i))
		}
		return c
	case *types.Struct:
		c := &Cont{slots: make([]Value, u.NumFields()), epoch: ex.epoch}
		for i := range c.slots {
			c.slots[i] = ex.freshVal(u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return c
	}
	return ex.zero(t)
}

func (ex *Exec) sameDeep(t types.Type, a, b Value) *Term {
	tm := ex.tm
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ex.eq(a, b, t)
		}
		x, y := ex.scalar(a), ex.scalar(b)
		switch u.Kind() {
		case types.Float32:
			if x == y {
				return tm.True
			}
			return tm.Or(tm.Eq(x, y), tm.And(tm.isNaN32(x), tm.isNaN32(y)))
		case types.Float64:
			return tm.Or(tm.Eq(x, y), tm.And(tm.isNaN64(x), tm.isNaN64(y)))
		}
		return tm.Eq(x, y)
	case *types.Array:
		r := tm.True
		x, y := a.(*Cont), b.(*Cont)
		for i := range x.slots {
			r = tm.And(r, ex.sameDeep(u.Elem(), x.slots[i], y.slots[i]))
		}
		return r
	case *types.Struct:
		r := tm.True
		x, y := a.(*Cont), b.(*Cont)
		for i := range x.slots {
			r = tm.And(r, ex.sameDeep(u.Field(i).Type(), x.slots[i], y.slots[i]))
		}
		return r
	case *types.Slice:
		return ex.strEq(ex.rawStr(ex.asSlice(a)), ex.rawStr(ex.asSlice(b)))
	}
	return ex.eq(a, b, t)
}

func (ex *Exec) assumeND(t *Term) {
	t = ex.simp(t)
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(control{"assume", ""})
	}
	if ex.nest != nil {
		unsupported("assumption inside a merged call")
	}
	if ex.pos < len(ex.prefix) {
		ex.assume(t)
		ex.modelHolds(t)
		return
	}
	ex.ensureModel()
	if ex.model.eval(t) == 0 {
		if m := ex.guess(t); m != nil {
			ex.assume(t)
			ex.model = m
			return
		}
		r, m := ex.check(t, true)
		switch r {
		case Unsat:
			panic(control{"assume", ""})
		case Unknown:
			ex.w.note("an assumption could not be decided in time; the path is outside the bound")
			ex.w.stats.unknown++
			panic(control{"unknown", "assumption"})
		}
		ex.model = m
	}
	ex.assume(t)
}

func (ex *Exec) assert(g *Goro, c *Term, msg string) {
	if ex.nest != nil {
		unsupported("assertion inside a merged call")
	}
	c0 := c
	c = ex.simp(c)
	if ex.pos < len(ex.prefix) {
		// decided on the path this one branched from
		if c.isFalse() {
			panic(control{"infeasible", ""})
		}
		ex.addFact(c, true)
		return
	}
	ex.w.stats.asserts++
	ex.w.assertHit(msg)
	ex.confirmLin()
	if c.isTrue() {
		if c0.isTrue() {
			ex.w.stats.assertRewrite++
		} else {
			ex.w.stats.assertPath++
		}
		return
	}
	ex.ensureModel()
	if ex.model.eval(c) == 0 {
		ex.w.violation(ex, "assert", msg, ex.model)
		panic(control{"violated", msg})
	}
	c1 := ex.dropValid(c)
	if c1.isTrue() {
		ex.w.stats.assertSMT++
		ex.addFact(c, true)
		return
	}
	for _, part := range conjuncts(c1) {
		if ex.model.eval(part) == 0 {
			ex.w.violation(ex, "assert", msg, ex.model)
			panic(control{"violated", msg})
		}
		r, m := ex.check(ex.tm.Not(part), true)
		switch r {
		case Unknown:
			ex.w.stats.unknown++
			ex.w.note("assertion %q not decided within the time limit on some path", msg)
			return
		case Sat:
			ex.w.violation(ex, "assert", msg, m)
			panic(control{"violated", msg})
		}
	}
	ex.w.stats.assertSMT++
	ex.addFact(c, true)
}

func conjuncts(t *Term) []*Term {
	if t.op != OAnd {
		return []*Term{t}
	}
	return append(conjuncts(t.a), conjuncts(t.b)...)
}

// dropValid removes the parts of a conjunction that the solver finds valid whatever the path; since paths
// share terms, each is asked about once.
func (ex *Exec) dropValid(c *Term) *Term {
	if c.op != OAnd {
		return c
	}
	if ex.valid == nil {
		ex.valid = map[int32]int8{}
	}
	r := ex.tm.True
	for _, t := range conjuncts(c) {
		v := ex.valid[t.id]
		if v == 0 {
			v = 2
			if ex.model.eval(t) != 0 {
				if ex.validator == nil {
					ex.validator = NewSolver(ex.tm, ex.w.cfg.Solver, 2000)
				}
				s := ex.validator
				t0 := s.Time
				res, _ := s.Check(nil, ex.tm.Not(t), false)
				ex.w.stats.queries++
				ex.w.stats.solver += s.Time - t0
				switch res {
				case Unsat:
					v = 1
					ex.w.stats.nunsat++
				case Sat:
					ex.w.stats.nsat++
				default:
					v = 3
				}
			}
			ex.valid[t.id] = v
		}
		if v != 1 {
			r = ex.tm.And(r, t)
		}
	}
	return r
}

// confirmLin has the solver confirm equalities that the linear normal form decided, on the terms as they
// were before normalisation; only a sample of the large ones is within its reach.
func (ex *Exec) confirmLin() {
	p := ex.tm.pending
	ex.tm.pending = nil
	for _, t := range p {
		if ex.w.confirms >= 12 || ex.w.confirmFails >= 2 {
			return
		}
		if ex.w.confirmer == nil || ex.w.confirmer.tm != ex.tm {
			if ex.w.confirmer != nil {
				ex.w.confirmer.Close()
			}
			ex.w.confirmer = NewSolver(ex.tm, ex.w.cfg.Solver, 1000)
		}
		s := ex.w.confirmer
		t0 := s.Time
		r, _ := s.Check(nil, ex.tm.Not(t), false)
		st := ex.w.stats
		st.queries++
		st.solver += s.Time - t0
		switch r {
		case Sat:
			panic("internal: the solver refutes the linear normal form")
		case Unsat:
			ex.w.confirms++
			st.nunsat++
			st.linConfirmed++
		default:
			ex.w.confirmFails++
			st.nunk++
			st.linTimeout++
		}
	}
}

// pickVar forks over the n values of a fresh variable t.
func (ex *Exec) pickVar(t *Term, n int) int {
	if n == 1 {
		ex.assume(ex.tm.Eq(t, ex.tm.Const(t.w, 0)))
		return 0
	}
	if ex.replaying() {
		k := ex.nextReplay()
		c := ex.tm.Eq(t, ex.tm.Const(t.w, k))
		ex.assume(c)
		ex.modelHolds(c)
		return int(k)
	}
	ex.ensureModel()
	with := func(k int) *Model {
		m := newModel()
		for id, v := range ex.model.vals {
			m.vals[id] = v
		}
		m.vals[t.id] = uint64(k)
		return m
	}
	for i := n - 1; i >= 1; i-- {
		ex.alternative(uint64(i), with(i))
		ex.w.stats.forks++
	}
	ex.record(0)
	ex.model = with(0)
	ex.assume(ex.tm.Eq(t, ex.tm.Const(t.w, 0)))
	return 0
}

// ---- rendered text ----

func (ex *Exec) lines(s Str) [][]*Term {
	s = ex.strFix(s)
	var out [][]*Term
	var cur []*Term
	for _, t := range ex.strTerms(s) {
		if t.isConst() && t.v == '\n' {
			out = append(out, cur)
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}
	return out
}

func (ex *Exec) hasPrefix(l []*Term, p string) bool {
	if len(l) < len(p) {
		return false
	}
	for i := 0; i < len(p); i++ {
		if !l[i].isConst() || byte(l[i].v) != p[i] {
			return false
		}
	}
	return true
}

func (ex *Exec) showsLine(s Str, label string, v Value, want int) *Term {
	tm := ex.tm
	iv := ex.force(v).(Iface)
	n := 0
	res := tm.False
	for _, l := range ex.lines(s) {
		if !ex.hasPrefix(l, label+":") {
			continue
		}
		n++
		rest := l[len(label)+1:]
		for len(rest) > 0 && rest[0].isConst() && (rest[0].v == '\t' || rest[0].v == ' ') {
			rest = rest[1:]
		}
		res = tm.Or(res, ex.shows(rest, iv))
	}
	if n != want {
		return tm.False
	}
	return res
}

// shows: does the text start with a rendering of iv (followed by nothing, blank or a unit)?
func (ex *Exec) shows(rest []*Term, iv Iface) *Term {
	tm := ex.tm
	if len(rest) > 0 {
		for _, a := range ex.fmtAtoms {
			if a.t == rest[0] {
				if !ex.sameType(a.v.t, iv.t) {
					return tm.False
				}
				for _, x := range rest[1:] { // one value per line
					for _, o := range ex.fmtAtoms {
						if o.t == x {
							return tm.False
						}
					}
				}
				return tm.And(ex.faithful(a.verb, iv), ex.sameDeep(iv.t, a.v.v, iv.v))
			}
		}
	}
	// literal text
	var want []*Term
	switch x := iv.v.(type) {
	case Str:
		want = ex.strFixTerms(x)
	case *Term:
		b, ok := under(iv.t).(*types.Basic)
		if !ok || !x.isConst() {
			return tm.False
		}
		want = ex.strTerms(Str{s: fmt.Sprintf("%v", nativeScalar(b, x.v))})
	default:
		return tm.False
	}
	if len(rest) < len(want) {
		return tm.False
	}
	r := tm.True
	for i := range want {
		r = tm.And(r, tm.Eq(rest[i], want[i]))
	}
	return r
}

// faithful: does the verb show the value? It is tried out on a few values of the kind; where the text of one of them
// does not tell the value, the value must not be that one.
func (ex *Exec) faithful(verb string, iv Iface) *Term {
	tm := ex.tm
	if verb == "%v" || ex.prog.hasMethod(iv.t, "String") {
		return tm.True
	}
	t, v := under(iv.t), iv.v
	if a, ok := t.(*types.Array); ok {
		c, ok := v.(*Cont)
		if !ok || len(c.slots) == 0 || strings.IndexByte("sxXq", verb[len(verb)-1]) >= 0 || ex.prog.hasMethod(a.Elem(), "String") {
			return tm.True
		}
		t, v = under(a.Elem()), c.slots[0]
	}
	b, ok := t.(*types.Basic)
	if !ok {
		return tm.True
	}
	x, ok := v.(*Term)
	if !ok {
		return tm.True
	}
	r := tm.True
	for _, k := range sampleValues(b) {
		if !tellsValue(fmt.Sprintf(verb, nativeScalar(b, k)), nativeScalar(b, k), verb) {
			if b.Kind() == types.Bool {
				if k == 1 {
					x = tm.Not(x)
				}
				return x
			}
			r = tm.And(r, tm.Not(tm.Eq(x, tm.Const(x.w, k))))
		}
	}
	return r
}

func sampleValues(b *types.Basic) []uint64 {
	switch b.Kind() {
	case types.Bool:
		return []uint64{0, 1}
	case types.Float32:
		var out []uint64
		for _, f := range []float32{1.2345679, -98765.43, 1.1754944e-38, 3.4028235e38} {
			out = append(out, uint64(math.Float32bits(f)))
		}
		return out
	case types.Float64:
		var out []uint64
		for _, f := range []float64{1.2345678901234567, -98765.43210987654, 2.2250738585072014e-308, 1.7976931348623157e308} {
			out = append(out, math.Float64bits(f))
		}
		return out
	case types.Int8, types.Uint8:
		return []uint64{0x5b, 0xa7}
	case types.Int16, types.Uint16:
		return []uint64{0x5bc3, 0xa7f1}
	case types.Int32, types.Uint32:
		return []uint64{0x5bc39d17, 0xa7f10b35}
	case types.Int64, types.Uint64, types.Int, types.Uint:
		return []uint64{0x5bc39d17e8046a2f, 0xa7f10b35c9d24e86}
	}
	return nil
}

// tellsValue: can the value be read off the text?
func tellsValue(text string, v any, verb string) bool {
	text = strings.TrimSpace(text)
	if text == fmt.Sprint(v) {
		return true
	}
	base := map[byte]int{'x': 16, 'X': 16, 'o': 8, 'O': 8, 'b': 2, 'd': 10}[verb[len(verb)-1]]
	switch x := v.(type) {
	case float32:
		f, err := strconv.ParseFloat(text, 32)
		return err == nil && float32(f) == x
	case float64:
		f, err := strconv.ParseFloat(text, 64)
		return err == nil && f == x
	case bool:
		return false
	}
	if base == 0 {
		return false
	}
	text = strings.ToLower(text)
	for _, p := range []string{"0x", "0o", "0b"} {
		text = strings.TrimPrefix(text, p)
		text = strings.Replace(text, "-"+p, "-", 1)
	}
	if n, err := strconv.ParseInt(text, base, 64); err == nil {
		return fmt.Sprint(n) == fmt.Sprint(v)
	}
	n, err := strconv.ParseUint(text, base, 64)
	return err == nil && fmt.Sprint(n) == fmt.Sprint(v)
}
