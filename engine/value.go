package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Str, Ptr, ViewPtr, SymPtr, *Cont (struct or array by value), Slice, Iface,
// *Closure, *MapObj, *ChanObj, Tuple, *Choice, *mapIter.
type Value interface{}

type Tuple []Value

// Cont holds the slots of a struct, an array, or a heap cell group.
type Cont struct {
	slots    []Value
	epoch    int32
	aux      *Aux
	shadow   []*shadowCell
	shadowOf *Item
	name     string // for race reports
}

// Aux is the state of a synchronisation object living in a Cont.
type Aux struct {
	writer  *Goro // exclusive holder
	locked  bool
	readers int
	pend    map[*Goro]bool
	wg      int
	vc      VC // release clock (writers)
	rvc     VC // release clock (readers)
}

type Ptr struct {
	c *Cont
	i int
}

func (p Ptr) isNil() bool { return p.c == nil }

// ViewPtr points to an array that is a window of a larger container.
type ViewPtr struct {
	c      *Cont
	off, n int
}

// SymPtr points to element off+idx of c, 0 <= idx < n.
type SymPtr struct {
	c   *Cont
	off int
	idx *Term
	n   int
}

type Slice struct {
	c        *Cont
	off      int
	len, cap *Term
}

// Str is a string: concrete (b == nil) or symbolic bytes with a possibly symbolic length.
type Str struct {
	s string
	b []*Term
	n *Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
}

type MapObj struct {
	keys   []Value
	vals   []Value
	dead   []bool
	index  map[string]int
	live   int
	epoch  int32
	key    types.Type
	shad   *shadowCell
	shadOf *Item
	sym    bool // has symbolic keys
}

type mapIter struct {
	m   *MapObj
	pos int
	s   *Str
}

type Choice struct {
	guards []*Term // exclusive and exhaustive under the path condition
	vals   []Value
}

type ChanObj struct {
	id       int
	cap      int
	buf      []Value
	bufVC    []VC
	closed   bool
	closeVC  VC
	recvq    []*waiter
	sendq    []*waiter
	epoch    int32
	elem     types.Type
	slotVC   []VC
	nilBlock bool
}

func bytesOf(s string) []byte { return []byte(s) }

type control struct {
	kind string // infeasible, assume, unsupported, stop, deadlock, steps, mergeabort, violation-stop
	msg  string
}

type goPanic struct {
	val Value // Iface
	msg string
}

func unsupported(f string, a ...any) {
	panic(control{"unsupported", fmt.Sprintf(f, a...)})
}

// ---- types ----

func under(t types.Type) types.Type { return t.Underlying() }

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func basicWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Float64, types.Uintptr, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return -1
}

func widthOf(t types.Type) int {
	if b, ok := under(t).(*types.Basic); ok {
		return basicWidth(b)
	}
	return -1
}

func (ex *Exec) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		w := basicWidth(u)
		if w < 0 {
			if u.Info()&types.IsComplex != 0 {
				return &Cont{slots: []Value{ex.tm.Const(64, 0), ex.tm.Const(64, 0)}, epoch: ex.epoch}
			}
			unsupported("zero of %s", t)
		}
		if w == 0 {
			return ex.tm.False
		}
		return ex.tm.Const(uint8(w), 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		z := ex.tm.Const(64, 0)
		return Slice{nil, 0, z, z}
	case *types.Struct:
		c := &Cont{slots: make([]Value, u.NumFields()), epoch: ex.epoch}
		for i := range c.slots {
			c.slots[i] = ex.zero(u.Field(i).Type())
		}
		return c
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			unsupported("array of %d elements", n)
		}
		c := &Cont{slots: make([]Value, n), epoch: ex.epoch}
		if n > 0 {
			z := ex.zero(u.Elem())
			for i := range c.slots {
				if i > 0 {
					if _, agg := z.(*Cont); agg {
						z = ex.zero(u.Elem())
					}
				}
				c.slots[i] = z
			}
		}
		return c
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = ex.zero(u.At(i).Type())
		}
		return tu
	}
	unsupported("zero of %s", t)
	return nil
}

// copyVal deep-copies aggregates so that memory and registers never share mutable containers.
func (ex *Exec) copyVal(v Value) Value {
	c, ok := v.(*Cont)
	if !ok {
		if ch, ok := v.(*Choice); ok {
			for _, x := range ch.vals {
				if _, agg := x.(*Cont); agg {
					n := &Choice{guards: ch.guards, vals: make([]Value, len(ch.vals))}
					for i, y := range ch.vals {
						n.vals[i] = ex.copyVal(y)
					}
					return n
				}
			}
		}
		return v
	}
	n := &Cont{slots: make([]Value, len(c.slots)), epoch: ex.epoch}
	for i, s := range c.slots {
		if _, agg := s.(*Cont); agg {
			n.slots[i] = ex.copyVal(s)
		} else {
			n.slots[i] = s
		}
	}
	return n
}

type undoRec struct {
	c   *Cont
	i   int
	old Value
	f   func()
}

func (ex *Exec) setSlot(c *Cont, i int, v Value) {
	if c.epoch < ex.epoch {
		ex.undo = append(ex.undo, undoRec{c: c, i: i, old: c.slots[i]})
	}
	c.slots[i] = v
}

// storeSlot stores v into slot i, preserving the identity of embedded aggregates.
func (ex *Exec) storeSlot(c *Cont, i int, v Value) {
	if ch, ok := v.(*Choice); ok {
		if _, agg := c.slots[i].(*Cont); agg {
			v = ex.force(ch)
		}
	}
	if src, ok := v.(*Cont); ok {
		if dst, ok := c.slots[i].(*Cont); ok && len(dst.slots) == len(src.slots) {
			ex.copyInto(dst, src)
			return
		}
		ex.setSlot(c, i, ex.copyVal(src))
		return
	}
	ex.setSlot(c, i, v)
}

func (ex *Exec) copyInto(dst, src *Cont) {
	if dst == src {
		return
	}
	for i, v := range src.slots {
		if sc, ok := v.(*Cont); ok {
			if dc, ok := dst.slots[i].(*Cont); ok && len(dc.slots) == len(sc.slots) {
				ex.copyInto(dc, sc)
				continue
			}
			v = ex.copyVal(sc)
		}
		ex.setSlot(dst, i, v)
	}
	if dst.aux != nil {
		old := dst.aux
		if dst.epoch < ex.epoch {
			ex.undo = append(ex.undo, undoRec{f: func() { dst.aux = old }})
		}
		dst.aux = nil
	}
}

func (ex *Exec) rollback(mark int) {
	for len(ex.undo) > mark {
		r := ex.undo[len(ex.undo)-1]
		ex.undo = ex.undo[:len(ex.undo)-1]
		if r.f != nil {
			r.f()
		} else {
			r.c.slots[r.i] = r.old
		}
	}
}

// ---- strings ----

func (ex *Exec) strLen(s Str) *Term {
	if s.b == nil {
		return ex.tm.Const(64, uint64(len(s.s)))
	}
	return s.n
}

func (ex *Exec) strByte(s Str, i int) *Term {
	if s.b == nil {
		return ex.tm.Const(8, uint64(s.s[i]))
	}
	return s.b[i]
}

// strConc gives a string with concrete length (forking when needed).
func (ex *Exec) strFix(s Str) Str {
	if s.b == nil {
		return s
	}
	if !s.n.isConst() {
		n := ex.concretize(s.n)
		s = Str{b: s.b[:n], n: ex.tm.Const(64, n)}
	} else if int(s.n.v) < len(s.b) {
		s.b = s.b[:s.n.v]
	}
	return ex.strNorm(s)
}

func (ex *Exec) strNorm(s Str) Str {
	if s.b == nil {
		return s
	}
	for _, t := range s.b {
		if !t.isConst() {
			return s
		}
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(t.v)
	}
	return Str{s: string(b)}
}

func (ex *Exec) mkStr(b []*Term) Str {
	if len(b) == 0 {
		return Str{}
	}
	return ex.strNorm(Str{b: b, n: ex.tm.Const(64, uint64(len(b)))})
}

func (ex *Exec) strTerms(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = ex.tm.Const(8, uint64(s.s[i]))
	}
	return r
}

// ---- equality ----

func (ex *Exec) typeID(t types.Type) int {
	if id, ok := ex.typeIDs[t]; ok {
		return id
	}
	if v := ex.typeMap.At(t); v != nil {
		id := v.(int)
		ex.typeIDs[t] = id
		return id
	}
	id := ex.typeMap.Len() + 1
	ex.typeMap.Set(t, id)
	ex.typeIDs[t] = id
	return id
}

func (ex *Exec) sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return ex.typeID(a) == ex.typeID(b)
}

// eq computes a == b as a boolean term (Go semantics for comparable values).
func (ex *Exec) eq(a, b Value, t types.Type) *Term {
	tm := ex.tm
	if ch, ok := a.(*Choice); ok {
		r := tm.False
		for i, v := range ch.vals {
			r = tm.Or(r, tm.And(ch.guards[i], ex.eq(v, b, t)))
		}
		return r
	}
	if _, ok := b.(*Choice); ok {
		return ex.eq(b, a, t)
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if t != nil && isFloat(t) {
			return tm.FOp(OFEq, 0, x, y)
		}
		return tm.Eq(x, y)
	case Str:
		y := b.(Str)
		return ex.strEq(x, y)
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return tm.Bool(x == y)
		case ViewPtr:
			return tm.Bool(false)
		case SymPtr:
			return ex.eq(ex.forcePtr(y), a, t)
		}
	case ViewPtr:
		if y, ok := b.(ViewPtr); ok {
			return tm.Bool(x == y)
		}
		return tm.False
	case SymPtr:
		return ex.eq(ex.forcePtr(x), b, t)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsupported("interface comparison with %T", b)
		}
		if x.t == nil || y.t == nil {
			return tm.Bool(x.t == nil && y.t == nil)
		}
		if !ex.sameType(x.t, y.t) {
			return tm.False
		}
		if !types.Comparable(x.t) {
			ex.rtPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return ex.eq(x.v, y.v, x.t)
	case *Cont:
		y := b.(*Cont)
		r := tm.True
		for i := range x.slots {
			var et types.Type
			switch u := under(t).(type) {
			case *types.Struct:
				if u.Field(i).Name() == "_" {
					continue
				}
				et = u.Field(i).Type()
			case *types.Array:
				et = u.Elem()
			}
			r = tm.And(r, ex.eq(x.slots[i], y.slots[i], et))
		}
		return r
	case *Closure:
		y, _ := b.(*Closure)
		return tm.Bool(x == y)
	case *MapObj:
		y, _ := b.(*MapObj)
		return tm.Bool(x == y)
	case *ChanObj:
		y, _ := b.(*ChanObj)
		return tm.Bool(x == y)
	case Slice:
		y := b.(Slice)
		if x.c == nil || y.c == nil {
			return tm.Bool(x.c == nil && y.c == nil)
		}
		unsupported("slice comparison")
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (ex *Exec) strEq(x, y Str) *Term {
	tm := ex.tm
	if x.b == nil && y.b == nil {
		return tm.Bool(x.s == y.s)
	}
	r := tm.Eq(ex.strLen(x), ex.strLen(y))
	if r.isFalse() {
		return r
	}
	xb, yb := ex.strTerms(x), ex.strTerms(y)
	n := min(len(xb), len(yb))
	lx := ex.strLen(x)
	for i := 0; i < n; i++ {
		e := tm.Eq(xb[i], yb[i])
		if e.isTrue() {
			continue
		}
		in := tm.Ult(tm.Const(64, uint64(i)), lx)
		r = tm.And(r, tm.Or(tm.Not(in), e))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// ---- merging ----

// ite builds a value that is a when g holds and b otherwise.
func (ex *Exec) ite(g *Term, a, b Value) Value {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return ex.tm.Ite(g, x, y)
		}
	case *Cont:
		if y, ok := b.(*Cont); ok && len(x.slots) == len(y.slots) {
			if x == y {
				return x
			}
			n := &Cont{slots: make([]Value, len(x.slots)), epoch: ex.epoch}
			for i := range n.slots {
				n.slots[i] = ex.ite(g, x.slots[i], y.slots[i])
			}
			return n
		}
	case Tuple:
		y := b.(Tuple)
		n := make(Tuple, len(x))
		for i := range n {
			n[i] = ex.ite(g, x[i], y[i])
		}
		return n
	case Slice:
		if y, ok := b.(Slice); ok && x.c == y.c && x.off == y.off {
			return Slice{x.c, x.off, ex.tm.Ite(g, x.len, y.len), ex.tm.Ite(g, x.cap, y.cap)}
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x == y {
			return x
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return x
		}
	case *MapObj:
		if y, ok := b.(*MapObj); ok && x == y {
			return x
		}
	case *ChanObj:
		if y, ok := b.(*ChanObj); ok && x == y {
			return x
		}
	case Str:
		if y, ok := b.(Str); ok {
			if x.b == nil && y.b == nil && x.s == y.s {
				return x
			}
			xl, yl := ex.strLen(x), ex.strLen(y)
			if len(ex.strTerms(x)) == len(ex.strTerms(y)) && xl == yl {
				xb, yb := ex.strTerms(x), ex.strTerms(y)
				nb := make([]*Term, len(xb))
				for i := range nb {
					nb[i] = ex.tm.Ite(g, xb[i], yb[i])
				}
				return Str{b: nb, n: xl}
			}
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if x.t == nil && y.t == nil {
				return x
			}
			if x.t != nil && y.t != nil && ex.sameType(x.t, y.t) {
				m := ex.ite(g, x.v, y.v)
				if _, isCh := m.(*Choice); !isCh {
					return Iface{x.t, m}
				}
			}
		}
	}
	return ex.mkChoice(g, a, b)
}

func (ex *Exec) sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term, Ptr, *Closure, *MapObj, *ChanObj, ViewPtr, *Cont:
		return a == b
	case Iface:
		y, ok := b.(Iface)
		return ok && (x.t == nil && y.t == nil || x.t != nil && y.t != nil && ex.sameType(x.t, y.t) && ex.sameVal(x.v, y.v))
	case Str:
		y, ok := b.(Str)
		return ok && x.b == nil && y.b == nil && x.s == y.s
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	}
	return false
}

func (ex *Exec) mkChoice(g *Term, a, b Value) Value {
	ch := &Choice{}
	add := func(g *Term, v Value) {
		if g.isFalse() {
			return
		}
		for i, w := range ch.vals {
			if ex.sameVal(v, w) {
				ch.guards[i] = ex.tm.Or(ch.guards[i], g)
				return
			}
		}
		ch.guards = append(ch.guards, g)
		ch.vals = append(ch.vals, v)
	}
	addAll := func(g *Term, v Value) {
		if c, ok := v.(*Choice); ok {
			for i := range c.vals {
				add(ex.tm.And(g, c.guards[i]), c.vals[i])
			}
			return
		}
		add(g, v)
	}
	addAll(g, a)
	addAll(ex.tm.Not(g), b)
	if len(ch.vals) == 1 {
		return ch.vals[0]
	}
	return ch
}

// force resolves a Choice by forking.
func (ex *Exec) force(v Value) Value {
	ch, ok := v.(*Choice)
	if !ok {
		return v
	}
	for i := 0; i < len(ch.vals)-1; i++ {
		if ex.branch(ch.guards[i]) {
			return ch.vals[i]
		}
	}
	return ch.vals[len(ch.vals)-1]
}

func (ex *Exec) forcePtr(v Value) Value {
	v = ex.force(v)
	if sp, ok := v.(SymPtr); ok {
		i := ex.concretize(sp.idx)
		return Ptr{sp.c, sp.off + int(i)}
	}
	return v
}

// ---- map keys ----

func (ex *Exec) keyString(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("i%d", x.v), true
		}
		return "", false
	case Str:
		if x.b == nil {
			return "s" + x.s, true
		}
		return "", false
	case Ptr:
		return fmt.Sprintf("p%p.%d", x.c, x.i), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := ex.keyString(x.v)
		return fmt.Sprintf("I%d:%s", ex.typeID(x.t), k), ok
	case *Cont:
		var sb strings.Builder
		sb.WriteByte('{')
		for _, s := range x.slots {
			k, ok := ex.keyString(s)
			if !ok {
				return "", false
			}
			sb.WriteString(fmt.Sprint(len(k)))
			sb.WriteByte(':')
			sb.WriteString(k)
		}
		return sb.String(), true
	case *ChanObj:
		return fmt.Sprintf("c%p", x), true
	case *Choice:
		return "", false
	}
	unsupported("map key %T", v)
	return "", false
}

func (ex *Exec) mapTouch(m *MapObj) {
	if m.epoch < ex.epoch {
		old := *m
		oldKeys := append([]Value(nil), m.keys...)
		oldVals := append([]Value(nil), m.vals...)
		oldDead := append([]bool(nil), m.dead...)
		oldIndex := make(map[string]int, len(m.index))
		for k, v := range m.index {
			oldIndex[k] = v
		}
		ex.undo = append(ex.undo, undoRec{f: func() {
			*m = old
			m.keys, m.vals, m.dead, m.index = oldKeys, oldVals, oldDead, oldIndex
		}})
		m.epoch = ex.epoch
	}
}

func (ex *Exec) mapLookup(m *MapObj, k Value, vt types.Type) (Value, *Term) {
	tm := ex.tm
	zero := ex.zero(vt)
	if m == nil || m.live == 0 {
		return zero, tm.False
	}
	ks, conc := ex.keyString(k)
	if conc && !m.sym {
		i, ok := m.index[ks]
		if !ok {
			return zero, tm.False
		}
		return ex.copyVal(m.vals[i]), tm.True
	}
	// symbolic: build a guarded selection over all entries
	var res Value = zero
	found := tm.False
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		e := ex.eq(m.keys[i], k, m.key)
		if e.isFalse() {
			continue
		}
		res = ex.ite(e, m.vals[i], res)
		found = tm.Or(found, e)
	}
	return ex.copyVal(res), found
}

// mapFind returns the index of the entry equal to k, forking when undetermined; -1 when absent.
func (ex *Exec) mapFind(m *MapObj, k Value) int {
	ks, conc := ex.keyString(k)
	if conc && !m.sym {
		if i, ok := m.index[ks]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		if ex.branch(ex.eq(m.keys[i], k, m.key)) {
			return i
		}
	}
	return -1
}

func (ex *Exec) mapUpdate(m *MapObj, k, v Value) {
	ex.mapTouch(m)
	i := ex.mapFind(m, k)
	if i >= 0 {
		m.vals[i] = ex.copyVal(v)
		return
	}
	ks, conc := ex.keyString(k)
	if conc {
		m.index[ks] = len(m.keys)
	} else {
		m.sym = true
	}
	m.keys = append(m.keys, ex.copyVal(k))
	m.vals = append(m.vals, ex.copyVal(v))
	m.dead = append(m.dead, false)
	m.live++
}

func (ex *Exec) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	ex.mapTouch(m)
	i := ex.mapFind(m, k)
	if i < 0 {
		return
	}
	if ks, conc := ex.keyString(k); conc {
		delete(m.index, ks)
	}
	m.dead[i] = true
	m.live--
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
