package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	g    *Goro
	args []Value
	fn   *ssa.Function
	dst  int32
	call *ssa.CallCommon
}

type intrinsic func(ex *Exec, c *callCtx) (Value, bool)

type fmtAtom struct {
	verb string
	v    Iface
	t    *Term
}

const zz = "github.com/botlink/go-mavlink2/zzverif"
const ndPath = zz + "/nd"

var intrinsics = map[string]intrinsic{}
var replacements = map[string]string{}
var yields = map[string]bool{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func (ex *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := ex.infos[fn]; ok {
		return i
	}
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		if _, ok := intrinsics[o.String()]; ok {
			name = o.String()
		}
	}
	i := &fnInfo{name: name}
	i.intr = intrinsics[name]
	if r, ok := replacements[name]; ok {
		i.repl = ex.prog.modelFunc(r)
	}
	if i.intr == nil && i.repl == nil && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Synthetic == "package initializer" {
		// package initialisers run on demand
		i.intr = func(ex *Exec, c *callCtx) (Value, bool) {
			return nil, true
		}
	}
	i.yield = yields[name]
	if ex.w.cfg.MergeFns[name] {
		i.merge = true
	}
	ex.infos[fn] = i
	return i
}

func (ex *Exec) newVar(name string, w uint8) *Term {
	k := ex.pathVars[name]
	ex.pathVars[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s~%d", name, k)
	}
	t := ex.tm.Var(name, w)
	ex.pathVarList = append(ex.pathVarList, t)
	if ex.itemModel != nil && ex.model == ex.itemModel {
		if v, ok := ex.item.model[name]; ok {
			ex.model.vals[t.id] = v
		}
	}
	return t
}

func (ex *Exec) argStr(v Value) string {
	s := ex.strFix(ex.force(v).(Str))
	if s.b != nil {
		unsupported("symbolic string where a literal is needed")
	}
	return s.s
}

func atomicCell(ex *Exec, v Value) (*Cont, int) {
	p, ok := ex.forcePtr(v).(Ptr)
	if !ok || p.c == nil {
		ex.nilDeref()
	}
	return p.c, p.i
}

func (ex *Exec) atomicSync(g *Goro, c *Cont) {
	if ex.raceMode {
		if c.aux == nil {
			c.aux = &Aux{}
		}
		ex.joinVC(g, c.aux.vc)
		c.aux.vc = join(c.aux.vc.clone(), g.vc)
		ex.tickVC(g)
	}
}

func init() {
	// ---- sync ----
	reg("(*sync.Mutex).Lock", func(ex *Exec, c *callCtx) (Value, bool) { return ex.lock(c, c.args[0]) })
	reg("(*sync.Mutex).Unlock", func(ex *Exec, c *callCtx) (Value, bool) { return ex.unlock(c, c.args[0]) })
	reg("(*sync.Mutex).TryLock", tryLock)
	reg("(*sync.RWMutex).Lock", func(ex *Exec, c *callCtx) (Value, bool) { return ex.lock(c, c.args[0]) })
	reg("(*sync.RWMutex).Unlock", func(ex *Exec, c *callCtx) (Value, bool) { return ex.unlock(c, c.args[0]) })
	reg("(*sync.RWMutex).TryLock", tryLock)
	reg("(*sync.RWMutex).RLock", func(ex *Exec, c *callCtx) (Value, bool) { return ex.rlock(c, c.args[0]) })
	reg("(*sync.RWMutex).RUnlock", func(ex *Exec, c *callCtx) (Value, bool) { return ex.runlock(c, c.args[0]) })
	reg("(*sync.RWMutex).TryRLock", func(ex *Exec, c *callCtx) (Value, bool) {
		a := ex.aux(c.args[0])
		if a.locked || len(a.pend) > 0 {
			return ex.tm.False, true
		}
		ex.rlock(c, c.args[0])
		return ex.tm.True, true
	})
	reg("(*internal/sync.Mutex).Lock", intrinsics["(*sync.Mutex).Lock"])
	reg("(*internal/sync.Mutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	reg("(*sync.WaitGroup).Add", func(ex *Exec, c *callCtx) (Value, bool) {
		a := ex.aux(c.args[0])
		a.wg += int(int64(ex.concretize(ex.scalar(c.args[1]))))
		if a.wg < 0 {
			ex.rtPanic("sync: negative WaitGroup counter")
		}
		ex.wgRelease(c.g, a)
		return nil, true
	})
	reg("(*sync.WaitGroup).Done", func(ex *Exec, c *callCtx) (Value, bool) {
		a := ex.aux(c.args[0])
		a.wg--
		if a.wg < 0 {
			ex.rtPanic("sync: negative WaitGroup counter")
		}
		ex.wgRelease(c.g, a)
		return nil, true
	})
	reg("(*sync.WaitGroup).Wait", func(ex *Exec, c *callCtx) (Value, bool) {
		a := ex.aux(c.args[0])
		if a.wg > 0 {
			if c.g.nest {
				panic(control{"mergeabort", "WaitGroup.Wait"})
			}
			cont := ex.auxOf(c.args[0])
			c.g.wait = func() bool { return cont.aux == nil || cont.aux.wg == 0 }
			c.g.top().pc--
			return nil, false
		}
		ex.joinVC(c.g, a.vc)
		return nil, true
	})
	reg("(*sync.Pool).Get", func(ex *Exec, c *callCtx) (Value, bool) {
		p := ex.auxOf(c.args[0])
		nw := ex.force(p.slots[len(p.slots)-1])
		cl, _ := nw.(*Closure)
		if cl == nil {
			return Iface{}, true
		}
		return ex.invokeFn(c.g, cl, nil, c.dst, nil)
	})
	reg("(*sync.Pool).Put", nop)
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock", "(*sync.WaitGroup).Wait",
		"(*internal/sync.Mutex).Lock", "time.Sleep", "runtime.Gosched", ndPath + ".Yield"} {
		yields[n] = true
	}
	reg("runtime.Gosched", nop)
	reg("runtime.KeepAlive", nop)
	reg("runtime.SetFinalizer", nop)
	reg("runtime.GC", nop)
	// ---- atomics ----
	for _, p := range []struct {
		s string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		pre := "sync/atomic."
		reg(pre+"Load"+p.s, func(ex *Exec, c *callCtx) (Value, bool) {
			k, i := atomicCell(ex, c.args[0])
			ex.atomicSync(c.g, k)
			return k.slots[i], true
		})
		reg(pre+"Store"+p.s, func(ex *Exec, c *callCtx) (Value, bool) {
			k, i := atomicCell(ex, c.args[0])
			ex.atomicSync(c.g, k)
			ex.setSlot(k, i, c.args[1])
			return nil, true
		})
		reg(pre+"Swap"+p.s, func(ex *Exec, c *callCtx) (Value, bool) {
			k, i := atomicCell(ex, c.args[0])
			ex.atomicSync(c.g, k)
			old := k.slots[i]
			ex.setSlot(k, i, c.args[1])
			return old, true
		})
		reg(pre+"Add"+p.s, func(ex *Exec, c *callCtx) (Value, bool) {
			k, i := atomicCell(ex, c.args[0])
			ex.atomicSync(c.g, k)
			v := ex.tm.Add(ex.scalar(k.slots[i]), ex.scalar(c.args[1]))
			ex.setSlot(k, i, v)
			return v, true
		})
		reg(pre+"CompareAndSwap"+p.s, func(ex *Exec, c *callCtx) (Value, bool) {
			k, i := atomicCell(ex, c.args[0])
			ex.atomicSync(c.g, k)
			if ex.branch(ex.eq(k.slots[i], c.args[1], nil)) {
				ex.setSlot(k, i, c.args[2])
				return ex.tm.True, true
			}
			return ex.tm.False, true
		})
		for _, o := range []string{"Load", "Store", "Swap", "Add", "CompareAndSwap"} {
			yields[pre+o+p.s] = true
		}
	}
	reg("(*sync/atomic.Value).Load", func(ex *Exec, c *callCtx) (Value, bool) {
		k := ex.auxOf(c.args[0])
		ex.atomicSync(c.g, k)
		return k.slots[0], true
	})
	reg("(*sync/atomic.Value).Store", func(ex *Exec, c *callCtx) (Value, bool) {
		k := ex.auxOf(c.args[0])
		ex.atomicSync(c.g, k)
		ex.setSlot(k, 0, c.args[1])
		return nil, true
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(ex *Exec, c *callCtx) (Value, bool) {
		k := ex.auxOf(c.args[0])
		ex.atomicSync(c.g, k)
		if ex.branch(ex.eq(k.slots[0], c.args[1], nil)) {
			ex.setSlot(k, 0, c.args[2])
			return ex.tm.True, true
		}
		return ex.tm.False, true
	})
	reg("(*sync/atomic.Value).Swap", func(ex *Exec, c *callCtx) (Value, bool) {
		k := ex.auxOf(c.args[0])
		ex.atomicSync(c.g, k)
		old := k.slots[0]
		ex.setSlot(k, 0, c.args[1])
		return old, true
	})
	for _, o := range []string{"Load", "Store", "CompareAndSwap", "Swap"} {
		yields["(*sync/atomic.Value)."+o] = true
	}
	// ---- bytealg and friends ----
	reg("internal/bytealg.IndexByte", func(ex *Exec, c *callCtx) (Value, bool) {
		s := ex.asSlice(c.args[0])
		return ex.indexByte(ex.sliceTerms(s), s.len, ex.scalar(c.args[1])), true
	})
	reg("internal/bytealg.IndexByteString", func(ex *Exec, c *callCtx) (Value, bool) {
		s := ex.force(c.args[0]).(Str)
		return ex.indexByte(ex.strTerms(s), ex.strLen(s), ex.scalar(c.args[1])), true
	})
	reg("internal/bytealg.Equal", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.strEq(ex.sliceToStr(ex.asSlice(c.args[0])).(Str), ex.sliceToStr(ex.asSlice(c.args[1])).(Str)), true
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	reg("internal/bytealg.Compare", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.compareBytes(c.args[0], c.args[1]), true
	})
	reg("internal/bytealg.CompareString", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.compareBytes(c.args[0], c.args[1]), true
	})
	reg("internal/bytealg.Count", func(ex *Exec, c *callCtx) (Value, bool) {
		s := ex.asSlice(c.args[0])
		return ex.countByte(ex.sliceTerms(s), s.len, ex.scalar(c.args[1])), true
	})
	reg("internal/bytealg.CountString", func(ex *Exec, c *callCtx) (Value, bool) {
		s := ex.force(c.args[0]).(Str)
		return ex.countByte(ex.strTerms(s), ex.strLen(s), ex.scalar(c.args[1])), true
	})
	idx := func(ex *Exec, c *callCtx) (Value, bool) {
		get := func(v Value) string {
			var s Str
			switch x := ex.force(v).(type) {
			case Str:
				s = x
			case Slice:
				s = ex.sliceToStr(x).(Str)
			}
			s = ex.strFix(s)
			if s.b != nil {
				b := make([]byte, len(s.b))
				for i, t := range s.b {
					b[i] = byte(ex.concretize(t))
				}
				return string(b)
			}
			return s.s
		}
		return ex.tm.Const(64, uint64(int64(strings.Index(get(c.args[0]), get(c.args[1]))))), true
	}
	reg("internal/bytealg.Index", idx)
	reg("internal/bytealg.IndexString", idx)
	reg("internal/bytealg.MakeNoZero", func(ex *Exec, c *callCtx) (Value, bool) {
		n := int(ex.concretize(ex.scalar(c.args[0])))
		k := growCap(0, 0, n, 1)
		s := ex.makeSlice(types.Typ[types.Uint8], n, k)
		return s, true
	})
	reg("internal/abi.NoEscape", func(ex *Exec, c *callCtx) (Value, bool) { return c.args[0], true })
	reg("internal/abi.Escape", func(ex *Exec, c *callCtx) (Value, bool) { return c.args[0], true })
	reg("internal/stringslite.Clone", func(ex *Exec, c *callCtx) (Value, bool) { return c.args[0], true })
	reg("strings.Clone", intrinsics["internal/stringslite.Clone"])
	// ---- math ----
	reg("math.Float32bits", ident)
	reg("math.Float32frombits", ident)
	reg("math.Float64bits", ident)
	reg("math.Float64frombits", ident)
	reg("math.Max", fminmax(false))
	reg("math.Min", fminmax(true))
	reg("math.IsNaN", func(ex *Exec, c *callCtx) (Value, bool) { return ex.tm.isNaN64(ex.scalar(c.args[0])), true })
	reg("math.Abs", func(ex *Exec, c *callCtx) (Value, bool) {
		return ex.tm.BAnd(ex.scalar(c.args[0]), ex.tm.Const(64, 1<<63-1)), true
	})
	for n, f := range map[string]func(float64) float64{"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Sqrt": math.Sqrt} {
		reg(n, func(ex *Exec, c *callCtx) (Value, bool) {
			t := ex.scalar(c.args[0])
			if !t.isConst() {
				if t.op == OSIToF || t.op == OUIToF && n != "math.Sqrt" {
					return t, true
				}
				unsupported("%s of a symbolic value", n)
			}
			return ex.tm.Const(64, math.Float64bits(f(math.Float64frombits(t.v)))), true
		})
	}
	// ---- errors without reflection ----
	replacements["errors.Is"] = "ErrorsIs"
	replacements["errors.As"] = "ErrorsAs"
	replacements["fmt.Errorf"] = "Errorf"
	replacements["fmt.Sprintf"] = "Sprintf"
	replacements["fmt.Sprint"] = "Sprint"
	replacements["fmt.Sprintln"] = "Sprintln"
	replacements["fmt.Fprintf"] = "Fprintf"
	replacements["fmt.Fprint"] = "Fprint"
	replacements["fmt.Fprintln"] = "Fprintln"
	replacements["fmt.Printf"] = "Printf"
	replacements["fmt.Print"] = "Print"
	replacements["fmt.Println"] = "Println"
	replacements["fmt.Appendf"] = "Appendf"
	replacements["log.Printf"] = "LogPrintf"
	replacements["log.Println"] = "LogPrintln"
	replacements["log.Print"] = "LogPrintln"
	replacements["encoding/binary.Read"] = "BinaryRead"
	replacements["encoding/binary.Write"] = "BinaryWrite"
	replacements["encoding/binary.Size"] = "BinarySize"
	replacements["encoding/binary.Append"] = "BinaryAppend"
	replacements["encoding/binary.Encode"] = "BinaryEncode"
	replacements["encoding/binary.Decode"] = "BinaryDecode"
	replacements["(*text/tabwriter.Writer).Write"] = "TabWrite"
	replacements["(*text/tabwriter.Writer).Flush"] = "TabFlush"
	replacements["net.ListenPacket"] = "ListenPacket"
	replacements["net.ListenUDP"] = "ListenUDP"
	replacements["net.ResolveUDPAddr"] = "ResolveUDPAddr"
	replacements["(*bytes.Buffer).String"] = "BufferString"
	delete(replacements, "(*bytes.Buffer).String")

	initND()
	initTime()
}

func ident(ex *Exec, c *callCtx) (Value, bool) { return c.args[0], true }
func nop(ex *Exec, c *callCtx) (Value, bool)   { return nil, true }

func fminmax(isMin bool) intrinsic {
	return func(ex *Exec, c *callCtx) (Value, bool) {
		tm := ex.tm
		x, y := ex.scalar(c.args[0]), ex.scalar(c.args[1])
		if x.isConst() && y.isConst() {
			a, b := math.Float64frombits(x.v), math.Float64frombits(y.v)
			if isMin {
				return tm.Const(64, math.Float64bits(math.Min(a, b))), true
			}
			return tm.Const(64, math.Float64bits(math.Max(a, b))), true
		}
		lt := tm.FOp(OFLt, 0, x, y)
		if !isMin {
			lt = tm.FOp(OFLt, 0, y, x)
		}
		// NaN and signed zero
		conv := func(t *Term) bool { return t.op == OSIToF || t.op == OUIToF || t.isConst() }
		r := tm.Ite(lt, x, y)
		if !conv(x) || !conv(y) {
			r = tm.Ite(tm.isNaN64(x), x, tm.Ite(tm.isNaN64(y), y, r))
		}
		return r, true
	}
}

func tryLock(ex *Exec, c *callCtx) (Value, bool) {
	a := ex.aux(c.args[0])
	if a.locked || a.readers > 0 {
		return ex.tm.False, true
	}
	ex.lock(c, c.args[0])
	return ex.tm.True, true
}

func (ex *Exec) wgRelease(g *Goro, a *Aux) {
	if ex.raceMode {
		a.vc = join(a.vc.clone(), g.vc)
		ex.tickVC(g)
	}
}

func (ex *Exec) sliceTerms(s Slice) []*Term {
	if s.c == nil {
		return nil
	}
	n := int(min(s.len.hi, uint64(len(s.c.slots)-s.off)))
	r := make([]*Term, n)
	for i := range r {
		r[i] = ex.scalar(s.c.slots[s.off+i])
	}
	return r
}

func (ex *Exec) indexByte(bs []*Term, n, b *Term) Value {
	tm := ex.tm
	r := tm.Const(64, ^uint64(0))
	for i := len(bs) - 1; i >= 0; i-- {
		hit := tm.And(tm.Ult(tm.Const(64, uint64(i)), n), tm.Eq(bs[i], b))
		r = tm.Ite(hit, tm.Const(64, uint64(i)), r)
	}
	return r
}

func (ex *Exec) countByte(bs []*Term, n, b *Term) Value {
	tm := ex.tm
	r := tm.Const(64, 0)
	for i := range bs {
		hit := tm.And(tm.Ult(tm.Const(64, uint64(i)), n), tm.Eq(bs[i], b))
		r = tm.Add(r, tm.Ite(hit, tm.Const(64, 1), tm.Const(64, 0)))
	}
	return r
}

func (ex *Exec) compareBytes(a, b Value) Value {
	tm := ex.tm
	conv := func(v Value) Str {
		switch x := ex.force(v).(type) {
		case Str:
			return ex.strFix(x)
		case Slice:
			return ex.strFix(ex.sliceToStr(x).(Str))
		}
		unsupported("compare of %T", v)
		return Str{}
	}
	x, y := ex.strTerms(conv(a)), ex.strTerms(conv(b))
	r := tm.Const(64, 0)
	switch {
	case len(x) < len(y):
		r = tm.Const(64, ^uint64(0))
	case len(x) > len(y):
		r = tm.Const(64, 1)
	}
	for i := min(len(x), len(y)) - 1; i >= 0; i-- {
		r = tm.Ite(tm.Eq(x[i], y[i]), r, tm.Ite(tm.Ult(x[i], y[i]), tm.Const(64, ^uint64(0)), tm.Const(64, 1)))
	}
	return r
}

// ---- formatting ----

// format renders a format string; values that are not concrete scalars become single opaque bytes that
// remember verb and value (fmtAtoms).
func (ex *Exec) format(f string, args []Value) Str {
	tm := ex.tm
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, tm.Const(8, uint64(s[i])))
		}
	}
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			lit(f[i : i+j])
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[i : j+1]
		i = j + 1
		if f[j] == '%' {
			lit("%")
			continue
		}
		if strings.ContainsAny(verb, "[*") {
			unsupported("format verb %q", verb)
		}
		if ai >= len(args) {
			lit("%!" + string(f[j]) + "(MISSING)")
			continue
		}
		out = append(out, ex.formatArg(verb, args[ai])...)
		ai++
	}
	if ai < len(args) {
		lit("%!(EXTRA ")
		for k, a := range args[ai:] {
			if k > 0 {
				lit(", ")
			}
			iv, _ := ex.force(a).(Iface)
			if iv.t == nil {
				lit("<nil>")
			} else {
				lit(iv.t.String() + "=")
				out = append(out, ex.formatArg("%v", a)...)
			}
		}
		lit(")")
	}
	return ex.mkStr(out)
}

func (ex *Exec) formatArg(verb string, a Value) []*Term {
	iv, _ := ex.force(a).(Iface)
	if iv.t == nil {
		return ex.strTerms(Str{s: fmt.Sprintf(verb, nil)})
	}
	hasMethod := ex.prog.hasMethod(iv.t, "String") || ex.prog.hasMethod(iv.t, "Error")
	if !hasMethod {
		v := iv.v
		if s, ok := v.(Str); ok {
			if s.b == nil {
				return ex.strTerms(Str{s: fmt.Sprintf(verb, s.s)})
			}
			if verb == "%v" || verb == "%s" {
				return ex.strFixTerms(s)
			}
		}
		if t, ok := v.(*Term); ok && t.isConst() {
			b, isB := under(iv.t).(*types.Basic)
			if isB {
				return ex.strTerms(Str{s: fmt.Sprintf(verb, nativeScalar(b, t.v))})
			}
		}
	} else {
		_, isStr := iv.v.(Str)
		if _, isTerm := iv.v.(*Term); !isTerm && !isStr {
			// an error or Stringer: only its message is known
			return ex.strTerms(Str{s: ex.show(iv)})
		}
	}
	// opaque
	t := ex.tm.Var(fmt.Sprintf("fmt!%d", len(ex.fmtAtoms)), 8)
	ex.fmtAtoms = append(ex.fmtAtoms, fmtAtom{verb, Iface{iv.t, ex.copyVal(iv.v)}, t})
	return []*Term{t}
}

func (ex *Exec) strFixTerms(s Str) []*Term {
	s = ex.strFix(s)
	return ex.strTerms(s)
}

func nativeScalar(b *types.Basic, v uint64) any {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return v == 1
	case types.Int:
		return int(v)
	case types.Int8:
		return int8(v)
	case types.Int16:
		return int16(v)
	case types.Int32, types.UntypedRune:
		return int32(v)
	case types.Int64:
		return int64(v)
	case types.Uint:
		return uint(v)
	case types.Uint8:
		return uint8(v)
	case types.Uint16:
		return uint16(v)
	case types.Uint32:
		return uint32(v)
	case types.Uint64:
		return v
	case types.Uintptr:
		return uintptr(v)
	case types.Float32:
		return math.Float32frombits(uint32(v))
	case types.Float64:
		return math.Float64frombits(v)
	}
	return v
}

// ---- binary layouts (models of encoding/binary's reflection paths) ----

func binSize(t types.Type) int {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
	case *types.Array:
		if n := binSize(u.Elem()); n >= 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (ex *Exec) binEncode(t types.Type, v Value, big bool, out []*Term) []*Term {
	tm := ex.tm
	switch u := under(t).(type) {
	case *types.Basic:
		x := ex.scalar(v)
		if x.w == 0 {
			return append(out, tm.Ite(x, tm.Const(8, 1), tm.Const(8, 0)))
		}
		if u.Kind() == types.Float32 {
			x = tm.quiet32(x)
		}
		n := int(x.w / 8)
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			out = append(out, tm.Extract(x, uint8(8*k), 8))
		}
		return out
	case *types.Array:
		for _, s := range ex.force(v).(*Cont).slots {
			out = ex.binEncode(u.Elem(), s, big, out)
		}
		return out
	case *types.Struct:
		c := ex.force(v).(*Cont)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				for k := binSize(u.Field(i).Type()); k > 0; k-- {
					out = append(out, tm.Const(8, 0))
				}
				continue
			}
			out = ex.binEncode(u.Field(i).Type(), c.slots[i], big, out)
		}
		return out
	}
	unsupported("binary encoding of %s", t)
	return nil
}

func (ex *Exec) binDecode(t types.Type, bs []*Term, big bool, old Value, exported bool) (Value, []*Term) {
	tm := ex.tm
	switch u := under(t).(type) {
	case *types.Basic:
		if !exported {
			ex.rtPanic("reflect: reflect.Value.Set using value obtained using unexported field")
		}
		w := basicWidth(u)
		if w == 0 {
			return tm.Not(tm.Eq(bs[0], tm.Const(8, 0))), bs[1:]
		}
		n := w / 8
		var r *Term
		for i := 0; i < n; i++ {
			b := bs[i]
			if big {
				b = bs[n-1-i]
			}
			if r == nil {
				r = b
			} else {
				r = tm.Concat(b, r)
			}
		}
		if u.Kind() == types.Float32 {
			r = tm.quiet32(r)
		}
		return r, bs[n:]
	case *types.Array:
		c := &Cont{slots: make([]Value, int(u.Len())), epoch: ex.epoch}
		oc := old.(*Cont)
		for i := range c.slots {
			c.slots[i], bs = ex.binDecode(u.Elem(), bs, big, oc.slots[i], exported)
		}
		return c, bs
	case *types.Struct:
		c := &Cont{slots: make([]Value, u.NumFields()), epoch: ex.epoch}
		oc := old.(*Cont)
		for i := range c.slots {
			f := u.Field(i)
			if f.Name() == "_" {
				c.slots[i] = oc.slots[i]
				bs = bs[binSize(f.Type()):]
				continue
			}
			c.slots[i], bs = ex.binDecode(f.Type(), bs, big, oc.slots[i], exported && f.Exported())
		}
		return c, bs
	}
	unsupported("binary decoding of %s", t)
	return nil, nil
}

func (ex *Exec) binTarget(v Value) (types.Type, Value, Slice, bool) {
	iv := ex.force(v).(Iface)
	if iv.t == nil {
		return nil, nil, Slice{}, false
	}
	switch u := under(iv.t).(type) {
	case *types.Pointer:
		return u.Elem(), ex.forcePtr(iv.v), Slice{}, true
	case *types.Slice:
		return iv.t, nil, ex.asSlice(iv.v), true
	}
	return iv.t, nil, Slice{}, false
}

func (ex *Exec) bytesSlice(ts []*Term) Slice {
	c := &Cont{slots: make([]Value, len(ts)), epoch: ex.epoch, name: "bytes"}
	for i, t := range ts {
		c.slots[i] = t
	}
	n := ex.tm.Const(64, uint64(len(ts)))
	return Slice{c, 0, n, n}
}

var _ = bytes.Equal
var _ = os.Exit
