package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- compiled functions ----

type opnd struct {
	reg int32
	v   Value
	fv  int32 // free variable index + 1
}

type inst struct {
	in  ssa.Instruction
	dst int32
	a   []opnd
}

type phi struct {
	dst int32
	a   []opnd
}

type cblock struct {
	ham   *hammock
	phis  []phi
	ins   []inst
	preds map[int]int
}

type cfn struct {
	fn     *ssa.Function
	nregs  int
	blocks []cblock
	rec    int
	info   *fnInfo
}

type fnInfo struct {
	name  string
	intr  intrinsic
	repl  *ssa.Function
	merge bool
	yield bool // visible operation
	isND  bool
}

type deferred struct {
	fn   Value // *Closure or *ssa.Builtin or invoke resolved
	args []Value
	call *ssa.CallCommon
	b    *ssa.Builtin
}

type panicState struct {
	val       Value
	msg       string
	recovered bool
	where     string
}

type Frame struct {
	f         *cfn
	regs      []Value
	free      []Value
	block     int
	prev      int
	pc        int
	retDst    int32
	defers    []deferred
	panicking *panicState
	owner     *Frame // the frame whose defers this call belongs to
	onRet     func(Value)
	depth     int
}

type Goro struct {
	id      int
	frames  []*Frame
	done    bool
	wait    func() bool
	waiting bool // in a channel queue
	granted bool
	vc      VC
	name    string
	nest    bool
	tick    uint32
	sel     *selState
	sleep   *vtimer
}

func (g *Goro) top() *Frame { return g.frames[len(g.frames)-1] }

type Exec struct {
	vc          *vclock
	w           *Worker
	tm          *TM
	solver      *Solver
	prog        *Program
	fns         map[*ssa.Function]*cfn
	infos       map[*ssa.Function]*fnInfo
	globals     map[*ssa.Global]*Cont
	inited      map[*ssa.Package]int
	typeIDs     map[types.Type]int
	typeMap     typeutil.Map
	methods     map[methKey]*ssa.Function
	epoch       int32
	epochCtr    int32
	pathVarList []*Term
	undo        []undoRec
	qcache      map[uint64]bool
	valid       map[int32]int8 // parts of assertions: 1 valid, 2 not, 3 undecided without the path
	validator   *Solver
	slicer      *Solver
	slices      map[sliceKey]*sliceRes
	varSets     map[int32][]int32
	visited     []int32
	visitMark   int32
	pathVars    map[string]int

	// path state
	item      *Item
	pc        []*Term
	facts     map[int32]bool
	trail     []trailRec
	known     map[int32]*Term
	knownVer  int
	simpMemo  map[int32]*Term
	simpVer   int
	model     *Model
	prefix    []uint64
	pos       int
	trace     []uint64
	nest      *nestCtx
	gs        []*Goro
	cur       *Goro
	steps     int
	preempts  int
	schedN    int
	chanN     int
	inInit    int
	raceMode  bool
	events    []string
	callDepth int
	fmtAtoms  []fmtAtom
	pathInfo  map[string]string
	catchLoop int
	itemModel *Model
	delays    []string
}

type methKey struct {
	t int
	m *types.Func
}

type trailRec struct {
	fact  int32
	known int32
}

type nestCtx struct {
	outer *nestCtx
	alts  [][]uint64
	prefix,
	trace []uint64
	pos int
	mdl []map[int32]uint64
}

func newExec(w *Worker) *Exec {
	ex := &Exec{w: w, prog: w.prog}
	ex.tm = NewTM()
	ex.solver = NewSolver(ex.tm, w.cfg.Solver, w.cfg.QueryTimeout)
	ex.fns = map[*ssa.Function]*cfn{}
	ex.infos = map[*ssa.Function]*fnInfo{}
	ex.globals = map[*ssa.Global]*Cont{}
	ex.inited = map[*ssa.Package]int{}
	ex.typeIDs = map[types.Type]int{}
	ex.methods = map[methKey]*ssa.Function{}
	ex.qcache = map[uint64]bool{}
	ex.raceMode = false
	ex.resetPath()
	ex.epoch = 0
	return ex
}

func (ex *Exec) resetPath() {
	ex.pc = ex.pc[:0]
	ex.facts = map[int32]bool{}
	ex.trail = ex.trail[:0]
	ex.known = map[int32]*Term{}
	ex.knownVer++
	ex.simpMemo = nil
	ex.model = nil
	ex.pos = 0
	ex.trace = nil
	ex.nest = nil
	ex.gs = nil
	ex.vc = nil
	ex.cur = nil
	ex.steps = 0
	ex.preempts = 0
	ex.schedN = 0
	ex.chanN = 0
	ex.pathVars = map[string]int{}
	ex.events = nil
	ex.delays = nil
	ex.callDepth = 0
	ex.fmtAtoms = nil
	ex.pathInfo = map[string]string{}
	ex.pathVarList = ex.pathVarList[:0]
}

// ---- compile ----

func (ex *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return ex.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{s: constant.StringVal(c.Value)}
		}
		if u.Info()&types.IsBoolean != 0 {
			return ex.tm.Bool(constant.BoolVal(c.Value))
		}
		w := uint8(basicWidth(u))
		if u.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if w == 32 {
				f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
				return ex.tm.Const(32, uint64(math.Float32bits(f32)))
			}
			return ex.tm.Const(64, math.Float64bits(f))
		}
		if u.Info()&types.IsInteger != 0 {
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return ex.tm.Const(w, uint64(i))
			}
			i, _ := constant.Uint64Val(v)
			return ex.tm.Const(w, i)
		}
	case *types.TypeParam:
	}
	return nil // unsupported constant, reported on use
}

func (ex *Exec) compile(fn *ssa.Function) *cfn {
	if c, ok := ex.fns[fn]; ok {
		return c
	}
	saved := ex.epoch
	ex.epoch = 0 // zero-value aggregates in constants are permanent
	defer func() { ex.epoch = saved }()
	c := &cfn{fn: fn, info: ex.info(fn), rec: -1}
	ex.fns[fn] = c
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	fvs := map[ssa.Value]int32{}
	for i, f := range fn.FreeVars {
		fvs[f] = int32(i)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	c.nregs = int(n)
	mk := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{reg: -1}
		}
		if r, ok := regs[v]; ok {
			return opnd{reg: r}
		}
		if i, ok := fvs[v]; ok {
			return opnd{reg: -2, fv: i}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{reg: -1, v: ex.constVal(x)}
		case *ssa.Global:
			return opnd{reg: -3, v: x}
		case *ssa.Function:
			return opnd{reg: -1, v: ex.fnClosure(x)}
		case *ssa.Builtin:
			return opnd{reg: -1, v: x}
		}
		panic(fmt.Sprintf("operand %T", v))
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.preds = map[int]int{}
		cb.ham = hammockAt(b)
		for i, p := range b.Preds {
			cb.preds[p.Index] = i
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			it := inst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				it.dst = regs[v]
			}
			var ops []*ssa.Value
			ops = in.Operands(ops)
			for _, o := range ops {
				if o == nil {
					it.a = append(it.a, opnd{reg: -1})
				} else {
					it.a = append(it.a, mk(*o))
				}
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, phi{it.dst, it.a})
				continue
			}
			cb.ins = append(cb.ins, it)
		}
	}
	if fn.Recover != nil {
		c.rec = fn.Recover.Index
	}
	return c
}

func (ex *Exec) fnClosure(f *ssa.Function) *Closure {
	if c, ok := ex.prog.closures.Load(f); ok {
		return c.(*Closure)
	}
	c, _ := ex.prog.closures.LoadOrStore(f, &Closure{fn: f})
	return c.(*Closure)
}

func (ex *Exec) global(gl *ssa.Global) *Cont {
	if c, ok := ex.globals[gl]; ok {
		return c
	}
	saved := ex.epoch
	ex.epoch = 0
	c := &Cont{slots: []Value{ex.zero(under(gl.Type()).(*types.Pointer).Elem())}, name: gl.String()}
	ex.epoch = saved
	ex.globals[gl] = c
	ex.ensureInit(gl.Pkg)
	return c
}

// ensureInit runs the package initialiser once, outside of any path (its effects are permanent).
func (ex *Exec) ensureInit(p *ssa.Package) {
	if p == nil || ex.inited[p] != 0 {
		return
	}
	ex.inited[p] = 1
	initFn := p.Func("init")
	if initFn == nil || noInit(p.Pkg.Path()) {
		return
	}
	savedEpoch, savedCur, savedSteps, savedRace := ex.epoch, ex.cur, ex.steps, ex.raceMode
	savedNest, savedGs := ex.nest, ex.gs
	ex.epoch = 0
	ex.inInit++
	ex.raceMode = false
	g := &Goro{id: 0, nest: true, name: "init"}
	ex.pushCall(g, initFn, nil, nil, -1)
	err := ex.runNested(g)
	ex.inInit--
	ex.epoch, ex.cur, ex.steps, ex.raceMode = savedEpoch, savedCur, savedSteps, savedRace
	ex.nest, ex.gs = savedNest, savedGs
	if err != "" {
		ex.w.note("init of %s incomplete: %s", p.Pkg.Path(), err)
	}
}

func noInit(path string) bool {
	switch path {
	case "runtime", "internal/cpu", "internal/godebug", "internal/poll", "syscall", "internal/runtime/atomic", "reflect", "fmt", "internal/reflectlite", "net", "os", "internal/testlog", "internal/oserror_", "log", "math/rand", "math/rand/v2", "crypto/rand":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "vendor/")
}

// ---- operand access ----

func (ex *Exec) get(fr *Frame, o *opnd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	switch o.reg {
	case -2:
		return fr.free[o.fv]
	case -3:
		return Ptr{ex.global(o.v.(*ssa.Global)), 0}
	}
	return o.v
}

func (ex *Exec) getF(fr *Frame, o *opnd) Value {
	v := ex.get(fr, o)
	if ch, ok := v.(*Choice); ok {
		return ex.force(ch)
	}
	return v
}

func (ex *Exec) term(fr *Frame, o *opnd) *Term {
	v := ex.getF(fr, o)
	t, ok := v.(*Term)
	if !ok {
		unsupported("expected scalar, got %T", v)
	}
	return t
}

// ---- run loops ----

func (ex *Exec) pushCall(g *Goro, fn *ssa.Function, args, free []Value, retDst int32) *Frame {
	if len(fn.Blocks) == 0 {
		unsupported("no body: %s", fn.String())
	}
	c := ex.compile(fn)
	if len(g.frames) > 2000 {
		panic(control{"steps", "call depth exceeded in " + fn.String()})
	}
	fr := &Frame{f: c, regs: make([]Value, c.nregs), free: free, retDst: retDst, prev: -1}
	copy(fr.regs, args)
	g.frames = append(g.frames, fr)
	return fr
}

// runNested runs g to completion without scheduling; returns "" or a failure description.
func (ex *Exec) runNested(g *Goro) (fail string) {
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(control); ok {
				fail = c.kind + ": " + c.msg
				return
			}
			if gp, ok := r.(goroutineCrash); ok {
				fail = "panic: " + gp.msg
				return
			}
			panic(r)
		}
	}()
	for !g.done {
		ex.runChunk(g)
	}
	return ""
}

type goroutineCrash struct {
	g   *Goro
	msg string
	val Value
}

// runChunk executes steps of g until it yields, blocks or finishes; target panics are unwound here.
func (ex *Exec) runChunk(g *Goro) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				ex.startPanic(g, gp)
				return
			}
			panic(r)
		}
	}()
	for !g.done {
		if !ex.step(g) {
			return
		}
	}
}

func (ex *Exec) rtPanic(msg string) {
	panic(goPanic{val: Iface{ex.prog.rtErrType, Str{s: msg}}, msg: msg})
}

func (ex *Exec) startPanic(g *Goro, gp goPanic) {
	fr := g.top()
	ps := &panicState{val: gp.val, msg: gp.msg, where: ex.where(g)}
	fr.panicking = ps
	ex.unwind(g)
}

// unwind continues the panic of the top frame: run its next deferred call or pop it.
func (ex *Exec) unwind(g *Goro) {
	for {
		fr := g.top()
		ps := fr.panicking
		if ps == nil {
			return
		}
		if ps.recovered && len(fr.defers) == 0 {
			fr.panicking = nil
			if fr.f.rec >= 0 {
				fr.prev = fr.block
				fr.block = fr.f.rec
				fr.pc = 0
				return
			}
			res := fr.f.fn.Signature.Results()
			var v Value
			switch res.Len() {
			case 0:
			case 1:
				v = ex.zero(res.At(0).Type())
			default:
				v = ex.zero(res)
			}
			ex.doReturn(g, v)
			return
		}
		if len(fr.defers) > 0 {
			ex.pushDeferred(g, fr)
			return
		}
		// pop
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 {
			g.done = true
			panic(goroutineCrash{g, ps.msg + " at " + ps.where, ps.val})
		}
		up := g.top()
		if up.panicking == nil || true {
			up.panicking = ps
		}
	}
}

func (ex *Exec) pushDeferred(g *Goro, fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	n := len(g.frames)
	if d.b != nil {
		ex.builtin(g, fr, d.b, d.args, nil)
		if fr.panicking != nil {
			ex.unwind(g)
		}
		return
	}
	cl := ex.force(d.fn).(*Closure)
	if cl == nil {
		ex.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if _, done := ex.invokeFn(g, cl, d.args, -1, nil); done {
		// intrinsic completed at once
		if fr.panicking != nil {
			ex.unwind(g)
		}
		return
	}
	if len(g.frames) > n {
		g.top().owner = fr
	} else {
		unsupported("blocking intrinsic in a deferred call")
	}
}

// doReturn pops the top frame, delivering v to the caller.
func (ex *Exec) doReturn(g *Goro, v Value) {
	fr := g.top()
	g.frames = g.frames[:len(g.frames)-1]
	if fr.onRet != nil {
		fr.onRet(v)
	}
	if len(g.frames) == 0 {
		g.done = true
		return
	}
	up := g.top()
	if fr.owner == up {
		if up.panicking != nil {
			ex.unwind(g)
		}
		return // RunDefers is re-executed
	}
	if fr.retDst >= 0 {
		up.regs[fr.retDst] = v
	}
}

func (ex *Exec) where(g *Goro) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		if fr.pc > 0 && fr.block < len(fr.f.blocks) && fr.pc-1 < len(fr.f.blocks[fr.block].ins) {
			p := fr.f.blocks[fr.block].ins[fr.pc-1].in.Pos()
			pp := ex.prog.fset.Position(p)
			if pp.IsValid() {
				return fmt.Sprintf("%s (%s:%d)", fr.f.fn.String(), strings.TrimPrefix(pp.Filename, "/repo/"), pp.Line)
			}
			if i > 0 {
				continue
			}
			return fr.f.fn.String()
		}
	}
	return "?"
}

// ---- decisions ----

func (ex *Exec) addFact(t *Term, val bool) {
	if t.isConst() {
		return
	}
	if t.op == ONot {
		ex.addFact(t.a, !val)
		return
	}
	if _, ok := ex.facts[t.id]; ok {
		return
	}
	ex.facts[t.id] = val
	ex.trail = append(ex.trail, trailRec{fact: t.id})
	switch {
	case t.op == OAnd && val, t.op == OOr && !val:
		ex.addFact(t.a, val)
		ex.addFact(t.b, val)
	case t.op == OEq && val && t.b.isConst():
		ex.learn(t.a, t.b)
	}
}

func (ex *Exec) learn(x, c *Term) {
	if x.op == OVar || x.op == OExtract || x.op == OIte || x.op == OConcat || x.op == OBAnd {
		if _, ok := ex.known[x.id]; !ok {
			ex.known[x.id] = c
			ex.knownVer++
			ex.trail = append(ex.trail, trailRec{known: x.id})
		}
	}
}

func (ex *Exec) undoTrail(mark int) {
	for len(ex.trail) > mark {
		r := ex.trail[len(ex.trail)-1]
		ex.trail = ex.trail[:len(ex.trail)-1]
		if r.fact != 0 {
			delete(ex.facts, r.fact)
		}
		if r.known != 0 {
			delete(ex.known, r.known)
			ex.knownVer++
		}
	}
}

// simp rewrites t using the facts of the current path.
func (ex *Exec) simp(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if t.w == 0 {
		if v, ok := ex.factVal(t, 0); ok {
			return ex.tm.Bool(v)
		}
	}
	if len(ex.known) == 0 {
		return t
	}
	if ex.simpMemo == nil || ex.simpVer != ex.knownVer {
		ex.simpMemo = map[int32]*Term{}
		ex.simpVer = ex.knownVer
	}
	return ex.subst(t)
}

func (ex *Exec) subst(t *Term) *Term {
	if t == nil || t.isConst() {
		return t
	}
	if k, ok := ex.known[t.id]; ok {
		return k
	}
	if t.op == OVar {
		return t
	}
	if r, ok := ex.simpMemo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == OIte {
		c := ex.subst(t.a)
		if c.isTrue() {
			r = ex.subst(t.b)
		} else if c.isFalse() {
			r = ex.subst(t.c)
		} else {
			r = ex.tm.Ite(c, ex.subst(t.b), ex.subst(t.c))
		}
	} else {
		a, b, c := ex.subst(t.a), ex.subst(t.b), ex.subst(t.c)
		if a == t.a && b == t.b && c == t.c {
			r = t
		} else {
			r = ex.tm.rebuild(t, a, b, c)
		}
	}
	if r.w == 0 && !r.isConst() {
		if v, ok := ex.factVal(r, 0); ok {
			r = ex.tm.Bool(v)
		}
	}
	ex.simpMemo[t.id] = r
	return r
}

func (ex *Exec) factVal(t *Term, d int) (bool, bool) {
	if t.isConst() {
		return t.v == 1, true
	}
	if v, ok := ex.facts[t.id]; ok {
		return v, true
	}
	if d > 6 {
		return false, false
	}
	switch t.op {
	case ONot:
		v, ok := ex.factVal(t.a, d+1)
		return !v, ok
	case OAnd:
		a, ok1 := ex.factVal(t.a, d+1)
		if ok1 && !a {
			return false, true
		}
		b, ok2 := ex.factVal(t.b, d+1)
		if ok2 && !b {
			return false, true
		}
		return true, ok1 && ok2
	case OOr:
		a, ok1 := ex.factVal(t.a, d+1)
		if ok1 && a {
			return true, true
		}
		b, ok2 := ex.factVal(t.b, d+1)
		if ok2 && b {
			return true, true
		}
		return false, ok1 && ok2
	}
	return false, false
}

func (ex *Exec) assume(t *Term) {
	if t.isConst() {
		return
	}
	ex.pc = append(ex.pc, t)
	ex.addFact(t, true)
}

func (ex *Exec) replaying() bool {
	if ex.nest != nil {
		return ex.nest.pos < len(ex.nest.prefix)
	}
	return ex.pos < len(ex.prefix)
}

func (ex *Exec) nextReplay() uint64 {
	var v uint64
	if n := ex.nest; n != nil {
		v = n.prefix[n.pos]
		n.pos++
		n.trace = append(n.trace, v)
	} else {
		v = ex.prefix[ex.pos]
		ex.pos++
		ex.trace = append(ex.trace, v)
	}
	return v
}

func (ex *Exec) record(v uint64) {
	if n := ex.nest; n != nil {
		n.trace = append(n.trace, v)
	} else {
		ex.trace = append(ex.trace, v)
	}
}

// alternative registers another value for the decision about to be recorded.
func (ex *Exec) alternative(v uint64, m *Model) {
	var mv map[int32]uint64
	if m != nil {
		mv = m.vals
	}
	if n := ex.nest; n != nil {
		n.alts = append(n.alts, append(append([]uint64(nil), n.trace...), v))
		n.mdl = append(n.mdl, mv)
		return
	}
	it := &Item{h: ex.item.h, prefix: append(append([]uint64(nil), ex.trace...), v)}
	if mv != nil {
		it.model = make(map[string]uint64, len(mv))
		for _, t := range ex.pathVarList {
			if x, ok := mv[t.id]; ok && x != 0 {
				it.model[t.name] = x
			}
		}
	}
	ex.w.push(it)
}

func (ex *Exec) ensureModel() bool {
	if ex.model != nil {
		return true
	}
	if len(ex.pc) == 0 {
		ex.model = newModel()
		return true
	}
	r, m := ex.solver.Check(ex.pc, nil, true)
	switch r {
	case Sat:
		ex.model = m
		return true
	case Unsat:
		panic(control{"infeasible", ""})
	}
	ex.w.note("solver gave no answer for a path condition")
	panic(control{"unknown", "path condition undecided"})
}

func (ex *Exec) pcHash(extra *Term) uint64 {
	h := uint64(1469598103934665603)
	for _, t := range ex.pc {
		h = (h ^ uint64(t.id)) * 1099511628211
	}
	return (h^uint64(extra.id))*1099511628211 ^ 0x9e3779b97f4a7c15
}

// sat decides pc ∧ c; the model is returned when available.
func (ex *Exec) sat(c *Term) (SatRes, *Model) {
	if c.isFalse() {
		return Unsat, nil
	}
	if m := ex.guess(c); m != nil {
		return Sat, m
	}
	var key uint64
	if ex.nest != nil || ex.w.cfg.CacheAll {
		key = ex.pcHash(c)
		if v, ok := ex.qcache[key]; ok && !v {
			return Unsat, nil
		}
	}
	r, m := ex.check(c, true)
	if key != 0 && r == Unsat {
		ex.qcache[key] = false
	}
	if r == Unknown {
		ex.w.note("solver gave no answer within the time limit")
	}
	if r == Sat && ex.w.cfg.Paranoid {
		for _, t := range append(append([]*Term(nil), ex.pc...), c) {
			if m.eval(t) == 0 {
				panic("internal: solver model does not satisfy the query")
			}
		}
	}
	return r, m
}

// guess tries to satisfy pc ∧ c by changing a single variable of the current model.
func (ex *Exec) guess(c *Term) *Model {
	if ex.model == nil || len(ex.pc) > 400 {
		return nil
	}
	x, neg := c, false
	if x.op == ONot {
		x, neg = x.a, true
	}
	if x.op != OEq && x.op != OUlt && x.op != OVar {
		return nil
	}
	var v *Term
	var cands []uint64
	switch {
	case x.op == OVar:
		v = x
		if neg {
			cands = []uint64{0}
		} else {
			cands = []uint64{1}
		}
	case x.op == OEq && x.a.op == OVar && x.b.isConst():
		v = x.a
		if neg {
			cands = []uint64{x.b.v + 1, 1, 0x55}
		} else {
			cands = []uint64{x.b.v}
		}
	case x.op == OUlt && x.a.op == OVar && x.b.isConst():
		v = x.a
		if neg {
			cands = []uint64{x.b.v}
		} else {
			cands = []uint64{x.b.v - 1, 0}
		}
	}
	if v == nil {
		return nil
	}
	for _, k := range cands {
		m := newModel()
		for id, val := range ex.model.vals {
			m.vals[id] = val
		}
		if v.w == 0 {
			m.vals[v.id] = k & 1
		} else {
			m.vals[v.id] = k & mask(v.w)
		}
		ok := m.eval(c) == 1
		for i := len(ex.pc) - 1; ok && i >= 0; i-- {
			ok = m.eval(ex.pc[i]) == 1
		}
		if ok {
			ex.w.stats.guesses++
			return m
		}
	}
	return nil
}

// branch decides a boolean, forking when both values are possible.
func (ex *Exec) branch(c *Term) bool {
	if c.isConst() {
		return c.v == 1
	}
	c = ex.simp(c)
	if c.isConst() {
		return c.v == 1
	}
	if ex.inInit > 0 {
		unsupported("symbolic branch during package initialisation")
	}
	if ex.replaying() {
		v := ex.nextReplay()
		switch v {
		case 1:
			ex.assume(c)
			ex.modelHolds(c)
			return true
		case 0:
			ex.assume(ex.tm.Not(c))
			ex.modelHolds(ex.tm.Not(c))
			return false
		case 3:
			ex.addFact(c, true)
			return true
		default:
			ex.addFact(c, false)
			return false
		}
	}
	ex.ensureModel()
	val := ex.model.eval(c) == 1
	pos, neg := c, ex.tm.Not(c)
	if !val {
		pos, neg = neg, pos
	}
	r, m := ex.sat(neg)
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	if r == Sat {
		ex.w.stats.forks++
		ex.alternative(b2u(!val), m)
		ex.record(b2u(val))
		ex.assume(pos)
		return val
	}
	if r == Unknown {
		ex.w.stats.unknown++
		ex.record(b2u(val))
		ex.assume(pos) // the other side is not explored: recorded as a reduced bound
		return val
	}
	// implied: no constraint added
	ex.record(b2u(val) + 2)
	ex.addFact(c, val)
	return val
}

// modelHolds drops the model when it does not satisfy a newly assumed condition.
func (ex *Exec) modelHolds(c *Term) {
	if ex.model != nil && ex.model.eval(c) == 0 {
		ex.model = nil
	}
}

// concretize enumerates the possible values of t (forking) and returns one.
func (ex *Exec) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.v
	}
	t = ex.simp(t)
	if t.isConst() {
		return t.v
	}
	if ex.inInit > 0 {
		unsupported("symbolic value during package initialisation")
	}
	if t.w == 0 {
		if ex.branch(t) {
			return 1
		}
		return 0
	}
	if ex.replaying() {
		v := ex.nextReplay()
		c := ex.tm.Eq(t, ex.tm.Const(t.w, v))
		ex.assume(c)
		ex.learn(t, ex.tm.Const(t.w, v))
		ex.modelHolds(c)
		return v
	}
	ex.ensureModel()
	first := ex.model.eval(t)
	excl := ex.tm.Not(ex.tm.Eq(t, ex.tm.Const(t.w, first)))
	n := 0
	for {
		r, m := ex.sat(excl)
		if r == Unsat {
			break
		}
		if r == Unknown {
			ex.w.stats.unknown++
			break
		}
		v := m.eval(t)
		ex.alternative(v, m)
		ex.w.stats.forks++
		excl = ex.tm.And(excl, ex.tm.Not(ex.tm.Eq(t, ex.tm.Const(t.w, v))))
		n++
		if n > ex.w.maxValues() {
			ex.w.note("more than %d values for one term at %s; the rest is outside the bound", ex.w.maxValues(), ex.where(ex.cur))
			ex.w.stats.truncated++
			break
		}
	}
	ex.record(first)
	ex.assume(ex.tm.Eq(t, ex.tm.Const(t.w, first)))
	ex.learn(t, ex.tm.Const(t.w, first))
	return first
}

// pick chooses one of n alternatives (no constraints), forking over all.
func (ex *Exec) pick(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if ex.inInit > 0 {
		return 0
	}
	if ex.nest != nil {
		panic(control{"mergeabort", "scheduling choice"})
	}
	return ex.pickVar(ex.newVar("sched."+what, 16), n)
}

// ---- step ----

func (ex *Exec) step(g *Goro) bool {
	fr := g.top()
	ex.steps++
	if ex.steps&0xffff == 0 && time.Now().After(ex.w.run.deadline.Add(20*time.Second)) {
		panic(control{"time", "time budget used up within a path"})
	}
	if ex.steps > ex.w.maxSteps() {
		panic(control{"steps", "step limit reached at " + ex.where(g)})
	}
	blk := &fr.f.blocks[fr.block]
	in := &blk.ins[fr.pc]
	fr.pc++
	switch i := in.in.(type) {
	case *ssa.Alloc:
		fr.regs[in.dst] = Ptr{&Cont{slots: []Value{ex.zero(under(i.Type()).(*types.Pointer).Elem())}, epoch: ex.epoch, name: i.Comment}, 0}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			fr.regs[in.dst] = ex.load(g, ex.getF(fr, &in.a[0]))
			return true
		}
		if i.Op == token.ARROW {
			return ex.chanRecv(g, fr, in, i)
		}
		fr.regs[in.dst] = ex.unop(i, ex.term(fr, &in.a[0]))
	case *ssa.BinOp:
		fr.regs[in.dst] = ex.binop(i.Op, i.X.Type(), i.Y.Type(), ex.get(fr, &in.a[0]), ex.get(fr, &in.a[1]))
	case *ssa.Store:
		ex.store(g, ex.getF(fr, &in.a[0]), ex.get(fr, &in.a[1]))
	case *ssa.FieldAddr:
		fr.regs[in.dst] = ex.fieldAddr(ex.getF(fr, &in.a[0]), i.Field)
	case *ssa.Field:
		c, ok := ex.getF(fr, &in.a[0]).(*Cont)
		if !ok {
			unsupported("field of %T", ex.get(fr, &in.a[0]))
		}
		fr.regs[in.dst] = c.slots[i.Field]
	case *ssa.IndexAddr:
		fr.regs[in.dst] = ex.indexAddr(ex.getF(fr, &in.a[0]), ex.idx64(ex.term(fr, &in.a[1]), i.Index.Type()))
	case *ssa.Index:
		fr.regs[in.dst] = ex.index(ex.getF(fr, &in.a[0]), ex.idx64(ex.term(fr, &in.a[1]), i.Index.Type()))
	case *ssa.Lookup:
		x := ex.getF(fr, &in.a[0])
		if s, ok := x.(Str); ok {
			fr.regs[in.dst] = ex.index(s, ex.idx64(ex.term(fr, &in.a[1]), i.Index.Type()))
			return true
		}
		m, _ := x.(*MapObj)
		ex.raceMap(g, m, false)
		mt := under(i.X.Type()).(*types.Map)
		v, ok := ex.mapLookup(m, ex.get(fr, &in.a[1]), mt.Elem())
		if i.CommaOk {
			fr.regs[in.dst] = Tuple{v, ok}
		} else {
			fr.regs[in.dst] = v
		}
	case *ssa.MapUpdate:
		m, _ := ex.getF(fr, &in.a[0]).(*MapObj)
		if m == nil {
			ex.rtPanic("assignment to entry in nil map")
		}
		ex.raceMap(g, m, true)
		ex.mapUpdate(m, ex.getF(fr, &in.a[1]), ex.get(fr, &in.a[2]))
	case *ssa.Slice:
		fr.regs[in.dst] = ex.slice(fr, in, i)
	case *ssa.MakeSlice:
		n := ex.term(fr, &in.a[0])
		c := ex.term(fr, &in.a[1])
		n, c = ex.idx64(n, i.Len.Type()), ex.idx64(c, i.Cap.Type())
		cv := ex.concretize(c)
		nv := ex.concretize(n)
		if int64(cv) < 0 || cv > 1<<24 {
			if int64(nv) < 0 || int64(nv) > int64(1)<<40 {
				ex.rtPanic("runtime error: makeslice: len out of range")
			}
			unsupported("make of %d elements", cv)
		}
		if nv > cv {
			ex.rtPanic("runtime error: makeslice: len out of range")
		}
		fr.regs[in.dst] = ex.makeSlice(under(i.Type()).(*types.Slice).Elem(), int(nv), int(cv))
	case *ssa.MakeMap:
		mt := under(i.Type()).(*types.Map)
		fr.regs[in.dst] = &MapObj{index: map[string]int{}, epoch: ex.epoch, key: mt.Key()}
	case *ssa.MakeChan:
		n := ex.concretize(ex.idx64(ex.term(fr, &in.a[0]), i.Size.Type()))
		ex.chanN++
		fr.regs[in.dst] = &ChanObj{id: ex.chanN, cap: int(n), epoch: ex.epoch, elem: under(i.Type()).(*types.Chan).Elem()}
	case *ssa.MakeInterface:
		v := ex.get(fr, &in.a[0])
		if ch, ok := v.(*Choice); ok {
			n := &Choice{guards: ch.guards, vals: make([]Value, len(ch.vals))}
			for k, x := range ch.vals {
				n.vals[k] = Iface{i.X.Type(), x}
			}
			fr.regs[in.dst] = n
			return true
		}
		fr.regs[in.dst] = Iface{i.X.Type(), v}
	case *ssa.MakeClosure:
		cl := ex.get(fr, &in.a[0]).(*Closure)
		free := make([]Value, len(in.a)-1)
		for k := range free {
			free[k] = ex.get(fr, &in.a[k+1])
		}
		fr.regs[in.dst] = &Closure{fn: cl.fn, free: free}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[in.dst] = ex.get(fr, &in.a[0])
	case *ssa.Convert:
		fr.regs[in.dst] = ex.convert(i.X.Type(), i.Type(), ex.getF(fr, &in.a[0]))
	case *ssa.MultiConvert:
		fr.regs[in.dst] = ex.convert(i.X.Type(), i.Type(), ex.getF(fr, &in.a[0]))
	case *ssa.SliceToArrayPointer:
		s := ex.getF(fr, &in.a[0]).(Slice)
		n := int(under(under(i.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		if !ex.branch(ex.tm.Not(ex.tm.Ult(s.len, ex.tm.Const(64, uint64(n))))) {
			ex.rtPanic("runtime error: cannot convert slice to array or pointer to array: length too short")
		}
		if s.c == nil {
			fr.regs[in.dst] = Ptr{}
		} else {
			fr.regs[in.dst] = ViewPtr{s.c, s.off, n}
		}
	case *ssa.TypeAssert:
		fr.regs[in.dst] = ex.typeAssert(i, ex.getF(fr, &in.a[0]))
	case *ssa.Extract:
		v := ex.getF(fr, &in.a[0])
		fr.regs[in.dst] = v.(Tuple)[i.Index]
	case *ssa.Range:
		x := ex.getF(fr, &in.a[0])
		switch y := x.(type) {
		case Str:
			y = ex.strFix(y)
			fr.regs[in.dst] = &mapIter{s: &y}
		case *MapObj:
			ex.raceMap(g, y, false)
			fr.regs[in.dst] = &mapIter{m: y}
		default:
			unsupported("range over %T", x)
		}
	case *ssa.Next:
		fr.regs[in.dst] = ex.next(i, ex.get(fr, &in.a[0]).(*mapIter))
	case *ssa.If:
		c := ex.term(fr, &in.a[0])
		if blk.ham != nil && !c.isConst() {
			if c = ex.simp(c); !c.isConst() && ex.hammock(fr, blk.ham, c) {
				return true
			}
		}
		b := ex.branch(c)
		blkS := i.Block().Succs
		if b {
			ex.jump(fr, blkS[0].Index)
		} else {
			ex.jump(fr, blkS[1].Index)
		}
	case *ssa.Jump:
		ex.jump(fr, i.Block().Succs[0].Index)
	case *ssa.Return:
		var v Value
		switch len(in.a) {
		case 0:
		case 1:
			v = ex.get(fr, &in.a[0])
		default:
			tu := make(Tuple, len(in.a))
			for k := range tu {
				tu[k] = ex.get(fr, &in.a[k])
			}
			v = tu
		}
		ex.doReturn(g, v)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			fr.pc--
			ex.pushDeferred(g, fr)
		}
	case *ssa.Panic:
		v := ex.getF(fr, &in.a[0])
		iv, _ := v.(Iface)
		panic(goPanic{val: iv, msg: "panic: " + ex.show(iv)})
	case *ssa.Call:
		return ex.call(g, fr, in, &i.Call)
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			d.b = b
			for k := 1; k < 1+len(i.Call.Args); k++ {
				d.args = append(d.args, ex.get(fr, &in.a[k]))
			}
		} else {
			d.fn, d.args = ex.resolve(fr, in, &i.Call, 0)
		}
		if i.DeferStack != nil {
			unsupported("defer in range-over-func")
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		fn, args := ex.resolve(fr, in, &i.Call, 0)
		if ex.nest != nil || ex.inInit > 0 {
			panic(control{"mergeabort", "go statement"})
		}
		ng := &Goro{id: len(ex.gs), name: fmt.Sprintf("g%d", len(ex.gs))}
		ex.gs = append(ex.gs, ng)
		if len(ex.gs) > 64+2*maxTimerEvents {
			unsupported("more than 64 goroutines")
		}
		ex.forkVC(g, ng)
		cl := ex.force(fn).(*Closure)
		ex.pushGo(ng, cl, args)
	case *ssa.Send:
		return ex.chanSend(g, fr, in)
	case *ssa.Select:
		return ex.selectOp(g, fr, in, i)
	default:
		unsupported("instruction %T", in.in)
	}
	return true
}

func (ex *Exec) jump(fr *Frame, to int) {
	from := fr.block
	fr.prev = from
	fr.block = to
	fr.pc = 0
	blk := &fr.f.blocks[to]
	if n := len(blk.phis); n > 0 {
		k := blk.preds[from]
		if n == 1 {
			fr.regs[blk.phis[0].dst] = ex.get(fr, &blk.phis[0].a[k])
			return
		}
		tmp := make([]Value, n)
		for j := range blk.phis {
			tmp[j] = ex.get(fr, &blk.phis[j].a[k])
		}
		for j := range blk.phis {
			fr.regs[blk.phis[j].dst] = tmp[j]
		}
	}
}

// pushGo starts a goroutine body; intrinsics are wrapped.
func (ex *Exec) pushGo(g *Goro, cl *Closure, args []Value) {
	if cl == nil {
		ex.rtPanic("go of nil func value")
	}
	inf := ex.info(cl.fn)
	fn := cl.fn
	if inf.repl != nil {
		fn = inf.repl
	} else if inf.intr != nil {
		unsupported("go statement on %s", inf.name)
	}
	ex.pushCall(g, fn, args, cl.free, -1)
}

// ---- calls ----

// resolve evaluates the callee and arguments of a call; off is the index of call.Value among operands.
func (ex *Exec) resolve(fr *Frame, in *inst, c *ssa.CallCommon, off int) (Value, []Value) {
	if c.IsInvoke() {
		recv := ex.getF(fr, &in.a[off])
		iv := recv.(Iface)
		if iv.t == nil {
			ex.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		fn := ex.lookupMethod(iv.t, c.Method)
		args := make([]Value, 1+len(c.Args))
		args[0] = iv.v
		for k := range c.Args {
			args[k+1] = ex.get(fr, &in.a[off+1+k])
		}
		return ex.fnClosure(fn), args
	}
	fn := ex.getF(fr, &in.a[off])
	args := make([]Value, len(c.Args))
	for k := range c.Args {
		args[k] = ex.get(fr, &in.a[off+1+k])
	}
	return fn, args
}

func (ex *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{ex.typeID(t), m}
	if f, ok := ex.methods[k]; ok {
		return f
	}
	f := ex.prog.lookup(t, m)
	if f == nil {
		unsupported("method %s of %s not found", m.Name(), t)
	}
	ex.methods[k] = f
	return f
}

func (ex *Exec) call(g *Goro, fr *Frame, in *inst, c *ssa.CallCommon) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		if b.Name() == "close" && ex.yieldBefore(g, fr) {
			return false
		}
		args := make([]Value, len(c.Args))
		for k := range args {
			args[k] = ex.get(fr, &in.a[k+1])
		}
		v := ex.builtin(g, fr, b, args, c)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		return true
	}
	fnv, args := ex.resolve(fr, in, c, 0)
	cl, _ := ex.force(fnv).(*Closure)
	if cl == nil {
		ex.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	inf := ex.info(cl.fn)
	if inf.yield && ex.yieldBefore(g, fr) {
		return false
	}
	v, done := ex.invokeFn(g, cl, args, in.dst, c)
	if done {
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		return g.wait == nil
	}
	return g.wait == nil
}

// invokeFn calls cl: either completes at once (intrinsic or merged call) or pushes a frame.
func (ex *Exec) invokeFn(g *Goro, cl *Closure, args []Value, dst int32, c *ssa.CallCommon) (Value, bool) {
	inf := ex.info(cl.fn)
	if inf.repl != nil {
		ex.pushCall(g, inf.repl, args, nil, dst)
		return nil, false
	}
	if inf.intr != nil {
		return inf.intr(ex, &callCtx{g: g, args: args, fn: cl.fn, dst: dst, call: c})
	}
	if len(cl.fn.Blocks) == 0 {
		unsupported("no body: %s", inf.name)
	}
	if inf.merge && ex.inInit == 0 && !ex.w.cfg.NoMerge {
		if v, ok := ex.mergeCall(g, cl, args); ok {
			return v, true
		}
	}
	ex.pushCall(g, cl.fn, args, cl.free, dst)
	return nil, false
}

// mergeCall explores every path of a call and merges results and effects into guarded values.
func (ex *Exec) mergeCall(g *Goro, cl *Closure, args []Value) (res Value, ok bool) {
	if ex.raceMode || ex.w.mergeBad[cl.fn] {
		return nil, false
	}
	type slotKey struct {
		c *Cont
		i int
	}
	type leaf struct {
		guard *Term
		val   Value
		panic *goroutineCrash
		write map[slotKey]Value
	}
	var leaves []leaf
	var order []slotKey
	seenKey := map[slotKey]bool{}
	n := &nestCtx{outer: ex.nest}
	pcMark, trailMark := len(ex.pc), len(ex.trail)
	savedModel := ex.model
	savedEpoch := ex.epoch
	savedVars := ex.pathVars
	replayOuter := false
	_ = replayOuter
	abort := ""
	work := []struct {
		p []uint64
		m map[int32]uint64
	}{{nil, nil}}
	first := true
	for len(work) > 0 && abort == "" {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		n.prefix, n.pos, n.trace, n.alts, n.mdl = w.p, 0, nil, nil, nil
		ex.nest = n
		ex.epochCtr++
		ex.epoch = ex.epochCtr
		if first {
			ex.model = savedModel
			first = false
		} else if w.m != nil {
			ex.model = &Model{vals: w.m, memo: map[int32]uint64{}}
		} else {
			ex.model = nil
		}
		undoMark := len(ex.undo)
		tg := &Goro{id: g.id, nest: true, name: g.name, vc: g.vc, tick: g.tick}
		lf := leaf{}
		failed := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch c := r.(type) {
					case control:
						failed = c.kind + ": " + c.msg
						if c.kind == "steps" || c.kind == "infeasible" || c.kind == "unknown" {
							if c.kind == "steps" {
								panic(r)
							}
						}
						return
					case goroutineCrash:
						lf.panic = &c
						return
					}
					panic(r)
				}
			}()
			fr := ex.pushCall(tg, cl.fn, args, cl.free, -1)
			fr.onRet = func(v Value) { lf.val = v }
			for !tg.done {
				ex.runChunk(tg)
			}
		}()
		g.vc = tg.vc
		if failed != "" && !strings.HasPrefix(failed, "infeasible") {
			abort = failed
		}
		if failed == "" {
			lf.guard = ex.tm.True
			for _, t := range ex.pc[pcMark:] {
				lf.guard = ex.tm.And(lf.guard, t)
			}
			for k := undoMark; k < len(ex.undo); k++ {
				r := ex.undo[k]
				if r.f != nil {
					abort = "irreversible effect in merged call"
					break
				}
				key := slotKey{r.c, r.i}
				if lf.write == nil {
					lf.write = map[slotKey]Value{}
				}
				lf.write[key] = r.c.slots[r.i]
				if !seenKey[key] {
					seenKey[key] = true
					order = append(order, key)
				}
			}
			leaves = append(leaves, lf)
		}
		ex.rollback(undoMark)
		ex.pc = ex.pc[:pcMark]
		ex.undoTrail(trailMark)
		for k, a := range n.alts {
			work = append(work, struct {
				p []uint64
				m map[int32]uint64
			}{a, n.mdl[k]})
		}
		if len(leaves) > ex.w.cfg.MaxLeaves {
			abort = "too many paths in merged call"
		}
	}
	ex.nest = n.outer
	ex.epoch = savedEpoch
	ex.model = savedModel
	ex.pathVars = savedVars
	if abort != "" {
		if !strings.HasPrefix(abort, "time") {
			ex.w.mergeBad[cl.fn] = true
			ex.w.note("merged exploration of %s given up (%s); its paths are forked instead", cl.fn, abort)
			return nil, false
		}
		panic(control{"unsupported", "in merged call of " + cl.fn.String() + ": " + abort})
	}
	ex.w.stats.merged++
	ex.w.stats.leaves += len(leaves)
	if len(leaves) == 0 {
		panic(control{"infeasible", ""})
	}
	// panicking leaves are separate outcomes of the caller
	var normal []leaf
	for _, l := range leaves {
		if l.panic != nil {
			if ex.branch(l.guard) {
				panic(goPanic{val: l.panic.val, msg: l.panic.msg})
			}
			continue
		}
		normal = append(normal, l)
	}
	if len(normal) == 0 {
		panic(control{"infeasible", ""})
	}
	res = normal[len(normal)-1].val
	for k := len(normal) - 2; k >= 0; k-- {
		res = ex.ite2(normal[k].guard, normal[k].val, res)
	}
	for _, key := range order {
		old := key.c.slots[key.i]
		get := func(l leaf) Value {
			if v, ok := l.write[key]; ok {
				return v
			}
			return old
		}
		v := get(normal[len(normal)-1])
		for k := len(normal) - 2; k >= 0; k-- {
			v = ex.ite2(normal[k].guard, get(normal[k]), v)
		}
		ex.setSlot(key.c, key.i, v)
	}
	return res, true
}

func (ex *Exec) ite2(g *Term, a, b Value) Value {
	if a == nil && b == nil {
		return nil
	}
	return ex.ite(g, a, b)
}

// ---- scheduler ----

// yieldBefore is called before a visible operation; it returns true when another goroutine runs first.
func (ex *Exec) yieldBefore(g *Goro, fr *Frame) bool {
	if g.nest {
		if ex.inInit == 0 && ex.nest != nil && len(ex.gs) > 1 {
			panic(control{"mergeabort", "synchronisation inside merged call"})
		}
		return false
	}
	if g.granted {
		g.granted = false
		return false
	}
	delays := ex.item.h.Delays
	if delays > 0 && ex.preempts >= delays || delays == 0 && ex.preempts >= ex.w.cfg.preemptBound(ex.item.h) {
		return false
	}
	others := ex.runnable(g)
	if delays > 0 && len(others) > delays-ex.preempts {
		others = others[:delays-ex.preempts]
	}
	if len(others) == 0 {
		return false
	}
	k := ex.pick(1+len(others), "sched")
	if k == 0 {
		return false
	}
	if delays > 0 {
		ex.preempts += k
	} else {
		ex.preempts++
	}
	g.granted = true
	fr.pc--
	ex.cur = others[k-1]
	ex.event(g, "preempted")
	ex.delays = append(ex.delays, ex.point(g))
	return true
}

// runnable lists the other goroutines that can run, in round-robin order from g on.
func (ex *Exec) runnable(g *Goro) []*Goro {
	at := 0
	for i, o := range ex.gs {
		if o == g {
			at = i
		}
	}
	var out []*Goro
	for i := range ex.gs {
		if o := ex.gs[(at+1+i)%len(ex.gs)]; o != g && ex.enabled(o) {
			out = append(out, o)
		}
	}
	return out
}

func (ex *Exec) enabled(g *Goro) bool {
	if g.done || g.waiting {
		return false
	}
	if g.wait != nil {
		return g.wait()
	}
	return true
}

func (ex *Exec) event(g *Goro, s string) {
	if len(ex.events) < 400 {
		ex.events = append(ex.events, g.name+": "+s+" at "+ex.where(g))
	}
}

func (ex *Exec) runAll(main *Goro) {
	ex.cur = main
	for {
		if main.done {
			return
		}
		g := ex.cur
		if g == nil || !ex.enabled(g) {
			cands := ex.runnable(g)
			if len(cands) == 0 && ex.fireTimer() {
				continue
			}
			if len(cands) == 0 {
				var sb strings.Builder
				for _, o := range ex.gs {
					if !o.done {
						fmt.Fprintf(&sb, " [%s blocked at %s]", o.name, ex.where(o))
					}
				}
				panic(control{"deadlock", "all goroutines are blocked:" + sb.String()})
			}
			n := len(cands)
			delays := ex.item.h.Delays
			if delays > 0 {
				n = min(n, delays-ex.preempts+1)
			} else if ex.item.h.Preempt == -2 {
				n = 1 // one schedule, round robin
			}
			k := ex.pick(n, "sched")
			if delays > 0 {
				ex.preempts += k
			}
			ex.cur = cands[k]
			continue
		}
		g.wait = nil
		ex.runChunk(g)
	}
}

var debugTrace = os.Getenv("SYMGO_TRACE") != ""

// point names the statement about to run: file:line of the innermost repository frame.
func (ex *Exec) point(g *Goro) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		pc := fr.pc
		if i < len(g.frames)-1 {
			pc--
		}
		if pc < 0 || fr.block >= len(fr.f.blocks) || pc >= len(fr.f.blocks[fr.block].ins) {
			continue
		}
		pp := ex.prog.fset.Position(fr.f.blocks[fr.block].ins[pc].in.Pos())
		if pp.IsValid() && strings.HasPrefix(pp.Filename, repoDir+"/") {
			return fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, repoDir+"/"), pp.Line)
		}
	}
	return "?"
}
