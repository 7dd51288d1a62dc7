package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- channels ----

type selState struct {
	fired bool
	idx   int
}

type waiter struct {
	g    *Goro
	val  Value
	sel  *selState
	idx  int
	done func(v Value, ok bool)
	vc   VC
}

func (w *waiter) dead() bool { return w.sel != nil && w.sel.fired }

func popLive(q *[]*waiter, self *Goro) *waiter {
	for i, w := range *q {
		if w.dead() {
			continue
		}
		if w.g == self {
			continue
		}
		*q = append(append([]*waiter(nil), (*q)[:i]...), (*q)[i+1:]...)
		return w
	}
	return nil
}

func hasLive(q []*waiter, self *Goro) bool {
	for _, w := range q {
		if !w.dead() && w.g != self {
			return true
		}
	}
	return false
}

func (ex *Exec) chanTouch(c *ChanObj) {
	if ex.nest != nil || ex.inInit > 0 && c.epoch != 0 {
		panic(control{"mergeabort", "channel operation inside merged call"})
	}
	if c.epoch < ex.epoch && c.epoch == 0 && ex.inInit == 0 {
		unsupported("channel created at initialisation is used")
	}
}

func (ex *Exec) fire(w *waiter) {
	if w.sel != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
	}
	w.g.waiting = false
}

// trySend performs a send if it can proceed now.
func (ex *Exec) canSend(g *Goro, c *ChanObj) bool {
	return c != nil && (c.closed || hasLive(c.recvq, g) || len(c.buf) < c.cap)
}

func (ex *Exec) doSend(g *Goro, c *ChanObj, v Value) {
	if c.closed {
		panic(goPanic{val: Iface{ex.prog.rtErrType, Str{s: "send on closed channel"}}, msg: "panic: send on closed channel"})
	}
	ex.chanTouch(c)
	if w := popLive(&c.recvq, g); w != nil {
		ex.fire(w)
		// unbuffered (or empty buffered) rendezvous: both sides synchronise
		ex.joinVC(w.g, g.vc)
		if c.cap == 0 {
			ex.joinVC(g, w.vc)
		}
		w.done(v, true)
		ex.tickVC(g)
		ex.tickVC(w.g)
		return
	}
	c.buf = append(c.buf, v)
	c.bufVC = append(c.bufVC, g.vc.clone())
	if len(c.slotVC) > 0 {
		ex.joinVC(g, c.slotVC[0])
		c.slotVC = c.slotVC[1:]
	}
	ex.tickVC(g)
}

func (ex *Exec) canRecv(g *Goro, c *ChanObj) bool {
	return c != nil && (len(c.buf) > 0 || c.closed || hasLive(c.sendq, g))
}

func (ex *Exec) doRecv(g *Goro, c *ChanObj) (Value, bool) {
	if len(c.buf) > 0 {
		ex.chanTouch(c)
		v := c.buf[0]
		ex.joinVC(g, c.bufVC[0])
		c.buf, c.bufVC = c.buf[1:], c.bufVC[1:]
		c.slotVC = append(c.slotVC, g.vc.clone())
		if w := popLive(&c.sendq, g); w != nil {
			ex.fire(w)
			c.buf = append(c.buf, w.val)
			c.bufVC = append(c.bufVC, w.vc)
			if len(c.slotVC) > 0 {
				ex.joinVC(w.g, c.slotVC[0])
				c.slotVC = c.slotVC[1:]
			}
			w.done(nil, true)
		}
		ex.tickVC(g)
		return v, true
	}
	if w := popLive(&c.sendq, g); w != nil {
		ex.chanTouch(c)
		ex.fire(w)
		ex.joinVC(g, w.vc)
		ex.joinVC(w.g, g.vc)
		w.done(nil, true)
		ex.tickVC(g)
		ex.tickVC(w.g)
		return w.val, true
	}
	// closed
	ex.joinVC(g, c.closeVC)
	return ex.zero(c.elem), false
}

func (ex *Exec) chanClose(g *Goro, v Value) {
	c, _ := v.(*ChanObj)
	if c == nil {
		ex.rtPanic("close of nil channel")
	}
	if c.closed {
		panic(goPanic{val: Iface{ex.prog.rtErrType, Str{s: "close of closed channel"}}, msg: "panic: close of closed channel"})
	}
	if ex.inInit == 0 {
		ex.chanTouch(c)
	}
	c.closed = true
	c.closeVC = g.vc.clone()
	for {
		w := popLive(&c.recvq, nil)
		if w == nil {
			break
		}
		ex.fire(w)
		ex.joinVC(w.g, g.vc)
		w.done(ex.zero(c.elem), false)
	}
	for {
		w := popLive(&c.sendq, nil)
		if w == nil {
			break
		}
		ex.fire(w)
		// a blocked sender panics
		wg := w.g
		fr := wg.top()
		ps := &panicState{val: Iface{ex.prog.rtErrType, Str{s: "send on closed channel"}}, msg: "panic: send on closed channel", where: ex.where(wg)}
		fr.panicking = ps
		ex.unwind(wg)
	}
	ex.tickVC(g)
}

func (ex *Exec) blockForever(g *Goro) bool {
	g.wait = func() bool { return false }
	return false
}

func (ex *Exec) chanRecv(g *Goro, fr *Frame, in *inst, i *ssa.UnOp) bool {
	v := ex.getF(fr, &in.a[0])
	c, _ := v.(*ChanObj)
	if ex.yieldBefore(g, fr) {
		return false
	}
	if c == nil {
		return ex.blockForever(g)
	}
	set := func(v Value, ok bool) {
		if i.CommaOk {
			fr.regs[in.dst] = Tuple{v, ex.tm.Bool(ok)}
		} else {
			fr.regs[in.dst] = v
		}
	}
	if ex.canRecv(g, c) {
		x, ok := ex.doRecv(g, c)
		set(x, ok)
		return true
	}
	ex.chanTouch(c)
	if g.nest {
		panic(control{"mergeabort", "blocking receive"})
	}
	c.recvq = append(c.recvq, &waiter{g: g, done: set, vc: g.vc.clone()})
	g.waiting = true
	return false
}

func (ex *Exec) chanSend(g *Goro, fr *Frame, in *inst) bool {
	c, _ := ex.getF(fr, &in.a[0]).(*ChanObj)
	v := ex.get(fr, &in.a[1])
	if ex.yieldBefore(g, fr) {
		return false
	}
	if c == nil {
		return ex.blockForever(g)
	}
	if ex.canSend(g, c) {
		ex.doSend(g, c, v)
		return true
	}
	ex.chanTouch(c)
	if g.nest {
		panic(control{"mergeabort", "blocking send"})
	}
	c.sendq = append(c.sendq, &waiter{g: g, val: v, done: func(Value, bool) {}, vc: g.vc.clone()})
	ex.tickVC(g)
	g.waiting = true
	return false
}

func (ex *Exec) selectOp(g *Goro, fr *Frame, in *inst, i *ssa.Select) bool {
	if ex.yieldBefore(g, fr) {
		return false
	}
	// operands: for each state Chan, then Send value when sending
	type st struct {
		c    *ChanObj
		v    Value
		send bool
	}
	var sts []st
	k := 0
	for _, s := range i.States {
		c, _ := ex.getF(fr, &in.a[k]).(*ChanObj)
		k++
		x := st{c: c, send: s.Dir == types.SendOnly}
		x.v = ex.get(fr, &in.a[k])
		k++
		sts = append(sts, x)
	}
	tt := i.Type().(*types.Tuple)
	result := func(idx int, v Value, ok bool) Tuple {
		r := make(Tuple, tt.Len())
		r[0] = ex.tm.Const(64, uint64(int64(idx)))
		r[1] = ex.tm.Bool(ok)
		j := 2
		for n, s := range sts {
			if s.send {
				continue
			}
			if n == idx && v != nil {
				r[j] = v
			} else {
				r[j] = ex.zero(tt.At(j).Type())
			}
			j++
		}
		return r
	}
	var ready []int
	for n, s := range sts {
		if s.send && ex.canSend(g, s.c) || !s.send && ex.canRecv(g, s.c) {
			ready = append(ready, n)
		}
	}
	if len(ready) > 0 {
		n := ready[ex.pick(len(ready), "select")]
		s := sts[n]
		if s.send {
			ex.doSend(g, s.c, s.v)
			fr.regs[in.dst] = result(n, nil, false)
		} else {
			v, ok := ex.doRecv(g, s.c)
			fr.regs[in.dst] = result(n, v, ok)
		}
		return true
	}
	if !i.Blocking {
		fr.regs[in.dst] = result(-1, nil, false)
		return true
	}
	if g.nest {
		panic(control{"mergeabort", "blocking select"})
	}
	sel := &selState{}
	any := false
	for n, s := range sts {
		if s.c == nil {
			continue
		}
		any = true
		ex.chanTouch(s.c)
		n := n
		w := &waiter{g: g, val: s.v, sel: sel, idx: n, vc: g.vc.clone()}
		w.done = func(v Value, ok bool) { fr.regs[in.dst] = result(n, v, ok) }
		if s.send {
			s.c.sendq = append(s.c.sendq, w)
		} else {
			s.c.recvq = append(s.c.recvq, w)
		}
	}
	if !any {
		return ex.blockForever(g)
	}
	ex.tickVC(g)
	g.waiting = true
	return false
}

// ---- vector clocks and race detection ----

type VC []uint32

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func join(a, b VC) VC {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (ex *Exec) joinVC(g *Goro, v VC) {
	if ex.raceMode {
		g.vc = join(g.vc, v)
	}
}

func (ex *Exec) tickVC(g *Goro) {
	if ex.raceMode {
		for len(g.vc) <= g.id {
			g.vc = append(g.vc, 0)
		}
		g.vc[g.id]++
	}
}

func (ex *Exec) forkVC(parent, child *Goro) {
	if ex.raceMode {
		ex.tickVC(parent)
		child.vc = parent.vc.clone()
		ex.tickVC(child)
		ex.tickVC(parent)
	}
}

type shadowCell struct {
	w      int // last writer + 1
	wc     uint32
	wwhere string
	r      map[int]uint32
	rwhere map[int]string
}

func (ex *Exec) raceAccess(g *Goro, c *Cont, i int, write bool) {
	if g == nil || c == nil || len(ex.gs) < 2 || ex.inInit > 0 {
		return
	}
	if c.shadow == nil || c.shadowOf != ex.item {
		// package-level data outlives the path, its access history does not
		c.shadowOf = ex.item
		c.shadow = make([]*shadowCell, len(c.slots))
	}
	sc := c.shadow[i]
	if sc == nil {
		sc = &shadowCell{}
		c.shadow[i] = sc
	}
	ex.raceCell(g, sc, write, c.name)
}

func (ex *Exec) raceCell(g *Goro, sc *shadowCell, write bool, name string) {
	if sc.w != 0 && sc.w-1 != g.id && g.vc.get(sc.w-1) < sc.wc {
		ex.race(g, write, "write", sc.wwhere, sc.w-1, name)
	}
	if write {
		for r, k := range sc.r {
			if r != g.id && g.vc.get(r) < k {
				ex.race(g, write, "read", sc.rwhere[r], r, name)
			}
		}
		sc.w = g.id + 1
		sc.wc = g.vc.get(g.id)
		sc.wwhere = ex.where(g)
		sc.r, sc.rwhere = nil, nil
		return
	}
	if sc.r == nil {
		sc.r = map[int]uint32{}
		sc.rwhere = map[int]string{}
	}
	sc.r[g.id] = g.vc.get(g.id)
	sc.rwhere[g.id] = ex.where(g)
}

func (ex *Exec) raceMap(g *Goro, m *MapObj, write bool) {
	if !ex.raceMode || m == nil || g == nil || len(ex.gs) < 2 || ex.inInit > 0 {
		return
	}
	if m.shad == nil || m.shadOf != ex.item {
		m.shadOf = ex.item
		m.shad = &shadowCell{}
	}
	ex.raceCell(g, m.shad, write, "map")
}

func (ex *Exec) race(g *Goro, write bool, other, where string, og int, name string) {
	kind := "read"
	if write {
		kind = "write"
	}
	panic(control{"race", fmt.Sprintf("data race: %s at %s by %s and earlier %s at %s by g%d are unordered", kind, ex.where(g), g.name, other, where, og)})
}

// ---- mutexes and friends ----

func (ex *Exec) auxOf(v Value) *Cont {
	p, ok := ex.forcePtr(v).(Ptr)
	if !ok || p.c == nil {
		ex.nilDeref()
	}
	c, ok := p.c.slots[p.i].(*Cont)
	if !ok {
		unsupported("synchronisation object is %T", p.c.slots[p.i])
	}
	return c
}

func (ex *Exec) aux(v Value) *Aux {
	c := ex.auxOf(v)
	if c.epoch < ex.epoch {
		// permanent or outer object: its state is restored afterwards
		old := c.aux
		var cp *Aux
		if old != nil {
			x := *old
			cp = &x
		} else {
			cp = &Aux{}
		}
		ex.undo = append(ex.undo, undoRec{f: func() { c.aux = old }})
		c.aux = cp
		return cp
	}
	if c.aux == nil {
		c.aux = &Aux{}
	}
	return c.aux
}

func (ex *Exec) fatal(msg string) {
	panic(control{"fatal", "fatal error: " + msg})
}

func (ex *Exec) lock(cc *callCtx, v Value) (Value, bool) {
	a := ex.aux(v)
	if a.locked || a.readers > 0 {
		if cc.g.nest {
			panic(control{"mergeabort", "contended lock"})
		}
		g := cc.g
		cont := ex.auxOf(v)
		if a.pend == nil {
			a.pend = map[*Goro]bool{}
		}
		a.pend[g] = true
		g.wait = func() bool { x := cont.aux; return x == nil || !x.locked && x.readers == 0 }
		g.top().pc--
		return nil, false
	}
	a.locked = true
	a.writer = cc.g
	delete(a.pend, cc.g)
	ex.joinVC(cc.g, a.vc)
	ex.joinVC(cc.g, a.rvc)
	return nil, true
}

func (ex *Exec) unlock(cc *callCtx, v Value) (Value, bool) {
	a := ex.aux(v)
	if !a.locked {
		ex.fatal("unlock of unlocked mutex")
	}
	a.locked = false
	a.writer = nil
	if ex.raceMode {
		a.vc = cc.g.vc.clone()
		ex.tickVC(cc.g)
	}
	return nil, true
}

func (ex *Exec) rlock(cc *callCtx, v Value) (Value, bool) {
	a := ex.aux(v)
	if a.locked || len(a.pend) > 0 { // a waiting writer keeps new readers out
		if cc.g.nest {
			panic(control{"mergeabort", "contended lock"})
		}
		g := cc.g
		cont := ex.auxOf(v)
		g.wait = func() bool { x := cont.aux; return x == nil || !x.locked && len(x.pend) == 0 }
		g.top().pc--
		return nil, false
	}
	a.readers++
	ex.joinVC(cc.g, a.vc)
	return nil, true
}

func (ex *Exec) runlock(cc *callCtx, v Value) (Value, bool) {
	a := ex.aux(v)
	if a.readers == 0 {
		ex.fatal("RUnlock of unlocked RWMutex")
	}
	a.readers--
	if ex.raceMode {
		a.rvc = join(a.rvc.clone(), cc.g.vc)
		ex.tickVC(cc.g)
	}
	return nil, true
}
