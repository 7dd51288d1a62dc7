package main

import (
	"go/types"
	"sort"
)

// Virtual time: the clock stands still while any goroutine can run; when none can, the earliest timer fires. That is
// the behaviour of a machine on which computing takes no time, and of testing/synctest, in which counterexamples of
// harnesses that wait are replayed.

const maxTimerEvents = 600

type vtimer struct {
	when, period int64
	f            *Closure // nil: a sleeping goroutine
	arg          Value
	active       bool
	seq          int
	g            *Goro
	vc           VC
}

type vclock struct {
	now    int64
	timers []*vtimer
	of     map[*Cont]*vtimer
	seq    int
	fired  int
}

func (ex *Exec) clock() *vclock {
	if ex.vc == nil {
		ex.vc = &vclock{now: 1e9, of: map[*Cont]*vtimer{}}
	}
	return ex.vc
}

func (c *vclock) arm(t *vtimer, when int64) {
	t.when = max(when, c.now)
	t.seq = c.seq
	c.seq++
	if !t.active {
		t.active = true
		c.timers = append(c.timers, t)
	}
}

func (c *vclock) disarm(t *vtimer) bool {
	was := t.active
	t.active = false
	for i, x := range c.timers {
		if x == t {
			c.timers = append(append([]*vtimer(nil), c.timers[:i]...), c.timers[i+1:]...)
			break
		}
	}
	return was
}

// fireTimer lets the earliest timer fire; false when there is none.
func (ex *Exec) fireTimer() bool {
	c := ex.vc
	if c == nil || len(c.timers) == 0 {
		return false
	}
	sort.SliceStable(c.timers, func(i, j int) bool {
		a, b := c.timers[i], c.timers[j]
		return a.when < b.when || a.when == b.when && a.seq < b.seq
	})
	if c.fired++; c.fired > maxTimerEvents {
		unsupported("more than %d timer events", maxTimerEvents)
	}
	t := c.timers[0]
	c.now = max(c.now, t.when)
	c.disarm(t)
	if t.f == nil {
		t.g.wait = nil
		return true
	}
	if t.period > 0 {
		c.arm(t, t.when+t.period)
	}
	ng := &Goro{id: len(ex.gs), name: "timer"}
	ex.gs = append(ex.gs, ng)
	if ex.raceMode {
		ng.vc = t.vc.clone()
		ex.tickVC(ng)
	}
	ex.pushGo(ng, t.f, []Value{t.arg, ex.tm.Const(64, 0), ex.tm.Const(64, 0)})
	return true
}

func (ex *Exec) noNest(what string) {
	if ex.nest != nil {
		panic(control{"mergeabort", what})
	}
}

// drain empties the channel of a stopped timer: nothing stale is received from it.
func drain(t *vtimer) {
	if i, ok := t.arg.(Iface); ok {
		if c, ok := i.v.(*ChanObj); ok && c != nil {
			c.buf, c.bufVC = nil, nil
		}
	}
}

func initTime() {
	i64 := func(ex *Exec, n int64) *Term { return ex.tm.Const(64, uint64(n)) }
	reg("time.runtimeNano", func(ex *Exec, c *callCtx) (Value, bool) { return i64(ex, ex.clock().now), true })
	reg("time.runtimeIsBubbled", func(ex *Exec, c *callCtx) (Value, bool) { return ex.tm.False, true })
	now := func(ex *Exec, c *callCtx) (Value, bool) {
		n := ex.clock().now
		return Tuple{i64(ex, 1700000000+n/1e9), ex.tm.Const(32, uint64(n%1e9)), i64(ex, n)}, true
	}
	reg("time.runtimeNow", now)
	reg("time.now", now)
	reg("time.initLocal", func(ex *Exec, c *callCtx) (Value, bool) { return nil, true })
	reg("time.syncTimer", func(ex *Exec, c *callCtx) (Value, bool) { return ex.zero(c.fn.Signature.Results().At(0).Type()), true })
	reg("time.newTimer", func(ex *Exec, c *callCtx) (Value, bool) {
		ex.noNest("timer")
		cl, _ := ex.force(c.args[2]).(*Closure)
		if cl == nil {
			unsupported("timer without a function")
		}
		k := ex.clock()
		pt := under(c.fn.Signature.Results().At(0).Type()).(*types.Pointer)
		cont := &Cont{slots: []Value{ex.zero(pt.Elem())}, epoch: ex.epoch, name: "timer"}
		if len(cont.slots) > 0 {
			if in, ok := cont.slots[0].(*Cont); ok && len(in.slots) == 2 {
				ex.storeSlot(in, 1, ex.tm.True)
			}
		}
		t := &vtimer{period: int64(ex.constInt(c.args[1])), f: cl, arg: c.args[3], vc: c.g.vc.clone()}
		ex.tickVC(c.g)
		k.of[cont] = t
		k.arm(t, int64(ex.constInt(c.args[0])))
		return Ptr{cont, 0}, true
	})
	find := func(ex *Exec, v Value) *vtimer {
		ex.noNest("timer")
		p, ok := ex.forcePtr(v).(Ptr)
		if !ok || p.c == nil {
			ex.nilDeref()
		}
		t := ex.clock().of[p.c]
		if t == nil {
			unsupported("timer of unknown origin")
		}
		return t
	}
	stop := func(ex *Exec, c *callCtx) (Value, bool) {
		t := find(ex, c.args[0])
		was := ex.clock().disarm(t)
		drain(t)
		return ex.tm.Bool(was), true
	}
	reg("time.stopTimer", stop)
	reg("time.resetTimer", func(ex *Exec, c *callCtx) (Value, bool) {
		t := find(ex, c.args[0])
		was := ex.clock().disarm(t)
		drain(t)
		t.period = int64(ex.constInt(c.args[2]))
		t.vc = join(t.vc.clone(), c.g.vc)
		ex.clock().arm(t, int64(ex.constInt(c.args[1])))
		return ex.tm.Bool(was), true
	})
	reg("time.Sleep", func(ex *Exec, c *callCtx) (Value, bool) {
		d := int64(ex.constInt(c.args[0]))
		if c.g.sleep == nil {
			if d <= 0 {
				return nil, true
			}
			ex.noNest("sleep")
			c.g.sleep = &vtimer{g: c.g}
			ex.clock().arm(c.g.sleep, ex.clock().now+d)
		}
		if t := c.g.sleep; t.active {
			c.g.wait = func() bool { return !t.active }
			c.g.top().pc--
			return nil, false
		}
		c.g.sleep = nil
		return nil, true
	})
}
