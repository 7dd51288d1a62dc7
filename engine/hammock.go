package main

import (
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Short conditionals without calls whose outcome is symbolic are turned into conditional values instead of two
// paths, provided every value they decide is symbolic on both sides or narrow (counters and lengths stay concrete, by paths).

type hammock struct {
	arm  [2]int // block, or -1 when the edge goes straight to the join
	join int
}

type slotKey struct {
	c *Cont
	i int
}

func pureArm(b *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 || len(b.Succs) != 1 || len(b.Instrs) > 14 {
		return false
	}
	for k, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.DebugRef, *ssa.FieldAddr, *ssa.Store, *ssa.ChangeType:
		case *ssa.BinOp:
			if !scalarType(i.Type()) || !scalarType(i.X.Type()) {
				return false
			}
			switch i.Op {
			case token.QUO, token.REM:
				return false
			case token.SHL, token.SHR:
				if _, ok := i.Y.(*ssa.Const); !ok {
					return false
				}
			}
		case *ssa.UnOp:
			if i.Op == token.ARROW {
				return false
			}
		case *ssa.Convert:
			if !scalarType(i.Type()) || !scalarType(i.X.Type()) {
				return false
			}
		case *ssa.Jump:
			return k == len(b.Instrs)-1
		default:
			return false
		}
	}
	return false
}

func scalarType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

// hammockAt recognises the pattern behind a conditional jump.
func hammockAt(b *ssa.BasicBlock) *hammock {
	if len(b.Instrs) == 0 || len(b.Succs) != 2 {
		return nil
	}
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
		return nil
	}
	t, f := b.Succs[0], b.Succs[1]
	switch {
	case t == f:
	case pureArm(t) && pureArm(f) && t.Succs[0] == f.Succs[0]:
		return &hammock{[2]int{t.Index, f.Index}, t.Succs[0].Index}
	case pureArm(t) && t.Succs[0] == f:
		return &hammock{[2]int{t.Index, -1}, f.Index}
	case pureArm(f) && f.Succs[0] == t:
		return &hammock{[2]int{-1, f.Index}, t.Index}
	}
	return nil
}

// hammock executes both arms under c; false leaves the frame as it was.
func (ex *Exec) hammock(fr *Frame, h *hammock, c *Term) bool {
	if c.w != 0 || ex.inInit > 0 || noHam {
		return false
	}
	from := fr.block
	var mem [2]map[slotKey]*Term
	for k, a := range h.arm {
		mem[k] = map[slotKey]*Term{}
		if a < 0 {
			continue
		}
		for n := range fr.f.blocks[a].ins {
			if !ex.armStep(fr, &fr.f.blocks[a].ins[n], mem[k]) {
				return false
			}
		}
	}
	mix := func(a, b Value) Value {
		x, ok1 := a.(*Term)
		y, ok2 := b.(*Term)
		if !ok1 || !ok2 {
			return nil
		}
		if x == y {
			return x
		}
		if x.w == 0 || x.w > 32 && (x.isConst() || y.isConst()) {
			return nil
		}
		return ex.tm.Ite(c, x, y)
	}
	edge := func(k int) int {
		if h.arm[k] >= 0 {
			return h.arm[k]
		}
		return from
	}
	blk := &fr.f.blocks[h.join]
	tmp := make([]Value, len(blk.phis))
	for j := range blk.phis {
		a, b := blk.phis[j].a[blk.preds[edge(0)]], blk.phis[j].a[blk.preds[edge(1)]]
		if tmp[j] = mix(ex.get(fr, &a), ex.get(fr, &b)); tmp[j] == nil {
			return false
		}
	}
	out := map[slotKey]Value{}
	var order []slotKey
	for k := range mem {
		for s, v := range mem[k] {
			if _, done := out[s]; done {
				continue
			}
			o, ok := mem[1-k][s]
			if !ok {
				o, ok = s.c.slots[s.i].(*Term)
				if !ok {
					return false
				}
			}
			a, b := v, o
			if k == 1 {
				a, b = o, v
			}
			m := mix(a, b)
			if m == nil {
				return false
			}
			out[s] = m
			order = append(order, s)
		}
	}
	if len(tmp) == 0 && len(order) == 0 {
		return false
	}
	for _, s := range order {
		ex.storeSlot(s.c, s.i, out[s])
	}
	fr.prev, fr.block, fr.pc = edge(1), h.join, 0
	for j := range blk.phis {
		fr.regs[blk.phis[j].dst] = tmp[j]
	}
	ex.w.stats.hammocks++
	return true
}

func (ex *Exec) armStep(fr *Frame, in *inst, mem map[slotKey]*Term) bool {
	termOf := func(k int) *Term {
		t, _ := ex.get(fr, &in.a[k]).(*Term)
		return t
	}
	slot := func(k int) (slotKey, bool) {
		p, ok := ex.get(fr, &in.a[k]).(Ptr)
		if !ok || p.c == nil || ex.raceMode {
			return slotKey{}, false
		}
		_, ok = p.c.slots[p.i].(*Term)
		return slotKey{p.c, p.i}, ok
	}
	switch i := in.in.(type) {
	case *ssa.Jump:
		return true
	case *ssa.BinOp:
		x, y := termOf(0), termOf(1)
		if x == nil || y == nil {
			return false
		}
		fr.regs[in.dst] = ex.binop(i.Op, i.X.Type(), i.Y.Type(), x, y)
		return true
	case *ssa.UnOp:
		if i.Op == token.MUL {
			s, ok := slot(0)
			if !ok {
				return false
			}
			if v, ok := mem[s]; ok {
				fr.regs[in.dst] = v
			} else {
				fr.regs[in.dst] = s.c.slots[s.i]
			}
			return true
		}
		x := termOf(0)
		if x == nil {
			return false
		}
		fr.regs[in.dst] = ex.unop(i, x)
		return true
	case *ssa.Convert:
		x := termOf(0)
		if x == nil {
			return false
		}
		fr.regs[in.dst] = ex.convert(i.X.Type(), i.Type(), x)
		return true
	case *ssa.ChangeType:
		fr.regs[in.dst] = ex.get(fr, &in.a[0])
		return true
	case *ssa.FieldAddr:
		p, ok := ex.get(fr, &in.a[0]).(Ptr)
		if !ok || p.c == nil {
			return false
		}
		sc, ok := p.c.slots[p.i].(*Cont)
		if !ok {
			return false
		}
		fr.regs[in.dst] = Ptr{sc, i.Field}
		return true
	case *ssa.Store:
		s, ok := slot(0)
		v := termOf(1)
		if !ok || v == nil {
			return false
		}
		mem[s] = v
		return true
	}
	return false
}

var noHam = os.Getenv("SYMGO_NOHAM") != ""
