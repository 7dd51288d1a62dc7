package main

// Independent parts of a path condition: a query only needs the conditions that share inputs with it, directly
// or through others; the current model answers for the rest. Results are remembered, since paths share them.

type sliceKey struct{ a, b uint64 }

type sliceRes struct {
	r    SatRes
	vals map[int32]uint64
}

// varsOf lists the inputs below t.
func (ex *Exec) varsOf(t *Term) []int32 {
	if v, ok := ex.varSets[t.id]; ok {
		return v
	}
	var out []int32
	ex.visitMark++
	if n := int(ex.tm.next) + 1; len(ex.visited) < n {
		ex.visited = append(ex.visited, make([]int32, n-len(ex.visited)+4096)...)
	}
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == nil || x.op == OConst || ex.visited[x.id] == ex.visitMark {
			continue
		}
		ex.visited[x.id] = ex.visitMark
		if x.op == OVar {
			out = append(out, x.id)
			continue
		}
		st = append(st, x.a, x.b, x.c)
	}
	if ex.varSets == nil {
		ex.varSets = map[int32][]int32{}
	}
	ex.varSets[t.id] = out
	return out
}

// check decides pc ∧ c for a satisfiable path condition.
func (ex *Exec) check(c *Term, wantModel bool) (SatRes, *Model) {
	if ex.model == nil || len(ex.pc) < 4 {
		return ex.solver.Check(ex.pc, c, wantModel)
	}
	rel := map[int32]bool{}
	for _, v := range ex.varsOf(c) {
		rel[v] = true
	}
	in := make([]bool, len(ex.pc))
	n := 0
	for changed := true; changed; {
		changed = false
		for i := len(ex.pc) - 1; i >= 0; i-- {
			if in[i] {
				continue
			}
			vs := ex.varsOf(ex.pc[i])
			for _, v := range vs {
				if rel[v] {
					in[i] = true
					break
				}
			}
			if in[i] {
				n++
				for _, v := range vs {
					if !rel[v] {
						rel[v] = true
						changed = true
					}
				}
			}
		}
	}
	if n*4 > len(ex.pc)*3 {
		return ex.solver.Check(ex.pc, c, wantModel)
	}
	part := make([]*Term, 0, n)
	k := sliceKey{1469598103934665603, 88172645463325252}
	mix := func(id int32) {
		k.a = (k.a ^ uint64(id)) * 1099511628211
		k.b = (k.b + uint64(id)) * 0x9e3779b97f4a7c15
		k.b ^= k.b >> 29
	}
	for i, t := range ex.pc {
		if in[i] {
			part = append(part, t)
			mix(t.id)
		}
	}
	mix(-1)
	mix(c.id)
	if ex.slices == nil {
		ex.slices = map[sliceKey]*sliceRes{}
	}
	s, ok := ex.slices[k]
	if !ok {
		if ex.slicer == nil {
			ex.slicer = NewSolver(ex.tm, ex.w.cfg.Solver, ex.w.cfg.QueryTimeout)
		}
		t0 := ex.slicer.Time
		r, m := ex.slicer.Check(part, c, true)
		st := ex.w.stats
		st.queries++
		st.solver += ex.slicer.Time - t0
		s = &sliceRes{r: r}
		switch r {
		case Sat:
			st.nsat++
			s.vals = m.vals
		case Unsat:
			st.nunsat++
		default:
			st.nunk++
		}
		ex.slices[k] = s
	} else {
		ex.w.stats.sliceHits++
	}
	if s.r != Sat {
		return s.r, nil
	}
	m := newModel()
	for id, v := range ex.model.vals {
		if !rel[id] {
			m.vals[id] = v
		}
	}
	for id := range rel {
		m.vals[id] = s.vals[id]
	}
	if m.eval(c) == 0 {
		panic("internal: the model of an independent part does not satisfy the query")
	}
	return Sat, m
}

func (ex *Exec) closeExtra() {
	for _, s := range []*Solver{ex.validator, ex.slicer} {
		if s != nil {
			s.Close()
		}
	}
}
