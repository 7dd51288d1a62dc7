package main

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one symbolic test: a Go function run for every value within the stated bounds.
type Harness struct {
	Name    string         `json:"name"`
	Func    string         `json:"func"`
	Params  map[string]int `json:"params"`
	Race    bool           `json:"race"`
	Conc    bool           `json:"conc"`
	Preempt int            `json:"preempt"`
	Delays  int            `json:"delays"` // bound on deviations from round-robin scheduling; 0: the preemption bound counts
	Steps   int            `json:"steps"`
	Budget  int            `json:"budget"` // seconds
	Covers  []string       `json:"covers"`
	Bounds  string         `json:"bounds"`
	Values  int            `json:"values"`
	Timeout int            `json:"timeout"` // solver, ms
	Hang    bool           `json:"hang"`    // running out of steps may be an endless loop: replayed
	Tiers   string         `json:"tiers"`
	Weight  int            `json:"weight"`

	fn *ssa.Function
}

type Item struct {
	h      *Harness
	prefix []uint64
	model  map[string]uint64
}

type Config struct {
	Solver       string
	QueryTimeout int
	CacheAll     bool
	Paranoid     bool
	MaxValues    int
	MaxSteps     int
	MaxLeaves    int
	NoMerge      bool
	MergeFns     map[string]bool
}

func (c *Config) preemptBound(h *Harness) int {
	if h.Preempt != 0 {
		return h.Preempt
	}
	return 2
}

type Stats struct {
	guesses, forks, unknown, truncated, merged, leaves, hammocks int
	asserts, assertRewrite, assertPath, assertSMT      int
	paths, infeasible, assumed, unsupported, stepsOut  int
	steps                                              int64
	queries, nsat, nunsat, nunk                        int
	solver                                             time.Duration
	terms                                              int64
	linConfirmed, linTimeout, sliceHits                int
}

func (s *Stats) add(o *Stats) {
	s.guesses += o.guesses
	s.sliceHits += o.sliceHits
	s.forks += o.forks
	s.unknown += o.unknown
	s.truncated += o.truncated
	s.merged += o.merged
	s.hammocks += o.hammocks
	s.leaves += o.leaves
	s.asserts += o.asserts
	s.assertRewrite += o.assertRewrite
	s.assertPath += o.assertPath
	s.assertSMT += o.assertSMT
	s.paths += o.paths
	s.infeasible += o.infeasible
	s.assumed += o.assumed
	s.unsupported += o.unsupported
	s.stepsOut += o.stepsOut
	s.steps += o.steps
	s.queries += o.queries
	s.nsat += o.nsat
	s.nunsat += o.nunsat
	s.nunk += o.nunk
	s.solver += o.solver
	s.terms += o.terms
	s.linConfirmed += o.linConfirmed
	s.linTimeout += o.linTimeout
}

// Violation is a counterexample found by the symbolic execution.
type Violation struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Func     string            `json:"func"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Params   map[string]int    `json:"params"`
	Vars     map[string]uint64 `json:"vars"`
	Events   []string          `json:"events,omitempty"`
	Info     map[string]string `json:"info,omitempty"`
	Race     bool              `json:"race,omitempty"`
	Conc     bool              `json:"conc,omitempty"`
	Delays   []string          `json:"delays,omitempty"`
	Replay   string            `json:"replay_result,omitempty"`
}

// Run explores a set of harnesses with several workers sharing a LIFO queue.
type Run struct {
	prog     *Program
	cfg      *Config
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*Item
	busy     int
	stop     bool
	deadline time.Time
	notes    map[string]int
	covers   map[string]int
	asserts  map[string]int
	fns      map[string]bool
	stats    map[*Harness]*Stats
	viol     func(v *Violation) bool // true: stop
	sample   func(v *Violation)
	samples  map[*Harness]int
	mergeBad map[*ssa.Function]bool
	timedOut map[*Harness]bool
	hstart   map[*Harness]time.Time
	running  map[*Harness]int
}

type Worker struct {
	run                    *Run
	prog                   *Program
	cfg                    *Config
	ex                     *Exec
	stats                  *Stats
	mergeBad               map[*ssa.Function]bool
	h                      *Harness
	solved                 time.Duration
	q0                     [4]int
	confirmer              *Solver
	confirms, confirmFails int
}

func newRun(p *Program, cfg *Config) *Run {
	r := &Run{prog: p, cfg: cfg, notes: map[string]int{}, covers: map[string]int{}, asserts: map[string]int{}, fns: map[string]bool{}, stats: map[*Harness]*Stats{}, samples: map[*Harness]int{}, timedOut: map[*Harness]bool{}, hstart: map[*Harness]time.Time{}, running: map[*Harness]int{}}
	r.cond = sync.NewCond(&r.mu)
	return r
}

func (w *Worker) push(it *Item) {
	r := w.run
	r.mu.Lock()
	r.queue = append(r.queue, it)
	r.mu.Unlock()
	r.cond.Signal()
}

func (w *Worker) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if w.h != nil {
		s = w.h.Name + ": " + s
	}
	w.run.mu.Lock()
	w.run.notes[s]++
	w.run.mu.Unlock()
}

func (w *Worker) cover(l string) {
	w.run.mu.Lock()
	w.run.covers[w.h.Name+": "+l]++
	w.run.mu.Unlock()
}

func (w *Worker) assertHit(m string) {
	w.run.mu.Lock()
	w.run.asserts[w.h.Name+": "+m]++
	w.run.mu.Unlock()
}

func (w *Worker) makeViolation(ex *Exec, kind, msg string, m *Model) *Violation {
	v := &Violation{Harness: w.h.Name, Func: w.h.Func, Kind: kind, Msg: msg, Params: w.h.Params, Vars: map[string]uint64{}, Race: w.h.Race, Conc: w.h.Conc}
	for _, t := range ex.pathVarList {
		if x := m.vals[t.id]; x != 0 {
			v.Vars[t.name] = x
		}
	}
	v.Events = append([]string(nil), ex.events...)
	v.Delays = append([]string(nil), ex.delays...)
	v.Info = map[string]string{}
	for k, x := range ex.pathInfo {
		v.Info[k] = x
	}
	return v
}

func (w *Worker) violation(ex *Exec, kind, msg string, m *Model) {
	v := w.makeViolation(ex, kind, msg, m)
	if w.run.viol != nil && w.run.viol(v) {
		w.run.mu.Lock()
		w.run.stop = true
		w.run.mu.Unlock()
		w.run.cond.Broadcast()
	}
}

// modelNow returns a model of the current path condition (nil if there is none).
func (ex *Exec) modelNow() *Model {
	if ex.model != nil {
		return ex.model
	}
	if len(ex.pc) == 0 {
		return newModel()
	}
	r, m := ex.solver.Check(ex.pc, nil, true)
	if r == Sat {
		return m
	}
	return nil
}

func (w *Worker) flushSolver() {
	s := w.ex.solver
	w.stats.queries += s.Queries - w.q0[0]
	w.stats.nsat += s.NSat - w.q0[1]
	w.stats.nunsat += s.NUnsat - w.q0[2]
	w.stats.nunk += s.NUnk - w.q0[3]
	w.stats.solver += s.Time - w.solved
	w.q0 = [4]int{s.Queries, s.NSat, s.NUnsat, s.NUnk}
	w.solved = s.Time
}

func (w *Worker) resetExec() {
	if w.ex != nil {
		w.collectFns()
		w.ex.solver.Close()
		w.ex.closeExtra()
	}
	w.ex = newExec(w)
	w.q0 = [4]int{}
	w.solved = 0
}

func (w *Worker) collectFns() {
	w.run.mu.Lock()
	for f := range w.ex.fns {
		w.run.fns[f.String()] = true
	}
	w.run.mu.Unlock()
}

func (w *Worker) runPath(it *Item) {
	if int(w.ex.tm.next) > 2000000 {
		w.resetExec()
	}
	ex := w.ex
	if w.h != it.h {
		w.confirms, w.confirmFails = 0, 0
	}
	w.h = it.h
	w.run.mu.Lock()
	st := w.run.stats[it.h]
	w.run.mu.Unlock()
	local := &Stats{}
	w.stats = local
	defer func() {
		w.flushSolver()
		local.steps += int64(ex.steps)
		w.run.mu.Lock()
		st.add(local)
		w.run.mu.Unlock()
	}()
	ex.resetPath()
	ex.item = it
	ex.prefix = it.prefix
	ex.raceMode = it.h.Race
	ex.epochCtr++
	ex.epoch = ex.epochCtr
	ex.model = newModel()
	ex.itemModel = ex.model
	ex.inInit = 0
	local.paths++
	aborted := true
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(control); ok {
				w.control(ex, c, local)
			} else if gc, ok := r.(goroutineCrash); ok {
				if m := ex.modelNow(); m != nil {
					w.violation(ex, "panic", gc.msg, m)
				}
			} else {
				local.unsupported++
				w.note("internal error: %v at %s", r, ex.where0())
				if debugTrace {
					fmt.Println(string(debug.Stack()))
				}
			}
		}
		ex.rollback(0)
		ex.epoch = 0
		if ex.nest != nil || aborted && ex.inInit > 0 {
			w.flushSolver()
			w.resetExec()
		}
	}()
	main := &Goro{id: 0, name: "main"}
	ex.gs = []*Goro{main}
	ex.cur = main
	if ex.raceMode {
		ex.tickVC(main)
	}
	if debugTrace {
		fmt.Printf("path %s prefix %v\n", it.h.Name, it.prefix)
	}
	ex.pushCall(main, it.h.fn, nil, nil, -1)
	ex.runAll(main)
	aborted = false
	// keep a few witnesses for validation against the real code
	w.run.mu.Lock()
	n := w.run.samples[it.h]
	take := n < 3 || (local.paths+n)%97 == 0 && n < 6
	if take {
		w.run.samples[it.h]++
	}
	w.run.mu.Unlock()
	if take && w.run.sample != nil {
		if m := ex.modelNow(); m != nil {
			w.run.sample(w.makeViolation(ex, "sample", "", m))
		}
	}
}

func (ex *Exec) where0() string {
	if ex.cur == nil || len(ex.cur.frames) == 0 {
		return "?"
	}
	return ex.where(ex.cur)
}

func (w *Worker) control(ex *Exec, c control, st *Stats) {
	if debugTrace {
		fmt.Printf("control %s: %s (at %s)\n", c.kind, c.msg, ex.where0())
	}
	switch c.kind {
	case "infeasible":
		st.infeasible++
	case "assume":
		st.assumed++
	case "violated", "unknown":
	case "unsupported", "mergeabort":
		st.unsupported++
		w.note("not encoded: %s at %s", c.msg, ex.where0())
	case "steps":
		st.stepsOut++
		w.note("%s", c.msg)
		if w.h.Hang {
			if m := ex.modelNow(); m != nil {
				w.violation(ex, "hang", c.msg, m)
			}
		}
	case "time":
		st.stepsOut++
		w.note("%s", c.msg)
		w.run.mu.Lock()
		w.run.timedOut[w.h] = true
		w.run.mu.Unlock()
	case "deadlock", "race", "fatal":
		if m := ex.modelNow(); m != nil {
			w.violation(ex, c.kind, c.msg, m)
		}
	default:
		w.note("unknown control %s", c.kind)
	}
}

func (r *Run) worker(wg *sync.WaitGroup) {
	defer wg.Done()
	w := &Worker{run: r, prog: r.prog, cfg: r.cfg, mergeBad: map[*ssa.Function]bool{}, stats: &Stats{}}
	w.resetExec()
	defer func() {
		w.collectFns()
		w.ex.solver.Close()
		w.ex.closeExtra()
		if w.confirmer != nil {
			w.confirmer.Close()
		}
	}()
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && r.busy > 0 && !r.stop {
			r.cond.Wait()
		}
		if r.stop || len(r.queue) == 0 {
			r.mu.Unlock()
			r.cond.Broadcast()
			return
		}
		it := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		if time.Now().After(r.deadline) {
			r.timedOut[it.h] = true
			r.mu.Unlock()
			continue
		}
		if _, ok := r.hstart[it.h]; !ok {
			r.hstart[it.h] = time.Now()
		}
		if it.h.Budget > 0 && time.Since(r.hstart[it.h]) > time.Duration(it.h.Budget)*time.Second {
			r.timedOut[it.h] = true
			r.mu.Unlock()
			continue
		}
		r.busy++
		r.running[it.h]++
		r.mu.Unlock()
		w.runPath(it)
		r.mu.Lock()
		r.busy--
		r.running[it.h]--
		r.mu.Unlock()
		r.cond.Broadcast()
	}
}

func (r *Run) explore(hs []*Harness, workers int) {
	for i := len(hs) - 1; i >= 0; i-- {
		h := hs[i]
		r.stats[h] = &Stats{}
		r.queue = append(r.queue, &Item{h: h})
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go r.worker(&wg)
	}
	done := make(chan bool)
	go func() {
		wg.Wait()
		close(done)
	}()
	// Workers deep in the construction of one term do not look at the clock: leave them behind.
	var since time.Time
	for {
		select {
		case <-done:
			return
		case <-time.After(200 * time.Millisecond):
		}
		r.mu.Lock()
		if since.IsZero() && r.stop {
			since = time.Now()
		}
		if !since.IsZero() && time.Since(since) > 4*time.Second || time.Since(r.deadline) > 45*time.Second {
			for h := range r.running {
				if r.running[h] > 0 {
					r.timedOut[h] = true
				}
			}
			for _, it := range r.queue {
				r.timedOut[it.h] = true
			}
			return // with r.mu locked: what was collected so far does not change any more
		}
		r.mu.Unlock()
	}
}

func isRepoFn(n string) bool {
	return strings.Contains(n, modPath) && !strings.Contains(n, "/zzverif/")
}

func (w *Worker) maxValues() int {
	if w.h != nil && w.h.Values > 0 {
		return w.h.Values
	}
	return w.cfg.MaxValues
}

func (w *Worker) maxSteps() int {
	if w.h != nil && w.h.Steps > 0 {
		return w.h.Steps
	}
	return w.cfg.MaxSteps
}
