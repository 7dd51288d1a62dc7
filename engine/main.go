package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// symgo: symbolic execution of the repository's Go code (SSA form) with an SMT solver.
//
//	symgo check ID [-tier quick|thorough]   decide one property
//	symgo run pkg.Func [-p k=v]...          explore one harness
//	symgo replay FILE                       run a counterexample against the real code

type checkCfg struct {
	Level       string   `json:"level"`
	Harnesses   []*hcfg  `json:"harnesses"`
	Assumptions []string `json:"assumptions"`
	Outside     []string `json:"outside"`
	Budget      int      `json:"budget"`
	Merge       []string `json:"merge"`
}

type hcfg struct {
	Harness
	Thorough *Harness `json:"thorough"`
	Quick    *Harness `json:"quick"`
}

func override(h *Harness, o *Harness) {
	if o == nil {
		return
	}
	if len(o.Params) > 0 {
		m := map[string]int{}
		for k, v := range h.Params {
			m[k] = v
		}
		for k, v := range o.Params {
			m[k] = v
		}
		h.Params = m
	}
	if o.Delays != 0 {
		h.Delays = o.Delays
	}
	if o.Preempt != 0 {
		h.Preempt = o.Preempt
	}
	if o.Steps != 0 {
		h.Steps = o.Steps
	}
	if o.Budget != 0 {
		h.Budget = o.Budget
	}
	if o.Bounds != "" {
		h.Bounds = o.Bounds
	}
	if o.Timeout != 0 {
		h.Timeout = o.Timeout
	}
	if len(o.Covers) > 0 {
		h.Covers = o.Covers
	}
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

var defaultMerge = []string{
	"(" + modPath + ".Dialects).Validate",
	"(*" + modPath + ".X25CRC).Write",
}

func main() {
	if os.Getenv("GOMEMLIMIT") == "" {
		debug.SetMemoryLimit(12 << 30)
	}
	if v := os.Getenv("SYMGO_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("SYMGO_VERIF"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 2 {
		fatalf("usage: symgo check|run|replay ...")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fatalf("unknown command %s", os.Args[1])
}

type multi []string

func (m *multi) String() string     { return strings.Join(*m, ",") }
func (m *multi) Set(s string) error { *m = append(*m, s); return nil }

func splitArg(args []string) (string, []string) {
	if len(args) == 0 {
		fatalf("missing argument")
	}
	return args[0], args[1:]
}

func cmdRun(args []string) int {
	name, rest := splitArg(args)
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	var ps multi
	fs.Var(&ps, "p", "param k=v")
	workers := fs.Int("j", 8, "workers")
	budget := fs.Int("t", 120, "seconds")
	race := fs.Bool("race", false, "race detection")
	preempt := fs.Int("preempt", 2, "preemptions")
	delays := fs.Int("delays", 0, "delays")
	steps := fs.Int("steps", 5000000, "steps per path")
	nom := fs.Bool("nomerge", false, "no merging")
	prof := fs.String("prof", "", "cpu profile")
	nv := fs.Int("viol", 5, "stop after so many violations")
	fs.Parse(rest)
	h := &Harness{Name: name, Func: name, Params: map[string]int{}, Race: *race, Conc: *race, Preempt: *preempt, Delays: *delays, Steps: *steps}
	for _, p := range ps {
		kv := strings.SplitN(p, "=", 2)
		v, _ := strconv.Atoi(kv[1])
		h.Params[kv[0]] = v
	}
	cc := &checkCfg{Harnesses: []*hcfg{{Harness: *h}}, Budget: *budget}
	return runCheck("run", cc, runOpts{tier: "quick", workers: *workers, budget: *budget, verbose: true, nomerge: *nom, prof: *prof, maxViol: *nv})
}

func cmdCheck(args []string) int {
	id, rest := splitArg(args)
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "", "quick or thorough")
	workers := fs.Int("j", runtime.NumCPU(), "workers")
	only := fs.String("only", "", "only this harness")
	verbose := fs.Bool("v", false, "verbose")
	budget := fs.Int("t", 0, "seconds")
	prof := fs.String("prof", "", "cpu profile")
	fs.Parse(rest)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fatalf("%v", err)
	}
	all := map[string]*checkCfg{}
	if err := json.Unmarshal(b, &all); err != nil {
		fatalf("checks.json: %v", err)
	}
	cc := all[id]
	if cc == nil {
		fatalf("no check for %s", id)
	}
	if *only != "" {
		var hs []*hcfg
		for _, h := range cc.Harnesses {
			if h.Name == *only {
				hs = append(hs, h)
			}
		}
		cc.Harnesses = hs
	}
	bud := cc.Budget
	if bud == 0 {
		bud = 420
	}
	if *tier == "thorough" {
		bud = 3600
	}
	if *budget > 0 {
		bud = *budget
	}
	return runCheck(id, cc, runOpts{tier: *tier, workers: *workers, budget: bud, verbose: *verbose, prof: *prof, maxViol: 1, evidence: *only == ""})
}

type runOpts struct {
	tier     string
	workers  int
	budget   int
	verbose  bool
	nomerge  bool
	prof     string
	maxViol  int
	evidence bool
}

func runCheck(id string, cc *checkCfg, o runOpts) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	work := filepath.Join(verifDir, "work", id)
	os.MkdirAll(work, 0o755)
	ov, err := buildOverlay(filepath.Join(work, "gen"))
	if err != nil {
		fatalf("%v", err)
	}
	var hs []*Harness
	pk := map[string]bool{}
	for _, c := range cc.Harnesses {
		h := c.Harness
		if h.Tiers != "" && !strings.Contains(h.Tiers, o.tier) {
			continue
		}
		if o.tier == "thorough" {
			override(&h, c.Thorough)
		} else {
			override(&h, c.Quick)
		}
		hs = append(hs, &h)
		pk[zz+"/"+h.Func[:strings.LastIndex(h.Func, ".")]] = true
	}
	var pats []string
	for _, p := range sortedKeys(pk) {
		pats = append(pats, p)
	}
	prog, err := loadProgram(ov, pats)
	if err != nil {
		fatalf("%v", err)
	}
	tLoad := time.Since(t0)
	merge := map[string]bool{}
	for _, m := range defaultMerge {
		merge[m] = true
	}
	for _, m := range cc.Merge {
		merge[m] = true
	}
	cfg := &Config{Solver: "z3", QueryTimeout: 20000, MaxValues: 600, MaxSteps: 5000000, MaxLeaves: 400, MergeFns: merge, NoMerge: o.nomerge, Paranoid: os.Getenv("SYMGO_PARANOID") != ""}
	if v := os.Getenv("SYMGO_SOLVER"); v != "" {
		cfg.Solver = v
	}
	for _, h := range hs {
		h.fn, err = prog.harness(h.Func)
		if err != nil {
			fatalf("%v", err)
		}
	}
	rp := &replayer{id: id, work: work, overlay: ov, pats: pats}
	run := newRun(prog, cfg)
	run.deadline = t0.Add(time.Duration(o.budget) * time.Second)
	var mu sync.Mutex
	var confirmed []*Violation
	var paths []string
	unrepro := map[string]int{}
	var unreproList []*Violation
	run.viol = func(v *Violation) bool {
		mu.Lock()
		defer mu.Unlock()
		v.Property = id
		if len(confirmed) >= o.maxViol {
			return true
		}
		key := v.Harness + "|" + v.Msg
		if unrepro[key] >= 8 {
			return false
		}
		res, ok := rp.replay(v)
		v.Replay = res
		if o.verbose {
			fmt.Printf("counterexample in %s: %s: %s\n  replay: %s (reproduced %v)\n", v.Harness, v.Kind, v.Msg, strings.ReplaceAll(tail(res, 600), "\n", "\n    "), ok)
			if len(v.Info) > 0 {
				fmt.Printf("  info: %v\n", v.Info)
			}
			b, _ := json.Marshal(v.Vars)
			fmt.Printf("  vars: %s\n", tail(string(b), 1500))
			for _, e := range v.Events {
				fmt.Printf("    %s\n", e)
			}
		}
		if !ok {
			unrepro[key]++
			unreproList = append(unreproList, v)
			return false
		}
		p := filepath.Join(work, fmt.Sprintf("violation-%d.json", len(confirmed)+1))
		writeJSON(p, v)
		confirmed = append(confirmed, v)
		paths = append(paths, p)
		return len(confirmed) >= o.maxViol
	}
	var samples []*Violation
	run.sample = func(v *Violation) {
		mu.Lock()
		v.Property = id
		samples = append(samples, v)
		mu.Unlock()
	}
	if o.prof != "" {
		f, _ := os.Create(o.prof)
		pprof.StartCPUProfile(f)
	}
	run.explore(hs, o.workers)
	mu.Lock() // a replay in progress ends first; nothing is reported afterwards
	if o.prof != "" {
		pprof.StopCPUProfile()
	}
	tExp := time.Since(t0) - tLoad
	// validate witnesses against the real code
	validated, mismatched := 0, 0
	var sampleTexts []any
	if len(confirmed) == 0 && os.Getenv("SYMGO_NOSAMPLE") == "" {
		for _, s := range samples {
			if time.Since(t0) > time.Duration(o.budget+120)*time.Second {
				break
			}
			res, code := rp.runNative(s, "", 1)
			if code == 0 {
				validated++
			} else if !s.Conc && (code == 3 || code == 2) {
				// the real code fails on a concrete input of an explored path
				s.Kind = "native"
				s.Msg = "the real code fails on a path the encoding accepts: " + tail(res, 300)
				s.Replay = res
				p := filepath.Join(work, fmt.Sprintf("violation-%d.json", len(confirmed)+1))
				writeJSON(p, s)
				confirmed = append(confirmed, s)
				paths = append(paths, p)
				if o.verbose {
					fmt.Printf("native mismatch in %s: %s\n vars %v\n", s.Harness, res, s.Vars)
				}
			} else {
				mismatched++
				run.notes[fmt.Sprintf("%s: a witness was not confirmed natively (exit %d: %s)", s.Harness, code, strings.TrimSpace(tail(res, 200)))]++
			}
		}
	}
	for i, s := range samples {
		if i >= 6 {
			break
		}
		sampleTexts = append(sampleTexts, map[string]any{"harness": s.Harness, "params": s.Params, "info": s.Info, "nonzero_inputs": clip(s.Vars, 24), "schedule": clipS(s.Events, 12)})
	}
	tot := &Stats{}
	per := map[string]any{}
	for _, h := range hs {
		s := run.stats[h]
		tot.add(s)
		miss := []string{}
		for _, c := range h.Covers {
			if run.covers[h.Name+": "+c] == 0 {
				miss = append(miss, c)
			}
		}
		pm := map[string]any{"function": h.Func, "params": h.Params, "bounds": h.Bounds, "paths": s.paths, "assumed_away": s.assumed, "infeasible": s.infeasible,
			"asserts_decided": s.asserts, "asserts_by_rewriting": s.assertRewrite + s.assertPath, "asserts_by_smt": s.assertSMT,
			"queries": s.queries, "sat": s.nsat, "unsat": s.nunsat, "unknown": s.nunk, "solver_s": round(s.solver.Seconds()), "instructions": s.steps,
			"exhausted": !run.timedOut[h] && s.unsupported == 0 && s.stepsOut == 0 && s.unknown == 0 && s.truncated == 0}
		if s.unsupported > 0 {
			pm["paths_not_encoded"] = s.unsupported
		}
		if s.stepsOut > 0 {
			pm["paths_cut_by_step_limit"] = s.stepsOut
		}
		if run.timedOut[h] {
			pm["stopped_by_time_budget"] = true
		}
		if len(miss) > 0 {
			pm["witnesses_not_reached"] = miss
		}
		per[h.Name] = pm
		if o.verbose {
			fmt.Printf("%-28s paths %d (assume %d infeas %d unsup %d steps-out %d) asserts %d (rw %d path %d smt %d) forks %d queries %d (sat %d unsat %d unk %d) solver %.1fs steps %d merged %d/%d hammocks %d guesses %d lin-confirmed %d/%d timeout=%v miss=%v\n",
				h.Name, s.paths, s.assumed, s.infeasible, s.unsupported, s.stepsOut, s.asserts, s.assertRewrite, s.assertPath, s.assertSMT, s.forks, s.queries, s.nsat, s.nunsat, s.nunk, s.solver.Seconds(), s.steps, s.merged, s.leaves, s.hammocks, s.guesses, s.linConfirmed, s.linConfirmed+s.linTimeout, run.timedOut[h], miss)
		}
	}
	var fns []string
	for f := range run.fns {
		if isRepoFn(f) {
			fns = append(fns, strings.ReplaceAll(f, modPath, "mavlink2"))
		}
	}
	sort.Strings(fns)
	nfn := len(fns)
	if len(fns) > 60 {
		fns = append(fns[:60], fmt.Sprintf("... and %d more", nfn-60))
	}
	if o.verbose {
		for _, n := range sortedKeys(run.notes) {
			fmt.Printf("note: %s (x%d)\n", n, run.notes[n])
		}
		for _, c := range sortedKeys(run.covers) {
			fmt.Printf("cover: %s (x%d)\n", c, run.covers[c])
		}
		fmt.Printf("load %.1fs explore %.1fs total %.1fs; witnesses validated natively %d, unconfirmed %d; functions encoded %d\n", tLoad.Seconds(), tExp.Seconds(), time.Since(t0).Seconds(), validated, mismatched, nfn)
	}
	if o.evidence {
		level := cc.Level
		if level == "" {
			level = "model_checking"
		}
		notes := []string{}
		for _, n := range sortedKeys(run.notes) {
			notes = append(notes, fmt.Sprintf("%s (x%d)", n, run.notes[n]))
		}
		if len(notes) > 40 {
			notes = notes[:40]
		}
		un := []any{}
		for i, v := range unreproList {
			if i < 5 {
				un = append(un, map[string]any{"harness": v.Harness, "kind": v.Kind, "msg": v.Msg, "replay": tail(v.Replay, 300)})
			}
		}
		ev := map[string]any{
			"property": id, "tier": o.tier, "seed": seed, "level": level,
			"wall_s": round(time.Since(t0).Seconds()), "violations": len(confirmed),
			"assumptions": append(append([]string{}, cc.Assumptions...), prefixed("outside the bounds: ", cc.Outside)...),
			"coverage": map[string]any{
				"states": tot.paths + tot.forks, "transitions": tot.steps, "traces_validated_against_impl": validated, "samples": sampleTexts,
				"explanation":                      "Symbolic execution of the go/ssa form of the current sources; states = path ends plus forks of the explored tree, transitions = SSA instructions executed symbolically, each path standing for all inputs that satisfy its path condition.",
				"paths":                            tot.paths,
				"queries":                          tot.queries,
				"queries_sat":                      tot.nsat,
				"queries_unsat":                    tot.nunsat,
				"queries_unknown":                  tot.nunk,
				"solver_s":                         round(tot.solver.Seconds()),
				"solver":                           cfg.Solver,
				"rewritings_confirmed_by_solver":   tot.linConfirmed,
				"rewritings_not_confirmed_in_time": tot.linTimeout,
				"assertions_decided":               tot.asserts,
				"functions_encoded":                fns,
				"functions_encoded_n":              nfn,
				"harnesses":                        per,
				"assertion_sites_hit":              run.asserts,
				"witnesses_reached":                run.covers,
				"reduced_bounds_notes":             notes,
				"counterexamples_not_reproduced_natively": un,
			},
		}
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		if err := writeJSON(filepath.Join(verifDir, "evidence", id+".json"), ev); err != nil {
			fatalf("%v", err)
		}
	}
	if len(confirmed) > 0 {
		for i, v := range confirmed {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, paths[i])
			fmt.Printf("  %s in harness %s: %s\n", v.Kind, v.Harness, v.Msg)
		}
		return 1
	}
	st := "held on everything explored"
	fmt.Printf("%s: %s: %d paths, %d assertions decided, %d queries, %.1fs solver, %.1fs wall\n", id, st, tot.paths, tot.asserts, tot.queries, tot.solver.Seconds(), time.Since(t0).Seconds())
	return 0
}

func prefixed(p string, xs []string) []string {
	var r []string
	for _, x := range xs {
		r = append(r, p+x)
	}
	return r
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func clip(m map[string]uint64, n int) map[string]uint64 {
	r := map[string]uint64{}
	for i, k := range sortedKeys(m) {
		if i >= n {
			break
		}
		r[k] = m[k]
	}
	return r
}

func clipS(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
