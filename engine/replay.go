package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// replayer runs counterexamples against the natively compiled real code.
type replayer struct {
	id      string
	work    string
	overlay map[string]string
	pats    []string
	mu      sync.Mutex
	bins    map[string]string
	fail    string
}

// build compiles the harness natively; mode "" (plain), "conc" (schedule points), "race" (schedule points and race detector).
func (r *replayer) build(mode string) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bins == nil {
		r.bins = map[string]string{}
	}
	if b, ok := r.bins[mode]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", r.fail)
		}
		return b, nil
	}
	gen := filepath.Join(r.work, "gen")
	os.MkdirAll(gen, 0o755)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"testing\"\n\t\"testing/synctest\"\n\n\t\"" + ndPath + "\"\n")
	for i, p := range r.pats {
		fmt.Fprintf(&sb, "\th%d %q\n", i, p)
	}
	sb.WriteString(")\n\nfunc main() {\n\tm := map[string]func(){}\n")
	for i, p := range r.pats {
		pk := strings.TrimPrefix(p, zz+"/")
		for _, f := range harnessFuncs(r.overlay, pk) {
			fmt.Fprintf(&sb, "\tm[%q] = h%d.%s\n", pk+"."+f, i, f)
		}
	}
	sb.WriteString(timedMain)
	mainFile := filepath.Join(gen, "replaymain.go")
	if err := os.WriteFile(mainFile, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{}
	for k, v := range r.overlay {
		rep[k] = v
	}
	rep[filepath.Join(repoDir, "zzverif/zzreplay/main.go")] = mainFile
	if mode != "" {
		for _, d := range []string{".", "util"} {
			files, _ := filepath.Glob(filepath.Join(repoDir, d, "*.go"))
			for _, f := range files {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				rel, _ := filepath.Rel(repoDir, f)
				src, err := instrument(f, rel)
				if err != nil {
					continue
				}
				out := filepath.Join(gen, "inst_"+strings.ReplaceAll(rel, "/", "_"))
				if os.WriteFile(out, src, 0o644) == nil {
					rep[f] = out
				}
			}
		}
	}
	ovf := filepath.Join(gen, "overlay"+mode+".json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(ovf, b, 0o644)
	out := filepath.Join(r.work, "replay"+mode)
	args := []string{"build", "-overlay", ovf, "-o", out}
	if mode == "race" {
		args = append(args, "-race")
	}
	args = append(args, zz+"/zzreplay")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if o, err := cmd.CombinedOutput(); err != nil {
		r.fail = "native build failed: " + tail(string(o), 1500)
		r.bins[mode] = ""
		return "", fmt.Errorf("%s", r.fail)
	}
	r.bins[mode] = out
	return out, nil
}

// Harnesses that wait run under virtual time.
const timedMain = `	if !nd.Timed() {
		nd.Main(m)
	}
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "replay", F: func(t *testing.T) {
		synctest.Test(t, func(*testing.T) { nd.Main(m) })
	}}}, nil, nil)
}
`

func harnessFuncs(ov map[string]string, pk string) []string {
	var r []string
	for k, v := range ov {
		if filepath.Dir(k) != filepath.Join(repoDir, "zzverif", pk) {
			continue
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, v, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.IsExported() && fd.Type.Params.NumFields() == 0 && fd.Type.Results.NumFields() == 0 {
				r = append(r, fd.Name.Name)
			}
		}
	}
	sort.Strings(r)
	return r
}

// instrument inserts a schedule point before every statement of a file, keeping line numbers.
func instrument(file, rel string) ([]byte, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type insn struct {
		off int
		txt string
	}
	var ins []insn
	add := func(list []ast.Stmt) {
		for _, s := range list {
			p := fs.Position(s.Pos())
			ins = append(ins, insn{p.Offset, fmt.Sprintf("zzsched.P(%q); ", fmt.Sprintf("%s:%d", rel, p.Line))})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			// their bodies hold clauses, handled below
			var body *ast.BlockStmt
			switch y := x.(type) {
			case *ast.SelectStmt:
				body = y.Body
			case *ast.SwitchStmt:
				body = y.Body
			case *ast.TypeSwitchStmt:
				body = y.Body
			}
			for _, c := range body.List {
				switch z := c.(type) {
				case *ast.CaseClause:
					add(z.Body)
				case *ast.CommClause:
					add(z.Body)
				}
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(x.List)
		}
		return true
	})
	ins = append(ins, insn{fs.Position(f.Name.End()).Offset, "; import zzsched \"" + zz + "/sched\""})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out bytes.Buffer
	last := 0
	for _, i := range ins {
		out.Write(src[last:i.off])
		out.WriteString(i.txt)
		last = i.off
	}
	out.Write(src[last:])
	return out.Bytes(), nil
}

// runNative runs one model natively; the exit code is 0 (passed), 2 (panic or fatal error), 3 (assertion failed), 4 (assumption violated), 66 (data race), -1 (timeout), -2 (could not run).
func (r *replayer) runNative(v *Violation, mode string, seed int) (string, int) {
	if v.Conc && mode == "" {
		mode = "conc"
	}
	bin, err := r.build(mode)
	if err != nil {
		return err.Error(), -2
	}
	r.mu.Lock()
	f, err := os.CreateTemp(r.work, "model-*.json")
	r.mu.Unlock()
	if err != nil {
		return err.Error(), -2
	}
	b, _ := json.Marshal(v)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Env = append(os.Environ(), "ND_MODEL="+f.Name(), fmt.Sprintf("ND_SEED=%d", seed), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	cmd.Dir = r.work
	cmd.WaitDelay = 2 * time.Second
	o, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return string(o) + "timeout", -1
	}
	if err == nil {
		return string(o), 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return string(o), ee.ExitCode()
	}
	return err.Error(), -2
}

// replay reports whether the counterexample shows on the real code.
func (r *replayer) replay(v *Violation) (string, bool) {
	judge := func(code int) bool {
		switch code {
		case 3, 66:
			return true
		case 2:
			return true
		case -1:
			return v.Kind == "hang" || v.Kind == "deadlock"
		}
		return false
	}
	if !v.Conc {
		res, code := r.runNative(v, "", 1)
		return fmt.Sprintf("exit %d: %s", code, res), judge(code)
	}
	mode := "conc"
	if v.Race || v.Kind == "race" {
		mode = "race"
	}
	if _, err := r.build(mode); err != nil {
		return err.Error(), false
	}
	// schedules are steered by the recorded preemption points, then by random delays
	type out struct {
		res  string
		code int
	}
	deadline := time.Now().Add(75 * time.Second)
	last := out{}
	for base := 0; base < 320 && time.Now().Before(deadline); base += 8 {
		ch := make(chan out, 8)
		for k := 0; k < 8; k++ {
			go func(seed int) {
				res, code := r.runNative(v, mode, seed)
				ch <- out{res, code}
			}(base + k)
		}
		var hit *out
		for k := 0; k < 8; k++ {
			o := <-ch
			last = o
			if judge(o.code) {
				x := o
				hit = &x
			}
		}
		if hit != nil {
			return fmt.Sprintf("exit %d: %s", hit.code, hit.res), true
		}
	}
	return fmt.Sprintf("not reproduced; last exit %d: %s", last.code, last.res), false
}

func cmdReplay(args []string) int {
	if len(args) < 1 {
		fatalf("usage: symgo replay FILE")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatalf("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatalf("%v", err)
	}
	work := filepath.Join(verifDir, "work", "replay-"+v.Property)
	os.MkdirAll(work, 0o755)
	ov, err := buildOverlay(filepath.Join(work, "gen"))
	if err != nil {
		fatalf("%v", err)
	}
	rp := &replayer{id: v.Property, work: work, overlay: ov, pats: []string{zz + "/" + v.Func[:strings.LastIndex(v.Func, ".")]}}
	res, ok := rp.replay(&v)
	fmt.Printf("%s: %s\n%s\nreproduced: %v\n", v.Kind, v.Msg, res, ok)
	if ok {
		return 1
	}
	return 0
}
