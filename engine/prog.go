package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the repository's current sources plus the harness, rebuilt on every run.
type Program struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	closures  sync.Map
	rtErrType types.Type
	models    *ssa.Package
	mu        sync.Mutex
	overlay   map[string]string // /repo path -> real file
}

const modPath = "github.com/botlink/go-mavlink2"

var repoDir = "/repo"
var verifDir = "/verif"

// buildOverlay maps the harness sources into the repository's module (below zzverif/).
func buildOverlay(genDir string) (map[string]string, error) {
	ov := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		ov[filepath.Join(repoDir, "zzverif", rel)] = p
		return nil
	})
	if err != nil {
		return nil, err
	}
	gen, err := genMsgs(genDir)
	if err != nil {
		return nil, err
	}
	for k, v := range gen {
		ov[filepath.Join(repoDir, "zzverif", k)] = v
	}
	return ov, nil
}

// genMsgs scans the dialect packages for message types and writes a table of constructors.
func genMsgs(genDir string) (map[string]string, error) {
	type msg struct{ pkg, typ string }
	var msgs []msg
	var dials []string
	entries, err := os.ReadDir(repoDir)
	if err != nil {
		return nil, err
	}
	for _, e := range entries {
		if !e.IsDir() || e.Name() == "cmd" || e.Name() == "util" || e.Name() == "zzverif" || strings.HasPrefix(e.Name(), ".") {
			continue
		}
		dir := filepath.Join(repoDir, e.Name())
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		sort.Strings(files)
		fs := token.NewFileSet()
		has := false
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			af, err := parser.ParseFile(fs, f, nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv == nil || fd.Name.Name != "GetMessageName" {
					continue
				}
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					msgs = append(msgs, msg{e.Name(), id.Name})
					has = true
				}
			}
		}
		if has {
			dials = append(dials, e.Name())
		}
	}
	var sb strings.Builder
	sb.WriteString("//go:build go1.21\n\n// Code generated from /repo on every run. DO NOT EDIT.\npackage msgs\n\nimport (\n\tmavlink2 \"" + modPath + "\"\n")
	for i, d := range dials {
		fmt.Fprintf(&sb, "\td%d %q\n", i, modPath+"/"+d)
	}
	sb.WriteString(")\n\n// Entry is one message type defined in a dialect package.\ntype Entry struct {\n\tPkg, Type string\n\tNew func() mavlink2.Message\n}\n\n// All lists every message type found in the dialect packages.\nvar All = []Entry{\n")
	idx := map[string]int{}
	for i, d := range dials {
		idx[d] = i
	}
	for _, m := range msgs {
		fmt.Fprintf(&sb, "\t{%q, %q, func() mavlink2.Message { return &d%d.%s{} }},\n", m.pkg, m.typ, idx[m.pkg], m.typ)
	}
	sb.WriteString("}\n\n// Dialects lists the dialect packages.\nvar Dialects = []struct {\n\tPkg string\n\tD   func() mavlink2.Dialect\n}{\n")
	for i, d := range dials {
		fmt.Fprintf(&sb, "\t{%q, func() mavlink2.Dialect { return d%d.Dialect{} }},\n", d, i)
	}
	sb.WriteString("}\n")
	if err := os.MkdirAll(genDir, 0o755); err != nil {
		return nil, err
	}
	out := filepath.Join(genDir, "msgs.go")
	if err := os.WriteFile(out, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	return map[string]string{"msgs/msgs.go": out}, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

func loadProgram(ov map[string]string, pkgPaths []string) (*Program, error) {
	over := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		over[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir, Env: goEnv(), Overlay: over, Fset: token.NewFileSet(),
	}
	pats := append([]string{zz + "/models"}, pkgPaths...)
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("cannot load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{fset: cfg.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, overlay: ov}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.models = p.pkgs[zz+"/models"]
	if p.models == nil {
		return nil, fmt.Errorf("models package missing")
	}
	p.rtErrType = p.models.Type("RuntimeError").Type()
	return p, nil
}

func (p *Program) modelFunc(name string) *ssa.Function {
	f := p.models.Func(name)
	if f == nil {
		panic("models." + name + " is missing")
	}
	return f
}

func (p *Program) lookup(t types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) hasMethod(t types.Type, name string) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.prog.MethodSets.MethodSet(t).Lookup(nil, name) != nil
}

func (p *Program) harness(fn string) (*ssa.Function, error) {
	k := strings.LastIndex(fn, ".")
	if k < 0 {
		return nil, fmt.Errorf("bad harness name %q", fn)
	}
	pk := p.pkgs[zz+"/"+fn[:k]]
	if pk == nil {
		return nil, fmt.Errorf("harness package %q not loaded", fn[:k])
	}
	f := pk.Func(fn[k+1:])
	if f == nil {
		return nil, fmt.Errorf("harness %q not found", fn)
	}
	return f, nil
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
