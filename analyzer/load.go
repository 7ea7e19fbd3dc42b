package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/tychoish/birch"

// World is the type-checked, SSA-form view of /repo's current source.
type World struct {
	Root  string
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*packages.Package // by import path, repository packages only
	SSA   map[string]*ssa.Package
	Funcs []*ssa.Function // every function with a body in the repository (incl. anonymous)

	byName  map[string]*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	addrOf  map[*ssa.Function]bool // used as a value
	mods    map[*ssa.Function]modSet
	anonOf  map[*ssa.Function][]*ssa.Function

	oldMods   map[*ssa.Function]modSet // writes to objects that existed before the call
	sinvCache map[string][]*structInv
}

func inRepo(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func loadWorld(root string) (*World, error) {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "GOROOT", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "PATH", "GOPATH", "GOMODCACHE", "GO111MODULE":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=", "GOWORK="+filepath.Join(root, "go.work"), "GOROOT=/opt/veriftools/go1.24.13",
		"GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0", "PATH=/opt/veriftools/go1.24.13/bin:/usr/local/bin:/usr/bin:/bin",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod")
	hasHome := false
	for _, kv := range env {
		if strings.HasPrefix(kv, "HOME=") {
			hasHome = true
		}
	}
	if !hasHome {
		env = append(env, "HOME=/root")
	}
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   root,
		Env:   env,
		Fset:  token.NewFileSet(),
		Tests: false,
	}
	initial, err := packages.Load(cfg, "./...", "./x/ftdc/...")
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	w := &World{Root: root, Fset: cfg.Fset, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{},
		byName: map[string]*ssa.Function{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, addrOf: map[*ssa.Function]bool{}, anonOf: map[*ssa.Function][]*ssa.Function{}}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		if inRepo(p.PkgPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
			w.Pkgs[p.PkgPath] = p
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check errors: %s", strings.Join(errs, "; "))
	}
	if len(w.Pkgs) < 10 {
		return nil, fmt.Errorf("only %d repository packages loaded", len(w.Pkgs))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	w.Prog = prog
	for path, p := range w.Pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", path)
		}
		sp.Build()
		w.SSA[path] = sp
	}
	// a few dependency packages whose small bodies matter
	for _, dep := range prog.AllPackages() {
		if dep.Pkg.Path() == "github.com/tychoish/fun/stw" {
			dep.Build()
		}
	}
	var paths []string
	for p := range w.SSA {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			w.anonOf[f] = append(w.anonOf[f], a)
			add(a)
		}
	}
	for _, p := range paths {
		sp := w.SSA[p]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				t := m.Type()
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == sp && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.SliceStable(w.Funcs, func(i, j int) bool { return w.Funcs[i].Pos() < w.Funcs[j].Pos() })
	for _, f := range w.Funcs {
		w.byName[fnName(f)] = f
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var calleeVal *ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cal := cc.StaticCallee(); cal != nil {
						w.callers[cal] = append(w.callers[cal], c)
						v := cc.Value
						calleeVal = &v
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if fv, ok := (*op).(*ssa.Function); ok {
						if calleeVal != nil && *calleeVal == fv {
							calleeVal = nil
							continue
						}
						w.addrOf[fv] = true
					}
				}
			}
		}
	}
	w.computeMods()
	return w, nil
}

// fnName gives a stable short name: pkg.(Type).Method or pkg.Func.
func fnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "birch.")
	return s
}

func (w *World) fn(name string) *ssa.Function { return w.byName[name] }

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pp := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Root, pp.Filename)
	if err != nil {
		rel = pp.Filename
	}
	return fmt.Sprintf("%s:%d", rel, pp.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	if v, ok := in.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() {
					return r.Pos()
				}
			}
		}
	}
	b := in.Block()
	if b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return in.Parent().Pos()
}

func isTestFile(n ast.Node) bool { return false }
