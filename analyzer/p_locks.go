package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lock discipline: every struct with a mutex touches its mutable state only while holding it, in the right mode,
// and every acquired lock is released before the operation returns.

type guarded struct {
	named   *types.Named
	mutex   int // field index of the mutex
	rw      bool
	mutable map[int]bool
	ifaces  map[int]bool // fields holding a repository interface
}

func syncMutex(t types.Type) (isMutex, rw bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false, false
	}
	switch n.Obj().Name() {
	case "Mutex":
		return true, false
	case "RWMutex":
		return true, true
	}
	return false, false
}

func (w *World) guardedStructs() map[*types.Named]*guarded {
	out := map[*types.Named]*guarded{}
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if m, rw := syncMutex(st.Field(i).Type()); m {
					out[nt] = &guarded{named: nt, mutex: i, rw: rw, mutable: map[int]bool{}, ifaces: map[int]bool{}}
				}
			}
			if g := out[nt]; g != nil {
				for i := 0; i < st.NumFields(); i++ {
					ft, ok := types.Unalias(st.Field(i).Type()).(*types.Named)
					if ok && ft.Obj().Pkg() != nil && inRepo(ft.Obj().Pkg().Path()) {
						if _, isI := ft.Underlying().(*types.Interface); isI {
							g.ifaces[i] = true
						}
					}
				}
			}
		}
	}
	// mutable fields: written through a base that is not freshly allocated in the same function
	mark := func(fr *PF, v ssa.Value) {
		for _, o := range fr.owners(v) {
			if g := out[o.typ]; g != nil && o.field != g.mutex && !o.fresh {
				g.mutable[o.field] = true
			}
		}
	}
	for _, f := range w.Funcs {
		fr := rootPF(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					mark(fr, x.Addr)
				case *ssa.MapUpdate:
					mark(fr, x.Map)
				case ssa.CallInstruction:
					// the address of a field handed to a method outside the repository: may be changed there
					for _, a := range x.Common().Args {
						if fa, ok := fr.res(a).v.(*ssa.FieldAddr); ok {
							if cal := x.Common().StaticCallee(); cal != nil && cal.Pkg != nil && !inRepo(cal.Pkg.Pkg.Path()) {
								if m, _ := syncMutex(fa.Type()); !m {
									mark(fr, fa)
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func lockOp(cal *ssa.Function) string {
	if cal == nil || cal.Object() == nil {
		return ""
	}
	fn, ok := cal.Object().(*types.Func)
	if !ok {
		return ""
	}
	sig := fn.Type().(*types.Signature)
	if sig.Recv() == nil {
		return ""
	}
	if m, _ := syncMutex(sig.Recv().Type()); !m {
		return ""
	}
	return fn.Name()
}

// readOnlyMethods tells whether no repository implementation of an interface method writes state.
func (w *World) writesState(m *types.Func, iface *types.Interface) (string, bool) {
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			if nt.TypeParams().Len() > 0 {
				continue
			}
			pt := types.NewPointer(nt)
			if !types.Implements(pt, iface) {
				continue
			}
			sel := w.Prog.MethodSets.MethodSet(pt).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			f := w.Prog.MethodValue(sel)
			if f == nil || len(f.Blocks) == 0 {
				return nt.String(), true
			}
			if s, bad := w.writesNonLocal(f, map[*ssa.Function]bool{}); bad {
				return s, true
			}
		}
	}
	return "", false
}

func (w *World) writesNonLocal(f *ssa.Function, seen map[*ssa.Function]bool) (string, bool) {
	if seen[f] {
		return "", false
	}
	seen[f] = true
	fr := rootPF(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				root := fr.res(x.Addr)
				for {
					if fa, ok := root.v.(*ssa.FieldAddr); ok {
						root = fr.res(fa.X)
						continue
					}
					if ia, ok := root.v.(*ssa.IndexAddr); ok {
						root = fr.res(ia.X)
						continue
					}
					break
				}
				if _, ok := root.v.(*ssa.Alloc); !ok {
					return fnName(f), true
				}
			case *ssa.MapUpdate:
				return fnName(f), true
			case *ssa.Send:
				return fnName(f), true
			case ssa.CallInstruction:
				cal := x.Common().StaticCallee()
				if cal != nil && len(cal.Blocks) > 0 && cal.Pkg != nil && inRepo(cal.Pkg.Pkg.Path()) {
					if s, bad := w.writesNonLocal(cal, seen); bad {
						return s, true
					}
				}
			}
		}
	}
	return "", false
}

type lockEvent struct{ key, pos, msg string }

func checkLocks(w *World, r *Report) {
	r.Rule = "Lock-set dataflow over every path of every entry point, with callees, closures and bound methods inlined: for every repository struct that has a mutex, each access to a field written after construction, and each call on a wrapped repository interface, happens while that struct's mutex is held (exclusively for writes; a read lock is enough only where no implementation writes); no path returns with a lock still held, re-acquires one it holds, or releases one it does not hold."
	gs := w.guardedStructs()
	gname := map[string]bool{}
	for nt, g := range gs {
		gname[nt.String()] = true
		r.Counts["structs with a mutex"]++
		r.Counts["guarded fields"] += len(g.mutable) + len(g.ifaces)
	}
	roCache := map[*types.Func]string{}
	touches := func(f *ssa.Function, in ssa.Instruction) bool {
		if c, ok := in.(ssa.CallInstruction); ok {
			if lockOp(c.Common().StaticCallee()) != "" {
				return true
			}
		}
		if v, ok := in.(ssa.Value); ok {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				t, _ := derefStruct(x.X.Type())
				nt, _ := types.Unalias(t).(*types.Named)
				return gs[nt] != nil
			case *ssa.Field:
				nt, _ := types.Unalias(x.X.Type()).(*types.Named)
				return gs[nt] != nil
			}
		}
		return false
	}
	rel := w.relevantFuncs(touches)
	// roots: entry points, go targets, and every method in the method sets of guarded types (including promoted ones)
	rootSet := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	addRoot := func(f *ssa.Function) {
		if f != nil && len(f.Blocks) > 0 && !rootSet[f] {
			rootSet[f] = true
			roots = append(roots, f)
		}
	}
	for _, f := range w.roots() {
		if rel[f] {
			addRoot(f)
		}
	}
	var gnames []*guarded
	for _, g := range gs {
		gnames = append(gnames, g)
	}
	sortBy(gnames, func(g *guarded) string { return g.named.String() })
	for _, g := range gnames {
		ms := w.Prog.MethodSets.MethodSet(types.NewPointer(g.named))
		for i := 0; i < ms.Len(); i++ {
			f := w.Prog.MethodValue(ms.At(i))
			if f == nil || !ms.At(i).Obj().Exported() {
				continue
			}
			if o, ok := ms.At(i).Obj().(*types.Func); ok && o.Pkg() != nil && o.Pkg().Path() == "sync" {
				continue
			}
			addRoot(f)
			r.Counts["methods of lock-bearing types"]++
		}
	}
	acc := map[string]bool{}
	bad := map[string]bool{}
	fail := func(fr *PF, in ssa.Instruction, rule, what, msg string) {
		root := fr
		for root.parent != nil {
			root = root.parent
		}
		key := rule + "|" + fnName(root.fn) + "|" + what
		if !bad[key] {
			bad[key] = true
			r.fail(key, w.pos(instrPos(in)), msg+" (entered through "+fr.trail(w)+")")
		}
	}
	need := func(fr *PF, in ssa.Instruction, st *WState, v ssa.Value, write bool, kind string) {
		for _, o := range fr.owners(v) {
			g := gs[o.typ]
			if g == nil || o.fresh || o.field == g.mutex || !g.mutable[o.field] {
				continue
			}
			stt := g.named.Underlying().(*types.Struct)
			mu := o.path + "." + stt.Field(g.mutex).Name()
			held := st.facts[mu]
			fld := g.named.Obj().Name() + "." + stt.Field(o.field).Name()
			ak := fmt.Sprintf("%p|%s", in, fld)
			if held == 2 || (held == 1 && !write) {
				if !acc[ak] {
					acc[ak] = true
					r.Counts["guarded accesses"]++
					r.ok(fmt.Sprintf("%s %s of %s under its lock at %s", fnName(fr.fn), kind, fld, w.pos(instrPos(in))))
				}
				continue
			}
			lk := "without holding its lock"
			if held == 1 {
				lk = "while holding only a read lock"
			}
			fail(fr, in, "guarded", fnName(fr.fn)+"|"+fld+"|"+kind, fmt.Sprintf("%s of %s %s", kind, fld, lk))
		}
	}
	wk := &Walker{w: w, maxDepth: 10}
	wk.inline = func(fr *PF, cal *ssa.Function) bool {
		return rel[cal] || cal.Synthetic != "" && (cal.Pkg == nil || inRepo(cal.Pkg.Pkg.Path())) || (callsParam(cal) && cal.Pkg != nil && inRepo(cal.Pkg.Pkg.Path()))
	}
	wk.step = func(fr *PF, in ssa.Instruction, st *WState) {
		switch x := in.(type) {
		case *ssa.Store:
			need(fr, in, st, x.Addr, true, "write")
		case *ssa.MapUpdate:
			need(fr, in, st, x.Map, true, "write")
		case *ssa.UnOp:
			if x.Op.String() == "*" {
				need(fr, in, st, x.X, false, "read")
			}
		}
	}
	wk.call = func(fr *PF, c ssa.CallInstruction, cal *ssa.Function, st *WState) bool {
		cc := c.Common()
		in := c.(ssa.Instruction)
		if op := lockOp(cal); op != "" {
			if _, isGo := c.(*ssa.Go); isGo {
				return true
			}
			mu := fr.path(cc.Args[0])
			held := st.facts[mu]
			lockName := mu
			if i := strings.LastIndex(mu, "."); i >= 0 {
				lockName = mu[i+1:]
			}
			r.Counts["lock operations on paths"]++
			switch op {
			case "Lock", "RLock":
				if held != 0 {
					fail(fr, in, "relock", fnName(fr.fn)+"|"+lockName, "acquires a lock this path already holds, which blocks forever")
				}
				if op == "Lock" {
					st.facts[mu] = 2
				} else {
					st.facts[mu] = 1
				}
			case "Unlock", "RUnlock":
				want := 2
				if op == "RUnlock" {
					want = 1
				}
				if held != want {
					fail(fr, in, "unlock", fnName(fr.fn)+"|"+lockName, fmt.Sprintf("%s on a lock not held in that mode on this path", op))
				}
				delete(st.facts, mu)
			default:
				fail(fr, in, "lockop", fnName(fr.fn)+"|"+op, "lock operation "+op+" is not one this rule can follow")
			}
			return true
		}
		if cc.IsInvoke() {
			for _, o := range fr.owners(cc.Value) {
				g := gs[o.typ]
				if g == nil || o.fresh || !g.ifaces[o.field] {
					continue
				}
				stt := g.named.Underlying().(*types.Struct)
				mu := o.path + "." + stt.Field(g.mutex).Name()
				held := st.facts[mu]
				fld := g.named.Obj().Name() + "." + stt.Field(o.field).Name()
				if held == 1 {
					who, done := roCache[cc.Method]
					if !done {
						who, _ = w.writesState(cc.Method, cc.Value.Type().Underlying().(*types.Interface))
						roCache[cc.Method] = who
					}
					if who != "" {
						fail(fr, in, "rlock-call", fld+"."+cc.Method.Name(), fmt.Sprintf("%s.%s is called under a read lock, but %s writes state", fld, cc.Method.Name(), who))
						continue
					}
				}
				if held == 0 {
					fail(fr, in, "unlocked-call", fld+"."+cc.Method.Name(), fmt.Sprintf("%s.%s is called without holding the lock", fld, cc.Method.Name()))
					continue
				}
				ak := fmt.Sprintf("%p", in)
				if !acc[ak] {
					acc[ak] = true
					r.Counts["wrapped calls under lock"]++
					r.ok(fmt.Sprintf("%s calls %s.%s under the lock", fnName(fr.fn), fld, cc.Method.Name()))
				}
			}
			return false
		}
		// pointers into guarded state handed to code outside the repository
		if cal == nil || cal.Pkg == nil || !inRepo(cal.Pkg.Pkg.Path()) {
			if cal != nil && len(cal.Blocks) > 0 && wk.inline(fr, cal) {
				return false
			}
			for _, a := range cc.Args {
				if _, ok := a.Type().Underlying().(*types.Pointer); ok {
					need(fr, in, st, a, true, "use")
				}
			}
		}
		return false
	}
	for _, f := range roots {
		wk.budget = 300000
		for _, ex := range wk.run(f) {
			if ex.panic {
				continue
			}
			for k, v := range ex.st.facts {
				if v > 0 {
					at := w.pos(f.Pos())
					if ex.ret != nil {
						at = w.pos(instrPos(ex.ret))
					}
					nm := k
					if i := strings.LastIndex(k, "."); i >= 0 {
						nm = k[i+1:]
					}
					key := "held-at-return|" + fnName(f) + "|" + nm
					if !bad[key] {
						bad[key] = true
						r.fail(key, at, "returns while still holding "+k)
					}
				}
			}
		}
		r.Counts["entry points walked"]++
		r.ok("all paths of " + fnName(f) + " release what they lock")
		if wk.Over {
			r.fail("bound|"+fnName(f), w.pos(f.Pos()), "path exploration bound exceeded")
			wk.Over = false
		}
	}
	r.min("structs with a mutex", 8)
	r.min("guarded accesses", 60)
	r.min("wrapped calls under lock", 20)
	r.Assumptions = append(r.Assumptions, "a lock is identified by its access path from the entry point's receiver, parameters or globals", "panics unwinding through a held lock are out of scope")
}
