package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldSel identifies a struct field by type and name.
func (w *World) fieldIndex(pkg, typ, field string) (*types.Named, int) {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil, -1
	}
	o := p.Types.Scope().Lookup(typ)
	if o == nil {
		return nil, -1
	}
	nt, ok := types.Unalias(o.Type()).(*types.Named)
	if !ok {
		return nil, -1
	}
	st, ok := nt.Underlying().(*types.Struct)
	if !ok {
		return nt, -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return nt, i
		}
	}
	return nt, -1
}

// derivedOwners: the struct fields a slice value (or address) is derived from, following append and slicing.
func (fr *PF) derivedOwners(v ssa.Value) []owner {
	var out []owner
	seen := map[PV]bool{}
	var visit func(p PV, d int)
	visit = func(p PV, d int) {
		p = p.fr.res(p.v)
		if seen[p] || d > 20 {
			return
		}
		seen[p] = true
		out = append(out, p.fr.owners(p.v)...)
		switch x := p.v.(type) {
		case *ssa.Slice:
			visit(PV{p.fr, x.X}, d+1)
		case *ssa.IndexAddr:
			visit(PV{p.fr, x.X}, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(PV{p.fr, e}, d+1)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				visit(PV{p.fr, x.Call.Args[0]}, d+1)
			}
		}
	}
	visit(PV{fr, v}, 0)
	return out
}

func checkCache(w *World, r *Report) {
	r.Rule = "Path walk over every entry point (callees inlined): every write to a document's element list — the list itself or a slot of its backing array, on any document not created in the same call — is followed, or preceded with nothing re-validating in between, by clearing that document's cache flag before every exit, including exits by panic; the flag is set only after a freshly built map was stored on the same path with no later list write; the cached map is used only where it was found valid or just rebuilt; a rebuild enters every element, under its own key, the first of equals; and no exported function hands out the cached map itself."
	doc, fElems := w.fieldIndex(modPath, "Document", "elems")
	_, fValid := w.fieldIndex(modPath, "Document", "cacheValid")
	_, fCache := w.fieldIndex(modPath, "Document", "cache")
	if doc == nil || fElems < 0 {
		r.fail("anchor|Document", "-", "the document type or its element list was not found")
		return
	}
	if fValid < 0 || fCache < 0 {
		// no cache: nothing can be stale, provided Map() does not store a map anywhere
		r.fail("anchor|cache", "-", "the cached-map fields were not found: the rule must be re-anchored")
		return
	}
	elemsWrite := func(fr *PF, in ssa.Instruction) (paths []string) {
		add := func(os []owner) {
			for _, o := range os {
				if o.typ == doc && o.field == fElems && !o.fresh {
					// outside the package, a document obtained from a call is the caller's own temporary
					if !strings.HasPrefix(o.path, "arg") && !strings.HasPrefix(o.path, "free") && !strings.HasPrefix(o.path, "&") && fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Path() != modPath {
						continue
					}
					paths = append(paths, o.path)
				}
			}
		}
		switch x := in.(type) {
		case *ssa.Store:
			if fa, ok := fr.res(x.Addr).v.(*ssa.FieldAddr); ok {
				p := fr.res(x.Addr)
				_ = p
				os := fr.owners(x.Addr)
				if len(os) > 0 && os[0].typ == doc && os[0].field == fElems && !os[0].fresh {
					paths = append(paths, os[0].path)
				}
				_ = fa
				return
			}
			if ia, ok := fr.res(x.Addr).v.(*ssa.IndexAddr); ok {
				p := fr.res(x.Addr)
				add(limitOwners(p.fr.derivedOwners(ia.X), doc, fElems))
				return
			}
			// *d = Document{...}: replaces list and flag together
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "copy", "clear":
					if isElemSlice(x.Call.Args[0].Type(), doc, fElems) {
						add(limitOwners(fr.derivedOwners(x.Call.Args[0]), doc, fElems))
					}
				case "append":
					// an append onto a shortened prefix overwrites list slots in place
					if isElemSlice(x.Call.Args[0].Type(), doc, fElems) {
						if sl, ok := fr.res(x.Call.Args[0]).v.(*ssa.Slice); ok && sl.High != nil {
							add(limitOwners(fr.derivedOwners(x.Call.Args[0]), doc, fElems))
						}
					}
				}
				return
			}
			// sorting, swapping helpers from outside the repository
			cal := x.Call.StaticCallee()
			if cal != nil && cal.Pkg != nil && !inRepo(cal.Pkg.Pkg.Path()) {
				switch cal.Pkg.Pkg.Path() {
				case "sort", "slices":
					switch {
					case strings.HasPrefix(cal.Name(), "Sort"), strings.HasPrefix(cal.Name(), "Stable"), strings.HasPrefix(cal.Name(), "Slice"), cal.Name() == "Reverse",
						strings.HasPrefix(cal.Name(), "Delete"), strings.HasPrefix(cal.Name(), "Compact"), strings.HasPrefix(cal.Name(), "Insert"), strings.HasPrefix(cal.Name(), "Replace"):
						if len(x.Call.Args) > 0 {
							add(limitOwners(fr.derivedOwners(x.Call.Args[0]), doc, fElems))
						}
					}
				}
			}
		}
		return
	}
	seed := func(f *ssa.Function, in ssa.Instruction) bool {
		if len(elemsWrite(rootPF(f), in)) > 0 {
			return true
		}
		if fa, ok := in.(*ssa.FieldAddr); ok {
			t, _ := derefStruct(fa.X.Type())
			if types.Unalias(t) == doc && (fa.Field == fValid || fa.Field == fCache) {
				return true
			}
		}
		return false
	}
	direct := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if seed(f, in) {
					direct[f] = true
				}
			}
		}
	}
	dirty := map[*ssa.Function]bool{}
	sites := map[ssa.Instruction]bool{}
	bad := map[string]bool{}
	wk := &Walker{w: w, maxDepth: 8}
	rb := &rebuildRule{w: w, r: r, doc: doc, fElems: fElems}
	rebuilt := map[*ssa.MakeMap]bool{}
	rootOf := func(fr *PF) *PF {
		for fr.parent != nil {
			fr = fr.parent
		}
		return fr
	}
	fail := func(fr *PF, in ssa.Instruction, rule, what, msg string) {
		key := rule + "|" + fnName(rootOf(fr).fn) + "|" + what
		if !bad[key] {
			bad[key] = true
			r.fail(key, w.pos(instrPos(in)), msg+" (path "+fr.trail(w)+")")
		}
	}
	wk.inline = func(fr *PF, cal *ssa.Function) bool {
		return direct[cal] || dirty[cal] || callsParam(cal) && cal.Pkg != nil && inRepo(cal.Pkg.Pkg.Path()) || cal.Synthetic != "" && (cal.Pkg == nil || inRepo(cal.Pkg.Pkg.Path()))
	}
	wk.call = func(fr *PF, c ssa.CallInstruction, cal *ssa.Function, st *WState) bool {
		if cal == nil || len(cal.Blocks) == 0 {
			// a closure with pending effects handed to code outside the repository may run there
			for _, a := range c.Common().Args {
				if mc, ok := fr.res(a).v.(*ssa.MakeClosure); ok && dirty[mc.Fn.(*ssa.Function)] {
					fr.res(a)
					var free []PV
					for _, b := range mc.Bindings {
						free = append(free, PV{fr.res(a).fr, b})
					}
					sub := &PF{fn: mc.Fn.(*ssa.Function), parent: fr, site: c, args: nil, free: free, depth: fr.depth + 1}
					for _, o := range wk.frame(sub, st) {
						for k, v := range o.st.facts {
							if strings.HasPrefix(k, "pend:") {
								st.facts[k] = v
							}
						}
					}
				}
			}
		}
		return false
	}
	wk.step = func(fr *PF, in ssa.Instruction, st *WState) {
		for _, p := range elemsWrite(fr, in) {
			if !sites[in] {
				sites[in] = true
				r.Counts["element list writes"]++
			}
			delete(st.facts, "built:"+p)
			if st.facts["inv:"+p] == 0 {
				st.facts["pend:"+p] = 1
			}
		}
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if os := fr.owners(fa); len(os) > 0 && os[0].typ == doc && !os[0].fresh {
					p := os[0].path
					switch {
					case os[0].field == fValid:
						st.facts["asked:"+p] = 1
					case os[0].field == fCache && readsContent(u, doc, fCache):
						r.Counts["reads of the cached map"]++
						if st.facts["pend:"+p] != 0 || st.facts["built:"+p] == 0 && (st.facts["asked:"+p] == 0 || st.facts["invalid:"+p] != 0) {
							fail(fr, in, "unchecked", "", "uses the cached map of "+p+" without having found it valid or rebuilt it")
						} else {
							r.ok("cached map valid where used in " + fnName(fr.fn))
						}
					}
				}
			}
		}
		if s, ok := in.(*ssa.Store); ok {
			os := fr.owners(s.Addr)
			if len(os) == 0 {
				// whole-struct store
				if pt, ok := s.Addr.Type().Underlying().(*types.Pointer); ok && types.Unalias(pt.Elem()) == doc {
					p := fr.path(s.Addr)
					if _, fresh := fr.res(s.Addr).v.(*ssa.Alloc); !fresh {
						delete(st.facts, "pend:"+p)
						delete(st.facts, "inv:"+p)
					}
				}
				return
			}
			o := os[0]
			if o.typ != doc || o.fresh {
				return
			}
			switch o.field {
			case fCache:
				st.facts["built:"+o.path] = 1
				delete(st.facts, "invalid:"+o.path)
				for _, m := range rb.mapSources(s.Val, 0) {
					if !rebuilt[m] {
						rebuilt[m] = true
						rb.judge(m)
					}
				}
			case fValid:
				r.Counts["flag stores on paths"]++
				cst, isC := s.Val.(*ssa.Const)
				if isC && cst.Value != nil && cst.Value.String() == "false" {
					delete(st.facts, "pend:"+o.path)
					st.facts["inv:"+o.path] = 1
					return
				}
				if st.facts["pend:"+o.path] != 0 {
					fail(fr, in, "revalidated", "", "marks the cached map valid after the element list changed and before the map was rebuilt")
				} else if st.facts["built:"+o.path] == 0 {
					fail(fr, in, "unbuilt", "", "marks the cached map valid on a path that did not store a freshly built map")
				} else {
					r.ok("flag set after rebuild in " + fnName(fr.fn))
				}
				delete(st.facts, "inv:"+o.path)
			}
		}
	}
	wk.edge = func(fr *PF, x *ssa.If, taken bool, st *WState) bool {
		cond, truth := x.Cond, taken
		for {
			n, ok := cond.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}
			cond, truth = n.X, !truth
		}
		if u, ok := fr.res(cond).v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if os := fr.res(cond).fr.owners(fa); len(os) > 0 && os[0].typ == doc && os[0].field == fValid {
					if truth {
						delete(st.facts, "invalid:"+os[0].path)
					} else {
						st.facts["invalid:"+os[0].path] = 1
					}
				}
			}
		}
		return true
	}
	var queue []*ssa.Function
	queued := map[*ssa.Function]bool{}
	enq := func(f *ssa.Function) {
		if f != nil && !queued[f] {
			queued[f] = true
			queue = append(queue, f)
		}
	}
	for _, f := range w.Funcs {
		if direct[f] {
			enq(f)
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		queued[f] = false
		wk.budget = 300000
		for _, ex := range wk.run(f) {
			for k := range ex.st.facts {
				if !strings.HasPrefix(k, "pend:") {
					continue
				}
				// an internal helper may leave the invalidation to its callers
				internal := f.Parent() != nil || (!w.isRoot(f) && len(w.callers[f]) > 0)
				if internal {
					if !dirty[f] {
						dirty[f] = true
						if f.Parent() != nil {
							enq(f.Parent())
						}
						for _, c := range w.callers[f] {
							enq(c.Parent())
						}
					}
					continue
				}
				at, how := w.pos(f.Pos()), "returns"
				if ex.ret != nil {
					at = w.pos(instrPos(ex.ret))
				}
				if ex.panic {
					how = "panics"
				}
				key := "stale|" + fnName(f) + "|" + how
				if !bad[key] {
					bad[key] = true
					r.fail(key, at, fmt.Sprintf("%s after changing the elements of %s without invalidating its cached map", how, strings.TrimPrefix(k, "pend:")))
				}
			}
		}
		if wk.Over {
			r.fail("bound|"+fnName(f), w.pos(f.Pos()), "path exploration bound exceeded")
			wk.Over = false
		}
		r.Counts["functions walked"]++
		r.ok("every exit of " + fnName(f))
	}
	// the cached map itself never leaves
	for _, f := range w.Funcs {
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ret, ok := in.(*ssa.Return)
				if !ok {
					continue
				}
				for _, v := range ret.Results {
					for _, t := range terminals(w, rootPF(f), v, 0) {
						os := t.fr.owners(t.v)
						if len(os) > 0 && os[0].typ == doc && os[0].field == fCache {
							if _, isMap := v.Type().Underlying().(*types.Map); isMap {
								r.fail("leak|"+fnName(f), w.pos(instrPos(ret)), "returns the cached map itself, so the caller can change what later calls see")
							}
						}
					}
				}
			}
		}
	}
	r.min("element list writes", 10)
	r.min("functions walked", 8)
	r.min("reads of the cached map", 1)
	r.Assumptions = append(r.Assumptions, "element slices handed to callers by the accessor documented as aliasing are not modified by the caller", "renaming an element in place through its value is not a change of the element list")
}

// readsContent: a loaded map is used for more than its length, a nil test or another document's cache
func readsContent(u *ssa.UnOp, doc *types.Named, fCache int) bool {
	for _, ref := range *u.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			return true
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.Field == fCache {
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

func limitOwners(os []owner, nt *types.Named, field int) []owner {
	var out []owner
	for _, o := range os {
		if o.typ == nt && o.field == field {
			out = append(out, o)
		}
	}
	return out
}

func isElemSlice(t types.Type, doc *types.Named, f int) bool {
	want := doc.Underlying().(*types.Struct).Field(f).Type()
	return types.Identical(t.Underlying(), want.Underlying())
}

// terminals lists the values a value can come from, through phis and repository callees' results.
func terminals(w *World, fr *PF, v ssa.Value, depth int) []PV {
	seen := map[PV]bool{}
	var out []PV
	var visit func(p PV, d int)
	visit = func(p PV, d int) {
		p = p.fr.res(p.v)
		if seen[p] {
			return
		}
		seen[p] = true
		switch x := p.v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(PV{p.fr, e}, d)
			}
			return
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if visitCall(w, p.fr, c, x.Index, d, visit) {
					return
				}
			}
		case *ssa.Call:
			if visitCall(w, p.fr, x, 0, d, visit) {
				return
			}
		}
		out = append(out, p)
	}
	visit(PV{fr, v}, depth)
	return out
}

func visitCall(w *World, fr *PF, c *ssa.Call, ix, d int, visit func(PV, int)) bool {
	if d > 6 {
		return false
	}
	cal, args, free := fr.calleeOf(w, c)
	if cal == nil || len(cal.Blocks) == 0 || fr.chainHas(cal) {
		return false
	}
	if args == nil {
		args = []PV{}
	}
	if free == nil {
		free = []PV{}
	}
	sub := &PF{fn: cal, parent: fr, site: c, args: args, free: free, depth: fr.depth + 1}
	n := 0
	for _, b := range cal.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && ix < len(r.Results) {
				visit(PV{sub, r.Results[ix]}, d+1)
				n++
			}
		}
	}
	return n > 0
}
