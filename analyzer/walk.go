package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PF is one activation of a function in an inlined call string.
type PF struct {
	fn     *ssa.Function
	parent *PF
	site   ssa.CallInstruction
	args   []PV // bound parameters (nil for a root)
	free   []PV // bound free variables
	depth  int
}

// PV is a value in a frame.
type PV struct {
	fr *PF
	v  ssa.Value
}

func rootPF(f *ssa.Function) *PF { return &PF{fn: f} }

func (fr *PF) chainHas(f *ssa.Function) bool {
	for x := fr; x != nil; x = x.parent {
		if x.fn == f {
			return true
		}
	}
	return false
}

func (fr *PF) trail(w *World) string {
	var s []string
	for x := fr; x != nil; x = x.parent {
		s = append([]string{fnName(x.fn)}, s...)
	}
	return strings.Join(s, " -> ")
}

// singleStore returns the only value ever stored to a local, when it does not otherwise escape as an address.
func singleStore(a *ssa.Alloc) (ssa.Value, bool) {
	refs := a.Referrers()
	if refs == nil {
		return nil, false
	}
	var val ssa.Value
	n := 0
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				val = x.Val
				n++
			} else {
				return nil, false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// captured: a closure could store; check its free variable
			for i, b := range x.Bindings {
				if b == a {
					if storesThroughFree(x.Fn.(*ssa.Function), i) {
						return nil, false
					}
				}
			}
		default:
			return nil, false
		}
	}
	return val, n == 1
}

func storesThroughFree(f *ssa.Function, i int) bool {
	if i >= len(f.FreeVars) {
		return true
	}
	fv := f.FreeVars[i]
	refs := fv.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for j, b := range x.Bindings {
				if b == fv && storesThroughFree(x.Fn.(*ssa.Function), j) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// res resolves a value through parameters, captured variables, conversions and single-assignment locals.
func (fr *PF) res(v ssa.Value) PV {
	for i := 0; i < 200; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if fr.args == nil {
				return PV{fr, v}
			}
			k := -1
			for j, p := range fr.fn.Params {
				if p == x {
					k = j
				}
			}
			if k < 0 || k >= len(fr.args) || fr.args[k].v == nil {
				return PV{fr, v}
			}
			fr, v = fr.args[k].fr, fr.args[k].v
		case *ssa.FreeVar:
			if fr.free == nil {
				return PV{fr, v}
			}
			k := -1
			for j, p := range fr.fn.FreeVars {
				if p == x {
					k = j
				}
			}
			if k < 0 || k >= len(fr.free) {
				return PV{fr, v}
			}
			fr, v = fr.free[k].fr, fr.free[k].v
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			if x.Op.String() == "*" {
				base := fr.res(x.X)
				if al, ok := base.v.(*ssa.Alloc); ok {
					if sv, ok := singleStore(al); ok {
						fr, v = base.fr, sv
						continue
					}
				}
			}
			return PV{fr, v}
		case *ssa.Call:
			if r, ok := fr.getter(x); ok {
				fr, v = r.fr, r.v
				continue
			}
			return PV{fr, v}
		case *ssa.Phi:
			var one *PV
			same := true
			for _, e := range x.Edges {
				if e == x {
					continue
				}
				if _, isPhi := e.(*ssa.Phi); isPhi {
					same = false
					break
				}
				r := fr.res(e)
				if one == nil {
					one = &r
				} else if *one != r {
					same = false
					break
				}
			}
			if same && one != nil {
				return *one
			}
			return PV{fr, v}
		default:
			return PV{fr, v}
		}
	}
	return PV{fr, v}
}

// getter resolves a call of a single-result repository function with one return to the value it returns.
func (fr *PF) getter(c *ssa.Call) (PV, bool) {
	if fr.depth > 12 || c.Call.IsInvoke() {
		return PV{}, false
	}
	cal := c.Call.StaticCallee()
	if cal == nil || cal.Pkg == nil || !inRepo(cal.Pkg.Pkg.Path()) || len(cal.Blocks) == 0 || len(cal.Blocks) > 2 || fr.chainHas(cal) {
		return PV{}, false
	}
	var ret *ssa.Return
	for _, b := range cal.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				if ret != nil {
					return PV{}, false
				}
				ret = r
			}
		}
	}
	if ret == nil || len(ret.Results) != 1 {
		return PV{}, false
	}
	args := []PV{}
	for _, a := range c.Call.Args {
		args = append(args, PV{fr, a})
	}
	sub := &PF{fn: cal, parent: fr, site: c, args: args, free: []PV{}, depth: fr.depth + 1}
	r := sub.res(ret.Results[0])
	// only look through functions that merely hand back something reachable from their arguments
	switch r.v.(type) {
	case *ssa.FieldAddr, *ssa.UnOp, *ssa.Field, *ssa.Global, *ssa.Parameter, *ssa.FreeVar:
		return r, true
	}
	if r.fr != sub {
		return r, true
	}
	return PV{}, false
}

// path renders the access path of a value, relative to the root frame.
func (fr *PF) path(v ssa.Value) string {
	p := fr.res(v)
	switch x := p.v.(type) {
	case *ssa.Parameter:
		for i, q := range p.fr.fn.Params {
			if q == x {
				return fmt.Sprintf("arg%d%s", i, p.fr.tag())
			}
		}
	case *ssa.FreeVar:
		return "free:" + x.Name() + p.fr.tag()
	case *ssa.Global:
		return "&" + x.RelString(nil)
	case *ssa.FieldAddr:
		_, st := derefStruct(x.X.Type())
		return p.fr.path(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.Field:
		_, st := derefStruct(x.X.Type())
		return p.fr.path(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			if g, ok := p.fr.res(x.X).v.(*ssa.Global); ok {
				return g.RelString(nil)
			}
			return p.fr.path(x.X)
		}
	case *ssa.Alloc:
		return fmt.Sprintf("new:%s%s", x.Name(), p.fr.tag())
	case *ssa.Const:
		return "const:" + x.String()
	}
	return fmt.Sprintf("%s%s", p.v.Name(), p.fr.tag())
}

func (fr *PF) tag() string {
	if fr.parent == nil {
		return ""
	}
	return fmt.Sprintf("@%d:%s", fr.depth, fr.fn.Name())
}

// owner is a step of an access path through a struct field.
type owner struct {
	path  string // path of the struct
	typ   *types.Named
	field int
	fresh bool
}

// owners lists every struct field an address or value chain passes through, innermost first.
func (fr *PF) owners(v ssa.Value) []owner {
	var out []owner
	p := fr.res(v)
	for i := 0; i < 50; i++ {
		switch x := p.v.(type) {
		case *ssa.FieldAddr:
			t, _ := derefStruct(x.X.Type())
			nt, _ := types.Unalias(t).(*types.Named)
			b := p.fr.res(x.X)
			out = append(out, owner{p.fr.path(x.X), nt, x.Field, b.fr.isFresh(b.v)})
			p = b
		case *ssa.Field:
			t, _ := derefStruct(x.X.Type())
			nt, _ := types.Unalias(t).(*types.Named)
			b := p.fr.res(x.X)
			out = append(out, owner{p.fr.path(x.X), nt, x.Field, b.fr.isFresh(b.v)})
			p = b
		case *ssa.IndexAddr:
			p = p.fr.res(x.X)
		case *ssa.Slice:
			p = p.fr.res(x.X)
		case *ssa.UnOp:
			if x.Op.String() != "*" {
				return out
			}
			p = p.fr.res(x.X)
		default:
			return out
		}
	}
	return out
}

func (fr *PF) isFresh(v ssa.Value) bool {
	p := fr.res(v)
	switch x := p.v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return p.fr.isFresh(x.X)
	}
	return false
}

// WState is the abstract state carried along a path.
type WState struct {
	facts  map[string]int
	defers []*ssa.Defer
	conds  map[ssa.Value]bool
}

func newWState() *WState { return &WState{facts: map[string]int{}} }

func (s *WState) clone() *WState {
	n := &WState{facts: make(map[string]int, len(s.facts)), defers: append([]*ssa.Defer(nil), s.defers...)}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	if len(s.conds) > 0 {
		n.conds = make(map[ssa.Value]bool, len(s.conds))
		for k, v := range s.conds {
			n.conds[k] = v
		}
	}
	return n
}

func (s *WState) key() string {
	var ks []string
	for k, v := range s.facts {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString(strings.Join(ks, ";"))
	sb.WriteByte('|')
	for _, d := range s.defers {
		fmt.Fprintf(&sb, "%p,", d)
	}
	sb.WriteByte('|')
	var cs []string
	for k, v := range s.conds {
		cs = append(cs, fmt.Sprintf("%s=%v", k.Name(), v))
	}
	sort.Strings(cs)
	sb.WriteString(strings.Join(cs, ","))
	return sb.String()
}

// Walker explores every path of a function, inlining relevant callees.
type Walker struct {
	w        *World
	inline   func(fr *PF, callee *ssa.Function) bool
	step     func(fr *PF, in ssa.Instruction, st *WState)
	call     func(fr *PF, c ssa.CallInstruction, callee *ssa.Function, st *WState) bool // true: handled, do not inline
	edge     func(fr *PF, ifi *ssa.If, taken bool, st *WState) bool                     // false: infeasible
	ret      func(fr *PF, r *ssa.Return, st *WState)                                    // at each return of any frame
	maxDepth int
	budget   int
	Over     bool // the exploration bound was hit
	Visited  map[*ssa.Function]bool
	Calls    int
}

type wexit struct {
	st    *WState
	panic bool
	ret   *ssa.Return
}

// calleeOf resolves the target of a call in a frame.
func (fr *PF) calleeOf(w *World, c ssa.CallInstruction) (*ssa.Function, []PV, []PV) {
	cc := c.Common()
	var args []PV
	if cc.IsInvoke() {
		p := fr.res(cc.Value)
		if mi, ok := cc.Value.(*ssa.MakeInterface); ok {
			p = PV{fr, mi.X}
		}
		t := p.v.Type()
		if _, isI := t.Underlying().(*types.Interface); isI {
			return nil, nil, nil
		}
		sel := w.Prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name())
		if sel == nil {
			return nil, nil, nil
		}
		f := w.Prog.MethodValue(sel)
		args = append(args, p)
		for _, a := range cc.Args {
			args = append(args, PV{fr, a})
		}
		return f, args, nil
	}
	for _, a := range cc.Args {
		args = append(args, PV{fr, a})
	}
	p := fr.res(cc.Value)
	switch x := p.v.(type) {
	case *ssa.Function:
		return x, args, nil
	case *ssa.MakeClosure:
		var free []PV
		for _, b := range x.Bindings {
			free = append(free, PV{p.fr, b})
		}
		return x.Fn.(*ssa.Function), args, free
	}
	return nil, args, nil
}

func (wk *Walker) run(f *ssa.Function) []wexit {
	if wk.maxDepth == 0 {
		wk.maxDepth = 8
	}
	if wk.budget == 0 {
		wk.budget = 200000
	}
	if wk.Visited == nil {
		wk.Visited = map[*ssa.Function]bool{}
	}
	return wk.frame(rootPF(f), newWState())
}

func (wk *Walker) frame(fr *PF, in *WState) []wexit {
	wk.Visited[fr.fn] = true
	type item struct {
		b  *ssa.BasicBlock
		st *WState
	}
	var exits []wexit
	exitSeen := map[string]bool{}
	seen := map[string]bool{}
	start := in.clone()
	start.defers, start.conds = nil, nil
	todo := []item{{fr.fn.Blocks[0], start}}
	addExit := func(e wexit) {
		k := fmt.Sprintf("%v|%p|%s", e.panic, e.ret, e.st.key())
		if !exitSeen[k] {
			exitSeen[k] = true
			exits = append(exits, e)
		}
	}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		k := fmt.Sprintf("%d|%s", it.b.Index, it.st.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		wk.budget--
		if wk.budget < 0 {
			wk.Over = true
			return exits
		}
		states := []*WState{it.st.clone()}
		// conditions computed in this block are recomputed
		for _, st := range states {
			for cv := range st.conds {
				if ci, ok := cv.(ssa.Instruction); ok && ci.Block() == it.b {
					delete(st.conds, cv)
				}
			}
		}
		for _, ins := range it.b.Instrs {
			var next []*WState
			for _, st := range states {
				switch x := ins.(type) {
				case *ssa.Defer:
					wk.step(fr, ins, st)
					st.defers = append(st.defers, x)
					next = append(next, st)
				case *ssa.RunDefers:
					outs := wk.runDefers(fr, st)
					for _, o := range outs {
						if o.panic {
							addExit(o)
						} else {
							next = append(next, o.st)
						}
					}
				case *ssa.Call:
					wk.step(fr, ins, st)
					for _, o := range wk.doCall(fr, x, st) {
						if o.panic {
							for _, e := range wk.runDefers(fr, o.st) {
								e.panic = true
								addExit(e)
							}
						} else {
							next = append(next, o.st)
						}
					}
				case *ssa.Panic:
					wk.step(fr, ins, st)
					for _, e := range wk.runDefers(fr, st) {
						e.panic = true
						addExit(e)
					}
				case *ssa.Return:
					wk.step(fr, ins, st)
					if wk.ret != nil {
						wk.ret(fr, x, st)
					}
					addExit(wexit{st: st, ret: x})
				case *ssa.If:
					cond, neg := x.Cond, false
					for {
						if u, ok := cond.(*ssa.UnOp); ok && u.Op.String() == "!" {
							cond, neg = u.X, !neg
							continue
						}
						break
					}
					for i := 0; i < 2; i++ {
						taken := i == 0
						cv := taken != neg
						if known, ok := st.conds[cond]; ok && known != cv {
							continue
						}
						if cst, ok := cond.(*ssa.Const); ok {
							if (cst.Value.String() == "true") != cv {
								continue
							}
						}
						n := st.clone()
						if wk.edge != nil && !wk.edge(fr, x, taken, n) {
							continue
						}
						if useCount(cond) > 1 {
							if n.conds == nil {
								n.conds = map[ssa.Value]bool{}
							}
							n.conds[cond] = cv
						}
						todo = append(todo, item{it.b.Succs[i], n})
					}
				case *ssa.Jump:
					todo = append(todo, item{it.b.Succs[0], st})
				default:
					wk.step(fr, ins, st)
					next = append(next, st)
				}
			}
			states = dedup(next)
			if len(states) == 0 {
				break
			}
		}
	}
	return exits
}

func useCount(v ssa.Value) int {
	refs := v.Referrers()
	if refs == nil {
		return 0
	}
	return len(*refs)
}

func dedup(in []*WState) []*WState {
	if len(in) < 2 {
		return in
	}
	seen := map[string]bool{}
	var out []*WState
	for _, s := range in {
		k := s.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

func (wk *Walker) runDefers(fr *PF, st *WState) []wexit {
	cur := []*WState{st}
	ds := st.defers
	var out []wexit
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*WState
		for _, s := range cur {
			s.defers = nil
			for _, o := range wk.doCall(fr, ds[i], s) {
				if o.panic {
					out = append(out, o)
				} else {
					next = append(next, o.st)
				}
			}
		}
		cur = dedup(next)
	}
	for _, s := range cur {
		s.defers = nil
		out = append(out, wexit{st: s})
	}
	return out
}

func (wk *Walker) doCall(fr *PF, c ssa.CallInstruction, st *WState) []wexit {
	wk.Calls++
	callee, args, free := fr.calleeOf(wk.w, c)
	if wk.call != nil && wk.call(fr, c, callee, st) {
		return []wexit{{st: st}}
	}
	if callee == nil || len(callee.Blocks) == 0 || fr.chainHas(callee) || !wk.inline(fr, callee) {
		return []wexit{{st: st}}
	}
	if fr.depth >= wk.maxDepth {
		wk.Over = true
		return []wexit{{st: st}}
	}
	if args == nil {
		args = []PV{}
	}
	if free == nil {
		free = []PV{}
	}
	sub := &PF{fn: callee, parent: fr, site: c, args: args, free: free, depth: fr.depth + 1}
	saveD, saveC := st.defers, st.conds
	outs := wk.frame(sub, st)
	var res []wexit
	for _, o := range outs {
		n := o.st.clone()
		n.defers = append([]*ssa.Defer(nil), saveD...)
		n.conds = saveC
		if len(saveC) > 0 {
			n.conds = map[ssa.Value]bool{}
			for k, v := range saveC {
				n.conds[k] = v
			}
		}
		res = append(res, wexit{st: n, panic: o.panic})
	}
	// dedup
	seen := map[string]bool{}
	var d []wexit
	for _, r := range res {
		k := fmt.Sprintf("%v|%s", r.panic, r.st.key())
		if !seen[k] {
			seen[k] = true
			d = append(d, r)
		}
	}
	return d
}

// roots are the functions a caller outside the repository's static call graph can enter.
func (w *World) roots() []*ssa.Function {
	goT := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if cal := g.Call.StaticCallee(); cal != nil {
						goT[cal] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if w.isRoot(f) || goT[f] {
			out = append(out, f)
		}
	}
	return out
}

func (w *World) isRoot(f *ssa.Function) bool {
	if f.Parent() != nil {
		return false // closures are analysed where they are called, or as go targets
	}
	if f.Object() != nil && f.Object().Exported() {
		return true
	}
	if strings.HasPrefix(f.Name(), "init") {
		return true
	}
	if w.addrOf[f] {
		return true
	}
	return len(w.callers[f]) == 0
}

// transitively computes the functions from which some seed instruction is reachable, following static calls,
// closures created inside, and function-valued parameters.
func (w *World) relevantFuncs(seed func(f *ssa.Function, in ssa.Instruction) bool) map[*ssa.Function]bool {
	rel := map[*ssa.Function]bool{}
	all := w.withSynthetic()
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if seed(f, in) {
					rel[f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range all {
			if rel[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					hit := false
					if c, ok := in.(ssa.CallInstruction); ok {
						if cal := c.Common().StaticCallee(); cal != nil && rel[cal] {
							hit = true
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && rel[mc.Fn.(*ssa.Function)] {
						hit = true
					}
					if hit {
						rel[f] = true
						ch = true
					}
				}
			}
		}
	}
	return rel
}

// callsParam: does the function call one of its own function-typed parameters?
func callsParam(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
				switch c.Common().Value.(type) {
				case *ssa.Parameter, *ssa.FreeVar, *ssa.UnOp, *ssa.Phi:
					return true
				}
			}
		}
	}
	return false
}

// withSynthetic adds bound-method and promotion wrappers reachable from repository code.
func (w *World) withSynthetic() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if fv, ok := (*op).(*ssa.Function); ok && fv.Synthetic != "" {
							add(fv)
						}
					}
				}
			}
		}
	}
	for _, f := range w.Funcs {
		add(f)
	}
	return out
}
