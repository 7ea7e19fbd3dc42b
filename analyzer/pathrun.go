package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pathRun follows every path of a function with a small typestate ("mode"), constants, closures and local
// variables tracked, calls of known functions entered and deferred calls run where they run.

type pval struct {
	// 0 unknown, 'c' constant, 'y' the tracked function value, 'f' function with bindings, 'p' variable, 't' tuple,
	// 'o' object, 's' symbol, 'u' unknown but set, 'h' a value the client follows
	k    byte
	c    string
	fn   *ssa.Function
	bind []pval
	cell int
	typ  types.Type
}

func (v pval) String() string {
	switch v.k {
	case 'c', 'o', 's', 'u', 'h':
		return string(v.k) + v.c
	case 'y':
		return "y"
	case 'p':
		return fmt.Sprintf("p%d", v.cell)
	case 'f', 't':
		s := []string{}
		for _, b := range v.bind {
			s = append(s, b.String())
		}
		n := ""
		if v.fn != nil {
			n = v.fn.String()
		}
		return string(v.k) + n + "(" + strings.Join(s, ",") + ")"
	}
	return "?"
}

func pconst(s string) pval { return pval{k: 'c', c: s} }
func pbool(b bool) pval    { return pconst(fmt.Sprint(b)) }

type pstate struct {
	mode  int
	env   map[ssa.Value]pval
	cells map[int]pval
	defs  []pdefer
}

type pdefer struct {
	in   ssa.CallInstruction
	fn   pval
	args []pval
}

func (s *pstate) clone() *pstate {
	n := &pstate{mode: s.mode, env: make(map[ssa.Value]pval, len(s.env)), cells: make(map[int]pval, len(s.cells)), defs: append([]pdefer{}, s.defs...)}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func (s *pstate) key() string {
	var out []string
	for k, v := range s.env {
		out = append(out, k.Name()+"="+v.String())
	}
	for k, v := range s.cells {
		out = append(out, fmt.Sprintf("#%d=%s", k, v))
	}
	sort.Strings(out)
	d := ""
	for _, x := range s.defs {
		d += fmt.Sprintf("|%p%s", x.in, x.fn)
	}
	return fmt.Sprintf("%d;%s;%s", s.mode, strings.Join(out, ","), d)
}

// pout is one way a call can end.
type pout struct {
	mode  int
	ret   pval
	cells map[int]pval
}

type pathRun struct {
	w       *World
	objects bool // fields of objects are variables; text constants are kept
	names   map[int]string
	onBin   func(st *pstate, x *ssa.BinOp, a, b pval) ([]*pstate, bool)
	cellID  map[string]int
	steps   int
	lost    string
	enter   func(f *ssa.Function) bool // enter this repository function though it is handed nothing tracked
	// onCall decides a call itself; ok false leaves it to the explorer
	onCall  func(st *pstate, in ssa.CallInstruction, fn pval, args []pval) ([]pout, bool)
	onStore func(st *pstate, x *ssa.Store)
	onInstr func(st *pstate, in ssa.Instruction)
	// opaque is told of a call of an unknown function that is handed something tracked
	// selectSend: taking arm i of the select counts as a send (mode 1)
	selectSend func(x *ssa.Select, i int) bool
	opaque     func(st *pstate, in ssa.CallInstruction, fn pval, args []pval) []pout
}

func newPathRun(w *World) *pathRun {
	return &pathRun{w: w, cellID: map[string]int{}, names: map[int]string{}}
}

func (p *pathRun) giveUp(why string) {
	if p.lost == "" {
		p.lost = why
	}
}

func (p *pathRun) carries(v pval, st *pstate, seen map[int]bool) bool {
	switch v.k {
	case 'y':
		return true
	case 'p':
		if seen[v.cell] {
			return false
		}
		seen[v.cell] = true
		return p.carries(st.cells[v.cell], st, seen)
	case 'f', 't':
		for _, b := range v.bind {
			if p.carries(b, st, seen) {
				return true
			}
		}
	}
	return false
}

func hasCell(v pval) bool {
	if v.k == 'p' {
		return true
	}
	for _, b := range v.bind {
		if hasCell(b) {
			return true
		}
	}
	return false
}

func (p *pathRun) val(st *pstate, v ssa.Value) pval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return pconst("nil")
		}
		if x.Value.Kind() == constant.Bool || x.Value.Kind() == constant.Int {
			return pconst(x.Value.ExactString())
		}
		if p.objects && x.Value.Kind() == constant.String {
			return pconst(x.Value.ExactString())
		}
		return pval{}
	case *ssa.Function:
		return pval{k: 'f', fn: x}
	}
	return st.env[v]
}

// run explores f and returns the ways it can return.
func (p *pathRun) run(f *ssa.Function, args, free []pval, st0 *pstate, depth int) []pout {
	if depth > 12 {
		p.giveUp("calls nest too deep")
		return nil
	}
	st := &pstate{mode: st0.mode, env: map[ssa.Value]pval{}, cells: map[int]pval{}}
	for k, v := range st0.cells {
		st.cells[k] = v
	}
	for i, a := range f.Params {
		if i < len(args) {
			st.env[a] = args[i]
		}
	}
	for i, a := range f.FreeVars {
		if i < len(free) {
			st.env[a] = free[i]
		}
	}
	type item struct {
		b    *ssa.BasicBlock
		pred *ssa.BasicBlock
		st   *pstate
	}
	seen := map[string]bool{}
	var outs []pout
	outSeen := map[string]bool{}
	work := []item{{f.Blocks[0], nil, st}}
	for len(work) > 0 && p.lost == "" {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		b, st := it.b, it.st
		// phis first
		vals := map[ssa.Value]pval{}
		n := 0
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, q := range b.Preds {
				if q == it.pred {
					vals[ph] = p.val(st, ph.Edges[i])
					break
				}
			}
		}
		for k, v := range vals {
			p.set(st, k, v)
		}
		key := fmt.Sprintf("%d;%s", b.Index, st.key())
		if seen[key] {
			continue
		}
		seen[key] = true
		if p.steps++; p.steps > 60000 {
			p.giveUp("too many paths")
			return nil
		}
		// instructions, splitting the state where a call can end in several ways
		states := []*pstate{st}
		for _, in := range b.Instrs[n:] {
			if len(states) == 0 {
				break
			}
			var next []*pstate
			for _, s := range states {
				switch x := in.(type) {
				case *ssa.Return:
					var ret pval
					if len(x.Results) == 1 {
						ret = p.val(s, x.Results[0])
					} else if len(x.Results) > 1 {
						ret = pval{k: 't'}
						for _, r := range x.Results {
							ret.bind = append(ret.bind, p.val(s, r))
						}
					}
					o := pout{s.mode, ret, s.cells}
					k := fmt.Sprintf("%s|%s", ret, (&pstate{mode: s.mode, cells: s.cells}).key())
					if !outSeen[k] {
						outSeen[k] = true
						outs = append(outs, o)
					}
				case *ssa.Panic:
				case *ssa.Jump:
					work = append(work, item{b.Succs[0], b, s})
				case *ssa.If:
					v := p.val(s, x.Cond)
					for i, sb := range b.Succs {
						if v.k == 'c' && v.c != fmt.Sprint(i == 0) {
							continue
						}
						c := s.clone()
						p.assume(c, x.Cond, i == 0)
						work = append(work, item{sb, b, c})
					}
				default:
					next = append(next, p.step(s, in, depth, f)...)
				}
			}
			states = next
		}
	}
	return outs
}

func (p *pathRun) assume(st *pstate, c ssa.Value, t bool) {
	if _, ok := c.(*ssa.Const); ok {
		return
	}
	st.env[c] = pbool(t)
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		p.assume(st, u.X, !t)
	}
	if b, ok := c.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && t == (b.Op == token.EQL) {
		if k, ok := b.Y.(*ssa.Const); ok && st.env[b.X].k == 0 {
			if v := p.val(st, k); v.k == 'c' {
				st.env[b.X] = v
			}
		}
	}
}

func (p *pathRun) set(st *pstate, v ssa.Value, x pval) {
	if x.k == 0 {
		delete(st.env, v)
	} else {
		st.env[v] = x
	}
}

func (p *pathRun) step(st *pstate, in ssa.Instruction, depth int, f *ssa.Function) []*pstate {
	if p.onInstr != nil {
		p.onInstr(st, in)
	}
	one := []*pstate{st}
	switch x := in.(type) {
	case *ssa.FieldAddr:
		delete(st.env, x)
		if v := p.val(st, x.X); p.objects && (v.k == 'o' || v.k == 'p' && p.names[v.cell] != "") {
			n := v.c
			if v.k == 'p' {
				n = p.names[v.cell]
			}
			st.env[x] = pval{k: 'p', cell: p.named(n + "." + fieldNameOf(x))}
		}
	case *ssa.Field:
		delete(st.env, x)
		if v := p.val(st, x.X); p.objects && v.k == 's' {
			st.env[x] = pval{k: 's', c: v.c + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()}
		}
	case *ssa.Alloc:
		if pt := x.Type().Underlying().(*types.Pointer); p.objects && isStruct(pt.Elem()) {
			st.env[x] = pval{k: 'o', c: fmt.Sprintf("fresh:%d", x.Pos()), typ: x.Type()}
			return one
		}
		k := fmt.Sprintf("%d:%p", depth, x)
		id, ok := p.cellID[k]
		if !ok {
			id = len(p.cellID) + 1
			p.cellID[k] = id
		}
		st.cells[id] = zeroP(x.Type().Underlying().(*types.Pointer).Elem())
		st.env[x] = pval{k: 'p', cell: id}
	case *ssa.Store:
		if p.onStore != nil {
			p.onStore(st, x)
		}
		if a := p.val(st, x.Addr); a.k == 'p' {
			if v := p.val(st, x.Val); v.k == 0 && p.names[a.cell] != "" {
				st.cells[a.cell] = pval{k: 'u'}
			} else if v.k == 0 {
				delete(st.cells, a.cell)
			} else {
				st.cells[a.cell] = v
			}
		}
	case *ssa.UnOp:
		v := p.val(st, x.X)
		_, global := x.X.(*ssa.Global)
		switch {
		case global && x.Op == token.MUL && errOnly(x.Type()):
			st.env[x] = notNil // a named error
		case x.Op == token.MUL && v.k == 'p':
			p.set(st, x, p.load(st, v.cell, x.Type()))
		case x.Op == token.MUL && v.k == 'o' && p.objects && isStruct(x.Type()):
			st.env[x] = pval{k: 's', c: v.c + "@0"}
		case x.Op == token.NOT && v.k == 'c':
			p.set(st, x, pbool(v.c != "true"))
		default:
			delete(st.env, x)
		}
	case *ssa.BinOp:
		a, b := p.val(st, x.X), p.val(st, x.Y)
		if p.onBin != nil {
			if res, ok := p.onBin(st, x, a, b); ok {
				return res
			}
		}
		r := pval{}
		if a.k == 'c' && b.k == 'c' && (x.Op == token.EQL || x.Op == token.NEQ) {
			r = pbool((a.c == b.c) == (x.Op == token.EQL))
		}
		if (a.k == 'f' || a.k == 'y') && b.k == 'c' && b.c == "nil" {
			r = pbool(x.Op == token.NEQ)
		}
		p.set(st, x, r)
	case *ssa.ChangeType:
		p.set(st, x, p.val(st, x.X))
	case *ssa.ChangeInterface:
		p.set(st, x, p.val(st, x.X))
	case *ssa.MakeInterface:
		if v := p.val(st, x.X); v.k == 'c' {
			delete(st.env, x)
		} else {
			if v.k == 'o' {
				v.typ = x.X.Type()
			}
			p.set(st, x, v)
		}
	case *ssa.TypeAssert:
		delete(st.env, x)
		if v := p.val(st, x.X); v.k == 'o' && !x.CommaOk {
			st.env[x] = v
		}
	case *ssa.MakeClosure:
		v := pval{k: 'f', fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			v.bind = append(v.bind, p.val(st, b))
		}
		st.env[x] = v
	case *ssa.Extract:
		if t := p.val(st, x.Tuple); t.k == 't' && x.Index < len(t.bind) {
			p.set(st, x, t.bind[x.Index])
		} else {
			delete(st.env, x)
		}
	case *ssa.Defer:
		fn, args := p.callParts(st, x.Common())
		st.defs = append(st.defs, pdefer{x, fn, args})
	case *ssa.Go:
		fn, args := p.callParts(st, x.Common())
		if p.carries(fn, st, map[int]bool{}) {
			p.giveUp("handed to a goroutine")
		}
		for _, a := range args {
			if p.carries(a, st, map[int]bool{}) {
				p.giveUp("handed to a goroutine")
			}
		}
	case *ssa.RunDefers:
		states := one
		for more := true; more && p.lost == ""; {
			var next []*pstate
			more = false
			for _, s := range states {
				if len(s.defs) == 0 {
					next = append(next, s)
					continue
				}
				d := s.defs[len(s.defs)-1]
				s.defs = s.defs[:len(s.defs)-1]
				for _, o := range p.invoke(s, d.in, d.fn, d.args, depth) {
					c := s.clone()
					c.mode, c.cells = o.mode, cloneCells(o.cells)
					next = append(next, c)
					more = more || len(c.defs) > 0
				}
			}
			states = next
		}
		return states
	case *ssa.Select:
		var res []*pstate
		for i := range x.States {
			c := st.clone()
			c.env[x] = pval{k: 't', bind: []pval{pconst(fmt.Sprint(i))}}
			if p.selectSend != nil && p.selectSend(x, i) {
				c.mode = 1
			}
			res = append(res, c)
		}
		if !x.Blocking {
			c := st.clone()
			c.env[x] = pval{k: 't', bind: []pval{pconst("-1")}}
			res = append(res, c)
		}
		return res
	case *ssa.Call:
		fn, args := p.callParts(st, x.Common())
		var res []*pstate
		for _, o := range p.invoke(st, x, fn, args, depth) {
			c := st.clone()
			c.mode, c.cells = o.mode, cloneCells(o.cells)
			p.set(c, x, o.ret)
			res = append(res, c)
		}
		return res
	default:
		if v, ok := in.(ssa.Value); ok {
			delete(st.env, v)
		}
	}
	return one
}

func (p *pathRun) named(n string) int {
	id, ok := p.cellID["@"+n]
	if !ok {
		id = len(p.cellID) + 1
		p.cellID["@"+n] = id
		p.names[id] = n
	}
	return id
}

func (p *pathRun) load(st *pstate, id int, t types.Type) pval {
	v, ok := st.cells[id]
	n := p.names[id]
	if ok || n == "" {
		if v.k == 'u' {
			return pval{}
		}
		return v
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		v = pval{k: 'o', c: n, typ: t}
	case *types.Basic, *types.Struct:
		v = pval{k: 's', c: n + "@0"}
	default:
		return pval{}
	}
	st.cells[id] = v
	return v
}

func cloneCells(m map[int]pval) map[int]pval {
	n := make(map[int]pval, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func zeroP(t types.Type) pval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return pconst("false")
		}
		if u.Info()&types.IsInteger != 0 {
			return pconst("0")
		}
	case *types.Pointer, *types.Signature, *types.Interface, *types.Slice, *types.Map, *types.Chan:
		return pconst("nil")
	}
	return pval{}
}

func (p *pathRun) callParts(st *pstate, c *ssa.CallCommon) (pval, []pval) {
	var args []pval
	for _, a := range c.Args {
		args = append(args, p.val(st, a))
	}
	if c.IsInvoke() {
		return pval{}, append([]pval{p.val(st, c.Value)}, args...)
	}
	return p.val(st, c.Value), args
}

func (p *pathRun) invoke(st *pstate, in ssa.CallInstruction, fn pval, args []pval, depth int) []pout {
	if p.onCall != nil {
		if outs, ok := p.onCall(st, in, fn, args); ok {
			return outs
		}
	}
	if p.objects && in.Common().IsInvoke() && len(args) > 0 && args[0].k == 'o' && args[0].typ != nil {
		if _, i := args[0].typ.Underlying().(*types.Interface); !i {
			if m := p.w.Prog.LookupMethod(args[0].typ, in.Common().Method.Pkg(), in.Common().Method.Name()); m != nil && len(m.Blocks) > 0 {
				return p.run(m, args, nil, st, depth+1)
			}
		}
	}
	tracked := p.carries(fn, st, map[int]bool{})
	cells := hasCell(fn)
	for _, a := range args {
		tracked = tracked || p.carries(a, st, map[int]bool{})
		cells = cells || hasCell(a) || p.objects && a.k == 'o'
	}
	if fn.k == 'f' && len(fn.fn.Blocks) > 0 && inRepo(fnPkg(fn.fn)) && (tracked || cells || p.enter != nil && p.enter(fn.fn)) {
		return p.run(fn.fn, args, fn.bind, st, depth+1)
	}
	if tracked && p.opaque != nil {
		return p.opaque(st, in, fn, args)
	}
	if cells {
		// what the unknown callee may change through the variables and objects it was handed
		c := cloneCells(st.cells)
		var drop func(v pval)
		drop = func(v pval) {
			if v.k == 'p' && p.names[v.cell] != "" {
				c[v.cell] = pval{k: 'u'}
			} else if v.k == 'p' {
				delete(c, v.cell)
			}
			if v.k == 'o' {
				for id := range c {
					if strings.HasPrefix(p.names[id], v.c+".") {
						c[id] = pval{k: 'u'}
					}
				}
			}
			for _, b := range v.bind {
				drop(b)
			}
		}
		drop(fn)
		for _, a := range args {
			drop(a)
		}
		return []pout{{st.mode, pval{}, c}}
	}
	return []pout{{st.mode, pval{}, st.cells}}
}
