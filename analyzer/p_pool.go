package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Memory given back to a pool is the pool's: nothing uses it, holds it or gives it back again afterwards.

func isPoolPut(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := c.Common().StaticCallee()
	return f != nil && strings.HasSuffix(baseName(f), "Pool).Put")
}

// given: the memory a Put is given
func (e *effects) given(c *ectx, in ssa.Instruction) map[*eobj]bool {
	args := in.(ssa.CallInstruction).Common().Args
	out := map[*eobj]bool{}
	for _, a := range args[1:] {
		for _, s := range c.val(e, a) {
			for l := range s.all() {
				if l.o.kind == 'b' {
					for _, s := range l.o.cells {
						for x := range s.all() {
							out[x.o] = true
						}
					}
				} else if l.o.kind != 'f' {
					out[l.o] = true
				}
			}
		}
	}
	return out
}

// direct: does v hold a pointer into one of os?
func (e *effects) holds(c *ectx, v ssa.Value, os map[*eobj]bool) bool {
	for _, s := range c.val(e, v) {
		for l := range s.all() {
			if os[l.o] {
				return true
			}
			// in an interface, or a buffer
			if l.o.kind == 'b' || isBuffer(l.o.typ) {
				for _, s := range l.o.cells {
					for x := range s.all() {
						if os[x.o] {
							return true
						}
						for _, s := range x.o.cells {
							if !isBuffer(x.o.typ) {
								break
							}
							for y := range s.all() {
								if os[y.o] {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

func isBuffer(t types.Type) bool {
	return t != nil && strings.TrimPrefix(typeKey(t), "*") == "bytes.Buffer"
}

func isBufferBytes(in ssa.CallInstruction) bool {
	f := in.Common().StaticCallee()
	return f != nil && (baseName(f) == "(*bytes.Buffer).Bytes" || baseName(f) == "bytes.NewBuffer")
}

// quiet: a call that does not touch the memory of a buffer
func quiet(in ssa.CallInstruction) bool {
	if b, ok := in.Common().Value.(*ssa.Builtin); ok {
		return b.Name() == "len" || b.Name() == "cap"
	}
	if f := in.Common().StaticCallee(); f != nil && strings.HasPrefix(baseName(f), "(*bytes.Buffer).") {
		return f.Name() == "Len" || f.Name() == "Cap" || f.Name() == "Reset"
	}
	return false
}

type poolUse struct {
	in  ssa.Instruction
	how string
}

// afterPut: what happens to the memory in the function after it was given back at `at`
func (e *effects) afterPut(c *ectx, at ssa.Instruction, os map[*eobj]bool) []poolUse {
	var out []poolUse
	reported := map[ssa.Instruction]bool{}
	report := func(in ssa.Instruction, how string) {
		if !reported[in] {
			reported[in] = true
			out = append(out, poolUse{in, how})
		}
	}
	// the registers that hold the memory when it is given back, and the variables
	base := map[ssa.Value]bool{}
	dominates := func(b *ssa.BasicBlock) bool { return b.Dominates(at.Block()) }
	for v := range c.env {
		if !e.holds(c, v, os) {
			continue
		}
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			base[v] = true
		case ssa.Instruction:
			if x.Block() != at.Block() && dominates(x.Block()) {
				base[v] = true
			} else if x.Block() == at.Block() && before(x, at) {
				base[v] = true
			}
		}
	}
	// what is given back is one of the things a merge or variable may hold: narrow to the values on the way to it
	arg := at.(ssa.CallInstruction).Common().Args
	keep := map[ssa.Value]bool{}
	var chain func(v ssa.Value)
	chain = func(v ssa.Value) {
		if v == nil || keep[v] {
			return
		}
		keep[v] = true
		switch x := v.(type) {
		case *ssa.Slice:
			chain(x.X)
		case *ssa.ChangeType:
			chain(x.X)
		case *ssa.MakeInterface:
			chain(x.X)
		case *ssa.Convert:
			chain(x.X)
		case *ssa.TypeAssert:
			chain(x.X)
		case *ssa.Extract:
			chain(x.Tuple)
		case *ssa.UnOp:
			keep[x.X] = true
			// other loads of the same variable
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if l, ok := r.(*ssa.UnOp); ok {
						keep[l] = true
					}
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						chain(s.Val)
					}
				}
			}
		case *ssa.Call:
			for _, a := range x.Common().Args {
				if e.holds(c, a, os) {
					chain(a)
				}
			}
		case *ssa.Phi:
			for _, y := range x.Edges {
				chain(y)
			}
		}
	}
	for _, a := range arg {
		chain(a)
	}
	// and all that is derived from those
	for grown := true; grown; {
		grown = false
		for v := range base {
			if keep[v] {
				continue
			}
			in, ok := v.(ssa.Instruction)
			if !ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && keep[*op] {
					keep[v] = true
					grown = true
					break
				}
			}
		}
	}
	type state struct {
		b       *ssa.BasicBlock
		from    *ssa.BasicBlock
		tainted map[ssa.Value]bool
		clean   map[ssa.Value]bool // variables given something else since
	}
	key := func(s state) string {
		var ks []string
		for v := range s.tainted {
			ks = append(ks, v.Name())
		}
		for v := range s.clean {
			ks = append(ks, "~"+v.Name())
		}
		sort.Strings(ks)
		f := -1
		if s.from != nil {
			f = s.from.Index
		}
		return fmt.Sprintf("%d<%d|%s", s.b.Index, f, strings.Join(ks, ","))
	}
	tainted := map[ssa.Value]bool{}
	for v := range base {
		if keep[v] {
			if _, isAlloc := v.(*ssa.Alloc); !isAlloc || !pointsOnlyToVar(v) {
				tainted[v] = true
			}
		}
	}
	got := map[ssa.Instruction]bool{} // where the memory comes from
	for o := range os {
		if o.site != nil {
			got[o.site] = true
		}
	}
	seen := map[string]bool{}
	run := func(s state, ins []ssa.Instruction) (state, bool) {
		for _, in := range ins {
			if p, ok := in.(*ssa.Phi); ok {
				bad := false
				for i, x := range p.Edges {
					if s.b.Preds[i] == s.from && s.tainted[x] {
						bad = true
					}
				}
				if bad {
					s.tainted[p] = true
				} else {
					delete(s.tainted, p)
				}
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				delete(s.tainted, v)
				if got[in] {
					// taken from the pool anew
					return s, false
				}
			}
			uses := func(v ssa.Value) bool { return v != nil && s.tainted[v] }
			switch in := in.(type) {
			case *ssa.Store:
				if a, ok := in.Addr.(*ssa.Alloc); ok && !uses(in.Val) {
					s.clean[a] = true
				} else if ok {
					delete(s.clean, a)
				}
				if uses(in.Addr) {
					report(in, "written to")
				}
				if uses(in.Val) {
					if _, ok := in.Addr.(*ssa.Alloc); !ok {
						report(in, "stored")
					}
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					if uses(in.X) {
						report(in, "read")
					}
					if _, ok := in.X.(*ssa.Alloc); ok && keep[in.X] && !s.clean[in.X] && e.holds(c, in, os) {
						s.tainted[in] = true
					}
				}
			case *ssa.Slice, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract:
				for _, op := range in.Operands(nil) {
					if uses(*op) {
						v := in.(ssa.Value)
						if cv, ok := in.(*ssa.Convert); ok {
							if len(e.leaves(cv.Type())) == 0 {
								report(in, "read")
								continue
							}
						}
						s.tainted[v] = true
					}
				}
			case *ssa.Return:
				for _, r := range in.Results {
					if uses(r) {
						report(in, "returned")
					}
				}
			case *ssa.Send:
				if uses(in.X) {
					report(in, "sent")
				}
			case *ssa.MapUpdate:
				if uses(in.Value) || uses(in.Key) || uses(in.Map) {
					report(in, "stored")
				}
			case ssa.CallInstruction:
				hit := false
				for _, a := range in.Common().Args {
					hit = hit || uses(a)
				}
				if in.Common().IsInvoke() || !hit {
					hit = hit || uses(in.Common().Value)
				}
				if v, ok := in.(*ssa.Call); ok && hit && isBufferBytes(in) {
					s.tainted[v] = true // used when its bytes are
				} else if hit && !quiet(in) {
					if isPoolPut(in) {
						report(in, "given back again")
					} else {
						report(in, "used")
					}
				}
			case *ssa.Next, *ssa.Range, *ssa.Lookup, *ssa.Index:
				for _, op := range in.(ssa.Instruction).Operands(nil) {
					if uses(*op) {
						report(in, "read")
					}
				}
			}
		}
		return s, true
	}
	var work []state
	push := func(s state) {
		for _, n := range s.b.Succs {
			t := state{n, s.b, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
			for v := range s.tainted {
				t.tainted[v] = true
			}
			for v := range s.clean {
				t.clean[v] = true
			}
			if k := key(t); !seen[k] && len(seen) < 5000 {
				seen[k] = true
				work = append(work, t)
			}
		}
	}
	s0 := state{at.Block(), nil, tainted, map[ssa.Value]bool{}}
	rest := at.Block().Instrs
	for i, in := range rest {
		if in == at {
			rest = rest[i+1:]
			break
		}
	}
	if s, ok := run(s0, rest); ok {
		push(s)
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s, ok := run(s, s.b.Instrs); ok {
			push(s)
		}
	}
	return out
}

// pointsOnlyToVar: the address of a variable is not the memory the variable holds
func pointsOnlyToVar(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// reachesIn: can b run after a in the same call?
func reachesIn(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && before(a, b) && a != b {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		if x == b.Block() {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, n := range x.Succs {
			if visit(n) {
				return true
			}
		}
		return false
	}
	for _, n := range a.Block().Succs {
		if visit(n) {
			return true
		}
	}
	return false
}

// keptBy: what reached from outside holds the memory
func (e *effects) keptBy(given map[*eobj]bool) string {
	best := ""
	for _, o := range e.objs {
		if o.kind != 'p' {
			continue
		}
		v := eval{}
		for p, s := range o.cells {
			v.join(p, s)
		}
		for x := range e.reachable(v) {
			if d := shortType(o.typ) + " of " + o.root; given[x] && (best == "" || d < best) {
				best = d
			}
		}
	}
	return best
}

// mayKeep: does the instruction, or what it calls, store the memory somewhere?
func (e *effects) mayKeep(c *ectx, in ssa.Instruction, given map[*eobj]bool, seen map[*ectx]bool) bool {
	switch in := in.(type) {
	case *ssa.Store:
		if pointsOnlyToVar(in.Addr) || !e.holds(c, in.Val, given) {
			return false
		}
		for l := range c.val(e, in.Addr)[""].all() {
			if l.o.kind == 'a' && l.p == "" && !isStruct(l.o.typ) {
				continue // a variable
			}
			return true
		}
		return false
	case *ssa.MapUpdate:
		return e.holds(c, in.Value, given)
	case ssa.CallInstruction:
		if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			// as an element
			return len(in.Common().Args) == 2 && e.holds(c, in.Common().Args[1], given) && !isByteSlice(in.Common().Args[1].Type())
		}
		for _, x := range c.callee[in] {
			if seen[x] {
				continue
			}
			seen[x] = true
			for _, b := range x.fn.Blocks {
				for _, y := range b.Instrs {
					if e.mayKeep(x, y, given, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

func checkPools(w *World, r *Report) {
	r.Rule = "points-to analysis from every function users call that gives memory back to a pool"
	buildIterators(w)
	puts := map[*ssa.Function]bool{}
	memo := map[*ssa.Function]int{}
	var putting func(f *ssa.Function) bool
	putting = func(f *ssa.Function) bool {
		if m, ok := memo[f]; ok {
			return m == 1
		}
		memo[f] = 0
		res := false
		for _, a := range f.AnonFuncs {
			res = putting(a) || res
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isPoolPut(in) {
					puts[f] = true
					res = true
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && entered(g) {
						res = putting(g) || res
					}
				}
			}
		}
		if res {
			memo[f] = 1
		}
		return res
	}
	var entries []*ssa.Function
	for _, f := range w.apiEntries() {
		for g := range memo {
			if memo[g] == 0 {
				delete(memo, g)
			}
		}
		if putting(f) {
			entries = append(entries, f)
		}
	}
	// helpers no exported function calls directly are entries too
	covered := map[*ssa.Function]bool{}
	for _, f := range entries {
		covered[f] = true
	}
	for f := range puts {
		if f.Parent() == nil && !covered[f] {
			entries = append(entries, f)
		}
	}
	sort.Slice(entries, func(i, j int) bool { return fnName(entries[i]) < fnName(entries[j]) })
	r.inParallel(len(entries), func(i int, r *Report) {
		f := entries[i]
		name := fnName(f)
		e := effectsOf(w, f)
		r.Counts["functions analysed"]++
		if e.lost != "" {
			r.Counts["undecided: "+e.lost]++
			return
		}
		fails := map[string]bool{}
		sort.Slice(e.puts, func(i, j int) bool { return instrPos(e.puts[i].in) < instrPos(e.puts[j].in) })
		for _, p := range e.puts {
			r.Counts["places that give back"]++
			where := fnName(p.ctx.fn)
			given := e.given(p.ctx, p.in)
			bad := func(kind string, in ssa.Instruction, msg string) {
				k := "pool|" + where + "|" + kind
				if !fails[k] {
					fails[k] = true
					r.fail(k, w.pos(instrPos(in)), msg)
				}
			}
			var mem []string
			for o := range given {
				if o.kind == 'p' && !strings.HasPrefix(o.root, "global") && covered[f] {
					mem = append(mem, o.root)
				}
			}
			if len(mem) > 0 {
				sort.Strings(mem)
				bad("foreign", p.in, fmt.Sprintf("%s gives memory of %s of %s to the pool", where, mem[0], name))
			}
			for o := range given {
				if o.kind != 'a' {
					delete(given, o)
				}
			}
			if len(given) == 0 {
				continue
			}
			// at the place itself, and at every call on the way to it
			type level struct {
				c  *ectx
				in ssa.Instruction
			}
			var visit func(l level, deferred bool, depth int, given map[*eobj]bool)
			visited := map[level]bool{}
			visit = func(l level, deferred bool, depth int, given map[*eobj]bool) {
				if visited[l] || depth > 6 || len(given) == 0 {
					return
				}
				visited[l] = true
				if _, ok := l.in.(*ssa.Go); ok {
					return
				}
				_, isDefer := l.in.(*ssa.Defer)
				isDefer = isDefer || deferred
				lf := fnName(l.c.fn)
				if !isDefer {
					for _, u := range e.afterPut(l.c, l.in, given) {
						bad(u.how, u.in, fmt.Sprintf("memory %s gave back to the pool (line %s) is %s afterwards in %s", where, w.pos(instrPos(p.in)), u.how, lf))
					}
				}
				// held by a result
				for ret, vs := range l.c.rets {
					if !reachesIn(l.in, ret) && !isDefer || isDefer && !reachesIn(l.in, ret) {
						continue
					}
					for i, v := range vs {
						hit := false
						for o := range e.reachable(v) {
							hit = hit || given[o]
						}
						if !hit {
							continue
						}
						if !isDefer && i < len(ret.(*ssa.Return).Results) && e.holds(l.c, ret.(*ssa.Return).Results[i], given) {
							continue // decided along the paths above
						}
						bad("result", ret, fmt.Sprintf("memory %s gives back to the pool (line %s) is part of what %s returns", where, w.pos(instrPos(p.in)), lf))
					}
				}
				// held by what the caller has
				if how := e.keptBy(given); how != "" {
					for _, b := range l.c.fn.Blocks {
						for _, in := range b.Instrs {
							if in != l.in && (isDefer || reachesIn(in, l.in)) && e.mayKeep(l.c, in, given, map[*ectx]bool{}) {
								bad("kept", p.in, fmt.Sprintf("memory %s gives back to the pool is held by %s, since %s", where, how, w.pos(instrPos(in))))
							}
						}
					}
				}
				// given back by a deferred call too
				for _, q := range e.puts {
					if q.in == p.in || q.ctx != l.c {
						continue
					}
					if _, ok := q.in.(*ssa.Defer); !ok {
						continue
					}
					if !reachesIn(q.in, l.in) && !reachesIn(l.in, q.in) {
						continue
					}
					for o := range e.given(q.ctx, q.in) {
						if given[o] {
							bad("twice", p.in, fmt.Sprintf("%s gives memory back to the pool that a deferred call gives back again (line %s)", where, w.pos(instrPos(q.in))))
						}
					}
				}
				// the callers' memory
				theirs := map[*eobj]bool{}
				in := eval{}
				for _, p := range l.c.fn.Params {
					for p, s := range l.c.val(e, p) {
						in.join(p, s)
					}
				}
				for _, p := range l.c.fn.FreeVars {
					for p, s := range l.c.val(e, p) {
						in.join(p, s)
					}
				}
				under := map[*ectx]bool{}
				var below func(c *ectx)
				below = func(c *ectx) {
					if under[c] {
						return
					}
					under[c] = true
					for _, cs := range c.callee {
						for _, x := range cs {
							below(x)
						}
					}
				}
				below(l.c)
				for o := range e.reachable(in) {
					if given[o] && !under[o.ctx] {
						theirs[o] = true
					}
				}
				for up := range l.c.callers {
					for in, cs := range up.callee {
						for _, c := range cs {
							if c == l.c {
								_, d := in.(*ssa.Defer)
								visit(level{up, in}, d, depth+1, theirs)
							}
						}
					}
				}
			}
			visit(level{p.ctx, p.in}, false, 0, given)
		}
		if os.Getenv("AN_DUMP") != "" {
			fmt.Println(name, len(e.puts))
		}
		if len(fails) == 0 {
			r.ok(name + ": what is given back is not used, held or given back again")
		}
	})
	r.check(len(entries) > 0 || len(puts) == 0, "pool|entries", "", "no function gives memory back")
}
