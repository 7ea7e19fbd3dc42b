package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// runBounds discharges every obligation of the given functions in parallel and reports each.
func runBounds(w *World, r *Report, fns []*ssa.Function, opts oblOpts, mk func() *boundsScope, skip func(*obligation) string) {
	type job struct {
		i  int
		fn *ssa.Function
	}
	res := make([][]boundsResult, len(fns))
	jobs := make(chan job)
	var wg sync.WaitGroup
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var mu sync.Mutex
	var perr any
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				func() {
					defer func() {
						if p := recover(); p != nil {
							mu.Lock()
							perr = p
							mu.Unlock()
						}
					}()
					s := mk()
					for _, ob := range obligationsOf(j.fn, opts) {
						res[j.i] = append(res[j.i], s.check(ob))
					}
				}()
			}
		}()
	}
	for i, f := range fns {
		jobs <- job{i, f}
	}
	close(jobs)
	wg.Wait()
	if perr != nil {
		panic(perr)
	}
	for i, f := range fns {
		r.Counts["functions analysed"]++
		for _, br := range res[i] {
			if skip != nil {
				if why := skip(br.ob); why != "" {
					continue
				}
			}
			r.Counts["obligations"]++
			at := w.pos(instrPos(br.ob.in))
			if br.ok {
				r.ok(w.oblKey(br.ob))
				continue
			}
			r.fail(w.oblKey(br.ob), at, fmt.Sprintf("%s: %s not shown safe on the path %s (needs %s): %s", fnName(f), br.ob.kind, br.where, br.detail, w.srcLine(instrPos(br.ob.in))))
		}
	}
}

func inPkg(f *ssa.Function, path string) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() == path
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path() == path
	}
	return false
}

func topFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func recvName(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	t := derefT(f.Signature.Recv().Type())
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func isExportedFn(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported()
}

// encodes: the exported functions through which encoding is entered
func encodes(f *ssa.Function) bool {
	n := f.Name()
	return isExportedFn(f) && (strings.HasPrefix(n, "Marshal") || n == "WriteTo" || strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Append") || n == "String" && recvName(f) != "Reader")
}

func decodeEntries(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if !inPkg(f, modPath) || f.Parent() != nil || !isExportedFn(f) {
			continue
		}
		n, rn := f.Name(), recvName(f)
		switch {
		case rn == "Reader":
		case strings.HasPrefix(n, "Validate"):
		case n == "UnmarshalBSON", n == "ReadFrom", n == "ReadDocument", n == "NewFromIOReader":
		case rn == "readerIterator" || rn == "elementIterator" || rn == "arrayIterator":
		default:
			continue
		}
		out = append(out, f)
	}
	return out
}

func rootInvs(w *World) map[string][]*structInv {
	if w.sinvCache == nil {
		w.sinvCache = inferStructInvs(w, map[string]bool{modPath: true})
	}
	return w.sinvCache
}

func checkDecode(w *World, r *Report) {
	r.Rule = "every index, slice, fixed-width read and make reachable from a decoding entry point is proved in range from the dominating checks (linear inequalities over SSA, loop invariants and structure invariants inferred from the source)"
	r.Assumptions = append(r.Assumptions, "byte slices and strings are shorter than 1 GiB", "package-level error variables are not nil", "no goroutine changes the bytes while they are decoded")
	entries := decodeEntries(w)
	r.Counts["decoding entry points"] = len(entries)
	r.min("decoding entry points", 12)
	em := map[*ssa.Function]bool{}
	for _, f := range entries {
		em[f] = true
	}
	val := w.fn("(*birch.Value).Validate")
	if val == nil {
		r.fail("anchor|Validate", "-", "(*Value).Validate not found")
		return
	}
	reach := w.reachable(entries, func(f *ssa.Function) bool {
		if !inPkg(f, modPath) {
			return false
		}
		if encodes(f) {
			return false
		}
		if recvName(f) == "Value" && isExportedFn(f) && f != val {
			return false // the accessors: decided by P02
		}
		return !isExportedFn(f) || em[f] || recvName(f) == "Document" || recvName(f) == "Array" || recvName(f) == "Element"
	})
	invs := rootInvs(w)
	r.Counts["structure invariants inferred"] = 0
	for _, ivs := range invs {
		r.Counts["structure invariants inferred"] += len(ivs)
	}
	var fns []*ssa.Function
	for _, f := range w.Funcs {
		if reach[f] {
			fns = append(fns, f)
		}
	}
	if len(entries) > 0 {
		r.Counts["functions in scope"] = len(fns)
		r.min("functions in scope", 20)
	}
	runBounds(w, r, fns, oblOpts{make: true}, func() *boundsScope {
		e := newEngine(w)
		e.sinv = invs
		return &boundsScope{e: e, entries: em, reach: reach, maxUp: 4}
	}, nil)
	r.min("obligations", 30)
}

// accessors: the exported methods of Value that read it
func valueAccessors(w *World, val *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if !inPkg(f, modPath) || f.Parent() != nil || !isExportedFn(f) || recvName(f) != "Value" || f == val {
			continue
		}
		if encodes(f) {
			continue
		}
		out = append(out, f)
	}
	return out
}

func checkAccessors(w *World, r *Report) {
	r.Rule = "assuming the validator accepted the value, every index, slice, fixed-width read and make in its accessors is proved in range (the validator's success paths are the hypotheses); and decoding hands an element out only after that validator accepted it"
	r.Assumptions = append(r.Assumptions, "byte slices and strings are shorter than 1 GiB", "nothing changes the bytes of a value between its validation and its use")
	val := w.fn("(*birch.Value).Validate")
	if val == nil {
		r.fail("anchor|Validate", "-", "(*Value).Validate not found")
		return
	}
	entries := valueAccessors(w, val)
	r.Counts["accessors"] = len(entries)
	r.min("accessors", 30)
	em := map[*ssa.Function]bool{}
	for _, f := range entries {
		em[f] = true
	}
	reach := w.reachable(entries, func(f *ssa.Function) bool {
		if !inPkg(f, modPath) || encodes(f) || f == val {
			return false
		}
		return em[f] || !isExportedFn(f) && (recvName(f) == "Value" || recvName(f) == "" && f.Parent() == nil && !isConstructorish(f))
	})
	invs := rootInvs(w)
	var fns []*ssa.Function
	inner := calleesOf(val)
	for _, f := range w.Funcs {
		if reach[f] && !inner[f] {
			fns = append(fns, f)
		}
	}
	runBounds(w, r, fns, oblOpts{make: true}, func() *boundsScope {
		e := newEngine(w)
		e.sinv = invs
		return &boundsScope{e: e, entries: em, reach: reach, maxUp: 4, prepare: func(fr *Frame) { addHyps(e, fr, val) }}
	}, nil)
	r.min("obligations", 40)
	checkHandOut(w, r, val)
}

func isConstructorish(f *ssa.Function) bool {
	return strings.HasPrefix(f.Name(), "new") || strings.HasPrefix(f.Name(), "convert")
}

// calleesOf: the functions of the repository called from f, transitively
func calleesOf(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if cal := c.Common().StaticCallee(); cal != nil && recvName(cal) == recvName(f) && len(cal.Blocks) > 0 {
					out[cal] = true
				}
			}
		}
	}
	return out
}

// checkHandOut: functions that point a Value at foreign bytes validate it before anyone else sees it.
func checkHandOut(w *World, r *Report, val *ssa.Function) {
	// the call that Validate makes: same callee with the same constants counts as validation
	type vcall struct {
		fn    *ssa.Function
		args  []string
		errIx int
	}
	vs := []vcall{{fn: val, errIx: val.Signature.Results().Len() - 1}}
	constArg := func(v ssa.Value) string {
		if c, ok := v.(*ssa.Const); ok {
			return c.String()
		}
		return ""
	}
	for _, b := range val.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if cal := c.Call.StaticCallee(); cal != nil && len(c.Call.Args) > 0 && c.Call.Args[0] == val.Params[0] {
					res := cal.Signature.Results()
					if res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), types.Universe.Lookup("error").Type()) {
						var as []string
						for _, a := range c.Call.Args[1:] {
							as = append(as, constArg(a))
						}
						vs = append(vs, vcall{cal, as, res.Len() - 1})
					}
				}
			}
		}
	}
	valT := derefT(val.Params[0].Type())
	tk := typeKey(valT)
	e := newEngine(w)
	e.sinv = rootInvs(w)
	// functions that point a value at foreign bytes
	rawPtrs := map[*ssa.Function][]ssa.Value{}
	for _, f := range w.Funcs {
		if !inPkg(f, modPath) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t, s := derefStruct(fa.X.Type())
				if typeKey(t) != tk || !isSliceT(s.Field(fa.Field).Type()) {
					continue
				}
				if foreignBytes(st.Val, tk, 0) {
					rawPtrs[f] = append(rawPtrs[f], fa.X)
				}
			}
		}
	}
	raw := len(rawPtrs)
	isElem := func(t types.Type) bool {
		k := typeKey(derefT(t))
		return k == tk || strings.HasSuffix(k, modPath+".Element")
	}
	// hand-out points of a function: dynamic calls given an element, and the returns of a "next" predicate
	points := func(f *ssa.Function) (out []ssa.Instruction) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if x.Call.IsInvoke() || x.Call.StaticCallee() != nil {
						continue
					}
					if _, bi := x.Call.Value.(*ssa.Builtin); bi {
						continue
					}
					for _, a := range x.Call.Args {
						if isElem(a.Type()) {
							out = append(out, x)
							break
						}
					}
				case *ssa.Return:
					if len(x.Results) != 1 {
						continue
					}
					if bt, ok := x.Results[0].Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
						continue
					}
					if c, ok := x.Results[0].(*ssa.Const); ok && c.Value != nil && c.Value.String() == "false" {
						continue
					}
					out = append(out, x)
				}
			}
		}
		return out
	}
	todo := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var add func(f *ssa.Function, d int)
	add = func(f *ssa.Function, d int) {
		if todo[f] {
			return
		}
		todo[f] = true
		order = append(order, f)
		if len(points(f)) == 0 && !isExportedFn(f) && d < 4 {
			for _, c := range w.callers[f] {
				if inPkg(c.Parent(), modPath) {
					add(c.Parent(), d+1)
				}
			}
		}
	}
	for _, f := range w.Funcs {
		if len(rawPtrs[f]) > 0 {
			add(f, 0)
		}
	}
	// the validating calls of a frame, in the function itself or in helpers
	type vc struct {
		call *ssa.Call
		err  ssa.Value // nil: a helper that validates
	}
	memo := map[*ssa.Function][]vc{}
	var vcsOf func(f *ssa.Function, d int) []vc
	vcsOf = func(f *ssa.Function, d int) []vc {
		if v, ok := memo[f]; ok {
			return v
		}
		memo[f] = nil
		var vcs []vc
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				cal := c.Call.StaticCallee()
				if cal == nil {
					continue
				}
				isV := false
				for _, v := range vs {
					if cal != v.fn {
						continue
					}
					isV = true
					same := true
					for i, a := range c.Call.Args[1:] {
						if i < len(v.args) && v.args[i] != "" && constArg(a) != v.args[i] {
							same = false
						}
					}
					if !same {
						continue
					}
					if cal.Signature.Results().Len() == 1 {
						vcs = append(vcs, vc{c, c})
						continue
					}
					for _, ref := range *c.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index == v.errIx {
							vcs = append(vcs, vc{c, ex})
						}
					}
				}
				if !isV && d < 3 && inPkg(cal, modPath) && w.bodyOf(cal) && cal != f && len(vcsOf(cal, d+1)) > 0 && (rawPtrs[cal] != nil || passesElem(c, isElem)) {
					vcs = append(vcs, vc{c, nil})
				}
			}
		}
		memo[f] = vcs
		return vcs
	}
	for _, f := range order {
		if len(points(f)) == 0 {
			continue
		}
		fr := e.rootFrame(f)
		var keys func(c *Ctx, fr *Frame) map[string]bool
		keys = func(c *Ctx, fr *Frame) map[string]bool {
			m := map[string]bool{}
			for f := fr; f != nil; f = f.parent {
				for _, p := range rawPtrs[f.fn] {
					m[e.ptrKey(newCtx(), f, p)] = true
				}
			}
			return m
		}
		before := func(x, at ssa.Instruction) bool {
			if x.Block() == at.Block() {
				return instrIndex(x) < instrIndex(at)
			}
			return x.Block().Dominates(at.Block())
		}
		// goal: reaching at in fr implies the validation v of that frame succeeded
		var goal func(c *Ctx, fr *Frame, v vc, at ssa.Instruction, d int) *Lin
		bad := func(fr *Frame, call *ssa.Call, sp *splitPt) *Lin {
			return e.atom(fmt.Sprintf("unvalidated:%d:%s", fr.id, call.Name()), nil, nil, fr, call.Block(), sp)
		}
		goal = func(c *Ctx, fr *Frame, v vc, at ssa.Instruction, d int) *Lin {
			if !before(v.call, at) {
				return nil
			}
			if v.err != nil {
				if !keys(c, fr)[e.ptrKey(newCtx(), fr, v.call.Call.Args[0])] {
					// a helper given the element: the element is whatever its caller points at
					if _, isP := v.call.Call.Args[0].(*ssa.Parameter); !isP || fr.parent == nil {
						if fr.parent == nil {
							return nil
						}
					}
				}
				return e.ev(c, fr, v.err).scale(-1)
			}
			fn := v.call.Call.StaticCallee()
			ch, ret := e.calleeReturn(c, fr, v.call)
			if ch == nil || ret == nil {
				return bad(fr, v.call, &splitPt{fr: fr, call: v.call})
			}
			for _, v2 := range vcsOf(fn, 0) {
				if before(v2.call, ret) {
					return goal(c, ch, v2, ret, d+1)
				}
			}
			return nil
		}
		holds := func(at ssa.Instruction) bool {
			for _, v := range vcsOf(f, 0) {
				v := v
				if !before(v.call, at) {
					continue
				}
				if e.prove(ctxAt(at), fr, at.Block(), func(c *Ctx) *Lin { return goal(c, fr, v, at, 0) }) {
					return true
				}
			}
			return false
		}
		for _, in := range points(f) {
			r.Counts["hand-out points"]++
			switch x := in.(type) {
			case *ssa.Call:
				r.check(holds(x), "handout|"+fnName(f)+"|call", w.pos(instrPos(x)), fnName(f)+" passes an element on before its value was validated in full")
			case *ssa.Return:
				saved := e.assume
				e.assume = func(c *Ctx) []fact { return e.condFacts(c, fr, x.Results[0], true) }
				okr := holds(x)
				e.assume = saved
				r.check(okr, "handout|"+fnName(f)+"|return", w.pos(instrPos(x)), fnName(f)+" reports an element before its value was validated in full")
			}
		}
	}
	r.Counts["functions that decode foreign bytes"] = raw
	r.min("functions that decode foreign bytes", 2)
	r.min("hand-out points", 2)
	_ = token.NoPos
}

func passesElem(c *ssa.Call, isElem func(types.Type) bool) bool {
	for _, a := range c.Call.Args {
		if isElem(a.Type()) {
			return true
		}
	}
	return false
}

// foreignBytes: the slice comes from a parameter or from a field other than a Value's own bytes
func foreignBytes(v ssa.Value, tk string, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.ChangeType:
		return foreignBytes(x.X, tk, d+1)
	case *ssa.Slice:
		return foreignBytes(x.X, tk, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if foreignBytes(e, tk, d+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			t, _ := derefStruct(fa.X.Type())
			return typeKey(t) != tk
		}
		if _, ok := x.X.(*ssa.FreeVar); ok {
			return true
		}
	}
	return false
}
