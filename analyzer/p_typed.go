package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Typed access: the library itself asks a value (of a document or of parsed JSON) for the content of one type only
// where it is known to have that type.

// typedAccess: accessor name -> type bytes it serves
func typedAccess(f *ssa.Function) ([]int64, bool) {
	if f == nil || f.Signature.Recv() == nil || recvName(f) != "Value" {
		return nil, false
	}
	switch fnPkg(f) {
	case modPath:
		for _, s := range accessSpecs {
			if s.name == f.Name() {
				var t []int64
				for _, c := range s.cases {
					t = append(t, c.tag)
				}
				return t, true
			}
		}
	case jsonxPath:
		t, ok := jsonTypes[f.Name()]
		return t, ok
	}
	return nil, false
}

// the JSON accessors and the type constants (String, Number, Bool, Null, NumberInteger, NumberDouble, ObjectValue, ArrayValue)
var jsonTypes = map[string][]int64{"StringValue": {0}, "Boolean": {2}, "Document": {6}, "Array": {7}, "Int": {}, "Float64": {}}

// jsonContent: the Go type each JSON type constant promises, for the types whose accessor relies on it
var jsonContent = map[int64]string{0: "string", 2: "bool", 6: "*jsonx.Document", 7: "*jsonx.Array"}

func isTypeMethod(f *ssa.Function) bool {
	return f != nil && f.Name() == "Type" && recvName(f) == "Value" && (fnPkg(f) == modPath || fnPkg(f) == jsonxPath)
}

// typeTag: the type of the value a pointer refers to. A value keeps its type, so the tag does not depend on when
// it is asked for.
func (e *Engine) typeTag(c *Ctx, fr *Frame, recv ssa.Value) *Lin {
	p := e.ev(c, fr, recv)
	return e.atom("tag:"+p.key(), big.NewInt(0), big.NewInt(255), fr, blockOf(recv), nil)
}

// okFact: a condition that is the ok result of an OK accessor
func (e *Engine) okFact(c *Ctx, fr *Frame, v ssa.Value, truth bool) []fact {
	x, isX := v.(*ssa.Extract)
	if !isX || !truth {
		return nil
	}
	call, isC := x.Tuple.(*ssa.Call)
	if !isC {
		return nil
	}
	f := call.Call.StaticCallee()
	if f == nil || !strings.HasSuffix(f.Name(), "OK") || recvName(f) != "Value" || x.Index != f.Signature.Results().Len()-1 {
		return nil
	}
	base := e.w.fn(strings.TrimSuffix(fnName(f), "OK"))
	tags, ok := typedAccess(base)
	if !ok || len(tags) != 1 {
		return nil
	}
	return eqFacts(e.typeTag(c, fr, call.Call.Args[0]).addC(-tags[0]))
}

func checkTyped(w *World, r *Report) {
	r.Rule = "every call of a typed accessor of a document or JSON value, anywhere in the library outside the value types themselves, is reached only on paths on which a test of that value's type (its Type, or the ok of an OK accessor) has come out as the accessor's type; the constructors of JSON values pair each type constant with the Go type its accessor asserts"
	r.Assumptions = append(r.Assumptions, "a value keeps its type while it is being looked at")
	sites := map[*ssa.Function][]*obligation{}
	var fns []*ssa.Function
	em := map[*ssa.Function]bool{}
	reach := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		p := fnPkg(topFn(f))
		if !inRepo(p) || strings.HasSuffix(p, "/testutil") || strings.HasSuffix(p, "/jsonx/internal") {
			continue
		}
		reach[f] = true
		if f.Parent() == nil && isExportedFn(f) {
			em[f] = true
		}
		if recvName(topFn(f)) == "Value" && (p == modPath || p == jsonxPath) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := ci.Common().StaticCallee()
				tags, ok := typedAccess(cal)
				if !ok {
					continue
				}
				recv := ci.Common().Args[0]
				r.Counts["accesses"]++
				if w.madeAs(recv, tags, 0) {
					r.Counts["accesses of a value just made"]++
					r.ok("made with that type: " + fnName(f))
					continue
				}
				if w.keptValue(recv, 0) {
					r.Counts["accesses of values kept by a collector"]++
					continue
				}
				ob := &obligation{fn: f, in: in, kind: cal.Name() + " of a value that may have another type"}
				ob.assume = func(e *Engine, c *Ctx, fr *Frame) []fact {
					var out []fact
					for _, t := range tags {
						out = append(out, fact{l: e.typeTag(c, fr, recv).addC(-t), ne: true})
					}
					return out
				}
				if sites[f] == nil {
					fns = append(fns, f)
				}
				sites[f] = append(sites[f], ob)
			}
		}
	}
	r.Counts["functions with accesses"] = len(fns)
	runBounds(w, r, fns, oblOpts{only: func(f *ssa.Function) []*obligation { return sites[f] }}, func() *boundsScope {
		e := newEngine(w)
		e.typed = true
		return &boundsScope{e: e, entries: em, reach: reach, maxUp: 4}
	}, nil)
	w.jsonPairs(r)
	r.min("accesses", 15)
	r.min("functions with accesses", 5)
	r.min("JSON constructors", 3)
}

// madeAs: the value was made by a constructor of that type right there
func (w *World) madeAs(v ssa.Value, tags []int64, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		if f.Name() == "Value" && recvName(f) == "Element" {
			return w.madeAs(x.Call.Args[0], tags, d+1)
		}
		if fnPkg(f) != modPath {
			return false
		}
		if recvName(f) == "ElementConstructor" || recvName(f) == "ValueConstructor" {
			for _, s := range ctorSpecs {
				for _, t := range tags {
					if s.name == f.Name() && t == s.tag {
						return true
					}
				}
			}
		}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !w.madeAs(ed, tags, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// keptValue: the value does not come from a document or from JSON but from a list of values the library keeps
// for itself (a field of a struct that is not a document)
func (w *World) keptValue(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		f := x.Parent()
		cs := w.callers[f]
		if isExportedFn(f) || f.Parent() != nil || len(cs) == 0 || w.addrOf[f] {
			return false
		}
		for _, c := range cs {
			for i, p := range f.Params {
				if p == x && (i >= len(c.Common().Args) || !w.keptValue(c.Common().Args[i], d+1)) {
					return false
				}
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		ia, ok := x.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		var fa ssa.Value = ia.X
		for {
			u, ok := fa.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				break
			}
			fa = u.X
		}
		switch y := fa.(type) {
		case *ssa.FieldAddr:
			return valueHolder(derefT(y.X.Type()))
		case *ssa.Field:
			return valueHolder(y.X.Type())
		}
	}
	return false
}

func valueHolder(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	p := ""
	if n.Obj().Pkg() != nil {
		p = n.Obj().Pkg().Path()
	}
	return p != modPath && p != jsonxPath && inRepo(p)
}

// jsonPairs: wherever a JSON value is given a type constant, its content has the Go type that constant promises
func (w *World) jsonPairs(r *Report) {
	t := w.structNamed(jsonxPath, "Value")
	if t == nil {
		r.fail("anchor|jsonx.Value", "-", "the JSON value type was not found")
		return
	}
	for _, f := range w.Funcs {
		if fnPkg(topFn(f)) != jsonxPath {
			continue
		}
		tags := map[ssa.Value]*ssa.Store{}
		vals := map[ssa.Value]*ssa.Store{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefT(fa.X.Type()), t) {
					continue
				}
				switch t.Underlying().(*types.Struct).Field(fa.Field).Name() {
				case "t":
					tags[fa.X] = st
				case "value":
					vals[fa.X] = st
				}
			}
		}
		for o, st := range tags {
			k, ok := st.Val.(*ssa.Const)
			if !ok || k.Value == nil {
				continue
			}
			want, ok := jsonContent[k.Int64()]
			if !ok {
				continue
			}
			r.Counts["JSON constructors"]++
			got := "nothing"
			if vs := vals[o]; vs != nil {
				v := vs.Val
				if mi, ok := v.(*ssa.MakeInterface); ok {
					got = types.TypeString(mi.X.Type(), func(p *types.Package) string { return p.Name() })
				} else {
					r.Counts["JSON contents not understood"]++
					continue
				}
			} else if _, zero := jsonContent[0]; zero && k.Int64() == 0 {
				// the type constant zero may be left implicit
				continue
			}
			key := fmt.Sprintf("pair|%s|%d", fnName(f), k.Int64())
			r.check(got == want, key, w.pos(instrPos(st)), fmt.Sprintf("%s makes a JSON value of type %d holding %s, its accessor asserts %s", fnName(f), k.Int64(), got, want))
		}
	}
}
