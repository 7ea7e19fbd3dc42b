package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modSet is the set of memory classes a function may write, transitively.
// Classes are type-based: "F:<struct>.<field>", "E:<elem>", "T:<type>", "G:<global>".
// "*" means anything.
type modSet map[string]bool

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func derefStruct(t types.Type) (types.Type, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return t, st
}

func addrClass(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		t, st := derefStruct(a.X.Type())
		if st == nil {
			return "*"
		}
		return "F:" + typeKey(t) + "." + st.Field(a.Field).Name()
	case *ssa.IndexAddr:
		switch t := a.X.Type().Underlying().(type) {
		case *types.Slice:
			return "E:" + typeKey(t.Elem())
		case *types.Pointer:
			if at, ok := t.Elem().Underlying().(*types.Array); ok {
				return "E:" + typeKey(at.Elem())
			}
		}
		return "*"
	case *ssa.Global:
		return "G:" + a.RelString(nil)
	default:
		if p, ok := addr.Type().Underlying().(*types.Pointer); ok {
			return "T:" + typeKey(p.Elem())
		}
	}
	return "*"
}

// classClobbers: may a write to class w change what is read through class r?
func classClobbers(w, r string) bool {
	if w == "*" || w == r {
		return true
	}
	// whole-struct write clobbers its fields
	if strings.HasPrefix(w, "T:") && strings.HasPrefix(r, "F:"+w[2:]+".") {
		return true
	}
	if strings.HasPrefix(r, "T:") && strings.HasPrefix(w, "F:"+r[2:]+".") {
		return true
	}
	return false
}

func (m modSet) clobbers(r string) bool {
	for w := range m {
		if classClobbers(w, r) {
			return true
		}
	}
	return false
}

var pureExternal = map[string]bool{}

func (w *World) bodyOf(f *ssa.Function) bool { return f != nil && len(f.Blocks) > 0 }

func callMods(w *World, c ssa.CallInstruction, of func(*ssa.Function) modSet) modSet {
	cc := c.Common()
	out := modSet{}
	for _, a := range cc.Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			for k := range of(mc.Fn.(*ssa.Function)) {
				out[k] = true
			}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "append", "clear":
			if len(cc.Args) > 0 {
				if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					out["E:"+typeKey(s.Elem())] = true
				}
			}
		}
		return out
	}
	if cal := cc.StaticCallee(); cal != nil {
		if w.bodyOf(cal) {
			for k := range of(cal) {
				out[k] = true
			}
			return out
		}
		// external: may write through the slices and pointers it is handed
		pk := ""
		if cal.Pkg != nil {
			pk = cal.Pkg.Pkg.Path()
		} else if cal.Object() != nil && cal.Object().Pkg() != nil {
			pk = cal.Object().Pkg().Path()
		}
		switch pk {
		case "fmt", "errors", "strconv", "strings", "math", "bytes", "time", "encoding/base64", "encoding/hex", "unicode/utf8", "math/bits":
			if pk == "fmt" || pk == "errors" || pk == "strconv" || pk == "strings" || pk == "math" || pk == "math/bits" || pk == "time" {
				return out
			}
		case "encoding/binary":
			if strings.HasPrefix(cal.Name(), "Uint") {
				return out
			}
		}
		for _, a := range cc.Args {
			switch t := a.Type().Underlying().(type) {
			case *types.Slice:
				out["E:"+typeKey(t.Elem())] = true
			case *types.Pointer:
				out["T:"+typeKey(t.Elem())] = true
			case *types.Signature:
				// callback: effects of closures passed
				if mc, ok := a.(*ssa.MakeClosure); ok {
					for k := range of(mc.Fn.(*ssa.Function)) {
						out[k] = true
					}
				} else if f, ok := a.(*ssa.Function); ok && w.bodyOf(f) {
					for k := range of(f) {
						out[k] = true
					}
				} else {
					out["*"] = true
				}
			}
		}
		return out
	}
	if cc.IsInvoke() {
		// interface method of an external interface: may write what it is handed
		for _, a := range cc.Args {
			switch t := a.Type().Underlying().(type) {
			case *types.Slice:
				out["E:"+typeKey(t.Elem())] = true
			case *types.Pointer:
				out["T:"+typeKey(t.Elem())] = true
			}
		}
		for _, f := range w.implementers(cc) {
			for k := range of(f) {
				out[k] = true
			}
		}
		return out
	}
	// closure called directly?
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for k := range of(mc.Fn.(*ssa.Function)) {
			out[k] = true
		}
		return out
	}
	for _, f := range w.dynTargets(cc) {
		for k := range of(f) {
			out[k] = true
		}
	}
	return out
}

// implementers: repository methods an interface call may dispatch to.
func (w *World) implementers(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if f.Signature.Recv() == nil || f.Name() != cc.Method.Name() {
			continue
		}
		rt := f.Signature.Recv().Type()
		if types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it) {
			out = append(out, f)
		}
	}
	return out
}

// dynTargets: repository functions a call through a function value may reach
// (every function used as a value, matched by signature).
func (w *World) dynTargets(cc *ssa.CallCommon) []*ssa.Function {
	sig, ok := cc.Value.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if !w.addrOf[f] || f.Signature.Recv() != nil && f.Parent() == nil {
			continue
		}
		if sigMatch(f.Signature, sig) {
			out = append(out, f)
		}
	}
	return out
}

func sigMatch(a, b *types.Signature) bool {
	if a.Params().Len() != b.Params().Len() || a.Results().Len() != b.Results().Len() {
		return false
	}
	for i := 0; i < a.Params().Len(); i++ {
		if !types.Identical(a.Params().At(i).Type(), b.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < a.Results().Len(); i++ {
		if !types.Identical(a.Results().At(i).Type(), b.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func (w *World) computeMods() {
	w.mods = w.computeModsWith(func(*ssa.Store) bool { return true })
	fr := w.freshReturns()
	w.oldMods = w.computeModsWith(func(s *ssa.Store) bool { return !w.freshStore(s, fr) })
}

// freshReturns: functions whose single result is always an object they allocate, whose pointer fields
// they only fill with objects they allocate as well.
func (w *World) freshReturns() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if f.Signature.Results().Len() != 1 {
			continue
		}
		rets := returnsOf(f)
		good := len(rets) > 0
		for _, r := range rets {
			if _, ok := r.Results[0].(*ssa.Alloc); !ok {
				good = false
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if _, isP := s.Val.Type().Underlying().(*types.Pointer); isP {
						if _, isA := s.Val.(*ssa.Alloc); !isA {
							good = false
						}
					}
				}
			}
		}
		if good {
			out[f] = true
		}
	}
	return out
}

// freshStore: the store is to an object created by the same function.
func (w *World) freshStore(s *ssa.Store, fr map[*ssa.Function]bool) bool {
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		_, isA := s.Addr.(*ssa.Alloc)
		return isA
	}
	fn := s.Parent()
	var fresh func(v ssa.Value, deep bool) bool
	fresh = func(v ssa.Value, deep bool) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return !deep
		case *ssa.FieldAddr:
			return fresh(x.X, deep)
		case *ssa.Call:
			return fr[x.Call.StaticCallee()]
		case *ssa.UnOp:
			fa2, ok := x.X.(*ssa.FieldAddr)
			if !ok || x.Op != token.MUL || !fresh(fa2.X, true) {
				return false
			}
			// the field still holds what the allocating function put there
			cl := addrClass(fa2)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && addrClass(st.Addr) == cl {
						return false
					}
				}
			}
			return true
		}
		return false
	}
	return fresh(fa.X, false)
}

func (w *World) computeModsWith(counts func(*ssa.Store) bool) map[*ssa.Function]modSet {
	mods := map[*ssa.Function]modSet{}
	get := func(f *ssa.Function) modSet { return mods[f] }
	changed := true
	for changed {
		changed = false
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			m := mods[f]
			if m == nil {
				m = modSet{}
				mods[f] = m
			}
			if m["*"] {
				return
			}
			n := len(m)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if al, ok := x.Addr.(*ssa.Alloc); ok && !al.Heap {
							continue
						}
						if !counts(x) {
							continue
						}
						m[addrClass(x.Addr)] = true
					case *ssa.MapUpdate:
					case ssa.CallInstruction:
						if cal := x.Common().StaticCallee(); cal != nil && w.bodyOf(cal) && mods[cal] == nil {
							mods[cal] = modSet{}
							changed = true
							visit(cal)
						}
						for k := range callMods(w, x, get) {
							m[k] = true
						}
					}
				}
			}
			if m["*"] {
				for k := range m {
					if k != "*" {
						delete(m, k)
					}
				}
				changed = true
				return
			}
			if len(m) != n {
				changed = true
			}
		}
		for _, f := range w.Funcs {
			visit(f)
		}
	}
	return mods
}
