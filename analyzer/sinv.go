package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Structure invariants: for a struct with unexported integer fields and slices, relations such as
// "offset <= len(data)" that hold for every object at every call boundary. Candidates are generated
// from the field types and kept only when every function that writes the fields re-establishes them
// (Houdini). Each is guarded by "the slice field is not nil".
type structInv struct {
	tkey  string
	guard string // slice field
	lhs   string // int field, or "" for zero
	k     int64
	rhs   string // int field, or "" for len(guard)
	free  bool   // holds whether or not the slice is nil
}

func (s *structInv) String() string {
	r := "len(" + s.guard + ")"
	if s.rhs != "" {
		r = s.rhs
	}
	l := s.lhs
	if l == "" {
		l = "0"
	}
	if s.free {
		return fmt.Sprintf("%s: %s+%d <= %s", strings.ReplaceAll(s.tkey, modPath, ""), l, s.k, r)
	}
	return fmt.Sprintf("%s: %s != nil => %s+%d <= %s", strings.ReplaceAll(s.tkey, modPath, ""), s.guard, l, s.k, r)
}

var sinvTrace = false
var sinvDump = ""

type ginv struct {
	guard Sym
	l     *Lin
}

func (e *Engine) fieldRef(c *Ctx, fr *Frame, ptr ssa.Value, tkey, field string, at ssa.Instruction) (ssa.Value, *Frame, *splitPt, string) {
	class := "F:" + tkey + "." + field
	base, okb := e.addrBase(c, fr, ptr)
	return e.resolve(c, fr, class, e.ptrKey(c, fr, ptr)+"."+field, base, okb, e.verBefore(fr.fn, at, class))
}

func suffixOK(k string) (string, bool) {
	i := strings.LastIndex(k, "@")
	if i < 0 {
		return "", false
	}
	s := k[i+1:]
	return s, s == "0" || strings.Contains(s, ":call")
}

// attachInv adds the invariants of the loaded field's struct to the atom of the load.
func (e *Engine) attachInv(c *Ctx, fr *Frame, addr ssa.Value, at ssa.Instruction, l *Lin) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok || len(e.sinv) == 0 {
		return
	}
	t, st := derefStruct(fa.X.Type())
	tk := typeKey(t)
	invs := e.sinv[tk]
	if len(invs) == 0 {
		return
	}
	s, ok := l.soleSym()
	if !ok {
		return
	}
	name := st.Field(fa.Field).Name()
	for _, iv := range invs {
		if name != iv.lhs && name != iv.rhs && name != iv.guard {
			continue
		}
		var fs []string
		if !iv.free || iv.rhs == "" {
			fs = append(fs, iv.guard)
		}
		if iv.lhs != "" {
			fs = append(fs, iv.lhs)
		}
		if iv.rhs != "" {
			fs = append(fs, iv.rhs)
		}
		keys := map[string]string{}
		sfx := ""
		good := true
		for _, f := range fs {
			rv, _, _, key := e.fieldRef(c, fr, fa.X, tk, f, at)
			if rv != nil || key == "zero" {
				good = false
				break
			}
			sx, ok := suffixOK(key)
			if !ok || sfx != "" && sx != sfx {
				good = false
				break
			}
			sfx = sx
			keys[f] = key
		}
		if !good {
			continue
		}
		num := func(f string) *Lin {
			var ft types.Type
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					ft = st.Field(i).Type()
				}
			}
			lo, hi := e.atomRange(ft)
			return e.atom("L:"+keys[f], lo, hi, fr, nil, nil)
		}
		gs := Sym(-1)
		if !iv.free {
			gl := e.atom("nilp:L:"+keys[iv.guard], big.NewInt(0), nil, fr, nil, nil)
			gs, _ = gl.soleSym()
		}
		var r *Lin
		if iv.rhs == "" {
			r = e.lenAtom("L:"+keys[iv.guard], fr, nil, nil)
		} else {
			r = num(iv.rhs)
		}
		g := r.addC(-iv.k)
		if iv.lhs != "" {
			g = g.sub(num(iv.lhs))
		}
		a := e.atoms[s]
		dup := false
		for _, o := range a.inv {
			if o.guard == gs && o.l.equal(g) {
				dup = true
			}
		}
		if !dup {
			a.inv = append(a.inv, ginv{gs, g})
		}
	}
}

// candidate invariants of the struct types of the given packages
func structCands(w *World, pkgs map[string]bool) map[string][]*structInv {
	out := map[string][]*structInv{}
	for path, sp := range w.SSA {
		if !pkgs[path] {
			continue
		}
		for _, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := tm.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			var ints, slices []string
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Exported() {
					continue
				}
				if isInt(f.Type()) {
					ints = append(ints, f.Name())
				}
				if isSliceT(f.Type()) {
					slices = append(slices, f.Name())
				}
			}
			tk := typeKey(tm.Type())
			for i, a := range ints {
				for j, b := range ints {
					if i != j {
						out[tk] = append(out[tk], &structInv{tkey: tk, lhs: a, rhs: b, free: true})
					}
				}
				if lo, _ := typeRange(fieldT(st, a)); lo != nil && lo.Sign() < 0 {
					out[tk] = append(out[tk], &structInv{tkey: tk, rhs: a, free: true})
				}
			}
			if len(ints) == 0 || len(slices) == 0 {
				continue
			}
			for _, g := range slices {
				for _, a := range ints {
					for k := int64(0); k <= 2; k++ {
						out[tk] = append(out[tk], &structInv{tkey: tk, guard: g, lhs: a, k: k})
						if k == 0 {
							out[tk] = append(out[tk], &structInv{tkey: tk, guard: g, lhs: a, k: k, free: true})
						}
						for _, b := range ints {
							if a != b {
								out[tk] = append(out[tk], &structInv{tkey: tk, guard: g, lhs: a, k: k, rhs: b})
							}
						}
					}
				}
			}
		}
	}
	return out
}

type invSite struct {
	fn  *ssa.Function
	ptr ssa.Value
	at  ssa.Instruction
}

// inferStructInvs runs the Houdini loop and returns the surviving invariants.
func inferStructInvs(w *World, pkgs map[string]bool) map[string][]*structInv {
	cur := structCands(w, pkgs)
	sites := map[string][]invSite{}
	for tk, ivs := range cur {
		fields := map[string]bool{}
		for _, iv := range ivs {
			for _, f := range []string{iv.guard, iv.lhs, iv.rhs} {
				if f != "" {
					fields[f] = true
				}
			}
		}
		for _, f := range w.Funcs {
			if f.Pkg == nil && f.Parent() == nil {
				continue
			}
			ptrs := map[ssa.Value]bool{}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
							t, st := derefStruct(fa.X.Type())
							if typeKey(t) == tk && fields[st.Field(fa.Field).Name()] {
								ptrs[fa.X] = true
							}
						} else if pt, ok := s.Addr.Type().Underlying().(*types.Pointer); ok && typeKey(pt.Elem()) == tk {
							ptrs[s.Addr] = true
						}
					}
				}
			}
			if len(ptrs) == 0 {
				continue
			}
			// one representative per pointer expression
			e := newEngine(w)
			fr := e.rootFrame(f)
			seen := map[string]bool{}
			var ps []ssa.Value
			for p := range ptrs {
				ps = append(ps, p)
			}
			sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
			for _, p := range ps {
				k := e.ptrKey(newCtx(), fr, p)
				if seen[k] {
					continue
				}
				seen[k] = true
				for _, b := range f.Blocks {
					if pb := blockOf(p); pb != nil && !pb.Dominates(b) {
						continue
					}
					for _, in := range b.Instrs {
						switch x := in.(type) {
						case *ssa.Return:
							sites[tk] = append(sites[tk], invSite{f, p, x})
						case *ssa.Call:
							for _, a := range x.Call.Args {
								if e.ptrKey(newCtx(), fr, a) == k && typeKey(derefT(a.Type())) == tk {
									if pb := blockOf(p); pb == nil || pb != b || instrIndex(p.(ssa.Instruction)) < instrIndex(in) {
										sites[tk] = append(sites[tk], invSite{f, a, x})
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for round := 0; round < 10; round++ {
		next := map[string][]*structInv{}
		changed := false
		e := newEngine(w)
		e.sinv = cur
		for tk, ivs := range cur {
			for _, iv := range ivs {
				good := true
				for _, s := range sites[tk] {
					e.Dump = sinvDump != "" && strings.Contains(iv.String()+" at "+w.pos(instrPos(s.at)), sinvDump)
					if !e.proveInvAt(iv, s) {
						if sinvTrace {
							fmt.Println("drop", round, iv, "at", fnName(s.fn), w.pos(instrPos(s.at)))
							good = false
							continue
						}
						good = false
						break
					}
				}
				if good {
					next[tk] = append(next[tk], iv)
				} else {
					changed = true
				}
			}
		}
		cur = next
		if !changed {
			break
		}
	}
	return cur
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) proveInvAt(iv *structInv, s invSite) bool {
	return e.proveInvUp(iv, s, nil, s.fn)
}

// proveInvUp: from the function alone, else in the context of each of its callers
func (e *Engine) proveInvUp(iv *structInv, s invSite, chain []ssa.CallInstruction, top *ssa.Function) bool {
	fr := e.rootFrame(top)
	for _, c := range chain {
		fr = e.child(fr, c, c.Common().StaticCallee())
	}
	if e.proveInvIn(iv, s, fr) {
		return true
	}
	if isExportedFn(top) || top.Parent() != nil || e.w.addrOf[top] || len(chain) >= 3 || len(e.w.callers[top]) == 0 {
		return false
	}
	for _, site := range e.w.callers[top] {
		p := site.Parent()
		if p == top {
			return false
		}
		for _, c := range chain {
			if c.Parent() == p {
				return false
			}
		}
		if !e.proveInvUp(iv, s, append([]ssa.CallInstruction{site}, chain...), p) {
			return false
		}
	}
	return true
}

func (e *Engine) proveInvIn(iv *structInv, s invSite, fr *Frame) bool {
	sl := func(c *Ctx) *SV {
		rv, rf, sp, key := e.fieldRef(c, fr, s.ptr, iv.tkey, iv.guard, s.at)
		if rv != nil {
			return e.evS(c, rf, rv)
		}
		if key == "zero" {
			return &SV{root: "nil", off: linConst(0), len: linConst(0)}
		}
		return e.rootSV("L:"+key, fr, s.at.Block(), sp)
	}
	_, st := derefStruct(s.ptr.Type())
	num := func(c *Ctx, f string) *Lin {
		rv, rf, sp, key := e.fieldRef(c, fr, s.ptr, iv.tkey, f, s.at)
		if rv != nil {
			return e.ev(c, rf, rv)
		}
		if key == "zero" {
			return linConst(0)
		}
		var ft types.Type
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				ft = st.Field(i).Type()
			}
		}
		lo, hi := e.atomRange(ft)
		l := e.atom("L:"+key, lo, hi, fr, s.at.Block(), sp)
		e.attachInvPtr(c, fr, s.ptr, f, s.at, l)
		return l
	}
	saved := e.assume
	defer func() { e.assume = saved }()
	e.assume = func(c *Ctx) []fact {
		if iv.free {
			return nil
		}
		d := sl(c)
		if d.root == "nil" {
			return nil
		}
		return []fact{{l: e.atom("nilp:"+d.root, big.NewInt(0), nil, fr, nil, d.sp), ne: true}}
	}
	return e.prove(ctxAt(s.at), fr, s.at.Block(), func(c *Ctx) *Lin {
		l := linConst(iv.k)
		if iv.lhs != "" {
			l = num(c, iv.lhs).addC(iv.k)
		}
		if iv.rhs != "" && iv.free {
			return num(c, iv.rhs).sub(l)
		}
		d := sl(c)
		if d.root == "nil" && !iv.free {
			return linConst(0)
		}
		if iv.rhs == "" {
			return d.len.sub(l)
		}
		return num(c, iv.rhs).sub(l)
	})
}

func (e *Engine) attachInvPtr(c *Ctx, fr *Frame, ptr ssa.Value, field string, at ssa.Instruction, l *Lin) {
	t, st := derefStruct(ptr.Type())
	_ = t
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			fa := &ssa.FieldAddr{X: ptr, Field: i}
			e.attachInv(c, fr, fa, at, l)
		}
	}
}

func fieldT(st *types.Struct, name string) types.Type {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}
