package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// rebuildRule: the map stored as a document's cached view holds every element of the list under its own key, the
// first of several with the same key.
type rebuildRule struct {
	w      *World
	r      *Report
	doc    *types.Named
	fElems int
}

// mapSources: the maps made here or in a helper that a value can be
func (q *rebuildRule) mapSources(v ssa.Value, d int) []*ssa.MakeMap {
	if d > 5 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeMap:
		return []*ssa.MakeMap{x}
	case *ssa.ChangeType:
		return q.mapSources(x.X, d+1)
	case *ssa.Phi:
		var out []*ssa.MakeMap
		for _, e := range x.Edges {
			out = append(out, q.mapSources(e, d+1)...)
		}
		return out
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 || !inRepo(fnPkg(f)) {
			return nil
		}
		var out []*ssa.MakeMap
		for _, ret := range returnsOf(f) {
			if len(ret.Results) == 1 {
				out = append(out, q.mapSources(ret.Results[0], d+1)...)
			}
		}
		return out
	}
	return nil
}

func (q *rebuildRule) elemsLoad(v ssa.Value) (ssa.Value, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fa.Field != q.fElems {
		return nil, false
	}
	t, _ := derefStruct(fa.X.Type())
	return fa.X, types.Unalias(t) == q.doc
}

// element: the index of the list element a value was loaded from
func (q *rebuildRule) element(v ssa.Value) (ssa.Value, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil, false
	}
	if _, ok := q.elemsLoad(ia.X); !ok {
		return nil, false
	}
	return ia.Index, true
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || !isInt(c.Type()) {
		return 0, false
	}
	return c.Int64(), true
}

// lenPlus: v is the length of the element list plus a constant
func (q *rebuildRule) lenPlus(v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			_, ok := q.elemsLoad(x.Call.Args[0])
			return 0, ok
		}
		if f := x.Call.StaticCallee(); f != nil && f.Name() == "Len" && recvName(f) == q.doc.Obj().Name() {
			return 0, true
		}
	case *ssa.BinOp:
		k, ok := constInt(x.Y)
		if !ok {
			return 0, false
		}
		n, ok := q.lenPlus(x.X)
		switch x.Op {
		case token.ADD:
			return n + k, ok
		case token.SUB:
			return n - k, ok
		}
	}
	return 0, false
}

// sweep describes the loop an index runs through: the first and the last position as (from the end, offset)
type sweep struct {
	head   *ssa.BasicBlock
	step   int64
	lo, hi int64 // the first index, and the last one relative to the length
	ok     bool
}

func (q *rebuildRule) sweepOf(ix ssa.Value) sweep {
	add := int64(0)
	for {
		b, ok := ix.(*ssa.BinOp)
		if !ok {
			break
		}
		k, ok := constInt(b.Y)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return sweep{}
		}
		if b.Op == token.SUB {
			k = -k
		}
		add += k
		ix = b.X
	}
	p, ok := ix.(*ssa.Phi)
	if !ok || len(p.Edges) < 2 {
		return sweep{}
	}
	s := sweep{head: p.Block()}
	var start ssa.Value
	for i, e := range p.Edges {
		if p.Block().Dominates(p.Block().Preds[i]) {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != p {
				return sweep{}
			}
			k, ok := constInt(b.Y)
			if b.Op == token.SUB {
				k = -k
			}
			if !ok || (k != 1 && k != -1) || s.step != 0 && s.step != k {
				return sweep{}
			}
			s.step = k
		} else if start != nil && start != e {
			return sweep{}
		} else {
			start = e
		}
	}
	i, ok := p.Block().Instrs[len(p.Block().Instrs)-1].(*ssa.If)
	if !ok || start == nil || s.step == 0 {
		return sweep{}
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return sweep{}
	}
	// the compared value as phi + off
	off := int64(0)
	cv := c.X
	if b, ok := cv.(*ssa.BinOp); ok && b.X == p {
		k, ok := constInt(b.Y)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return sweep{}
		}
		if b.Op == token.SUB {
			k = -k
		}
		off, cv = k, p
	}
	if cv != p {
		return sweep{}
	}
	if s.step == 1 {
		k, ok := constInt(start)
		n, ok2 := q.lenPlus(c.Y)
		if !ok || !ok2 {
			return sweep{}
		}
		switch c.Op {
		case token.LSS, token.NEQ:
			n--
		case token.LEQ:
		default:
			return sweep{}
		}
		s.lo, s.hi = k+add, n-off+add
		s.ok = true
		return s
	}
	n, ok := q.lenPlus(start)
	k, ok2 := constInt(c.Y)
	if !ok || !ok2 {
		return sweep{}
	}
	switch c.Op {
	case token.GTR:
		k++
	case token.GEQ:
	default:
		return sweep{}
	}
	s.lo, s.hi = k-off+add, n+add
	s.ok = true
	return s
}

func (q *rebuildRule) judge(m *ssa.MakeMap) {
	r, w := q.r, q.w
	fn := m.Parent()
	undecided := func(why string) {
		r.Counts["rebuilds not understood"]++
		r.ok("rebuild not understood: " + why)
	}
	var ups []*ssa.MapUpdate
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.MapUpdate:
				if x.Map != v {
					return false
				}
				ups = append(ups, x)
			case *ssa.ChangeType:
				if !visit(x) {
					return false
				}
			case *ssa.Phi, *ssa.Lookup, *ssa.Return, *ssa.DebugRef:
			case *ssa.Store:
				if x.Val != v {
					return false
				}
				if _, ok := x.Addr.(*ssa.FieldAddr); !ok {
					return false
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if !visit(m) || len(ups) != 1 {
		undecided(fnName(fn))
		return
	}
	u := ups[0]
	ix, ok := q.element(u.Value)
	var s sweep
	if ok {
		s = q.sweepOf(ix)
	}
	if !ok || !s.ok {
		undecided(fnName(fn))
		return
	}
	r.Counts["rebuilds"]++
	key := "rebuild|" + fnName(fn) + "|"
	at := w.pos(instrPos(u))
	r.check(s.lo <= 0 && s.hi >= -1, key+"range", at, fmt.Sprintf("the rebuilt map covers the elements from %d to the length%+d only", s.lo, s.hi))
	if call, ok := u.Key.(*ssa.Call); ok {
		if f := call.Call.StaticCallee(); f != nil && f.Name() == "Key" && recvName(f) == "Element" {
			if kx, ok := q.element(call.Call.Args[0]); ok {
				r.check(kx == ix, key+"key", at, "an element is stored under the key of another")
			}
		}
	}
	// the blocks of the loop
	in := map[*ssa.BasicBlock]bool{s.head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for i, p := range s.head.Preds {
		if s.head.Dominates(p) {
			_ = i
			back(p)
		}
	}
	early := false
	for b := range in {
		if b == s.head {
			continue
		}
		for _, t := range b.Succs {
			if !in[t] {
				if _, pan := t.Instrs[len(t.Instrs)-1].(*ssa.Panic); !pan {
					early = true
				}
			}
		}
	}
	r.check(!early, key+"early", at, "the rebuild can stop before the last element")
	firstWins := false
	skips := false
	for b := u.Block(); b != nil && b != s.head; b = b.Idom() {
		d := b.Idom()
		if d == nil || !in[d] || d == s.head {
			break
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		thenIn, elseIn := reaches(d.Succs[0], u.Block(), s.head), reaches(d.Succs[1], u.Block(), s.head)
		if thenIn && elseIn {
			continue
		}
		cond, truth := i.Cond, thenIn
		for {
			n, ok := cond.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}
			cond, truth = n.X, !truth
		}
		switch c := cond.(type) {
		case *ssa.Extract:
			if l, ok := c.Tuple.(*ssa.Lookup); ok && l.CommaOk && c.Index == 1 && !truth {
				firstWins = true
				continue
			}
		case *ssa.Lookup:
			if !truth {
				firstWins = true
				continue
			}
		case *ssa.BinOp:
			if isNilConst(c.X) || isNilConst(c.Y) {
				if l, ok := stripExtract(c.X).(*ssa.Lookup); ok && l != nil && (c.Op == token.EQL) == truth {
					firstWins = true
				}
				continue
			}
		}
		skips = true
	}
	r.check(!skips, key+"skips", at, "the rebuild leaves out elements for another reason than an earlier one of the same key")
	r.check(firstWins == (s.step > 0), key+"first", at, "of several elements with one key the rebuilt map does not keep the first, which is the one a lookup finds")
}

func stripExtract(v ssa.Value) ssa.Value {
	if x, ok := v.(*ssa.Extract); ok {
		return x.Tuple
	}
	return v
}

// reaches: a path from b to t that does not pass through stop
func reaches(b, t, stop *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var go1 func(b *ssa.BasicBlock) bool
	go1 = func(b *ssa.BasicBlock) bool {
		if b == t {
			return true
		}
		if b == stop || seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if go1(s) {
				return true
			}
		}
		return false
	}
	return go1(b)
}
