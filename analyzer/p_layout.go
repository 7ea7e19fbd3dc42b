package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The writing side of the BSON layout: every typed constructor and encoder is compared, write by write, with
// the layout of its type.

// lcontent is what a field of the layout must hold.
type lcontent struct {
	kind string // "const", "param", "f64", "dec", "lin", "any"
	n    int64
	arg  int               // parameter (after key / writer)
	lin  func(c *Ctx) *Lin // for "lin"
	zero bool              // const 0
}

type lfield struct {
	name string
	kind string // "byte", "le32", "le64", "bytes"
	size *Lin
	off  *Lin
	want lcontent
	done []weffect // writes that fill it exactly
	part int64     // bytes of it written by narrower stores
}

type weffect struct {
	fr   *Frame
	in   ssa.Instruction
	kind string
	dst  ssa.Value
	idx  ssa.Value // byte stores
	val  ssa.Value
}

type pv struct {
	fr *Frame
	v  ssa.Value
}

// soleStore: the only value ever stored to the variable, when its address goes nowhere but to loads,
// reinterpreting conversions and slicing
func soleStore(a *ssa.Alloc) ssa.Value {
	var out ssa.Value
	n := 0
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return true
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v || v != ssa.Value(a) {
					return false
				}
				n++
				out = x.Val
			case *ssa.Convert:
				if !walk(x) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef, *ssa.Slice, *ssa.IndexAddr, *ssa.FieldAddr:
			default:
				return false
			}
		}
		return true
	}
	if walk(a) && n == 1 {
		return out
	}
	return nil
}

func stripPtr(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// peel follows a value back to where it came from without changing its bits
func (e *Engine) peel(c *Ctx, fr *Frame, v ssa.Value) pv {
	for i := 0; i < 40; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			a, ok := e.param(fr, x)
			if !ok {
				return pv{fr, v}
			}
			fr, v = a.fr, a.v
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			if !isInt(x.Type()) || !isInt(x.X.Type()) || stdSizes.Sizeof(x.Type()) != stdSizes.Sizeof(x.X.Type()) {
				if b1, b2 := isByteish(x.Type()), isByteish(x.X.Type()); b1 && b2 {
					v = x.X
					continue
				}
				return pv{fr, v}
			}
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return pv{fr, v}
			}
			if al, ok := stripPtr(x.X).(*ssa.Alloc); ok {
				if s := soleStore(al); s != nil {
					if stdSizes.Sizeof(s.Type()) == stdSizes.Sizeof(x.Type()) {
						v = s
						continue
					}
					return pv{fr, v}
				}
			}
			rv, rf, _, _ := e.load(c, fr, x.X, x)
			if rv == nil {
				return pv{fr, v}
			}
			fr, v = rf, rv
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil {
				if s := soleStore(al); s != nil {
					v = s
					continue
				}
			}
			return pv{fr, v}
		case *ssa.Phi:
			ix, ok := e.phiChoice(c, fr, x.Block())
			if !ok || ix >= len(x.Edges) {
				return pv{fr, v}
			}
			v = x.Edges[ix]
		case *ssa.Extract:
			call, ok := x.Tuple.(*ssa.Call)
			if !ok || strings.HasSuffix(calleeFull(&call.Call), "Decimal128).GetBytes") {
				return pv{fr, v}
			}
			rv, rf, _ := e.callResult(c, fr, call, x.Index)
			if rv == nil {
				return pv{fr, v}
			}
			fr, v = rf, rv
		case *ssa.Call:
			rv, rf, _ := e.callResult(c, fr, x, 0)
			if rv == nil {
				return pv{fr, v}
			}
			fr, v = rf, rv
		case *ssa.Field:
			rv, rf, _, _ := e.loadField(c, fr, x)
			if rv == nil {
				return pv{fr, v}
			}
			fr, v = rf, rv
		default:
			return pv{fr, v}
		}
	}
	return pv{fr, v}
}

// settled: every part of the expression is understood; none of it depends on a choice not yet made
func (e *Engine) settled(l *Lin) bool {
	for s := range l.t {
		if ok, _ := e.settledAtom(e.atoms[s], 0); !ok {
			return false
		}
	}
	return true
}

// settledAtom: the symbol is an input, a length of one, or the result of a call out of the repository (ext)
func (e *Engine) settledAtom(a *Atom, depth int) (ok, ext bool) {
	if depth > 6 {
		return false, false
	}
	if sp := a.split; sp != nil {
		if sp.call == nil {
			return false, false
		}
		t := sp.call.Common().StaticCallee()
		return t != nil && !inRepo(fnPkg(topFn(t))), true
	}
	switch {
	case strings.HasPrefix(a.key, "conv:"), strings.HasPrefix(a.key, "ar:"):
		// something that may wrap counts only when it was computed by a call we know nothing about
		for _, d := range a.deps {
			o, x := e.settledAtom(e.atoms[d], depth+1)
			if !o {
				return false, false
			}
			ext = ext || x
		}
		return ext, ext
	case strings.HasPrefix(a.key, "len:S"), strings.HasPrefix(a.key, "len:L:"), strings.HasPrefix(a.key, "le"):
		return true, false
	case strings.HasPrefix(a.key, "v:"):
		switch x := a.val.(type) {
		case *ssa.Phi:
			return false, false
		case *ssa.Call:
			t := x.Call.StaticCallee()
			_, bi := x.Call.Value.(*ssa.Builtin)
			return t != nil && !inRepo(fnPkg(topFn(t))), !bi
		}
		return true, false
	}
	return false, false
}

// wrongCase: in some case the code distinguishes, the expression is not zero
func (e *Engine) wrongCase(c *Ctx, fr *Frame, blk *ssa.BasicBlock, diff goalFn, depth int) bool {
	d := diff(c)
	if d == nil || depth == 0 {
		return false
	}
	feasible := func() bool { return !e.prove(c, fr, blk, func(*Ctx) *Lin { return nil }) }
	if n, ok := d.constVal(); ok {
		return n != 0 && feasible()
	}
	neg := func(c2 *Ctx) *Lin { return diff(c2).scale(-1) }
	pos, min := e.prove(c, fr, blk, diff), e.prove(c, fr, blk, neg)
	if pos && min {
		return false
	}
	var syms []int
	for s := range d.t {
		syms = append(syms, int(s))
	}
	sort.Ints(syms)
	for _, s := range syms {
		a := e.atoms[s]
		if a.split == nil || a.split.loop {
			continue
		}
		if a.split.call == nil && len(e.loopHeaders(a.split.fr.fn)) > 0 {
			return false
		}
		for _, n := range e.cases(c, a.split) {
			if e.wrongCase(n, fr, blk, diff, depth-1) {
				return true
			}
		}
		if len(e.cases(c, a.split)) > 0 {
			return false
		}
	}
	if e.settled(d) ||
		pos && e.prove(c, fr, blk, func(c2 *Ctx) *Lin { return diff(c2).addC(-1) }) ||
		min && e.prove(c, fr, blk, func(c2 *Ctx) *Lin { return neg(c2).addC(-1) }) {
		return feasible()
	}
	return false
}

// three-way comparison of two expressions: 1 equal, -1 different, 0 not known
func (e *Engine) cmp3(fr *Frame, blk *ssa.BasicBlock, diff goalFn) int {
	pos := e.prove(newCtx(), fr, blk, diff)
	neg := e.prove(newCtx(), fr, blk, func(c *Ctx) *Lin { return diff(c).scale(-1) })
	if pos && neg {
		return 1
	}
	if pos && e.prove(newCtx(), fr, blk, func(c *Ctx) *Lin { return diff(c).addC(-1) }) ||
		neg && e.prove(newCtx(), fr, blk, func(c *Ctx) *Lin { return diff(c).scale(-1).addC(-1) }) {
		return -1
	}
	if e.wrongCase(newCtx(), fr, blk, diff, 6) {
		return -1
	}
	return 0
}

type layoutAn struct {
	w *World
	r *Report
	e *Engine
}

// effects collects every write to bytes made by the frame's function and what it calls
func (a *layoutAn) effects(fr *Frame, out *[]weffect, unknown *[]ssa.Instruction, depth int) {
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isByteSlice(ia.X.Type()) {
					*out = append(*out, weffect{fr, in, "byte", ia.X, ia.Index, x.Val})
				}
			case *ssa.Call:
				full := calleeFull(&x.Call)
				args := x.Call.Args
				switch {
				case full == "builtin.copy":
					if isByteSlice(args[0].Type()) {
						*out = append(*out, weffect{fr, in, "bytes", args[0], nil, args[1]})
					}
				case strings.HasPrefix(full, "(encoding/binary.") && strings.Contains(full, "ndian).Put"):
					k := "le"
					if strings.Contains(full, "bigEndian") {
						k = "be"
					}
					*out = append(*out, weffect{fr, in, k + full[strings.LastIndex(full, "t")+1:], args[1], nil, args[2]})
				default:
					fn := x.Call.StaticCallee()
					if fn != nil && a.w.bodyOf(fn) && inRepo(fnPkg(topFn(fn))) && !fr.inChain(fn) && depth < 6 {
						a.effects(a.e.child(fr, x, fn), out, unknown, depth+1)
						continue
					}
					if _, bi := x.Call.Value.(*ssa.Builtin); bi {
						continue
					}
					for _, g := range args {
						if isByteSlice(g.Type()) {
							*unknown = append(*unknown, in)
						}
					}
				}
			case ssa.CallInstruction:
				for _, g := range x.Common().Args {
					if isByteSlice(g.Type()) {
						*unknown = append(*unknown, in)
					}
				}
			}
		}
	}
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if _, named := s.Elem().(*types.Named); named {
		return false
	}
	k, ok := basicKind(s.Elem())
	return ok && (k == types.Byte || k == types.Uint8)
}

// lwriter is one constructor or encoder under one case of its arguments.
type lwriter struct {
	a      *layoutAn
	fn     *ssa.Function
	fr     *Frame
	name   string
	key    ssa.Value // nil: the empty key
	hdr    bool
	tag    int64
	args   []*ssa.Parameter
	writer *ssa.Parameter // elements
	start  *ssa.Parameter
	fields []*lfield
	total  *Lin
	doc    int // value.d: -1 nil, else the argument
	root   string
	fresh  bool
}

func (l *lwriter) add(name, kind string, size *Lin, want lcontent) {
	l.fields = append(l.fields, &lfield{name: name, kind: kind, size: size, off: l.total, want: want})
	l.total = l.total.add(size)
}

func (l *lwriter) argLen(i int) *Lin { return l.a.e.evS(newCtx(), l.fr, l.args[i]).len }

func (l *lwriter) str(i int, name string) {
	n := l.argLen(i)
	l.add(name+" length", "le32", linConst(4), lcontent{kind: "lin", lin: func(*Ctx) *Lin { return n.addC(1) }})
	l.cstr(i, name)
}

func (l *lwriter) cstr(i int, name string) {
	l.add(name, "bytes", l.argLen(i), lcontent{kind: "param", arg: i})
	l.add(name+" terminator", "byte", linConst(1), lcontent{kind: "const"})
}

// payload describes the layout of the type's value
func (l *lwriter) payload(t string, variant string) bool {
	l.doc = -1
	p := func(i int) lcontent { return lcontent{kind: "param", arg: i} }
	switch t {
	case "Double":
		l.add("float bits", "le64", linConst(8), lcontent{kind: "f64", arg: 0})
	case "String", "JavaScript", "Symbol":
		l.str(0, "string")
	case "DocBytes":
		l.add("document", "bytes", l.argLen(0), p(0))
	case "DocPtr":
		l.doc = 0
	case "Binary":
		n := l.argLen(0)
		sub := p(1)
		if len(l.args) < 2 {
			sub = lcontent{kind: "const"}
		}
		switch variant {
		case "old":
			l.add("length", "le32", linConst(4), lcontent{kind: "lin", lin: func(*Ctx) *Lin { return n.addC(4) }})
			l.add("subtype", "byte", linConst(1), lcontent{kind: "const", n: 2})
			l.add("inner length", "le32", linConst(4), lcontent{kind: "lin", lin: func(*Ctx) *Lin { return n }})
		default:
			l.add("length", "le32", linConst(4), lcontent{kind: "lin", lin: func(*Ctx) *Lin { return n }})
			l.add("subtype", "byte", linConst(1), sub)
		}
		l.add("data", "bytes", n, p(0))
	case "Empty":
	case "ObjectID":
		l.add("object id", "bytes", linConst(12), p(0))
	case "Boolean":
		n := int64(0)
		if variant == "true" {
			n = 1
		}
		l.add("boolean", "byte", linConst(1), lcontent{kind: "const", n: n})
	case "Int64":
		l.add("int64", "le64", linConst(8), p(0))
	case "Time":
		l.add("milliseconds", "le64", linConst(8), lcontent{kind: "millis", arg: 0})
	case "Regex":
		l.cstr(0, "pattern")
		l.cstr(1, "options")
	case "DBPointer":
		l.str(0, "namespace")
		l.add("object id", "bytes", linConst(12), p(1))
	case "CodeWithScope": // elements: code, scope bytes
		n, m := l.argLen(0), l.argLen(1)
		l.add("length", "le32", linConst(4), lcontent{kind: "lin", lin: func(*Ctx) *Lin { return n.add(m).addC(9) }})
		l.str(0, "code")
		l.add("scope", "bytes", m, p(1))
	case "CodeWithScopeDoc": // constructors: the length and scope are filled in when the element is encoded
		l.add("length", "le32", linConst(4), lcontent{kind: "any"})
		l.str(0, "code")
		l.doc = 1
	case "Int32":
		l.add("int32", "le32", linConst(4), p(0))
	case "Timestamp":
		l.add("increment", "le32", linConst(4), p(1))
		l.add("seconds", "le32", linConst(4), p(0))
	case "Decimal128":
		l.add("low half", "le64", linConst(8), lcontent{kind: "dec", arg: 0, n: 1})
		l.add("high half", "le64", linConst(8), lcontent{kind: "dec", arg: 0, n: 0})
	case "CString":
		l.cstr(0, "string")
	case "Byte":
		l.add("byte", "byte", linConst(1), p(0))
	default:
		return false
	}
	return true
}

// content: is v what the field must hold? 1 yes, -1 no, 0 not known
func (l *lwriter) content(f *lfield, w weffect) (int, string) {
	e := l.a.e
	switch f.want.kind {
	case "any":
		return 1, ""
	case "const":
		n := f.want.n
		return e.cmp3(w.fr, w.in.Block(), func(c *Ctx) *Lin { return l.word(c, w).addC(-n) }), fmt.Sprint("not the constant ", n)
	case "lin":
		return e.cmp3(w.fr, w.in.Block(), func(c *Ctx) *Lin { return l.word(c, w).sub(f.want.lin(c)) }), "not the length of what follows"
	}
	p := e.peel(newCtx(), w.fr, w.val)
	if p.v == nil {
		return 0, ""
	}
	var want *ssa.Parameter
	kind := f.want.kind
	if f.want.kind == "key" {
		want, _ = l.key.(*ssa.Parameter)
		kind = "param"
	} else if f.want.arg < len(l.args) {
		want = l.args[f.want.arg]
	}
	if want == nil {
		return 0, ""
	}
	root := func(v pv) bool { return v.fr == l.fr && v.v == ssa.Value(want) }
	switch kind {
	case "param":
		if root(p) {
			return 1, ""
		}
		if q, ok := p.v.(*ssa.Parameter); ok && p.fr == l.fr && q != want {
			return -1, "holds " + q.Name() + " instead of " + want.Name()
		}
		if f.kind == "bytes" {
			g, x := e.evS(newCtx(), w.fr, w.val), e.evS(newCtx(), l.fr, want)
			if isSliceT(want.Type()) || isStr(want.Type()) {
				if g.root == x.root && g.sp == nil {
					return e.cmp3(w.fr, w.in.Block(), func(c *Ctx) *Lin { return e.evS(c, w.fr, w.val).off.sub(x.off) }), "not the whole of " + want.Name()
				}
				if strings.HasPrefix(g.root, "cv:"+x.root+"+") {
					return 1, ""
				}
			}
			return 0, ""
		}
		if isInt(want.Type()) {
			d := e.cmp3(w.fr, w.in.Block(), func(c *Ctx) *Lin { return l.word(c, w).sub(e.ev(c, l.fr, want)) })
			return d, "not the value of " + want.Name()
		}
		return 0, ""
	case "f64":
		if root(p) {
			return 1, ""
		}
		switch x := p.v.(type) {
		case *ssa.Call:
			if calleeFull(&x.Call) == "math.Float64bits" {
				q := e.peel(newCtx(), p.fr, x.Call.Args[0])
				if root(q) {
					return 1, ""
				}
			}
			return 0, ""
		case *ssa.Convert:
			if isFloat(x.X.Type()) && isInt(x.Type()) {
				return -1, "the number is converted instead of its bits being kept"
			}
		case *ssa.Const:
			return -1, "a constant"
		}
		return 0, ""
	case "dec":
		ex, ok := p.v.(*ssa.Extract)
		if !ok {
			return 0, ""
		}
		call := ex.Tuple.(*ssa.Call)
		if !strings.HasSuffix(calleeFull(&call.Call), "Decimal128).GetBytes") || !root(e.peel(newCtx(), p.fr, call.Call.Args[0])) {
			return 0, ""
		}
		if int64(ex.Index) == f.want.n {
			return 1, ""
		}
		return -1, "the other half of the decimal"
	case "millis":
		return l.millis(p, root)
	}
	return 0, ""
}

// word is the number a write stores, whatever signedness its bits were given
func (l *lwriter) word(c *Ctx, w weffect) *Lin {
	p := l.a.e.peel(c, w.fr, w.val)
	return l.a.e.ev(c, p.fr, p.v)
}

// millis: milliseconds since the epoch
func (l *lwriter) millis(p pv, root func(pv) bool) (int, string) {
	var terms func(fr *Frame, v ssa.Value) map[string]int64
	e := l.a.e
	terms = func(fr *Frame, v ssa.Value) map[string]int64 {
		q := e.peel(newCtx(), fr, v)
		switch x := q.v.(type) {
		case *ssa.Const:
			n, ok := e.ev(newCtx(), q.fr, x).constVal()
			if !ok {
				return nil
			}
			return map[string]int64{"": n}
		case *ssa.Convert:
			if isInt(x.Type()) && isInt(x.X.Type()) {
				return terms(q.fr, x.X)
			}
		case *ssa.Call:
			full := calleeFull(&x.Call)
			if strings.HasPrefix(full, "(time.Time).") {
				if q2 := e.peel(newCtx(), q.fr, x.Call.Args[0]); root(q2) {
					return map[string]int64{strings.TrimPrefix(full, "(time.Time)."): 1}
				}
			}
		case *ssa.BinOp:
			a, b := terms(q.fr, x.X), terms(q.fr, x.Y)
			if a == nil || b == nil {
				return nil
			}
			num := func(m map[string]int64) (int64, bool) { n, ok := m[""]; return n, ok && len(m) == 1 }
			one := func(m map[string]int64) string {
				for k, n := range m {
					if len(m) == 1 && n == 1 && k != "" {
						return k
					}
				}
				return ""
			}
			switch x.Op {
			case token.ADD, token.SUB:
				out := map[string]int64{}
				for k, n := range a {
					out[k] += n
				}
				for k, n := range b {
					if x.Op == token.SUB {
						n = -n
					}
					out[k] += n
				}
				for k, n := range out {
					if n == 0 {
						delete(out, k)
					}
				}
				return out
			case token.MUL:
				if n, ok := num(a); ok {
					a, b = b, a
					_ = n
				}
				if n, ok := num(b); ok {
					out := map[string]int64{}
					for k, m := range a {
						out[k] = m * n
					}
					return out
				}
			case token.QUO, token.REM:
				if n, ok := num(b); ok {
					if k := one(a); k != "" {
						return map[string]int64{fmt.Sprintf("%s%s%d", k, x.Op, n): 1}
					}
				}
			}
		}
		return nil
	}
	m := terms(p.fr, p.v)
	if m == nil {
		return 0, ""
	}
	if len(m) == 1 && m["UnixMilli"] == 1 || len(m) == 2 && m["Unix"] == 1000 && m["Nanosecond/1000000"] == 1 {
		return 1, ""
	}
	return -1, "not the milliseconds since the epoch"
}

// judge compares every write with the layout.
func (l *lwriter) judge() {
	a, e, r := l.a, l.a.e, l.a.r
	var all []weffect
	var unknown []ssa.Instruction
	a.effects(l.fr, &all, &unknown, 0)
	undecided := len(unknown) > 0
	for _, w := range all {
		sv := e.evS(newCtx(), w.fr, w.dst)
		if sv.root != l.root {
			if sv.sp != nil {
				undecided = true
			}
			continue
		}
		// not on a path this case takes
		if e.prove(ctxAt(w.in), w.fr, w.in.Block(), func(*Ctx) *Lin { return nil }) {
			continue
		}
		at := func(c *Ctx) *Lin {
			o := e.evS(c, w.fr, w.dst).off
			if w.idx != nil {
				o = o.add(e.ev(c, w.fr, w.idx))
			}
			return o
		}
		pos := a.w.pos(instrPos(w.in))
		key := fmt.Sprintf("%s|%s|%s", l.name, fnName(w.fr.fn), a.w.srcLine(instrPos(w.in)))
		var hit *lfield
		inside, allDiff := false, true
		for _, f := range l.fields {
			c3 := e.cmp3(w.fr, w.in.Block(), func(c *Ctx) *Lin { return at(c).sub(f.off) })
			if c3 == 1 && (f.kind == w.kind || hit == nil) {
				// zero-length fields share an offset with what follows
				if hit == nil || f.kind == w.kind && hit.kind != w.kind {
					hit = f
				}
			}
			if c3 != -1 {
				allDiff = false
			}
			if c3 != 1 && (f.kind == "le32" || f.kind == "le64") &&
				e.prove(ctxAt(w.in), w.fr, w.in.Block(), func(c *Ctx) *Lin { return at(c).sub(f.off) }) &&
				e.prove(ctxAt(w.in), w.fr, w.in.Block(), func(c *Ctx) *Lin { return f.off.add(f.size).sub(at(c)).addC(-1) }) {
				inside = true
				f.part += map[string]int64{"byte": 1, "le32": 4}[w.kind]
			}
		}
		switch {
		case hit == nil && inside:
			undecided = true
		case hit == nil && allDiff:
			r.fail("place|"+key, pos, fmt.Sprintf("%s: this write lands where the layout of the type has nothing beginning", l.name))
		case hit == nil:
			undecided = true
			if trace() {
				fmt.Println("place?", l.name, pos, e.show(at(newCtx())))
				if os.Getenv("AN_TRACE") == l.name {
					e.Dump = true
					f := l.fields[len(l.fields)-1]
					e.prove(ctxAt(w.in), w.fr, w.in.Block(), func(c *Ctx) *Lin { return at(c).sub(f.off) })
					e.Dump = false
				}
			}
		case hit.kind == w.kind:
			got, why := l.content(hit, w)
			switch {
			case got < 0:
				r.fail("content|"+key+"|"+hit.name, pos, fmt.Sprintf("%s: the %s written here is wrong: %s", l.name, hit.name, why))
				hit.done = append(hit.done, w)
			case got == 0:
				r.Counts["contents not understood"]++
				if trace() {
					fmt.Println("content?", l.name, hit.name, pos)
				}
				hit.done = append(hit.done, w)
			default:
				r.ok(fmt.Sprintf("%s: %s written by %s at %s", l.name, hit.name, fnName(w.fr.fn), pos))
				hit.done = append(hit.done, w)
			}
		case hit.kind == "le32" && w.kind == "be32" || hit.kind == "le64" && w.kind == "be64":
			r.fail("order|"+key, pos, fmt.Sprintf("%s: the %s is written big-endian", l.name, hit.name))
		case w.kind == "le32" && hit.kind == "le64" || w.kind == "byte" && hit.kind != "bytes":
			hit.part += map[string]int64{"byte": 1, "le32": 4}[w.kind]
		default:
			undecided = true
		}
	}
	for _, f := range l.fields {
		if len(f.done) > 0 {
			if !l.covered(l.fr, f.done, f.size) {
				w := f.done[0]
				r.fail(fmt.Sprintf("skipped|%s|%s", l.name, f.name), a.w.pos(instrPos(w.in)), fmt.Sprintf("%s: a path returns success without writing the %s", l.name, f.name))
			}
			continue
		}
		if f.want.kind == "const" && f.want.n == 0 && l.fresh {
			continue
		}
		if n, ok := f.size.constVal(); ok && n == 0 {
			continue
		}
		if f.part > 0 {
			n, _ := f.size.constVal()
			if !undecided && f.part < n {
				r.fail(fmt.Sprintf("short|%s|%s", l.name, f.name), a.w.pos(l.fn.Pos()), fmt.Sprintf("%s: only %d of the %d bytes of the %s are written", l.name, f.part, n, f.name))
			} else {
				r.Counts["contents not understood"]++
			}
			continue
		}
		if undecided {
			r.Counts["fields not found"]++
			if trace() {
				fmt.Println("field?", l.name, f.name)
			}
			continue
		}
		r.fail(fmt.Sprintf("missing|%s|%s", l.name, f.name), a.w.pos(l.fn.Pos()), fmt.Sprintf("%s: the %s is never written", l.name, f.name))
	}
}

// covered: no path of the frame's function returns success without one of the writes
func (l *lwriter) covered(fr *Frame, ws []weffect, size *Lin) bool {
	e := l.a.e
	covers := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			for _, w := range ws {
				if w.fr == fr && w.in == in {
					return true
				}
			}
			if call, ok := in.(*ssa.Call); ok {
				fn := call.Call.StaticCallee()
				if fn == nil || !l.a.w.bodyOf(fn) || fr.inChain(fn) {
					continue
				}
				ch := e.child(fr, call, fn)
				for _, w := range ws {
					for x := w.fr; x != nil; x = x.parent {
						if x == ch && l.covered(ch, ws, size) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if covers(b) {
			return true
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return l.onSuccess(fr, ret, func(*Ctx) *Lin { return size.scale(-1) })
		}
		for _, s := range b.Succs {
			e.budget, e.steps = 2000, 0
			if len(b.Succs) > 1 && e.proveEdge(newCtx(), fr, b, s, func(*Ctx) *Lin { return nil }, 8) {
				continue
			}
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(fr.fn.Blocks[0])
}

// onSuccess: the goal holds whenever this return reports no error
func (l *lwriter) wrongOnSuccess(ret *ssa.Return, diff goalFn) bool {
	e := l.a.e
	saved := e.assume
	defer func() { e.assume = saved }()
	e.assume = l.successful(l.fr, ret)
	return e.wrongCase(newCtx(), l.fr, ret.Block(), diff, 6)
}

// successful: the hypothesis that the errors returned here are nil
func (l *lwriter) successful(fr *Frame, ret *ssa.Return) func(*Ctx) []fact {
	e := l.a.e
	saved := e.assume
	out := saved
	for _, v := range ret.Results {
		if isErrT(v.Type()) {
			out = func(c *Ctx) []fact {
				var fs []fact
				if saved != nil {
					fs = saved(c)
				}
				return append(append([]fact{}, fs...), fact{l: e.ev(c, fr, v).scale(-1)})
			}
		}
	}
	return out
}

func (l *lwriter) onSuccess(fr *Frame, ret *ssa.Return, goal goalFn) bool {
	e := l.a.e
	saved := e.assume
	defer func() { e.assume = saved }()
	e.assume = l.successful(fr, ret)
	return e.prove(newCtx(), fr, ret.Block(), goal) || e.prove(newCtx(), fr, ret.Block(), func(*Ctx) *Lin { return nil })
}

type lspec struct {
	name    string
	payload string
	tag     int64
}

var elementSpecs = []lspec{
	{"DoubleNS", "Double", 0x01}, {"StringNS", "String", 0x02}, {"DocumentNS", "DocBytes", 0x03}, {"ArrayNS", "DocBytes", 0x04},
	{"BinNS", "Binary", 0x05}, {"ObjectIDNS", "ObjectID", 0x07}, {"BooleanNS", "Boolean", 0x08}, {"DatetimeNS", "Int64", 0x09},
	{"RegexNS", "Regex", 0x0B}, {"DBPointerNS", "DBPointer", 0x0C}, {"JavaScriptNS", "JavaScript", 0x0D}, {"SymbolNS", "Symbol", 0x0E},
	{"CodeWithScopeNS", "CodeWithScope", 0x0F}, {"Int32NS", "Int32", 0x10}, {"TimestampNS", "Timestamp", 0x11}, {"Int64NS", "Int64", 0x12},
	{"Decimal128NS", "Decimal128", 0x13}, {"CStringNS", "CString", -1}, {"BSONByteNS", "Byte", -1},
}

var ctorSpecs = []lspec{
	{"Double", "Double", 0x01}, {"String", "String", 0x02}, {"SubDocument", "DocPtr", 0x03}, {"SubDocumentFromReader", "DocBytes", 0x03},
	{"Document", "DocPtr", 0x03}, {"DocumentFromReader", "DocBytes", 0x03}, {"Array", "DocPtr", 0x04},
	{"Binary", "Binary", 0x05}, {"BinaryWithSubtype", "Binary", 0x05}, {"Undefined", "Empty", 0x06}, {"ObjectID", "ObjectID", 0x07},
	{"Boolean", "Boolean", 0x08}, {"DateTime", "Int64", 0x09}, {"Time", "Time", 0x09}, {"Null", "Empty", 0x0A}, {"Regex", "Regex", 0x0B},
	{"DBPointer", "DBPointer", 0x0C}, {"JavaScript", "JavaScript", 0x0D}, {"Symbol", "Symbol", 0x0E}, {"CodeWithScope", "CodeWithScopeDoc", 0x0F},
	{"Int32", "Int32", 0x10}, {"Timestamp", "Timestamp", 0x11}, {"Int64", "Int64", 0x12}, {"Decimal128", "Decimal128", 0x13},
	{"MinKey", "Empty", 0xFF}, {"MaxKey", "Empty", 0x7F},
}

func trace() bool { return traceOn }

var traceOn = os.Getenv("AN_TRACE") != ""

func checkLayout(w *World, r *Report) {
	r.Rule = "every byte a typed constructor (EC.*, VC.*) or encoder (elements.*) writes is compared with the BSON layout of its type: each store, fixed-width write and copy into the destination is located by its offset (proved equal to the offset of one field of the layout, or reported), its content is traced to the parameter, length or constant the field must hold, every path that returns success passes a write of every field, and the size, the offsets recorded in the value and the returned count equal those of the layout"
	r.Assumptions = append(r.Assumptions, "byte slices and strings are shorter than 1 GiB", "64-bit int")
	var jobs []func(a *layoutAn)
	for _, f := range w.Funcs {
		if f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		rn := recvName(f)
		switch {
		case inPkg(f, elementsPath):
			for _, s := range elementSpecs {
				if s.name == rn && (f.Name() == "Encode" || f.Name() == "Element") {
					jobs = append(jobs, func(a *layoutAn) { a.encoder(f, s) })
				}
			}
		case inPkg(f, modPath) && (rn == "ElementConstructor" || rn == "ValueConstructor"):
			for _, s := range ctorSpecs {
				if s.name == f.Name() {
					jobs = append(jobs, func(a *layoutAn) { a.constructor(f, s, rn == "ElementConstructor") })
				}
			}
		}
	}
	r.inParallel(len(jobs), func(i int, sub *Report) { jobs[i](&layoutAn{w: w, r: sub}) })
	r.min("encoders and constructors", 40)
	r.min("layouts compared", 30)
}

func (a *layoutAn) variants(payload string, args []*ssa.Parameter) []string {
	switch payload {
	case "Binary":
		if len(args) > 1 {
			return []string{"old", "other"}
		}
	case "Boolean":
		return []string{"true", "false"}
	}
	return []string{""}
}

func (l *lwriter) assume(variant string) {
	e := l.a.e
	e.assume = nil
	switch variant {
	case "old":
		e.assume = func(c *Ctx) []fact {
			d := e.ev(c, l.fr, l.args[1]).addC(-2)
			return []fact{{l: d}, {l: d.scale(-1)}}
		}
	case "other":
		e.assume = func(c *Ctx) []fact { return []fact{{l: e.ev(c, l.fr, l.args[1]).addC(-2), ne: true}} }
	case "true":
		e.assume = func(c *Ctx) []fact { return []fact{{l: e.ev(c, l.fr, l.args[0]).addC(-1)}} }
	case "false":
		e.assume = func(c *Ctx) []fact { return []fact{{l: e.ev(c, l.fr, l.args[0]).scale(-1)}} }
	}
}

func (l *lwriter) header(key ssa.Value, tag int64) {
	l.add("type byte", "byte", linConst(1), lcontent{kind: "const", n: tag})
	if key != nil {
		n := l.a.e.evS(newCtx(), l.fr, key).len
		l.add("key", "bytes", n, lcontent{kind: "key"})
	}
	l.add("key terminator", "byte", linConst(1), lcontent{kind: "const"})
}

func (a *layoutAn) encoder(f *ssa.Function, s lspec) {
	a.r.Counts["encoders and constructors"]++
	ps := f.Params[1:]
	hdr := f.Name() == "Element"
	nfix := 2
	if hdr {
		nfix = 3
	}
	if len(ps) < nfix {
		return
	}
	for _, v := range a.variants(s.payload, ps[nfix:]) {
		a.e = newEngine(a.w)
		l := &lwriter{a: a, fn: f, fr: a.e.rootFrame(f), name: fnName(f), start: ps[0], writer: ps[1], args: ps[nfix:]}
		if v != "" {
			l.name += " (" + v + ")"
		}
		l.total = a.e.ev(newCtx(), l.fr, l.start)
		if hdr {
			l.key = ps[2]
			l.header(ps[2], s.tag)
		}
		if !l.payload(s.payload, v) {
			continue
		}
		l.root = a.e.evS(newCtx(), l.fr, l.writer).root
		l.assume(v)
		a.r.Counts["layouts compared"]++
		l.judge()
		// the count
		for _, ret := range returnsOf(f) {
			if len(ret.Results) != 2 {
				continue
			}
			size := l.total.sub(a.e.ev(newCtx(), l.fr, l.start))
			cnt := func(c *Ctx) *Lin { return a.e.ev(c, l.fr, ret.Results[0]).sub(size) }
			if l.onSuccess(l.fr, ret, cnt) && l.onSuccess(l.fr, ret, func(c *Ctx) *Lin { return cnt(c).scale(-1) }) {
				a.r.ok(l.name + ": count")
			} else if l.onSuccess(l.fr, ret, func(c *Ctx) *Lin { return cnt(c).addC(-1) }) || l.onSuccess(l.fr, ret, func(c *Ctx) *Lin { return cnt(c).scale(-1).addC(-1) }) || l.wrongOnSuccess(ret, cnt) {
				a.r.fail("count|"+l.name, a.w.pos(instrPos(ret)), l.name+": the count returned here is not the number of bytes the layout has")
			} else {
				a.r.Counts["contents not understood"]++
			}
		}
	}
}

func (a *layoutAn) constructor(f *ssa.Function, s lspec, elem bool) {
	a.r.Counts["encoders and constructors"]++
	ps := f.Params[1:]
	var key *ssa.Parameter
	if elem {
		key, ps = ps[0], ps[1:]
	}
	for _, v := range a.variants(s.payload, ps) {
		for ri, ret := range returnsOf(f) {
			a.e = newEngine(a.w)
			e := a.e
			l := &lwriter{a: a, fn: f, fr: e.rootFrame(f), name: fnName(f), args: ps, total: linConst(0), fresh: true}
			if v != "" {
				l.name += " (" + v + ")"
			}
			if ri > 0 {
				l.name += fmt.Sprintf(" #%d", ri)
			}
			if key != nil {
				l.key = key
				l.header(key, s.tag)
			} else {
				l.header(nil, s.tag)
			}
			hdr := l.total
			if !l.payload(s.payload, v) {
				continue
			}
			l.assume(v)
			c := newCtx()
			val := e.ev(c, l.fr, ret.Results[0])
			if elem {
				t := a.w.structNamed(modPath, "Element")
				val = e.fieldAt(c, l.fr, ret, val, t, "value").lin(e, c)
			}
			vt := a.w.structNamed(modPath, "Value")
			if val == nil || vt == nil {
				a.r.Counts["constructors not understood"]++
				continue
			}
			data := e.fieldAt(c, l.fr, ret, val, vt, "data")
			if data.v == nil {
				a.r.Counts["constructors not understood"]++
				if trace() {
					fmt.Println("data?", l.name, data.key)
				}
				continue
			}
			sv := e.evS(c, data.fr, data.v)
			if !strings.HasPrefix(sv.root, "mk") {
				a.r.Counts["constructors not understood"]++
				if trace() {
					fmt.Println("data root?", l.name, sv.root)
				}
				continue
			}
			l.root = sv.root
			a.r.Counts["layouts compared"]++
			l.judge()
			eq := func(what string, diff goalFn) {
				switch e.cmp3(l.fr, ret.Block(), diff) {
				case 1:
					a.r.ok(l.name + ": " + what)
				case -1:
					a.r.fail(what+"|"+l.name, a.w.pos(instrPos(ret)), l.name+": the "+what+" is not that of the layout")
				default:
					a.r.Counts["contents not understood"]++
					if trace() {
						fmt.Println("size?", l.name, what, e.show(diff(newCtx())))
					}
				}
			}
			eq("size of the data", func(c *Ctx) *Lin { return e.evS(c, data.fr, data.v).len.sub(l.total) })
			for _, fd := range []struct {
				n    string
				want *Lin
			}{{"start", linConst(0)}, {"offset", hdr}} {
				fl := e.fieldAt(c, l.fr, ret, val, vt, fd.n)
				if x := fl.lin(e, c); x != nil {
					eq(fd.n+" of the value", func(c *Ctx) *Lin { return fl.lin(e, c).sub(fd.want) })
				}
			}
			a.docs(l, ret, c, val, 6)
		}
	}
}

// docs: the document the value keeps, in every case the code distinguishes
func (a *layoutAn) docs(l *lwriter, ret *ssa.Return, c *Ctx, val *Lin, depth int) {
	e := a.e
	d := e.fieldAt(c, l.fr, ret, val, a.w.structNamed(modPath, "Value"), "d")
	if d.v == nil && d.sp != nil && depth > 0 {
		for _, n := range e.cases(c, d.sp) {
			if !e.prove(n, l.fr, ret.Block(), func(*Ctx) *Lin { return nil }) {
				a.docs(l, ret, n, val, depth-1)
			}
		}
		return
	}
	if trace() {
		fmt.Println("doc", l.name, d.v, d.key, d.sp, c.choices)
	}
	if l.doc >= 0 && d.v == nil && d.key == "zero" {
		// leaving a nil document out is the same as keeping it
		if want := l.args[l.doc]; e.prove(c, l.fr, ret.Block(), func(c2 *Ctx) *Lin { return e.ev(c2, l.fr, want).scale(-1) }) {
			return
		}
	}
	a.doc(l, ret, d)
}

// doc: the value keeps the document it was given, and no other
func (a *layoutAn) doc(l *lwriter, ret *ssa.Return, d flookup) {
	e := a.e
	pos := a.w.pos(instrPos(ret))
	if l.doc < 0 {
		if d.v == nil && d.key != "zero" {
			return
		}
		isNil := d.key == "zero"
		if k, ok := d.v.(*ssa.Const); ok && k.Value == nil {
			isNil = true
		}
		a.r.check(isNil, "doc|"+l.name, pos, l.name+": the value carries a document its type does not have")
		return
	}
	want := l.args[l.doc]
	if d.key == "zero" {
		a.r.fail("doc|"+l.name, pos, l.name+": the document is dropped")
		return
	}
	if d.v == nil {
		return
	}
	p := e.peel(newCtx(), d.fr, d.v)
	if p.fr == l.fr && p.v == ssa.Value(want) {
		a.r.ok(l.name + ": keeps its document")
		return
	}
	if u, ok := p.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if q := e.peel(newCtx(), p.fr, fa.X); q.fr == l.fr && q.v == ssa.Value(want) {
				a.r.ok(l.name + ": keeps the document of its array")
				return
			}
		}
	}
	if k, ok := p.v.(*ssa.Const); ok && k.Value == nil {
		a.r.fail("doc|"+l.name, pos, l.name+": the document is dropped")
		return
	}
	a.r.Counts["contents not understood"]++
}

func (w *World) structNamed(pkg, name string) types.Type {
	if p := w.SSA[pkg]; p != nil {
		if t := p.Type(name); t != nil {
			return t.Type()
		}
	}
	return nil
}

type flookup struct {
	fr  *Frame
	v   ssa.Value
	key string
	sp  *splitPt
}

// lin is the content as a number or pointer
func (f flookup) lin(e *Engine, c *Ctx) *Lin {
	if f.v != nil {
		return e.ev(c, f.fr, f.v)
	}
	if f.key == "zero" {
		return linConst(0)
	}
	return nil
}

// fieldAt: what a field of the object at ptr holds when the function returns
func (e *Engine) fieldAt(c *Ctx, fr *Frame, at ssa.Instruction, ptr *Lin, t types.Type, field string) flookup {
	if ptr == nil || t == nil {
		return flookup{}
	}
	class := "F:" + typeKey(t) + "." + field
	s, ok := ptr.soleSym()
	if !ok {
		return flookup{}
	}
	v, f, sp, key := e.resolve(c, fr, class, ptr.key()+"."+field, e.atoms[s], true, e.verBefore(fr.fn, at, class))
	return flookup{f, v, key, sp}
}
