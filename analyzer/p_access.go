package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The reading side of the BSON layout: every typed accessor of a value returns what the layout of its type
// stores, when the type byte is that type's, and refuses every other value.

// abit is one bit of an integer: a constant, a bit of the value's bytes, or not known
type abit struct {
	kind byte // 0, 1, 'd', '?'
	off  *Lin
	n    int
}

type accessAn struct {
	w    *World
	r    *Report
	e    *Engine
	fr   *Frame
	f    *ssa.Function
	name string
	root string
	ptr  *Lin
	off  *Lin
	tag  *Lin
	nilp *Lin
	doc  *Lin // v.d at entry
	once bool // the document is not handed out itself
}

type acase struct {
	tag  int64
	what []string // one per content result
}

type aspec struct {
	name  string
	cases []acase
}

var accessSpecs = []aspec{
	{"Double", []acase{{0x01, []string{"f64"}}}},
	{"StringValue", []acase{{0x02, []string{"str"}}}},
	{"ReaderDocument", []acase{{0x03, []string{"doc"}}}},
	{"MutableDocument", []acase{{0x03, []string{"mdoc"}}}},
	{"ReaderArray", []acase{{0x04, []string{"doc"}}}},
	{"MutableArray", []acase{{0x04, []string{"marr"}}}},
	{"Binary", []acase{{0x05, []string{"subtype", "bin"}}}},
	{"ObjectID", []acase{{0x07, []string{"oid"}}}},
	{"Boolean", []acase{{0x08, []string{"bool"}}}},
	{"DateTime", []acase{{0x09, []string{"int64"}}}},
	{"Time", []acase{{0x09, []string{"time"}}}},
	{"Regex", []acase{{0x0B, []string{"pattern", "options"}}}},
	{"DBPointer", []acase{{0x0C, []string{"str", "oidafter"}}}},
	{"JavaScript", []acase{{0x0D, []string{"str"}}}},
	{"Symbol", []acase{{0x0E, []string{"str"}}}},
	{"ReaderJavaScriptWithScope", []acase{{0x0F, []string{"code", "scope"}}}},
	{"MutableJavaScriptWithScope", []acase{{0x0F, []string{"code", "mscope"}}}},
	{"Int32", []acase{{0x10, []string{"int32"}}}},
	{"Timestamp", []acase{{0x11, []string{"word4", "word0"}}}},
	{"Int64", []acase{{0x12, []string{"int64"}}}},
	{"Int", []acase{{0x10, []string{"int32"}}, {0x12, []string{"int64"}}}},
	{"Decimal128", []acase{{0x13, []string{"dec"}}}},
}

// alt is one way a value may have come about
type alt struct {
	c *Ctx
	p pv
}

// cases: the context under each choice a split point leaves open
func (e *Engine) cases(c *Ctx, sp *splitPt) []*Ctx {
	if sp == nil || sp.loop || sp.asm != nil {
		return nil
	}
	k := sp.key()
	if _, chosen := c.choices[k]; chosen {
		return nil
	}
	var out []*Ctx
	if sp.call != nil {
		fn := sp.call.Common().StaticCallee()
		ch := e.child(sp.fr, sp.call, fn)
		for i, r := range returnsOf(fn) {
			out = append(out, c.with(k, i, frBlk{ch, r.Block()}))
		}
		return out
	}
	for i, pred := range sp.blk.Preds {
		var pts []frBlk
		if len(e.loopHeaders(sp.fr.fn)) == 0 {
			pts = []frBlk{{sp.fr, pred}}
		}
		out = append(out, c.with(k, i, pts...))
	}
	return out
}

// alts follows a value back to its origins, one context per choice made on the way
func (e *Engine) alts(c *Ctx, fr *Frame, v ssa.Value, depth int) []alt {
	p := e.peel(c, fr, v)
	if depth == 0 {
		return []alt{{c, p}}
	}
	var sp *splitPt
	q := p
	for {
		cv, ok := q.v.(*ssa.Convert)
		if !ok || !isInt(cv.Type()) || !isInt(cv.X.Type()) {
			break
		}
		q = e.peel(c, q.fr, cv.X)
	}
	switch x := q.v.(type) {
	case *ssa.Phi:
		_, isLoop := e.loopHeaders(q.fr.fn)[x.Block()]
		sp = &splitPt{fr: q.fr, blk: x.Block(), loop: isLoop}
	case *ssa.Call:
		_, _, sp = e.callResult(c, q.fr, x, 0)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			_, _, sp = e.callResult(c, q.fr, call, x.Index)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			_, _, sp, _ = e.load(c, q.fr, x.X, x)
		}
	}
	cs := e.cases(c, sp)
	if len(cs) == 0 {
		return []alt{{c, p}}
	}
	var out []alt
	for _, n := range cs {
		out = append(out, e.alts(n, fr, v, depth-1)...)
	}
	return out
}

func sameBit(a, b abit) int {
	if a.kind == '?' || b.kind == '?' {
		return 0
	}
	if a.kind != b.kind {
		return -1
	}
	if a.kind != 'd' {
		return 1
	}
	d := a.off.sub(b.off)
	if n, ok := d.constVal(); ok {
		if n == 0 && a.n == b.n {
			return 1
		}
		return -1
	}
	return 0
}

// bits evaluates an integer to its bits in terms of the value's bytes
func (a *accessAn) bits(c *Ctx, fr *Frame, v ssa.Value, depth int) []abit {
	n := int(stdSizes.Sizeof(v.Type())) * 8
	unknown := func() []abit {
		out := make([]abit, n)
		for i := range out {
			out[i].kind = '?'
		}
		return out
	}
	if depth == 0 || n == 0 || n > 64 {
		return unknown()
	}
	p := a.e.peel(c, fr, v)
	out := make([]abit, n)
	fromBytes := func(sv *SV, k int, big bool) []abit {
		if sv.root != a.root {
			return unknown()
		}
		for i := range out {
			b := i / 8
			if b >= k {
				out[i] = abit{kind: 0}
				continue
			}
			if big {
				b = k - 1 - b
			}
			out[i] = abit{'d', sv.off.addC(int64(b)), i % 8}
		}
		return out
	}
	switch x := p.v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() != constant.Int {
			return unknown()
		}
		u, ok := constant.Uint64Val(x.Value)
		if !ok {
			s, ok2 := constant.Int64Val(x.Value)
			if !ok2 {
				return unknown()
			}
			u = uint64(s)
		}
		for i := range out {
			out[i].kind = byte(u >> i & 1)
		}
		return out
	case *ssa.Convert:
		if !isInt(x.Type()) || !isInt(x.X.Type()) {
			return unknown()
		}
		in := a.bits(c, p.fr, x.X, depth-1)
		for i := range out {
			switch {
			case i < len(in):
				out[i] = in[i]
			case isUnsigned(x.X.Type()):
				out[i].kind = 0
			default:
				out[i] = in[len(in)-1]
			}
		}
		return out
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && n == 8 && isByteSlice(ia.X.Type()) {
			sv := a.e.evS(c, p.fr, ia.X)
			return fromBytes(&SV{root: sv.root, off: sv.off.add(a.e.ev(c, p.fr, ia.Index))}, 1, false)
		}
	case *ssa.Call:
		full := calleeFull(&x.Call)
		if strings.HasPrefix(full, "(encoding/binary.") && len(x.Call.Args) == 2 {
			for _, k := range []int{2, 4, 8} {
				if strings.HasSuffix(full, fmt.Sprintf("ndian).Uint%d", k*8)) {
					return fromBytes(a.e.evS(c, p.fr, x.Call.Args[1]), k, strings.Contains(full, "big"))
				}
			}
		}
		if full == "math.Float64bits" || full == "math.Float64frombits" {
			return a.bits(c, p.fr, x.Call.Args[0], depth-1)
		}
	case *ssa.BinOp:
		if !isInt(x.Type()) {
			return unknown()
		}
		switch x.Op {
		case token.OR, token.ADD, token.XOR, token.AND:
			l, r := a.bits(c, p.fr, x.X, depth-1), a.bits(c, p.fr, x.Y, depth-1)
			for i := range out {
				switch {
				case x.Op == token.AND && (l[i].kind == 0 || r[i].kind == 0):
					out[i].kind = 0
				case x.Op == token.AND && l[i].kind == 1:
					out[i] = r[i]
				case x.Op == token.AND && r[i].kind == 1:
					out[i] = l[i]
				case x.Op != token.AND && l[i].kind == 0:
					out[i] = r[i]
				case x.Op != token.AND && r[i].kind == 0:
					out[i] = l[i]
				case x.Op == token.OR && sameBit(l[i], r[i]) == 1:
					out[i] = l[i]
				default:
					if x.Op == token.ADD {
						return unknown()
					}
					out[i].kind = '?'
				}
			}
			return out
		case token.SHL, token.SHR:
			k, ok := a.e.ev(c, p.fr, x.Y).constVal()
			if !ok || k < 0 {
				return unknown()
			}
			in := a.bits(c, p.fr, x.X, depth-1)
			for i := range out {
				j := i - int(k)
				if x.Op == token.SHR {
					j = i + int(k)
				}
				switch {
				case j >= 0 && j < n:
					out[i] = in[j]
				case j >= n && !isUnsigned(x.Type()):
					out[i] = in[n-1]
				}
			}
			return out
		}
	}
	return unknown()
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// word: v is the k-byte little-endian number at the offset (sign-extended when v is wider)
func (a *accessAn) word(c *Ctx, fr *Frame, v ssa.Value, at *Lin, k int, signed bool) int {
	if c3 := a.cmpWord(c, fr, v, at, k); c3 == 1 && int(stdSizes.Sizeof(v.Type())) == k {
		return 1
	}
	bs := a.bits(c, fr, v, 30)
	res := 1
	for i := range bs {
		want := abit{'d', at.addC(int64(i / 8)), i % 8}
		if i >= 8*k {
			want = abit{kind: 0}
			if signed {
				want = abit{'d', at.addC(int64(k - 1)), 7}
			}
		}
		switch sameBit(bs[i], want) {
		case -1:
			return -1
		case 0:
			res = 0
		}
	}
	if len(bs) < 8*k {
		return -1
	}
	return res
}

// cmpWord: the expression is, as a whole, the word the engine knows by this key
func (a *accessAn) cmpWord(c *Ctx, fr *Frame, v ssa.Value, at *Lin, k int) int {
	l := a.e.ev(c, fr, v)
	s, ok := l.soleSym()
	if !ok {
		return 0
	}
	key := a.e.atoms[s].key
	if sum := a.e.atoms[s].sum; sum != nil && strings.HasPrefix(key, "conv:") {
		if t, ok := sum.soleSym(); ok {
			key = a.e.atoms[t].key
		}
	}
	if strings.HasPrefix(key, fmt.Sprintf("le%d:%s[%s]@", k, a.root, at.key())) {
		return 1
	}
	return 0
}

// le is the length stored at the offset, as the code under analysis names it
func (a *accessAn) le(at *Lin) *Lin {
	return a.e.leWord(4, a.root, at, "0", types.Typ[types.Uint32], nil, nil, nil)
}

// same: the expression, in every case the context leaves open, against what it should be
func (a *accessAn) same(c *Ctx, blk *ssa.BasicBlock, diff goalFn) int {
	d := diff(c)
	if d == nil {
		return 0
	}
	if n, ok := d.constVal(); ok {
		if n == 0 {
			return 1
		}
		return -1
	}
	g := func(k, n int64) bool {
		return a.e.prove(c, a.fr, blk, func(c2 *Ctx) *Lin { return diff(c2).scale(k).addC(n) })
	}
	pos, neg := g(1, 0), g(-1, 0)
	if pos && neg {
		return 1
	}
	if pos && g(1, -1) || neg && g(-1, -1) {
		return -1
	}
	if a.e.wrongCase(c, a.fr, blk, diff, 6) {
		return -1
	}
	return 0
}

// source resolves a byte sequence to the part of the value's bytes it was taken from
func (a *accessAn) source(c *Ctx, fr *Frame, v ssa.Value, depth int) (*SV, bool) {
	if depth == 0 {
		return nil, false
	}
	p := a.e.peel(c, fr, v)
	switch x := p.v.(type) {
	case *ssa.Convert:
		if isByteish(x.Type()) && isByteish(x.X.Type()) {
			return a.source(c, p.fr, x.X, depth-1)
		}
	case *ssa.Call:
		full := calleeFull(&x.Call)
		switch {
		case full == "bytes.Clone" || strings.HasPrefix(full, "slices.Clone"):
			return a.source(c, p.fr, x.Call.Args[0], depth-1)
		case full == "builtin.append" && len(x.Call.Args) == 2:
			if n, ok := a.e.evS(c, p.fr, x.Call.Args[0]).len.constVal(); ok && n == 0 {
				return a.source(c, p.fr, x.Call.Args[1], depth-1)
			}
		}
	case *ssa.MakeSlice:
		return a.copied(c, p.fr, x, a.e.ev(c, p.fr, x.Len), depth)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if n, ok := arrayLen(al.Type()); ok && x.Low == nil && x.High == nil {
				return a.copied(c, p.fr, al, linConst(n), depth)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch y := stripPtr(x.X).(type) {
			case *ssa.Alloc:
				if n, ok := arrayLen(y.Type()); ok {
					return a.copied(c, p.fr, y, linConst(n), depth)
				}
			case *ssa.SliceToArrayPointer:
				if n, ok := arrayLen(y.Type()); ok {
					sv, ok := a.source(c, p.fr, y.X, depth-1)
					if !ok {
						return nil, false
					}
					return &SV{root: sv.root, off: sv.off, len: linConst(n)}, true
				}
			}
		}
	}
	if isByteSlice(p.v.Type()) || isStr(p.v.Type()) {
		sv := a.e.evS(c, p.fr, p.v)
		if sv.root == a.root {
			return sv, true
		}
	}
	return nil, false
}

// copied: fresh memory whose only contents are one copy into it from the start
func (a *accessAn) copied(c *Ctx, fr *Frame, mem ssa.Value, size *Lin, depth int) (*SV, bool) {
	var src ssa.Value
	n := 0
	var walk func(v ssa.Value, whole bool) bool
	walk = func(v ssa.Value, whole bool) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Slice:
				if !walk(x, whole && x.Low == nil && x.High == nil) {
					return false
				}
			case *ssa.ChangeType:
				if !walk(x, whole) {
					return false
				}
			case *ssa.Call:
				switch calleeFull(&x.Call) {
				case "builtin.copy":
					if x.Call.Args[0] == v {
						if !whole {
							return false
						}
						n++
						src = x.Call.Args[1]
					}
				case "builtin.len", "builtin.cap":
				default:
					return false
				}
			case *ssa.Return, *ssa.DebugRef:
			case *ssa.UnOp:
			case *ssa.Phi:
			default:
				return false
			}
		}
		return true
	}
	if !walk(mem, true) || n != 1 {
		return nil, false
	}
	sv, ok := a.source(c, fr, src, depth-1)
	if !ok {
		return nil, false
	}
	return &SV{root: sv.root, off: sv.off, len: size}, true
}

// timeTerms writes a number as a combination of i (the stored milliseconds) and i/1000
func (a *accessAn) timeTerms(c *Ctx, fr *Frame, v ssa.Value, depth int) map[string]int64 {
	if depth == 0 {
		return nil
	}
	p := a.e.peel(c, fr, v)
	if isInt(p.v.Type()) && stdSizes.Sizeof(p.v.Type()) == 8 && a.word(c, p.fr, p.v, a.off, 8, true) == 1 {
		return map[string]int64{"i": 1}
	}
	switch x := p.v.(type) {
	case *ssa.Const:
		if n, ok := a.e.ev(c, p.fr, x).constVal(); ok {
			return map[string]int64{"": n}
		}
	case *ssa.BinOp:
		l, r := a.timeTerms(c, p.fr, x.X, depth-1), a.timeTerms(c, p.fr, x.Y, depth-1)
		if l == nil || r == nil {
			return nil
		}
		num := func(m map[string]int64) (int64, bool) {
			n, ok := m[""]
			return n, ok && len(m) == 1 || len(m) == 0
		}
		sum := func(l, r map[string]int64, k int64) map[string]int64 {
			out := map[string]int64{}
			for t, n := range l {
				out[t] += n
			}
			for t, n := range r {
				out[t] += k * n
			}
			for t, n := range out {
				if n == 0 {
					delete(out, t)
				}
			}
			return out
		}
		switch x.Op {
		case token.ADD:
			return sum(l, r, 1)
		case token.SUB:
			return sum(l, r, -1)
		case token.MUL:
			if _, ok := num(l); ok {
				l, r = r, l
			}
			if n, ok := num(r); ok {
				return sum(nil, l, n)
			}
		case token.QUO, token.REM:
			n, ok := num(r)
			if !ok || n <= 0 || len(l) != 1 || l["i"] != 1 {
				return nil
			}
			q := map[string]int64{fmt.Sprintf("i/%d", n): 1}
			if x.Op == token.QUO {
				return q
			}
			return sum(map[string]int64{"i": 1}, q, -n)
		}
	}
	return nil
}

func sameTerms(a, b map[string]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, n := range a {
		if b[k] != n {
			return false
		}
	}
	return true
}

// content: does this result hold what the layout stores? 1 yes, -1 no, 0 not known
func (a *accessAn) content(c *Ctx, blk *ssa.BasicBlock, p pv, kind string, prev *SV, out **SV) (int, string) {
	e := a.e
	str := func(at *Lin) (int, string) { // a string whose length word is at `at`
		if _, ok := a.source(c, p.fr, p.v, 10); !ok {
			return a.constBad(p)
		}
		return a.span(c, blk, p, at.addC(4), a.le(at).addC(-1))
	}
	switch kind {
	case "f64":
		if call, ok := p.v.(*ssa.Call); ok && calleeFull(&call.Call) == "math.Float64frombits" {
			return a.word(c, p.fr, call.Call.Args[0], a.off, 8, true), "not the eight bytes of the double"
		}
		if cv, ok := p.v.(*ssa.Convert); ok && isInt(cv.X.Type()) {
			return -1, "the number is converted instead of its bits being used"
		}
		return a.constBad(p)
	case "int64":
		return a.word(c, p.fr, p.v, a.off, 8, true), "not the eight bytes at the value's offset"
	case "int32":
		return a.word(c, p.fr, p.v, a.off, 4, true), "not the four bytes at the value's offset, sign-extended"
	case "word0":
		return a.word(c, p.fr, p.v, a.off, 4, false), "not the first word of the timestamp"
	case "word4":
		return a.word(c, p.fr, p.v, a.off.addC(4), 4, false), "not the second word of the timestamp"
	case "bool":
		return a.boolean(c, blk, p)
	case "subtype":
		return a.word(c, p.fr, p.v, a.off.addC(4), 1, false), "not the subtype byte"
	case "str":
		return str(a.off)
	case "code":
		return str(a.off.addC(4))
	case "oid":
		if _, ok := a.source(c, p.fr, p.v, 10); !ok {
			return a.constBad(p)
		}
		return a.span(c, blk, p, a.off, linConst(12))
	case "oidafter":
		if _, ok := a.source(c, p.fr, p.v, 10); !ok {
			return a.constBad(p)
		}
		return a.span(c, blk, p, a.off.addC(4).add(a.le(a.off)), linConst(12))
	case "bin":
		if _, ok := a.source(c, p.fr, p.v, 10); !ok {
			return a.constBad(p)
		}
		sub := e.atom(fmt.Sprintf("L:el:%s[%s]@0", a.root, a.off.addC(4).key()), nil, nil, nil, nil, nil)
		old := sub.addC(-2)
		saved := e.assume
		defer func() { e.assume = saved }()
		res := 1
		for i, f := range [][]fact{{{l: old}, {l: old.scale(-1)}}, {{l: old, ne: true}}} {
			e.assume = func(c *Ctx) []fact { return append(append([]fact{}, saved(c)...), f...) }
			if e.prove(c, a.fr, blk, func(*Ctx) *Lin { return nil }) {
				continue
			}
			k := int64(4 - 4*i)
			lenAt := a.off.addC(int64(5 - 5*i))
			signed := eqFacts(a.le(lenAt).sub(e.leWord(4, a.root, lenAt, "0", types.Typ[types.Int32], a.fr, nil, nil)))
			e.assume = func(c *Ctx) []fact { return append(append(append([]fact{}, saved(c)...), f...), signed...) }
			got, why := a.span(c, blk, p, a.off.addC(5+k), a.le(lenAt))
			if got < 0 {
				return got, why
			}
			if got == 0 {
				res = 0
			}
		}
		return res, ""
	case "dec":
		return a.decimal(c, p)
	case "time":
		return a.time(c, p)
	case "doc":
		return a.document(c, blk, p, a.off, a.le(a.off))
	case "scope":
		sl := a.le(a.off.addC(4))
		return a.document(c, blk, p, a.off.addC(8).add(sl), a.le(a.off).sub(sl).addC(-8))
	case "scopebytes":
		if ex, ok := p.v.(*ssa.Extract); ok && ex.Index == 0 {
			if call, ok := ex.Tuple.(*ssa.Call); ok && strings.HasSuffix(calleeFull(&call.Call), "Document).MarshalBSON") {
				res, why := 1, ""
				for _, x := range e.alts(c, p.fr, call.Call.Args[0], 8) {
					if e.prove(x.c, a.fr, blk, func(*Ctx) *Lin { return nil }) {
						continue
					}
					if got, w := a.content(x.c, blk, x.p, "mscope", nil, out); got < res {
						res, why = got, w
					}
				}
				return res, why
			}
		}
		return a.content(c, blk, p, "scope", nil, out)
	case "mdoc":
		return a.mutable(c, blk, p, a.off, a.le(a.off))
	case "mscope":
		sl := a.le(a.off.addC(4))
		return a.mutable(c, blk, p, a.off.addC(8).add(sl), a.le(a.off).sub(sl).addC(-8))
	case "marr":
		t := a.w.structNamed(modPath, "Array")
		ptr := e.ev(c, p.fr, p.v)
		ret := blk.Instrs[len(blk.Instrs)-1]
		d := e.fieldAt(c, a.fr, ret, ptr, t, "doc")
		if d.v == nil {
			if d.key == "zero" {
				return -1, "an array without its elements"
			}
			return 0, ""
		}
		return a.mutable(c, blk, e.peel(c, d.fr, d.v), a.off, a.le(a.off))
	case "pattern", "options":
		sv, ok := a.source(c, p.fr, p.v, 10)
		if !ok {
			return a.constBad(p)
		}
		*out = sv
		if kind == "pattern" {
			if got := a.same(c, blk, func(*Ctx) *Lin { return sv.off.sub(a.off) }); got != 1 {
				return got, "does not begin where the value does"
			}
		} else {
			if prev == nil {
				return 0, ""
			}
			if got := a.same(c, blk, func(*Ctx) *Lin { return sv.off.sub(prev.off.add(prev.len).addC(1)) }); got != 1 {
				return got, "does not begin just past the pattern's terminator"
			}
		}
		return a.terminated(c, blk, sv)
	}
	return 0, ""
}

func (a *accessAn) constBad(p pv) (int, string) {
	if _, ok := p.v.(*ssa.Const); ok {
		return -1, "a constant, whatever the value holds"
	}
	return 0, ""
}

func (a *accessAn) span(c *Ctx, blk *ssa.BasicBlock, p pv, off, n *Lin) (int, string) {
	at := func(f func(*SV) *Lin) goalFn {
		return func(c2 *Ctx) *Lin {
			sv, ok := a.source(c2, p.fr, p.v, 10)
			if !ok {
				return linSym(0)
			}
			return f(sv)
		}
	}
	x := a.same(c, blk, at(func(sv *SV) *Lin { return sv.off.sub(off) }))
	if x < 0 {
		return -1, "does not begin where the layout of the type puts it"
	}
	y := a.same(c, blk, at(func(sv *SV) *Lin { return sv.len.sub(n) }))
	if y < 0 {
		return -1, "does not have the length the layout of the type gives it"
	}
	return min(x, y), ""
}

// terminated: the byte at the end of the sequence is the NUL that was looked for
func (a *accessAn) terminated(c *Ctx, blk *ssa.BasicBlock, sv *SV) (int, string) {
	end := sv.off.add(sv.len)
	other := false
	for _, f := range a.e.facts(c, a.fr, blk) {
		var s Sym
		for s = range f.l.t {
		}
		if len(f.l.t) != 1 || f.ne || a.e.atoms[s].el == nil || a.e.atoms[s].el.root != a.root {
			continue
		}
		el := a.e.atoms[s].el
		d, ok := end.sub(el.idx).constVal()
		if !ok {
			continue
		}
		if !a.e.entails(a.e.facts(c, a.fr, blk), linSym(s).scale(-1)) {
			other = other || d == 0
			continue
		}
		if d == 0 {
			return 1, ""
		}
		return -1, "does not end at its terminator"
	}
	if other {
		return -1, "ends at a byte that need not be the terminator"
	}
	return 0, ""
}

// boolean: true exactly when the byte is one, whichever way that is computed
func (a *accessAn) boolean(c *Ctx, blk *ssa.BasicBlock, p pv) (int, string) {
	if got, why := a.boolOp(c, p); got == 1 {
		return got, why
	}
	by := a.e.atom(fmt.Sprintf("L:el:%s[%s]@0", a.root, a.off.key()), nil, nil, nil, nil, nil)
	saved := a.e.assume
	defer func() { a.e.assume = saved }()
	never := func(*Ctx) *Lin { return nil }
	for _, truth := range []int64{0, 1} {
		// this result with the other byte
		a.e.assume = func(c *Ctx) []fact {
			out := append([]fact{}, saved(c)...)
			out = append(out, eqFacts(a.e.ev(c, p.fr, p.v).addC(-truth))...)
			return append(out, eqFacts(by.addC(truth-1))...)
		}
		if a.e.prove(c, a.fr, blk, never) {
			continue
		}
		for _, x := range c.extra {
			if a.opaqueGuard(x.blk) {
				return 0, ""
			}
		}
		if a.opaqueGuard(blk) || !a.simple(p.v, 0) {
			return 0, ""
		}
		return -1, "one is not true and zero false"
	}
	return 1, ""
}

// simple: a condition made of comparisons of numbers and bytes of the value
func (a *accessAn) simple(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter:
		return true
	case *ssa.BinOp:
		return a.simple(x.X, d+1) && a.simple(x.Y, d+1)
	case *ssa.Convert:
		return isInt(x.X.Type()) && a.simple(x.X, d+1)
	case *ssa.ChangeType:
		return a.simple(x.X, d+1)
	case *ssa.UnOp:
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			return true
		case *ssa.IndexAddr:
			_, arr := y.X.Type().Underlying().(*types.Pointer)
			return !arr && a.simple(y.Index, d+1)
		}
		return x.Op == token.NOT && a.simple(x.X, d+1)
	}
	return false
}

func (a *accessAn) boolOp(c *Ctx, p pv) (int, string) {
	neg := false
	for {
		u, ok := p.v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		neg = !neg
		p = a.e.peel(c, p.fr, u.X)
	}
	b, ok := p.v.(*ssa.BinOp)
	if !ok {
		return 0, "" // a constant is judged by the context it was chosen in: not attempted
	}
	x, y := b.X, b.Y
	k, ok := a.e.ev(c, p.fr, y).constVal()
	if !ok {
		x, y = y, x
		k, ok = a.e.ev(c, p.fr, y).constVal()
	}
	if !ok {
		return 0, ""
	}
	if got := a.word(c, p.fr, x, a.off, 1, false); got != 1 {
		return got, "not decided by the value's byte"
	}
	truth := map[int64]bool{}
	for _, n := range []int64{0, 1} {
		switch b.Op {
		case token.EQL:
			truth[n] = n == k
		case token.NEQ:
			truth[n] = n != k
		case token.GTR:
			truth[n] = n > k
		case token.GEQ:
			truth[n] = n >= k
		default:
			return 0, ""
		}
	}
	if neg {
		truth[0], truth[1] = !truth[0], !truth[1]
	}
	if !truth[0] && truth[1] {
		return 1, ""
	}
	return -1, "one is not true and zero false"
}

func (a *accessAn) decimal(c *Ctx, p pv) (int, string) {
	e := a.e
	t := a.w.structNamed(typesPath, "Decimal128")
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 2 {
		return 0, ""
	}
	// which field GetBytes gives first is the high half
	names := a.halves(st)
	if names == nil {
		return 0, ""
	}
	for i, at := range []int64{8, 0} {
		var q pv
		switch x := p.v.(type) {
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return 0, ""
			}
			f := e.fieldAt(c, p.fr, x, e.ev(c, p.fr, al), t, names[i])
			if f.v == nil {
				if f.key == "zero" {
					return -1, "half of the decimal is missing"
				}
				return 0, ""
			}
			q = pv{f.fr, f.v}
		case *ssa.Call:
			if !strings.HasSuffix(calleeFull(&x.Call), "types.NewDecimal128") {
				return 0, ""
			}
			q = pv{p.fr, x.Call.Args[i]}
		default:
			return 0, ""
		}
		if got := a.word(c, q.fr, q.v, a.off.addC(at), 8, false); got != 1 {
			return got, "the " + []string{"high", "low"}[i] + " half is not the one the layout stores there"
		}
	}
	return 1, ""
}

// halves: the fields the type's GetBytes returns as the high and the low half
func (a *accessAn) halves(st *types.Struct) []string {
	g := a.w.fn("(types.Decimal128).GetBytes")
	if g == nil {
		return nil
	}
	var out []string
	for _, ret := range returnsOf(g) {
		for _, v := range ret.Results {
			switch x := v.(type) {
			case *ssa.Field:
				out = append(out, st.Field(x.Field).Name())
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					out = append(out, st.Field(fa.Field).Name())
				}
			}
		}
	}
	if len(out) != 2 {
		return nil
	}
	return out
}

func (a *accessAn) time(c *Ctx, p pv) (int, string) {
	for i := 0; i < 5; i++ {
		call, ok := p.v.(*ssa.Call)
		if !ok {
			return 0, ""
		}
		switch calleeFull(&call.Call) {
		case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
			p = a.e.peel(c, p.fr, call.Call.Args[0])
			continue
		case "time.UnixMilli":
			t := a.timeTerms(c, p.fr, call.Call.Args[0], 10)
			if t == nil {
				return 0, ""
			}
			if sameTerms(t, map[string]int64{"i": 1}) {
				return 1, ""
			}
			return -1, "not the instant the stored milliseconds denote"
		case "time.Unix":
			s, n := a.timeTerms(c, p.fr, call.Call.Args[0], 10), a.timeTerms(c, p.fr, call.Call.Args[1], 10)
			if s == nil || n == nil {
				return 0, ""
			}
			if sameTerms(s, map[string]int64{"i/1000": 1}) && sameTerms(n, map[string]int64{"i": 1000000, "i/1000": -1000000000}) {
				return 1, ""
			}
			return -1, "not the instant the stored milliseconds denote"
		}
		return 0, ""
	}
	return 0, ""
}

// hasDoc: 1 when v.d is set in this context, -1 when it is nil
func (a *accessAn) hasDoc(c *Ctx, blk *ssa.BasicBlock) int {
	if a.e.prove(c, a.fr, blk, func(*Ctx) *Lin { return a.doc.addC(-1) }) {
		return 1
	}
	if a.e.prove(c, a.fr, blk, func(*Ctx) *Lin { return a.doc.scale(-1) }) {
		return -1
	}
	return 0
}

// document: the bytes of the document, from the value or from its parsed form
func (a *accessAn) document(c *Ctx, blk *ssa.BasicBlock, p pv, off, n *Lin) (int, string) {
	if k, ok := p.v.(*ssa.Const); ok && k.Value == nil {
		return -1, "nothing, whatever the value holds"
	}
	if _, ok := a.source(c, p.fr, p.v, 10); ok {
		switch a.hasDoc(c, blk) {
		case 1:
			return -1, "the bytes of a value whose document was parsed (and may have changed since)"
		case 0:
			for _, x := range c.extra {
				if a.opaqueGuard(x.blk) {
					return 0, ""
				}
			}
			if a.opaqueGuard(blk) {
				return 0, ""
			}
			return -1, "the bytes of a value whose document may have been parsed (and changed since)"
		}
		return a.span(c, blk, p, off, n)
	}
	if ex, ok := p.v.(*ssa.Extract); ok && ex.Index == 0 {
		call, ok := ex.Tuple.(*ssa.Call)
		if !ok {
			return 0, ""
		}
		arr := false
		switch calleeFull(&call.Call) {
		case "(*" + modPath + ".Document).MarshalBSON":
		case "(*" + modPath + ".Array).MarshalBSON":
			arr = true
		default:
			return 0, ""
		}
		ptr := a.e.ev(c, p.fr, call.Call.Args[0])
		if arr {
			f := a.e.fieldAt(c, p.fr, call, ptr, a.w.structNamed(modPath, "Array"), "doc")
			if f.v == nil {
				return 0, ""
			}
			ptr = a.e.ev(c, f.fr, f.v)
		}
		if !ptr.equal(a.doc) {
			return 0, ""
		}
		wantArr := a.e.prove(c, a.fr, blk, func(*Ctx) *Lin { return a.tag.addC(-4) }) && a.e.prove(c, a.fr, blk, func(*Ctx) *Lin { return a.tag.scale(-1).addC(4) })
		if arr != wantArr {
			return -1, "encoded as the other of document and array"
		}
		return 1, ""
	}
	return 0, ""
}

// kept: the value itself keeps the document it hands out for changing
func (a *accessAn) kept(c *Ctx, blk *ssa.BasicBlock, p pv) int {
	e := a.e
	if a.once {
		return 1
	}
	ret := blk.Instrs[len(blk.Instrs)-1]
	d := e.fieldAt(c, a.fr, ret, a.ptr, a.w.structNamed(modPath, "Value"), "d")
	have := a.e.ev(c, p.fr, p.v)
	if d.v == nil {
		if have.equal(a.doc) {
			return 1
		}
		if strings.HasSuffix(d.key, ".d@0") || !a.stores(a.fr, 0) {
			return -1
		}
		return 0
	}
	q := e.peel(c, d.fr, d.v)
	if q == p || e.ev(c, q.fr, q.v).equal(have) {
		return 1
	}
	return 0
}

// stores: something in the accessor or what it calls assigns the document of a value
func (a *accessAn) stores(fr *Frame, depth int) bool {
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if addrClass(x.Addr) == "F:"+typeKey(a.w.structNamed(modPath, "Value"))+".d" {
					return true
				}
				if n, ok := derefT(x.Addr.Type()).(*types.Named); ok && n.Obj().Name() == "Value" {
					return true
				}
			case *ssa.Call:
				fn := x.Call.StaticCallee()
				if fn != nil && a.w.bodyOf(fn) && inPkg(fn, modPath) && !a.e.noInline[fn] && !fr.inChain(fn) && depth < 4 && a.stores(a.e.child(fr, x, fn), depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func (a *accessAn) mutable(c *Ctx, blk *ssa.BasicBlock, p pv, off, n *Lin) (int, string) {
	if k, ok := p.v.(*ssa.Const); ok && k.Value == nil {
		return -1, "nothing, whatever the value holds"
	}
	if a.e.ev(c, p.fr, p.v).equal(a.doc) {
		if a.hasDoc(c, blk) == -1 {
			return -1, "the nil document of a value that was not parsed"
		}
		return 1, ""
	}
	if ex, ok := p.v.(*ssa.Extract); ok && ex.Index == 0 {
		if call, ok := ex.Tuple.(*ssa.Call); ok && calleeFull(&call.Call) == modPath+".ReadDocument" {
			if a.hasDoc(c, blk) == 1 {
				return -1, "parsed again although the value already has a document"
			}
			switch a.kept(c, blk, p) {
			case -1:
				return -1, "the document handed out for changing is not the one the value keeps"
			case 0:
				return 0, ""
			}
			if _, ok := a.source(c, p.fr, call.Call.Args[0], 10); ok {
				return a.span(c, blk, pv{p.fr, call.Call.Args[0]}, off, n)
			}
		}
	}
	return 0, ""
}

// docAlts: the ways the document inside the array handed out may have come about
func (a *accessAn) docAlts(ret *ssa.Return, in []alt) []alt {
	var out []alt
	for _, al := range in {
		d := a.e.fieldAt(al.c, a.fr, ret, a.e.ev(al.c, al.p.fr, al.p.v), a.w.structNamed(modPath, "Array"), "doc")
		if d.v == nil {
			out = append(out, al)
			continue
		}
		for _, x := range a.e.alts(al.c, d.fr, d.v, 8) {
			out = append(out, alt{x.c, al.p})
		}
	}
	return out
}

// base is the context of a return: what the single-return helpers called on the way established
func (a *accessAn) base(ret *ssa.BasicBlock) *Ctx {
	c := newCtx()
	var add func(fr *Frame, blk *ssa.BasicBlock, depth int)
	add = func(fr *Frame, blk *ssa.BasicBlock, depth int) {
		if depth > 3 {
			return
		}
		for b := blk; b != nil; b = b.Idom() {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				fn := call.Call.StaticCallee()
				if fn == nil || !a.w.bodyOf(fn) || !inRepo(fnPkg(topFn(fn))) || a.e.noInline[fn] || fr.inChain(fn) {
					continue
				}
				if rets := returnsOf(fn); len(rets) == 1 {
					ch := a.e.child(fr, call, fn)
					add(ch, rets[0].Block(), depth+1)
					c.extra = append(c.extra, frBlk{ch, rets[0].Block()})
				}
			}
		}
	}
	add(a.fr, ret, 0)
	c.lvl = len(c.extra)
	return c
}

// opaqueGuard: something that decides whether this block is reached is not understood
func (a *accessAn) opaqueGuard(blk *ssa.BasicBlock) bool {
	var leaf func(v ssa.Value, d int) bool
	leaf = func(v ssa.Value, d int) bool {
		if d > 6 {
			return true
		}
		switch x := v.(type) {
		case *ssa.Call:
			if _, bi := x.Call.Value.(*ssa.Builtin); bi {
				return false
			}
			fn := x.Call.StaticCallee()
			return fn == nil || !a.w.bodyOf(fn) || !inRepo(fnPkg(topFn(fn))) || len(a.e.loopHeaders(fn)) > 0
		case *ssa.Extract:
			return leaf(x.Tuple, d+1)
		case *ssa.Lookup:
			return true
		case *ssa.TypeAssert:
			return true
		case *ssa.BinOp:
			return leaf(x.X, d+1) || leaf(x.Y, d+1)
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if _, ok := ia.X.Type().Underlying().(*types.Pointer); ok {
					return true // a table
				}
			}
			return leaf(x.X, d+1)
		case *ssa.Convert:
			return leaf(x.X, d+1)
		case *ssa.Phi:
			for _, ed := range x.Edges {
				if leaf(ed, d+1) {
					return true
				}
			}
		}
		return false
	}
	for b := blk; b != nil; b = b.Idom() {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b != blk && leaf(iff.Cond, 0) {
			return true
		}
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if fn := call.Call.StaticCallee(); fn == nil {
					if _, bi := call.Call.Value.(*ssa.Builtin); !bi {
						return true
					}
				}
			}
		}
	}
	return false
}

func (w *World) accessor(name string) *ssa.Function { return w.fn("(*birch.Value)." + name) }

func checkReaders(w *World, r *Report) {
	r.Rule = "for every typed accessor of Value: each return that hands out content is reachable only when the value is initialised and its type byte is the accessor's type; no panic or ok=false is reachable otherwise; and what is returned is, in every case the code distinguishes, the bytes the layout of the type stores at that place (words compared bit by bit, strings and slices by offset and length, documents taken from the parsed form when there is one)"
	r.Assumptions = append(r.Assumptions, "byte slices and strings are shorter than 1 GiB", "64-bit int", "nothing changes the bytes of a value between its validation and its use")
	val := w.fn("(*birch.Value).Validate")
	if val == nil {
		r.fail("anchor|Validate", "-", "(*Value).Validate not found")
		return
	}
	var jobs []func(sub *Report)
	for _, s := range accessSpecs {
		for _, suffix := range []string{"", "OK"} {
			f := w.accessor(s.name + suffix)
			if f == nil {
				continue
			}
			jobs = append(jobs, func(sub *Report) { (&accessAn{w: w, r: sub, f: f}).run(s, suffix == "OK", val) })
		}
	}
	if f := w.accessor("Interface"); f != nil {
		for _, s := range interfaceSpecs {
			jobs = append(jobs, func(sub *Report) { (&accessAn{w: w, r: sub, f: f}).asInterface(s, val) })
		}
	}
	rootInvs(w)
	r.inParallel(len(jobs), func(i int, sub *Report) { jobs[i](sub) })
	r.min("accessors", 25)
	r.min("returns of content", 25)
	r.min("contents matched", 30)
}

func (a *accessAn) setup(val *ssa.Function) {
	e := newEngine(a.w)
	a.e = e
	e.sinv = rootInvs(a.w)
	e.noInline = map[*ssa.Function]bool{}
	for _, n := range []string{"(*birch.Document).MarshalBSON", "(*birch.Array).MarshalBSON", "birch.ReadDocument"} {
		if f := a.w.fn(n); f != nil {
			e.noInline[f] = true
		}
	}
	a.fr = e.rootFrame(a.f)
	addHyps(e, a.fr, val)
	a.ptr = e.ev(newCtx(), a.fr, a.f.Params[0])
	k := a.ptr.key()
	a.root = "L:" + k + ".data@0"
	u32 := types.Typ[types.Uint32]
	lo, hi := e.atomRange(u32)
	a.off = e.atom("L:"+k+".offset@0", lo, hi, a.fr, nil, nil)
	start := e.atom("L:"+k+".start@0", lo, hi, a.fr, nil, nil)
	blo, bhi := e.atomRange(types.Typ[types.Byte])
	a.tag = e.atom("L:el:"+a.root+"["+start.key()+"]@0", blo, bhi, a.fr, nil, nil)
	dlo, dhi := e.atomRange(types.NewPointer(types.Typ[types.Int]))
	a.doc = e.atom("L:"+k+".d@0", dlo, dhi, a.fr, nil, nil)
	a.nilp = e.atom("nilp:"+a.root, lo, nil, a.fr, nil, nil)
}

// lengths: the length words of a valid value are positive, so reading them signed or unsigned is the same
func (a *accessAn) lengths(cs acase) []fact {
	var out []fact
	word := func(k int64) {
		at := a.off.addC(k)
		out = append(out, eqFacts(a.le(at).sub(a.e.leWord(4, a.root, at, "0", types.Typ[types.Int32], a.fr, nil, nil)))...)
	}
	for _, k := range cs.what {
		switch k {
		case "str", "doc", "mdoc", "marr":
			word(0)
		case "code":
			word(0)
			word(4)
		}
	}
	return out
}

func eqFacts(l *Lin) []fact { return []fact{{l: l}, {l: l.scale(-1)}} }

func (a *accessAn) run(s aspec, okv bool, val *ssa.Function) {
	a.name = fnName(a.f)
	r := a.r
	r.Counts["accessors"]++
	never := func(*Ctx) *Lin { return nil }
	for _, ret := range returnsOf(a.f) {
		nres := len(ret.Results)
		pos := a.w.pos(instrPos(ret))
		if okv {
			nres--
		}
		if nres != len(s.cases[0].what) {
			r.Counts["accessors not understood"]++
			return
		}
		with := func(ok int64, facts ...fact) {
			a.e.assume = func(c *Ctx) []fact {
				out := append([]fact{}, facts...)
				if okv {
					out = append(out, eqFacts(a.e.ev(c, a.fr, ret.Results[nres]).addC(-ok))...)
				}
				return out
			}
		}
		a.setup(val)
		key := a.name + "|" + a.w.srcLine(instrPos(ret))
		reach := func(ok int64, facts ...fact) bool {
			with(ok, facts...)
			return !a.e.prove(a.base(ret.Block()), a.fr, ret.Block(), never)
		}
		// nothing but the type
		if reach(1) {
			r.Counts["returns of content"]++
			var other []fact
			for _, cs := range s.cases {
				other = append(other, fact{l: a.tag.addC(-cs.tag), ne: true})
			}
			switch {
			case !reach(1, other...):
				r.ok(a.name + ": content only for its type, " + pos)
			case a.opaqueGuard(ret.Block()):
				r.Counts["guards not understood"]++
			default:
				r.fail("type|"+key, pos, a.name+": this return hands out content although the value may have another type")
			}
			switch {
			case !reach(1, eqFacts(a.off)...):
				r.ok(a.name + ": content only of initialised values, " + pos)
			case a.opaqueGuard(ret.Block()):
				r.Counts["guards not understood"]++
			default:
				r.fail("init|"+key, pos, a.name+": this return hands out content of an uninitialised value")
			}
		}
		for _, cs := range s.cases {
			good := append(eqFacts(a.tag.addC(-cs.tag)), fact{l: a.off.addC(-1)}, fact{l: a.ptr.addC(-1)}, fact{l: a.nilp.addC(-1)})
			if okv {
				if reach(0, good...) {
					if a.opaqueGuard(ret.Block()) {
						r.Counts["guards not understood"]++
					} else {
						r.fail(fmt.Sprintf("refuse|%s|%#x", key, cs.tag), pos, a.name+": this return refuses a value of its own type")
					}
				} else {
					r.ok(a.name + ": refuses only other types, " + pos)
				}
			}
			if !reach(1, good...) {
				continue
			}
			with(1, append(good, a.lengths(cs)...)...)
			var prev, cur *SV
			for i, kind := range cs.what {
				first := cur
				seenBad, seenOpen, n := "", false, 0
				als := a.e.alts(a.base(ret.Block()), a.fr, ret.Results[i], 8)
				if kind == "marr" {
					als = a.docAlts(ret, als)
				}
				for _, al := range als {
					if a.e.prove(al.c, a.fr, ret.Block(), never) {
						continue
					}
					n++
					prev, cur = first, nil
					got, why := a.content(al.c, ret.Block(), al.p, kind, prev, &cur)
					if got < 0 {
						seenBad = why
					} else if got == 0 {
						seenOpen = true
						if trace() {
							fmt.Println("content?", a.name, kind, al.p.v, al.p.fr, al.c.choices)
						}
					}
				}
				switch {
				case seenBad != "":
					r.fail(fmt.Sprintf("content|%s|%s|%#x", key, kind, cs.tag), pos, fmt.Sprintf("%s: result %d is wrong: %s", a.name, i, seenBad))
				case seenOpen || n == 0:
					r.Counts["contents not understood"]++
				default:
					r.Counts["contents matched"]++
					r.ok(fmt.Sprintf("%s: %s", a.name, kind))
				}
			}
		}
	}
	a.panics(s, okv, val)
}

// panics: the accessor does not panic on a valid value of its own type, and its OK form on none
func (a *accessAn) panics(s aspec, okv bool, val *ssa.Function) {
	never := func(*Ctx) *Lin { return nil }
	for _, cs := range s.cases {
		a.setup(val)
		why := "panics on a valid value of its own type"
		a.e.assume = func(*Ctx) []fact {
			if okv {
				return nil
			}
			return append(eqFacts(a.tag.addC(-cs.tag)), fact{l: a.off.addC(-1)}, fact{l: a.ptr.addC(-1)}, fact{l: a.nilp.addC(-1)})
		}
		if okv {
			why = "panics instead of reporting that the value has another type"
		}
		var walk func(fr *Frame, depth int)
		walk = func(fr *Frame, depth int) {
			for _, b := range fr.fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Panic:
						if len(b.Preds) == 0 && b != fr.fn.Blocks[0] || a.failureOf(x.X, 0) {
							continue
						}
						if a.e.prove(a.base(b), fr, b, never) {
							a.r.ok(a.name + ": panics only on other types, " + a.w.pos(instrPos(x)))
							continue
						}
						if a.opaqueGuard(b) {
							a.r.Counts["guards not understood"]++
							continue
						}
						a.r.fail(fmt.Sprintf("panic|%s|%s|%#x", a.name, a.w.srcLine(instrPos(x)), cs.tag), a.w.pos(instrPos(x)), a.name+": "+why)
					case *ssa.Call:
						fn := x.Call.StaticCallee()
						if fn != nil && a.w.bodyOf(fn) && inPkg(fn, modPath) && !a.e.noInline[fn] && !fr.inChain(fn) && depth < 3 && recvName(fn) == "Value" {
							if a.e.prove(a.base(b), fr, b, never) {
								continue
							}
							walk(a.e.child(fr, x, fn), depth+1)
						}
					}
				}
			}
		}
		walk(a.fr, 0)
	}
}

// failureOf: the panic passes on the error of a step that failed
func (a *accessAn) failureOf(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return a.failureOf(x.X, d+1)
	case *ssa.ChangeInterface:
		return a.failureOf(x.X, d+1)
	case *ssa.Extract:
		return true
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		return fn == nil || !strings.HasSuffix(fnPkg(fn), "bsonerr")
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.failureOf(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return true
		}
	}
	return false
}

// what Interface gives for each type: the content of the type's accessor, in the Go form of the type
type ispec struct {
	tag    int64
	form   string // "", "nil", "call:<method>", "struct:<type>"
	fields []string
	kinds  []string
}

var interfaceSpecs = []ispec{
	{0x01, "", nil, []string{"f64"}}, {0x02, "", nil, []string{"str"}},
	{0x03, "call:Document).ExportMap", nil, []string{"mdoc"}}, {0x04, "call:Array).Interface", nil, []string{"marr"}},
	{0x05, "", nil, []string{"bin"}}, {0x06, "nil", nil, nil}, {0x07, "", nil, []string{"oid"}}, {0x08, "", nil, []string{"bool"}},
	{0x09, "", nil, []string{"time"}}, {0x0A, "nil", nil, nil},
	{0x0B, "struct:Regex", []string{"Pattern", "Options"}, []string{"pattern", "options"}},
	{0x0C, "struct:DBPointer", []string{"DB", "Pointer"}, []string{"str", "oidafter"}},
	{0x0D, "", nil, []string{"str"}}, {0x0E, "", nil, []string{"str"}},
	{0x0F, "struct:CodeWithScope", []string{"Code", "Scope"}, []string{"code", "scopebytes"}},
	{0x10, "", nil, []string{"int32"}}, {0x11, "struct:Timestamp", []string{"T", "I"}, []string{"word4", "word0"}},
	{0x12, "", nil, []string{"int64"}}, {0x13, "", nil, []string{"dec"}}, {0xFF, "nil", nil, nil}, {0x7F, "nil", nil, nil},
}

func (a *accessAn) asInterface(s ispec, val *ssa.Function) {
	a.name, a.once = fnName(a.f), true
	r, never := a.r, func(*Ctx) *Lin { return nil }
	r.Counts["types in Interface"]++
	reached := false
	for _, ret := range returnsOf(a.f) {
		a.setup(val)
		e := a.e
		for _, n := range []string{"(*birch.Document).ExportMap", "(*birch.Array).Interface"} {
			if f := a.w.fn(n); f != nil {
				e.noInline[f] = true
			}
		}
		facts := append(eqFacts(a.tag.addC(-s.tag)), fact{l: a.off.addC(-1)}, fact{l: a.ptr.addC(-1)}, fact{l: a.nilp.addC(-1)})
		facts = append(facts, a.lengths(acase{what: s.kinds})...)
		e.assume = func(*Ctx) []fact { return facts }
		base := a.base(ret.Block())
		if e.prove(base, a.fr, ret.Block(), never) {
			continue
		}
		reached = true
		pos := a.w.pos(instrPos(ret))
		bad := func(k, why string) {
			r.fail(fmt.Sprintf("interface|%#x|%s|%s", s.tag, k, a.w.srcLine(instrPos(ret))), pos, fmt.Sprintf("%s: for type %#x this returns the wrong thing: %s", a.name, s.tag, why))
		}
		unknown := func(v any) {
			r.Counts["contents not understood"]++
			if trace() {
				fmt.Printf("interface? %#x %v\n", s.tag, v)
			}
		}
		for _, al := range e.alts(base, a.fr, ret.Results[0], 8) {
			if e.prove(al.c, a.fr, ret.Block(), never) {
				continue
			}
			if k, ok := al.p.v.(*ssa.Const); ok && k.Value == nil {
				if s.form == "nil" {
					r.ok(fmt.Sprintf("Interface: %#x", s.tag))
				} else {
					bad("nil", "nothing, whatever the value holds")
				}
				continue
			}
			mi, ok := al.p.v.(*ssa.MakeInterface)
			if !ok {
				unknown(al.p.v)
				continue
			}
			if s.form == "nil" {
				bad("nonnil", "the type has no content")
				continue
			}
			for _, al := range e.alts(al.c, al.p.fr, mi.X, 8) {
				if e.prove(al.c, a.fr, ret.Block(), never) {
					continue
				}
				var parts []pv
				switch {
				case s.form == "":
					parts = []pv{al.p}
				case strings.HasPrefix(s.form, "call:"):
					call, ok := al.p.v.(*ssa.Call)
					if !ok || !strings.HasSuffix(calleeFull(&call.Call), strings.TrimPrefix(s.form, "call:")) {
						unknown(al.p.v)
						continue
					}
					parts = []pv{{al.p.fr, call.Call.Args[0]}}
				default:
					t := a.w.structNamed(typesPath, strings.TrimPrefix(s.form, "struct:"))
					u, ok := al.p.v.(*ssa.UnOp)
					if !ok || u.Op != token.MUL || t == nil {
						unknown(al.p.v)
						continue
					}
					if !types.Identical(u.Type(), t) {
						bad("type", "a "+u.Type().String())
						continue
					}
					for _, n := range s.fields {
						f := e.fieldAt(al.c, al.p.fr, u, e.ev(al.c, al.p.fr, u.X), t, n)
						if f.v == nil {
							parts = nil
							if f.key == "zero" {
								bad(n, "the field "+n+" is never filled in")
							} else {
								unknown(n)
							}
							break
						}
						parts = append(parts, pv{f.fr, f.v})
					}
				}
				var prev, cur *SV
				for i, part := range parts {
					if i >= len(s.kinds) {
						break
					}
					first := cur
					als := e.alts(al.c, part.fr, part.v, 8)
					if s.kinds[i] == "marr" {
						als = a.docAlts(ret, als)
					}
					for _, x := range als {
						if e.prove(x.c, a.fr, ret.Block(), never) {
							continue
						}
						prev, cur = first, nil
						got, why := a.content(x.c, ret.Block(), x.p, s.kinds[i], prev, &cur)
						switch {
						case got < 0:
							bad(s.kinds[i], why)
						case got == 0:
							unknown(x.p.v)
						default:
							r.Counts["contents matched"]++
							r.ok(fmt.Sprintf("Interface: %#x %s", s.tag, s.kinds[i]))
						}
					}
				}
			}
		}
	}
	if !reached {
		r.Counts["contents not understood"]++
	}
}
