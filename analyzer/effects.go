package main

import (
	"fmt"
	"go/token"
	"go/types"
	"iter"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A points-to analysis from one entry function: what memory its parameters reach, and which of it is written.
// Flow-insensitive over memory, flow-sensitive over SSA registers, fields apart, call sites apart to depth k.

type eobj struct {
	kind    byte // 'p' reached from a parameter or a package variable, 'a' allocated, 'f' closure, 'b' interface box, 'x' made by code outside
	typ     types.Type
	root    string
	fn      *ssa.Function
	site    ssa.Instruction
	ctx     *ectx
	id      int
	pool    bool
	only    []types.Type // an interface value known to hold one of these
	cells   map[string]eset
	nums    map[string]int
	e       *effects
	readers map[*ectx]bool
}

type eloc struct {
	o *eobj
	p string
}

// eset: a set of locations, by number
type eset = *ebits

type ebits struct {
	e *effects
	w []uint64
}

func (l eloc) num() int {
	n, ok := l.o.nums[l.p]
	if !ok {
		e := l.o.e
		n = len(e.locs)
		e.locs = append(e.locs, l)
		l.o.nums[l.p] = n
	}
	return n
}

func one(l eloc) eset {
	s := &ebits{e: l.o.e}
	s.put(l)
	return s
}

func (s *ebits) put(l eloc) bool {
	n := l.num()
	s.e = l.o.e
	s.room(n/64 + 1)
	b := uint64(1) << (n % 64)
	if s.w[n/64]&b != 0 {
		return false
	}
	s.w[n/64] |= b
	return true
}

func (s *ebits) room(n int) {
	if n > len(s.w) {
		w := make([]uint64, n+n/4)
		copy(w, s.w)
		s.w = w
	}
}

func (s *ebits) union(o eset) bool {
	if o == nil || o.e == nil || o == s {
		return false
	}
	s.e = o.e
	n := len(o.w)
	for n > 0 && o.w[n-1] == 0 {
		n--
	}
	s.room(n)
	grew := false
	for i, w := range o.w[:n] {
		if w&^s.w[i] != 0 {
			s.w[i] |= w
			grew = true
		}
	}
	return grew
}

func (s *ebits) all() iter.Seq[eloc] {
	return func(yield func(eloc) bool) {
		if s == nil {
			return
		}
		for i := 0; i < len(s.w); i++ {
			for w := s.w[i]; w != 0; w &= w - 1 {
				if !yield(s.e.locs[i*64+bits.TrailingZeros64(w)]) {
					return
				}
			}
		}
	}
}

// eval: the pointers a value holds, by path within the value
type eval map[string]eset

func (v eval) add(p string, l eloc) bool {
	s := v[p]
	if s == nil {
		s = &ebits{}
		v[p] = s
	}
	return s.put(l)
}

func (v eval) join(p string, s eset) bool {
	if s == nil {
		return false
	}
	d := v[p]
	if d == nil {
		d = &ebits{}
		v[p] = d
	}
	return d.union(s)
}

type ewrite struct {
	loc eloc
	in  ssa.Instruction
	how string
	ctx *ectx
}

// epass: a call of a method of a value the function was given
type epass struct {
	in  ssa.CallInstruction
	m   *types.Func
	ctx *ectx
}

type ectx struct {
	fn      *ssa.Function
	str     string
	env     map[ssa.Value]eval
	ret     []eval
	rets    map[ssa.Instruction][]eval
	caller  *ectx
	callee  map[ssa.Instruction][]*ectx
	callers map[*ectx]bool
	dirty   bool
}

type effects struct {
	w        *World
	k        int
	ctxs     map[string]*ectx
	order    []*ectx
	objs     map[string]*eobj
	nobj     int
	writes   map[string]ewrite
	puts     []ewrite
	putSeen  map[string]bool
	passed   []epass
	passSeen map[string]bool
	lost     string
	lvs      map[types.Type][]eleaf
	budget   int
	cur      *ectx // being passed over
	locs     []eloc
}

type eleaf struct {
	p string
	t types.Type
}

func newEffects(w *World) *effects {
	return &effects{w: w, k: 4, ctxs: map[string]*ectx{}, objs: map[string]*eobj{}, writes: map[string]ewrite{}, putSeen: map[string]bool{}, passSeen: map[string]bool{},
		lvs: map[types.Type][]eleaf{}, budget: 4000}
}

func (e *effects) leaves(t types.Type) []eleaf {
	if l, ok := e.lvs[t]; ok {
		return l
	}
	var out []eleaf
	var walk func(p string, t types.Type, d int)
	walk = func(p string, t types.Type, d int) {
		if d > 8 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				out = append(out, eleaf{p, t})
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			out = append(out, eleaf{p, t})
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(p+"."+u.Field(i).Name(), u.Field(i).Type(), d+1)
			}
		case *types.Array:
			walk(p+"[]", u.Elem(), d+1)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				walk(fmt.Sprintf("%s#%d", p, i), u.At(i).Type(), d+1)
			}
		}
	}
	walk("", t, 0)
	e.lvs[t] = out
	return out
}

func (e *effects) obj(kind byte, key string, t types.Type) *eobj {
	key = string(kind) + "|" + key
	if o := e.objs[key]; o != nil {
		return o
	}
	e.nobj++
	o := &eobj{kind: kind, typ: t, id: e.nobj, cells: map[string]eset{}, nums: map[string]int{}, e: e}
	e.objs[key] = o
	return o
}

// reached: the object of type t reached from root
func (e *effects) reached(root string, t types.Type) *eobj {
	kind := byte('p')
	if strings.HasPrefix(root, "ext") {
		kind = 'x'
	}
	o := e.obj(kind, root+"|"+typeKey(t), t)
	o.root = root
	return o
}

// initial contents of a leaf of type t in memory reached from root
func (e *effects) initial(root string, t types.Type) eset {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return one(eloc{e.reached(root, u.Elem()), ""})
	case *types.Slice:
		return one(eloc{e.reached(root, t.Underlying()), ""})
	case *types.Map, *types.Chan:
		return one(eloc{e.reached(root, t), ""})
	case *types.Interface:
		return one(eloc{e.reached(root, t), ""})
	case *types.Signature:
		return one(eloc{e.reached(root, t), ""})
	case *types.Basic:
		return one(eloc{e.reached(root, t), ""})
	}
	return nil
}

// reads: the context being passed over depends on what o holds
func (e *effects) reads(o *eobj) {
	if e.cur == nil {
		return
	}
	if o.readers == nil {
		o.readers = map[*ectx]bool{}
	}
	o.readers[e.cur] = true
}

func (e *effects) load(l eloc, t types.Type) eval {
	out := eval{}
	e.reads(l.o)
	for _, lf := range e.leaves(t) {
		p := l.p + lf.p
		out.join(lf.p, l.o.cells[p])
		if l.o.kind == 'p' || l.o.kind == 'x' {
			out.join(lf.p, e.initial(l.o.root, lf.t))
		}
	}
	return out
}

func (e *effects) store(l eloc, v eval) {
	grew := false
	for p, s := range v {
		q := l.p + p
		c := l.o.cells[q]
		if c == nil {
			c = &ebits{}
			l.o.cells[q] = c
		}
		if c.union(s) {
			grew = true
		}
	}
	if grew {
		for r := range l.o.readers {
			r.dirty = true
		}
	}
}

func (e *effects) write(c *ectx, l eloc, in ssa.Instruction, how string) {
	if l.o.kind != 'p' {
		return
	}
	k := fmt.Sprintf("%d|%s|%p", l.o.id, l.p, in)
	if _, ok := e.writes[k]; !ok {
		e.writes[k] = ewrite{l, in, how, c}
	}
}

func (c *ectx) val(e *effects, v ssa.Value) eval {
	if x, ok := c.env[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Global:
		o := e.reached("global "+v.RelString(nil), v.Type().(*types.Pointer).Elem())
		return eval{"": one(eloc{o, ""})}
	case *ssa.Function:
		o := e.obj('f', fmt.Sprintf("fn %p", v), v.Type())
		o.fn = v
		return eval{"": one(eloc{o, ""})}
	}
	return nil
}

func (c *ectx) set(e *effects, v ssa.Value, x eval) {
	if len(x) == 0 {
		return
	}
	cur := c.env[v]
	if cur == nil {
		cur = eval{}
		c.env[v] = cur
	}
	for p, s := range x {
		if cur.join(p, s) {
			c.dirty = true
		}
	}
}

func (v eval) sub(prefix string) eval {
	out := eval{}
	for p, s := range v {
		if strings.HasPrefix(p, prefix) && (len(p) == len(prefix) || strings.ContainsRune(".[#", rune(p[len(prefix)]))) {
			out.join(p[len(prefix):], s)
		}
	}
	return out
}

func (v eval) under(prefix string) eval {
	out := eval{}
	for p, s := range v {
		out[prefix+p] = s
	}
	return out
}

func (e *effects) context(f *ssa.Function, caller *ectx, in ssa.Instruction, clo *eobj) *ectx {
	str := ""
	n := 0
	for x := caller; x != nil; x = x.caller {
		if x.fn == f {
			if n++; n == 2 {
				return x // recursion: one context from here on
			}
		}
	}
	if caller != nil {
		str = caller.str + fmt.Sprintf("/%p", in)
		parts := strings.Split(str, "/")
		if len(parts) > e.k {
			parts = parts[len(parts)-e.k:]
		}
		str = strings.Join(parts, "/")
	}
	key := fmt.Sprintf("%p|%s", f, str)
	if clo != nil {
		key += fmt.Sprintf("|%d", clo.id)
	}
	if c := e.ctxs[key]; c != nil {
		return c
	}
	c := &ectx{fn: f, str: str, env: map[ssa.Value]eval{}, caller: caller, callee: map[ssa.Instruction][]*ectx{}, rets: map[ssa.Instruction][]eval{}, callers: map[*ectx]bool{}, dirty: true}
	c.ret = make([]eval, f.Signature.Results().Len())
	for i := range c.ret {
		c.ret[i] = eval{}
	}
	e.ctxs[key] = c
	e.order = append(e.order, c)
	if len(e.order) > e.budget {
		e.lost = "too many call contexts"
	}
	return c
}

// start: analyse f; its parameters are roots by name
func (e *effects) start(f *ssa.Function, params []string) *ectx {
	c := e.context(f, nil, nil, nil)
	for i, p := range f.Params {
		v := eval{}
		for _, lf := range e.leaves(p.Type()) {
			v.join(lf.p, e.initial(params[i], lf.t))
		}
		c.set(e, p, v)
	}
	for round := 0; ; round++ {
		any := false
		for i := 0; i < len(e.order) && e.lost == ""; i++ {
			if e.order[i].dirty {
				any = true
				e.pass(e.order[i])
			}
		}
		e.cur = nil
		if !any || e.lost != "" {
			break
		}
		if round > 2000 {
			e.lost = "no fixpoint"
			break
		}
	}
	return c
}

// effectsOf analyses f with as many call contexts as it takes and is affordable
func effectsOf(w *World, f *ssa.Function) *effects {
	for k := 4; ; k-- {
		e := newEffects(w)
		e.k = k
		e.start(f, paramRoots(f))
		if e.lost == "" || k == 1 {
			return e
		}
	}
}

func (e *effects) pass(c *ectx) {
	e.cur = c
	c.dirty = false
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			e.instr(c, in)
		}
	}
}

func (e *effects) alloc(c *ectx, in ssa.Instruction, t types.Type) *eobj {
	o := e.obj('a', fmt.Sprintf("%p|%s|%p", in, c.str, c.fn), t)
	o.site, o.ctx = in, c
	return o
}

func (e *effects) instr(c *ectx, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		c.set(e, in, eval{"": one(eloc{e.alloc(c, in, in.Type().(*types.Pointer).Elem()), ""})})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		c.set(e, v, eval{"": one(eloc{e.alloc(c, in, v.Type()), ""})})
	case *ssa.MakeClosure:
		o := e.obj('f', fmt.Sprintf("%p|%s", in, c.str), in.Type())
		o.fn, o.site = in.Fn.(*ssa.Function), in
		for i, b := range in.Bindings {
			e.store(eloc{o, fmt.Sprintf("#%d", i)}, c.val(e, b))
		}
		c.set(e, in, eval{"": one(eloc{o, ""})})
	case *ssa.MakeInterface:
		o := e.obj('b', fmt.Sprintf("%p|%s", in, c.str), in.X.Type())
		o.site = in
		e.store(eloc{o, ""}, c.val(e, in.X))
		c.set(e, in, eval{"": one(eloc{o, ""})})
	case *ssa.Phi:
		for _, x := range in.Edges {
			c.set(e, in, c.val(e, x))
		}
	case *ssa.FieldAddr:
		_, st := derefStruct(in.X.Type())
		for l := range c.val(e, in.X)[""].all() {
			c.set(e, in, eval{"": one(eloc{l.o, l.p + "." + st.Field(in.Field).Name()})})
		}
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		c.set(e, in, c.val(e, in.X).sub("."+st.Field(in.Field).Name()))
	case *ssa.IndexAddr:
		for l := range c.val(e, in.X)[""].all() {
			c.set(e, in, eval{"": one(eloc{l.o, cut(l.p) + "[]"})})
		}
	case *ssa.Index:
		if _, ok := in.X.Type().Underlying().(*types.Array); ok {
			c.set(e, in, c.val(e, in.X).sub("[]"))
		}
	case *ssa.Lookup:
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			v := eval{}
			for l := range c.val(e, in.X)[""].all() {
				for p, s := range e.load(eloc{l.o, l.p + "[v]"}, m.Elem()) {
					v.join(p, s)
				}
			}
			if in.CommaOk {
				v = v.under("#0")
			}
			c.set(e, in, v)
		}
	case *ssa.Range:
		c.set(e, in, c.val(e, in.X))
	case *ssa.Next:
		if in.IsString {
			return
		}
		m, ok := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		for l := range c.val(e, in.Iter)[""].all() {
			c.set(e, in, e.load(eloc{l.o, l.p + "[k]"}, m.Key()).under("#1"))
			c.set(e, in, e.load(eloc{l.o, l.p + "[v]"}, m.Elem()).under("#2"))
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			for l := range c.val(e, in.X)[""].all() {
				c.set(e, in, e.load(l, in.Type()))
			}
		case token.ARROW:
			t := in.X.Type().Underlying().(*types.Chan).Elem()
			for l := range c.val(e, in.X)[""].all() {
				v := e.load(eloc{l.o, "<-"}, t)
				if in.CommaOk {
					v = v.under("#0")
				}
				c.set(e, in, v)
			}
		}
	case *ssa.Send:
		for l := range c.val(e, in.Chan)[""].all() {
			e.store(eloc{l.o, "<-"}, c.val(e, in.X))
		}
	case *ssa.Select:
		n := 2
		for _, s := range in.States {
			t := s.Chan.Type().Underlying().(*types.Chan).Elem()
			for l := range c.val(e, s.Chan)[""].all() {
				if s.Dir == types.SendOnly {
					e.store(eloc{l.o, "<-"}, c.val(e, s.Send))
				} else {
					c.set(e, in, e.load(eloc{l.o, "<-"}, t).under(fmt.Sprintf("#%d", n)))
				}
			}
			if s.Dir == types.RecvOnly {
				n++
			}
		}
	case *ssa.Extract:
		c.set(e, in, c.val(e, in.Tuple).sub(fmt.Sprintf("#%d", in.Index)))
	case *ssa.Store:
		v := c.val(e, in.Val)
		for l := range c.val(e, in.Addr)[""].all() {
			e.store(l, v)
			e.write(c, l, in, "writes")
		}
	case *ssa.MapUpdate:
		for l := range c.val(e, in.Map)[""].all() {
			e.store(eloc{l.o, l.p + "[v]"}, c.val(e, in.Value))
			e.store(eloc{l.o, l.p + "[k]"}, c.val(e, in.Key))
			e.write(c, eloc{l.o, l.p + "[v]"}, in, "writes")
		}
	case *ssa.Slice:
		c.set(e, in, sliceOf(c.val(e, in.X)))
	case *ssa.SliceToArrayPointer:
		c.set(e, in, c.val(e, in.X))
	case *ssa.ChangeType:
		c.set(e, in, c.val(e, in.X))
	case *ssa.ChangeInterface:
		c.set(e, in, c.val(e, in.X))
	case *ssa.MultiConvert:
		c.set(e, in, c.val(e, in.X))
	case *ssa.Convert:
		if len(e.leaves(in.X.Type())) > 0 {
			if len(e.leaves(in.Type())) > 0 {
				c.set(e, in, c.val(e, in.X))
			}
		} else if _, ok := in.Type().Underlying().(*types.Slice); ok {
			c.set(e, in, eval{"": one(eloc{e.alloc(c, in, in.Type()), ""})})
		}
	case *ssa.TypeAssert:
		v := e.asserted(c.val(e, in.X)[""], in.AssertedType)
		if in.CommaOk {
			v = v.under("#0")
		}
		c.set(e, in, v)
	case *ssa.Return:
		rs := c.rets[in]
		if rs == nil {
			rs = make([]eval, len(in.Results))
			c.rets[in] = rs
		}
		for i, r := range in.Results {
			v := c.val(e, r)
			rs[i] = v
			for p, s := range v {
				if c.ret[i].join(p, s) {
					for x := range c.callers {
						x.dirty = true
					}
				}
			}
		}
	case ssa.CallInstruction:
		e.call(c, in)
	}
}

// cut: a slice's location is its array's; slicing an array field keeps the path, elements are all one
func cut(p string) string { return p }

func sliceOf(v eval) eval { return v }

func (e *effects) asserted(s eset, t types.Type) eval {
	v := eval{}
	_, iface := t.Underlying().(*types.Interface)
	for l := range s.all() {
		switch {
		case l.o.kind == 'b' && iface:
			if types.Implements(l.o.typ, t.Underlying().(*types.Interface)) {
				v.add("", l)
			}
		case l.o.kind == 'b':
			if types.Identical(l.o.typ, t) {
				for p, s := range e.load(eloc{l.o, ""}, t) {
					v.join(p, s)
				}
			}
		case l.o.only != nil && iface:
			v.add("", l)
		case l.o.only != nil && !oneOf(l.o.only, t):
		case l.o.kind == 'p' || l.o.kind == 'x':
			for _, lf := range e.leaves(t) {
				v.join(lf.p, e.initial(l.o.root, lf.t))
			}
		}
	}
	return v
}

func oneOf(ts []types.Type, t types.Type) bool {
	for _, x := range ts {
		if types.Identical(x, t) || types.IsInterface(x) {
			return true
		}
	}
	return false
}

// narrowed: in a clause of a type switch over several types, what the switched value can hold
func (e *effects) narrowed(v eval, x ssa.Value, b *ssa.BasicBlock) eval {
	if !types.IsInterface(x.Type()) {
		return v
	}
	any := false
	for l := range v[""].all() {
		any = any || l.o.kind == 'b' || l.o.only == nil && (l.o.kind == 'p' || l.o.kind == 'x')
	}
	if !any {
		return v
	}
	for d := b; d != nil; d = d.Idom() {
		var ts []types.Type
		for _, p := range d.Preds {
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || p.Succs[0] != d {
				ts = nil
				break
			}
			ex, ok := iff.Cond.(*ssa.Extract)
			if !ok || ex.Index != 1 {
				ts = nil
				break
			}
			ta, ok := ex.Tuple.(*ssa.TypeAssert)
			if !ok || ta.X != x {
				ts = nil
				break
			}
			ts = append(ts, ta.AssertedType)
		}
		if len(ts) == 0 {
			continue
		}
		key := ""
		for _, t := range ts {
			key += "," + typeKey(t)
		}
		out := eval{"": &ebits{}}
		for l := range v[""].all() {
			if l.o.only == nil && (l.o.kind == 'p' || l.o.kind == 'x') {
				o := e.obj(l.o.kind, l.o.root+"|"+typeKey(l.o.typ)+"|only"+key, l.o.typ)
				o.root, o.only = l.o.root, ts
				l = eloc{o, l.p}
			}
			if l.o.kind == 'b' && !oneOf(ts, l.o.typ) {
				continue
			}
			out[""].put(l)
		}
		return out
	}
	return v
}

func (e *effects) result(c *ectx, in ssa.CallInstruction, vs []eval) {
	v, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	if len(vs) == 1 {
		c.set(e, v, vs[0])
		return
	}
	for i, x := range vs {
		c.set(e, v, x.under(fmt.Sprintf("#%d", i)))
	}
}

func (e *effects) enter(c *ectx, in ssa.CallInstruction, f *ssa.Function, clo *eobj, args []eval) {
	n := e.context(f, c, in, clo)
	n.callers[c] = true
	known := false
	for _, x := range c.callee[in] {
		known = known || x == n
	}
	if !known {
		c.callee[in] = append(c.callee[in], n)
	}
	for i, p := range f.Params {
		if i < len(args) {
			n.set(e, p, args[i])
		}
	}
	if clo != nil {
		e.reads(clo)
		for i, fv := range f.FreeVars {
			v := eval{}
			pre := fmt.Sprintf("#%d", i)
			for p, s := range clo.cells {
				if p == pre || strings.HasPrefix(p, pre+".") || strings.HasPrefix(p, pre+"[") {
					v.join(p[len(pre):], s)
				}
			}
			n.set(e, fv, v)
		}
	}
	e.result(c, in, n.ret)
}

func entered(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	p := fnPkg(f)
	return inRepo(p) || strings.HasPrefix(p, "github.com/tychoish/fun/irt") || strings.HasPrefix(p, "github.com/tychoish/fun/stw") || p == ""
}

func (e *effects) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := e.w.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.w.Prog.MethodValue(sel)
}

func (e *effects) call(c *ectx, in ssa.CallInstruction) {
	cc := in.Common()
	var args []eval
	for _, a := range cc.Args {
		args = append(args, e.narrowed(c.val(e, a), a, in.Block()))
	}
	if cc.IsInvoke() {
		e.invoke(c, in, c.val(e, cc.Value)[""], cc.Method, cc.Value.Type(), args)
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		e.builtin(c, in, b.Name(), args)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if entered(f) {
			var clo *eobj
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				for l := range c.val(e, mc)[""].all() {
					clo = l.o
				}
			}
			e.enter(c, in, f, clo, args)
		} else {
			e.external(c, in, f, args)
		}
		return
	}
	for l := range c.val(e, cc.Value)[""].all() {
		e.callValue(c, in, l, args)
	}
}

func (e *effects) callValue(c *ectx, in ssa.CallInstruction, l eloc, args []eval) {
	if l.o.kind == 'f' && l.o.fn != nil {
		if entered(l.o.fn) {
			var clo *eobj
			if len(l.o.fn.FreeVars) > 0 {
				clo = l.o
			}
			e.enter(c, in, l.o.fn, clo, args)
		} else {
			e.external(c, in, l.o.fn, args)
		}
		return
	}
	e.opaque(c, in)
}

// opaque: code of the user or outside; its results are made outside
func (e *effects) opaque(c *ectx, in ssa.CallInstruction) {
	if v, ok := in.(*ssa.Call); ok {
		x := eval{}
		for _, lf := range e.leaves(v.Type()) {
			for l := range e.initial("ext", lf.t).all() {
				x.add(lf.p, l)
			}
		}
		c.set(e, v, x)
	}
}

func (e *effects) invoke(c *ectx, in ssa.CallInstruction, recv eset, m *types.Func, it types.Type, args []eval) {
	for l := range recv.all() {
		switch l.o.kind {
		case 'b':
			if f := e.methodOf(l.o.typ, m); f != nil {
				as := append([]eval{e.load(eloc{l.o, ""}, l.o.typ)}, args...)
				if entered(f) {
					e.enter(c, in, f, nil, as)
				} else {
					e.external(c, in, f, as)
				}
			}
		default:
			// each implementation in the repository is an entry of its own
			if k := fmt.Sprintf("%p|%s", in, c.str); !e.passSeen[k] {
				e.passSeen[k] = true
				e.passed = append(e.passed, epass{in, m, c})
			}
			e.extMethod(c, in, m, args)
			e.opaque(c, in)
		}
	}
}

func (e *effects) extMethod(c *ectx, in ssa.CallInstruction, m *types.Func, args []eval) {
	if (m.Name() == "Read" || m.Name() == "ReadAt") && len(args) > 0 {
		e.fill(c, in, args[0])
	}
}

// fill: the elements of a slice are overwritten
func (e *effects) fill(c *ectx, in ssa.CallInstruction, v eval) {
	for l := range v[""].all() {
		e.write(c, eloc{l.o, l.p + "[]"}, in, "overwrites")
	}
}

func (e *effects) builtin(c *ectx, in ssa.CallInstruction, name string, args []eval) {
	cc := in.Common()
	switch name {
	case "append":
		v, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		t := v.Type().Underlying().(*types.Slice).Elem()
		o := e.alloc(c, in, v.Type())
		els := eval{}
		if _, isSlice := cc.Args[1].Type().Underlying().(*types.Slice); isSlice {
			for l := range args[1][""].all() {
				for p, s := range e.load(eloc{l.o, l.p + "[]"}, t) {
					els.join(p, s)
				}
			}
		}
		for l := range args[0][""].all() {
			e.store(eloc{o, "[]"}, e.load(eloc{l.o, l.p + "[]"}, t))
			if !fullSlice(cc.Args[0]) {
				e.store(eloc{l.o, l.p + "[]"}, els)
				e.write(c, eloc{l.o, l.p + "[]"}, in, "appends to")
			}
		}
		e.store(eloc{o, "[]"}, els)
		c.set(e, v, eval{"": one(eloc{o, ""})})
		if !fullSlice(cc.Args[0]) {
			c.set(e, v, args[0])
		}
	case "copy":
		e.fill(c, in, args[0])
		if st, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
			for l := range args[1][""].all() {
				v := e.load(eloc{l.o, l.p + "[]"}, st.Elem())
				for d := range args[0][""].all() {
					e.store(eloc{d.o, d.p + "[]"}, v)
				}
			}
		}
	case "clear":
		for l := range args[0][""].all() {
			e.write(c, eloc{l.o, l.p + "[]"}, in, "clears")
		}
	case "delete":
		for l := range args[0][""].all() {
			e.write(c, eloc{l.o, l.p + "[v]"}, in, "deletes from")
		}
	case "ssa:wrapnilchk":
		e.result(c, in, []eval{args[0]})
	}
}

// fullSlice: s[a:b:b], an append to it copies
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil
}

func baseName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	s := f.RelString(nil)
	if i := strings.IndexByte(s, '['); i >= 0 {
		j := strings.IndexByte(s, ']')
		if j > i {
			s = s[:i] + s[j+1:]
		}
	}
	return s
}

func (e *effects) external(c *ectx, in ssa.CallInstruction, f *ssa.Function, args []eval) {
	n := baseName(f)
	sort := func(i int) {
		// an interface holding a slice
		for l := range args[i][""].all() {
			if l.o.kind == 'b' {
				e.reads(l.o)
				for x := range l.o.cells[""].all() {
					e.write(c, eloc{x.o, x.p + "[]"}, in, "reorders")
				}
			} else if l.o.kind == 'p' {
				e.write(c, eloc{l.o, l.p + "[]"}, in, "reorders")
			}
		}
	}
	at := func(i int) eval {
		if i < len(args) {
			return args[i]
		}
		return nil
	}
	switch {
	case n == "sort.Slice" || n == "sort.SliceStable":
		sort(0)
	case n == "sort.Sort" || n == "sort.Stable":
		it := in.Common().Args[0].Type()
		if i, ok := it.Underlying().(*types.Interface); ok {
			for k := 0; k < i.NumMethods(); k++ {
				e.invoke(c, in, args[0][""], i.Method(k), it, []eval{nil, nil})
			}
		}
		return
	case strings.HasPrefix(n, "sort.Sort") || n == "sort.Ints" || n == "sort.Strings" || n == "sort.Float64s" || strings.HasPrefix(n, "slices.Sort") || n == "slices.Reverse" ||
		n == "slices.Delete" || n == "slices.DeleteFunc" || n == "slices.Compact" || n == "slices.CompactFunc" || n == "slices.Replace" || n == "slices.Insert":
		e.fill(c, in, at(0))
	case n == "io.ReadFull" || n == "io.ReadAtLeast" || n == "encoding/base64.Encode" || strings.HasSuffix(n, "encoding/base64.Encoding).Encode") || strings.HasSuffix(n, "encoding/base64.Encoding).Decode"):
		e.fill(c, in, at(1))
	case n == "encoding/binary.PutUvarint" || n == "encoding/binary.PutVarint" || n == "encoding/hex.Encode" || n == "encoding/hex.Decode" || n == "crypto/rand.Read" || n == "math/rand.Read":
		e.fill(c, in, at(0))
	case strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, ").Put"):
		e.fill(c, in, at(1))
	case n == "maps.Copy" || n == "maps.DeleteFunc" || n == "maps.Insert":
		for l := range at(0)[""].all() {
			e.write(c, eloc{l.o, l.p + "[v]"}, in, "writes")
		}
	case strings.HasSuffix(n, ").Read") && f.Signature.Recv() != nil && f.Signature.Params().Len() == 1:
		e.fill(c, in, at(1))
	case strings.HasPrefix(n, "sync/atomic.Store") || strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "sync/atomic.Swap") || strings.HasPrefix(n, "sync/atomic.Compare"):
		for l := range at(0)[""].all() {
			e.write(c, l, in, "writes")
		}
	}
	// buffers
	switch {
	case n == "bytes.NewBuffer":
		o := e.alloc(c, in, f.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		e.store(eloc{o, ".buf"}, at(0))
		e.result(c, in, []eval{{"": one(eloc{o, ""})}})
		return
	case strings.HasPrefix(n, "(*bytes.Buffer)."):
		switch f.Name() {
		case "Bytes", "Next", "AvailableBuffer":
			v := eval{}
			for l := range at(0)[""].all() {
				for p, s := range e.load(eloc{l.o, l.p + ".buf"}, types.NewSlice(types.Typ[types.Byte])) {
					v.join(p, s)
				}
				if l.o.kind == 'a' {
					// the buffer allocates as it grows
					v.add("", eloc{e.obj('a', fmt.Sprintf("buf %d%s", l.o.id, l.p), types.NewSlice(types.Typ[types.Byte])), ""})
				}
			}
			e.result(c, in, []eval{v})
			return
		case "Len", "Cap", "String", "Available":
			return
		}
		for l := range at(0)[""].all() {
			e.write(c, l, in, "writes to the buffer")
			e.reads(l.o)
			for x := range l.o.cells[l.p+".buf"].all() {
				e.write(c, eloc{x.o, x.p + "[]"}, in, "writes into the memory of the buffer")
			}
		}
		if f.Name() == "ReadFrom" || f.Name() == "WriteTo" {
			e.opaque(c, in)
		}
		return
	}
	// pools
	if strings.HasSuffix(n, "Pool).Get") {
		if v, ok := in.(*ssa.Call); ok {
			o := e.alloc(c, in, v.Type())
			o.pool = true
			if _, isI := v.Type().Underlying().(*types.Interface); isI {
				b := e.obj('x', fmt.Sprintf("pooled %d", o.id), v.Type())
				b.root = "ext pool"
				c.set(e, v, eval{"": one(eloc{b, ""})})
				return
			}
			x := eval{}
			for _, lf := range e.leaves(v.Type()) {
				x.add(lf.p, eloc{o, lf.p})
			}
			c.set(e, v, x)
		}
		return
	}
	if strings.HasSuffix(n, "Pool).Put") {
		k := fmt.Sprintf("%p|%s", in, c.str)
		if !e.putSeen[k] {
			e.putSeen[k] = true
			e.puts = append(e.puts, ewrite{in: in, ctx: c})
		}
		return
	}
	// closures given to code outside are called by it
	for i := range args {
		for l := range args[i][""].all() {
			if l.o.kind == 'f' && l.o.fn != nil && entered(l.o.fn) {
				as := make([]eval, len(l.o.fn.Params))
				for j, p := range l.o.fn.Params {
					as[j] = eval{}
					for _, lf := range e.leaves(p.Type()) {
						for k := range args {
							as[j].join(lf.p, e.elemsOf(args[k], lf.t))
						}
					}
				}
				var clo *eobj
				if len(l.o.fn.FreeVars) > 0 {
					clo = l.o
				}
				save := in
				e.enterOnly(c, save, l.o.fn, clo, as)
			}
		}
	}
	// results: made outside, or one of the arguments of the same type handed back
	v, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rt := f.Signature.Results().At(i).Type()
		x := eval{}
		for _, lf := range e.leaves(rt) {
			o := e.initial("ext", lf.t)
			if _, ok := lf.t.Underlying().(*types.Slice); ok && freshResult(n) {
				o = one(eloc{e.alloc(c, in, lf.t), ""})
			}
			for l := range o.all() {
				x.add(lf.p, l)
			}
			if freshResult(n) {
				continue
			}
			for k, a := range in.Common().Args {
				if k < len(args) && types.Identical(a.Type().Underlying(), lf.t.Underlying()) && !types.IsInterface(lf.t) {
					for l := range args[k][""].all() {
						x.add(lf.p, l)
					}
				}
			}
		}
		if f.Signature.Results().Len() > 1 {
			x = x.under(fmt.Sprintf("#%d", i))
		}
		c.set(e, v, x)
	}
}

func freshResult(n string) bool {
	switch n {
	case "bytes.Clone", "slices.Clone", "bytes.ToUpper", "bytes.ToLower", "bytes.Repeat", "bytes.Join", "bytes.ReplaceAll", "bytes.Replace", "maps.Clone", "slices.Concat", "bytes.Map":
		return true
	}
	return false
}

func (e *effects) enterOnly(c *ectx, in ssa.CallInstruction, f *ssa.Function, clo *eobj, args []eval) {
	n := e.context(f, c, in, clo)
	for i, p := range f.Params {
		if i < len(args) {
			n.set(e, p, args[i])
		}
	}
	if clo != nil {
		e.reads(clo)
		for i, fv := range f.FreeVars {
			v := eval{}
			pre := fmt.Sprintf("#%d", i)
			for p, s := range clo.cells {
				if p == pre || strings.HasPrefix(p, pre+".") || strings.HasPrefix(p, pre+"[") {
					v.join(p[len(pre):], s)
				}
			}
			n.set(e, fv, v)
		}
	}
}

// elemsOf: what a container argument could hand to a callback taking t
func (e *effects) elemsOf(a eval, t types.Type) eset {
	out := &ebits{}
	for l := range a[""].all() {
		if l.o.kind == 'p' {
			for x := range e.initial(l.o.root, t).all() {
				out.put(x)
			}
		}
		e.reads(l.o)
		for q, s := range l.o.cells {
			if strings.HasPrefix(q, l.p+"[") {
				for x := range s.all() {
					out.put(x)
				}
			}
		}
	}
	return out
}

// reaches: every object that can be reached from these pointers
func (e *effects) reachable(v eval) map[*eobj]bool {
	seen := map[*eobj]bool{}
	var work []*eobj
	push := func(o *eobj) {
		if !seen[o] {
			seen[o] = true
			work = append(work, o)
		}
	}
	for _, s := range v {
		for l := range s.all() {
			push(l.o)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range o.cells {
			for l := range s.all() {
				push(l.o)
			}
		}
	}
	return seen
}
