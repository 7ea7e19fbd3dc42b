package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The bounds engine: a demand-driven (ABCD-style) linear-inequality analysis over SSA.
//
// Facts at a program point are the branch conditions on dominating edges, the definitional
// equations of SSA values, type ranges, inductive loop invariants (Houdini) and the facts that
// hold at the return sites of inlined callees. An obligation is discharged when the facts entail
// it; when they do not, the engine refines the merge point (phi, call return, join) the
// obligation depends on and requires the obligation on every incoming edge.
//
// Assumptions: 64-bit int; no slice or string is longer than 2 GiB - 1 KiB; machine-word
// (int/uint) quantities that are not computed here stay within +-2^62.

var (
	bigMaxLen = big.NewInt(1<<30 - 1024)
	bigWordLo = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 62))
	bigWordHi = new(big.Int).Lsh(big.NewInt(1), 62)
)

type Atom struct {
	val    ssa.Value // the value an opaque symbol stands for
	sum    *Lin      // the exact value a wrapped symbol was computed from
	id     Sym
	key    string
	lo, hi *big.Int
	fr     *Frame
	blk    *ssa.BasicBlock
	split  *splitPt
	inv    []ginv
	deps   []Sym // the atoms a wrapped expression was built from
	el     *elRef
}

// elRef: the atom is element idx of the object root, at memory version ver
type elRef struct {
	root, ver string
	idx       *Lin
}

type splitPt struct {
	fr    *Frame
	blk   *ssa.BasicBlock     // merge block (phi / memory phi), or
	call  ssa.CallInstruction // multi-return call, or
	asm   *Frame              // assumed-call frame
	errIx int
	loop  bool
}

func (s *splitPt) key() string {
	if s.asm != nil {
		return fmt.Sprintf("a%d", s.asm.id)
	}
	if s.call != nil {
		return fmt.Sprintf("c%d:%s", s.fr.id, callID(s.call))
	}
	return fmt.Sprintf("b%d:%d", s.fr.id, s.blk.Index)
}

func callID(c ssa.CallInstruction) string {
	if v := c.Value(); v != nil {
		return v.Name()
	}
	return fmt.Sprintf("i%d_%d", c.Block().Index, instrIndex(c))
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

type argRef struct {
	fr *Frame
	v  ssa.Value
}

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	call   ssa.CallInstruction
	args   []argRef         // explicit binding for assumed-call frames
	mk     *ssa.MakeClosure // closure frame: entered some time after its creation in the parent
	depth  int
	hyps   []*hyp // hypotheses (root frames)
}

// hyp is a hypothesis at a root frame: a call to fn with the given arguments returned a nil error.
type hyp struct {
	frame *Frame // the assumed-call frame
	errIx int
}

func (f *Frame) root() *Frame {
	for f.parent != nil {
		f = f.parent
	}
	return f
}
func (f *Frame) inChain(fn *ssa.Function) bool {
	for x := f; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}
func (f *Frame) String() string {
	s := fnName(f.fn)
	if f.parent != nil {
		s = f.parent.String() + " -> " + s
	}
	return s
}

type fact struct {
	l  *Lin
	ne bool // l != 0 instead of l >= 0
}

type frBlk struct {
	fr  *Frame
	blk *ssa.BasicBlock
}
type frVal struct {
	fr *Frame
	v  ssa.Value
}

type frVal2 struct {
	frVal
	lvl int
}
type frBlk2 struct {
	frBlk
	lvl int
}

// Ctx is one case of a proof: the incoming edges and return sites chosen so far. Facts that hold at
// the chosen return sites (extra) are evaluated in order, each with the earlier ones available (lvl).
type Ctx struct {
	choices map[string]int
	extra   []frBlk
	lvl     int
	memoE   map[frVal2]*Lin
	memoS   map[frVal2]*SV
	memoF   map[frBlk2][]fact
	memoC   map[frBlk2][]fact
	memoX   map[int][]fact
	busyF   map[frBlk2]bool
	added   []fact
	conds   []condExtra
	at      ssa.Instruction // the point of the block the goal is about (nil: its end)
}

// condExtra: the value equals a constant in this case (e.g. the error of an assumed call is nil)
type condExtra struct {
	fr *Frame
	v  ssa.Value
}

// ctxAt: for a goal about the point just before an instruction
func ctxAt(in ssa.Instruction) *Ctx {
	c := newCtx()
	c.at = in
	return c
}

func newCtx() *Ctx {
	return &Ctx{choices: map[string]int{}, memoE: map[frVal2]*Lin{}, memoS: map[frVal2]*SV{}, memoF: map[frBlk2][]fact{}, memoX: map[int][]fact{}, memoC: map[frBlk2][]fact{}, busyF: map[frBlk2]bool{}}
}
func (c *Ctx) with(k string, alt int, pts ...frBlk) *Ctx {
	n := newCtx()
	for a, b := range c.choices {
		n.choices[a] = b
	}
	n.choices[k] = alt
	n.extra = append(append([]frBlk{}, c.extra...), pts...)
	n.lvl = len(n.extra)
	n.added = c.added
	n.conds = c.conds
	n.at = c.at
	return n
}

// SV is an evaluated slice or string: a root object, an offset into it, and a length.
type SV struct {
	root string
	off  *Lin
	len  *Lin
	sp   *splitPt
}

type Engine struct {
	noInline map[*ssa.Function]bool
	guards   map[*ssa.Function]bool
	w        *World
	atoms    []*Atom
	idx      map[string]Sym
	frames   map[string]*Frame
	nframe   int
	vers     map[string]map[*ssa.BasicBlock]*version
	invs     map[frBlk][]*Lin
	invBusy  map[frBlk]bool
	headers  map[*ssa.Function]map[*ssa.BasicBlock][]int // header -> indices of back-edge preds
	hits     int
	steps    int
	clob     map[ssa.Instruction]modSet
	vb       map[vbKey]*version
	budget   int
	maxDepth int
	// valueFacts lets a rule add facts about atoms as they are met (e.g. invariants of a type)
	wide   bool // integers of machine-word type take every value of the type
	typed  bool // calls of Value.Type are atoms of the value, whenever they are made
	Trace  bool
	Dump   bool
	sinv   map[string][]*structInv
	assume func(c *Ctx) []fact
}

func newEngine(w *World) *Engine {
	return &Engine{w: w, guards: map[*ssa.Function]bool{}, idx: map[string]Sym{}, frames: map[string]*Frame{}, vers: map[string]map[*ssa.BasicBlock]*version{},
		invs: map[frBlk][]*Lin{}, invBusy: map[frBlk]bool{}, clob: map[ssa.Instruction]modSet{}, vb: map[vbKey]*version{}, headers: map[*ssa.Function]map[*ssa.BasicBlock][]int{}, maxDepth: 7}
}

func (e *Engine) rootFrame(fn *ssa.Function) *Frame {
	k := "root:" + fn.RelString(nil) + fmt.Sprintf("%p", fn)
	if f, ok := e.frames[k]; ok {
		return f
	}
	f := &Frame{id: e.nframe, fn: fn}
	e.nframe++
	e.frames[k] = f
	return f
}

func (e *Engine) child(fr *Frame, call ssa.CallInstruction, fn *ssa.Function) *Frame {
	k := fmt.Sprintf("%d:%s:%p", fr.id, callID(call), fn)
	if f, ok := e.frames[k]; ok {
		return f
	}
	f := &Frame{id: e.nframe, fn: fn, parent: fr, call: call, depth: fr.depth + 1}
	e.nframe++
	e.frames[k] = f
	return f
}

func (e *Engine) assumeFrame(fr *Frame, fn *ssa.Function, args []argRef, tag string) *Frame {
	k := fmt.Sprintf("asm:%d:%p:%s", fr.id, fn, tag)
	if f, ok := e.frames[k]; ok {
		return f
	}
	f := &Frame{id: e.nframe, fn: fn, parent: fr, args: args, depth: fr.depth + 1}
	e.nframe++
	e.frames[k] = f
	return f
}

// closureFrame is the frame of a closure whose only creation site is mk, in the frame of its creator.
func (e *Engine) closureFrame(fr *Frame, mk *ssa.MakeClosure) *Frame {
	k := fmt.Sprintf("mk:%d:%s", fr.id, mk.Name())
	if f, ok := e.frames[k]; ok {
		return f
	}
	f := &Frame{id: e.nframe, fn: mk.Fn.(*ssa.Function), parent: fr, mk: mk, depth: fr.depth + 1}
	e.nframe++
	e.frames[k] = f
	return f
}

// cell resolves a pointer to a variable that is assigned once, before anything else can see it, to the
// value it was assigned.
func (e *Engine) cell(fr *Frame, addr ssa.Value) (ssa.Value, *Frame) {
	for i := 0; i < 8; i++ {
		switch x := addr.(type) {
		case *ssa.FreeVar:
			a, ok := e.freeVar(fr, x)
			if !ok {
				return nil, nil
			}
			fr, addr = a.fr, a.v
		case *ssa.Alloc:
			if v := cellStore(x); v != nil {
				return v, fr
			}
			return nil, nil
		default:
			return nil, nil
		}
	}
	return nil, nil
}

func cellStore(a *ssa.Alloc) ssa.Value {
	var st *ssa.Store
	var others []ssa.Instruction
	var onlyRead func(v ssa.Value) bool
	onlyRead = func(v ssa.Value) bool {
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v && !onlyRead(x.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a || st != nil {
				return nil
			}
			st = x
		case *ssa.UnOp, *ssa.DebugRef:
			others = append(others, r)
		case *ssa.MakeClosure:
			others = append(others, r)
			for i, b := range x.Bindings {
				if b == a && !onlyRead(x.Fn.(*ssa.Function).FreeVars[i]) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	if st == nil {
		return nil
	}
	for _, o := range others {
		if o.Block() == st.Block() {
			if instrIndex(o) < instrIndex(st) {
				return nil
			}
		} else if !st.Block().Dominates(o.Block()) {
			return nil
		}
	}
	return st.Val
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
			return big.NewInt(0), nil
		}
		return nil, nil
	}
	pw := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	m1 := func(x *big.Int) *big.Int { return x.Sub(x, big.NewInt(1)) }
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return big.NewInt(0), big.NewInt(1)
	case types.Int8:
		return big.NewInt(-128), big.NewInt(127)
	case types.Int16:
		return big.NewInt(-32768), big.NewInt(32767)
	case types.Int32, types.UntypedRune:
		return big.NewInt(-1 << 31), big.NewInt(1<<31 - 1)
	case types.Int64, types.Int, types.UntypedInt:
		return new(big.Int).Neg(pw(63)), m1(pw(63))
	case types.Uint8:
		return big.NewInt(0), big.NewInt(255)
	case types.Uint16:
		return big.NewInt(0), big.NewInt(65535)
	case types.Uint32:
		return big.NewInt(0), big.NewInt(1<<32 - 1)
	case types.Uint64, types.Uint, types.Uintptr:
		return big.NewInt(0), m1(pw(64))
	}
	return nil, nil
}

// atomRange is typeRange with the machine-word assumption applied to opaque quantities.
func (e *Engine) atomRange(t types.Type) (lo, hi *big.Int) {
	if e.wide {
		return typeRange(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int:
			return bigWordLo, bigWordHi
		case types.Uint:
			return big.NewInt(0), bigWordHi
		}
	}
	return typeRange(t)
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (e *Engine) atom(key string, lo, hi *big.Int, fr *Frame, blk *ssa.BasicBlock, sp *splitPt) *Lin {
	if s, ok := e.idx[key]; ok {
		return linSym(s)
	}
	a := &Atom{id: Sym(len(e.atoms)), key: key, lo: lo, hi: hi, fr: fr, blk: blk, split: sp}
	e.atoms = append(e.atoms, a)
	e.idx[key] = a.id
	return linSym(a.id)
}

func (e *Engine) lenAtom(root string, fr *Frame, blk *ssa.BasicBlock, sp *splitPt) *Lin {
	return e.atom("len:"+root, big.NewInt(0), bigMaxLen, fr, blk, sp)
}

// ---- loops

func (e *Engine) loopHeaders(fn *ssa.Function) map[*ssa.BasicBlock][]int {
	if h, ok := e.headers[fn]; ok {
		return h
	}
	h := map[*ssa.BasicBlock][]int{}
	for _, b := range fn.Blocks {
		for i, p := range b.Preds {
			if b.Dominates(p) {
				h[b] = append(h[b], i)
			}
		}
	}
	e.headers[fn] = h
	return h
}

// ---- evaluation

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

func (e *Engine) ev(c *Ctx, fr *Frame, v ssa.Value) *Lin {
	k := frVal2{frVal{fr, v}, c.lvl}
	if l, ok := c.memoE[k]; ok {
		return l
	}
	e.steps++
	l := e.ev1(c, fr, v)
	c.memoE[k] = l
	return l
}

func (e *Engine) opaque(fr *Frame, v ssa.Value, sp *splitPt) *Lin {
	lo, hi := e.atomRange(v.Type())
	r := e.atom(fmt.Sprintf("v:%d:%s", fr.id, v.Name()), lo, hi, fr, blockOf(v), sp)
	if s, ok := r.soleSym(); ok && e.atoms[s].val == nil {
		e.atoms[s].val = v
		if e.atoms[s].fr == nil {
			e.atoms[s].fr = fr
		}
	}
	return r
}

func (e *Engine) param(fr *Frame, p *ssa.Parameter) (argRef, bool) {
	ix := -1
	for i, q := range fr.fn.Params {
		if q == p {
			ix = i
		}
	}
	if ix < 0 {
		return argRef{}, false
	}
	if fr.args != nil {
		if ix < len(fr.args) && fr.args[ix].v != nil {
			return fr.args[ix], true
		}
		return argRef{}, false
	}
	if fr.parent == nil || fr.call == nil {
		return argRef{}, false
	}
	cc := fr.call.Common()
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	if ix < len(args) {
		return argRef{fr.parent, args[ix]}, true
	}
	return argRef{}, false
}

func (e *Engine) freeVar(fr *Frame, fv *ssa.FreeVar) (argRef, bool) {
	mc := fr.mk
	if mc == nil {
		if fr.parent == nil || fr.call == nil {
			return argRef{}, false
		}
		var ok bool
		mc, ok = fr.call.Common().Value.(*ssa.MakeClosure)
		if !ok || mc.Fn != fr.fn {
			return argRef{}, false
		}
	}
	for i, f := range fr.fn.FreeVars {
		if f == fv && i < len(mc.Bindings) {
			return argRef{fr.parent, mc.Bindings[i]}, true
		}
	}
	return argRef{}, false
}

func (e *Engine) phiChoice(c *Ctx, fr *Frame, b *ssa.BasicBlock) (int, bool) {
	i, ok := c.choices[(&splitPt{fr: fr, blk: b}).key()]
	return i, ok
}

func (e *Engine) ev1(c *Ctx, fr *Frame, v ssa.Value) *Lin {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return linConst(0)
		}
		switch x.Value.Kind() {
		case constant.Int:
			if b, ok := new(big.Int).SetString(x.Value.ExactString(), 10); ok {
				return linBig(b)
			}
		case constant.Bool:
			if constant.BoolVal(x.Value) {
				return linConst(1)
			}
			return linConst(0)
		case constant.String:
			return e.atom("str:"+x.Value.ExactString(), big.NewInt(1), nil, nil, nil, nil)
		}
		if isInt(x.Type()) {
			if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
				return linConst(i)
			}
		}
		return e.atom("const:"+x.Value.ExactString()+typeKey(x.Type()), nil, nil, nil, nil, nil)
	case *ssa.Parameter:
		if a, ok := e.param(fr, x); ok {
			return e.ev(c, a.fr, a.v)
		}
		return e.opaque(fr, v, nil)
	case *ssa.FreeVar:
		if a, ok := e.freeVar(fr, x); ok {
			return e.ev(c, a.fr, a.v)
		}
		lo, hi := e.atomRange(v.Type())
		return e.atom(fmt.Sprintf("fv:%d:%s", fr.id, v.Name()), lo, hi, fr, nil, nil)
	case *ssa.Global, *ssa.Function, *ssa.Builtin:
		return e.atom("g:"+v.String()+fmt.Sprintf("%p", v), big.NewInt(1), nil, nil, nil, nil)
	case *ssa.Phi:
		if i, ok := e.phiChoice(c, fr, x.Block()); ok && i < len(x.Edges) {
			return e.ev(c, fr, x.Edges[i])
		}
		// all edges equal constants or same value
		first := x.Edges[0]
		same := true
		for _, ed := range x.Edges {
			if ed != first {
				same = false
			}
		}
		if same {
			return e.ev(c, fr, first)
		}
		_, isLoop := e.loopHeaders(fr.fn)[x.Block()]
		return e.opaque(fr, v, &splitPt{fr: fr, blk: x.Block(), loop: isLoop})
	case *ssa.BinOp:
		return e.evBin(c, fr, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			return linConst(1).sub(e.ev(c, fr, x.X))
		case token.SUB:
			if isInt(x.Type()) {
				return e.fit(c, fr, x, e.ev(c, fr, x.X).scale(-1), x.Type(), "neg")
			}
		case token.MUL:
			return e.evLoad(c, fr, x)
		case token.ARROW:
		}
		return e.opaque(fr, v, nil)
	case *ssa.Convert:
		st, dt := x.X.Type(), x.Type()
		if isInt(st) && isInt(dt) {
			return e.fit(c, fr, x, e.ev(c, fr, x.X), dt, "conv")
		}
		if (isStr(st) || isSliceT(st)) && (isStr(dt) || isSliceT(dt)) {
			return e.atom(fmt.Sprintf("sconv:%d:%s", fr.id, v.Name()), big.NewInt(0), nil, fr, x.Block(), nil)
		}
		return e.opaque(fr, v, nil)
	case *ssa.ChangeType:
		return e.ev(c, fr, x.X)
	case *ssa.ChangeInterface:
		return e.ev(c, fr, x.X)
	case *ssa.MakeInterface:
		return e.atom(fmt.Sprintf("mi:%d:%s", fr.id, v.Name()), big.NewInt(1), nil, fr, x.Block(), nil)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.MakeSlice:
		return e.atom(fmt.Sprintf("new:%d:%s", fr.id, v.Name()), big.NewInt(1), nil, fr, blockOf(v), nil)
	case *ssa.Slice:
		return e.atom(fmt.Sprintf("sl:%d:%s", fr.id, v.Name()), big.NewInt(0), nil, fr, x.Block(), nil)
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return e.atom("addr:"+e.addrKey(c, fr, v), big.NewInt(1), nil, fr, blockOf(v), nil)
	case *ssa.Field:
		return e.evField(c, fr, x)
	case *ssa.Extract:
		return e.evExtract(c, fr, x)
	case *ssa.Call:
		return e.evCall(c, fr, x)
	case *ssa.Lookup:
		if isStr(x.X.Type()) {
			sv := e.evS(c, fr, x.X)
			ix := sv.off.add(e.ev(c, fr, x.Index))
			return e.atom("sb:"+sv.root+"["+ix.key()+"]", big.NewInt(0), big.NewInt(255), fr, x.Block(), sv.sp)
		}
		return e.opaque(fr, v, nil)
	}
	return e.opaque(fr, v, nil)
}

// fit gives l as a value of type t when l provably fits, and an opaque atom keyed by l otherwise.
func (e *Engine) fit(c *Ctx, fr *Frame, x ssa.Instruction, l *Lin, t types.Type, op string) *Lin {
	blk := x.Block()
	lo, hi := typeRange(t)
	if lo == nil {
		return l
	}
	if e.inRange(c, fr, x, l, lo, hi) {
		return l
	}
	alo, ahi := typeRange(t)
	r := e.atom(op+":"+typeKey(t.Underlying())+":"+l.key(), alo, ahi, fr, blk, nil)
	if s, ok := r.soleSym(); ok && e.atoms[s].deps == nil {
		e.atoms[s].sum = l
		for d := range l.t {
			e.atoms[s].deps = append(e.atoms[s].deps, d)
		}
		sort.Slice(e.atoms[s].deps, func(i, j int) bool { return e.atoms[s].deps[i] < e.atoms[s].deps[j] })
	}
	return r
}

func (e *Engine) interval(l *Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for s, k := range l.t {
		a := e.atoms[s]
		al, ah := a.lo, a.hi
		if k < 0 {
			al, ah = ah, al
		}
		kb := big.NewInt(k)
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(kb, al))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(kb, ah))
			}
		}
	}
	return
}

func (e *Engine) inRange(c *Ctx, fr *Frame, x ssa.Instruction, l *Lin, lo, hi *big.Int) bool {
	il, ih := e.interval(l)
	okLo := il != nil && il.Cmp(lo) >= 0
	okHi := ih != nil && ih.Cmp(hi) <= 0
	if okLo && okHi {
		return true
	}
	if x.Block() == nil {
		return false
	}
	fs := e.factsAt(c, fr, x.Block(), x)
	if !okLo && !e.entails(fs, l.sub(linBig(lo))) {
		return false
	}
	if !okHi && !e.entails(fs, linBig(hi).sub(l)) {
		return false
	}
	return true
}

func (e *Engine) evBin(c *Ctx, fr *Frame, x *ssa.BinOp) *Lin {
	t := x.Type()
	switch x.Op {
	case token.ADD, token.SUB:
		if isInt(t) {
			a, b := e.ev(c, fr, x.X), e.ev(c, fr, x.Y)
			k := int64(1)
			if x.Op == token.SUB {
				k = -1
			}
			return e.fit(c, fr, x, a.addScaled(b, k), t, "ar")
		}
	case token.MUL:
		if isInt(t) {
			a, b := e.ev(c, fr, x.X), e.ev(c, fr, x.Y)
			if n, ok := b.constVal(); ok && n > -(1<<20) && n < 1<<20 {
				return e.fit(c, fr, x, a.scale(n), t, "ar")
			}
			if n, ok := a.constVal(); ok && n > -(1<<20) && n < 1<<20 {
				return e.fit(c, fr, x, b.scale(n), t, "ar")
			}
			lo, hi := e.atomRange(t)
			if al, _ := e.interval(a); al != nil && al.Sign() >= 0 {
				if bl, _ := e.interval(b); bl != nil && bl.Sign() >= 0 && t.Underlying().(*types.Basic).Kind() == types.Int {
					lo = big.NewInt(0)
				}
			}
			return e.atom("mul:"+typeKey(t)+a.key()+"*"+b.key(), lo, hi, fr, x.Block(), nil)
		}
	case token.AND:
		if isInt(t) {
			a, b := e.ev(c, fr, x.X), e.ev(c, fr, x.Y)
			if n, ok := a.constVal(); ok {
				if _, ok2 := b.constVal(); !ok2 {
					a, b = b, a
					_ = n
				}
			}
			if n, ok := b.constVal(); ok && n >= 0 {
				if m, ok := a.constVal(); ok {
					return linConst(m & n)
				}
				return e.atom("and:"+a.key()+"&"+b.key(), big.NewInt(0), big.NewInt(n), fr, x.Block(), nil)
			}
		}
	case token.OR, token.XOR:
		if l := e.matchLE(c, fr, x); l != nil {
			return l
		}
		if isInt(t) {
			a, b := e.ev(c, fr, x.X), e.ev(c, fr, x.Y)
			lo, hi := e.atomRange(t)
			if al, _ := e.interval(a); al != nil && al.Sign() >= 0 {
				if bl, _ := e.interval(b); bl != nil && bl.Sign() >= 0 {
					lo = big.NewInt(0)
				}
			}
			return e.atom(fmt.Sprintf("%s:%s:%s:%s", x.Op, typeKey(t), a.key(), b.key()), lo, hi, fr, x.Block(), nil)
		}
	case token.REM:
		if isInt(t) {
			a, b := e.ev(c, fr, x.X), e.ev(c, fr, x.Y)
			lo, hi := e.atomRange(t)
			if n, ok := b.constVal(); ok && n > 0 {
				hi = big.NewInt(n - 1)
				lo = big.NewInt(-(n - 1))
				if al, _ := e.interval(a); al != nil && al.Sign() >= 0 {
					lo = big.NewInt(0)
				}
			}
			return e.atom("rem:"+a.key()+"%"+b.key(), lo, hi, fr, x.Block(), nil)
		}
	case token.QUO, token.SHR:
		if isInt(t) {
			a, b := e.ev(c, fr, x.X), e.ev(c, fr, x.Y)
			lo, hi := e.atomRange(t)
			if al, ah := e.interval(a); al != nil && al.Sign() >= 0 {
				lo = big.NewInt(0)
				if ah != nil {
					hi = ah
					if n, ok := b.constVal(); ok && n > 0 {
						if x.Op == token.QUO {
							hi = new(big.Int).Div(ah, big.NewInt(n))
						} else if n < 64 {
							hi = new(big.Int).Rsh(ah, uint(n))
						}
					}
				}
			}
			return e.atom(fmt.Sprintf("%s:%s:%s:%s", x.Op, typeKey(t), a.key(), b.key()), lo, hi, fr, x.Block(), nil)
		}
	case token.SHL:
		if isInt(t) {
			a, b := e.ev(c, fr, x.X), e.ev(c, fr, x.Y)
			if n, ok := b.constVal(); ok && n >= 0 && n < 40 {
				return e.fit(c, fr, x, a.scale(1<<uint(n)), t, "ar")
			}
			lo, hi := e.atomRange(t)
			return e.atom("shl:"+typeKey(t)+a.key()+"<<"+b.key(), lo, hi, fr, x.Block(), nil)
		}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		a, b := e.evCmpOperand(c, fr, x.X), e.evCmpOperand(c, fr, x.Y)
		if a != nil && b != nil {
			d := a.sub(b)
			if n, ok := d.constVal(); ok && (isInt(x.X.Type()) || x.Op == token.EQL || x.Op == token.NEQ) {
				r := false
				switch x.Op {
				case token.EQL:
					r = n == 0
				case token.NEQ:
					r = n != 0
				case token.LSS:
					r = n < 0
				case token.LEQ:
					r = n <= 0
				case token.GTR:
					r = n > 0
				case token.GEQ:
					r = n >= 0
				}
				if r {
					return linConst(1)
				}
				return linConst(0)
			}
			return e.atom(fmt.Sprintf("cmp:%s:%s", x.Op, d.key()), big.NewInt(0), big.NewInt(1), fr, x.Block(), nil)
		}
	}
	return e.opaque(fr, x, nil)
}

// evCmpOperand evaluates a comparison operand; slices compare by root identity (nil only).
func (e *Engine) evCmpOperand(c *Ctx, fr *Frame, v ssa.Value) *Lin {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return linConst(0)
	}
	if isSliceT(v.Type()) {
		sv := e.evS(c, fr, v)
		return e.atom("nilp:"+sv.root, big.NewInt(0), nil, fr, blockOf(v), sv.sp)
	}
	if isStr(v.Type()) {
		sv := e.evS(c, fr, v)
		return e.atom("strid:"+sv.root+"+"+sv.off.key()+":"+sv.len.key(), nil, nil, fr, blockOf(v), sv.sp)
	}
	return e.ev(c, fr, v)
}

// matchLE recognises b[0] | b[1]<<8 | ... as the little-endian word at that offset.
func (e *Engine) matchLE(c *Ctx, fr *Frame, x *ssa.BinOp) *Lin {
	if !isInt(x.Type()) {
		return nil
	}
	type leaf struct {
		sh int64
		ad *ssa.IndexAddr
	}
	var leaves []leaf
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok {
			switch b.Op {
			case token.OR, token.ADD, token.XOR:
				return walk(b.X) && walk(b.Y)
			case token.SHL:
				k, ok := b.Y.(*ssa.Const)
				if !ok {
					if cv, ok2 := b.Y.(*ssa.Convert); ok2 {
						k, ok = cv.X.(*ssa.Const)
					}
				}
				if !ok || k == nil || k.Value == nil {
					return false
				}
				n, _ := constant.Int64Val(constant.ToInt(k.Value))
				m := len(leaves)
				if !walk(b.X) || len(leaves) != m+1 {
					return false
				}
				leaves[m].sh += n
				return true
			}
			return false
		}
		if cv, ok := v.(*ssa.Convert); ok {
			return walk(cv.X)
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				leaves = append(leaves, leaf{0, ia})
				return true
			}
		}
		return false
	}
	if !walk(x) {
		return nil
	}
	n := len(leaves)
	if n != 2 && n != 4 && n != 8 {
		return nil
	}
	sort.Slice(leaves, func(i, j int) bool { return leaves[i].sh < leaves[j].sh })
	var root string
	var off *Lin
	var sp *splitPt
	for i, l := range leaves {
		if l.sh != int64(8*i) || !isSliceT(l.ad.X.Type()) {
			return nil
		}
		sv := e.evS(c, fr, l.ad.X)
		o := sv.off.add(e.ev(c, fr, l.ad.Index))
		if i == 0 {
			root, off, sp = sv.root, o, sv.sp
			continue
		}
		if sv.root != root || !o.equal(off.addC(int64(i))) {
			return nil
		}
	}
	ver := e.verKey(c, fr, "E:byte", leaves[0].ad)
	return e.leWord(n, root, off, ver, x.Type(), fr, x.Block(), sp)
}

func (e *Engine) leWord(n int, root string, off *Lin, ver string, t types.Type, fr *Frame, blk *ssa.BasicBlock, sp *splitPt) *Lin {
	pw := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
	pw.Sub(pw, big.NewInt(1))
	base := e.atom(fmt.Sprintf("le%d:%s[%s]@%s", n, root, off.key(), ver), big.NewInt(0), pw, fr, blk, sp)
	lo, hi := typeRange(t)
	if lo != nil && pw.Cmp(hi) <= 0 {
		return base
	}
	l := e.atom("conv:"+typeKey(t.Underlying())+":"+base.key(), lo, hi, fr, blk, sp)
	if s, ok := l.soleSym(); ok && e.atoms[s].sum == nil {
		e.atoms[s].sum = base
	}
	return l
}

// ---- slices and strings

func (e *Engine) evS(c *Ctx, fr *Frame, v ssa.Value) *SV {
	k := frVal2{frVal{fr, v}, c.lvl}
	if s, ok := c.memoS[k]; ok {
		return s
	}
	e.steps++
	s := e.evS1(c, fr, v)
	c.memoS[k] = s
	return s
}

func (e *Engine) rootSV(key string, fr *Frame, blk *ssa.BasicBlock, sp *splitPt) *SV {
	return &SV{root: key, off: linConst(0), len: e.lenAtom(key, fr, blk, sp), sp: sp}
}

func (e *Engine) evS1(c *Ctx, fr *Frame, v ssa.Value) *SV {
	opaque := func(sp *splitPt) *SV {
		return e.rootSV(fmt.Sprintf("S%d:%s", fr.id, v.Name()), fr, blockOf(v), sp)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return &SV{root: "nil", off: linConst(0), len: linConst(0)}
		}
		if x.Value.Kind() == constant.String {
			return &SV{root: "lit:" + x.Value.ExactString(), off: linConst(0), len: linConst(int64(len(constant.StringVal(x.Value))))}
		}
	case *ssa.Parameter:
		if a, ok := e.param(fr, x); ok {
			return e.evS(c, a.fr, a.v)
		}
	case *ssa.FreeVar:
		if a, ok := e.freeVar(fr, x); ok {
			return e.evS(c, a.fr, a.v)
		}
	case *ssa.Phi:
		if i, ok := e.phiChoice(c, fr, x.Block()); ok && i < len(x.Edges) {
			return e.evS(c, fr, x.Edges[i])
		}
		_, isLoop := e.loopHeaders(fr.fn)[x.Block()]
		return opaque(&splitPt{fr: fr, blk: x.Block(), loop: isLoop})
	case *ssa.ChangeType:
		return e.evS(c, fr, x.X)
	case *ssa.Convert:
		if isSliceT(x.X.Type()) || isStr(x.X.Type()) {
			in := e.evS(c, fr, x.X)
			if isByteish(x.X.Type()) && isByteish(x.Type()) {
				return &SV{root: fmt.Sprintf("cv:%s+%s:%s", in.root, in.off.key(), in.len.key()), off: linConst(0), len: in.len, sp: in.sp}
			}
		}
	case *ssa.MakeSlice:
		return &SV{root: fmt.Sprintf("mk%d:%s", fr.id, v.Name()), off: linConst(0), len: e.ev(c, fr, x.Len)}
	case *ssa.Slice:
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			at := pt.Elem().Underlying().(*types.Array)
			lo, hi := linConst(0), linConst(at.Len())
			if x.Low != nil {
				lo = e.ev(c, fr, x.Low)
			}
			if x.High != nil {
				hi = e.ev(c, fr, x.High)
			}
			return &SV{root: "arr:" + e.ptrKey(c, fr, x.X), off: lo, len: hi.sub(lo)}
		}
		b := e.evS(c, fr, x.X)
		lo, hi := linConst(0), b.len
		if x.Low != nil {
			lo = e.ev(c, fr, x.Low)
		}
		if x.High != nil {
			hi = e.ev(c, fr, x.High)
		}
		return &SV{root: b.root, off: b.off.add(lo), len: hi.sub(lo), sp: b.sp}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if rv, rf, sp, key := e.load(c, fr, x.X, x); rv != nil {
				return e.evS(c, rf, rv)
			} else if key == "zero" {
				return &SV{root: "nil", off: linConst(0), len: linConst(0)}
			} else {
				sv := e.rootSV("L:"+key, fr, x.Block(), sp)
				e.attachInv(c, fr, x.X, x, sv.len)
				return sv
			}
		}
	case *ssa.Field:
		if rv, rf, sp, key := e.loadField(c, fr, x); rv != nil {
			return e.evS(c, rf, rv)
		} else if key == "zero" {
			return &SV{root: "nil", off: linConst(0), len: linConst(0)}
		} else if key != "" {
			return e.rootSV("L:"+key, fr, x.Block(), sp)
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if rv, rf, sp := e.callResult(c, fr, call, x.Index); rv != nil {
				return e.evS(c, rf, rv)
			} else {
				return opaque(sp)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				a := e.evS(c, fr, x.Call.Args[0])
				n := a.len
				if len(x.Call.Args) > 1 {
					n = n.add(e.evS(c, fr, x.Call.Args[1]).len)
				}
				return &SV{root: fmt.Sprintf("ap%d:%s", fr.id, v.Name()), off: linConst(0), len: n}
			}
		}
		if rv, rf, sp := e.callResult(c, fr, x, 0); rv != nil {
			return e.evS(c, rf, rv)
		} else {
			sv := opaque(sp)
			if first, via := e.sameLen(x); first != nil && isSliceT(x.Type()) {
				in := fr
				if via != nil {
					_, in, _ = e.callResult(c, fr, via, 0)
				}
				if in != nil {
					cp := *sv
					cp.len = e.evS(c, in, first).len
					return &cp
				}
			}
			return sv
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStr(x.Type()) {
			a, b := e.evS(c, fr, x.X), e.evS(c, fr, x.Y)
			return &SV{root: fmt.Sprintf("cat%d:%s", fr.id, v.Name()), off: linConst(0), len: a.len.add(b.len)}
		}
	}
	return opaque(nil)
}

func isByteish(t types.Type) bool {
	if isStr(t) {
		return true
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Uint8
		}
	}
	return false
}

// ---- memory

type version struct {
	kind string // "entry", "instr", "phi"
	in   ssa.Instruction
	blk  *ssa.BasicBlock
}

func (v *version) String() string {
	switch v.kind {
	case "instr":
		return fmt.Sprintf("i%d.%d", v.in.Block().Index, instrIndex(v.in))
	case "phi":
		return fmt.Sprintf("p%d", v.blk.Index)
	}
	return "0"
}

func (e *Engine) clobbers(in ssa.Instruction, class string) bool {
	switch x := in.(type) {
	case *ssa.Store:
		return classClobbers(addrClass(x.Addr), class)
	case ssa.CallInstruction:
		m, ok := e.clob[in]
		if !ok {
			m = callMods(e.w, x, func(f *ssa.Function) modSet { return e.w.modsOf(f) })
			e.clob[in] = m
		}
		return m.clobbers(class)
	}
	return false
}

func (w *World) modsOf(f *ssa.Function) modSet { return w.mods[f] }

func (e *Engine) lastClobber(b *ssa.BasicBlock, before int, class string) ssa.Instruction {
	for i := before - 1; i >= 0; i-- {
		if e.clobbers(b.Instrs[i], class) {
			return b.Instrs[i]
		}
	}
	return nil
}

func (e *Engine) versions(fn *ssa.Function, class string) map[*ssa.BasicBlock]*version {
	k := fmt.Sprintf("%p|%s", fn, class)
	if v, ok := e.vers[k]; ok {
		return v
	}
	in := map[*ssa.BasicBlock]*version{}
	last := map[*ssa.BasicBlock]ssa.Instruction{}
	for _, b := range fn.Blocks {
		last[b] = e.lastClobber(b, len(b.Instrs), class)
	}
	ivs := map[ssa.Instruction]*version{}
	pvs := map[*ssa.BasicBlock]*version{}
	entry := &version{kind: "entry"}
	out := func(b *ssa.BasicBlock) *version {
		if l := last[b]; l != nil {
			if ivs[l] == nil {
				ivs[l] = &version{kind: "instr", in: l}
			}
			return ivs[l]
		}
		return in[b]
	}
	changed := true
	for changed {
		changed = false
		for _, b := range fn.Blocks {
			var m *version
			if len(b.Preds) == 0 {
				m = entry
			} else {
				phi := false
				for _, p := range b.Preds {
					o := out(p)
					if o == nil {
						continue
					}
					if m == nil {
						m = o
					} else if m != o {
						phi = true
					}
				}
				if phi || (in[b] != nil && in[b].kind == "phi" && in[b].blk == b) {
					if pvs[b] == nil {
						pvs[b] = &version{kind: "phi", blk: b}
					}
					m = pvs[b]
				}
			}
			if m != nil && in[b] != m {
				in[b] = m
				changed = true
			}
		}
	}
	e.vers[k] = in
	return in
}

type vbKey struct {
	in    ssa.Instruction
	class string
}

func (e *Engine) verBefore(fn *ssa.Function, in ssa.Instruction, class string) *version {
	k := vbKey{in, class}
	if v, ok := e.vb[k]; ok {
		return v
	}
	v := e.verBefore1(fn, in, class)
	e.vb[k] = v
	return v
}

func (e *Engine) verBefore1(fn *ssa.Function, in ssa.Instruction, class string) *version {
	b := in.Block()
	if l := e.lastClobber(b, instrIndex(in), class); l != nil {
		return &version{kind: "instr", in: l}
	}
	if v := e.versions(fn, class)[b]; v != nil {
		return v
	}
	return &version{kind: "entry"}
}

// verKey resolves the version of a class at an instruction through entry of inlined frames.
func (e *Engine) verKey(c *Ctx, fr *Frame, class string, at ssa.Instruction) string {
	v := e.verBefore(fr.fn, at, class)
	f := fr
	for i := 0; i < 40; i++ {
		switch v.kind {
		case "entry":
			if f.parent == nil {
				return "0"
			}
			if f.call == nil { // assumed call: at the entry of the root
				f = f.parent
				v = &version{kind: "entry"}
				continue
			}
			v = e.verBefore(f.parent.fn, f.call, class)
			f = f.parent
			continue
		case "phi":
			if ix, ok := e.phiChoice(c, f, v.blk); ok {
				p := v.blk.Preds[ix]
				v = e.outVer(f.fn, p, class)
				continue
			}
		case "instr":
			if call, ok := v.in.(ssa.CallInstruction); ok {
				if ch, ret := e.calleeReturn(c, f, call); ch != nil && ret != nil {
					nv := e.verBefore(ch.fn, ret, class)
					f, v = ch, nv
					continue
				}
			}
		}
		return fmt.Sprintf("%d:%s", f.id, v)
	}
	return fmt.Sprintf("%d:%s", f.id, v)
}

func (e *Engine) outVer(fn *ssa.Function, b *ssa.BasicBlock, class string) *version {
	if l := e.lastClobber(b, len(b.Instrs), class); l != nil {
		return &version{kind: "instr", in: l}
	}
	if v := e.versions(fn, class)[b]; v != nil {
		return v
	}
	return &version{kind: "entry"}
}

func (e *Engine) ptrKey(c *Ctx, fr *Frame, p ssa.Value) string {
	return e.ev(c, fr, p).key()
}

func (e *Engine) addrKey(c *Ctx, fr *Frame, a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		_, st := derefStruct(x.X.Type())
		return e.ptrKey(c, fr, x.X) + "." + st.Field(x.Field).Name()
	case *ssa.IndexAddr:
		if isSliceT(x.X.Type()) {
			sv := e.evS(c, fr, x.X)
			return "el:" + sv.root + "[" + sv.off.add(e.ev(c, fr, x.Index)).key() + "]"
		}
		return "el:arr:" + e.ptrKey(c, fr, x.X) + "[" + e.ev(c, fr, x.Index).key() + "]"
	}
	return e.ptrKey(c, fr, a)
}

// addrBase gives the allocation a pointer is based on, if it is a fresh object.
func (e *Engine) addrBase(c *Ctx, fr *Frame, a ssa.Value) (*Atom, bool) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return e.addrBase(c, fr, x.X)
	case *ssa.IndexAddr:
		if isSliceT(x.X.Type()) {
			return nil, false
		}
		return e.addrBase(c, fr, x.X)
	}
	l := e.ev(c, fr, a)
	if s, ok := l.soleSym(); ok {
		return e.atoms[s], true
	}
	return nil, false
}

// calleeReturn: the frame and return instruction of a call whose return site is known.
func (e *Engine) calleeReturn(c *Ctx, fr *Frame, call ssa.CallInstruction) (*Frame, *ssa.Return) {
	if _, ok := call.(*ssa.Call); !ok {
		return nil, nil
	}
	fn := call.Common().StaticCallee()
	if fn == nil || !e.w.bodyOf(fn) || fr.depth >= e.maxDepth || fr.inChain(fn) || e.noInline[fn] {
		return nil, nil
	}
	rets := returnsOf(fn)
	if len(rets) == 1 {
		return e.child(fr, call, fn), rets[0]
	}
	if i, ok := c.choices[(&splitPt{fr: fr, call: call}).key()]; ok && i < len(rets) {
		return e.child(fr, call, fn), rets[i]
	}
	return nil, nil
}

func returnsOf(fn *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

// load resolves *addr at instruction `at`: the stored value (and its frame), or a key for the opaque content.
func (e *Engine) load(c *Ctx, fr *Frame, addr ssa.Value, at ssa.Instruction) (ssa.Value, *Frame, *splitPt, string) {
	if v, f := e.cell(fr, addr); v != nil {
		return v, f, nil, ""
	}
	class := addrClass(addr)
	key := e.addrKey(c, fr, addr)
	base, okb := e.addrBase(c, fr, addr)
	return e.resolve(c, fr, class, key, base, okb, e.verBefore(fr.fn, at, class))
}

func (e *Engine) isFresh(a *Atom) bool { return a != nil && strings.HasPrefix(a.key, "new:") }

func (e *Engine) resolve(c *Ctx, fr *Frame, class, key string, base *Atom, okb bool, v *version) (ssa.Value, *Frame, *splitPt, string) {
	f := fr
	for i := 0; i < 60; i++ {
		switch v.kind {
		case "entry":
			if okb && e.isFresh(base) && (base.fr == f || f.parent == nil) && !strings.HasPrefix(class, "E:") {
				return nil, nil, nil, "zero"
			}
			if f.parent == nil {
				return nil, nil, nil, key + "@0"
			}
			if f.mk != nil {
				return nil, nil, nil, fmt.Sprintf("%s@%d:entry", key, f.id)
			}
			if f.call == nil {
				f = f.parent
				v = &version{kind: "entry"}
				continue
			}
			v = e.verBefore(f.parent.fn, f.call, class)
			f = f.parent
			continue
		case "phi":
			if ix, ok := e.phiChoice(c, f, v.blk); ok {
				v = e.outVer(f.fn, v.blk.Preds[ix], class)
				continue
			}
			_, isLoop := e.loopHeaders(f.fn)[v.blk]
			return nil, nil, &splitPt{fr: f, blk: v.blk, loop: isLoop}, fmt.Sprintf("%s@%d:%s", key, f.id, v)
		case "instr":
			if st, ok := v.in.(*ssa.Store); ok {
				if addrClass(st.Addr) == class {
					k2 := e.addrKey(c, f, st.Addr)
					if k2 == key {
						return st.Val, f, nil, ""
					}
					b2, ok2 := e.addrBase(c, f, st.Addr)
					if e.distinct(key, base, okb, k2, b2, ok2) {
						v = e.verBefore(f.fn, st, class)
						continue
					}
				} else if strings.HasPrefix(class, "F:") {
					// whole-struct store: distinct object?
					b2, ok2 := e.addrBase(c, f, st.Addr)
					if e.distinct(key, base, okb, "", b2, ok2) {
						v = e.verBefore(f.fn, st, class)
						continue
					}
					if okb && ok2 && base == b2 {
						// *p = T{...}: composite built in place is stored field-wise by ssa; a struct
						// value loaded elsewhere: read its field
						if u, ok := st.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
							fieldName := class[strings.LastIndex(class, ".")+1:]
							nb, nok := e.addrBase(c, f, u.X)
							nk := e.ptrKey(c, f, u.X) + "." + fieldName
							return e.resolve(c, f, class, nk, nb, nok, e.verBefore(f.fn, u, class))
						}
					}
				}
				return nil, nil, nil, fmt.Sprintf("%s@%d:%s", key, f.id, v)
			}
			if call, ok := v.in.(ssa.CallInstruction); ok {
				if okb && e.preexists(base) && strings.HasPrefix(class, "F:") {
					if !callMods(e.w, call, func(g *ssa.Function) modSet { return e.w.oldMods[g] }).clobbers(class) {
						v = e.verBefore(f.fn, call, class)
						continue
					}
				}
				if ch, ret := e.calleeReturn(c, f, call); ch != nil && ret != nil {
					nv := e.verBefore(ch.fn, ret, class)
					f, v = ch, nv
					continue
				}
				var sp *splitPt
				if fn := call.Common().StaticCallee(); fn != nil && e.w.bodyOf(fn) && !f.inChain(fn) && f.depth < e.maxDepth {
					sp = &splitPt{fr: f, call: call}
				}
				return nil, nil, sp, fmt.Sprintf("%s@%d:call%s", key, f.id, v)
			}
		}
		return nil, nil, nil, fmt.Sprintf("%s@%d:%s", key, f.id, v)
	}
	return nil, nil, nil, fmt.Sprintf("%s@%d:%s?", key, f.id, v)
}

// preexists: the object was handed to the root frame, or reached from what was
func (e *Engine) preexists(b *Atom) bool {
	return b != nil && (strings.HasPrefix(b.key, "v:") && b.fr != nil && b.fr.parent == nil && b.blk == nil || strings.HasPrefix(b.key, "L:") && strings.HasSuffix(b.key, "@0"))
}

func (e *Engine) distinct(k1 string, b1 *Atom, ok1 bool, k2 string, b2 *Atom, ok2 bool) bool {
	if ok1 && ok2 && b1 != b2 {
		f1, f2 := e.isFresh(b1), e.isFresh(b2)
		if f1 && f2 {
			return true
		}
		// a fresh object never aliases something the root frame was given
		g1 := strings.HasPrefix(b1.key, "v:") && b1.fr != nil && b1.fr.parent == nil && b1.blk == nil
		g2 := strings.HasPrefix(b2.key, "v:") && b2.fr != nil && b2.fr.parent == nil && b2.blk == nil
		l1, l2 := strings.HasSuffix(b1.key, "@0"), strings.HasSuffix(b2.key, "@0")
		if f1 && (g2 || l2) || f2 && (g1 || l1) {
			return true
		}
	}
	return false
}

func (e *Engine) evLoad(c *Ctx, fr *Frame, x *ssa.UnOp) *Lin {
	if isSliceT(x.Type()) || isStr(x.Type()) {
		return e.opaque(fr, x, nil)
	}
	if g, ok := x.X.(*ssa.Global); ok {
		// package-level error values are initialised once
		if types.Identical(x.Type(), types.Universe.Lookup("error").Type()) && !e.globalReassigned(g) {
			return e.atom("gv:"+g.String(), big.NewInt(1), nil, nil, nil, nil)
		}
	}
	rv, rf, sp, key := e.load(c, fr, x.X, x)
	if rv != nil {
		return e.ev(c, rf, rv)
	}
	lo, hi := e.atomRange(x.Type())
	if key == "zero" {
		if _, ok := x.Type().Underlying().(*types.Struct); !ok {
			return linConst(0)
		}
	}
	l := e.atom("L:"+key, lo, hi, fr, x.Block(), sp)
	if ia, ok := x.X.(*ssa.IndexAddr); ok && isSliceT(ia.X.Type()) {
		if s, ok := l.soleSym(); ok && e.atoms[s].el == nil {
			sv := e.evS(c, fr, ia.X)
			e.atoms[s].el = &elRef{sv.root, key[strings.LastIndex(key, "@")+1:], sv.off.add(e.ev(c, fr, ia.Index))}
		}
	}
	e.attachInv(c, fr, x.X, x, l)
	return l
}

func (e *Engine) globalReassigned(g *ssa.Global) bool {
	if g.Pkg == nil || !inRepo(g.Pkg.Pkg.Path()) {
		return false
	}
	for _, f := range e.w.Funcs {
		if f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					return true
				}
			}
		}
	}
	return false
}

func (e *Engine) loadField(c *Ctx, fr *Frame, x *ssa.Field) (ssa.Value, *Frame, *splitPt, string) {
	u, ok := x.X.(*ssa.UnOp)
	f := fr
	if !ok {
		if p, isP := x.X.(*ssa.Parameter); isP {
			if a, ok2 := e.param(fr, p); ok2 {
				u, ok = a.v.(*ssa.UnOp)
				f = a.fr
			}
		}
	}
	if !ok || u.Op != token.MUL {
		return nil, nil, nil, ""
	}
	t, st := derefStruct(u.X.Type())
	if st == nil {
		return nil, nil, nil, ""
	}
	name := st.Field(x.Field).Name()
	class := "F:" + typeKey(t) + "." + name
	base, okb := e.addrBase(c, f, u.X)
	return e.resolve(c, f, class, e.ptrKey(c, f, u.X)+"."+name, base, okb, e.verBefore(f.fn, u, class))
}

func (e *Engine) evField(c *Ctx, fr *Frame, x *ssa.Field) *Lin {
	rv, rf, sp, key := e.loadField(c, fr, x)
	if rv != nil {
		return e.ev(c, rf, rv)
	}
	if key == "zero" {
		return linConst(0)
	}
	if key != "" {
		lo, hi := e.atomRange(x.Type())
		return e.atom("L:"+key, lo, hi, fr, x.Block(), sp)
	}
	return e.opaque(fr, x, nil)
}

// ---- calls

func calleeFull(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return f.RelString(nil)
	}
	if c.IsInvoke() {
		return "iface." + c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

// callResult resolves result ix of a call to a value in the callee's frame when the return site is determined.
func (e *Engine) callResult(c *Ctx, fr *Frame, call *ssa.Call, ix int) (ssa.Value, *Frame, *splitPt) {
	fn := call.Call.StaticCallee()
	if fn == nil || !e.w.bodyOf(fn) || e.noInline[fn] {
		return nil, nil, nil
	}
	if ch, ret := e.calleeReturn(c, fr, call); ch != nil {
		if ix < len(ret.Results) {
			return ret.Results[ix], ch, nil
		}
		return nil, nil, nil
	}
	if fr.depth < e.maxDepth && !fr.inChain(fn) && len(returnsOf(fn)) > 1 {
		return nil, nil, &splitPt{fr: fr, call: call}
	}
	return nil, nil, nil
}

func (e *Engine) evExtract(c *Ctx, fr *Frame, x *ssa.Extract) *Lin {
	if call, ok := x.Tuple.(*ssa.Call); ok {
		rv, rf, sp := e.callResult(c, fr, call, x.Index)
		if rv != nil {
			return e.ev(c, rf, rv)
		}
		if l := e.extResult(c, fr, call, x.Index, x.Type()); l != nil {
			return l
		}
		return e.opaque(fr, x, sp)
	}
	return e.opaque(fr, x, nil)
}

func (e *Engine) evCall(c *Ctx, fr *Frame, x *ssa.Call) *Lin {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			a := x.Call.Args[0]
			if isSliceT(a.Type()) || isStr(a.Type()) {
				return e.evS(c, fr, a).len
			}
			if n, ok := arrayLen(a.Type()); ok {
				return linConst(n)
			}
			return e.atom(fmt.Sprintf("v:%d:%s", fr.id, x.Name()), big.NewInt(0), bigMaxLen, fr, x.Block(), nil)
		case "cap":
			a := x.Call.Args[0]
			if isSliceT(a.Type()) {
				sv := e.evS(c, fr, a)
				return e.atom("cap:"+sv.root+sv.off.key(), big.NewInt(0), bigMaxLen, fr, x.Block(), nil)
			}
		case "copy":
			if e.copiesAll(c, fr, x) {
				return e.evS(c, fr, x.Call.Args[1]).len
			}
			return e.atom(fmt.Sprintf("v:%d:%s", fr.id, x.Name()), big.NewInt(0), bigMaxLen, fr, x.Block(), nil)
		case "min", "max":
			return e.opaque(fr, x, nil)
		}
		return e.opaque(fr, x, nil)
	}
	if e.typed && isTypeMethod(x.Call.StaticCallee()) {
		return e.typeTag(c, fr, x.Call.Args[0])
	}
	rv, rf, sp := e.callResult(c, fr, x, 0)
	if rv != nil {
		return e.ev(c, rf, rv)
	}
	if l := e.extResult(c, fr, x, 0, x.Type()); l != nil {
		return l
	}
	return e.opaque(fr, x, sp)
}

// copiesAll: the destination has room for the whole source
func (e *Engine) copiesAll(c *Ctx, fr *Frame, x *ssa.Call) bool {
	d := e.evS(c, fr, x.Call.Args[0]).len.sub(e.evS(c, fr, x.Call.Args[1]).len)
	if lo, _ := e.interval(d); lo != nil && lo.Sign() >= 0 {
		return true
	}
	return e.entails(e.factsAt(c, fr, x.Block(), x), d)
}

func arrayLen(t types.Type) (int64, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// extResult models the external calls whose results matter for bounds.
func (e *Engine) extResult(c *Ctx, fr *Frame, call *ssa.Call, ix int, t types.Type) *Lin {
	name := calleeFull(&call.Call)
	args := call.Call.Args
	switch name {
	case "errors.New", "fmt.Errorf", "errors.Join":
		if name != "errors.Join" {
			return e.atom(fmt.Sprintf("err:%d:%s", fr.id, call.Name()), big.NewInt(1), nil, fr, call.Block(), nil)
		}
	case "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		n := 2
		if strings.HasSuffix(name, "32") {
			n = 4
		} else if strings.HasSuffix(name, "64") {
			n = 8
		}
		sv := e.evS(c, fr, args[len(args)-1])
		return e.leWord(n, sv.root, sv.off, e.verKey(c, fr, "E:byte", call), t, fr, call.Block(), sv.sp)
	}
	return nil
}

// callFacts are facts about the results of modelled external calls (added when the atom is relevant).
func (e *Engine) modelFacts(c *Ctx, fr *Frame, call *ssa.Call) []fact {
	name := calleeFull(&call.Call)
	args := call.Call.Args
	res := func(i int) *Lin {
		if call.Call.Signature().Results().Len() == 1 {
			return e.ev(c, fr, call)
		}
		for _, r := range *call.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
				return e.ev(c, fr, ex)
			}
		}
		return nil
	}
	var out []fact
	ge := func(l *Lin) { out = append(out, fact{l: l}) }
	switch name {
	case "builtin.copy":
		n := e.ev(c, fr, call)
		ge(e.evS(c, fr, args[0]).len.sub(n))
		ge(e.evS(c, fr, args[1]).len.sub(n))
	case "builtin.min":
		n := e.ev(c, fr, call)
		for _, a := range args {
			ge(e.ev(c, fr, a).sub(n))
		}
	case "builtin.max":
		n := e.ev(c, fr, call)
		for _, a := range args {
			ge(n.sub(e.ev(c, fr, a)))
		}
	case "bytes.IndexByte", "strings.IndexByte", "bytes.Index", "strings.Index", "strings.LastIndex", "bytes.IndexRune", "strings.IndexRune", "bytes.IndexAny", "strings.IndexAny":
		n := e.ev(c, fr, call)
		ge(n.addC(1))
		// the index of a match is smaller than the length when the needle is not empty
		ok := strings.HasSuffix(name, "IndexByte") || strings.HasSuffix(name, "IndexRune") || strings.HasSuffix(name, "IndexAny")
		if !ok {
			if k, isC := args[1].(*ssa.Const); isC && k.Value != nil && k.Value.Kind() == constant.String && len(constant.StringVal(k.Value)) > 0 {
				ok = true
			}
		}
		if ok {
			ge(e.evS(c, fr, args[0]).len.sub(n).addC(-1))
		} else {
			ge(e.evS(c, fr, args[0]).len.sub(n))
		}
	case "io.ReadFull", "io.ReadAtLeast":
		if n := res(0); n != nil {
			ge(n)
			ge(e.evS(c, fr, args[1]).len.sub(n))
		}
	case docValidate:
		// a document read from a buffer is no longer than the buffer
		if src, sf := e.docSource(c, fr, args[0]); src != nil {
			if n := res(0); n != nil {
				ge(n)
				ge(e.evS(c, sf, src).len.sub(n))
			}
		}
	case "iface.Read", "iface.Write":
		if n := res(0); n != nil && len(args) > 0 && isSliceT(args[0].Type()) {
			ge(n)
			ge(e.evS(c, fr, args[0]).len.sub(n))
		}
	}
	return out
}

const docValidate = "(*" + modPath + ".Document).Validate"

// docSource: the bytes a document was read from
func (e *Engine) docSource(c *Ctx, fr *Frame, v ssa.Value) (ssa.Value, *Frame) {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			a, ok := e.param(fr, x)
			if !ok {
				return nil, nil
			}
			v, fr = a.v, a.fr
		case *ssa.Phi:
			ix, ok := e.phiChoice(c, fr, x.Block())
			if !ok || ix >= len(x.Edges) {
				return nil, nil
			}
			v = x.Edges[ix]
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, nil
			}
			rv, rf, _, _ := e.load(c, fr, x.X, x)
			if rv == nil {
				return nil, nil
			}
			v, fr = rv, rf
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && calleeFull(&call.Call) == modPath+".ReadDocument" {
				return call.Call.Args[0], fr
			}
			return nil, nil
		default:
			return nil, nil
		}
	}
	return nil, nil
}

// ---- facts

func (e *Engine) condFacts(c *Ctx, fr *Frame, v ssa.Value, truth bool) []fact {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.condFacts(c, fr, x.X, !truth)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			bt, isB := x.X.Type().Underlying().(*types.Basic)
			if isB && bt.Info()&types.IsFloat != 0 {
				return nil
			}
			if isB && bt.Info()&types.IsString != 0 && x.Op != token.EQL && x.Op != token.NEQ {
				return nil
			}
			if isB && bt.Info()&types.IsString != 0 {
				return e.strEqFacts(c, fr, x, truth)
			}
			a, b := e.evCmpOperand(c, fr, x.X), e.evCmpOperand(c, fr, x.Y)
			if a == nil || b == nil {
				return nil
			}
			op := x.Op
			if !truth {
				switch op {
				case token.EQL:
					op = token.NEQ
				case token.NEQ:
					op = token.EQL
				case token.LSS:
					op = token.GEQ
				case token.LEQ:
					op = token.GTR
				case token.GTR:
					op = token.LEQ
				case token.GEQ:
					op = token.LSS
				}
			}
			switch op {
			case token.EQL:
				fs := []fact{{l: a.sub(b)}, {l: b.sub(a)}}
				// nil slice has length zero
				if isSliceT(x.X.Type()) {
					if k, ok := x.Y.(*ssa.Const); ok && k.Value == nil {
						n := e.evS(c, fr, x.X).len
						fs = append(fs, fact{l: n}, fact{l: n.scale(-1)})
					}
				}
				return fs
			case token.NEQ:
				return []fact{{l: a.sub(b), ne: true}}
			case token.LSS:
				return []fact{{l: b.sub(a).addC(-1)}}
			case token.LEQ:
				return []fact{{l: b.sub(a)}}
			case token.GTR:
				return []fact{{l: a.sub(b).addC(-1)}}
			case token.GEQ:
				return []fact{{l: a.sub(b)}}
			}
		}
	}
	var also []fact
	if e.typed {
		also = e.okFact(c, fr, v, truth)
	}
	if rv, rf := e.boolSrc(c, fr, v); rv != nil {
		return append(also, e.condFacts(c, rf, rv, truth)...)
	}
	if also != nil {
		return also
	}
	l := e.ev(c, fr, v)
	if truth {
		return []fact{{l: l.addC(-1)}}
	}
	return []fact{{l: l.scale(-1)}}
}

// boolSrc: the expression a boolean was computed by, when the context determines it
func (e *Engine) boolSrc(c *Ctx, fr *Frame, v ssa.Value) (ssa.Value, *Frame) {
	switch x := v.(type) {
	case *ssa.Parameter:
		if a, ok := e.param(fr, x); ok {
			return a.v, a.fr
		}
	case *ssa.Call:
		if _, bi := x.Call.Value.(*ssa.Builtin); !bi {
			if rv, rf, _ := e.callResult(c, fr, x, 0); rv != nil {
				return rv, rf
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if rv, rf, _ := e.callResult(c, fr, call, x.Index); rv != nil {
				return rv, rf
			}
		}
	case *ssa.Phi:
		if ix, ok := e.phiChoice(c, fr, x.Block()); ok && ix < len(x.Edges) {
			return x.Edges[ix], fr
		}
	}
	return nil, nil
}

func (e *Engine) strEqFacts(c *Ctx, fr *Frame, x *ssa.BinOp, truth bool) []fact {
	a, b := e.evS(c, fr, x.X), e.evS(c, fr, x.Y)
	eq := (x.Op == token.EQL) == truth
	if eq {
		d := a.len.sub(b.len)
		fs := []fact{{l: d}, {l: d.scale(-1)}}
		if a.root > b.root {
			a, b = b, a
		}
		at := e.atom("seq:"+a.root+a.off.key()+a.len.key()+"="+b.root+b.off.key()+b.len.key(), big.NewInt(0), big.NewInt(1), fr, x.Block(), nil)
		return append(fs, fact{l: at.addC(-1)})
	}
	var fs []fact
	// s != "" means len >= 1
	for _, p := range [][2]*SV{{a, b}, {b, a}} {
		if p[0].root == "lit:\"\"" {
			fs = append(fs, fact{l: p[1].len.addC(-1)})
		}
	}
	if a.root > b.root {
		a, b = b, a
	}
	at := e.atom("seq:"+a.root+a.off.key()+a.len.key()+"="+b.root+b.off.key()+b.len.key(), big.NewInt(0), big.NewInt(1), fr, x.Block(), nil)
	return append(fs, fact{l: at.scale(-1)})
}

// facts at the start of block blk in frame fr under ctx: the facts of the dominating path, then those
// of the chosen return sites.
func (e *Engine) facts(c *Ctx, fr *Frame, blk *ssa.BasicBlock) []fact {
	var at ssa.Instruction
	if c.at != nil && c.at.Block() == blk {
		at = c.at
	}
	return e.factsAt(c, fr, blk, at)
}

// factsAt: as facts, just before one instruction of the block
func (e *Engine) factsAt(c *Ctx, fr *Frame, blk *ssa.BasicBlock, at ssa.Instruction) []fact {
	own := e.own(c, fr, blk)
	own = append(own[:len(own):len(own)], e.callsIn(c, fr, blk, at)...)
	x := e.extraFacts(c)
	if len(x) == 0 && len(c.added) == 0 {
		return own
	}
	out := make([]fact, 0, len(own)+len(x)+len(c.added))
	return append(append(append(out, own...), x...), c.added...)
}

// callsIn: what the modelled calls of the block itself, up to one of its instructions, promise once they have run
func (e *Engine) callsIn(c *Ctx, fr *Frame, blk *ssa.BasicBlock, at ssa.Instruction) []fact {
	k := frBlk2{frBlk{fr, blk}, c.lvl}
	if at == nil {
		if f, ok := c.memoC[k]; ok {
			return f
		}
		c.memoC[k] = nil
	}
	var out []fact
	for _, in := range blk.Instrs {
		if in == at {
			return out
		}
		if call, ok := in.(*ssa.Call); ok && modelled[calleeFull(&call.Call)] {
			out = append(out, e.modelFacts(c, fr, call)...)
		}
	}
	c.memoC[k] = out
	return out
}

func (e *Engine) extraFacts(c *Ctx) []fact {
	if c.lvl == 0 {
		return nil
	}
	if f, ok := c.memoX[c.lvl]; ok {
		return f
	}
	top := c.lvl
	c.memoX[top] = nil
	var out []fact
	for k := 0; k < top; k++ {
		c.lvl = k
		out = append(out, e.own(c, c.extra[k].fr, c.extra[k].blk)...)
		out = append(out, e.callsIn(c, c.extra[k].fr, c.extra[k].blk, nil)...)
		for _, ce := range c.conds {
			if ce.fr == c.extra[k].fr {
				l := e.ev(c, ce.fr, ce.v)
				out = append(out, fact{l: l}, fact{l: l.scale(-1)})
			}
		}
	}
	c.lvl = top
	c.memoX[top] = out
	return out
}

func (e *Engine) own(c *Ctx, fr *Frame, blk *ssa.BasicBlock) []fact {
	k := frBlk2{frBlk{fr, blk}, c.lvl}
	if f, ok := c.memoF[k]; ok {
		return f
	}
	if c.busyF[k] {
		e.hits++
		return nil
	}
	c.busyF[k] = true
	out := e.own1(c, fr, blk)
	delete(c.busyF, k)
	c.memoF[k] = out
	return out
}

func edgeCond(from, to *ssa.BasicBlock) (ssa.Value, bool, bool) {
	if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok {
		if from.Succs[0] == from.Succs[1] {
			return nil, false, false
		}
		if from.Succs[0] == to {
			return i.Cond, true, true
		}
		if from.Succs[1] == to {
			return i.Cond, false, true
		}
	}
	return nil, false, false
}

var modelled = map[string]bool{"builtin.copy": true, "builtin.min": true, "builtin.max": true, "bytes.IndexByte": true, "strings.IndexByte": true,
	"bytes.Index": true, "strings.Index": true, "strings.LastIndex": true, "io.ReadFull": true, "io.ReadAtLeast": true, "iface.Read": true,
	"iface.Write": true, docValidate: true, "bytes.IndexRune": true, "strings.IndexRune": true, "bytes.IndexAny": true, "strings.IndexAny": true}

// callFacts: what holds because a call has returned: the promises of modelled calls, and the conditions under
// which a helper that panics otherwise comes back
func (e *Engine) callFacts(c *Ctx, fr *Frame, call *ssa.Call) []fact {
	if modelled[calleeFull(&call.Call)] {
		return e.modelFacts(c, fr, call)
	}
	fn := call.Call.StaticCallee()
	if fn == nil || fr.depth >= e.maxDepth || !e.guardLike(fn) || fr.inChain(fn) || e.noInline[fn] {
		return nil
	}
	k := frBlk2{frBlk{e.child(fr, call, fn), nil}, c.lvl}
	if f, ok := c.memoC[k]; ok {
		return f
	}
	c.memoC[k] = nil
	f := e.own(c, k.fr, returnsOf(fn)[0].Block())
	c.memoC[k] = f
	return f
}

// guardLike: a small function of the repository with one way to return and conditions on the way there
func (e *Engine) guardLike(fn *ssa.Function) bool {
	if g, ok := e.guards[fn]; ok {
		return g
	}
	g := false
	if e.w.bodyOf(fn) && inRepo(fnPkg(topFn(fn))) && len(fn.Blocks) <= 12 && len(e.loopHeaders(fn)) == 0 {
		if rets := returnsOf(fn); len(rets) == 1 {
			for _, b := range fn.Blocks {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok && b != fn.Recover {
					g = true
				}
			}
		}
	}
	e.guards[fn] = g
	return g
}

func (e *Engine) own1(c *Ctx, fr *Frame, x *ssa.BasicBlock) []fact {
	var out []fact
	var pred *ssa.BasicBlock
	edge := false
	if ix, ok := e.phiChoice(c, fr, x); ok && ix < len(x.Preds) {
		pred, edge = x.Preds[ix], true
	} else if len(x.Preds) == 1 {
		pred, edge = x.Preds[0], true
	} else {
		pred = x.Idom()
	}
	if pred != nil {
		out = append(out, e.own(c, fr, pred)...)
		for _, in := range pred.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				out = append(out, e.callFacts(c, fr, call)...)
			}
		}
		if edge {
			if cond, truth, ok := edgeCond(pred, x); ok {
				out = append(out, e.condFacts(c, fr, cond, truth)...)
			}
		}
	} else if fr.parent != nil {
		if fr.call != nil {
			out = append(out, e.own(c, fr.parent, fr.call.Block())...)
			for _, in := range fr.call.Block().Instrs {
				if in == fr.call.(ssa.Instruction) {
					break
				}
				if call, ok := in.(*ssa.Call); ok {
					out = append(out, e.callFacts(c, fr.parent, call)...)
				}
			}
		} else if fr.mk != nil {
			out = append(out, e.own(c, fr.parent, fr.mk.Block())...)
		} else if fr.parent.fn.Blocks != nil {
			out = append(out, e.own(c, fr.parent, fr.parent.fn.Blocks[0])...)
		}
	}
	if _, ok := e.loopHeaders(fr.fn)[x]; ok {
		for _, l := range e.invs[frBlk{fr, x}] {
			out = append(out, fact{l: l})
		}
	}
	return out
}

// entails: do the facts imply goal >= 0?
func (e *Engine) entails(fs []fact, goal *Lin) bool {
	if goal.isConst() && goal.c.Sign() >= 0 {
		return true
	}
	if lo, _ := e.interval(goal); lo != nil && lo.Sign() >= 0 {
		return true
	}
	return e.contradiction(fs, []*Lin{goal.scale(-1).addC(-1)})
}

func (e *Engine) contradiction(fs []fact, extra []*Lin) bool {
	rel := map[Sym]bool{}
	for _, l := range extra {
		for s := range l.t {
			rel[s] = true
		}
	}
	var ges []*Lin
	var nes []*Lin
	seen := map[string]bool{}
	for _, f := range fs {
		k := f.l.key()
		if f.ne {
			k = "!" + k
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		if f.l.isConst() {
			if !f.ne && f.l.c.Sign() < 0 || f.ne && f.l.c.Sign() == 0 {
				return true
			}
			continue
		}
		if f.ne {
			nes = append(nes, f.l)
		} else {
			if _, hi := e.interval(f.l); hi != nil && hi.Sign() < 0 {
				return true
			}
			ges = append(ges, f.l)
		}
	}
	// invariants of the objects the facts talk about, where their guard is known
	guards := map[Sym]bool{}
	for _, d := range nes {
		if s, ok := d.soleSym(); ok {
			guards[s] = true
		}
	}
	{
		syms := map[Sym]bool{}
		for s := range rel {
			syms[s] = true
		}
		for _, l := range ges {
			for s := range l.t {
				syms[s] = true
			}
		}
		for s := range syms {
			for _, iv := range e.atoms[s].inv {
				if (iv.guard < 0 || guards[iv.guard]) && !seen[iv.l.key()] {
					seen[iv.l.key()] = true
					ges = append(ges, iv.l)
				}
			}
		}
	}
	all := len(extra) == 0
	used := make([]bool, len(ges))
	cons := append([]*Lin{}, extra...)
	if all {
		for i := range ges {
			used[i] = true
			cons = append(cons, ges[i])
			for s := range ges[i].t {
				rel[s] = true
			}
		}
		for _, l := range nes {
			for s := range l.t {
				rel[s] = true
			}
		}
	} else {
		for round := 0; round < 5; round++ {
			grew := false
			var newSyms []Sym
			for i, l := range ges {
				if used[i] {
					continue
				}
				hit := false
				for s := range l.t {
					if rel[s] {
						hit = true
						break
					}
				}
				if hit {
					used[i] = true
					grew = true
					cons = append(cons, l)
					for s := range l.t {
						newSyms = append(newSyms, s)
					}
				}
			}
			for _, s := range newSyms {
				rel[s] = true
			}
			if !grew {
				break
			}
		}
	}
	for s := range rel {
		a := e.atoms[s]
		if a.lo != nil {
			cons = append(cons, linSym(s).sub(linBig(a.lo)))
		}
		if a.hi != nil {
			cons = append(cons, linBig(a.hi).sub(linSym(s)))
		}
	}
	if infeasible(cons) {
		return true
	}
	// disequalities: tighten when one side is already implied
	progress := true
	for progress {
		progress = false
		for i, d := range nes {
			if d == nil {
				continue
			}
			rl := false
			for s := range d.t {
				if rel[s] {
					rl = true
				}
			}
			if !rl {
				continue
			}
			if infeasible(append(append([]*Lin{}, cons...), d.scale(-1).addC(-1))) { // d >= 0
				cons = append(cons, d.addC(-1))
				nes[i] = nil
				progress = true
			} else if infeasible(append(append([]*Lin{}, cons...), d.addC(-1))) { // d <= 0
				cons = append(cons, d.scale(-1).addC(-1))
				nes[i] = nil
				progress = true
			}
			if progress && infeasible(cons) {
				return true
			}
		}
	}
	return false
}

// ---- proving

type goalFn func(c *Ctx) *Lin // nil means "false" (unreachable)

// prove: on every execution reaching blk in fr, goal(c) >= 0.
func (e *Engine) prove(c *Ctx, fr *Frame, blk *ssa.BasicBlock, goal goalFn) bool {
	e.budget = 2000
	e.steps = 0
	return e.prove1(c, fr, blk, goal, 10)
}

func (e *Engine) prove1(c *Ctx, fr *Frame, blk *ssa.BasicBlock, goal goalFn, depth int) bool {
	e.budget--
	if e.budget < 0 || e.steps > 400000 {
		if e.Dump {
			fmt.Println("out of budget", e.budget, e.steps)
		}
		return false
	}
	g := goal(c)
	fs := e.facts(c, fr, blk)
	if e.assume != nil {
		fs = append(append([]fact{}, fs...), e.assume(c)...)
	}
	ok := false
	if g == nil {
		ok = e.contradiction(fs, nil)
	} else {
		ok = e.entails(fs, g) || len(c.choices) > 0 && e.contradiction(fs, nil)
	}
	if ok {
		return true
	}
	if e.Dump {
		e.dump(fs, g, depth, c)
	}
	if depth == 0 {
		return false
	}
	// candidate refinements
	rel := e.relevant(fs, g)
	// a search for a byte relates to every place known to hold a byte
	for _, s := range rel {
		if call, ok := e.atoms[s].val.(*ssa.Call); ok && calleeFull(&call.Call) == "bytes.IndexByte" {
			have := map[Sym]bool{}
			for _, s := range rel {
				have[s] = true
			}
			for _, f := range fs {
				for t := range f.l.t {
					if el := e.atoms[t].el; el != nil {
						for u := range el.idx.t {
							if !have[u] {
								have[u] = true
								rel = append(rel, u)
							}
						}
					}
				}
			}
			break
		}
	}
	// loop invariants first
	newInv := false
	for _, s := range rel {
		a := e.atoms[s]
		if a.split != nil && a.split.loop {
			k := frBlk{a.split.fr, a.split.blk}
			if _, done := e.invs[k]; !done && !e.invBusy[k] {
				e.computeInv(k, fs, g)
				newInv = newInv || len(e.invs[k]) > 0
			}
		}
	}
	if newInv {
		return e.prove1(e.fresh(c), fr, blk, goal, depth)
	}
	if add := e.linkFacts(c, fs, rel); len(add) > 0 {
		n := e.fresh(c)
		n.added = append(append([]fact{}, c.added...), add...)
		return e.prove1(n, fr, blk, goal, depth)
	}
	if add := e.scanFacts(c, fs); len(add) > 0 {
		n := e.fresh(c)
		n.added = append(append([]fact{}, c.added...), add...)
		return e.prove1(n, fr, blk, goal, depth)
	}
	tried := map[string]bool{}
	trySplit := func(sp *splitPt) (done, result bool) {
		k := sp.key()
		if tried[k] {
			return false, false
		}
		tried[k] = true
		if _, chosen := c.choices[k]; chosen || sp.loop {
			return false, false
		}
		switch {
		case sp.asm != nil:
			rets := returnsOf(sp.asm.fn)
			for i, r := range rets {
				n := c.with(k, i, frBlk{sp.asm, r.Block()})
				n.conds = append(append([]condExtra{}, c.conds...), condExtra{sp.asm, r.Results[sp.errIx]})
				if !e.prove1(n, fr, blk, goal, depth-1) {
					return true, false
				}
			}
			return true, true
		case sp.call != nil:
			fn := sp.call.Common().StaticCallee()
			rets := returnsOf(fn)
			if len(rets) == 0 {
				return false, false
			}
			ch := e.child(sp.fr, sp.call, fn)
			for i, r := range rets {
				if !e.prove1(c.with(k, i, frBlk{ch, r.Block()}), fr, blk, goal, depth-1) {
					return true, false
				}
			}
			return true, true
		default:
			// a merge inside something already called: what holds there holds here
			var pts []frBlk
			on := false
			for x := fr; x != nil; x = x.parent {
				on = on || x == sp.fr
			}
			for _, x := range c.extra {
				on = on || x.fr == sp.fr
			}
			if !on && len(e.loopHeaders(sp.fr.fn)) == 0 {
				pts = []frBlk{{sp.fr, sp.blk}}
			}
			for i := range sp.blk.Preds {
				if !e.prove1(c.with(k, i, pts...), fr, blk, goal, depth-1) {
					return true, false
				}
			}
			return true, true
		}
	}
	for _, s := range rel {
		a := e.atoms[s]
		if a.split == nil || a.split.loop {
			continue
		}
		if done, r := trySplit(a.split); done {
			return r
		}
	}
	// predicates tested on the way
	for _, f := range fs {
		if len(f.l.t) != 1 {
			continue
		}
		for s := range f.l.t {
			if a := e.atoms[s]; a.split != nil && !a.split.loop && a.hi != nil && a.hi.IsInt64() && a.hi.Int64() == 1 {
				if done, r := trySplit(a.split); done {
					return r
				}
			}
		}
	}
	// hypotheses of the root frame
	for _, h := range fr.root().hyps {
		if done, r := trySplit(&splitPt{fr: fr.root(), asm: h.frame, errIx: h.errIx}); done {
			return r
		}
	}
	// what the hypotheses were computed from
	for _, ce := range c.conds {
		for s := range e.ev(c, ce.fr, ce.v).t {
			if a := e.atoms[s]; a.split != nil && !a.split.loop {
				if done, r := trySplit(a.split); done {
					return r
				}
			}
		}
	}
	// merge blocks on the dominator chain
	chain := func(f *Frame, b *ssa.BasicBlock, up bool) (done, result bool) {
		for f != nil {
			hdrs := e.loopHeaders(f.fn)
			for x := b; x != nil; {
				if len(x.Preds) > 1 {
					if _, isH := hdrs[x]; !isH {
						if _, chosen := e.phiChoice(c, f, x); !chosen {
							if done, r := trySplit(&splitPt{fr: f, blk: x}); done {
								return true, r
							}
						}
					}
				}
				if ix, ok := e.phiChoice(c, f, x); ok && ix < len(x.Preds) {
					x = x.Preds[ix]
				} else {
					x = x.Idom()
				}
			}
			if f.call == nil || !up {
				break
			}
			b = f.call.Block()
			f = f.parent
		}
		return false, false
	}
	if done, r := chain(fr, blk, true); done {
		return r
	}
	for _, x := range c.extra {
		if done, r := chain(x.fr, x.blk, false); done {
			return r
		}
	}
	return false
}

func (e *Engine) fresh(c *Ctx) *Ctx {
	n := newCtx()
	for a, b := range c.choices {
		n.choices[a] = b
	}
	n.extra = c.extra
	n.lvl = len(n.extra)
	n.added = c.added
	n.conds = c.conds
	n.at = c.at
	return n
}

func (e *Engine) relevant(fs []fact, g *Lin) []Sym {
	rel := map[Sym]int{}
	if g != nil {
		for s := range g.t {
			rel[s] = 0
		}
	} else {
		for _, f := range fs {
			for s := range f.l.t {
				rel[s] = 0
			}
		}
	}
	for round := 1; round <= 3; round++ {
		add := map[Sym]bool{}
		for _, f := range fs {
			hit := false
			for s := range f.l.t {
				if _, ok := rel[s]; ok {
					hit = true
				}
			}
			if hit {
				for s := range f.l.t {
					if _, ok := rel[s]; !ok {
						add[s] = true
					}
				}
			}
		}
		for s := range rel {
			for _, d := range e.atoms[s].deps {
				if _, ok := rel[d]; !ok {
					add[d] = true
				}
			}
		}
		for s := range add {
			rel[s] = round
		}
	}
	// atoms built from other atoms (conversions that may wrap) carry their operand's split
	for round, more := 4, true; more; round++ {
		more = false
		for s, r := range rel {
			if r >= round {
				continue
			}
			for _, d := range e.atoms[s].deps {
				if _, ok := rel[d]; !ok {
					rel[d] = round
					more = true
				}
			}
		}
	}
	var out []Sym
	for s := range rel {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool {
		if rel[out[i]] != rel[out[j]] {
			return rel[out[i]] < rel[out[j]]
		}
		return out[i] < out[j]
	})
	return out
}

// computeInv: Houdini over linear candidates for the phis of a loop header.
func (e *Engine) computeInv(k frBlk, ctxFacts []fact, goal *Lin) {
	e.invBusy[k] = true
	defer delete(e.invBusy, k)
	fr, h := k.fr, k.blk
	back := map[int]bool{}
	for _, i := range e.loopHeaders(fr.fn)[h] {
		back[i] = true
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			if isInt(p.Type()) || isSliceT(p.Type()) || isStr(p.Type()) {
				phis = append(phis, p)
			}
		}
	}
	base := newCtx()
	// numeric handle of a phi: its value, or its length for slices
	num := func(c *Ctx, v ssa.Value) *Lin {
		if isInt(v.Type()) {
			return e.ev(c, fr, v)
		}
		return e.evS(c, fr, v).len
	}
	type cand struct {
		onPhi  func() *Lin
		onEdge func(c *Ctx, i int) *Lin
	}
	var cands []cand
	mk := func(coefs map[*ssa.Phi]int64, rest *Lin) {
		cp := map[*ssa.Phi]int64{}
		for a, b := range coefs {
			cp[a] = b
		}
		cands = append(cands, cand{
			onPhi: func() *Lin {
				l := rest
				for p, kf := range cp {
					l = l.addScaled(num(base, p), kf)
				}
				return l
			},
			onEdge: func(c *Ctx, i int) *Lin {
				l := rest
				for p, kf := range cp {
					l = l.addScaled(num(c, p.Edges[i]), kf)
				}
				return l
			},
		})
	}
	for entryIx := range h.Preds {
		if back[entryIx] {
			continue
		}
		for i, p := range phis {
			ep := num(base, p.Edges[entryIx])
			mk(map[*ssa.Phi]int64{p: 1}, ep.scale(-1))
			mk(map[*ssa.Phi]int64{p: -1}, ep)
			for _, q := range phis[i+1:] {
				d := ep.sub(num(base, q.Edges[entryIx]))
				mk(map[*ssa.Phi]int64{p: 1, q: -1}, d.scale(-1))
				mk(map[*ssa.Phi]int64{p: -1, q: 1}, d)
				s := ep.add(num(base, q.Edges[entryIx]))
				mk(map[*ssa.Phi]int64{p: 1, q: 1}, s.scale(-1))
				mk(map[*ssa.Phi]int64{p: -1, q: -1}, s)
			}
		}
	}
	// counters advancing in fixed proportion
	step := func(p *ssa.Phi) int64 {
		var st int64
		for i := range h.Preds {
			if !back[i] {
				continue
			}
			b, ok := p.Edges[i].(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.SUB || b.X != p {
				return 0
			}
			k, ok := b.Y.(*ssa.Const)
			if !ok || k.Value == nil || !isInt(k.Type()) {
				return 0
			}
			v := k.Int64()
			if b.Op == token.SUB {
				v = -v
			}
			if st != 0 && st != v {
				return 0
			}
			st = v
		}
		return st
	}
	for i, p := range phis {
		sp := step(p)
		for _, q := range phis[i+1:] {
			sq := step(q)
			if sp == 0 || sq == 0 || sp == sq || sp == -sq {
				continue
			}
			for entryIx := range h.Preds {
				if !back[entryIx] {
					d := num(base, p.Edges[entryIx]).scale(sq).sub(num(base, q.Edges[entryIx]).scale(sp))
					mk(map[*ssa.Phi]int64{p: sq, q: -sp}, d.scale(-1))
					mk(map[*ssa.Phi]int64{p: -sq, q: sp}, d)
				}
			}
		}
	}
	for _, p := range phis {
		mk(map[*ssa.Phi]int64{p: 1}, linConst(0))
		mk(map[*ssa.Phi]int64{p: 1}, linConst(1))
	}
	// goal- and guard-directed candidates: linear forms over this header's phis and loop-invariant atoms
	phiOf := map[Sym]*ssa.Phi{}
	for _, p := range phis {
		l := num(base, p)
		if s, ok := l.soleSym(); ok {
			phiOf[s] = p
		}
	}
	fromLin := func(l *Lin) {
		co := map[*ssa.Phi]int64{}
		rest := linBig(l.c)
		for s, v := range l.t {
			if p, ok := phiOf[s]; ok {
				co[p] = v
				continue
			}
			if e.variant(e.atoms[s], fr, h) {
				return
			}
			rest = rest.addScaled(linSym(s), v)
		}
		if len(co) > 0 {
			mk(co, rest)
			mk(co, rest.addC(1))
		}
	}
	if goal != nil {
		fromLin(goal)
	}
	for _, f := range ctxFacts {
		if !f.ne {
			fromLin(f.l)
		}
	}
	// guards inside the loop
	for _, b := range fr.fn.Blocks {
		if !h.Dominates(b) {
			continue
		}
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			for _, tr := range []bool{true, false} {
				for _, f := range e.condFacts(base, fr, i.Cond, tr) {
					if !f.ne {
						fromLin(f.l)
					}
				}
			}
		}
	}
	// dedupe
	seen := map[string]bool{}
	var live []cand
	for _, cd := range cands {
		kk := cd.onPhi().key()
		if seen[kk] || cd.onPhi().isConst() {
			continue
		}
		seen[kk] = true
		live = append(live, cd)
	}
	if len(live) > 80 {
		live = live[:80]
	}
	saveBudget := e.budget
	// base cases
	var ok1 []cand
	for _, cd := range live {
		good := true
		for i, p := range h.Preds {
			if back[i] {
				continue
			}
			i, cd := i, cd
			e.budget = 40
			cc := newCtx()
			if !e.proveEdge(cc, fr, p, h, func(c *Ctx) *Lin { return cd.onEdge(c, i) }, 3) {
				good = false
				break
			}
		}
		if good {
			ok1 = append(ok1, cd)
		}
	}
	live = ok1
	for round := 0; round < 12; round++ {
		var ls []*Lin
		for _, cd := range live {
			ls = append(ls, cd.onPhi())
		}
		e.invs[k] = ls
		var keep []cand
		for _, cd := range live {
			good := true
			for i, p := range h.Preds {
				if !back[i] {
					continue
				}
				i, cd := i, cd
				e.budget = 60
				cc := newCtx()
				if !e.proveEdge(cc, fr, p, h, func(c *Ctx) *Lin { return cd.onEdge(c, i) }, 4) {
					good = false
					break
				}
			}
			if good {
				keep = append(keep, cd)
			}
		}
		if len(keep) == len(live) {
			break
		}
		live = keep
		if round == 11 {
			live = nil
		}
	}
	var ls []*Lin
	for _, cd := range live {
		ls = append(ls, cd.onPhi())
	}
	if ls == nil {
		ls = []*Lin{}
	}
	e.invs[k] = ls
	e.budget = saveBudget
	if e.Trace {
		for _, l := range ls {
			fmt.Println("  inv", fnName(fr.fn), h.Index, e.show(l))
		}
	}
}

func (e *Engine) proveEdge(c *Ctx, fr *Frame, from, to *ssa.BasicBlock, goal goalFn, depth int) bool {
	if cond, truth, ok := edgeCond(from, to); ok {
		c.added = append(append([]fact{}, c.added...), e.condFacts(c, fr, cond, truth)...)
	}
	c.at = nil
	return e.prove1(c, fr, from, goal, depth)
}

// variant: may the atom change between iterations of the loop headed by h in fr?
func (e *Engine) variant(a *Atom, fr *Frame, h *ssa.BasicBlock) bool {
	f, b := a.fr, a.blk
	for f != nil && f != fr {
		if f.call == nil {
			return false
		}
		b = f.call.Block()
		f = f.parent
	}
	if f == nil || b == nil {
		return false
	}
	return h.Dominates(b) && b != nil
}

func (e *Engine) show(l *Lin) string {
	if l == nil {
		return "false"
	}
	var syms []int
	for s := range l.t {
		syms = append(syms, int(s))
	}
	sort.Ints(syms)
	var sb strings.Builder
	for _, s := range syms {
		fmt.Fprintf(&sb, "%+d*{%s} ", l.t[Sym(s)], e.atoms[s].key)
	}
	sb.WriteString(l.c.String())
	return sb.String() + " >= 0"
}

// linkFacts: what a symbol introduced before a case was chosen amounts to in that case
func (e *Engine) linkFacts(c *Ctx, fs []fact, rel []Sym) []fact {
	have := map[string]bool{}
	for _, f := range fs {
		if !f.ne {
			have[f.l.key()] = true
		}
	}
	var out []fact
	add := func(d *Lin) {
		if d.isConst() || have[d.key()] || have[d.scale(-1).key()] {
			return
		}
		have[d.key()] = true
		out = append(out, fact{l: d}, fact{l: d.scale(-1)})
	}
	for _, s := range rel {
		a := e.atoms[s]
		if a.val != nil && a.split != nil && !a.split.loop && len(c.choices) > 0 {
			if _, chosen := c.choices[a.split.key()]; chosen {
				add(e.ev(c, a.fr, a.val).sub(linSym(s)))
			}
		}
		if a.sum != nil && a.lo != nil && a.hi != nil {
			d := a.sum.sub(linSym(s))
			if !have[d.key()] && !have[d.scale(-1).key()] && e.entails(fs, a.sum.sub(linBig(a.lo))) && e.entails(fs, linBig(a.hi).sub(a.sum)) {
				add(d)
			}
		}
	}
	return out
}

// scanFacts: a loop that steps an index by one and only continues past elements different from K stays
// at or below any later position known to hold K.
func (e *Engine) scanFacts(c *Ctx, fs []fact) []fact {
	have := map[string]bool{}
	for _, f := range fs {
		if !f.ne {
			have[f.l.key()] = true
		}
	}
	type hit struct {
		el *elRef
		k  string
	}
	var hits []hit
	seen := map[Sym]bool{}
	loops := map[Sym]bool{}
	for _, f := range fs {
		for s := range f.l.t {
			if a := e.atoms[s]; a.split != nil && a.split.loop && strings.HasPrefix(a.key, "v:") {
				loops[s] = true
			}
		}
		if f.ne || len(f.l.t) != 1 {
			continue
		}
		for s, v := range f.l.t {
			a := e.atoms[s]
			if a.el == nil || seen[s] || v != 1 && v != -1 || !have[f.l.scale(-1).key()] {
				continue
			}
			seen[s] = true
			k := new(big.Int).Set(f.l.c)
			if v == 1 {
				k.Neg(k)
			}
			hits = append(hits, hit{a.el, k.String()})
		}
	}
	out := e.indexFacts(c, fs, have, func(f func(el *elRef, k string)) {
		for _, h := range hits {
			f(h.el, h.k)
		}
	})
	if len(hits) == 0 || len(loops) == 0 {
		return out
	}
	var ls []int
	for s := range loops {
		ls = append(ls, int(s))
	}
	sort.Ints(ls)
	for _, si := range ls {
		a := e.atoms[si]
		f, h := a.split.fr, a.split.blk
		var phi *ssa.Phi
		for _, in := range h.Instrs {
			if p, ok := in.(*ssa.Phi); ok && a.key == fmt.Sprintf("v:%d:%s", f.id, p.Name()) {
				phi = p
			}
		}
		if phi == nil || !isInt(phi.Type()) {
			continue
		}
		back := map[int]bool{}
		for _, i := range e.loopHeaders(f.fn)[h] {
			back[i] = true
		}
		step := true
		for i := range back {
			b, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != phi {
				step = false
				break
			}
			if k, ok := b.Y.(*ssa.Const); !ok || k.Int64() != 1 {
				step = false
			}
		}
		if !step {
			continue
		}
		for _, z := range hits {
			nf := z.el.idx.sub(linSym(Sym(si)))
			if have[nf.key()] || nf.isConst() || nf.t[Sym(si)] != -1 {
				continue
			}
			good := true
			for i, p := range h.Preds {
				if !good {
					break
				}
				if !back[i] {
					if !e.entails(fs, z.el.idx.sub(e.ev(c, f, phi.Edges[i]))) {
						good = false
					}
					continue
				}
				cc := newCtx()
				bf := append([]fact{}, e.own(cc, f, p)...)
				if cond, truth, ok := edgeCond(p, h); ok {
					bf = append(bf, e.condFacts(cc, f, cond, truth)...)
				}
				found := false
				for _, x := range bf {
					if !x.ne || len(x.l.t) != 1 {
						continue
					}
					for s, v := range x.l.t {
						el := e.atoms[s].el
						k := new(big.Int).Set(x.l.c)
						if v == 1 {
							k.Neg(k)
						}
						if el != nil && (v == 1 || v == -1) && k.String() == z.k && el.root == z.el.root && el.ver == z.el.ver && el.idx.equal(linSym(Sym(si))) {
							found = true
						}
					}
				}
				good = found
			}
			if good {
				have[nf.key()] = true
				out = append(out, fact{l: nf})
				if len(h.Preds) == len(back)+1 {
					for i := range h.Preds {
						if !back[i] {
							out = append(out, fact{l: linSym(Sym(si)).sub(e.ev(c, f, phi.Edges[i]))})
						}
					}
				}
			}
		}
	}
	return out
}

// indexFacts: a search for a byte finds the first one there is, so it succeeds at or before any position known
// to hold the byte; and where it succeeded the byte is
func (e *Engine) indexFacts(c *Ctx, fs []fact, have map[string]bool, hits func(func(el *elRef, k string))) []fact {
	var out []fact
	seen := map[Sym]bool{}
	add := func(l *Lin) {
		if !l.isConst() && !have[l.key()] {
			have[l.key()] = true
			out = append(out, fact{l: l})
		}
	}
	for _, f := range fs {
		for s := range f.l.t {
			a := e.atoms[s]
			call, ok := a.val.(*ssa.Call)
			if seen[s] || !ok || calleeFull(&call.Call) != "bytes.IndexByte" || a.fr == nil {
				continue
			}
			seen[s] = true
			k, ok := e.ev(c, a.fr, call.Call.Args[1]).constVal()
			if !ok {
				continue
			}
			sv := e.evS(c, a.fr, call.Call.Args[0])
			ver := e.verKey(c, a.fr, "E:byte", call)
			hits(func(el *elRef, hk string) {
				if el.root != sv.root || el.ver != ver || hk != fmt.Sprint(k) || el.idx.equal(sv.off.add(linSym(s))) {
					return
				}
				if e.entails(fs, el.idx.sub(sv.off)) && e.entails(fs, sv.off.add(sv.len).sub(el.idx).addC(-1)) {
					add(linSym(s))
					add(el.idx.sub(sv.off).sub(linSym(s)))
				}
			})
			if e.entails(fs, linSym(s)) {
				idx := sv.off.add(linSym(s))
				el := e.atom("L:el:"+sv.root+"["+idx.key()+"]@"+ver, big.NewInt(0), big.NewInt(255), a.fr, call.Block(), nil)
				t, _ := el.soleSym()
				if e.atoms[t].el == nil {
					e.atoms[t].el = &elRef{sv.root, ver, idx}
				}
				add(el.addC(-k))
				add(el.scale(-1).addC(k))
			}
		}
	}
	return out
}

// sameLen: an earlier call of the same method of the same value (in a helper: and the helper's call) that gives a slice of
// the same length, because every method it may be gives a literal or a field nothing in between writes
func (e *Engine) sameLen(x *ssa.Call) (_, _ *ssa.Call) {
	if !x.Call.IsInvoke() || len(x.Call.Args) != 0 {
		return nil, nil
	}
	var reads []string
	impl := e.w.implementers(&x.Call)
	if len(impl) == 0 {
		return nil, nil
	}
	for _, f := range impl {
		if f.Synthetic != "" && len(f.Blocks) == 0 {
			continue
		}
		rets := returnsOf(f)
		if len(rets) != 1 || len(f.Params) == 0 {
			return nil, nil
		}
		switch v := rets[0].Results[0].(type) {
		case *ssa.Slice:
			if _, lit := v.X.(*ssa.Alloc); !lit || v.Low != nil || v.High != nil {
				return nil, nil
			}
		case *ssa.UnOp:
			fa, ok := v.X.(*ssa.FieldAddr)
			if !ok || fa.X != f.Params[0] {
				return nil, nil
			}
			reads = append(reads, addrClass(fa))
		default:
			return nil, nil
		}
	}
	dirty := func(in ssa.Instruction) bool {
		for _, r := range reads {
			if e.clobbers(in, r) {
				return true
			}
		}
		return false
	}
	// back from the call on every way, as far as an earlier one or where the value comes from
	var first, via *ssa.Call
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, i int) bool
	back = func(b *ssa.BasicBlock, i int) bool {
		for j := i - 1; j >= 0; j-- {
			in := b.Instrs[j]
			if v, ok := in.(ssa.Value); ok && v == x.Call.Value {
				return true
			}
			if c, ok := in.(*ssa.Call); ok && c != x {
				if c.Call.IsInvoke() && c.Call.Method == x.Call.Method && c.Call.Value == x.Call.Value {
					if first == nil && c.Pos() < x.Pos() {
						first, via = c, nil
					}
					return true
				}
				if g := c.Call.StaticCallee(); g != nil && first == nil && c.Pos() < x.Pos() {
					if in := asksFor(g, c, x); in != nil && !dirty(c) {
						first, via = in, c
						return true
					}
				}
			}
			if dirty(in) {
				return false
			}
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				if !back(p, len(p.Instrs)) {
					return false
				}
			}
		}
		return true
	}
	for j, in := range x.Block().Instrs {
		if in == x && back(x.Block(), j) {
			return first, via
		}
	}
	return nil, nil
}

// asksFor: a call of x's method inside a helper that is given x's value
func asksFor(g *ssa.Function, c, x *ssa.Call) *ssa.Call {
	for i, a := range c.Call.Args {
		if a != x.Call.Value || i >= len(g.Params) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(*ssa.Call); ok && k.Call.IsInvoke() && k.Call.Method == x.Call.Method && k.Call.Value == g.Params[i] {
					return k
				}
			}
		}
	}
	return nil
}
