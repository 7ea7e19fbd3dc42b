package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// An abstract interpreter for code that lays bytes out one field after the other (and reads them back).
// Integers are sums of named sizes, byte slices are (buffer, offset), loops are taken once with their
// variables symbolic and then summarised as "this, any number of times".

// fsum is a sum of named quantities; "" is the constant.
type fsum map[string]int64

func fconst(n int64) fsum {
	if n == 0 {
		return fsum{}
	}
	return fsum{"": n}
}
func fterm(t string) fsum { return fsum{t: 1} }
func (a fsum) add(b fsum, k int64) fsum {
	o := fsum{}
	for t, n := range a {
		o[t] = n
	}
	for t, n := range b {
		if o[t] += n * k; o[t] == 0 {
			delete(o, t)
		}
	}
	return o
}
func (a fsum) String() string {
	var ks []string
	for t := range a {
		ks = append(ks, t)
	}
	sort.Strings(ks)
	var out []string
	for _, t := range ks {
		switch {
		case t == "":
			out = append(out, fmt.Sprint(a[t]))
		case a[t] == 1:
			out = append(out, t)
		default:
			out = append(out, fmt.Sprintf("%d*%s", a[t], t))
		}
	}
	if len(out) == 0 {
		return "0"
	}
	return strings.Join(out, "+")
}
func (a fsum) eq(b fsum) bool { return a.String() == b.String() }
func (a fsum) konst() (int64, bool) {
	if len(a) == 0 {
		return 0, true
	}
	n, ok := a[""]
	return n, ok && len(a) == 1
}

// single: the sum is exactly one named quantity
func (a fsum) single() (string, bool) {
	if len(a) != 1 {
		return "", false
	}
	for t, n := range a {
		return t, n == 1 && t != ""
	}
	return "", false
}

// opaque: some part of the sum is a quantity the interpreter could not follow
func (a fsum) opaque() bool {
	for t := range a {
		if strings.Contains(t, "?") {
			return true
		}
	}
	return false
}

// ftok is one field of the layout
type ftok struct {
	kind string // byte, i32, i64, str, cstr, doc, star, dyn
	src  string // what it is made of (writer); const values as numbers
	base string // where it is read from (reader)
	off  fsum
	alts [][]*ftok
	lp   *floop
	val  fsum
}

func readTok(kind, base string, off fsum) *ftok {
	return &ftok{kind: kind, base: base, off: off, src: fmt.Sprintf("%s:%s@%s", kind, base, off)}
}

func (t *ftok) size() fsum {
	switch t.kind {
	case "byte":
		return fconst(1)
	case "i16":
		return fconst(2)
	case "i32":
		return fconst(4)
	case "i64":
		return fconst(8)
	case "str":
		return fterm("len(" + t.src + ")")
	case "cstr":
		return fterm("len("+t.src+")").add(fconst(1), 1)
	case "doc":
		return fterm("doclen(" + t.src + ")")
	case "dyn":
		return fterm("serlen(" + t.src + ")")
	case "star":
		return fterm(starName(t.alts))
	}
	return fterm("?")
}

func starName(alts [][]*ftok) string {
	set := map[string]bool{}
	for _, a := range alts {
		n := fsum{}
		for _, t := range a {
			n = n.add(t.size(), 1)
		}
		set[n.String()] = true
	}
	return starOf(set)
}

func starOf(set map[string]bool) string {
	delete(set, "0")
	return "each{" + strings.Join(sortedKeys(set), "|") + "}"
}

func (t *ftok) String() string {
	s := t.kind
	if t.src != "" {
		s += "(" + t.src + ")"
	}
	if t.kind == "star" {
		for _, a := range t.alts {
			s += fmt.Sprint(a)
		}
	}
	return s
}

type fbit struct {
	k   byte // 0, 1, 'b', '?'
	src string
	bit int
}

// fval is an abstract value
type fval struct {
	k     byte // 'i' int, 's' bytes of a buffer, 't' something read (token), 'p' address, 'b' bytes being built, 'T' tuple, 'n' nil, 'A' list with additions, 'c' condition, 'x' other
	sum   fsum
	bits  []fbit
	base  string
	end   fsum
	key   string
	toks  []*ftok
	tok   *ftok
	tup   []fval
	desc  string
	typ   types.Type
	truth bool
	fn    *ssa.Function
	recs  []*encRec
	snaps []*fstate // for each element added in a loop, the state that way round ended in
}

func fx(desc string) fval { return fval{k: 'x', desc: desc} }
func fi(s fsum) fval      { return fval{k: 'i', sum: s} }

func (v fval) String() string {
	switch v.k {
	case 'i':
		return v.sum.String()
	case 's':
		return fmt.Sprintf("%s@%s", v.base, v.sum)
	case 't':
		return fmt.Sprintf("%s:%s@%s", v.tok.kind, v.tok.base, v.tok.off)
	case 'p':
		return "&" + v.key
	case 'b':
		return fmt.Sprint(v.toks)
	case 'n':
		return "nil"
	case 'A':
		return fmt.Sprintf("%s+%v", v.desc, v.tup)
	case 'l':
		return fmt.Sprintf("%s[%s:%s]", v.key, v.sum, v.end)
	}
	return v.desc
}

type fstate struct {
	env   map[string]fval
	mem   map[string]fval
	cond  map[string]bool
	out   []*ftok // written so far
	lossy bool
	types map[string]types.Type // dynamic types known on this path
	ser   map[string]bool
	store map[string]fval // last value stored to a field of the receiver
}

func cloneM[V any](m map[string]V) map[string]V {
	o := make(map[string]V, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (s *fstate) clone() *fstate {
	return &fstate{env: cloneM(s.env), mem: cloneM(s.mem), cond: cloneM(s.cond), out: append([]*ftok{}, s.out...), lossy: s.lossy, types: cloneM(s.types), ser: cloneM(s.ser), store: cloneM(s.store)}
}

type floop struct {
	id     int
	h      *ssa.BasicBlock
	init   map[string]fsum   // per symbol
	deltas map[string][]fsum // per symbol, one per way round
	star   map[string]string // name of the sum of all its steps
}

type fmtEval struct {
	w       *World
	frames  int
	loops   map[string]*floop // symbol -> loop
	nloop   int
	steps   int
	lost    string
	inline  func(*ssa.Function) bool
	onCall  func(ev *fmtEval, fr *fframe, st *fstate, c *ssa.Call, args []fval) (fval, bool)
	onCallK func(ev *fmtEval, fr *fframe, st *fstate, c *ssa.Call, args []fval, k func(*fstate, fval)) bool
	onBack  func(st *fstate)
	onLoop  func(fr *fframe, a *factive, n0 int)
	onField func(key string, s *types.Struct, i int)
	sums    map[string]fsum
	sized   map[string]fsum // buffers made here: their length
	order   []string
	exact   bool // lists, texts and places of elements are followed too
	ntmp    int
	nilDocs bool // documents may be missing
	strict  bool // numbers may not fit in fewer bits
	flat    *flatHooks
}

// flatHooks: buffers are memory to write at places of, and what is written is kept in order
type flatHooks struct {
	lens   map[string]fsum // of buffers read from
	bufs   map[string]bool // buffers written to
	word   func(st *fstate, s fval, k int) (fval, bool)
	settle func(op token.Token, d fsum) (bool, bool)
	copied func(st *fstate, dst, src fval) (fsum, bool)
	stored func(st *fstate, dst, v fval)
	text   func(v fval) (fval, bool)
	unroll bool // loops are gone round for as long as they go
	lists  bool // lists are windows of arrays, which others may share
	caps   map[string]int64

	panicked func(st *fstate) // told of ways that end in a panic
}

type fframe struct {
	id  int
	fn  *ssa.Function
	k   func(st *fstate, res []fval)
	act []*factive

	depth int
}

type factive struct {
	h      *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	lp     *floop
	back   []*fstate
	edges  []*ssa.BasicBlock
	exits  []func()
	pre    *fstate
	phiKey map[*ssa.Phi]string
	busy   bool
	exitSt []*fexit
}

// latch: the one block the loop is gone round from
func (a *factive) latch() *ssa.BasicBlock {
	var l *ssa.BasicBlock
	for _, p := range a.h.Preds {
		if a.h.Dominates(p) {
			if l != nil {
				return nil
			}
			l = p
		}
	}
	return l
}

type fexit struct {
	st     *fstate
	header bool
	latch  bool // at the end of a round, where the next one is decided on
	run    func(st *fstate)
}

func newFmtEval(w *World) *fmtEval {
	return &fmtEval{w: w, loops: map[string]*floop{}, sized: map[string]fsum{}, sums: map[string]fsum{}}
}

func (fr *fframe) key(v ssa.Value) string { return fmt.Sprintf("%d:%s", fr.id, v.Name()) }

func (ev *fmtEval) giveUp(why string) {
	if ev.lost == "" {
		ev.lost = why
	}
}

// run interprets f with the given arguments; k is called for each way it can return.
func (ev *fmtEval) run(st *fstate, f *ssa.Function, args []fval, k func(st *fstate, res []fval)) {
	ev.runAt(0, st, f, args, k)
}

func (ev *fmtEval) runAt(depth int, st *fstate, f *ssa.Function, args []fval, k func(st *fstate, res []fval)) {
	if depth > 10 || len(f.Blocks) == 0 {
		ev.giveUp("call depth")
		return
	}
	ev.frames++
	fr := &fframe{id: ev.frames, fn: f, k: k, depth: depth}
	for i, p := range f.Params {
		if i < len(args) {
			st.env[fr.key(p)] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if len(f.Params)+i < len(args) {
			st.env[fr.key(p)] = args[len(f.Params)+i]
		}
	}
	ev.block(fr, st, f.Blocks[0], nil)
}

func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			add(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			body[h] = true
			add(p)
		}
	}
	return body
}

func (ev *fmtEval) block(fr *fframe, st *fstate, b, pred *ssa.BasicBlock) {
	if ev.steps++; ev.steps > 200000 {
		ev.giveUp("too many paths")
	}
	if ev.lost != "" {
		return
	}
	if ev.flat != nil && ev.flat.unroll {
		if ev.steps > 20000 {
			ev.giveUp("loop")
			return
		}
		ev.phis(fr, st, b, pred)
		ev.instrs(fr, st, b, ev.firstNonPhi(b))
		return
	}
	// leaving loops
	for i := len(fr.act) - 1; i >= 0; i-- {
		a := fr.act[i]
		if !a.body[b] {
			saved := append([]*factive{}, fr.act[:i]...)
			_ = saved
			a.exitSt = append(a.exitSt, &fexit{st, pred == a.h, ev.exact && pred != a.h && a.latch() == pred, func(s2 *fstate) { ev.block(fr, s2, b, pred) }})
			return
		}
		if a.h == b {
			// once round
			s2 := st.clone()
			ev.phis(fr, s2, b, pred)
			a.back = append(a.back, s2)
			if ev.onBack != nil {
				ev.onBack(s2)
			}
			return
		}
		break // only the innermost can be left first
	}
	if body := naturalLoop(b); len(body) > 0 && !ev.counted(fr, st, b, pred) {
		ev.loop(fr, st, b, pred, body)
		return
	}
	ev.phis(fr, st, b, pred)
	ev.instrs(fr, st, b, ev.firstNonPhi(b))
}

// counted: the loop's condition is settled by the values its variables have now, as in a loop over a
// fixed number of bytes
func (ev *fmtEval) counted(fr *fframe, st *fstate, h, pred *ssa.BasicBlock) bool {
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	s := st.clone()
	ev.phis(fr, s, h, pred)
	for i := ev.firstNonPhi(h); i < len(h.Instrs)-1; i++ {
		switch x := h.Instrs[i].(type) {
		case *ssa.BinOp:
			s.env[fr.key(x)] = ev.binop(s, x, ev.val(fr, s, x.X), ev.val(fr, s, x.Y))
		default:
			return false
		}
	}
	c := ev.val(fr, s, br.Cond)
	return c.k == 'c' && c.desc == "true"
}

func (ev *fmtEval) phis(fr *fframe, st *fstate, b, pred *ssa.BasicBlock) {
	nv := map[string]fval{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for j, q := range b.Preds {
			if q == pred {
				nv[fr.key(ph)] = ev.val(fr, st, ph.Edges[j])
			}
		}
	}
	for k, v := range nv {
		st.env[k] = v
	}
}

func (ev *fmtEval) loop(fr *fframe, st *fstate, h, pred *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	ev.phis(fr, st, h, pred)
	ev.nloop++
	lp := &floop{id: ev.nloop, h: h, init: map[string]fsum{}, deltas: map[string][]fsum{}, star: map[string]string{}}
	a := &factive{h: h, body: body, lp: lp, phiKey: map[*ssa.Phi]string{}}
	inits := map[*ssa.Phi]fval{}
	s := st.clone()
	// a local variable whose address is taken takes the place of a loop variable
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := st.env[fr.key(ph)]
		inits[ph] = v
		sym := fmt.Sprintf("L%d.%s", lp.id, ph.Name())
		a.phiKey[ph] = sym
		switch v.k {
		case 'i':
			lp.init[sym] = v.sum
			ev.loops[sym] = lp
			s.env[fr.key(ph)] = fi(fterm(sym))
		case 's':
			lp.init[sym] = v.sum
			ev.loops[sym] = lp
			s.env[fr.key(ph)] = fval{k: 's', base: v.base, sum: fterm(sym), end: v.end}
		case 'b':
			s.env[fr.key(ph)] = fval{k: 'b', toks: []*ftok{{kind: "mark", src: sym}}}
		case 'n':
			if _, isS := ph.Type().Underlying().(*types.Slice); isS && isByteSlice(ph.Type()) {
				inits[ph] = fval{k: 'b'}
				s.env[fr.key(ph)] = fval{k: 'b', toks: []*ftok{{kind: "mark", src: sym}}}
				break
			}
			s.env[fr.key(ph)] = fx("?" + sym)
		default:
			s.env[fr.key(ph)] = fx("?" + sym)
		}
	}
	a.pre = s
	n0 := len(s.out)
	// integer variables kept in memory and changed in the loop become symbolic too
	memSym := map[string]string{}
	for _, k := range ev.storedIn(fr, s, body) {
		if v, ok := s.mem[k]; ok && v.k == 'i' {
			sym := fmt.Sprintf("L%d.%s", lp.id, k)
			memSym[k] = sym
			lp.init[sym] = v.sum
			ev.loops[sym] = lp
			s.mem[k] = fi(fterm(sym))
		} else if ok && v.k == 's' {
			sym := fmt.Sprintf("L%d.%s", lp.id, k)
			memSym[k] = sym
			lp.init[sym] = v.sum
			ev.loops[sym] = lp
			s.mem[k] = fval{k: 's', base: v.base, sum: fterm(sym), end: v.end}
		}
	}
	fr.act = append(fr.act, a)
	depth := len(fr.act)
	ev.instrs(fr, s.clone(), h, ev.firstNonPhi(h))
	fr.act = fr.act[:depth-1]
	if ev.lost != "" {
		return
	}
	if ev.onLoop != nil {
		ev.onLoop(fr, a, n0)
	}
	// what one way round does
	starSet := map[string]map[string]bool{}
	note := func(sym string, d fsum) {
		lp.deltas[sym] = append(lp.deltas[sym], d)
		if starSet[sym] == nil {
			starSet[sym] = map[string]bool{}
		}
		starSet[sym][d.String()] = true
	}
	var outAlts [][]*ftok
	bAlts := map[*ssa.Phi][][]*ftok{}
	changed := map[string]bool{}
	for _, b := range a.back {
		for ph, sym := range a.phiKey {
			v := b.env[fr.key(ph)]
			switch inits[ph].k {
			case 'i':
				if v.k == 'i' {
					note(sym, v.sum.add(fterm(sym), -1))
				} else {
					note(sym, fterm("?"))
				}
			case 's':
				if v.k == 's' && v.base == inits[ph].base {
					note(sym, v.sum.add(fterm(sym), -1))
				} else {
					note(sym, fterm("?"))
				}
			case 'b':
				if v.k == 'b' && len(v.toks) > 0 && v.toks[0].kind == "mark" && v.toks[0].src == sym {
					bAlts[ph] = append(bAlts[ph], v.toks[1:])
				} else {
					bAlts[ph] = append(bAlts[ph], []*ftok{{kind: "?"}})
				}
			}
		}
		for k, sym := range memSym {
			v := b.mem[k]
			if v.k == 'i' || v.k == 's' {
				note(sym, v.sum.add(fterm(sym), -1))
			} else {
				note(sym, fterm("?"))
			}
		}
		outAlts = append(outAlts, b.out[n0:])
		for k, v := range b.mem {
			if o, ok := s.mem[k]; !ok || o.String() != v.String() {
				changed[k] = true
			}
		}
		if b.lossy {
			s.lossy = true
		}
	}
	for sym, set := range starSet {
		n := starOf(set)
		if n == "each{}" {
			continue
		}
		if strings.Contains(n, fmt.Sprintf("L%d.", lp.id)) || strings.Contains(n, "@") {
			n = fmt.Sprintf("all%d(%s)", lp.id, sym)
		}
		lp.star[sym] = n
	}
	sub := func(x fsum) fsum {
		o := fsum{}
		for t, n := range x {
			if init, ok := lp.init[t]; ok {
				o = o.add(init, n)
				if st := lp.star[t]; st != "" {
					o = o.add(fterm(st), n)
				}
			} else {
				o = o.add(fsum{t: n}, 1)
			}
		}
		return o
	}
	atLatch := false
	for _, x := range a.exitSt {
		if x.latch {
			if atLatch {
				continue // all rounds end alike
			}
			atLatch = true
			x.header = true
			x.st.out = x.st.out[:n0:n0]
			x.st.mem = cloneM(s.mem)
			for ph, sym := range a.phiKey {
				for i, p := range h.Preds {
					if _, isC := ph.Edges[i].(*ssa.Const); !h.Dominates(p) || isC {
						continue
					}
					switch v := x.st.env[fr.key(ph.Edges[i])]; v.k {
					case 'i':
						x.st.env[fr.key(ph.Edges[i])] = fi(fterm(sym))
					case 's':
						v.sum = fterm(sym)
						x.st.env[fr.key(ph.Edges[i])] = v
					default:
						x.st.env[fr.key(ph.Edges[i])] = fx("?" + sym)
					}
				}
			}
		}
		if !x.header {
			if len(nonEmpty(outAlts)) > 0 {
				x.st.lossy = true
			}
			for k := range changed {
				if memSym[k] == "" && !strings.HasPrefix(k, "tmp") {
					x.st.lossy = true
				}
			}
			x.run(x.st)
			continue
		}
		e := x.st
		for k, v := range e.env {
			if v.k == 'i' || v.k == 's' {
				v.sum = sub(v.sum)
				e.env[k] = v
			}
		}
		for k, v := range e.mem {
			if v.k == 'i' || v.k == 's' {
				v.sum = sub(v.sum)
				e.mem[k] = v
			}
		}
		for ph := range a.phiKey {
			if inits[ph].k == 'b' {
				v := fval{k: 'b', toks: append([]*ftok{}, inits[ph].toks...)}
				alts := nonEmpty(bAlts[ph])
				if len(alts) > 0 {
					v.toks = append(v.toks, &ftok{kind: "star", alts: alts, lp: lp})
				}
				e.env[fr.key(ph)] = v
				if x.latch {
					for i, p := range h.Preds {
						if h.Dominates(p) {
							e.env[fr.key(ph.Edges[i])] = v
						}
					}
				}
			}
		}
		if len(nonEmpty(outAlts)) > 0 {
			e.out = append(append([]*ftok{}, e.out...), &ftok{kind: "star", alts: nonEmpty(outAlts), lp: lp})
		}
		for k := range changed {
			if memSym[k] != "" {
				continue
			}
			pre, had := s.mem[k]
			var alts []fval
			var snaps []*fstate
			ok, how := true, "each"
			for _, b := range a.back {
				na := len(alts)
				v, has := b.mem[k]
				switch {
				case !has || had && v.String() == pre.String():
					how = "some"
				case v.k == 'A' && had && v.desc == pre.String() || v.k == 'A' && !had:
					alts = append(alts, v.tup...)
				case strings.HasSuffix(k, "[]"):
					alts = append(alts, v)
				default:
					ok = false
				}
				for ; na < len(alts); na++ {
					snaps = append(snaps, b)
				}
			}
			if !ok || len(alts) == 0 {
				e.mem[k] = fx("?loop " + k)
				continue
			}
			e.mem[k] = fval{k: 'L', tup: alts, tok: &ftok{kind: "star", lp: lp}, desc: how, snaps: snaps}
		}
		if s.lossy {
			e.lossy = true
		}
		x.run(e)
	}
}

func nonEmpty(a [][]*ftok) [][]*ftok {
	var o [][]*ftok
	seen := map[string]bool{}
	for _, x := range a {
		if s := fmt.Sprint(x); !seen[s] {
			seen[s] = true
			o = append(o, x)
		}
	}
	if len(o) == 1 && len(o[0]) == 0 {
		return nil
	}
	return o
}

func (ev *fmtEval) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

// storedIn: the memory cells of this function that instructions of the loop write
func (ev *fmtEval) storedIn(fr *fframe, st *fstate, body map[*ssa.BasicBlock]bool) []string {
	set := map[string]bool{}
	for b := range body {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if k := ev.addrKey(fr, st, s.Addr); k != "" {
					set[k] = true
				}
			}
		}
	}
	return sortedKeys(set)
}

// addrKey: the cell an address names, without evaluating anything
func (ev *fmtEval) addrKey(fr *fframe, st *fstate, a ssa.Value) string {
	if v, ok := st.env[fr.key(a)]; ok {
		if v.k == 'p' {
			return v.key
		}
		return ""
	}
	if fa, ok := a.(*ssa.FieldAddr); ok {
		if b := ev.val(fr, st, fa.X); b.k == 'p' {
			return b.key + "." + fieldNameOf(fa)
		} else if b.k == 'x' {
			return b.desc + "." + fieldNameOf(fa)
		}
	}
	return ""
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	_, st := derefStruct(fa.X.Type())
	return st.Field(fa.Field).Name()
}

func (ev *fmtEval) val(fr *fframe, st *fstate, v ssa.Value) fval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch t := x.Type().Underlying().(type) {
			case *types.Slice:
				if isByteSlice(t) {
					return fval{k: 'b'}
				}
			}
			return fval{k: 'n'}
		}
		switch x.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return fi(fconst(n))
			}
		case constant.Bool:
			return fval{k: 'c', desc: "true", truth: constant.BoolVal(x.Value)}
		case constant.String:
			return fx(x.Value.ExactString())
		}
		return fx("?const")
	case *ssa.Global:
		return fval{k: 'p', key: "G." + x.Name()}
	case *ssa.Function:
		return fval{k: 'x', desc: "func " + x.String(), fn: x}
	}
	if r, ok := st.env[fr.key(v)]; ok {
		return r
	}
	return fx("?" + fr.key(v))
}

// load reads a cell
func (ev *fmtEval) load(st *fstate, key string, t types.Type) fval {
	if v, ok := st.mem[key]; ok {
		if ev.exact && isStruct(t) {
			for k := range st.mem {
				if strings.HasPrefix(k, key+".") {
					return fval{k: 'o', key: key, desc: key}
				}
			}
		}
		if v.k == 'n' && isInt(t) {
			return fi(fsum{})
		}
		return v
	}
	// part of something stored whole
	for i := len(key) - 1; i > 0; i-- {
		if key[i] == '.' {
			if v, ok := st.mem[key[:i]]; ok {
				switch v.k {
				case 'n':
					return zeroF(t)
				case 'x':
					return ev.named(st, v.desc+key[i:], t)
				case 'p', 'o':
					if v.k == 'p' && ev.strict {
						return ev.named(st, key, t) // of what was there before
					}
					return ev.load(st, v.key+key[i:], t)
				}
				return fx("?" + key)
			}
		}
	}
	if i := strings.LastIndex(key, "."); i > 0 && st.ser[key[:i]] && isInt(t) {
		return ev.named(st, key+" after serializing", t)
	}
	if strings.HasPrefix(key, "new") || strings.HasPrefix(key, "mk") {
		for k := range st.mem {
			if strings.HasPrefix(k, key+".") {
				return fval{k: 'o', key: key, desc: key} // the object whole
			}
		}
		if isStruct(t) {
			return fval{k: 'o', key: key, desc: key}
		}
		if i := strings.LastIndex(key, "["); i > 0 && isInt(t) && stdSizes.Sizeof(t) == 1 {
			n := int64(-1)
			fmt.Sscanf(key[i:], "[%d]", &n)
			if _, ok := ev.sized[key[:i]]; ok && n >= 0 {
				return ev.readWord(fval{k: 's', base: key[:i], sum: fconst(n)}, 1, false)
			}
		}
		if strings.HasPrefix(key, "mk") {
			return ev.named(st, key, t)
		}
		return zeroF(t)
	}
	return ev.named(st, key, t)
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func zeroF(t types.Type) fval {
	switch {
	case isInt(t):
		return fi(fsum{})
	case isByteSlice(t):
		return fval{k: 'b'}
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
		return fval{k: 'n'}
	}
	if isBool(t) {
		return fval{k: 'c', desc: "true", truth: false}
	}
	return fx(`""`)
}

// named: the value of something that was there before
func (ev *fmtEval) named(st *fstate, desc string, t types.Type) fval {
	if isInt(t) {
		return fi(fterm(desc))
	}
	return fx(desc)
}

func (ev *fmtEval) describe(v fval) string {
	switch v.k {
	case 't':
		return v.String()
	case 'p':
		return v.key
	case 'o':
		return v.key
	}
	return v.String()
}

func (ev *fmtEval) bitsOf(v fval, n int) []fbit {
	if v.bits != nil && len(v.bits) == n {
		return v.bits
	}
	out := make([]fbit, n)
	if v.k != 'i' {
		for i := range out {
			out[i].k = '?'
		}
		return out
	}
	if c, ok := v.sum.konst(); ok {
		for i := range out {
			out[i].k = byte(uint64(c) >> i & 1)
		}
		return out
	}
	s := v.sum.String()
	ev.sums[s] = v.sum
	for i := range out {
		out[i] = fbit{'b', s, i}
	}
	return out
}

// fromBits gives the bits a name: k consecutive bytes of a buffer, least significant first, or part of a value
func (ev *fmtEval) fromBits(bits []fbit) fval {
	v := fval{k: 'i', bits: bits}
	zero, konst := true, true
	var n uint64
	for i, b := range bits {
		if b.k != 0 {
			zero = false
		}
		if b.k > 1 {
			konst = false
		} else if b.k == 1 {
			n |= 1 << i
		}
	}
	if zero || konst {
		v.sum = fconst(int64(n))
		v.bits = nil
		return v
	}
	n2 := bitName(bits)
	v.sum = fterm(n2)
	if s, ok := ev.sums[n2]; ok {
		v.sum = s
	}
	return v
}

func bitName(bits []fbit) string {
	// the low bits of one named thing
	same := true
	for i, b := range bits {
		if b.k != 'b' || b.src != bits[0].src || b.bit != i {
			same = false
		}
	}
	if same {
		return bits[0].src
	}
	var sb strings.Builder
	for i := 0; i < len(bits); {
		b := bits[i]
		j := i + 1
		for j < len(bits) && (b.k == 'b' && bits[j].k == 'b' && bits[j].src == b.src && bits[j].bit == b.bit+j-i || b.k < 2 && bits[j].k == b.k || b.k == '?' && bits[j].k == '?') {
			j++
		}
		switch b.k {
		case 'b':
			fmt.Fprintf(&sb, "[%s:%d..%d]", b.src, b.bit, b.bit+j-i-1)
		case '?':
			sb.WriteString("?")
		default:
			fmt.Fprintf(&sb, "{%d*%d}", b.k, j-i)
		}
		i = j
	}
	return sb.String()
}

// wordTok recognises an integer that is a little-endian word of a buffer
func wordTok(bits []fbit) *ftok {
	if len(bits)%8 != 0 || len(bits) == 0 {
		return nil
	}
	base, off := "", fsum(nil)
	for i := 0; i < len(bits); i += 8 {
		b := bits[i]
		if b.k != 'b' || !strings.HasPrefix(b.src, "byte:") {
			return nil
		}
		pb, po := splitByte(b.src)
		for j := 0; j < 8; j++ {
			if c := bits[i+j]; c.k != 'b' || c.src != b.src || c.bit != j {
				return nil
			}
		}
		if i == 0 {
			base, off = pb, po
		} else if pb != base || !off.add(fconst(int64(i/8)), 1).eq(po) {
			return nil
		}
	}
	return readTok(map[int]string{8: "byte", 16: "i16", 32: "i32", 64: "i64"}[len(bits)], base, off)
}

var fbyteMu sync.Mutex
var fbyteOff = map[string]fsum{}

func byteName(base string, off fsum) string {
	n := "byte:" + base + "@" + off.String()
	fbyteMu.Lock()
	fbyteOff[n] = off
	fbyteMu.Unlock()
	return n
}

func splitByte(s string) (string, fsum) {
	fbyteMu.Lock()
	defer fbyteMu.Unlock()
	i := strings.Index(s, "@")
	return s[len("byte:"):i], fbyteOff[s]
}

func sortedTok(k int) string {
	return map[int]string{1: "byte", 2: "i16", 4: "i32", 8: "i64"}[k]
}

// readWord: the value of k bytes at an offset
func (ev *fmtEval) readWord(s fval, k int, big bool) fval {
	if s.k != 's' {
		return fx("?word")
	}
	bits := make([]fbit, k*8)
	for i := range bits {
		j := i / 8
		if big {
			j = k - 1 - j
		}
		bits[i] = fbit{'b', byteName(s.base, s.sum.add(fconst(int64(j)), 1)), i % 8}
	}
	return ev.word(bits)
}

func (ev *fmtEval) readWordAt(st *fstate, s fval, k int, big bool) fval {
	if ev.flat != nil && !big && s.k == 's' {
		if v, ok := ev.flat.word(st, s, k); ok {
			return v
		}
	}
	return ev.readWord(s, k, big)
}

// word names an integer made of the bytes of a buffer
func (ev *fmtEval) word(bits []fbit) fval {
	v := ev.fromBits(bits)
	if t := wordTok(bits); t != nil {
		if ev.flat != nil {
			if u, ok := ev.flat.word(nil, fval{k: 's', base: t.base, sum: t.off}, len(bits)/8); ok {
				return u
			}
		}
		v.tok = t
		v.sum = fterm(fmt.Sprintf("%s:%s@%s", t.kind, t.base, t.off))
	}
	return v
}

// bytesOf: what writing this value writes
func (ev *fmtEval) bytesOf(st *fstate, v fval) []*ftok {
	switch v.k {
	case 'b':
		return v.toks
	case 'n':
		return nil
	case 's':
		// a buffer filled byte by byte
		n, ok := ev.sized[v.base]
		if !ok {
			break
		}
		if k, isC := n.konst(); isC && k <= 16 {
			if z, isZ := v.sum.konst(); !isZ || z != 0 {
				break
			}
			if _, has := st.mem[v.base+"[]"]; has {
				break
			}
			var all []fbit
			for i := int64(0); i < k; i++ {
				b, has := st.mem[fmt.Sprintf("%s[%d]", v.base, i)]
				if !has {
					b = fi(fsum{})
				}
				all = append(all, ev.bitsOf(b, 8)...)
			}
			if t := sortedTok(int(k)); t != "" {
				w := ev.fromBits(all)
				return []*ftok{{kind: t, src: w.sum.String(), val: w.sum}}
			}
		}
	}
	return []*ftok{{kind: "?", src: "?" + v.String()}}
}

func (ev *fmtEval) instrs(fr *fframe, st *fstate, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if ev.lost != "" {
			return
		}
		in := b.Instrs[i]
		set := func(v fval) {
			if sv, ok := in.(ssa.Value); ok {
				st.env[fr.key(sv)] = v
			}
		}
		switch x := in.(type) {
		case *ssa.Alloc:
			k := fmt.Sprintf("new%d_%s", fr.id, x.Name())
			if ev.flat != nil && ev.flat.unroll {
				ev.ntmp++
				k = fmt.Sprintf("%s~%d", k, ev.ntmp)
			}
			for m := range st.mem {
				if m == k || strings.HasPrefix(m, k+".") || strings.HasPrefix(m, k+"[") {
					delete(st.mem, m)
				}
			}
			if at, ok := derefT(x.Type()).Underlying().(*types.Array); ok {
				ev.sized[k] = fconst(at.Len())
				if x.Comment == "makeslice" {
					ev.order = append(ev.order, k)
				}
			}
			set(fval{k: 'p', key: k, typ: x.Type()})
		case *ssa.MakeSlice:
			k := fmt.Sprintf("mk%d_%s", fr.id, x.Name())
			if ev.flat != nil && ev.flat.unroll {
				ev.ntmp++
				k = fmt.Sprintf("%s~%d", k, ev.ntmp)
			}
			n := ev.val(fr, st, x.Len)
			if ev.listMode() && !isByteSlice(x.Type()) {
				c := ev.val(fr, st, x.Cap)
				set(ev.newList(n, c))
				break
			}
			if ev.flat != nil && n.k == 'i' && isByteSlice(x.Type()) {
				ev.sized[k] = n.sum
				ev.flat.bufs[k] = true
				set(fval{k: 's', base: k, sum: fsum{}})
				break
			}
			if n.k == 'i' {
				if z, ok := n.sum.konst(); ok && z == 0 && isByteSlice(x.Type()) {
					set(fval{k: 'b'})
					break
				}
				ev.sized[k] = n.sum
				ev.order = append(ev.order, k)
			}
			set(fval{k: 's', base: k, sum: fsum{}})
		case *ssa.FieldAddr:
			v := ev.val(fr, st, x.X)
			if v.k == 'p' {
				set(fval{k: 'p', key: v.key + "." + fieldNameOf(x)})
			} else {
				set(fval{k: 'p', key: ev.describe(v) + "." + fieldNameOf(x)})
			}
			ev.field(fr, st, x, x.X.Type(), x.Field)
		case *ssa.Field:
			v := ev.val(fr, st, x.X)
			sty := x.X.Type().Underlying().(*types.Struct)
			n := sty.Field(x.Field).Name()
			if v.k == 'o' {
				set(ev.load(st, v.key+"."+n, x.Type()))
			} else {
				set(ev.named(st, ev.describe(v)+"."+n, x.Type()))
			}
			ev.field(fr, st, x, x.X.Type(), x.Field)
		case *ssa.IndexAddr:
			v, ix := ev.val(fr, st, x.X), ev.val(fr, st, x.Index)
			a := ev.elemAddr(st, v, ix)
			if ev.listMode() && v.k == 'n' {
				a.desc = "#panic"
			}
			if a.desc == "#panic" {
				ev.panicked(st)
				return
			}
			set(a)
		case *ssa.Index:
			set(fx("?index"))
		case *ssa.Store:
			a, v := ev.val(fr, st, x.Addr), ev.val(fr, st, x.Val)
			if a.k == 's' && ev.flat != nil && ev.flat.bufs[a.base] {
				ev.flat.stored(st, a, v)
				break
			}
			if a.k != 'p' {
				break
			}
			if ev.exact && isStruct(x.Val.Type()) && (v.k == 'o' || v.k == 'n') && v.key != a.key {
				for m := range st.mem {
					if m == a.key || strings.HasPrefix(m, a.key+".") {
						delete(st.mem, m)
					}
				}
				if v.k == 'n' && !strings.HasPrefix(a.key, "new") {
					st.mem[a.key] = v
				}
				if w, ok := st.mem[v.key]; ok && v.k == 'o' {
					st.mem[a.key] = w
				}
			}
			if v.k == 'n' && ev.exact && isStruct(x.Val.Type()) {
				break
			}
			if v.k == 'o' {
				// copying an object copies its parts
				for m, mv := range st.mem {
					if strings.HasPrefix(m, v.key+".") {
						st.mem[a.key+m[len(v.key):]] = mv
					}
				}
				break
			}
			if _, over := st.mem[a.key]; !over && (v.k == 'p' && v.key == a.key || v.k == 'x' && v.desc == a.key) {
				break // stored back where it was
			}
			for m := range st.mem {
				if strings.HasPrefix(m, a.key+".") {
					delete(st.mem, m)
				}
			}
			st.mem[a.key] = v
		case *ssa.UnOp:
			v := ev.val(fr, st, x.X)
			switch x.Op {
			case token.MUL:
				if v.k == 's' { // a byte of a buffer, addressed
					set(ev.readWordAt(st, v, 1, false))
				} else if v.k == 't' {
					set(v)
				} else if v.k == 'p' {
					set(ev.load(st, v.key, x.Type()))
					if fa, ok := x.X.(*ssa.FieldAddr); ok {
						ev.field(fr, st, x, fa.X.Type(), fa.Field)
					}
				} else {
					set(ev.named(st, ev.describe(v), x.Type()))
				}
			case token.NOT:
				if v.k == 'c' {
					set(fval{k: 'c', desc: v.desc, truth: !v.truth})
				} else {
					set(fval{k: 'c', desc: ev.describe(v), truth: false})
				}
			case token.SUB:
				if v.k == 'i' {
					set(fi(fsum{}.add(v.sum, -1)))
				} else {
					set(fx("?"))
				}
			default:
				set(fx("?op"))
			}
		case *ssa.BinOp:
			set(ev.binop(st, x, ev.val(fr, st, x.X), ev.val(fr, st, x.Y)))
		case *ssa.Convert:
			set(ev.convert(st, x, ev.val(fr, st, x.X)))
		case *ssa.ChangeType:
			set(ev.val(fr, st, x.X))
		case *ssa.ChangeInterface:
			set(ev.val(fr, st, x.X))
		case *ssa.MakeInterface:
			v := ev.val(fr, st, x.X)
			v.typ = x.X.Type()
			set(v)
		case *ssa.SliceToArrayPointer:
			set(fx("?"))
		case *ssa.MultiConvert:
			set(fx("?"))
		case *ssa.Slice:
			v := ev.slice(fr, st, x)
			if v.desc == "#panic" {
				ev.panicked(st)
				return
			}
			set(v)
		case *ssa.Extract:
			v := ev.val(fr, st, x.Tuple)
			if v.k == 'T' && x.Index < len(v.tup) {
				set(v.tup[x.Index])
			} else if isInt(x.Type()) {
				set(fi(fterm(fmt.Sprintf("?%s#%d", fr.key(x.Tuple), x.Index))))
			} else {
				set(fx(fmt.Sprintf("?%s#%d", fr.key(x.Tuple), x.Index)))
			}
		case *ssa.TypeAssert:
			v := ev.val(fr, st, x.X)
			d := ev.describe(v)
			tk := typeKey(derefT(x.AssertedType))
			r := fx(d)
			r.typ = x.AssertedType
			if v.k == 'p' || v.k == 'o' {
				r = v
			}
			if ev.flat != nil && v.typ != nil && !types.IsInterface(v.typ) {
				is := types.Identical(v.typ, x.AssertedType)
				if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
					is = types.Implements(v.typ, it)
				}
				if is {
					r = v
				}
				if x.CommaOk {
					set(fval{k: 'T', tup: []fval{r, {k: 'c', desc: "true", truth: is}}})
					break
				}
			}
			if x.CommaOk {
				set(fval{k: 'T', tup: []fval{r, {k: 'c', desc: "is(" + d + "," + tk + ")", truth: true}}})
			} else {
				set(r)
			}
		case *ssa.MakeClosure:
			c := fx("closure " + x.Fn.(*ssa.Function).String())
			c.fn = x.Fn.(*ssa.Function)
			for _, bd := range x.Bindings {
				c.tup = append(c.tup, ev.val(fr, st, bd))
			}
			set(c)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				set(ev.builtin(fr, st, x, bi.Name()))
				break
			}
			done := false
			ev.call(fr, st, x, func(s2 *fstate, v fval) {
				s2.env[fr.key(x)] = v
				ev.instrs(fr, s2, b, i+1)
			}, &done)
			if done {
				return
			}
		case *ssa.Panic:
			ev.panicked(st)
			return
		case *ssa.Return:
			var res []fval
			for _, rv := range x.Results {
				res = append(res, ev.val(fr, st, rv))
			}
			ev.leave(fr, st, res)
			return
		case *ssa.Jump:
			ev.block(fr, st, b.Succs[0], b)
			return
		case *ssa.If:
			c := ev.val(fr, st, x.Cond)
			if c.k == 'c' && c.desc == "true" {
				s := 1
				if c.truth {
					s = 0
				}
				ev.block(fr, st, b.Succs[s], b)
				return
			}
			d := c.desc
			if c.k != 'c' {
				d, c.truth = ev.describe(c), true
			}
			if t, ok := st.cond[d]; ok {
				s := 1
				if t == c.truth {
					s = 0
				}
				ev.block(fr, st, b.Succs[s], b)
				return
			}
			for s := 0; s < 2; s++ {
				s2 := st.clone()
				s2.cond[d] = (s == 0) == c.truth
				ev.block(fr, s2, b.Succs[s], b)
			}
			return
		case *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.DebugRef, *ssa.Send, *ssa.MapUpdate:
		default:
			if sv, ok := in.(ssa.Value); ok {
				if isInt(sv.Type()) {
					set(fi(fterm("?" + fr.key(sv))))
				} else {
					set(fx("?" + fr.key(sv)))
				}
			}
		}
	}
}

// leave returns from a function, out of the loops that are being looked at
func (ev *fmtEval) leave(fr *fframe, st *fstate, res []fval) {
	if n := len(fr.act); n > 0 {
		a := fr.act[n-1]
		a.exitSt = append(a.exitSt, &fexit{st, false, false, func(s2 *fstate) { ev.leave(fr, s2, res) }})
		return
	}
	fr.k(st, res)
}

// field tells which field of which struct a value is
func (ev *fmtEval) field(fr *fframe, st *fstate, v ssa.Value, owner types.Type, i int) {
	if ev.onField == nil {
		return
	}
	if _, s := derefStruct(owner); s != nil {
		ev.onField(ev.describe(ev.val(fr, st, v)), s, i)
	}
}

func (ev *fmtEval) elemAddr(st *fstate, v, ix fval) fval {
	switch v.k {
	case 'l':
		lo, hi, ok := listEnds(v)
		n, isC := ix.sum.konst()
		if ix.k != 'i' || !isC || !ok {
			return fx("?elem")
		}
		if n < 0 || n >= hi-lo {
			return fval{k: 'x', desc: "#panic"}
		}
		return fval{k: 'p', key: fmt.Sprintf("%s[%d]", v.key, lo+n)}
	case 's':
		if ix.k == 'i' {
			if _, mine := ev.sized[v.base]; mine && !(ev.flat != nil && ev.flat.bufs[v.base]) {
				off := v.sum.add(ix.sum, 1)
				if n, ok := off.konst(); ok {
					return fval{k: 'p', key: fmt.Sprintf("%s[%d]", v.base, n)}
				}
				if ev.exact {
					return fval{k: 'p', key: v.base + "[" + off.String() + "]"}
				}
				return fval{k: 'p', key: v.base + "[]"}
			}
			return fval{k: 's', base: v.base, sum: v.sum.add(ix.sum, 1)}
		}
	case 'v':
		if n, ok := ix.sum.konst(); ev.exact && ix.k == 'i' && ok && n >= 0 && n < int64(len(v.tup)) {
			ev.ntmp++
			k := fmt.Sprintf("tmp%d[%d]", ev.ntmp, n)
			st.mem[k] = v.tup[n]
			return fval{k: 'p', key: k}
		}
	case 'p':
		if ix.k == 'i' {
			if n, ok := ix.sum.konst(); ok {
				return fval{k: 'p', key: fmt.Sprintf("%s[%d]", v.key, n)}
			}
		}
		return fval{k: 'p', key: v.key + "[]"}
	case 'x':
		if ev.exact && ix.k == 'i' {
			return fval{k: 'p', key: v.desc + "[" + ix.sum.String() + "]"}
		}
		return fval{k: 'p', key: v.desc + "[]"}
	}
	return fx("?elem")
}

func (ev *fmtEval) binop(st *fstate, x *ssa.BinOp, a, b fval) fval {
	n := int(stdSizes.Sizeof(x.Type())) * 8
	switch x.Op {
	case token.ADD, token.SUB:
		if a.k == 'i' && b.k == 'i' {
			if x.Op == token.ADD && (a.bits != nil || b.bits != nil) {
				// adding parts that do not overlap
				if o, ok := mergeBits(ev.bitsOf(a, n), ev.bitsOf(b, n)); ok && a.bits != nil && b.bits != nil && !strings.Contains(bitName(o), "or(") {
					return ev.word(o)
				}
			}
			k := int64(1)
			if x.Op == token.SUB {
				k = -1
			}
			return fi(a.sum.add(b.sum, k))
		}
		if x.Op == token.ADD && isStringT(x.Type()) {
			if ev.exact && a.k == 'x' && b.k == 'x' {
				return fx(joinText(a.desc, b.desc))
			}
			return fx("?concat")
		}
	case token.MUL:
		if a.k == 'i' && b.k == 'i' {
			if c, ok := a.sum.konst(); ok {
				return fi(fsum{}.add(b.sum, c))
			}
			if c, ok := b.sum.konst(); ok {
				return fi(fsum{}.add(a.sum, c))
			}
			if ev.exact && !a.sum.opaque() && !b.sum.opaque() {
				l := []string{a.sum.String(), b.sum.String()}
				sort.Strings(l)
				return fi(fterm("mul(" + l[0] + "," + l[1] + ")"))
			}
		}
	case token.SHL, token.SHR:
		if c, ok := b.sum.konst(); ok && a.k == 'i' && b.k == 'i' && n > 0 {
			in := ev.bitsOf(a, n)
			out := make([]fbit, n)
			for i := range out {
				j := i - int(c)
				if x.Op == token.SHR {
					j = i + int(c)
				}
				switch {
				case j >= 0 && j < n:
					out[i] = in[j]
				case x.Op == token.SHR && !isUnsigned(x.Type()):
					out[i] = in[n-1]
				}
			}
			return ev.word(out)
		}
	case token.OR, token.XOR:
		if a.k == 'i' && b.k == 'i' && n > 0 {
			if o, ok := mergeBits(ev.bitsOf(a, n), ev.bitsOf(b, n)); ok {
				return ev.word(o)
			}
		}
	case token.AND:
		if c, ok := b.sum.konst(); ok && a.k == 'i' && b.k == 'i' && n > 0 {
			in := ev.bitsOf(a, n)
			out := make([]fbit, n)
			for i := range out {
				if uint64(c)>>i&1 == 1 {
					out[i] = in[i]
				}
			}
			return ev.word(out)
		}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return ev.compare(x, a, b)
	case token.QUO, token.REM:
		if a.k == 'i' && b.k == 'i' && ev.flat != nil {
			n, ok1 := a.sum.konst()
			d, ok2 := b.sum.konst()
			if ok1 && ok2 && d > 0 && n >= 0 {
				if x.Op == token.QUO {
					return fi(fconst(n / d))
				}
				return fi(fconst(n % d))
			}
		}
	}
	if isInt(x.Type()) {
		return fi(fterm("?" + x.Op.String() + "(" + a.String() + "," + b.String() + ")"))
	}
	if bt, ok := x.Type().Underlying().(*types.Basic); ok && ev.exact && bt.Info()&types.IsFloat != 0 {
		return fx("float" + x.Op.String() + "(" + ev.describe(a) + "," + ev.describe(b) + ")")
	}
	return fx("?" + x.Op.String())
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func mergeBits(a, b []fbit) ([]fbit, bool) {
	out := make([]fbit, len(a))
	for i := range a {
		switch {
		case a[i].k == 0:
			out[i] = b[i]
		case b[i].k == 0:
			out[i] = a[i]
		case a[i] == b[i]:
			out[i] = a[i]
		case a[i].k == '?' || b[i].k == '?':
			return nil, false
		default:
			// two different bits in one place
			out[i] = fbit{'b', fmt.Sprintf("or(%s.%d,%s.%d)", a[i].src, a[i].bit, b[i].src, b[i].bit), i}
		}
	}
	return out, true
}

func (ev *fmtEval) compare(x *ssa.BinOp, a, b fval) fval {
	truth := func(t bool) fval { return fval{k: 'c', desc: "true", truth: t} }
	op := x.Op
	if a.k == 'i' && b.k == 'i' {
		d := a.sum.add(b.sum, -1)
		if ev.flat != nil {
			if t, ok := ev.flat.settle(op, d); ok {
				return truth(t)
			}
		}
		if c, ok := d.konst(); ok {
			switch op {
			case token.EQL:
				return truth(c == 0)
			case token.NEQ:
				return truth(c != 0)
			case token.LSS:
				return truth(c < 0)
			case token.LEQ:
				return truth(c <= 0)
			case token.GTR:
				return truth(c > 0)
			case token.GEQ:
				return truth(c >= 0)
			}
		}
		// one spelling per condition: a == b, a < b
		as, bs := a.sum.String(), b.sum.String()
		switch op {
		case token.EQL, token.NEQ:
			if as > bs {
				as, bs = bs, as
			}
			return fval{k: 'c', desc: as + " == " + bs, truth: op == token.EQL}
		case token.LSS:
			return fval{k: 'c', desc: as + " < " + bs, truth: true}
		case token.GEQ:
			return fval{k: 'c', desc: as + " < " + bs, truth: false}
		case token.GTR:
			return fval{k: 'c', desc: bs + " < " + as, truth: true}
		case token.LEQ:
			return fval{k: 'c', desc: bs + " < " + as, truth: false}
		}
	}
	if op == token.EQL || op == token.NEQ {
		na, nb := nilF(a), nilF(b)
		if ev.flat != nil {
			flatNil := func(v fval, n int) int {
				if v.k == 'b' && len(v.toks) == 0 {
					return 1 // slices are compared with nil only
				}
				if v.k == 'x' && (v.fn != nil || strings.HasPrefix(v.desc, "G.") && !strings.ContainsAny(v.desc[2:], ".[")) {
					return -1 // functions and the errors of a package
				}
				return n
			}
			na, nb = flatNil(a, na), flatNil(b, nb)
			if a.k == 'x' && b.k == 'x' && a.desc == b.desc && !strings.Contains(a.desc, "?") {
				return truth(op == token.EQL)
			}
			if a.k == 'x' && b.k == 'x' && strings.HasPrefix(a.desc, "G.") && strings.HasPrefix(b.desc, "G.") {
				return truth(op == token.NEQ)
			}
		}
		if na == 1 && nb == 1 {
			return truth(op == token.EQL)
		}
		if na*nb == -1 {
			return truth(op == token.NEQ)
		}
		if na+nb == 1 && !ev.nilDocs && strings.HasSuffix(typeKey(x.X.Type()), "birch.Document") {
			return truth(op == token.NEQ) // the documents of a message are there
		}
		if ev.flat != nil && a.k == 'x' && b.k == 'x' {
			ua, e1 := strconv.Unquote(a.desc)
			ub, e2 := strconv.Unquote(b.desc)
			if e1 == nil && e2 == nil {
				return truth((ua == ub) == (op == token.EQL))
			}
		}
		if ev.flat != nil && ev.flat.unroll && a.k == 'p' && b.k == 'p' {
			return truth((a.key == b.key) == (op == token.EQL))
		}
		as, bs := ev.describe(a), ev.describe(b)
		if as > bs {
			as, bs = bs, as
		}
		return fval{k: 'c', desc: as + " == " + bs, truth: op == token.EQL}
	}
	return fval{k: 'c', desc: ev.describe(a) + op.String() + ev.describe(b), truth: true}
}

// nilF: 1 nil, -1 not nil, 0 unknown
func nilF(v fval) int {
	switch v.k {
	case 'n':
		return 1
	case 'b':
		return 0
	case 'p', 't', 'o', 's', 'E', 'l':
		return -1
	case 'x':
		if strings.HasPrefix(v.desc, "error:") {
			return -1
		}
	}
	return 0
}

func (ev *fmtEval) convert(st *fstate, x *ssa.Convert, v fval) fval {
	to, from := x.Type(), x.X.Type()
	if ev.flat != nil && v.k == 'p' {
		return v
	}
	switch {
	case isInt(to) && isInt(from):
		if v.k != 'i' {
			return fi(fterm("?conv " + v.String()))
		}
		n, m := int(stdSizes.Sizeof(to))*8, int(stdSizes.Sizeof(from))*8
		if n >= m {
			// sizes and offsets are small and not negative: widening keeps the quantity
			if v.bits == nil || v.tok != nil {
				if v.tok != nil {
					w := v
					w.bits = nil
					if n == m {
						return v
					}
					if u := isUnsigned(from); u {
						w.bits = make([]fbit, n)
						copy(w.bits, v.bits)
					}
					return w
				}
				return v
			}
			out := make([]fbit, n)
			copy(out, v.bits)
			if !isUnsigned(from) {
				for i := m; i < n; i++ {
					out[i] = v.bits[m-1]
				}
			}
			return ev.word(out)
		}
		if _, ok := v.sum.konst(); n >= 32 && ev.strict && !ok && v.bits == nil {
			return fi(fterm(fmt.Sprintf("low%d(%s)", n, v.sum)))
		}
		if n >= 32 {
			if t, ok := v.sum.single(); v.bits == nil && !(ok && !strings.ContainsAny(t, "({?")) {
				return v // the low word of a quantity that fits
			}
			return ev.word(ev.bitsOf(v, m)[:n])
		}
		return ev.word(ev.bitsOf(v, m)[:n])
	case isStringT(to) && isByteSlice(from):
		if v.k == 's' {
			return ev.stringAt(st, v)
		}
		if v.k == 'b' && len(v.toks) == 1 && v.toks[0].kind == "str" {
			return fx(v.toks[0].src)
		}
		return fx("?string")
	case isByteSlice(to) && isStringT(from):
		if v.k == 'x' || v.k == 't' {
			return fval{k: 'b', toks: []*ftok{{kind: "str", src: ev.describe(v)}}}
		}
	case ev.exact && isInt(from) && v.k == 'i':
		return fx("number{" + v.sum.String() + "}")
	}
	return fx("?convert")
}

// stringAt: the text of a piece of a buffer; it is a C string if it ends before the first zero byte
func (ev *fmtEval) stringAt(st *fstate, v fval) fval {
	if ev.flat != nil && ev.flat.text != nil {
		if r, ok := ev.flat.text(v); ok {
			return r
		}
	}
	if v.end == nil {
		return fx("?string")
	}
	for t, k := range v.end {
		if k != 1 {
			continue
		}
		start := v.end.add(fterm(t), -1)
		kind := "cstr"
		if !start.eq(v.sum) {
			kind = "text other than up to the first zero byte"
		}
		if strings.HasPrefix(t, "index0:"+v.base+"@"+start.String()+":") {
			return fval{k: 't', tok: readTok(kind, v.base, v.sum)}
		}
		if lp := ev.loops[t]; lp != nil {
			// counted up from the start, one byte at a time, to a byte that is zero
			z, zok := st.cond["0 == "+byteName2(v.base, v.end)]
			init, iok := lp.init[t].konst()
			if z && zok && iok && len(lp.deltas[t]) > 0 {
				for _, d := range lp.deltas[t] {
					if c, ok := d.konst(); !ok || c != 1 || init != 0 {
						kind = "text other than up to the first zero byte"
					}
				}
				return fval{k: 't', tok: readTok(kind, v.base, v.sum)}
			}
		}
	}
	return fx("?string")
}

func byteName2(base string, off fsum) string {
	return fmt.Sprintf("byte:%s@%s", base, off)
}

func (ev *fmtEval) slice(fr *fframe, st *fstate, x *ssa.Slice) fval {
	v := ev.val(fr, st, x.X)
	lo := fsum{}
	if x.Low != nil {
		l := ev.val(fr, st, x.Low)
		if l.k != 'i' {
			return fx("?slice")
		}
		lo = l.sum
	}
	var hi fsum
	if x.High != nil {
		h := ev.val(fr, st, x.High)
		if h.k != 'i' {
			return fx("?slice")
		}
		hi = h.sum
	}
	if ev.listMode() && v.k == 'n' {
		v = fval{k: 'l', key: "nilarr", sum: fsum{}, end: fsum{}}
	}
	if n, ok := ev.sized[v.key]; ok && v.k == 'p' && ev.listMode() && !isByteSlice(x.Type()) {
		if c, isC := n.konst(); isC {
			ev.flat.caps[v.key] = c
			v = fval{k: 'l', key: v.key, sum: fsum{}, end: n}
		}
	}
	switch v.k {
	case 'l':
		a, b, ok := listEnds(v)
		l, isC := lo.konst()
		h, max := b-a, ev.listCap(v)-a
		if hi != nil {
			c, isH := hi.konst()
			isC, h = isC && isH, c
		}
		base := v.base
		if x.Max != nil {
			m := ev.val(fr, st, x.Max)
			c, isM := m.sum.konst()
			if m.k != 'i' || !isM {
				return fx("?slice")
			}
			if c > max {
				return fval{k: 'x', desc: "#panic"}
			}
			max, base = c, strconv.FormatInt(a+c, 10)
		}
		if !ok || !isC {
			return fx("?slice")
		}
		if l < 0 || l > h || h > max {
			return fval{k: 'x', desc: "#panic"}
		}
		return fval{k: 'l', key: v.key, base: base, sum: fconst(a + l), end: fconst(a + h)}
	case 's':
		if t, ok := hi.single(); ok && ev.exact && strings.HasPrefix(t, "uvlen:") && len(lo) == 0 && len(v.sum) == 0 && st.mem["uv:"+v.base].k == 'i' {
			n := st.mem["uv:"+v.base].sum
			return fval{k: 'b', toks: []*ftok{{kind: "uvar", src: n.String(), val: n}}}
		}
		o := fval{k: 's', base: v.base, sum: v.sum.add(lo, 1), end: v.end}
		if hi != nil {
			o.end = v.sum.add(hi, 1)
		}
		return o
	case 'p': // an array
		if n, ok := ev.sized[v.key]; ok {
			c, isC := n.konst()
			if hi != nil {
				h, ok := hi.konst()
				isC = isC && ok && h <= c
				if isC {
					n, c = hi, h
					ev.sized[v.key] = hi
				}
			}
			if isC && len(lo) == 0 {
				if c == 0 && isByteSlice(x.Type()) {
					return fval{k: 'b'}
				}
				if isByteSlice(x.Type()) {
					// its contents as they are now
					return fval{k: 's', base: v.key, sum: fsum{}, end: n}
				}
				var el []fval
				for i := int64(0); i < c; i++ {
					el = append(el, ev.load(st, fmt.Sprintf("%s[%d]", v.key, i), x.Type().Underlying().(*types.Slice).Elem()))
				}
				return fval{k: 'v', tup: el, desc: "list"}
			}
		}
	case 'v':
		if a, ok := lo.konst(); ok && ev.flat != nil && x.Max == nil && a >= 0 {
			b := int64(len(v.tup))
			if hi != nil {
				if b, ok = hi.konst(); !ok {
					return fx("?slice")
				}
			}
			if a <= b && b <= int64(len(v.tup)) {
				return fval{k: 'v', desc: "list", tup: v.tup[a:b]}
			}
		}
	case 'b':
		if len(lo) == 0 && hi == nil {
			return v
		}
	case 'x':
		if len(lo) == 0 && hi == nil {
			return v
		}
		if n, ok := hi.single(); ev.exact && len(lo) == 0 && ok && n == "len("+v.desc+")" {
			if x.Max != nil {
				if m := ev.val(fr, st, x.Max); m.k == 'i' && m.sum.eq(hi) {
					v.base = "clipped"
				}
			}
			return v
		}
	}
	return fx("?slice")
}

func (ev *fmtEval) builtin(fr *fframe, st *fstate, x *ssa.Call, name string) fval {
	var a []fval
	for _, v := range x.Call.Args {
		a = append(a, ev.val(fr, st, v))
	}
	if ev.listMode() && !isByteSlice(x.Type()) && len(a) > 0 {
		if v, ok := ev.listBuiltin(st, name, a); ok {
			return v
		}
	}
	switch name {
	case "copy":
		if ev.flat != nil {
			if n, ok := ev.flat.copied(st, a[0], a[1]); ok {
				return fi(n)
			}
		}
	case "len":
		switch a[0].k {
		case 't':
			return fi(fterm("len(" + a[0].String() + ")"))
		case 'x':
			if u, err := strconv.Unquote(a[0].desc); err == nil && ev.flat != nil {
				return fi(fconst(int64(len(u))))
			}
			return fi(fterm("len(" + a[0].desc + ")"))
		case 's':
			if a[0].end != nil {
				return fi(a[0].end.add(a[0].sum, -1))
			}
			if n, ok := ev.sized[a[0].base]; ok {
				return fi(n.add(a[0].sum, -1))
			}
			if ev.flat != nil && ev.flat.lens[a[0].base] != nil {
				return fi(ev.flat.lens[a[0].base].add(a[0].sum, -1))
			}
			return fi(fterm("len("+a[0].base+")").add(a[0].sum, -1))
		case 'b':
			n := fsum{}
			for _, t := range a[0].toks {
				sz := t.size()
				if u, err := strconv.Unquote(t.src); err == nil && ev.flat != nil && (t.kind == "str" || t.kind == "cstr") {
					sz = fconst(int64(len(u)))
					if t.kind == "cstr" {
						sz = sz.add(fconst(1), 1)
					}
				}
				n = n.add(sz, 1)
			}
			return fi(n)
		}
		if l, ok := ev.listVals(a[0]); ok && ev.exact && !hasEach(l) {
			return fi(fconst(int64(len(l))))
		} else if ok && ev.exact {
			n := fsum{}
			for _, v := range l {
				if strings.HasPrefix(v.desc, "each(") {
					n = n.add(fterm("len"+v.desc[4:]), 1)
				} else {
					n = n.add(fconst(1), 1)
				}
			}
			return fi(n)
		}
		return fi(fterm("?len(" + a[0].String() + ")"))
	case "append":
		if isByteSlice(x.Type()) {
			base := ev.bytesOf(st, a[0])
			o := fval{k: 'b', toks: append([]*ftok{}, base...)}
			if len(a) > 1 {
				if a[1].k == 'v' {
					return fx("?append")
				}
				o.toks = append(o.toks, ev.bytesOf(st, a[1])...)
			}
			return o
		}
		if ev.exact {
			return ev.appendVals(st, a[0], a[1])
		}
		if a[1].k == 'v' {
			if a[0].k == 'A' {
				return fval{k: 'A', desc: a[0].desc, tup: append(append([]fval{}, a[0].tup...), a[1].tup...)}
			}
			return fval{k: 'A', desc: a[0].String(), tup: a[1].tup}
		}
		return fx("?append")
	case "min", "max":
		return fi(fterm("?" + name))
	}
	if isInt(x.Type()) {
		return fi(fterm("?" + name))
	}
	return fx("?" + name)
}

// docOf names the document a value is
func (ev *fmtEval) docOf(st *fstate, v fval) string {
	switch v.k {
	case 't':
		return v.String()
	case 'p':
		if m, ok := st.mem[v.key]; ok {
			return ev.docOf(st, m)
		}
		return v.key
	case 'x':
		return v.desc
	}
	return "?doc " + v.String()
}

func (ev *fmtEval) call(fr *fframe, st *fstate, x *ssa.Call, k func(*fstate, fval), done *bool) {
	*done = true
	cc := &x.Call
	var args []fval
	if cc.IsInvoke() {
		args = append(args, ev.val(fr, st, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, ev.val(fr, st, a))
	}
	n := calleeFull(cc)
	if ev.onCall != nil {
		if v, ok := ev.onCall(ev, fr, st, x, args); ok {
			k(st, v)
			return
		}
	}
	if ev.onCallK != nil && ev.onCallK(ev, fr, st, x, args, k) {
		return
	}
	noErr := func(v fval) fval { return fval{k: 'T', tup: []fval{v, {k: 'n'}}} }
	f := cc.StaticCallee()
	if f == nil && !cc.IsInvoke() {
		if v := ev.val(fr, st, cc.Value); v.fn != nil {
			f, args = v.fn, append(args, v.tup...)
		}
	}
	if ev.flat != nil {
		known := append([]fval{}, args...)
		for i, a := range known {
			if a.k == 's' && ev.flat.text != nil {
				if v, ok := ev.flat.text(a); ok {
					known[i] = v
				}
			}
		}
		if v, ok := textFuncs(n, known); ok {
			k(st, v)
			return
		}
	}
	switch {
	case n == "bytes.NewBuffer" || n == "bytes.NewBufferString":
		k(st, fval{k: 'p', key: fmt.Sprintf("buffer%d_%s", fr.id, x.Name())})
		return
	case n == "(*bytes.Buffer).Bytes":
		k(st, fval{k: 'b', toks: append([]*ftok{}, st.out...)})
		return
	case n == "(*bytes.Buffer).Write" || cc.IsInvoke() && cc.Method.Name() == "Write":
		ts := ev.bytesOf(st, args[1])
		ev.emit(st, ts)
		sz := fsum{}
		for _, t := range ts {
			sz = sz.add(t.size(), 1)
		}
		k(st, noErr(fi(sz)))
		return
	case n == "(*bytes.Buffer).WriteByte":
		ev.emit(st, []*ftok{{kind: "byte", src: args[1].String()}})
		k(st, fval{k: 'n'})
		return
	case n == "(*bytes.Buffer).WriteString":
		ev.emit(st, []*ftok{{kind: "str", src: ev.describe(args[1])}})
		k(st, noErr(fi(fterm("len("+ev.describe(args[1])+")"))))
		return
	case cc.IsInvoke() && cc.Method.Name() == "Serialize":
		d := ev.describe(args[0])
		st.ser[d] = true
		k(st, fval{k: 'b', toks: []*ftok{{kind: "dyn", src: d}}})
		return
	case n == "bytes.IndexByte":
		if z, ok := args[1].sum.konst(); ok && z == 0 && args[0].k == 's' {
			k(st, fi(fterm("index0:"+args[0].base+"@"+args[0].sum.String()+":")))
			return
		}
	case strings.HasPrefix(n, "(encoding/binary.") && strings.HasSuffix(n, "Uint32") && !strings.Contains(n, "Put") && len(args) == 2:
		k(st, ev.readWordAt(st, args[1], 4, strings.Contains(n, "big")))
		return
	case strings.HasPrefix(n, "(encoding/binary.") && strings.HasSuffix(n, "Uint64") && !strings.Contains(n, "Put") && len(args) == 2:
		k(st, ev.readWord(args[1], 8, strings.Contains(n, "big")))
		return
	case strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, "AppendUint") && len(args) == 3:
		w := map[byte]int{'6': 2, '2': 4, '4': 8}[n[len(n)-1]]
		bits := ev.bitsOf(args[2], w*8)
		if strings.Contains(n, "big") {
			var r []fbit
			for j := w - 1; j >= 0; j-- {
				r = append(r, bits[j*8:j*8+8]...)
			}
			bits = r
		}
		v := ev.fromBits(bits)
		k(st, fval{k: 'b', toks: append(append([]*ftok{}, ev.bytesOf(st, args[1])...), &ftok{kind: sortedTok(w), src: v.sum.String(), val: v.sum})})
		return
	case strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, "PutUint") && len(args) == 3:
		if args[1].k == 's' {
			w := 4
			if strings.HasSuffix(n, "64") {
				w = 8
			} else if strings.HasSuffix(n, "16") {
				w = 2
			}
			bits := ev.bitsOf(args[2], w*8)
			if o, ok := args[1].sum.konst(); ok {
				for i := 0; i < w; i++ {
					j := i
					if strings.Contains(n, "big") {
						j = w - 1 - i
					}
					st.mem[fmt.Sprintf("%s[%d]", args[1].base, o+int64(i))] = ev.word(bits[j*8 : j*8+8])
				}
			}
		}
		k(st, fx(""))
		return
	case n == "encoding/binary.PutUvarint" && ev.exact:
		if args[0].k == 's' && args[1].k == 'i' {
			st.mem["uv:"+args[0].base] = args[1]
			k(st, fi(fterm("uvlen:"+args[0].base)))
			return
		}
	case n == "encoding/binary.AppendUvarint" && ev.exact:
		if args[1].k == 'i' {
			k(st, fval{k: 'b', toks: append(append([]*ftok{}, ev.bytesOf(st, args[0])...), &ftok{kind: "uvar", src: args[1].sum.String(), val: args[1].sum})})
			return
		}
	case strings.HasPrefix(n, "errors.New") || strings.HasPrefix(n, "fmt.Errorf"):
		k(st, fx("error:"+fr.key(x)))
		return
	}
	if f != nil {
		name := fnName(f)
		if ev.flat != nil {
			name = ""
		}
		switch name {
		case "(*birch.Document).WriteTo":
			ev.emit(st, []*ftok{{kind: "doc", src: ev.docOf(st, args[0])}})
			k(st, noErr(fi(fterm("doclen("+ev.docOf(st, args[0])+")"))))
			return
		case "(*birch.Document).MarshalBSON":
			k(st, noErr(fval{k: 'b', toks: []*ftok{{kind: "doc", src: ev.docOf(st, args[0])}}}))
			return
		case "(*birch.Document).Validate":
			k(st, noErr(fi(fterm("doclen("+ev.docOf(st, args[0])+")"))))
			return
		case "(*birch.Document).Copy":
			k(st, args[0])
			return
		case "birch.ReadDocument":
			if args[0].k == 's' {
				bad := st.clone()
				d := fval{k: 't', tok: readTok("doc", args[0].base, args[0].sum)}
				k(st, fval{k: 'T', tup: []fval{d, {k: 'n'}}})
				k(bad, fval{k: 'T', tup: []fval{{k: 'n'}, fx("error:" + fr.key(x))}})
				return
			}
		}
		if ev.w.bodyOf(f) && ev.inline != nil && ev.inline(f) {
			rs := f.Signature.Results().Len()
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				for _, bd := range mc.Bindings {
					args = append(args, ev.val(fr, st, bd))
				}
			}
			ev.runAt(fr.depth+1, st, f, args, func(s2 *fstate, res []fval) {
				v := fval{k: 'T', tup: res}
				if rs == 1 {
					v = res[0]
				} else if rs == 0 {
					v = fx("")
				}
				k(s2, v)
			})
			return
		}
	}
	// something else: its results are unknown, and it may have changed what it was given
	d := "?" + calleeMethod(cc)
	if f != nil || cc.IsInvoke() {
		var ds []string
		for _, a := range args {
			ds = append(ds, ev.describe(a))
		}
		d = calleeMethod(cc) + "(" + strings.Join(ds, ",") + ")"
		if strings.Contains(d, "?") {
			d = "?" + d
		}
	}
	if tp, ok := x.Type().(*types.Tuple); ok {
		v := fval{k: 'T'}
		for i := 0; i < tp.Len(); i++ {
			if isInt(tp.At(i).Type()) {
				v.tup = append(v.tup, fi(fterm(fmt.Sprintf("?%s#%d", d, i))))
			} else {
				v.tup = append(v.tup, fx(fmt.Sprintf("%s#%d", d, i)))
			}
		}
		k(st, v)
		return
	}
	if isInt(x.Type()) {
		k(st, fi(fterm("?"+d)))
		return
	}
	k(st, fx(d))
}

func (ev *fmtEval) emit(st *fstate, ts []*ftok) {
	o := append([]*ftok{}, st.out...)
	for _, t := range ts {
		// text followed by a zero byte is a C string
		if t.kind == "byte" && t.src == "0" && len(o) > 0 && o[len(o)-1].kind == "str" {
			o[len(o)-1] = &ftok{kind: "cstr", src: o[len(o)-1].src}
			continue
		}
		o = append(o, t)
	}
	st.out = o
}

func sortedKeys[V any](m map[string]V) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func newFstate() *fstate {
	return &fstate{env: map[string]fval{}, mem: map[string]fval{}, cond: map[string]bool{}, types: map[string]types.Type{}, ser: map[string]bool{}, store: map[string]fval{}}
}

// joinText: one text after the other
func joinText(a, b string) string {
	pa, pb := strings.Split(a, "⊕"), strings.Split(b, "⊕")
	if l, r := pa[len(pa)-1], pb[0]; strings.HasPrefix(l, `"`) && strings.HasPrefix(r, `"`) {
		x, e1 := strconv.Unquote(l)
		y, e2 := strconv.Unquote(r)
		if e1 == nil && e2 == nil {
			pa[len(pa)-1] = strconv.Quote(x + y)
			pb = pb[1:]
		}
	}
	var out []string
	for _, p := range append(pa, pb...) {
		if p != `""` {
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return `""`
	}
	return strings.Join(out, "⊕")
}

// listVals: the elements of a list; a list that was there before counts as one element each(...)
func (ev *fmtEval) listVals(v fval) ([]fval, bool) {
	switch v.k {
	case 'n':
		return nil, true
	case 'v', 'A':
		return v.tup, true
	case 's':
		n, ok := ev.sized[v.base]
		return nil, ok && len(n) == 0 && len(v.sum) == 0 && v.end == nil
	case 'x':
		if strings.HasPrefix(v.desc, "?") {
			return nil, false
		}
		return []fval{fx("each(" + v.desc + ")")}, true
	}
	return nil, false
}

func hasEach(l []fval) bool {
	for _, v := range l {
		if strings.HasPrefix(v.desc, "each(") {
			return true
		}
	}
	return false
}

// appendVals: base "shared" means the result may lie in memory others hold
func (ev *fmtEval) appendVals(st *fstate, a, b fval) fval {
	bl, ok := ev.listVals(b)
	if !ok {
		return fx("?append")
	}
	o := fval{k: 'v', desc: "list", base: a.base}
	switch a.k {
	case 's':
		n, ok := ev.sized[a.base]
		c, isC := n.konst()
		if !ok || !isC || c > 4 || len(a.sum) != 0 || a.end != nil {
			return fx("?append")
		}
		o.base = ""
		for i := int64(0); i < c; i++ {
			v, has := st.mem[fmt.Sprintf("%s[%d]", a.base, i)]
			if !has {
				v = fi(fsum{})
			}
			o.tup = append(o.tup, v)
		}
		o.tup = append(o.tup, bl...)
		return o
	case 'x':
		if a.base != "clipped" {
			o.base = "shared"
		}
	}
	al, ok := ev.listVals(a)
	if !ok {
		return fx("?append")
	}
	if len(bl) == 0 {
		return a
	}
	o.tup = append(append([]fval{}, al...), bl...)
	return o
}

func (ev *fmtEval) listMode() bool { return ev.flat != nil && ev.flat.lists }

// listEnds: the window of its array a list is
func listEnds(v fval) (int64, int64, bool) {
	if v.k == 'n' {
		return 0, 0, true
	}
	a, ok1 := v.sum.konst()
	b, ok2 := v.end.konst()
	return a, b, v.k == 'l' && ok1 && ok2
}

func (ev *fmtEval) newList(n, c fval) fval {
	l, ok := n.sum.konst()
	if n.k != 'i' || !ok || l < 0 || l > 200 {
		return fx("?list")
	}
	ev.ntmp++
	k := fmt.Sprintf("newL%d", ev.ntmp)
	ev.flat.caps[k] = l
	if m, ok := c.sum.konst(); ok && c.k == 'i' && m >= l {
		ev.flat.caps[k] = m
	}
	return fval{k: 'l', key: k, sum: fsum{}, end: fconst(l)}
}

// listCap: up to where in its array a list may grow
func (ev *fmtEval) listCap(v fval) int64 {
	if n, err := strconv.ParseInt(v.base, 10, 64); err == nil {
		return n
	}
	return ev.flat.caps[v.key]
}

// textFuncs: of known texts
func textFuncs(n string, args []fval) (fval, bool) {
	if !strings.HasPrefix(n, "strings.") || len(args) == 0 {
		return fval{}, false
	}
	var s []string
	for _, a := range args {
		u, err := strconv.Unquote(a.desc)
		if a.k != 'x' || err != nil {
			return fval{}, false
		}
		s = append(s, u)
	}
	truth := func(t bool) (fval, bool) { return fval{k: 'c', desc: "true", truth: t}, true }
	text := func(t string) (fval, bool) { return fx(strconv.Quote(t)), true }
	switch n {
	case "strings.EqualFold":
		return truth(strings.EqualFold(s[0], s[1]))
	case "strings.HasPrefix":
		return truth(strings.HasPrefix(s[0], s[1]))
	case "strings.HasSuffix":
		return truth(strings.HasSuffix(s[0], s[1]))
	case "strings.Contains":
		return truth(strings.Contains(s[0], s[1]))
	case "strings.Compare":
		return fi(fconst(int64(strings.Compare(s[0], s[1])))), true
	case "strings.ToLower":
		return text(strings.ToLower(s[0]))
	case "strings.ToUpper":
		return text(strings.ToUpper(s[0]))
	case "strings.TrimSpace":
		return text(strings.TrimSpace(s[0]))
	case "strings.Clone":
		return text(s[0])
	}
	return fval{}, false
}

// listItems: what a list holds now
func (ev *fmtEval) listItems(st *fstate, v fval) ([]fval, bool) {
	a, b, ok := listEnds(v)
	if !ok {
		return nil, false
	}
	var out []fval
	for i := a; i < b; i++ {
		e, has := st.mem[fmt.Sprintf("%s[%d]", v.key, i)]
		if !has {
			e = fval{k: 'n'}
		}
		out = append(out, e)
	}
	return out, true
}

func (ev *fmtEval) putItems(st *fstate, key string, at int64, vs []fval) {
	for i, v := range vs {
		st.mem[fmt.Sprintf("%s[%d]", key, at+int64(i))] = v
	}
}

func (ev *fmtEval) listBuiltin(st *fstate, name string, a []fval) (fval, bool) {
	if a[0].k != 'l' && a[0].k != 'n' {
		return fval{}, false
	}
	lo, hi, ok := listEnds(a[0])
	if !ok {
		return fval{}, false
	}
	switch name {
	case "len":
		return fi(fconst(hi - lo)), true
	case "cap":
		if a[0].k == 'n' {
			return fi(fsum{}), true
		}
		return fi(fconst(ev.listCap(a[0]) - lo)), true
	case "clear":
		for i := lo; i < hi; i++ {
			st.mem[fmt.Sprintf("%s[%d]", a[0].key, i)] = fval{k: 'n'}
		}
		return fx(""), true
	case "copy", "append":
		src, ok := ev.listItems(st, a[1])
		if !ok {
			return fx("?" + name), true
		}
		if name == "copy" {
			if n := hi - lo; int64(len(src)) > n {
				src = src[:n]
			}
			ev.putItems(st, a[0].key, lo, src)
			return fi(fconst(int64(len(src)))), true
		}
		if len(src) == 0 {
			return a[0], true
		}
		n := hi - lo + int64(len(src))
		if a[0].k == 'l' && lo+n <= ev.listCap(a[0]) {
			ev.putItems(st, a[0].key, hi, src)
			return fval{k: 'l', key: a[0].key, base: a[0].base, sum: a[0].sum, end: fconst(lo + n)}, true
		}
		old, _ := ev.listItems(st, a[0])
		l := ev.newList(fi(fconst(n)), fi(fconst(2*n)))
		ev.putItems(st, l.key, 0, append(old, src...))
		return l, true
	}
	return fval{}, false
}

func (ev *fmtEval) panicked(st *fstate) {
	if ev.flat != nil && ev.flat.panicked != nil && condsOf(st) == "" {
		ev.flat.panicked(st)
	}
}
