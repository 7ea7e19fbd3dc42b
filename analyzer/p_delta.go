package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P21: the numbers of the samples of an FTDC chunk, after the first one.

type deltaEval struct {
	*ftdcEval
	fams   []map[*ssa.Function]bool
	reads  int
	undone []deltaUse
}

type deltaUse struct {
	fn   *ssa.Function
	args []fval
	st   *fstate
	pos  ssa.Instruction

	field string
}

func isI64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int64
}

func isI64s(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isI64(s.Elem())
}

func sigOf(f *ssa.Function, in []func(types.Type) bool, out ...func(types.Type) bool) bool {
	ps, rs := f.Signature.Params(), f.Signature.Results()
	if f.Signature.Recv() != nil || ps.Len() != len(in) || rs.Len() != len(out) {
		return false
	}
	for i, is := range in {
		if !is(ps.At(i).Type()) {
			return false
		}
	}
	for i, is := range out {
		if !is(rs.At(i).Type()) {
			return false
		}
	}
	return true
}

func isVal(t types.Type) bool { return isBirchPtr(t, "Value") }

func isDiff(f *ssa.Function) bool {
	two := []func(types.Type) bool{isVal, isVal}
	return sigOf(f, two, isI64, isErrT) || sigOf(f, two, isI64)
}

func isUndelta(f *ssa.Function) bool {
	return sigOf(f, []func(types.Type) bool{isI64, isI64s}, isI64s)
}

func newDeltaEval(w *World, r *Report) *deltaEval {
	x := &deltaEval{ftdcEval: newFtdcEval(w, r, nil), fams: ftdcFamilies(w)}
	old := x.ev.onCallK
	x.ev.onCallK = func(ev *fmtEval, fr *fframe, st *fstate, c *ssa.Call, args []fval, k func(*fstate, fval)) bool {
		if x.meet(ev, fr, st, c, args, k) {
			return true
		}
		return old(ev, fr, st, c, args, k)
	}
	return x
}

func (x *deltaEval) meet(ev *fmtEval, fr *fframe, st *fstate, c *ssa.Call, args []fval, k func(*fstate, fval)) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	give := func(name string) {
		rs := f.Signature.Results()
		var tup []fval
		for i := 0; i < rs.Len(); i++ {
			switch {
			case isErrT(rs.At(i).Type()):
				tup = append(tup, fval{k: 'n'})
			case isInt(rs.At(i).Type()):
				tup = append(tup, fi(fterm(name)))
			default:
				tup = append(tup, fx(name))
			}
		}
		if len(tup) == 1 {
			k(st, tup[0])
		} else {
			k(st, fval{k: 'T', tup: tup})
		}
	}
	switch calleeFull(&c.Call) {
	case "encoding/binary.ReadUvarint":
		st.mem["reads"] = fi(st.mem["reads"].sum.add(fconst(1), 1))
		give("uv#" + st.mem["reads"].sum.String())
		return true
	}
	if !inPkg(f, ftdcPath) {
		return false
	}
	if isDiff(f) {
		give("diff{" + ev.describe(args[0]) + ";" + ev.describe(args[1]) + "}")
		return true
	}
	if isUndelta(f) {
		x.undone = append(x.undone, deltaUse{fn: f, args: args, st: st.clone(), pos: c})
		give("undelta:" + f.Name() + "(" + ev.describe(args[0]) + ";" + ev.describe(args[1]) + ")")
		return true
	}
	if sigOf(f, []func(types.Type) bool{func(t types.Type) bool { return types.IsInterface(t) }}, func(t types.Type) bool { return isBirchPtr(t, "Document") }, isErrT) {
		give("DOC")
		return true
	}
	for _, fam := range x.fams {
		if fam[f] {
			switch ftdcRole(fam) {
			case "metrics":
				give("METRICS")
				return true
			case "extract":
				give("EX")
				return true
			}
		}
	}
	return false
}

// deltaLoop is one loop met while a function was interpreted
type deltaLoop struct {
	fn  *ssa.Function
	fr  *fframe
	a   *factive
	n0  int
	now map[string]fval // where each variable of the loop stands
}

func (l *deltaLoop) next(b *fstate, sym string) (fsum, bool) {
	for ph, s := range l.a.phiKey {
		if s == sym {
			v := b.env[l.fr.key(ph)]
			return v.sum, v.k == 'i'
		}
	}
	if i := strings.Index(sym, "."); i > 0 {
		v, ok := b.mem[sym[i+1:]]
		return v.sum, ok && v.k == 'i'
	}
	return nil, false
}

func (l *deltaLoop) syms() []string { return sortedKeys(l.a.lp.init) }

func (l *deltaLoop) exit(sym string) fsum {
	z := l.a.lp.init[sym]
	if s := l.a.lp.star[sym]; s != "" {
		z = z.add(fterm(s), 1)
	}
	return z
}

// index: the variable of the loop that goes up by one from zero, the way it is read, and what it stays below
func (l *deltaLoop) index(pre map[string]bool) (name, bound string, ok bool) {
	for _, sym := range l.syms() {
		for _, b := range l.a.back {
			n, is := l.next(b, sym)
			if !is || !n.eq(fterm(sym).add(fconst(1), 1)) {
				ok = false
				break
			}
			ok = true
		}
		if !ok {
			continue
		}
		c, isC := l.a.lp.init[sym].konst()
		if !isC || c > 0 {
			ok = false
			continue
		}
		name = fterm(sym).add(fconst(-c), 1).String()
		for _, b := range l.a.back {
			for k, t := range b.cond {
				if t && strings.HasPrefix(k, name+" < ") {
					return name, k[len(name)+3:], true
				}
			}
		}
		// the next round is decided on at the end of the one before
		next := fterm(sym).add(fconst(1), 1).String()
		for _, b := range l.a.back {
			for k, t := range b.cond {
				if c == 0 && t && strings.HasPrefix(k, next+" < ") && l.a.pre.cond["0 < "+k[len(next)+3:]] {
					return name, k[len(next)+3:], true
				}
			}
		}
		ok = false
	}
	return "", "", false
}

// a run of decoded numbers: some zeros, or one number
type deltaRun struct {
	zeros fsum
	val   string
}

// isZero: 1 zero, -1 not zero, 0 not known
func isZero(s fsum, cond map[string]bool) int {
	if c, ok := s.konst(); ok {
		if c == 0 {
			return 1
		}
		return -1
	}
	n := s.String()
	for _, k := range []string{"0 == " + n, n + " == 0"} {
		if t, ok := cond[k]; ok {
			if t {
				return 1
			}
			return -1
		}
	}
	if t, ok := cond["0 < "+n]; ok {
		if t {
			return -1
		}
		if strings.HasPrefix(n, "L") || strings.HasPrefix(n, "each{") || strings.HasPrefix(n, "all") {
			return 1 // a count
		}
	}
	if t, ok := cond[n+" < 1"]; ok {
		if t {
			return 1
		}
		return -1
	}
	return 0
}

// decode: what a list of numbers stands for, a zero being followed by how many more zeros there are
func decodeRuns(ts []fsum, cond map[string]bool, read bool) (out []deltaRun, problem string) {
	for i := 0; i < len(ts); i++ {
		switch isZero(ts[i], cond) {
		case -1:
			out = append(out, deltaRun{val: ts[i].String()})
			continue
		case 0:
			return nil, fmt.Sprintf("%s is taken for a number without asking whether it is zero", ts[i])
		}
		if i+1 == len(ts) {
			return nil, "a zero comes without the number of zeros that follow it"
		}
		i++
		n := ts[i].add(fconst(1), 1)
		if !read {
			if !positive(n, cond) {
				return nil, fmt.Sprintf("a run of %s zeros is written as %s more where there may be none", n, ts[i])
			}
		}
		out = append(out, deltaRun{zeros: n})
	}
	return out, ""
}

// positive: a constant and counts, of which one is not zero
func positive(n fsum, cond map[string]bool) bool {
	c := int64(0)
	for t, k := range n {
		switch {
		case t == "":
			c = k
		case k < 0:
			return false
		case isZero(fterm(t), cond) == -1:
			c += k
		case !strings.HasPrefix(t, "L") && !strings.HasPrefix(t, "all") && !strings.HasPrefix(t, "each{"):
			return false
		}
	}
	return c >= 1
}

func mergeRuns(l []deltaRun, cond map[string]bool) string {
	var out []string
	sum := fsum{}
	flush := func() {
		if isZero(sum, cond) != 1 {
			out = append(out, "zeros("+sum.String()+")")
		}
		sum = fsum{}
	}
	for _, r := range l {
		if r.val == "" {
			for t, n := range r.zeros {
				if t == "" || isZero(fterm(t), cond) != 1 {
					sum = sum.add(fsum{t: n}, 1)
				}
			}
			continue
		}
		flush()
		out = append(out, r.val)
	}
	flush()
	return strings.Join(out, " ")
}

func zeros(n fsum) deltaRun { return deltaRun{zeros: n} }

// number: one number met, zero or not
func number(v fsum, cond map[string]bool) (deltaRun, bool) {
	switch isZero(v, cond) {
	case 1:
		return zeros(fconst(1)), true
	case -1:
		return deltaRun{val: v.String()}, true
	}
	return deltaRun{val: v.String()}, false
}

func uvars(ts []*ftok) ([]fsum, bool) {
	var out []fsum
	for _, t := range ts {
		if t.kind != "uvar" {
			return nil, false
		}
		out = append(out, t.val)
	}
	return out, true
}

// keep: what is written keeps to the numbers met: so many zeros held back before, so many after
func keepRuns(ts []fsum, before, after fsum, in []deltaRun, cond map[string]bool) string {
	d, problem := decodeRuns(ts, cond, false)
	if problem != "" {
		return problem
	}
	have := mergeRuns(append(d, zeros(after)), cond)
	want := mergeRuns(append([]deltaRun{zeros(before)}, in...), cond)
	if have != want {
		return fmt.Sprintf("what is written or held back reads as [%s], the numbers met were [%s]", have, want)
	}
	return ""
}

type deltaSide struct {
	fn           *ssa.Function
	loops        []*deltaLoop
	ways         []ftdcWay
	inner, outer *deltaLoop
	innerBound   string
	outerBound   string
	header       []string
	uses         []deltaUse
	at           string // where the number is found: S the sample, M the metric
	ok           bool
}

func (w *World) reaching(is func(c *ssa.CallCommon) bool) []*ssa.Function {
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	hit := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !inPkg(f, ftdcPath) {
			continue
		}
		calls[f] = map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if is(c.Common()) {
					hit[f] = true
				}
				if g := c.Common().StaticCallee(); g != nil && g != f {
					calls[f][g] = true
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for f, gs := range calls {
			for g := range gs {
				if hit[g] && !hit[f] {
					hit[f], again = true, true
				}
			}
		}
	}
	var out []*ssa.Function
	for f := range hit {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// eval interprets a function and notes its loops
func (x *deltaEval) eval(f *ssa.Function) *deltaSide {
	s := &deltaSide{fn: f}
	x.undone = nil
	x.ev.nilDocs = true
	x.ev.strict = true
	x.ev.onLoop = func(fr *fframe, a *factive, n0 int) {
		s.loops = append(s.loops, &deltaLoop{fn: fr.fn, fr: fr, a: a, n0: n0})
	}
	s.ways, s.ok = x.ways(f, 18, ftdcParams(f), nil)
	s.uses = x.undone
	return s
}

func calls(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

// lowest: the functions for which it holds that call no other such function
func lowest(w *World, l []*deltaSide) []*deltaSide {
	var out []*deltaSide
	for _, s := range l {
		top := true
		for _, o := range l {
			if o != s && s.fn != o.fn && w.reaches(s.fn, o.fn, map[*ssa.Function]bool{}) {
				top = false
			}
		}
		if top {
			out = append(out, s)
		}
	}
	return out
}

func (w *World) reaches(f, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && inPkg(h, ftdcPath) && (h == g || w.reaches(h, g, seen)) {
					return true
				}
			}
		}
	}
	return false
}

func isCall(names ...string) func(c *ssa.CallCommon) bool {
	return func(c *ssa.CallCommon) bool {
		n := calleeFull(c)
		for _, x := range names {
			if n == x {
				return true
			}
		}
		return false
	}
}

func hasUvar(ts []*ftok) bool {
	for _, t := range ts {
		if t.kind == "uvar" {
			return true
		}
		for _, a := range t.alts {
			if hasUvar(a) {
				return true
			}
		}
	}
	return false
}

// newConds: what was asked inside the loop only
func (l *deltaLoop) newConds(b *fstate) map[string]bool {
	out := map[string]bool{}
	for k, v := range b.cond {
		if _, old := l.a.pre.cond[k]; !old {
			out[k] = v
		}
	}
	return out
}

func checkDelta(w *World, r *Report) {
	r.Rule = "abstract interpretation of the writing and the reading of FTDC chunks: one way round each loop over the numbers of a chunk, for any state of the run of zeros before it, decodes to the numbers met (a zero, then how many more zeros there are); the place where a number is kept is the place it is taken from; the difference of two samples, per type, is what the reader adds up; every sample is compared with the one before it"
	r.Assumptions = append(r.Assumptions, "encoding/binary's uvarint functions are each other's inverse; compress/zlib likewise; what is recorded of a value of each type is decided under P20")
	x := newDeltaEval(w, r)
	x.name = "deltas"
	writer := deltaWriter(w, r, x)
	reader := deltaReader(w, r, x)
	adder := deltaAdder(w, r, x)
	if writer != nil && reader != nil {
		p := -1
		for i, h := range writer.header {
			if h == writer.innerBound {
				p = i
			}
		}
		_, off, ok := strings.Cut(reader.innerBound, "@")
		switch {
		case p < 0 || !ok:
			x.undecided("header: %v, %s, %s", writer.header, writer.innerBound, reader.innerBound)
		default:
			r.check(off == fmt.Sprint(4*p), "header|samples", w.pos(reader.fn.Pos()), fmt.Sprintf("%s takes the number of samples from byte %s of the header, %s writes it at byte %d", reader.fn.Name(), off, writer.fn.Name(), 4*p))
		}
	}
	if writer != nil && adder != nil {
		r.check(writer.at == adder.at, "place|"+writer.at, w.pos(writer.fn.Pos()), fmt.Sprintf("%s takes the number of sample S of metric M from %s, %s puts it at %s", writer.fn.Name(), writer.at, adder.fn.Name(), adder.at))
	}
	if reader != nil {
		deltaKinds(w, r, x, reader)
	}
	for _, n := range []string{"writers", "readers", "collectors", "differences"} {
		if r.Counts[n] > 0 {
			r.Counts["sides"]++
		}
	}
	if len(r.Findings) == 0 {
		r.min("sides", 1)
	}
}

// better: fewer things wrong, and none that are only not understood
func better(a, b []string) bool {
	if len(a) == 0 || len(b) == 0 {
		return len(a) < len(b)
	}
	if unsure(a) != unsure(b) {
		return unsure(b)
	}
	return len(a) < len(b)
}

func unsure(l []string) bool {
	for _, p := range l {
		if strings.Contains(p, "?") {
			return true
		}
	}
	return false
}

func deltaWriter(w *World, r *Report, x *deltaEval) *deltaSide {
	var found []*deltaSide
	for _, f := range w.reaching(isCall("encoding/binary.PutUvarint", "encoding/binary.AppendUvarint")) {
		x.name = f.Name()
		s := x.eval(f)
		if !s.ok {
			continue
		}
		for _, wy := range s.ways {
			if len(wy.st.out) > 0 && wy.st.out[0].kind == "doc" && hasUvar(wy.st.out) {
				found = append(found, s)
				break
			}
		}
	}
	found = lowest(w, found)
	if len(found) != 1 {
		x.undecided("%d functions write chunks", len(found))
		return nil
	}
	s := found[0]
	x.name = s.fn.Name()
	for _, l := range s.loops {
		any, nested := false, false
		for _, b := range l.a.back {
			for _, t := range b.out[l.n0:] {
				any = any || t.kind == "uvar"
				nested = nested || t.kind == "star" && hasUvar([]*ftok{t})
			}
		}
		switch {
		case nested:
			if s.outer != nil && s.outer.a.h != l.a.h {
				x.undecided("more than two loops")
				return nil
			}
			s.outer = l
		case any:
			if s.inner != nil && s.inner.a.h != l.a.h {
				x.undecided("more than two loops")
				return nil
			}
			s.inner = l
		}
	}
	if s.inner == nil || s.outer == nil {
		x.undecided("no two loops")
		return nil
	}
	pos := w.pos(s.fn.Pos())
	in := s.inner
	j, jb, ok1 := in.index(nil)
	i, ib, ok2 := s.outer.index(nil)
	if !ok1 || !ok2 {
		x.undecided("loops over the numbers: %v %v", in.a.lp.init, s.outer.a.lp.init)
		return nil
	}
	s.innerBound, s.outerBound = jb, ib
	// the number met
	from := map[string]bool{}
	for _, b := range in.a.back {
		for k := range in.newConds(b) {
			if l, rr, ok := strings.Cut(k, " == "); ok && (l == "0" || rr == "0") {
				if l == "0" {
					l = rr
				}
				if _, mine := in.a.lp.init[l]; !mine && strings.Contains(l, "[") {
					from[l] = true
				}
			}
		}
	}
	if len(from) != 1 {
		x.undecided("numbers met: %v", from)
		return nil
	}
	num := sortedKeys(from)[0]
	s.at = num
	if k := strings.Index(num, "["); k > 0 {
		s.at = strings.ReplaceAll(strings.ReplaceAll(num[k:], j, "S"), i, "M")
	}
	for _, b := range in.a.back {
		if _, ok := uvars(b.out[in.n0:]); !ok {
			x.undecided("written: %v", b.out[in.n0:])
			return nil
		}
	}
	// some variable counts the zeros held back
	best, bestZ, none := []string(nil), "", true
	for _, z := range append(in.syms(), "") {
		if z != "" && fterm(z).add(fconst(0), 1).String() == j {
			continue
		}
		var bad []string
		for _, b := range in.a.back {
			ts, _ := uvars(b.out[in.n0:])
			before, after := fsum{}, fsum{}
			if z != "" {
				var ok bool
				before = fterm(z)
				if after, ok = in.next(b, z); !ok {
					bad = append(bad, "?")
					continue
				}
			}
			n, known := number(fterm(num), b.cond)
			if !known {
				if len(ts) > 0 {
					bad = append(bad, "a number is written without asking whether it is zero")
				} else {
					bad = append(bad, "?")
				}
				continue
			}
			if p := keepRuns(ts, before, after, []deltaRun{n}, b.cond); p != "" {
				bad = append(bad, p)
			}
		}
		if none || better(bad, best) {
			none, best, bestZ = false, bad, z
		}
	}
	if len(best) > 0 {
		if unsure(best) {
			x.undecided("%s", strings.Join(best, "; "))
			return nil
		}
		r.fail("writer|run|"+fmt.Sprint(len(best)), pos, fmt.Sprintf("%s: %s", s.fn.Name(), best[0]))
		return s
	}
	r.ok("every way round the loop over one metric's numbers keeps them")
	zin, zout := fsum{}, fsum{}
	if bestZ != "" {
		zin, zout = in.a.lp.init[bestZ], in.exit(bestZ)
	}
	// the loop around it, and what comes after
	split := func(ts []*ftok, lp *floop) (a, b []fsum, ok bool) {
		for k, t := range ts {
			if t.kind != "star" || t.lp != lp {
				continue
			}
			lo, hi := k, k+1
			for lo > 0 && ts[lo-1].kind == "uvar" {
				lo--
			}
			for hi < len(ts) && ts[hi].kind == "uvar" {
				hi++
			}
			a, _ = uvars(ts[lo:k])
			b, _ = uvars(ts[k+1 : hi])
			return a, b, true
		}
		return nil, nil, false
	}
	o := s.outer
	bestO, best := "", nil
	first := true
	for _, z := range append(o.syms(), "") {
		if z == strings.TrimSpace(i) {
			continue
		}
		var bad []string
		for _, b := range o.a.back {
			pre, post, ok := split(b.out[o.n0:], in.a.lp)
			before, after := fsum{}, fsum{}
			if z != "" {
				var is bool
				before = fterm(z)
				if after, is = o.next(b, z); !is {
					bad = append(bad, "?")
					continue
				}
			}
			if !ok {
				if ts, all := uvars(b.out[o.n0:]); !all {
					bad = append(bad, "?")
				} else if p := keepRuns(ts, before, after, nil, b.cond); p != "" {
					bad = append(bad, "around no numbers of a metric: "+p)
				}
				continue
			}
			if p := keepRuns(pre, before, zin, nil, b.cond); p != "" {
				bad = append(bad, "before the numbers of a metric: "+p)
			}
			if p := keepRuns(post, zout, after, nil, b.cond); p != "" {
				bad = append(bad, "after the numbers of a metric: "+p)
			}
		}
		if first || better(bad, best) {
			first = false
			best, bestO = bad, z
		}
	}
	if len(best) == 0 {
		zi, ze := fsum{}, fsum{}
		if bestO != "" {
			zi, ze = o.a.lp.init[bestO], o.exit(bestO)
		}
		for _, wy := range s.ways {
			pre, post, ok := split(wy.st.out, o.a.lp)
			if !ok {
				continue
			}
			if p := keepRuns(pre, fsum{}, zi, nil, wy.st.cond); p != "" {
				best = append(best, "before the first metric: "+p)
			}
			if p := keepRuns(post, ze, fsum{}, nil, wy.st.cond); p != "" {
				best = append(best, "after the last metric: "+p)
			}
		}
	}
	if unsure(best) {
		x.undecided("%s", strings.Join(best, "; "))
		return nil
	}
	if len(best) > 0 {
		r.fail("writer|around|"+bestO, pos, fmt.Sprintf("%s: %s", s.fn.Name(), best[0]))
	} else {
		r.ok("zeros held back are written in the end")
	}
	for _, wy := range s.ways {
		for _, t := range wy.st.out {
			if t.kind == "i32" && len(s.header) < 2 {
				h := strings.TrimSuffix(strings.TrimPrefix(t.String(), "i32("), ")")
				if strings.HasPrefix(h, "low32(") {
					h = h[6 : len(h)-1]
				}
				s.header = append(s.header, h)
			}
			if t.kind == "star" {
				break
			}
		}
		if len(s.header) == 2 {
			break
		}
	}
	if len(s.header) == 2 {
		has := func(b string) bool { return s.header[0] == b || s.header[1] == b }
		r.check(has(jb), "writer|samples|"+jb, pos, fmt.Sprintf("%s writes %s numbers of each metric, the header tells %v", s.fn.Name(), jb, s.header))
		r.check(has(ib), "writer|metrics|"+ib, pos, fmt.Sprintf("%s writes %s metrics, the header tells %v", s.fn.Name(), ib, s.header))
	}
	r.Counts["writers"]++
	return s
}

func deltaReader(w *World, r *Report, x *deltaEval) *deltaSide {
	var found []*deltaSide
	for _, f := range w.reaching(isCall("encoding/binary.ReadUvarint")) {
		x.name = f.Name()
		s := x.eval(f)
		if !s.ok || len(s.uses) == 0 {
			continue
		}
		found = append(found, s)
	}
	found = lowest(w, found)
	if len(found) != 1 {
		x.undecided("%d functions read chunks", len(found))
		return nil
	}
	s := found[0]
	x.name = s.fn.Name()
	pos := w.pos(s.fn.Pos())
	for _, l := range s.loops {
		for _, b := range l.a.back {
			if b.mem["reads"].String() == l.a.pre.mem["reads"].String() || b.mem["reads"].k != 'i' {
				continue
			}
			if s.inner != nil && s.inner.a.h != l.a.h {
				x.undecided("more than one loop reads numbers")
				return nil
			}
			if s.inner == nil {
				s.inner = l
			}
		}
	}
	if s.inner == nil {
		x.undecided("no loop reads numbers")
		return nil
	}
	in := s.inner
	j, jb, ok := in.index(nil)
	if !ok {
		x.undecided("loop over the numbers: %v", in.a.lp.init)
		return nil
	}
	s.innerBound = jb
	for _, l := range s.loops {
		if l == in || l.a.lp.id > in.a.lp.id {
			continue
		}
		for _, b := range l.a.back {
			for _, v := range b.mem {
				if strings.HasPrefix(v.desc, "undelta:") {
					s.outer = l
				}
			}
		}
	}
	best, first, bestN := []string(nil), true, ""
	stored := ""
	for _, b := range in.a.back {
		for k, v := range b.mem {
			if o, had := in.a.pre.mem[k]; k == "reads" || had && o.String() == v.String() {
				continue
			}
			if i := strings.LastIndex(k, "["); i > 0 && k[i:] == "["+j+"]" {
				if stored != "" && stored != k[:i] {
					x.undecided("numbers go to %s and %s", stored, k[:i])
					return nil
				}
				stored = k[:i]
			}
		}
	}
	if stored == "" {
		x.undecided("numbers are not kept")
		return nil
	}
	for _, n := range in.syms() {
		if n == j {
			continue
		}
		var bad []string
		for _, b := range in.a.back {
			after, ok := in.next(b, n)
			if !ok {
				bad = append(bad, "?")
				continue
			}
			base, _ := in.a.pre.mem["reads"].sum.konst()
			cnt, _ := b.mem["reads"].sum.konst()
			var reads []fsum
			for k := base + 1; k <= cnt; k++ {
				reads = append(reads, fterm(fmt.Sprintf("uv#%d", k)))
			}
			got, has := b.mem[stored+"["+j+"]"]
			if _, had := in.a.pre.mem[stored+"["+j+"]"]; !has && !had && strings.HasPrefix(stored, "mk") {
				got, has = fi(fsum{}), true // as it was made
			}
			if !has || got.k != 'i' {
				bad = append(bad, fmt.Sprintf("? stored %v", got))
				continue
			}
			d, p := decodeRuns(reads, b.cond, true)
			if p != "" {
				bad = append(bad, p)
				continue
			}
			num, known := number(got.sum, b.cond)
			if !known {
				bad = append(bad, fmt.Sprintf("%s is stored, zero or not", got.sum))
				continue
			}
			have := mergeRuns([]deltaRun{num, zeros(after)}, b.cond)
			want := mergeRuns(append([]deltaRun{zeros(fterm(n))}, d...), b.cond)
			if have != want {
				bad = append(bad, fmt.Sprintf("the chunk goes on with [%s], it is read as [%s]", want, have))
			}
		}
		if first || better(bad, best) {
			first, best, bestN = false, bad, n
		}
	}
	if first {
		x.undecided("nothing counts zeros")
		return nil
	}
	if unsure(best) {
		x.undecided("%s", strings.Join(best, "; "))
		return nil
	}
	if len(best) > 0 {
		r.fail("reader|run|"+fmt.Sprint(len(best)), pos, fmt.Sprintf("%s: %s", s.fn.Name(), best[0]))
	} else {
		r.ok("every way round the loop over one metric's numbers reads what was written")
	}
	// zeros left over belong to the next metric
	if o := s.outer; o != nil {
		init := in.a.lp.init[bestN]
		sym, single := init.single()
		_, carried := o.a.lp.init[sym]
		switch {
		case single && carried:
			for _, b := range o.a.back {
				after, ok := o.next(b, sym)
				if !ok {
					x.undecided("zeros after a metric")
					continue
				}
				r.check(after.eq(in.exit(bestN)), "reader|carried", pos, fmt.Sprintf("%s: %s zeros of a run are left after a metric, the next one begins with %s", s.fn.Name(), in.exit(bestN), after))
			}
			z, _ := o.a.lp.init[sym].konst()
			r.check(z == 0 && len(o.a.lp.init[sym]) == 0, "reader|start", pos, fmt.Sprintf("%s begins in a run of zeros", s.fn.Name()))
		case len(init) == 0:
			r.fail("reader|reset", pos, fmt.Sprintf("%s forgets the zeros left over when it goes on to the next metric", s.fn.Name()))
		default:
			x.undecided("zeros before a metric: %s", init)
		}
	}
	if o := s.outer; o != nil {
		for _, b := range o.a.back {
			for k, v := range b.mem {
				if !strings.HasPrefix(v.desc, "undelta:") || !strings.HasPrefix(k, "METRICS[") {
					continue
				}
				from := v.desc[strings.Index(v.desc, "(")+1:]
				from = from[:max(strings.Index(from, ";"), 0)]
				a, b := k[:max(strings.LastIndex(k, "."), 0)], from[:max(strings.LastIndex(from, "."), 0)]
				if strings.HasPrefix(from, "METRICS[") {
					r.check(a == b, "reader|start of sums", pos, fmt.Sprintf("%s: %s begins with %s", s.fn.Name(), k, from))
				}
			}
		}
	}
	// what goes into the sums
	for _, u := range s.uses {
		a0, a1 := x.ev.describe(u.args[0]), x.ev.describe(u.args[1])
		if u.args[1].k == 's' {
			a1 = u.args[1].base
		}
		if !strings.Contains(a0, "[") || stored == "" {
			x.undecided("%s(%s, %s)", u.fn.Name(), a0, a1)
			continue
		}
		r.check(a1 == stored, "reader|sums|"+u.fn.Name(), w.pos(u.pos.Pos()), fmt.Sprintf("%s is given %s, the numbers read went to %s", u.fn.Name(), a1, stored))
	}
	r.Counts["readers"]++
	return s
}

// deltaAdder: the collector's side: what is kept of a sample
func deltaAdder(w *World, r *Report, x *deltaEval) *deltaSide {
	var found []*deltaSide
	store := map[*deltaSide][3]string{}
	for _, f := range w.reaching(func(c *ssa.CallCommon) bool {
		return c.StaticCallee() != nil && inPkg(c.StaticCallee(), ftdcPath) && isDiff(c.StaticCallee())
	}) {
		x.name = f.Name()
		s := x.eval(f)
		if !s.ok {
			continue
		}
		for _, l := range s.loops {
			for _, b := range l.a.back {
				for k, v := range b.mem {
					if !strings.HasPrefix(v.String(), "diff{") || !strings.HasPrefix(k, "P.") {
						continue
					}
					i, ib, ok := l.index(nil)
					if !ok {
						continue
					}
					s.inner, s.innerBound = l, ib
					store[s] = [3]string{k, v.String(), i}
				}
			}
		}
		if _, ok := store[s]; ok {
			found = append(found, s)
		}
	}
	found = lowest(w, found)
	if len(found) != 1 {
		x.undecided("%d functions keep differences", len(found))
		return nil
	}
	s := found[0]
	x.name = s.fn.Name()
	pos := w.pos(s.fn.Pos())
	k, v, i := store[s][0], store[s][1], store[s][2]
	at := k[strings.Index(k, "["):]
	l, rr, ok := strings.Cut(strings.TrimSuffix(strings.TrimPrefix(v, "diff{"), "}"), ";")
	old := strings.LastIndex(rr[:max(strings.Index(rr, "["), 0)], ".")
	cut := strings.LastIndex(l[:max(strings.Index(l, "["), 0)], ".")
	if !ok || cut < 0 || old < 0 {
		x.undecided("difference of %s and %s", l, rr)
		return nil
	}
	sample := l[:cut]
	r.check(l[cut:] == rr[old:] && strings.HasSuffix(l, "["+i+"]"), "collector|difference", pos, fmt.Sprintf("%s subtracts %s from %s", s.fn.Name(), rr, l))
	prev := rr[:old] // the sample before
	// the count of samples
	count := ""
	for _, wy := range s.ways {
		for m, c := range wy.st.mem {
			if strings.HasPrefix(m, "P.") && c.k == 'i' && c.sum.eq(fterm(m).add(fconst(1), 1)) {
				count = m
			}
		}
	}
	if count == "" {
		x.undecided("no count of samples")
		return nil
	}
	s.at = strings.ReplaceAll(strings.ReplaceAll(at, count, "S"), i, "M")
	for _, wy := range s.ways {
		n := len(wy.res)
		if n == 0 {
			continue
		}
		good := wy.res[n-1].k == 'n'
		is, has := wy.st.mem[prev]
		cur := ""
		if has {
			cur = x.ev.describe(is)
			if is.k == 'p' {
				cur = x.ev.describe(x.ev.load(wy.st, is.key, s.fn.Params[0].Type()))
			}
		}
		c, counted := wy.st.mem[count]
		up := counted && c.k == 'i' && !c.sum.eq(fterm(count))
		if good {
			r.check(cur == sample, "collector|previous|"+fmt.Sprint(up), pos, fmt.Sprintf("%s leaves %s as it was after it has taken a sample: the next one is compared with an older sample than the reader adds it to", s.fn.Name(), strings.TrimPrefix(prev, "P.")))
		} else {
			r.check(!has && !up, "collector|failed", pos, fmt.Sprintf("%s refuses a sample and still makes it the one the next is compared with", s.fn.Name()))
		}
		looped := false
		for kk := range wy.st.cond {
			if strings.HasPrefix(kk, i+" < ") {
				looped = true
			}
		}
		if good {
			r.check(looped == up, "collector|count", pos, fmt.Sprintf("%s keeps the differences of a sample and does not count it, or counts one it has kept none of", s.fn.Name()))
		}
	}
	r.Counts["collectors"]++
	return s
}

// deltaKinds: per type, what is recorded of a sample and what the reader makes of it
func deltaKinds(w *World, r *Report, x *deltaEval, reader *deltaSide) {
	tags := bsonTags(w)
	var diffs []*ssa.Function
	for _, f := range w.Funcs {
		if inPkg(f, ftdcPath) && isDiff(f) {
			diffs = append(diffs, f)
		}
	}
	un := map[*ssa.Function]string{}
	for _, u := range reader.uses {
		if _, done := un[u.fn]; !done {
			un[u.fn] = deltaSum(w, x, u.fn)
		}
	}
	field := ""
	if t, ok := w.Pkgs[ftdcPath].Types.Scope().Lookup("Metric").(*types.TypeName); ok {
		if _, st := derefStruct(t.Type()); st != nil {
			field = fieldOfType(st, isBsonType)
		}
	}
	asked := len(un) < 2
	for _, u := range reader.uses {
		for k := range u.st.cond {
			asked = asked || strings.HasSuffix(k, "]."+field)
		}
	}
	if !asked || field == "" {
		x.undecided("how %s tells types apart", reader.fn.Name())
		return
	}
	for _, f := range diffs {
		for _, tn := range []string{"Double", "Int64"} {
			fe := newFtdcEval(w, r, nil)
			fe.ev.strict = true
			ways, ok := fe.ways(f, tags[tn], []fval{fx("V"), fx("V2")}, nil)
			if !ok {
				continue
			}
			for _, wy := range ways {
				if len(wy.res) == 2 && wy.res[1].k != 'n' {
					r.fail("difference|refused|"+tn, w.pos(f.Pos()), fmt.Sprintf("%s refuses values of type %s", f.Name(), tn))
					continue
				}
				num := func(v string) fsum {
					if tn == "Double" {
						return fterm("f64bits{acc:Double:" + v + "}")
					}
					return fterm("acc:Int64:" + v)
				}
				kind := ""
				if got := wy.res[0]; got.k == 'i' {
					switch {
					case got.sum.eq(num("V")):
						kind = "absolute"
					case got.sum.eq(num("V").add(num("V2"), -1)):
						kind = "cumulative"
					case strings.Contains(got.sum.String(), "?"):
					default:
						kind = "other " + strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(got.sum.String(), "acc:", ""), ":V2", " of the sample before"), ":V", " of the sample")
					}
				}
				if kind == "" {
					x.undecided("%s of %s: %v", f.Name(), tn, wy.res)
					continue
				}
				r.Counts["differences"]++
				for _, u := range reader.uses {
					u.field = field
					if !u.fits(tags, tn) {
						continue
					}
					k := un[u.fn]
					if k == "" {
						x.undecided("%s", u.fn.Name())
						continue
					}
					r.check(k == kind, "kind|"+tn+"|"+kind+"|"+k, w.pos(u.pos.Pos()), fmt.Sprintf("for values of type %s %s gives %s, %s puts samples together from %s", tn, f.Name(), kindName(kind), u.fn.Name(), kindName(k)))
				}
			}
		}
	}
}

func kindName(k string) string {
	switch k {
	case "absolute":
		return "the number itself"
	case "cumulative":
		return "differences with the sample before"
	}
	return strings.TrimPrefix(k, "other ")
}

// fits: can this be the place for metrics recorded as this type
func (u deltaUse) fits(tags map[string]int64, tn string) bool {
	// integers go under five names
	names := []string{tn}
	field := u.field
	if tn == "Int64" {
		names = []string{"Int64", "Int32", "Boolean", "DateTime", "Timestamp"}
	}
	for _, n := range names {
		ok := true
		for k, t := range u.st.cond {
			l, rr, eq := strings.Cut(k, " == ")
			if !eq || !strings.HasSuffix(rr, "]."+field) {
				continue
			}
			var c int64
			if _, err := fmt.Sscanf(l, "%d", &c); err == nil && (c == tags[n]) != t {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// deltaSum: how a list of numbers becomes the values of the samples
func deltaSum(w *World, x *deltaEval, f *ssa.Function) string {
	d := newFtdcEval(w, x.r, nil)
	d.name = f.Name()
	d.ev.strict = true
	var loops []*deltaLoop
	d.ev.onLoop = func(fr *fframe, a *factive, n0 int) {
		loops = append(loops, &deltaLoop{fn: fr.fn, fr: fr, a: a, n0: n0})
	}
	ways, ok := d.ways(f, 18, []fval{fi(fterm("START")), fx("DELTAS")}, nil)
	if !ok || len(ways) == 0 {
		return ""
	}
	kind := ""
	for _, wy := range ways {
		k := ""
		v := wy.res[0]
		if l, ok := d.ev.listVals(v); ok && len(l) == 2 && len(loops) == 0 && v.k == 'v' {
			if a, b := d.ev.describe(l[0]), d.ev.describe(l[1]); a == "START" && b == "each(DELTAS)" {
				k = "absolute"
			}
		}
		if v.k == 's' && len(v.sum) == 0 && len(loops) == 1 {
			l := loops[0]
			i, bound, ok := l.index(nil)
			if ok && bound == "len(DELTAS)" && len(l.a.back) == 1 {
				b := l.a.back[0]
				first, has := l.a.pre.mem[v.base+"[0]"]
				for m, c := range b.mem {
					if o, had := l.a.pre.mem[m]; had && o.String() == c.String() || !strings.HasPrefix(m, v.base+"[") || c.k != 'i' {
						continue
					}
					ix := strings.TrimSuffix(m[len(v.base)+1:], "]")
					cur := fterm("DELTAS[" + i + "]")
					next := ""
					for _, sym := range l.syms() {
						for c := int64(-1); c < 2; c++ {
							if fterm(sym).add(fconst(c), 1).String() == i {
								next = fterm(sym).add(fconst(c+1), 1).String()
							}
						}
					}
					if !has || first.String() != "START" || ix != next {
						continue
					}
					rest := c.sum.add(cur, -1)
					t, single := rest.single()
					switch {
					case len(rest) == 0:
						k = "absolute"
					case single && t == v.base+"["+i+"]":
						k = "cumulative"
					case single && l.a.lp.init[t].String() == "START":
						if n, ok := l.next(b, t); ok && n.eq(c.sum) {
							k = "cumulative"
						}
					case !strings.Contains(c.sum.String(), "?"):
						k = "other " + c.sum.String()
					}
				}
			}
		}
		if k == "" || kind != "" && k != kind {
			return ""
		}
		kind = k
	}
	return kind
}
