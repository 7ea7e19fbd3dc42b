package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errType = types.Universe.Lookup("error").Type()

func isErrT(t types.Type) bool { return types.Identical(t, errType) }

// errResult: the position of the error in a result list, -1 if there is none
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrT(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// infallible: the documented behaviour of the callee is to never fail
func infallible(c *ssa.CallCommon) bool {
	n := calleeFull(c)
	if c.IsInvoke() {
		// hash.Hash embeds io.Writer and never returns an error
		t := typeKey(c.Value.Type())
		return strings.HasPrefix(t, "hash.") || t == "context.Context" && c.Method.Name() == "Err"
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		switch typeKey(derefT(r.Type())) {
		case "bytes.Buffer", "strings.Builder":
			return strings.HasPrefix(f.Name(), "Write")
		case "math/rand.Rand":
			return true
		}
	}
	if strings.HasPrefix(n, "fmt.Fprint") && len(c.Args) > 0 {
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			switch typeKey(derefT(mi.X.Type())) {
			case "bytes.Buffer", "strings.Builder":
				return true
			}
		}
		if ci, ok := c.Args[0].(*ssa.ChangeInterface); ok && strings.HasPrefix(typeKey(ci.X.Type()), "hash.") {
			return true
		}
	}
	// asking a context for its state is not a step that can fail
	return strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "context.") && c.Signature().Results().Len() == 1 && f.Signature.Params().Len() <= 1
}

// alwaysNil: repository functions whose error is the constant nil on every return
func (ea *errAn) alwaysNil(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || !ea.w.bodyOf(f) || errResult(f.Signature) < 0 {
		return false
	}
	rets := returnsOf(f)
	for _, r := range rets {
		if !isNilConst(r.Results[len(r.Results)-1]) {
			return false
		}
	}
	return len(rets) > 0
}

// errPath is one symbolic path from the failing call to an exit of its function.
type errPath struct {
	bind    map[ssa.Value]ssa.Value // phis, loads and cells on this path
	derived map[ssa.Value]bool      // values that are non-nil because the call failed
	truth   map[ssa.Value]bool
}

func (p *errPath) clone() *errPath {
	q := &errPath{bind: map[ssa.Value]ssa.Value{}, derived: map[ssa.Value]bool{}, truth: map[ssa.Value]bool{}}
	for k, v := range p.bind {
		q.bind[k] = v
	}
	for k, v := range p.derived {
		q.derived[k] = v
	}
	for k, v := range p.truth {
		q.truth[k] = v
	}
	return q
}

func (p *errPath) key() string {
	var s []string
	for k, v := range p.bind {
		s = append(s, k.Name()+"="+v.Name())
	}
	for k := range p.derived {
		s = append(s, k.Name()+"!")
	}
	for k, v := range p.truth {
		s = append(s, fmt.Sprint(k.Name(), v))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (p *errPath) val(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		if w, ok := p.bind[v]; ok && w != v {
			v = w
			continue
		}
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return v
	}
	return v
}

// nilness: 1 non-nil, -1 nil, 0 unknown
func (ea *errAn) nilness(p *errPath, v ssa.Value) int {
	v = p.val(v)
	if p.derived[v] {
		return 1
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return -1
		}
	case *ssa.MakeInterface:
		return 1
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && isErrT(x.Type()) && g.Pkg != nil {
			return 1
		}
	case *ssa.Call:
		if ea.neverNil(&x.Call) {
			return 1
		}
		for _, a := range x.Call.Args {
			if ea.passesOn(p, a) {
				return 1
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			for _, a := range c.Call.Args {
				if ea.passesOn(p, a) {
					return 1
				}
			}
		}
	}
	return 0
}

// neverNil: constructors of errors, and repository functions all of whose returns construct one
func (ea *errAn) neverNil(c *ssa.CallCommon) bool {
	n := calleeFull(c)
	switch n {
	case "errors.New", "fmt.Errorf":
		return true
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if strings.Contains(f.String(), "tychoish/fun/ers.New") || strings.Contains(f.String(), "/ers.Error") {
		return true
	}
	if !ea.w.bodyOf(f) || f.Signature.Results().Len() == 0 {
		return false
	}
	if v, ok := ea.nn[f]; ok {
		return v
	}
	ea.nn[f] = false
	ix := f.Signature.Results().Len() - 1
	ok := true
	for _, r := range returnsOf(f) {
		if ea.nilness(&errPath{}, r.Results[ix]) != 1 {
			ok = false
		}
	}
	ea.nn[f] = ok && len(returnsOf(f)) > 0
	return ea.nn[f]
}

// passesOn: the argument is, or contains, the failing error
func (ea *errAn) passesOn(p *errPath, a ssa.Value) bool {
	a = p.val(a)
	if p.derived[a] {
		return true
	}
	switch x := a.(type) {
	case *ssa.MakeInterface:
		return ea.passesOn(p, x.X)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ia && ea.passesOn(p, st.Val) {
							return true
						}
					}
				}
			}
		}
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			if c, ok := p.bind[b]; ok && ea.passesOn(p, c) {
				return true
			}
			if p.derived[b] {
				return true
			}
		}
	}
	return false
}

type errAn struct {
	w     *World
	nn    map[*ssa.Function]bool
	bad   string
	badAt ssa.Instruction
	seen  map[string]bool
	n     int
	orig  ssa.Instruction
	lost  bool
}

// follow explores every path from instruction index i of block b; false once a path swallows the error.
func (ea *errAn) follow(b, pred *ssa.BasicBlock, i int, p *errPath) bool {
	if i == 0 {
		k := fmt.Sprint(b.Index, ",", -1, ";")
		if pred != nil {
			k = fmt.Sprint(b.Index, ",", pred.Index, ";")
		}
		nb := map[ssa.Value]ssa.Value{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for j, q := range b.Preds {
				if q == pred {
					nb[ph] = p.val(ph.Edges[j])
				}
			}
		}
		for ph, v := range nb {
			if v == ph {
				delete(p.bind, ph)
				continue
			}
			// only what matters to the error is worth keeping apart
			if isErrT(ph.Type()) || isBool(ph.Type()) || p.derived[v] {
				p.bind[ph] = v
			} else {
				delete(p.bind, ph)
			}
		}
		k += p.key()
		if ea.seen[k] {
			return true
		}
		ea.seen[k] = true
		ea.n++
		if ea.n > 20000 {
			ea.lost = true
			return true
		}
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == ea.orig {
			ea.bad, ea.badAt = "is retried", in
			return false
		}
		switch x := in.(type) {
		case *ssa.Store:
			v := p.val(x.Val)
			_, isFV := x.Addr.(*ssa.FreeVar)
			if _, ok := x.Addr.(*ssa.Alloc); ok || isFV {
				if isErrT(x.Val.Type()) || p.derived[v] {
					p.bind[x.Addr] = v
					continue
				}
			} else if ea.passesOn(p, x.Val) {
				if _, isEl := x.Addr.(*ssa.IndexAddr); isEl {
					// the argument array of a variadic call, or a list of errors
					if al, ok := x.Addr.(*ssa.IndexAddr).X.(*ssa.Alloc); ok && !al.Heap {
						continue
					}
					if al, ok := x.Addr.(*ssa.IndexAddr).X.(*ssa.Alloc); ok && al.Comment == "varargs" {
						continue
					}
				}
				return true // kept for the caller to see
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok && isErrT(x.Type()) {
					// the error in a result that was received
					if v, ok := p.bind[fa.X]; ok && p.derived[v] && !isErrT(v.Type()) {
						p.derived[x] = true
					}
				}
				_, isFV := x.X.(*ssa.FreeVar)
				if _, ok := x.X.(*ssa.Alloc); ok || isFV {
					if v, ok := p.bind[x.X]; ok {
						p.bind[x] = v
					} else {
						delete(p.bind, x)
					}
				}
			}
		case *ssa.Field:
			if isErrT(x.Type()) && p.derived[p.val(x.X)] {
				p.derived[x] = true
			}
		case *ssa.Send:
			if ea.passesOn(p, x.X) {
				return true
			}
		case *ssa.Select:
			for _, s := range x.States {
				if s.Send != nil && ea.passesOn(p, s.Send) {
					return true
				}
			}
		case *ssa.Call, *ssa.Defer, *ssa.Go:
			cc := in.(ssa.CallInstruction).Common()
			hit := false
			for _, a := range cc.Args {
				if ea.passesOn(p, a) {
					hit = true
				}
			}
			if oc, ok := ea.orig.(*ssa.Call); ok && sameInput(&oc.Call, cc) {
				return true // another reading of the same text takes over
			}
			if !hit {
				continue
			}
			c, isCall := in.(*ssa.Call)
			if !isCall {
				return true
			}
			n := calleeFull(cc)
			if isErrT(c.Type()) {
				p.derived[c] = true
				continue
			}
			if n == "errors.Is" || n == "errors.As" || isBool(c.Type()) && (cc.IsInvoke() || cc.StaticCallee() != nil) {
				continue
			}
			if ix := errResult(cc.Signature()); ix >= 0 {
				continue
			}
			if cc.IsInvoke() && cc.Method.Name() == "Error" || cc.StaticCallee() != nil && cc.StaticCallee().Name() == "Error" {
				continue
			}
			if at := ea.cleared(c); at != nil {
				ea.bad, ea.badAt = "is put into a collector that is emptied before anyone asks it", at
				return false
			}
			return true // handed over
		case *ssa.MakeClosure:
			for _, bd := range x.Bindings {
				if v, ok := p.bind[bd]; ok && p.derived[v] {
					p.derived[x] = true
				}
			}
		case *ssa.Panic:
			return true
		case *ssa.Return:
			ix := errResult(b.Parent().Signature)
			kept, forgotten := ea.captured(p)
			if kept {
				return true
			}
			if forgotten {
				ea.bad, ea.badAt = "is kept in a variable nobody returns", in
			}
			if ix < 0 {
				for _, rv := range x.Results {
					if ea.passesOn(p, rv) {
						ea.bad = ""
						return true
					}
				}
				if ea.bad == "" {
					ea.bad, ea.badAt = "is dropped", in
				}
				return false
			}
			if ea.nilness(p, x.Results[ix]) == 1 {
				ea.bad = ""
				return true
			}
			for _, rv := range x.Results {
				if ea.passesOn(p, rv) {
					ea.bad = ""
					return true
				}
			}
			ea.bad, ea.badAt = "does not reach the caller", in
			return false
		case *ssa.If:
			t, known, handled := ea.cond(p, x.Cond)
			for s := 0; s < 2; s++ {
				truth := s == 0
				if known && truth != t {
					continue
				}
				if handled && truth == t {
					continue // recognised as not a failure
				}
				q := p.clone()
				if _, isC := x.Cond.(*ssa.Const); !isC {
					q.truth[x.Cond] = truth
				}
				if !ea.follow(b.Succs[s], b, 0, q) {
					return false
				}
			}
			return true
		case *ssa.Jump:
			return ea.follow(b.Succs[0], b, 0, p)
		}
	}
	return true
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// cond evaluates a branch condition given that the error is non-nil. handled: when the condition has
// the value t the error was recognised by identity or type.
func (ea *errAn) cond(p *errPath, v ssa.Value) (t, known, handled bool) {
	v = p.val(v)
	if tv, ok := p.truth[v]; ok {
		return tv, true, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return x.Value.String() == "true", true, false
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			t, k, h := ea.cond(p, x.X)
			return !t, k, h
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false, false, false
		}
		a, b := p.val(x.X), p.val(x.Y)
		na, nb := 0, 0
		if isErrT(a.Type()) || isErrT(b.Type()) || isNilConst(a) || isNilConst(b) {
			na, nb = ea.nilness(p, a), ea.nilness(p, b)
		}
		eq := x.Op == token.EQL
		if na == -1 && nb == -1 {
			return eq, true, false
		}
		if na*nb == -1 {
			return !eq, true, false
		}
		if (p.derived[a] || p.derived[b]) && na == 1 && nb == 1 {
			return eq, false, true
		}
		// err.Error() == "..." and the like
		if ea.fromErr(p, a) || ea.fromErr(p, b) {
			return eq, false, true
		}
	case *ssa.Call:
		n := calleeFull(&x.Call)
		for _, a := range x.Call.Args {
			if ea.passesOn(p, a) || ea.fromErr(p, a) {
				if n == "errors.Is" || n == "errors.As" || isBool(x.Type()) {
					return true, false, true
				}
			}
		}
		if x.Call.IsInvoke() && ea.passesOn(p, x.Call.Value) {
			return true, false, true
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && ea.passesOn(p, ta.X) {
			return true, false, true
		}
	}
	return false, false, false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (ea *errAn) fromErr(p *errPath, v ssa.Value) bool {
	switch x := p.val(v).(type) {
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return ea.passesOn(p, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			if ea.passesOn(p, a) {
				return true
			}
		}
	}
	return false
}

// sinks: a function without an error result that has somewhere to put errors
func (ea *errAn) sinks(f *ssa.Function) bool {
	if f.Parent() != nil {
		return true
	}
	for _, p := range f.Params {
		if ch, ok := p.Type().Underlying().(*types.Chan); ok && isErrT(ch.Elem()) {
			return true
		}
		if strings.Contains(typeKey(p.Type()), "/erc.Collector") {
			return true
		}
	}
	return false
}

// readBack: the captured variable is looked at again after the closure wrote it
func (ea *errAn) readBack(fv *ssa.FreeVar) bool {
	f := fv.Parent()
	mk := soleClosure(f)
	if mk == nil {
		return true
	}
	var cell ssa.Value
	for i, v := range f.FreeVars {
		if v == fv {
			cell = mk.Bindings[i]
		}
	}
	al, ok := cell.(*ssa.Alloc)
	if !ok {
		return true
	}
	deferred := len(*mk.Referrers()) > 0
	for _, r := range *mk.Referrers() {
		if d, ok := r.(*ssa.Defer); !ok || d.Call.Value != ssa.Value(mk) {
			deferred = false
		}
	}
	if !deferred && loadReaches(f.Blocks[0], -1, fv) {
		return true // state kept between calls
	}
	for _, r := range *al.Referrers() {
		if m2, ok := r.(*ssa.MakeClosure); ok && m2 != mk && !deferred {
			for i, v := range m2.Bindings {
				g := m2.Fn.(*ssa.Function)
				if v == cell && len(g.Blocks) > 0 && loadReaches(g.Blocks[0], -1, g.FreeVars[i]) {
					return true
				}
			}
		}
	}
	if !deferred {
		return loadReaches(mk.Block(), instrIndex(mk), al)
	}
	for _, r := range *al.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		// after the deferred calls only the results are read
		for _, r2 := range *u.Referrers() {
			if _, ok := r2.(*ssa.Return); ok && instrIndex(u) > 0 {
				for k := instrIndex(u) - 1; k >= 0; k-- {
					if _, ok := u.Block().Instrs[k].(*ssa.RunDefers); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// loadReaches: going on from instruction i of block b, the cell can be read before it is overwritten
func loadReaches(b *ssa.BasicBlock, i int, cell ssa.Value) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && x.X == cell {
					return true
				}
			case *ssa.Store:
				if x.Addr == cell {
					return false
				}
			case *ssa.MakeClosure:
				for k, v := range x.Bindings {
					g := x.Fn.(*ssa.Function)
					if v == cell && i > 0 && len(g.Blocks) > 0 && loadReaches(g.Blocks[0], 0, g.FreeVars[k]) {
						return true
					}
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(b, i+1)
}

// captured: the error is, when the function ends, in a variable of the enclosing function that is
// (kept) or is not (forgotten) looked at later
func (ea *errAn) captured(p *errPath) (kept, forgotten bool) {
	for k, v := range p.bind {
		fv, ok := k.(*ssa.FreeVar)
		if !ok || !p.derived[p.val(v)] {
			continue
		}
		if ea.readBack(fv) {
			return true, false
		}
		forgotten = true
	}
	return false, forgotten
}

// cleared: after the error went into a collector that is a field of some object, the collector is
// overwritten before it is asked for its errors
func (ea *errAn) cleared(c *ssa.Call) ssa.Instruction {
	if len(c.Call.Args) == 0 {
		return nil
	}
	fa, ok := c.Call.Args[0].(*ssa.FieldAddr)
	if !ok || !strings.Contains(typeKey(fa.Type()), "/erc.Collector") {
		return nil
	}
	at, _ := ea.clears(c.Block(), instrIndex(c)+1, addrClass(fa), fa.X, 0)
	return at
}

func (ea *errAn) clears(b *ssa.BasicBlock, i int, class string, base ssa.Value, depth int) (at ssa.Instruction, asked bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				if addrClass(x.Addr) == class && x.Addr.(*ssa.FieldAddr).X == base {
					return x
				}
			case *ssa.Call:
				for k, a := range x.Call.Args {
					if fa, ok := a.(*ssa.FieldAddr); ok && fa.X == base && addrClass(fa) == class && calleeMethod(&x.Call) != "Push" {
						asked = true
						return nil
					}
					g := x.Call.StaticCallee()
					if a == base && ea.w.bodyOf(g) && depth < 4 && k < len(g.Params) {
						at, asks := ea.clears(g.Blocks[0], 0, class, g.Params[k], depth+1)
						if at != nil {
							return x
						}
						if asks {
							asked = true
							return nil
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if at := walk(s, 0); at != nil {
					return at
				}
			}
		}
		return nil
	}
	return walk(b, i), asked
}

func calleeMethod(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

// sameInput: the other call is handed exactly the data the failed one was, and nothing else
func sameInput(a, b *ssa.CallCommon) bool {
	if a.IsInvoke() || b.IsInvoke() || len(a.Args) == 0 || len(a.Args) != len(b.Args) || errResult(b.Signature()) < 0 || a.StaticCallee() == b.StaticCallee() {
		return false
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			return false
		}
		if _, ok := a.Args[i].Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

func checkErrors(w *World, r *Report) {
	r.Rule = "for every call that can fail inside a function that can report failure: following every path from the call on which its error is non-nil, the path ends in a return of a non-nil error, in a panic, or hands the error itself to the caller (channel, collector, stored field), unless the path compares that very error with a known value or type"
	ea := &errAn{w: w, nn: map[*ssa.Function]bool{}}
	for _, f := range w.Funcs {
		if !inRepo(fnPkg(f)) || len(f.Blocks) == 0 || f.Synthetic != "" && f.Synthetic != "range-over-func yield" {
			continue
		}
		can := errResult(f.Signature) >= 0
		if !can && !ea.sinks(f) {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					ea.received(r, f, b, i)
					continue
				}
				if _, bi := c.Call.Value.(*ssa.Builtin); bi {
					continue
				}
				if calleeFull(&c.Call) == "(*bufio.Scanner).Scan" {
					ea.scanner(r, f, c)
					continue
				}
				ix := errResult(c.Call.Signature())
				if ix < 0 || infallible(&c.Call) || ea.alwaysNil(&c.Call) || ea.neverNil(&c.Call) {
					continue
				}
				key := "swallow|" + strings.TrimPrefix(fnPkg(f), modPath) + "|" + calleeShort(&c.Call)
				var ev ssa.Value
				if c.Call.Signature().Results().Len() == 1 {
					ev = c
				} else {
					for _, ref := range *c.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index == ix {
							ev = ex
						}
					}
				}
				r.Counts["fallible calls"]++
				if ev == nil || len(*ev.Referrers()) == 0 {
					if !can && calleeMethod(&c.Call) == "Close" {
						continue // best-effort cleanup where nothing can be reported
					}
					// wrapped errors built for their own sake are not failures
					r.fail(key, w.pos(instrPos(in)), fmt.Sprintf("%s discards the error of %s", fnName(f), calleeShort(&c.Call)))
					continue
				}
				// a function returning its argument wrapped is not a new failure
				p := (&errPath{}).clone()
				p.derived[ev] = true
				ea.seen, ea.n, ea.orig, ea.bad, ea.lost = map[string]bool{}, 0, in, "", false
				ea.follow(b, nil, i+1, p)
				if ea.bad != "" {
					r.fail(key, w.pos(instrPos(in)), fmt.Sprintf("%s: the error of %s %s (%s)", fnName(f), calleeShort(&c.Call), ea.bad, w.pos(instrPos(ea.badAt))))
				} else {
					r.ok("errors followed to an exit")
				}
				r.Counts["path states"] += ea.n
				if ea.lost {
					r.Counts["capped"]++
				}
			}
		}
	}
	r.min("fallible calls", 200)
}

// scanner: a scanner that stops may have failed; unless the function fails anyway, it has to ask.
func (ea *errAn) scanner(r *Report, f *ssa.Function, c *ssa.Call) {
	asks := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if calleeFull(ci.Common()) == "(*bufio.Scanner).Err" {
			return true
		}
		// handed on, or captured: whoever has it can ask
		for _, a := range append([]ssa.Value{ci.Common().Value}, ci.Common().Args...) {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				for g := range ea.w.reachable([]*ssa.Function{mc.Fn.(*ssa.Function)}, func(*ssa.Function) bool { return true }) {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if c2, ok := in.(ssa.CallInstruction); ok && calleeFull(c2.Common()) == "(*bufio.Scanner).Err" {
								return true
							}
						}
					}
				}
			}
			if a == c.Call.Args[0] && calleeFull(ci.Common()) != "(*bufio.Scanner).Scan" && ci.Common().StaticCallee() != nil && ea.w.bodyOf(ci.Common().StaticCallee()) {
				return true
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok && asks(in) {
				r.Counts["scanners asked in a deferred call"]++
				return
			}
		}
	}
	key := "scanner|" + strings.TrimPrefix(fnPkg(f), modPath) + "|" + fnName(topFn(f))
	var bad ssa.Instruction
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		if i == 0 {
			if seen[b] {
				return
			}
			seen[b] = true
		}
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if asks(in) {
				return
			}
			if x, ok := in.(*ssa.Return); ok && bad == nil {
				if ix := errResult(f.Signature); ix >= 0 && ea.nilness((&errPath{}).clone(), x.Results[ix]) == 1 {
					return
				}
				bad = in
			}
		}
		for _, s := range b.Succs {
			walk(s, 0)
		}
	}
	r.Counts["fallible calls"]++
	found := false
	for _, ref := range *c.Referrers() {
		v, neg := ssa.Value(c), false
		if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.NOT {
			v, neg = u, true
		}
		for _, r2 := range *v.Referrers() {
			if br, ok := r2.(*ssa.If); ok && br.Cond == v {
				found = true
				if neg {
					walk(br.Block().Succs[0], 0)
				} else {
					walk(br.Block().Succs[1], 0)
				}
			}
		}
	}
	switch {
	case bad != nil:
		r.fail(key, ea.w.pos(instrPos(c)), fmt.Sprintf("%s stops reading when the scanner stops and never asks it whether it failed (%s)", fnName(f), ea.w.pos(instrPos(bad))))
	case found:
		r.ok("scanner asked for its error")
		r.Counts["scanners followed"]++
	default:
		r.Counts["scanners undecided"]++
	}
}

func fnPkg(f *ssa.Function) string {
	f = topFn(f)
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	return ""
}

func calleeShort(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		t := typeKey(c.Value.Type())
		return t[strings.LastIndex(t, "/")+1:] + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return "a function value"
}

// received: the failure of a step that ran in another goroutine, as it is received from a channel
func (ea *errAn) received(r *Report, f *ssa.Function, b *ssa.BasicBlock, i int) {
	in := b.Instrs[i]
	p := (&errPath{}).clone()
	var ev ssa.Value
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW && !x.CommaOk {
			ev = x
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Select:
			if x.Index >= 2 {
				ev = x
			}
		case *ssa.UnOp:
			if t.Op == token.ARROW && x.Index == 0 {
				ev = x
			}
		}
		if ev != nil {
			for _, ref := range *x.Tuple.Referrers() {
				if o, ok := ref.(*ssa.Extract); ok && o.Index == 1 {
					p.truth[o] = true // it was sent
				}
			}
		}
	}
	if ev == nil || !holdsOneErr(ev.Type()) || len(*ev.Referrers()) == 0 {
		return
	}
	r.Counts["errors received"]++
	p.derived[ev] = true
	ea.seen, ea.n, ea.orig, ea.bad, ea.lost = map[string]bool{}, 0, in, "", false
	ea.follow(b, nil, i+1, p)
	if ea.bad != "" {
		r.fail("swallow|"+strings.TrimPrefix(fnPkg(f), modPath)+"|received", w0(ea.w, in), fmt.Sprintf("%s: the error received from a channel %s (%s)", fnName(f), ea.bad, ea.w.pos(instrPos(ea.badAt))))
	} else {
		r.ok("errors followed to an exit")
	}
	r.Counts["path states"] += ea.n
	if ea.lost {
		r.Counts["capped"]++
	}
}

func w0(w *World, in ssa.Instruction) string {
	if ex, ok := in.(*ssa.Extract); ok {
		if t, ok := ex.Tuple.(ssa.Instruction); ok {
			return w.pos(instrPos(t))
		}
	}
	return w.pos(instrPos(in))
}

// holdsOneErr: an error, or a structure made to carry one
func holdsOneErr(t types.Type) bool {
	if isErrT(t) {
		return true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if isErrT(st.Field(i).Type()) {
			n++
		}
	}
	return n == 1
}
