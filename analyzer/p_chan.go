package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Channel, goroutine and wait group discipline: what blocks is released, nothing is sent after a close, and
// joined work is finished when the join returns.

type chanAn struct {
	w       *World
	r       *Report
	makes   map[*ssa.MakeChan]*chanInfo
	order   []*ssa.MakeChan
	cells   map[ssa.Value][]*ssa.Store // stores to a cell, closures included
	fstores map[string][]*ssa.Store
	cache   map[ssa.Value]*origins
	goSites map[*ssa.Function][]*ssa.Go
	senders map[*ssa.MakeChan]map[*ssa.Function]bool
	roots   map[*ssa.Function]map[*ssa.Function]bool // function -> goroutine bodies (or itself, exported) it runs in
}

type chanInfo struct {
	mk     *ssa.MakeChan
	sends  []chanOp
	recvs  []chanOp
	closes []chanOp
}

type chanOp struct {
	in  ssa.Instruction
	sel *ssa.Select
	ix  int
}

type origins struct {
	makes   map[*ssa.MakeChan]bool
	ext     map[string]bool
	unknown bool
}

func (o *origins) add(q *origins) {
	for k := range q.makes {
		o.makes[k] = true
	}
	for k := range q.ext {
		o.ext[k] = true
	}
	o.unknown = o.unknown || q.unknown
}

func newOrigins() *origins {
	return &origins{makes: map[*ssa.MakeChan]bool{}, ext: map[string]bool{}}
}

// storesTo lists every store to a local cell, through captured copies too.
func (a *chanAn) storesTo(cell ssa.Value) []*ssa.Store {
	if s, ok := a.cells[cell]; ok {
		return s
	}
	var out []*ssa.Store
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr == v {
					out = append(out, x)
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						walk(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	walk(cell)
	a.cells[cell] = out
	return out
}

// cellOf follows captured variables to the variable they capture.
func (a *chanAn) cellOf(v ssa.Value) []capturedAt {
	out := []capturedAt{{v, nil}}
	for i := 0; i < 10; i++ {
		fv, ok := out[0].cell.(*ssa.FreeVar)
		if !ok {
			return out
		}
		var next []capturedAt
		for _, mk := range a.closuresOf(fv.Parent()) {
			for j, q := range fv.Parent().FreeVars {
				if q == fv {
					next = append(next, capturedAt{mk.Bindings[j], mk})
				}
			}
		}
		if len(next) != 1 {
			return next
		}
		out = next
	}
	return out
}

type capturedAt struct {
	cell ssa.Value
	at   *ssa.MakeClosure
}

func (a *chanAn) closuresOf(f *ssa.Function) []*ssa.MakeClosure {
	var out []*ssa.MakeClosure
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mk, ok := in.(*ssa.MakeClosure); ok && mk.Fn == f {
				out = append(out, mk)
			}
		}
	}
	return out
}

// reaching: the stores to the cell in its own function that can be the last one before the instruction
func (a *chanAn) reaching(cell ssa.Value, at ssa.Instruction) []*ssa.Store {
	all := a.storesTo(cell)
	f := at.Parent()
	for _, s := range all {
		if s.Parent() != f {
			return all
		}
	}
	var out []*ssa.Store
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, i int)
	back = func(b *ssa.BasicBlock, i int) {
		for ; i >= 0; i-- {
			if s, ok := b.Instrs[i].(*ssa.Store); ok && s.Addr == cell {
				out = append(out, s)
				return
			}
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				back(p, len(p.Instrs)-1)
			}
		}
	}
	back(at.Block(), instrIndex(at)-1)
	return out
}

func (a *chanAn) origin(v ssa.Value) *origins {
	if o, ok := a.cache[v]; ok {
		return o
	}
	o := newOrigins()
	a.cache[v] = o // cycles contribute nothing further
	switch x := v.(type) {
	case *ssa.MakeChan:
		o.makes[x] = true
	case *ssa.ChangeType:
		o.add(a.origin(x.X))
	case *ssa.MakeInterface:
		o.add(a.origin(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			o.add(a.origin(e))
		}
	case *ssa.Const:
		o.ext["nil"] = true
	case *ssa.Parameter:
		f := x.Parent()
		k := -1
		for i, p := range f.Params {
			if p == x {
				k = i
			}
		}
		n := 0
		for _, c := range a.w.callers[f] {
			if k < len(c.Common().Args) {
				o.add(a.origin(c.Common().Args[k]))
				n++
			}
		}
		if n == 0 || f.Object() != nil && f.Object().Exported() || a.w.addrOf[f] {
			o.ext["caller"] = true
		}
	case *ssa.FreeVar:
		for _, mk := range a.closuresOf(x.Parent()) {
			for j, q := range x.Parent().FreeVars {
				if q == x {
					o.add(a.origin(mk.Bindings[j]))
				}
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			o.unknown = true
			break
		}
		switch y := x.X.(type) {
		case *ssa.Alloc:
			for _, s := range a.reaching(y, x) {
				o.add(a.origin(s.Val))
			}
		case *ssa.FreeVar:
			for _, c := range a.cellOf(y) {
				if al, ok := c.cell.(*ssa.Alloc); ok {
					for _, s := range a.reaching(al, c.at) {
						o.add(a.origin(s.Val))
					}
				} else {
					o.unknown = true
				}
			}
		case *ssa.FieldAddr:
			o.add(a.fieldOrigin(y.X.Type(), y.Field))
		case *ssa.Global:
			o.ext["global "+y.Name()] = true
		default:
			o.unknown = true
		}
	case *ssa.Field:
		o.add(a.fieldOrigin(x.X.Type(), x.Field))
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && a.w.bodyOf(f) {
			for _, r := range returnsOf(f) {
				if len(r.Results) == 1 {
					o.add(a.origin(r.Results[0]))
				}
			}
		} else {
			o.ext[calleeFullM(&x.Call)] = true
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && a.w.bodyOf(f) {
				for _, r := range returnsOf(f) {
					o.add(a.origin(r.Results[x.Index]))
				}
			} else {
				o.ext[calleeFullM(&c.Call)] = true
			}
		} else {
			o.unknown = true
		}
	default:
		o.unknown = true
	}
	return o
}

func calleeFullM(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeKey(c.Value.Type()) + "." + c.Method.Name()
	}
	return calleeFull(c)
}

func fieldKey(t types.Type, i int) string {
	nt, st := derefStruct(t)
	if st == nil {
		return "?"
	}
	return typeKey(nt) + "." + st.Field(i).Name()
}

func (a *chanAn) fieldOrigin(t types.Type, i int) *origins {
	o := newOrigins()
	k := fieldKey(t, i)
	ss := a.fstores[k]
	if len(ss) == 0 {
		o.ext["field "+k] = true
	}
	for _, s := range ss {
		o.add(a.origin(s.Val))
	}
	return o
}

// cancelled: receiving from v is released by cancellation of a context somebody can cancel
func (a *chanAn) cancelled(v ssa.Value, at *ssa.Function) bool {
	o := a.origin(v)
	if o.unknown || len(o.makes) > 0 || len(o.ext) == 0 {
		return false
	}
	for e := range o.ext {
		if e != "context.Context.Done" {
			return false
		}
	}
	// which context
	ok := true
	seen := map[ssa.Value]bool{}
	var ctx func(v ssa.Value, at *ssa.Function)
	ctx = func(v ssa.Value, at *ssa.Function) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			switch calleeFull(&x.Call) {
			case "context.Background", "context.TODO", "context.WithoutCancel":
				ok = false
			}
		case *ssa.Extract:
			// a context only the waiting function itself cancels, on its way out, is as good as its parent
			if c, isC := x.Tuple.(*ssa.Call); isC && calleeFull(&c.Call) == "context.WithCancel" && c.Parent() == at && ownCancel(c) {
				ctx(c.Call.Args[0], at)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				ctx(e, at)
			}
		case *ssa.MakeInterface:
			ctx(x.X, at)
		case *ssa.ChangeInterface:
			ctx(x.X, at)
		case *ssa.UnOp:
			switch y := x.X.(type) {
			case *ssa.Alloc:
				for _, s := range a.reaching(y, x) {
					ctx(s.Val, at)
				}
			case *ssa.FreeVar:
				for _, c := range a.cellOf(y) {
					if al, isA := c.cell.(*ssa.Alloc); isA {
						for _, s := range a.reaching(al, c.at) {
							ctx(s.Val, a.sameRoutine(x.Parent(), at))
						}
					}
				}
			case *ssa.FieldAddr:
				for _, s := range a.fstores[fieldKey(y.X.Type(), y.Field)] {
					ctx(s.Val, nil)
				}
			}
		case *ssa.Parameter:
			for _, c := range a.w.callers[x.Parent()] {
				for i, p := range x.Parent().Params {
					if p == x && i < len(c.Common().Args) {
						var up *ssa.Function
						if _, isGo := c.(*ssa.Go); !isGo && at == x.Parent() {
							up = c.Parent()
						}
						ctx(c.Common().Args[i], up)
					}
				}
			}
		case *ssa.FreeVar:
			for _, mk := range a.closuresOf(x.Parent()) {
				for j, q := range x.Parent().FreeVars {
					if q == x {
						ctx(mk.Bindings[j], a.sameRoutine(x.Parent(), at))
					}
				}
			}
		}
	}
	var dn func(v ssa.Value)
	dseen := map[ssa.Value]bool{}
	dn = func(v ssa.Value) {
		if dseen[v] {
			return
		}
		dseen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			if x.Call.IsInvoke() {
				ctx(x.Call.Value, at)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				dn(e)
			}
		case *ssa.UnOp:
			if al, isA := x.X.(*ssa.Alloc); isA {
				for _, s := range a.storesTo(al) {
					dn(s.Val)
				}
			}
			if fv, isF := x.X.(*ssa.FreeVar); isF {
				for _, c := range a.cellOf(fv) {
					for _, s := range a.storesTo(c.cell) {
						dn(s.Val)
					}
				}
			}
		case *ssa.FreeVar:
			for _, mk := range a.closuresOf(x.Parent()) {
				for j, q := range x.Parent().FreeVars {
					if q == x {
						dn(mk.Bindings[j])
					}
				}
			}
		}
	}
	dn(v)
	return ok
}

// sameRoutine: the function enclosing f if f, a literal, runs as part of it
func (a *chanAn) sameRoutine(f, at *ssa.Function) *ssa.Function {
	if at != f || len(a.goSites[f]) > 0 {
		return nil
	}
	return f.Parent()
}

// ownCancel: the cancel function is used only where the function that made it calls or defers it
func ownCancel(c *ssa.Call) bool {
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			for _, u := range *e.Referrers() {
				ci, ok := u.(ssa.CallInstruction)
				if !ok || ci.Common().Value != ssa.Value(e) {
					return false
				}
				if _, isGo := u.(*ssa.Go); isGo {
					return false
				}
			}
		}
	}
	return true
}

// fires: a timer or another source outside the library that delivers on its own
func (a *chanAn) fires(v ssa.Value) bool {
	o := a.origin(v)
	if o.unknown || len(o.makes) > 0 || len(o.ext) == 0 {
		return false
	}
	for e := range o.ext {
		if e != "time.After" && e != "field time.Timer.C" {
			return false
		}
	}
	return true
}

func (a *chanAn) isRoot(f *ssa.Function) bool {
	return len(a.goSites[f]) > 0
}

// rootsOf: the goroutine bodies a function runs in; a function callable from outside is its own root
func (a *chanAn) rootsOf(f *ssa.Function) map[*ssa.Function]bool {
	if r, ok := a.roots[f]; ok {
		return r
	}
	r := map[*ssa.Function]bool{}
	a.roots[f] = r
	if a.isRoot(f) {
		r[f] = true
	}
	sync := 0
	for _, c := range a.w.callers[f] {
		if _, isGo := c.(*ssa.Go); isGo {
			continue
		}
		sync++
		for k := range a.rootsOf(c.Parent()) {
			r[k] = true
		}
	}
	if f.Parent() != nil && !a.isRoot(f) {
		// a closure runs where it was made, unless it is handed elsewhere
		for k := range a.rootsOf(f.Parent()) {
			r[k] = true
		}
	} else if sync == 0 && !a.isRoot(f) || f.Object() != nil && f.Object().Exported() {
		r[f] = true
	}
	return r
}

func sameSet(a, b map[*ssa.Function]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func (a *chanAn) collect() {
	w := a.w
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeChan:
					a.makes[x] = &chanInfo{mk: x}
					a.order = append(a.order, x)
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa.X.Type(), fa.Field)
						a.fstores[k] = append(a.fstores[k], x)
					}
				case *ssa.Go:
					if t := goTarget(x); t != nil {
						a.goSites[t] = append(a.goSites[t], x)
					}
				}
			}
		}
	}
	each := func(v ssa.Value, fn func(*chanInfo)) {
		for m := range a.origin(v).makes {
			if ci := a.makes[m]; ci != nil {
				fn(ci)
			}
		}
	}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				in := in
				switch x := in.(type) {
				case *ssa.Send:
					each(x.Chan, func(c *chanInfo) { c.sends = append(c.sends, chanOp{in: in}) })
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						each(x.X, func(c *chanInfo) { c.recvs = append(c.recvs, chanOp{in: in}) })
					}
				case *ssa.Select:
					for i, s := range x.States {
						i := i
						if s.Dir == types.SendOnly {
							each(s.Chan, func(c *chanInfo) { c.sends = append(c.sends, chanOp{in, x, i}) })
						} else {
							each(s.Chan, func(c *chanInfo) { c.recvs = append(c.recvs, chanOp{in, x, i}) })
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						each(x.Common().Args[0], func(c *chanInfo) { c.closes = append(c.closes, chanOp{in: in}) })
					}
				}
			}
		}
	}
}

func goTarget(g ssa.CallInstruction) *ssa.Function {
	if mc, ok := g.Common().Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	return g.Common().StaticCallee()
}

// pathAvoiding: can control get from just after `from` to `to` in the same function without executing stop
func pathAvoiding(from, to ssa.Instruction, stop func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == to {
				return true
			}
			if stop != nil && stop(b.Instrs[i]) {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(from.Block(), instrIndex(from)+1)
}

// exitAvoiding: a path from the start of the function (or just after an instruction) to a return without stop
func exitAvoiding(f *ssa.Function, from ssa.Instruction, stop func(ssa.Instruction) bool, edge func(b *ssa.BasicBlock, s int) bool) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			if stop(b.Instrs[i]) {
				return nil
			}
			if _, ok := b.Instrs[i].(*ssa.Return); ok {
				return b.Instrs[i]
			}
		}
		for k, s := range b.Succs {
			if edge != nil && !edge(b, k) {
				continue
			}
			if !seen[s] {
				seen[s] = true
				if r := walk(s, 0); r != nil {
					return r
				}
			}
		}
		return nil
	}
	if from != nil {
		return walk(from.Block(), instrIndex(from)+1)
	}
	seen[f.Blocks[0]] = true
	return walk(f.Blocks[0], 0)
}

// closesAlways: every way out of f closes the channel (its own statements, deferred calls, callees)
func (a *chanAn) closesAlways(f *ssa.Function, m *ssa.MakeChan, depth int) bool {
	if depth > 4 || len(f.Blocks) == 0 {
		return false
	}
	hits := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		if bi, ok := ci.Common().Value.(*ssa.Builtin); ok {
			return bi.Name() == "close" && a.origin(ci.Common().Args[0]).makes[m]
		}
		if t := goTarget(ci); t != nil && a.w.bodyOf(t) {
			return a.closesAlways(t, m, depth+1)
		}
		return false
	}
	return exitAvoiding(f, nil, hits, nil) == nil
}

// released: a bare receive on this channel ends
func (a *chanAn) recvReleased(in ssa.Instruction, ch ssa.Value) (string, bool) {
	o := a.origin(ch)
	if a.fires(ch) {
		return "a timer fires", true
	}
	if a.cancelled(ch, in.Parent()) {
		return "waits for cancellation", true
	}
	if o.unknown || len(o.ext) > 0 || len(o.makes) == 0 {
		return "", false
	}
	for m := range o.makes {
		ok := false
		for _, c := range a.makes[m].closes {
			if _, isD := c.in.(*ssa.Defer); !isD && c.in.Parent() == in.Parent() && domInstr(c.in, in) {
				ok = true
			}
			// closed before the goroutine that receives was started
			for _, g := range a.goSites[in.Parent()] {
				if _, isD := c.in.(*ssa.Defer); !isD && c.in.Parent() == g.Parent() && domInstr(c.in, g) {
					ok = true
				}
			}
		}
		for t := range a.goSites {
			if a.closesAlways(t, m, 0) {
				for _, g := range a.goSites[t] {
					// the goroutine that closes it has been started by then
					if g.Parent() == in.Parent() && domInstr(g, in) || g.Parent() != in.Parent() {
						ok = true
					}
				}
			}
		}
		if !ok {
			return "", false
		}
	}
	return "the channel is closed on every path", true
}

// drained: some receiver that runs beside the send takes everything until the channel is closed
func (a *chanAn) drained(m *ssa.MakeChan, send ssa.Instruction) bool {
	for _, op := range a.makes[m].recvs {
		u, ok := op.in.(*ssa.UnOp)
		if !ok || !u.CommaOk || !inLoop(u.Block()) {
			continue
		}
		if !a.beside(u, send) {
			continue
		}
		// leaving the loop requires the channel to be closed
		var okv ssa.Value
		for _, ref := range *u.Referrers() {
			if e, isE := ref.(*ssa.Extract); isE && e.Index == 1 {
				okv = e
			}
		}
		if okv == nil {
			continue
		}
		f := u.Parent()
		leak := exitAvoiding(f, u, func(in ssa.Instruction) bool { return in == u }, func(b *ssa.BasicBlock, s int) bool {
			br, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			return !(isIf && br.Cond == okv && s == 1)
		})
		if leak == nil {
			return true
		}
	}
	return false
}

// beside: the receiver gets to run while the send waits: it is not the code after the send, not a goroutine that
// is started only after it, and it does not first wait for the sender to finish
func (a *chanAn) beside(recv, send ssa.Instruction) bool {
	sf, rf := send.Parent(), recv.Parent()
	if sf == rf {
		return false
	}
	for _, g := range a.goSites[rf] {
		if g.Parent() == sf && !domInstr(g, send) {
			return false
		}
	}
	for g := range a.rootsOf(sf) {
		if a.isRoot(g) && a.joined(recv, g) {
			return false
		}
	}
	return true
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// inLoopAfter: b can execute again after itself without executing the instruction again first
func repeatsWithout(in ssa.Instruction, stop func(ssa.Instruction) bool) bool {
	return pathAvoiding(in, in, stop)
}

const manySends = 1 << 20

// maxSends: how many sends on m one execution of f can make, goroutines it starts included; the part made by
// code that only runs while recovering from a panic is counted when a panic could come after the other sends
func (a *chanAn) maxSends(f *ssa.Function, m *ssa.MakeChan, depth int, stack map[*ssa.Function]bool) int {
	if len(f.Blocks) == 0 || !a.reachesSend(f, m) {
		return 0
	}
	if depth > 6 || stack[f] {
		return manySends
	}
	stack[f] = true
	defer delete(stack, f)
	one := func(in ssa.Instruction) int {
		switch x := in.(type) {
		case *ssa.Send:
			if a.origin(x.Chan).makes[m] {
				return 1
			}
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && a.origin(s.Chan).makes[m] {
					return 1
				}
			}
		case *ssa.Defer:
			return 0
		case ssa.CallInstruction:
			n := 0
			if t := goTarget(x); t != nil && a.w.bodyOf(t) {
				n += a.maxSends(t, m, depth+1, stack)
			}
			// closures handed to the callee may be called by it any number of times
			for _, arg := range x.Common().Args {
				if mc, ok := arg.(*ssa.MakeClosure); ok {
					if a.maxSends(mc.Fn.(*ssa.Function), m, depth+1, stack) > 0 {
						n = manySends
					}
				}
			}
			return n
		}
		return 0
	}
	defers, recov := 0, 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if bi, isB := d.Call.Value.(*ssa.Builtin); isB && bi.Name() == "close" {
					continue
				}
				if t := goTarget(d); t != nil && a.w.bodyOf(t) {
					n := a.maxSends(t, m, depth+1, stack)
					rn := a.recoverSends(t, m)
					defers += n - rn
					recov += rn
				}
			}
		}
	}
	// longest path over the acyclic condensation: a send inside a cycle is unbounded
	memo := map[*ssa.BasicBlock][2]int{}
	on := map[*ssa.BasicBlock]bool{}
	var best func(b *ssa.BasicBlock) [2]int // [normal, sends that something able to panic follows]
	best = func(b *ssa.BasicBlock) [2]int {
		if v, ok := memo[b]; ok {
			return v
		}
		if on[b] {
			return [2]int{0, 0}
		}
		on[b] = true
		var nx [2]int
		for _, s := range b.Succs {
			v := best(s)
			nx[0] = max(nx[0], v[0])
			nx[1] = max(nx[1], v[1])
		}
		canPanic := nx[1] >= 0 && a.blockTailPanics(b.Succs)
		n, pn := nx[0], nx[1]
		after := canPanic
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			in := b.Instrs[i]
			k := one(in)
			if k > 0 && (inLoop(b) && repeatsWithout(in, nil)) {
				k = manySends
			}
			if k > 0 {
				n += k
				if after {
					pn += k
				}
			}
			if mayPanic(in) {
				after = true
			}
		}
		delete(on, b)
		memo[b] = [2]int{min(n, manySends), min(pn, manySends)}
		return memo[b]
	}
	v := best(f.Blocks[0])
	total := v[0] + defers
	if recov > 0 {
		total = max(total, v[1]+defers+recov)
	}
	return min(total, manySends)
}

// reachesSend: something f runs or starts sends on m
func (a *chanAn) reachesSend(f *ssa.Function, m *ssa.MakeChan) bool {
	if a.senders[m] == nil {
		in := map[*ssa.Function]bool{}
		var up func(g *ssa.Function)
		up = func(g *ssa.Function) {
			if in[g] {
				return
			}
			in[g] = true
			for _, c := range a.w.callers[g] {
				up(c.Parent())
			}
			if g.Parent() != nil {
				up(g.Parent())
			}
		}
		for _, s := range a.makes[m].sends {
			up(s.in.Parent())
		}
		a.senders[m] = in
	}
	return a.senders[m][f]
}

func (a *chanAn) blockTailPanics(bs []*ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if mayPanic(in) {
				return true
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, b := range bs {
		if walk(b) {
			return true
		}
	}
	return false
}

func mayPanic(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Call:
		_, isB := x.Call.Value.(*ssa.Builtin)
		return !isB
	case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Panic:
		return true
	case *ssa.TypeAssert:
		return !x.CommaOk
	}
	return false
}

// recoverSends: the sends of a deferred function that are made only while recovering
func (a *chanAn) recoverSends(f *ssa.Function, m *ssa.MakeChan) int {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Send)
			if !ok || !a.origin(s.Chan).makes[m] {
				continue
			}
			for d := b; d != nil; d = d.Idom() {
				p := d.Idom()
				if p == nil {
					break
				}
				br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				if bo, ok := br.Cond.(*ssa.BinOp); ok && (isRecover(bo.X) || isRecover(bo.Y)) {
					want := 0
					if bo.Op == token.EQL {
						want = 1
					}
					if p.Succs[want] == d {
						n++
						break
					}
				}
			}
		}
	}
	return n
}

func isRecover(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "recover"
}

// sendCovered: the channel's capacity is enough for everything that is ever sent
func (a *chanAn) sendCovered(m *ssa.MakeChan) (string, bool) {
	if c, ok := m.Size.(*ssa.Const); ok && c.Value != nil {
		n := int(c.Int64())
		k := a.maxSends(m.Parent(), m, 0, map[*ssa.Function]bool{})
		if k <= n {
			return fmt.Sprintf("capacity %d covers at most %d sends", n, k), true
		}
		if k >= manySends {
			return fmt.Sprintf("capacity %d, number of sends unbounded", n), false
		}
		return fmt.Sprintf("capacity %d, up to %d sends", n, k), false
	}
	if a.itemsBounded(m, m.Size, m.Parent(), 0) {
		return "capacity covers one send per element", true
	}
	return "capacity not shown to cover the sends", false
}

// lenPath: the access path of the slice whose length v is
func lenPath(v ssa.Value) string {
	c, ok := v.(*ssa.Call)
	if !ok {
		return ""
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return ""
	}
	return rootPF(c.Parent()).path(c.Call.Args[0])
}

func sameBound(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if a.Parent() != b.Parent() {
		return false
	}
	p := lenPath(a)
	return p != "" && p == lenPath(b)
}

// itemsBounded: at most `bound` items are ever sent on m
func (a *chanAn) itemsBounded(m *ssa.MakeChan, bound ssa.Value, f *ssa.Function, depth int) bool {
	if depth > 3 {
		return false
	}
	ci := a.makes[m]
	if len(ci.sends) != 1 {
		return len(ci.sends) == 0
	}
	s := ci.sends[0].in
	// one item per element of the thing the capacity was computed from
	if s.Parent() == f || a.startedOnce(s.Parent(), f) {
		for _, b := range s.Parent().Blocks {
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := br.Cond.(*ssa.BinOp)
			if !ok || bo.Op != token.LSS || !sameBound(bo.Y, bound) && !a.sameVal(bo.Y, bound, 0) || !counter(bo.X) {
				continue
			}
			if !b.Dominates(s.Block()) || repeatsWithout(s, func(in ssa.Instruction) bool { return in == br }) {
				continue
			}
			// the counting loop itself is not run again for the same channel
			again := false
			for _, p := range b.Preds {
				if !b.Dominates(p) && pathAvoiding(br, p.Instrs[len(p.Instrs)-1], func(in ssa.Instruction) bool { return in == m }) {
					again = true
				}
			}
			if !again {
				return true
			}
		}
	}
	// one item per item taken from another channel with that many
	for _, m2 := range a.order {
		if m2 == m || m2.Parent() != f {
			continue
		}
		for _, rc := range a.makes[m2].recvs {
			if rc.in.Parent() == s.Parent() && rc.sel == nil && domInstr(rc.in, s) &&
				!repeatsWithout(s, func(in ssa.Instruction) bool { return in == rc.in }) &&
				a.itemsBounded(m2, bound, f, depth+1) {
				return true
			}
		}
	}
	return false
}

// startedOnce: the literal is a goroutine of f that f starts once
func (a *chanAn) startedOnce(g, f *ssa.Function) bool {
	ss := a.goSites[g]
	return len(ss) == 1 && g.Parent() == f && ss[0].Parent() == f && !pathAvoiding(ss[0], ss[0], nil)
}

// sameVal: the same variable, field or length read in a function and in a literal of it
func (a *chanAn) sameVal(x, y ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	if fv, ok := x.(*ssa.FreeVar); ok {
		if c := a.cellOf(fv); len(c) == 1 {
			x = c[0].cell
		}
	}
	if fv, ok := y.(*ssa.FreeVar); ok {
		if c := a.cellOf(fv); len(c) == 1 {
			y = c[0].cell
		}
	}
	if x == y {
		return true
	}
	switch p := x.(type) {
	case *ssa.UnOp:
		q, ok := y.(*ssa.UnOp)
		return ok && p.Op == q.Op && p.Op == token.MUL && a.sameVal(p.X, q.X, depth+1)
	case *ssa.FieldAddr:
		q, ok := y.(*ssa.FieldAddr)
		return ok && p.Field == q.Field && a.sameVal(p.X, q.X, depth+1)
	case *ssa.Call:
		q, ok := y.(*ssa.Call)
		if !ok || len(p.Call.Args) != 1 || len(q.Call.Args) != 1 {
			return false
		}
		b1, ok1 := p.Call.Value.(*ssa.Builtin)
		b2, ok2 := q.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && b1.Name() == b2.Name() && a.sameVal(p.Call.Args[0], q.Call.Args[0], depth+1)
	}
	return false
}

// counter: a loop counter that starts at 0 (or -1 and is advanced first) and goes up by one
func counter(v ssa.Value) bool {
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
		v = bo.X
	}
	p, ok := v.(*ssa.Phi)
	return ok && len(p.Edges) >= 2
}

func domInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

func checkChans(w *World, r *Report) {
	r.Rule = "every blocking send, receive and select is released: by cancellation of a context it also waits on (and whose arm leaves the loop), by a channel that is closed on every path, or by a capacity that covers every send; no send can follow the close of its channel and no channel is closed twice; a wait group is signalled on every path, panics included, after everything else the worker does, and is counted up before the worker starts; the function that cancels a context is called on every path or kept where the closing operations call it"
	r.Assumptions = []string{"a worker's captured channel variable is not reassigned while the worker runs", "code outside the repository does not close the repository's channels", "operating system reads and writes are outside the rule"}
	a := &chanAn{w: w, r: r, makes: map[*ssa.MakeChan]*chanInfo{}, cells: map[ssa.Value][]*ssa.Store{}, fstores: map[string][]*ssa.Store{},
		cache: map[ssa.Value]*origins{}, goSites: map[*ssa.Function][]*ssa.Go{}, roots: map[*ssa.Function]map[*ssa.Function]bool{}, senders: map[*ssa.MakeChan]map[*ssa.Function]bool{}}
	a.collect()
	for _, f := range w.Funcs {
		if !inRepo(fnPkg(f)) {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				key := fmt.Sprintf("block|%s|%d", fnName(f), n)
				switch x := in.(type) {
				case *ssa.Send:
					n++
					r.Counts["channel operations"]++
					a.checkSend(key, x)
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						n++
						r.Counts["channel operations"]++
						how, ok := a.recvReleased(x, x.X)
						r.check(ok, key, w.pos(instrPos(in)), fmt.Sprintf("%s: nothing releases this receive: the channel is not closed on every path and no context is waited on %s", fnName(f), how))
					}
				case *ssa.Select:
					n++
					r.Counts["channel operations"]++
					a.checkSelect(key, x)
				}
			}
		}
	}
	for _, m := range a.order {
		a.checkClose(a.makes[m])
	}
	a.checkWaitGroups()
	a.checkCancels()
	r.Counts["channels"] = len(a.order)
	r.Counts["goroutine bodies"] = len(a.goSites)
	r.min("channel operations", 25)
	r.min("goroutine bodies", 10)
	r.min("closes checked", 6)
	r.min("wait groups", 2)
	r.min("cancel functions", 3)
}

func (a *chanAn) checkSend(key string, x *ssa.Send) {
	f := x.Parent()
	o := a.origin(x.Chan)
	pos := a.w.pos(instrPos(x))
	if o.unknown || len(o.ext) > 0 || len(o.makes) == 0 {
		a.r.fail(key, pos, fmt.Sprintf("%s sends without watching a context on a channel whose receiver is not known", fnName(f)))
		return
	}
	for m := range o.makes {
		how, ok := a.sendCovered(m)
		if !ok && a.drained(m, x) {
			ok = true
		}
		if !ok {
			a.r.fail(key, pos, fmt.Sprintf("%s can block forever: it sends without watching a context, and the %s (channel made at %s)", fnName(f), how, a.w.pos(instrPos(m))))
			return
		}
	}
	a.r.ok(key)
}

func (a *chanAn) checkSelect(key string, x *ssa.Select) {
	f := x.Parent()
	pos := a.w.pos(instrPos(x))
	done := -1
	for i, s := range x.States {
		if s.Dir == types.RecvOnly && a.cancelled(s.Chan, f) {
			done = i
		}
	}
	if done >= 0 {
		if arm := selectArm(x, done); arm != nil {
			if !x.Blocking {
				a.r.ok(key)
				return
			}
			again := false
			for _, in := range arm.Instrs {
				if in == x {
					again = true
				}
			}
			if !again && len(arm.Instrs) > 0 {
				again = pathAvoiding(arm.Instrs[0], x, func(in ssa.Instruction) bool { return false }) || arm.Instrs[0] == ssa.Instruction(x)
			}
			if again {
				a.r.fail(key, pos, fmt.Sprintf("%s goes back to waiting after its context was cancelled: the goroutine never ends", fnName(f)))
				return
			}
		}
		a.r.ok(key)
		return
	}
	if !x.Blocking {
		a.r.ok(key)
		return
	}
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			if _, ok := a.recvReleased(x, s.Chan); ok {
				a.r.ok(key)
				return
			}
		} else {
			all := len(a.origin(s.Chan).makes) > 0
			for m := range a.origin(s.Chan).makes {
				if _, ok := a.sendCovered(m); !ok {
					all = false
				}
			}
			if all {
				a.r.ok(key)
				return
			}
		}
	}
	a.r.fail(key, pos, fmt.Sprintf("%s waits without watching a context that can be cancelled: nothing releases this select", fnName(f)))
}

// selectArm: the block that runs when state i was chosen
func selectArm(x *ssa.Select, i int) *ssa.BasicBlock {
	for _, ref := range *x.Referrers() {
		e, ok := ref.(*ssa.Extract)
		if !ok || e.Index != 0 {
			continue
		}
		for _, r2 := range *e.Referrers() {
			bo, ok := r2.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL {
				continue
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || int(c.Int64()) != i {
				continue
			}
			for _, r3 := range *bo.Referrers() {
				if br, ok := r3.(*ssa.If); ok {
					return br.Block().Succs[0]
				}
			}
		}
	}
	return nil
}

// checkClose: nothing is sent on the channel after it was closed, and it is closed once
func (a *chanAn) checkClose(ci *chanInfo) {
	w := a.w
	for i, c := range ci.closes {
		a.r.Counts["closes checked"]++
		cf := c.in.Parent()
		key := fmt.Sprintf("close|%s|%s", fnName(cf), strings.TrimPrefix(typeKey(ci.mk.Type()), modPath))
		_, cdef := c.in.(*ssa.Defer)
		if !cdef && repeatsWithout(c.in, func(in ssa.Instruction) bool { return in == ci.mk }) {
			a.r.fail(key+"|loop", w.pos(instrPos(c.in)), fmt.Sprintf("%s may close the channel again in a loop", fnName(cf)))
		}
		for j, d := range ci.closes {
			if j == i {
				continue
			}
			if d.in.Parent() == cf {
				if pathAvoiding(c.in, d.in, func(in ssa.Instruction) bool { return in == ci.mk }) {
					a.r.fail(key+"|twice", w.pos(instrPos(d.in)), fmt.Sprintf("%s closes the channel twice on one path", fnName(cf)))
				}
			} else if !a.exclusive(ci.mk, cf, d.in.Parent()) {
				a.r.fail(key+"|twice", w.pos(instrPos(d.in)), fmt.Sprintf("the channel is closed by %s and by %s", fnName(cf), fnName(d.in.Parent())))
			}
		}
		bad := ""
		var at ssa.Instruction
		for _, s := range ci.sends {
			if why := a.sendAfterClose(ci.mk, s.in, c.in); why != "" {
				bad, at = why, s.in
			}
		}
		if bad != "" {
			a.r.fail(key, w.pos(instrPos(at)), fmt.Sprintf("send on a closed channel: %s", bad))
		} else {
			a.r.ok(key)
		}
	}
}

// exclusive: the two functions run at places of the channel's maker that exclude each other
func (a *chanAn) exclusive(m *ssa.MakeChan, f, g *ssa.Function) bool {
	at := func(h *ssa.Function) []ssa.Instruction {
		if h == m.Parent() {
			return nil
		}
		var out []ssa.Instruction
		for _, gs := range a.goSites[h] {
			if gs.Parent() == m.Parent() {
				out = append(out, gs)
			}
		}
		for _, c := range a.w.callers[h] {
			if c.Parent() == m.Parent() {
				out = append(out, c)
			}
		}
		return out
	}
	first := func(h *ssa.Function) []ssa.Instruction {
		if h != m.Parent() {
			return at(h)
		}
		var out []ssa.Instruction
		for _, c := range a.makes[m].closes {
			if c.in.Parent() == h {
				out = append(out, c.in)
			}
		}
		for _, s := range a.makes[m].sends {
			if s.in.Parent() == h {
				out = append(out, s.in)
			}
		}
		return out
	}
	fa, ga := first(f), first(g)
	if len(fa) == 0 || len(ga) == 0 {
		return false
	}
	for _, x := range fa {
		for _, y := range ga {
			if x == y || pathAvoiding(x, y, func(in ssa.Instruction) bool { return in == ssa.Instruction(m) }) || pathAvoiding(y, x, func(in ssa.Instruction) bool { return in == ssa.Instruction(m) }) {
				return false
			}
		}
	}
	return true
}

// lift: the instructions of f during which `in` may execute (itself, calls, or the defer that runs it)
func (a *chanAn) lift(f *ssa.Function, in ssa.Instruction, depth int) []ssa.Instruction {
	if in.Parent() == f {
		return []ssa.Instruction{in}
	}
	if depth > 5 {
		return nil
	}
	var out []ssa.Instruction
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			c, ok := x.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isGo := x.(*ssa.Go); isGo {
				continue
			}
			ts := []*ssa.Function{}
			if t := goTarget(c); t != nil {
				ts = append(ts, t)
			}
			for _, arg := range c.Common().Args {
				if mc, ok := arg.(*ssa.MakeClosure); ok {
					ts = append(ts, mc.Fn.(*ssa.Function))
				}
			}
			for _, t := range ts {
				if a.w.bodyOf(t) && t != f && len(a.lift(t, in, depth+1)) > 0 {
					out = append(out, x)
					break
				}
			}
		}
	}
	return out
}

// joined: before `at`, its function waits for every goroutine body g, whose last act is to signal
func (a *chanAn) joined(at ssa.Instruction, g *ssa.Function) bool {
	for _, b := range at.Parent().Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || calleeFull(&c.Call) != "(*sync.WaitGroup).Wait" || !domInstr(in, at) {
				continue
			}
			wg := a.wgOf(c.Call.Args[0])
			if wg == nil {
				continue
			}
			for _, gb := range g.Blocks {
				for _, gi := range gb.Instrs {
					d, ok := gi.(*ssa.Defer)
					if ok && calleeFull(&d.Call) == "(*sync.WaitGroup).Done" && a.wgOf(d.Call.Args[0]) == wg {
						return true
					}
					if cc, ok := gi.(*ssa.Call); ok && calleeFull(&cc.Call) == "(*sync.WaitGroup).Done" && a.wgOf(cc.Call.Args[0]) == wg {
						return true // order judged with the wait group rule
					}
					if d, ok := gi.(*ssa.Defer); ok {
						if t := goTarget(d); t != nil && a.w.bodyOf(t) && a.callsDone(t, wg) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (a *chanAn) callsDone(t *ssa.Function, wg ssa.Value) bool {
	for _, b := range t.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && calleeFull(c.Common()) == "(*sync.WaitGroup).Done" && a.wgOf(c.Common().Args[0]) == wg {
				return true
			}
		}
	}
	return false
}

// wgOf: the wait group variable behind a pointer
func (a *chanAn) wgOf(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return x
		case *ssa.FreeVar:
			c := a.cellOf(x)
			if len(c) != 1 {
				return nil
			}
			v = c[0].cell
		case *ssa.UnOp:
			cell := x.X
			if fv, ok := cell.(*ssa.FreeVar); ok {
				c := a.cellOf(fv)
				if len(c) != 1 {
					return nil
				}
				cell = c[0].cell
			}
			ss := a.storesTo(cell)
			if len(ss) != 1 {
				return nil
			}
			v = ss[0].Val
		case *ssa.Parameter:
			cs := a.w.callers[x.Parent()]
			var one ssa.Value
			for _, c := range cs {
				for i, p := range x.Parent().Params {
					if p == x && i < len(c.Common().Args) {
						u := a.wgOf(c.Common().Args[i])
						if one != nil && u != one {
							return nil
						}
						one = u
					}
				}
			}
			return one
		default:
			return nil
		}
	}
	return nil
}

func (a *chanAn) sendAfterClose(m *ssa.MakeChan, s, c ssa.Instruction) string {
	sr, cr := a.rootsOf(s.Parent()), a.rootsOf(c.Parent())
	w := a.w
	where := fmt.Sprintf("%s sends at %s, %s closes at %s", fnName(s.Parent()), w.pos(instrPos(s)), fnName(c.Parent()), w.pos(instrPos(c)))
	// the same goroutine: find a function that contains both and compare there
	common := a.commonFns(s, c)
	if len(common) > 0 {
		for _, f := range common {
			for _, sl := range a.lift(f, s, 0) {
				for _, cl := range a.lift(f, c, 0) {
					if why := a.ordered(f, m, sl, cl); why != "" {
						return where + ": " + why
					}
				}
			}
		}
		if sameSet(sr, cr) {
			return ""
		}
	}
	// different goroutines: the closer has to have waited for the sender
	for g := range sr {
		if cr[g] {
			continue
		}
		if a.isRoot(g) && a.joined(c, g) {
			continue
		}
		if a.exclusive(m, g, c.Parent()) || a.exclusive(m, s.Parent(), c.Parent()) {
			continue
		}
		if a.joinedRoot(c, g) {
			continue
		}
		return where + ": the closing goroutine does not wait for the sending one"
	}
	return ""
}

// joinedRoot: the close happens in a helper; its callers waited
func (a *chanAn) joinedRoot(c ssa.Instruction, g *ssa.Function) bool {
	cs := a.w.callers[c.Parent()]
	if len(cs) == 0 {
		return false
	}
	for _, cc := range cs {
		if !a.joined(cc, g) {
			return false
		}
	}
	return true
}

// commonFns: functions whose synchronous execution includes both instructions
func (a *chanAn) commonFns(s, c ssa.Instruction) []*ssa.Function {
	anc := func(in ssa.Instruction) map[*ssa.Function]bool {
		out := map[*ssa.Function]bool{}
		var up func(f *ssa.Function, d int)
		up = func(f *ssa.Function, d int) {
			if out[f] || d > 5 {
				return
			}
			out[f] = true
			for _, cc := range a.w.callers[f] {
				if _, isGo := cc.(*ssa.Go); !isGo {
					up(cc.Parent(), d+1)
				}
			}
			if f.Parent() != nil && !a.isRoot(f) {
				up(f.Parent(), d+1)
			}
		}
		up(in.Parent(), 0)
		return out
	}
	x, y := anc(s), anc(c)
	var out []*ssa.Function
	for f := range x {
		if y[f] {
			out = append(out, f)
		}
	}
	sortBy(out, func(f *ssa.Function) string { return fnName(f) })
	return out
}

// ordered: within f, can the send (or the call making it) run after the close (or the call making it)?
func (a *chanAn) ordered(f *ssa.Function, m *ssa.MakeChan, s, c ssa.Instruction) string {
	if s == c {
		return ""
	}
	_, sd := s.(*ssa.Defer)
	_, cd := c.(*ssa.Defer)
	stop := func(in ssa.Instruction) bool { return in == ssa.Instruction(m) }
	switch {
	case cd && !sd:
		return ""
	case cd && sd:
		// deferred calls run last registered first
		if pathAvoiding(s, c, stop) {
			return "the deferred close runs before the deferred send"
		}
		return ""
	case !cd && sd:
		if pathAvoiding(s, c, stop) || pathAvoiding(c, s, stop) {
			return "the deferred send runs after the close"
		}
		return ""
	default:
		if pathAvoiding(c, s, stop) {
			return "the send is reachable from the close"
		}
		return ""
	}
}

func (a *chanAn) checkWaitGroups() {
	w, r := a.w, a.r
	type wgUse struct{ adds, dones, waits []ssa.CallInstruction }
	use := map[ssa.Value]*wgUse{}
	var order []ssa.Value
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(calleeFull(c.Common()), "(*sync.WaitGroup).") {
					continue
				}
				g := a.wgOf(c.Common().Args[0])
				if g == nil {
					r.Counts["wait groups undecided"]++
					continue
				}
				if use[g] == nil {
					use[g] = &wgUse{}
					order = append(order, g)
				}
				switch calleeMethod(c.Common()) {
				case "Add":
					use[g].adds = append(use[g].adds, c)
				case "Done":
					use[g].dones = append(use[g].dones, c)
				case "Wait":
					use[g].waits = append(use[g].waits, c)
				}
			}
		}
	}
	for _, g := range order {
		u := use[g]
		if len(u.waits) == 0 {
			continue
		}
		r.Counts["wait groups"]++
		f := u.waits[0].Parent()
		key := "join|" + fnName(f)
		for _, d := range u.dones {
			df := d.Parent()
			pos := w.pos(instrPos(d))
			body := df
			site := ssa.Instruction(d)
			deferred := false
			if _, ok := d.(*ssa.Defer); ok {
				deferred = true
			} else if df.Parent() != nil && !a.isRoot(df) {
				// inside a closure the worker defers
				for _, b := range df.Parent().Blocks {
					for _, in := range b.Instrs {
						if dd, ok := in.(*ssa.Defer); ok && goTarget(dd) == df {
							body, site, deferred = df.Parent(), in, true
						}
					}
				}
			}
			if !a.isRoot(body) {
				// started through a named function or a helper; the order inside is still judged
				r.Counts["signals outside a goroutine body"]++
			}
			if df != body {
				if miss := exitAvoiding(df, nil, func(in ssa.Instruction) bool { return a.isDoneOn(in, g) }, nil); miss != nil {
					r.fail(key+"|path", pos, fmt.Sprintf("%s, which is to signal the wait group when its worker ends, can return without doing so (%s)", fnName(df), w.pos(instrPos(miss))))
					continue
				}
			}
			// on every path
			if miss := exitAvoiding(body, nil, func(in ssa.Instruction) bool { return in == site || a.isDoneOn(in, g) }, nil); miss != nil {
				r.fail(key+"|path", pos, fmt.Sprintf("%s can return without signalling the wait group its starter waits for (%s)", fnName(body), w.pos(instrPos(miss))))
				continue
			}
			recovers := false
			bad := ""
			for _, b := range body.Blocks {
				for _, in := range b.Instrs {
					dd, ok := in.(*ssa.Defer)
					if !ok || in == site {
						continue
					}
					t := goTarget(dd)
					if t != nil && a.w.bodyOf(t) {
						for _, tb := range t.Blocks {
							for _, ti := range tb.Instrs {
								if v, ok := ti.(ssa.Value); ok && isRecover(v) {
									recovers = true
								}
							}
						}
					}
					if deferred && pathAvoiding(in, site, nil) && a.touchesOutside(dd) {
						bad = fmt.Sprintf("the deferred call at %s still runs after the signal", w.pos(instrPos(in)))
					}
				}
			}
			if !deferred && recovers {
				bad = "a panic that is recovered skips the signal"
			}
			if !deferred {
				for _, b := range body.Blocks {
					for _, in := range b.Instrs {
						if in != site && pathAvoiding(site, in, nil) {
							switch x := in.(type) {
							case *ssa.Send, *ssa.MapUpdate:
								bad = "the worker goes on after the signal"
							case *ssa.Store:
								if _, local := x.Addr.(*ssa.Alloc); !local {
									bad = "the worker goes on after the signal"
								}
							case *ssa.Call:
								if _, isB := x.Call.Value.(*ssa.Builtin); !isB && !a.isDoneOn(in, g) {
									bad = "the worker goes on after the signal"
								}
							}
						}
					}
				}
			}
			r.check(bad == "", key+"|last", pos, fmt.Sprintf("%s: %s, so the work is not finished when Wait returns", fnName(body), bad))
			// counted before the worker starts
			starts := a.goSites[body]
			for _, gs := range starts {
				okAdd, why := false, "nothing adds to the wait group before the worker is started"
				for _, ad := range u.adds {
					if ad.Parent() == body {
						why = "the worker adds itself to the wait group after it was started"
						continue
					}
					if ad.Parent() != gs.Parent() {
						okAdd = true
						r.Counts["starts undecided"]++
						continue
					}
					if !domInstr(ad, gs) {
						continue
					}
					k, isC := ad.Common().Args[1].(*ssa.Const)
					perStart := !repeatsWithout(gs, func(in ssa.Instruction) bool { return in == ad })
					switch {
					case perStart && isC && k.Int64() == 1 && !repeatsWithout(ad, func(in ssa.Instruction) bool { return in == ssa.Instruction(gs) }):
						okAdd = true
					case perStart && isC:
						why = "the number added for each worker is not one, or the worker is not always started"
					case isC:
						why = "the number added is not the number of workers started"
					default:
						// Add(n) before a loop of n starts
						why = "the number added is not the number of workers started"
						for _, b := range gs.Parent().Blocks {
							br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
							if !ok {
								continue
							}
							if bo, ok := br.Cond.(*ssa.BinOp); ok && bo.Op == token.LSS && sameBound(bo.Y, ad.Common().Args[1]) && counter(bo.X) && b.Dominates(gs.Block()) && pathAvoiding(gs, br, nil) {
								okAdd = true
							}
						}
					}
				}
				r.check(okAdd, key+"|add", w.pos(instrPos(gs)), fmt.Sprintf("%s: %s", fnName(gs.Parent()), why))
			}
		}
		if len(u.dones) == 0 {
			r.fail(key+"|none", w.pos(instrPos(u.waits[0])), fmt.Sprintf("%s waits for a wait group nobody signals", fnName(f)))
		}
	}
}

func (a *chanAn) isDoneOn(in ssa.Instruction, g ssa.Value) bool {
	c, ok := in.(ssa.CallInstruction)
	return ok && calleeFull(c.Common()) == "(*sync.WaitGroup).Done" && a.wgOf(c.Common().Args[0]) == g
}

// touchesOutside: the deferred call uses something that outlives the worker
func (a *chanAn) touchesOutside(d *ssa.Defer) bool {
	if _, ok := d.Call.Value.(*ssa.Builtin); ok {
		return true
	}
	if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
		return len(mc.Bindings) > 0
	}
	for _, x := range d.Call.Args {
		if _, ok := x.(*ssa.Const); !ok {
			return true
		}
	}
	return false
}

// checkCancels: a cancel function is called on every path, or kept in a field that every closing operation clears
func (a *chanAn) checkCancels() {
	w, r := a.w, a.r
	fields := map[string]bool{}
	for _, f := range w.Funcs {
		if !inRepo(fnPkg(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				switch calleeFull(&c.Call) {
				case "context.WithCancel", "context.WithTimeout", "context.WithDeadline":
				default:
					continue
				}
				r.Counts["cancel functions"]++
				key := "cancel|" + fnName(f)
				pos := w.pos(instrPos(in))
				var cv ssa.Value
				for _, ref := range *c.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
						cv = e
					}
				}
				if cv == nil {
					r.fail(key, pos, fnName(f)+" throws the cancel function away: nothing can release what the context holds")
					continue
				}
				fieldStore := false
				for _, ref := range *cv.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Val == cv {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							fieldStore = true
							k := fieldKey(fa.X.Type(), fa.Field)
							fields[k] = true
							ok := a.clearedBefore(st, k)
							r.check(ok, key+"|overwrite", pos, fmt.Sprintf("%s replaces the cancel function of a worker that may still run: that worker can never be stopped", fnName(f)))
						}
					}
				}
				if fieldStore {
					continue
				}
				uses := func(in ssa.Instruction) bool {
					switch x := in.(type) {
					case ssa.CallInstruction:
						if x.Common().Value == cv {
							return true
						}
						for _, arg := range x.Common().Args {
							if arg == cv {
								return true
							}
						}
						if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
							for i, bd := range mc.Bindings {
								if a.holds(bd, cv) || bd == cv {
									_, isGo := in.(*ssa.Go)
									return isGo || a.callsCaptured(mc.Fn.(*ssa.Function), i, 0)
								}
							}
						}
						if u, ok := x.Common().Value.(*ssa.UnOp); ok && a.holds(u.X, cv) {
							return true
						}
					case *ssa.Return:
						for _, v := range x.Results {
							if v == cv {
								return true
							}
							if mc, ok := v.(*ssa.MakeClosure); ok {
								for _, bd := range mc.Bindings {
									if a.holds(bd, cv) || bd == cv {
										return true
									}
								}
							}
						}
					}
					return false
				}
				miss := exitAvoiding(f, in, uses, nil)
				r.check(miss == nil, key, pos, fmt.Sprintf("%s can return without cancelling the context it made: the goroutines started with it keep running", fnName(f)))
			}
		}
	}
	// every closing operation of a type that keeps a cancel function calls it
	for _, f := range w.Funcs {
		sig := f.Signature
		if sig.Recv() == nil || !inRepo(fnPkg(f)) {
			continue
		}
		switch f.Name() {
		case "Close", "EndTest", "Reset", "Stop":
		default:
			continue
		}
		_, st := derefStruct(sig.Recv().Type())
		if st == nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			k := fieldKey(sig.Recv().Type(), i)
			if !fields[k] {
				continue
			}
			r.Counts["closing operations"]++
			r.check(a.cancelsAlways(f, k, 0), "stop|"+fnName(f), w.pos(f.Pos()), fmt.Sprintf("%s can return without stopping the worker: the cancel function kept in %s is not called", fnName(f), k))
		}
	}
}

// callsCaptured: every path through the literal calls (or hands on) the function it captures as free variable i
func (a *chanAn) callsCaptured(f *ssa.Function, i, depth int) bool {
	if depth > 4 || len(f.Blocks) == 0 {
		return false
	}
	fv := f.FreeVars[i]
	is := func(v ssa.Value) bool {
		if v == ssa.Value(fv) {
			return true
		}
		u, ok := v.(*ssa.UnOp)
		return ok && u.X == ssa.Value(fv)
	}
	stop := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if is(c.Common().Value) {
			return true
		}
		for _, arg := range c.Common().Args {
			if is(arg) {
				return true
			}
		}
		if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
			for j, bd := range mc.Bindings {
				if is(bd) {
					return a.callsCaptured(mc.Fn.(*ssa.Function), j, depth+1)
				}
			}
		}
		return false
	}
	return exitAvoiding(f, nil, stop, func(b *ssa.BasicBlock, s int) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return true
		}
		bo, ok := br.Cond.(*ssa.BinOp)
		if !ok || !(is(bo.X) && isNilConst(bo.Y) || is(bo.Y) && isNilConst(bo.X)) {
			return true
		}
		return !(bo.Op == token.EQL && s == 0 || bo.Op == token.NEQ && s == 1)
	}) == nil
}

func (a *chanAn) holds(cell, v ssa.Value) bool {
	for _, s := range a.storesTo(cell) {
		if s.Val == v {
			return true
		}
	}
	return false
}

func isFieldLoad(v ssa.Value, k string) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldKey(fa.X.Type(), fa.Field) == k
}

// nilEdge: taking successor s of b means the field is nil
func nilEdge(b *ssa.BasicBlock, s int, k string) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	if !(isFieldLoad(bo.X, k) && isNilConst(bo.Y) || isFieldLoad(bo.Y, k) && isNilConst(bo.X)) {
		return false
	}
	return bo.Op == token.EQL && s == 0 || bo.Op == token.NEQ && s == 1
}

func (a *chanAn) cancelsAlways(f *ssa.Function, k string, depth int) bool {
	if depth > 4 || len(f.Blocks) == 0 {
		return false
	}
	stop := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		if isFieldLoad(c.Common().Value, k) {
			return true
		}
		if t := goTarget(c); t != nil && a.w.bodyOf(t) {
			return a.cancelsAlways(t, k, depth+1)
		}
		return false
	}
	return exitAvoiding(f, nil, stop, func(b *ssa.BasicBlock, s int) bool { return !nilEdge(b, s, k) }) == nil
}

// clearedBefore: the field is known to be nil, or was just called, when it is overwritten
func (a *chanAn) clearedBefore(st *ssa.Store, k string) bool {
	f := st.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool // true: reaches the store uncleared
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == ssa.Instruction(st) {
				return true
			}
			if c, ok := b.Instrs[i].(ssa.CallInstruction); ok {
				if isFieldLoad(c.Common().Value, k) {
					return false
				}
				if t := goTarget(c); t != nil && a.w.bodyOf(t) && a.cancelsAlways(t, k, 0) {
					return false
				}
			}
		}
		for j, s := range b.Succs {
			if nilEdge(b, j, k) || seen[s] {
				continue
			}
			seen[s] = true
			if walk(s, 0) {
				return true
			}
		}
		return false
	}
	if walk(f.Blocks[0], 0) {
		// a helper: every caller has cleared it
		cs := a.w.callers[f]
		if len(cs) == 0 || f.Object() != nil && f.Object().Exported() {
			return false
		}
		for _, c := range cs {
			if !a.callCleared(c, k) {
				return false
			}
		}
		return true
	}
	return true
}

func (a *chanAn) callCleared(at ssa.CallInstruction, k string) bool {
	f := at.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == ssa.Instruction(at) {
				return true
			}
			if c, ok := b.Instrs[i].(ssa.CallInstruction); ok && isFieldLoad(c.Common().Value, k) {
				return false
			}
		}
		for j, s := range b.Succs {
			if nilEdge(b, j, k) || seen[s] {
				continue
			}
			seen[s] = true
			if walk(s, 0) {
				return true
			}
		}
		return false
	}
	return !walk(f.Blocks[0], 0)
}
