package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Background work hands over its errors and results before it signals its end, and nobody takes the zero value of
// a closed channel for a result.

const (
	hoWorking  = iota // nothing signalled yet
	hoSignaled        // the end was signalled and nothing was handed over since
	hoLate            // something was handed over after the last signal
)

func isErcPush(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || !strings.Contains(typeKey(f.Signature.Recv().Type()), "/erc.Collector") {
		return false
	}
	return f.Name() != "Resolve" && f.Name() != "Ok" && f.Name() != "Len" && f.Signature.Params().Len() > 0
}

func isErcRead(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && f.Signature.Recv() != nil && strings.Contains(typeKey(f.Signature.Recv().Type()), "/erc.Collector") && f.Signature.Results().Len() > 0
}

func isWgCall(c *ssa.CallCommon, name string) bool {
	f := c.StaticCallee()
	return f != nil && f.Name() == name && f.Signature.Recv() != nil && strings.HasSuffix(typeKey(f.Signature.Recv().Type()), "sync.WaitGroup")
}

func isClose(c *ssa.CallCommon) bool {
	b, ok := c.Value.(*ssa.Builtin)
	return ok && b.Name() == "close"
}

// sharedStore: a store to a variable of the enclosing function, or of an error into anything that is not local
func sharedStore(x *ssa.Store) bool {
	if _, ok := x.Addr.(*ssa.FreeVar); ok {
		return true
	}
	if !types.Identical(x.Val.Type(), types.Universe.Lookup("error").Type()) {
		return false
	}
	switch x.Addr.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
		_, local := rootAddr(x.Addr).(*ssa.Alloc)
		return !local
	}
	return false
}

func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// callersOf: the functions of the repository that satisfy is or call one that does
func (w *World) callersOf(is func(in ssa.Instruction) bool) map[*ssa.Function]bool {
	hit := map[*ssa.Function]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if is(in) {
					hit[f] = true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, g := in.(*ssa.Go); g {
						continue
					}
					if g := c.Common().StaticCallee(); g != nil {
						calls[f] = append(calls[f], g)
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for f, gs := range calls {
			if hit[f] {
				continue
			}
			for _, g := range gs {
				if hit[g] {
					hit[f], again = true, true
				}
			}
		}
	}
	return hit
}

func checkHandover(w *World, r *Report) {
	r.Rule = "in every goroutine body, on every path (deferred calls where they run): after the last signal of its end (close of a channel, WaitGroup.Done) no error is pushed to a collector and no captured variable or error is stored; the function that starts it reads what it hands over only after waiting for it; the value received from a channel is used only when the channel is not closed (tested), cannot be closed, or is only ever closed after a value was sent"
	r.Assumptions = []string{"a collector of errors is an erc.Collector of github.com/tychoish/fun"}
	a := &chanAn{w: w, r: r, makes: map[*ssa.MakeChan]*chanInfo{}, cells: map[ssa.Value][]*ssa.Store{}, fstores: map[string][]*ssa.Store{},
		cache: map[ssa.Value]*origins{}, goSites: map[*ssa.Function][]*ssa.Go{}, roots: map[*ssa.Function]map[*ssa.Function]bool{}, senders: map[*ssa.MakeChan]map[*ssa.Function]bool{}}
	a.collect()
	interesting := w.callersOf(func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case ssa.CallInstruction:
			return isErcPush(x.Common()) || isWgCall(x.Common(), "Done") || isClose(x.Common())
		case *ssa.Store:
			return sharedStore(x)
		}
		return false
	})
	seen := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !inRepo(fnPkg(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				t := goTarget(g)
				if t == nil || len(t.Blocks) == 0 {
					continue
				}
				if !seen[t] {
					seen[t] = true
					handsOver(w, r, t, interesting)
				}
				readsEarly(w, r, g, t)
			}
		}
	}
	nth := map[string]int{}
	for _, m := range a.order {
		a.checkClosedRecv(a.makes[m], nth)
	}
	readers := w.callersOf(func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && isErcRead(&c.Call)
	})
	for _, f := range w.Funcs {
		if inRepo(fnPkg(f)) {
			askedTooEarly(w, r, f, readers)
		}
	}
	r.min("goroutine bodies", 6)
	r.min("receives", 4)
}

func handsOver(w *World, r *Report, t *ssa.Function, interesting map[*ssa.Function]bool) {
	p := newPathRun(w)
	bad := map[string]ssa.Instruction{}
	last := map[*pstate]ssa.Instruction{}
	_ = last
	var late ssa.Instruction
	signals, hands := 0, 0
	p.enter = func(f *ssa.Function) bool { return interesting[f] }
	p.onCall = func(st *pstate, in ssa.CallInstruction, fn pval, args []pval) ([]pout, bool) {
		c := in.Common()
		switch {
		case isClose(c) || isWgCall(c, "Done"):
			signals++
			return []pout{{hoSignaled, pval{}, st.cells}}, true
		case isErcPush(c):
			hands++
			m := st.mode
			if m == hoSignaled {
				m, late = hoLate, in
			}
			return []pout{{m, pval{}, st.cells}}, true
		case isRecoverCall(c):
			return []pout{{st.mode, pval{}, st.cells}}, true
		}
		return nil, false
	}
	p.onStore = func(st *pstate, x *ssa.Store) {
		if sharedStore(x) {
			hands++
			if st.mode == hoSignaled {
				st.mode, late = hoLate, x
			}
		}
	}
	outs := p.run(t, nil, nil, &pstate{mode: hoWorking}, 0)
	for _, o := range outs {
		if o.mode == hoLate {
			bad["late"] = late
		}
	}
	r.Counts["goroutine bodies"]++
	r.Counts["signals"] += signals
	r.Counts["results handed over"] += hands
	key := "handover|" + fnName(t)
	switch {
	case len(bad) > 0:
		in := bad["late"]
		r.fail(key, w.pos(instrPos(in)), fmt.Sprintf("%s: the goroutine has already signalled its end when it hands this over: whoever waits for it can miss it", fnName(t)))
	case p.lost != "":
		r.Counts["undecided"]++
		if os.Getenv("AN_DUMP") != "" {
			fmt.Println("UNDECIDED", fnName(t), p.lost)
		}
	default:
		r.ok(key)
	}
}

func isRecoverCall(c *ssa.CallCommon) bool {
	b, ok := c.Value.(*ssa.Builtin)
	return ok && b.Name() == "recover"
}

// readsEarly: the starter of a goroutine reads what the goroutine writes without having waited
func readsEarly(w *World, r *Report, g *ssa.Go, t *ssa.Function) {
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}
	waits := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.UnOp:
			return x.Op == token.ARROW
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.RecvOnly {
					return true
				}
			}
		case *ssa.MakeChan:
			return false
		case *ssa.Alloc: // a new variable of the next round
			for _, b := range mc.Bindings {
				if b == ssa.Value(x) {
					return true
				}
			}
		case ssa.CallInstruction:
			if _, d := in.(*ssa.Defer); d {
				return false
			}
			f := x.Common().StaticCallee()
			if x.Common().IsInvoke() && strings.HasPrefix(x.Common().Method.Name(), "Wait") {
				return true
			}
			return f != nil && strings.HasPrefix(f.Name(), "Wait") || f != nil && f.Name() == "Lock"
		}
		return false
	}
	for i, fv := range t.FreeVars {
		cell, ok := mc.Bindings[i].(*ssa.Alloc)
		if !ok || !writtenBy(t, fv, 0) {
			continue
		}
		r.Counts["shared variables"]++
		key := fmt.Sprintf("early|%s|%s", fnName(g.Parent()), fv.Name())
		var at ssa.Instruction
		for _, ref := range *cell.Referrers() {
			read := false
			switch x := ref.(type) {
			case *ssa.UnOp:
				read = x.Op == token.MUL
			case *ssa.Call:
				read = isErcRead(x.Common()) && len(x.Call.Args) > 0 && x.Call.Args[0] == ssa.Value(cell)
			}
			if read && pathAvoiding(g, ref, waits) {
				at = ref
			}
		}
		if at != nil {
			r.fail(key, w.pos(instrPos(at)), fmt.Sprintf("%s reads %s, which the goroutine it started may still be writing, without waiting for it", fnName(g.Parent()), fv.Name()))
		} else {
			r.ok(key)
		}
	}
}

// writtenBy: the body (or a closure of it) stores to the captured variable or pushes to it
func writtenBy(f *ssa.Function, fv *ssa.FreeVar, depth int) bool {
	if depth > 4 || fv.Referrers() == nil {
		return false
	}
	for _, ref := range *fv.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(fv) {
				return true
			}
		case ssa.CallInstruction:
			if isErcPush(x.Common()) && len(x.Common().Args) > 0 && x.Common().Args[0] == ssa.Value(fv) {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if g := x.Fn.(*ssa.Function); b == ssa.Value(fv) && writtenBy(g, g.FreeVars[i], depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// checkClosedRecv: what is received from a channel that can be closed is a value somebody sent
func (a *chanAn) checkClosedRecv(ci *chanInfo, nth map[string]int) {
	w, r := a.w, a.r
	for _, rc := range ci.recvs {
		f := rc.in.Parent()
		if !inRepo(fnPkg(f)) {
			continue
		}
		val, tested := recvValue(rc)
		if val == nil || tested {
			if val != nil {
				r.Counts["receives"]++
				if at := usedClosed(rc, val); at != nil && len(ci.closes) > 0 {
					r.fail("recv|"+fnName(f), w.pos(instrPos(at)), fmt.Sprintf("%s uses the value of a receive on a path on which it found the channel closed, without having put anything in its place", fnName(f)))
				} else {
					r.ok("recv|" + fnName(f))
				}
			}
			continue
		}
		r.Counts["receives"]++
		key := fmt.Sprintf("recv|%s|%s|%d", fnName(f), strings.TrimPrefix(typeKey(ci.mk.Type()), modPath), nth[fnName(f)])
		nth[fnName(f)]++
		if len(ci.closes) == 0 || nilTested(val) {
			if at := usedNil(rc, val); at != nil && len(ci.closes) > 0 {
				r.fail(key, w.pos(instrPos(at)), fmt.Sprintf("%s uses a received value on a path on which it is nil, as it is when the channel is closed", fnName(f)))
				continue
			}
			r.ok(key)
			continue
		}
		bad := ""
		if repeatsWithout(rc.in, func(in ssa.Instruction) bool { return in == ssa.Instruction(ci.mk) }) && f == ci.mk.Parent() {
			bad = "it is received from again after the values are used up"
		}
		for _, c := range ci.closes {
			lost, ok := a.sendsFirst(ci, c.in)
			if lost {
				r.Counts["undecided"]++
			} else if !ok {
				bad = fmt.Sprintf("%s can close it without having sent anything", fnName(c.in.Parent()))
			}
		}
		if bad != "" && zeroTested(val) {
			r.Counts["undecided"]++
			continue
		}
		if bad != "" {
			r.fail(key, w.pos(instrPos(rc.in)), fmt.Sprintf("%s uses a received value without testing whether the channel is closed: %s", fnName(f), bad))
		} else {
			r.ok(key)
		}
	}
}

// recvValue: the received value (nil when it is not used) and whether the closed state is looked at
func recvValue(rc chanOp) (ssa.Value, bool) {
	used := func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			if _, ok := ref.(*ssa.DebugRef); !ok {
				return true
			}
		}
		return false
	}
	if rc.sel == nil {
		u := rc.in.(*ssa.UnOp)
		if !u.CommaOk {
			if used(u) {
				return u, false
			}
			return nil, false
		}
		var v ssa.Value
		ok := false
		for _, ref := range *u.Referrers() {
			if e, is := ref.(*ssa.Extract); is && used(e) {
				if e.Index == 0 {
					v = e
				} else {
					ok = true
				}
			}
		}
		return v, ok
	}
	ix := 2
	for i, s := range rc.sel.States {
		if i == rc.ix {
			break
		}
		if s.Dir == types.RecvOnly {
			ix++
		}
	}
	var v ssa.Value
	ok := false
	for _, ref := range *rc.sel.Referrers() {
		if e, is := ref.(*ssa.Extract); is && used(e) {
			if e.Index == ix {
				v = e
			} else if e.Index == 1 {
				// one flag for all arms: it counts for this one when it is looked at in its arm
				for _, q := range *e.Referrers() {
					if arm := selectArm(rc.sel, rc.ix); arm != nil && q.Block() != nil && (q.Block() == arm || arm.Dominates(q.Block())) {
						ok = true
					}
				}
			}
		}
	}
	return v, ok
}

// usesOf: the first things done with the content of v after a receive, along paths the edge filter allows; a value
// put in its place ends the path
func firstUse(rc chanOp, v ssa.Value, edge func(br *ssa.If, s int) bool) ssa.Instruction {
	cells := map[ssa.Value]bool{}
	vals := map[ssa.Value]bool{v: true}
	for _, ref := range *v.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Val == v {
			if al, ok := st.Addr.(*ssa.Alloc); ok {
				cells[al] = true
				for _, l := range *al.Referrers() {
					if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
						vals[u] = true
					}
				}
			}
		}
	}
	start, from := rc.in.Block(), instrIndex(rc.in)+1
	if rc.sel != nil {
		arm := selectArm(rc.sel, rc.ix)
		if arm == nil {
			return nil
		}
		start, from = arm, 0
	}
	type at struct {
		b *ssa.BasicBlock
		k string
	}
	seen := map[at]bool{}
	var walk func(b *ssa.BasicBlock, i int, killed map[int]bool) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int, killed map[int]bool) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					break
				}
				if vals[x.X] {
					return x
				}
				if fa, ok := x.X.(*ssa.FieldAddr); ok && cells[fa.X] {
					if killed[fa.Field] {
						return nil
					}
					return x
				}
			case *ssa.Field:
				if vals[x.X] {
					return x
				}
			case *ssa.FieldAddr:
				if vals[x.X] {
					return x
				}
			case *ssa.Store:
				if cells[x.Addr] && x.Val != v {
					return nil
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && cells[fa.X] {
					n := map[int]bool{fa.Field: true}
					for k := range killed {
						n[k] = true
					}
					killed = n
				}
			case ssa.CallInstruction:
				c := x.Common()
				if c.IsInvoke() && vals[c.Value] {
					return b.Instrs[i]
				}
				if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 && vals[c.Args[0]] {
					return b.Instrs[i]
				}
			}
			if i > 0 && b.Instrs[i] == rc.in {
				return nil
			}
		}
		br, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for j, s := range b.Succs {
			if br != nil && !edge(br, j) {
				continue
			}
			k := at{s, fmt.Sprint(killed)}
			if seen[k] || s == rc.in.Block() {
				continue
			}
			seen[k] = true
			if in := walk(s, 0, killed); in != nil {
				return in
			}
		}
		return nil
	}
	return walk(start, from, nil)
}

// usedClosed: a use of the received value on a path on which the flag of the receive was found false
func usedClosed(rc chanOp, v ssa.Value) ssa.Instruction {
	var okv ssa.Value
	var tuple ssa.Value
	if rc.sel != nil {
		tuple = rc.sel
	} else {
		tuple = rc.in.(ssa.Value)
	}
	for _, ref := range *tuple.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
			if okv != nil {
				return nil
			}
			okv = e
		}
	}
	if okv == nil {
		return nil
	}
	not := map[ssa.Value]bool{}
	for _, ref := range *okv.Referrers() {
		switch x := ref.(type) {
		case *ssa.If, *ssa.DebugRef:
		case *ssa.UnOp:
			not[x] = true
			for _, q := range *x.Referrers() {
				if _, ok := q.(*ssa.If); !ok {
					return nil
				}
			}
		default:
			return nil // remembered, returned or joined with something else
		}
	}
	return firstUse(rc, v, func(br *ssa.If, s int) bool {
		switch {
		case br.Cond == okv:
			return s == 1
		case not[br.Cond]:
			return s == 0
		}
		return true
	})
}

// usedNil: a use of the received value on a path on which it was not found to be other than nil
func usedNil(rc chanOp, v ssa.Value) ssa.Instruction {
	vals := map[ssa.Value]bool{v: true}
	direct := false
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.BinOp:
			direct = direct || isNilConst(x.X) || isNilConst(x.Y)
		case *ssa.Store:
			al, ok := x.Addr.(*ssa.Alloc)
			if !ok {
				continue
			}
			direct = true
			for _, l := range *al.Referrers() {
				if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
					vals[u] = true
				}
			}
		}
	}
	if _, ok := v.Type().Underlying().(*types.Struct); ok || !direct {
		return nil
	}
	return firstUse(rc, v, func(br *ssa.If, s int) bool {
		bo, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			if _, call := br.Cond.(*ssa.Call); call {
				return true
			}
			_, phi := br.Cond.(*ssa.Phi)
			return !phi
		}
		if !(vals[bo.X] && isNilConst(bo.Y) || vals[bo.Y] && isNilConst(bo.X)) {
			return true
		}
		return bo.Op == token.EQL && s == 0 || bo.Op == token.NEQ && s == 1
	})
}

// nilTested: the value is compared with nil before anything else is done with it
func nilTested(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.BinOp:
			for _, y := range []ssa.Value{x.X, x.Y} {
				if c, ok := y.(*ssa.Const); ok && c.Value == nil {
					return true
				}
			}
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, l := range *al.Referrers() {
					if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL && nilTested(u) {
						return true
					}
				}
			}
		case *ssa.Phi:
			if nilTested(x) {
				return true
			}
		}
	}
	return false
}

// zeroTested: a field of the value is compared with a constant other than zero, so the zero value may be told apart
func zeroTested(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Field:
			for _, q := range *x.Referrers() {
				b, ok := q.(*ssa.BinOp)
				if !ok {
					continue
				}
				for _, y := range []ssa.Value{b.X, b.Y} {
					if c, ok := y.(*ssa.Const); ok && c.Value != nil && !c.IsNil() && c.Value.ExactString() != "0" && c.Value.ExactString() != "false" {
						return true
					}
				}
			}
			if isBoolT(x.Type()) {
				return true
			}
		case *ssa.Store:
			al, ok := x.Addr.(*ssa.Alloc)
			if !ok || x.Val != v {
				continue
			}
			for _, l := range *al.Referrers() {
				if fa, ok := l.(*ssa.FieldAddr); ok {
					for _, q := range *fa.Referrers() {
						if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL {
							if isBoolT(u.Type()) {
								return true
							}
							for _, q2 := range *u.Referrers() {
								if b, ok := q2.(*ssa.BinOp); ok {
									for _, y := range []ssa.Value{b.X, b.Y} {
										if c, ok := y.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() != "0" {
											return true
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

func isBoolT(t types.Type) bool { return types.Identical(t.Underlying(), types.Typ[types.Bool]) }

// sendsFirst: on every path of the goroutine (or function) that closes the channel a send comes before the close
func (a *chanAn) sendsFirst(ci *chanInfo, cl ssa.Instruction) (lost, ok bool) {
	f := cl.Parent()
	// the closing happens in the function itself or in a closure it defers
	root := f
	for _, mc := range a.closuresOf(f) {
		for _, ref := range *mc.Referrers() {
			if _, d := ref.(*ssa.Defer); d {
				root = mc.Parent()
			}
		}
	}
	p := newPathRun(a.w)
	bad := false
	is := func(v ssa.Value) bool { return a.origin(v).makes[ci.mk] }
	touch := a.w.callersOf(func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Send:
			return is(x.Chan)
		case ssa.CallInstruction:
			return isClose(x.Common()) && is(x.Common().Args[0])
		}
		return false
	})
	p.enter = func(g *ssa.Function) bool { return touch[g] }
	p.onCall = func(st *pstate, in ssa.CallInstruction, fn pval, args []pval) ([]pout, bool) {
		if isClose(in.Common()) && is(in.Common().Args[0]) {
			if st.mode == 0 && ssa.Instruction(in) == cl {
				bad = true
			}
			return []pout{{st.mode, pval{}, st.cells}}, true
		}
		return nil, false
	}
	p.onInstr = func(st *pstate, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Send:
			if is(x.Chan) {
				st.mode = 1
			}
		}
	}
	p.selectSend = func(x *ssa.Select, i int) bool { return is(x.States[i].Chan) }
	p.run(root, nil, nil, &pstate{}, 0)
	if bad {
		return false, false
	}
	return p.lost != "", true
}

// askedTooEarly: something that gives its items in a loop is asked for its errors before the loop and not after it
func askedTooEarly(w *World, r *Report, f *ssa.Function, readers map[*ssa.Function]bool) {
	type site struct {
		obj ssa.Value
		at  ssa.Instruction
	}
	var asks, loops []site
	see := func(g *ssa.Function, in ssa.Instruction) (obj ssa.Value, ask, loop bool) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil, false, false
		}
		m := c.Common().StaticCallee()
		if m == nil || m.Signature.Recv() == nil || len(c.Common().Args) != 1 || m.Signature.Results().Len() != 1 {
			return nil, false, false
		}
		res := m.Signature.Results().At(0).Type()
		o := m
		if o.Origin() != nil {
			o = o.Origin()
		}
		if !inRepo(fnPkg(o)) {
			return nil, false, false
		}
		obj = sharedRoot(c.Common().Args[0])
		if isErrT(res) {
			return obj, readers[m] || readers[o] || asksDirectly(m) || asksDirectly(o), false
		}
		sig, ok := res.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
			return nil, false, false
		}
		y, ok := sig.Params().At(0).Type().Underlying().(*types.Signature)
		return obj, false, ok && y.Results().Len() == 1 && isBool(y.Results().At(0).Type())
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			obj, ask, loop := see(f, in)
			if obj == nil {
				continue
			}
			if ask {
				if _, d := in.(*ssa.Defer); d {
					return // asked at the end
				}
				asks = append(asks, site{obj, in})
			}
			if loop {
				loops = append(loops, site{obj, in})
			}
		}
	}
	for _, l := range loops {
		r.Counts["loops over background work"]++
		for _, a := range asks {
			if a.obj != l.obj || !reachesInstr(a.at, l.at) {
				continue
			}
			again := false
			for _, a2 := range asks {
				again = again || a2.obj == l.obj && reachesInstr(l.at, a2.at)
			}
			// in a deferred or nested function
			for _, g := range f.AnonFuncs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if _, ask, _ := see(g, in); ask {
							again = true
						}
					}
				}
			}
			if !again {
				r.fail("early|"+fnName(f), w.pos(instrPos(a.at)), fmt.Sprintf("%s asks for the errors before the loop that makes them (%s), and not after it", fnName(f), w.pos(instrPos(l.at))))
				return
			}
		}
		r.ok("early|" + fnName(f))
	}
}

// sharedRoot: the variable a value is read from, else the value
func sharedRoot(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

// reachesInstr: b can run after a
func reachesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

func asksDirectly(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && (isErcRead(&c.Call) || strings.HasSuffix(calleeFull(&c.Call), "/erc.Collector).Resolve")) {
				return true
			}
		}
	}
	return false
}
