package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Collectors: what was collected is forgotten only once it is completely written, and a chunk holds samples of one
// schema only.

type collectAn struct {
	w     *World
	r     *Report
	iface *types.Interface
	hash  map[*ssa.Function]bool
}

func (a *collectAn) isColl(t types.Type) bool {
	if t == nil || a.iface == nil {
		return false
	}
	return types.Implements(t, a.iface) || types.Implements(types.NewPointer(t), a.iface)
}

// method: the call is of this method of a collector; the receiver's value among the arguments
func (a *collectAn) method(c *ssa.CallCommon) (string, types.Type) {
	if c.IsInvoke() {
		if a.isColl(c.Value.Type()) {
			return c.Method.Name(), c.Value.Type()
		}
		return "", nil
	}
	if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && a.isColl(f.Signature.Recv().Type()) {
		return f.Name(), f.Signature.Recv().Type()
	}
	return "", nil
}

var notNil = pconst("!nil")

func isErrMaker(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf")
}

func isWriterCall(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		m := c.Method
		s := m.Type().(*types.Signature)
		return m.Name() == "Write" && s.Params().Len() == 1 && isByteSlice(s.Params().At(0).Type()) && s.Results().Len() == 2
	}
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	n := f.Pkg.Pkg.Path() + "." + f.Name()
	if r := f.Signature.Recv(); r != nil && f.Name() == "Write" && strings.HasSuffix(typeKey(r.Type()), "bytes.Buffer") {
		return true
	}
	return n == "io/ioutil.WriteFile" || n == "os.WriteFile" || n == "os.Write" || f.Pkg.Pkg.Path() == "bufio" && f.Name() == "Write"
}

func errOnly(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// results: a successful and a failed outcome of a call with these results, the error last
func errOutcomes(sig *types.Signature) (good, bad pval) {
	n := sig.Results().Len()
	if n == 1 {
		return pconst("nil"), notNil
	}
	good, bad = pval{k: 't'}, pval{k: 't'}
	for i := 0; i < n-1; i++ {
		good.bind, bad.bind = append(good.bind, pval{}), append(bad.bind, pval{})
	}
	good.bind, bad.bind = append(good.bind, pconst("nil")), append(bad.bind, notNil)
	return
}

// flushes: the typestate of writing a collector out

const (
	fcIdle = iota
	fcPending
	fcWritten
	fcFailed
)

func (a *collectAn) flush(f *ssa.Function, touch map[*ssa.Function]bool, forgets bool) {
	w, r := a.w, a.r
	p := newPathRun(w)
	bad := map[string]ssa.Instruction{}
	resets, writes := 0, 0
	p.enter = func(g *ssa.Function) bool { return touch[g] && g != f }
	p.onCall = func(st *pstate, in ssa.CallInstruction, fn pval, args []pval) ([]pout, bool) {
		c := in.Common()
		m, _ := a.method(c)
		switch {
		case m == "Resolve":
			if st.mode == fcPending {
				bad["drops the samples of a collector and goes on to the next"] = in
			}
			g, b := errOutcomes(c.Signature())
			if g.k != 't' {
				return nil, false
			}
			g.bind[0] = pval{k: 'h', c: "payload"}
			return []pout{{fcPending, g, st.cells}, {fcIdle, b, st.cells}}, true
		case m == "Reset":
			resets++
			switch st.mode {
			case fcPending:
				bad["resets the collector before its samples are written"] = in
			case fcFailed:
				bad["resets the collector though its samples could not be written"] = in
			}
			return []pout{{fcIdle, pval{}, st.cells}}, true
		case m != "":
			return []pout{{st.mode, pval{}, st.cells}}, true
		case isErrMaker(c):
			return []pout{{st.mode, notNil, st.cells}}, true
		case isWriterCall(c) && st.mode == fcPending:
			writes++
			g, b := errOutcomes(c.Signature())
			if !c.IsInvoke() && strings.HasPrefix(c.StaticCallee().String(), "(*bytes.Buffer)") {
				return []pout{{fcWritten, g, st.cells}}, true
			}
			return []pout{{fcWritten, g, st.cells}, {fcFailed, b, st.cells}}, true
		}
		if g := c.StaticCallee(); st.mode == fcPending && (g == nil || !inRepo(fnPkg(g))) {
			for _, v := range args {
				if b, ok := c.Value.(*ssa.Builtin); v.k == 'h' && !(ok && (b.Name() == "len" || b.Name() == "cap")) {
					writes++ // put somewhere
					return []pout{{fcWritten, pval{}, st.cells}}, true
				}
			}
		}
		return nil, false
	}
	p.onStore = func(st *pstate, x *ssa.Store) {
		if a.isColl(x.Val.Type()) && forgets {
			_, local := x.Addr.(*ssa.Alloc)
			if _, isCall := x.Val.(*ssa.Call); isCall && !local { // a new collector takes the place of the old
				resets++
				switch st.mode {
				case fcPending:
					bad["replaces the collector before its samples are written"] = x
				case fcFailed:
					bad["replaces the collector though its samples could not be written"] = x
				}
				st.mode = fcIdle
			}
		}
		if p.val(st, x.Val).k == 'h' && st.mode == fcPending {
			if _, local := x.Addr.(*ssa.Alloc); !local {
				writes++
				st.mode = fcWritten
			}
		}
	}
	outs := p.run(f, nil, nil, &pstate{}, 0)
	for _, o := range outs {
		ret := o.ret
		if ret.k == 't' && len(ret.bind) > 0 {
			ret = ret.bind[len(ret.bind)-1]
		}
		if ret.k != 'c' || ret.c != "nil" {
			continue
		}
		if o.ret.k == 't' && o.ret.bind[0].k == 'h' {
			writes++
			continue
		}
		if o.mode == fcPending {
			bad["reports success though it never writes the samples it took"] = f.Blocks[0].Instrs[0]
		}
		if o.mode == fcWritten && forgets {
			bad["reports success and keeps the samples it has written, which are written again"] = f.Blocks[0].Instrs[0]
		}
	}
	key := "flush|" + fnName(f)
	switch {
	case p.lost == "" && len(bad) > 0:
		var ms []string
		for m := range bad {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		r.fail(key, w.pos(instrPos(bad[ms[0]])), fmt.Sprintf("%s %s", fnName(f), strings.Join(ms, "; ")))
	case p.lost != "" || forgets && resets == 0 && !a.keeps(f) || writes == 0:
		r.Counts["undecided"]++
		if os.Getenv("AN_DUMP") != "" {
			fmt.Println("UNDECIDED flush", fnName(f), p.lost, resets, writes)
		}
	default:
		r.Counts["flushes"]++
		r.ok(key)
	}
}

// schema: the Add method of a collector that compares the schema of a sample with that of its chunk

const (
	scEmpty = 1 << iota
	scAdded
	scWritten
)

func (a *collectAn) isHash(f *ssa.Function) bool { return a.hash[f] }

// hashFns: functions that make one comparable value of a document, by way of a hash
func (a *collectAn) hashFns() {
	a.hash = map[*ssa.Function]bool{}
	reach := a.w.callersOf(func(in ssa.Instruction) bool {
		v, ok := in.(ssa.Value)
		if !ok {
			return false
		}
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && c.Common().StaticCallee().Pkg != nil && strings.HasPrefix(c.Common().StaticCallee().Pkg.Pkg.Path(), "hash/") && v.Type() != nil
	})
	for f := range reach {
		if f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 || !inPkg(f, ftdcPath) {
			continue
		}
		doc := false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			doc = doc || strings.HasSuffix(typeKey(f.Signature.Params().At(i).Type()), "birch.Document")
		}
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && doc {
			a.hash[f] = true
		}
	}
}

func (a *collectAn) schema(f *ssa.Function, emptyWhenUnset bool) (lost string, bad map[string]ssa.Instruction, adds int) {
	w := a.w
	p := newPathRun(w)
	p.objects = true
	bad = map[string]ssa.Instruction{}
	self := "self"
	selfT := f.Params[0].Type()
	// the equality of two tracked values splits the state
	replace := func(st *pstate, from, to pval) *pstate {
		n := st.clone()
		for k, v := range n.cells {
			if v.k == from.k && v.c == from.c {
				n.cells[k] = to
			}
		}
		for k, v := range n.env {
			if v.k == from.k && v.c == from.c {
				n.env[k] = to
			}
		}
		return n
	}
	p.onBin = func(st *pstate, x *ssa.BinOp, l, r pval) ([]*pstate, bool) {
		if r.k == 's' && l.k != 's' || r.k == 'h' && l.k == 'c' {
			l, r = r, l
		}
		eq := x.Op == token.EQL
		switch x.Op {
		case token.EQL, token.NEQ:
			switch {
			case l.k == 'h' && r.k == 'h':
				st.env[x] = pbool(eq)
				return []*pstate{st}, true
			case l.k == 'h' && r.k == 'c':
				st.env[x] = pbool(!eq)
				return []*pstate{st}, true
			case l.k == 's' && r.k == 'h':
				t := replace(st, l, pval{k: 'h', c: "tested"})
				t.env[x] = pbool(eq)
				st.env[x] = pbool(!eq)
				return []*pstate{t, st}, true
			case l.k == 's' && r.k == 'c' && strings.HasPrefix(r.c, `"`):
				t := replace(st, l, r)
				t.env[x] = pbool(eq)
				if emptyWhenUnset && r.c == `""` && strings.HasPrefix(l.c, self+".") {
					t.mode |= scEmpty
				}
				st.env[x] = pbool(!eq)
				return []*pstate{t, st}, true
			}
		}
		// a count of samples compared with nothing
		c, isC := x.Y.(*ssa.Const)
		if l.k == 's' && isC && c.Value != nil && isIntT(x.X.Type()) {
			zero := -1 // truth of x that means the count is 0
			switch {
			case c.Value.ExactString() == "0" && (x.Op == token.GTR || x.Op == token.NEQ), c.Value.ExactString() == "1" && x.Op == token.GEQ:
				zero = 0
			case c.Value.ExactString() == "0" && (x.Op == token.EQL || x.Op == token.LEQ), c.Value.ExactString() == "1" && x.Op == token.LSS:
				zero = 1
			}
			if zero >= 0 && a.countLike(l.c) {
				t, e := st.clone(), st
				t.mode |= scEmpty
				t.env[x] = pbool(zero == 1)
				e.env[x] = pbool(zero != 1)
				return []*pstate{t, e}, true
			}
		}
		return nil, false
	}
	isSelf := func(v pval) bool { return v.k == 'o' && v.c == self }
	p.onCall = func(st *pstate, in ssa.CallInstruction, fn pval, args []pval) ([]pout, bool) {
		c := in.Common()
		m, rt := a.method(c)
		if f := c.StaticCallee(); f != nil && a.isHash(f) {
			ret := pval{k: 'h', c: "computed"}
			if f.Signature.Results().Len() > 1 {
				ret = pval{k: 't', bind: []pval{ret}}
			}
			return []pout{{st.mode, ret, st.cells}}, true
		}
		if isErrMaker(c) {
			return []pout{{st.mode, notNil, st.cells}}, true
		}
		if m == "" || len(args) == 0 {
			if g := c.StaticCallee(); g != nil && g.Signature.Recv() == nil && g.Signature.Results().Len() == 1 && a.isColl(g.Signature.Results().At(0).Type()) && a.makesNew(g, 0) {
				return []pout{{st.mode, pval{k: 'o', c: fmt.Sprintf("fresh:%d", in.Pos()), typ: g.Signature.Results().At(0).Type()}, st.cells}}, true
			}
			if isWriterCall(c) {
				g, b := errOutcomes(c.Signature())
				return []pout{{st.mode | scWritten, g, st.cells}, {st.mode, b, st.cells}}, true
			}
			if hasErr(c.Signature()) && !inRepoCall(c) {
				g, b := errOutcomes(c.Signature())
				return []pout{{st.mode, g, st.cells}, {st.mode, b, st.cells}}, true
			}
			return nil, false
		}
		recv := args[0]
		switch m {
		case "Add":
			if isSelf(recv) {
				return nil, false
			}
			adds++
			ok := st.mode&scEmpty != 0 || recv.k == 'o' && strings.HasPrefix(recv.c, "fresh:")
			for id, v := range st.cells {
				if strings.HasPrefix(p.names[id], self+".") && v.k == 'h' && (v.c == "tested" || st.mode&scAdded != 0) {
					ok = true
				}
			}
			if !ok {
				bad["adds the sample to a chunk whose schema it was not found to have"] = in
			}
			g := cloneCells(st.cells)
			if recv.k == 'o' && strings.HasPrefix(recv.c, "fresh:") {
				g[p.named("added:"+recv.c)] = pbool(true)
			}
			return []pout{{st.mode&^scEmpty | scAdded, pconst("nil"), g}, {st.mode, notNil, st.cells}}, true
		case "Info":
			if isSelf(recv) && c.StaticCallee() != nil {
				return nil, false
			}
			return []pout{{st.mode, pval{k: 's', c: "info"}, st.cells}}, true
		case "Resolve":
			g, b := errOutcomes(c.Signature())
			return []pout{{st.mode, g, st.cells}, {st.mode, b, st.cells}}, true
		case "Reset":
			if st.mode&(scEmpty|scWritten) == 0 {
				bad["resets the collector though its samples are not written"] = in
			}
			st.mode = st.mode&^scWritten | scEmpty
			if isSelf(recv) {
				t := c.StaticCallee()
				if t == nil {
					t = w.Prog.LookupMethod(selfT, c.Method.Pkg(), "Reset")
				}
				if t == nil || len(t.Blocks) == 0 {
					return nil, false
				}
				return p.run(t, args, nil, st, 2), true
			}
			_ = rt
			return []pout{{st.mode, pval{}, st.cells}}, true
		}
		return nil, false
	}
	p.onStore = func(st *pstate, x *ssa.Store) {
		v := p.val(st, x.Val)
		if v.k == 'o' && strings.HasPrefix(v.c, "fresh:") {
			st.cells[p.named("kept:"+v.c)] = pbool(true)
			if a.isColl(v.typ) {
				st.mode |= scEmpty // it is the chunk that is added to from now on
			}
		}
		if v.k == 'h' {
			if ad := p.val(st, x.Addr); ad.k == 'p' && strings.HasPrefix(p.names[ad.cell], self+".") {
				st.env[x.Val] = pval{k: 'h', c: "stored"}
			}
		}
	}
	outs := p.run(f, []pval{{k: 'o', c: self, typ: selfT}}, nil, &pstate{}, 0)
	known := a.hashFields(f)
	for _, o := range outs {
		var cell pval
		name := ""
		for id, n := range p.names {
			if strings.HasPrefix(n, "added:") && o.cells[id].k == 'c' && o.cells[p.named("kept:"+n[6:])].k == 0 {
				bad["adds the sample to a new chunk that is not kept"] = f.Blocks[0].Instrs[0]
			}
		}
		for id, n := range p.names {
			if known[n[strings.LastIndex(n, ".")+1:]] && strings.HasPrefix(n, self+".") {
				if v, ok := o.cells[id]; ok {
					cell, name = v, n
				}
			}
		}
		if name == "" {
			if o.mode&scAdded != 0 && len(bad) == 0 {
				return "the recorded schema is not found", bad, adds
			}
			continue
		}
		at := f.Blocks[0].Instrs[0]
		unset := cell.k == 'c' && cell.c == `""`
		switch {
		case cell.k == 'u':
			return "the recorded schema is not followed", bad, adds
		case o.mode&scAdded != 0:
			if !(cell.k == 'h' || unset && !emptyWhenUnset) {
				bad["leaves the schema of an earlier chunk recorded after adding a sample with another one"] = at
			}
		case cell.k == 'h' && cell.c != "tested" && o.mode&scEmpty == 0:
			bad["records the schema of a sample that was not added, while the chunk holds samples of another"] = at
		}
	}
	return p.lost, bad, adds
}

func hasErr(s *types.Signature) bool {
	n := s.Results().Len()
	return n > 0 && errOnly(s.Results().At(n-1).Type())
}

func inRepoCall(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && inRepo(fnPkg(f)) && len(f.Blocks) > 0
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// countLike: the symbol is the number of samples a collector holds
func (a *collectAn) countLike(n string) bool {
	if strings.HasPrefix(n, "info.") {
		return strings.Contains(n, "Sample")
	}
	i := strings.LastIndex(n, ".")
	return i >= 0 && a.counters()[strings.TrimSuffix(n[i+1:], "@0")]
}

// counters: names of integer fields of collectors that Add counts up by one and Reset sets to zero
func (a *collectAn) counters() map[string]bool {
	up, zero := map[string]bool{}, map[string]bool{}
	for _, f := range a.w.Funcs {
		if f.Signature.Recv() == nil || !a.isColl(f.Signature.Recv().Type()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isIntT(st.Val.Type()) {
					continue
				}
				if c, ok := st.Val.(*ssa.Const); ok && c.Value.ExactString() == "0" && f.Name() == "Reset" {
					zero[fieldNameOf(fa)] = true
				}
				if bo, ok := st.Val.(*ssa.BinOp); ok && bo.Op == token.ADD && f.Name() == "Add" {
					if c, ok := bo.Y.(*ssa.Const); ok && c.Value.ExactString() == "1" {
						up[fieldNameOf(fa)] = true
					}
				}
			}
		}
	}
	out := map[string]bool{}
	for k := range up {
		if zero[k] {
			out[k] = true
		}
	}
	return out
}

// makesNew: the function returns an object it has just made
func (a *collectAn) makesNew(f *ssa.Function, depth int) bool {
	if depth > 3 || len(f.Blocks) == 0 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			n++
			v := ret.Results[0]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			switch x := v.(type) {
			case *ssa.Alloc:
			case *ssa.Call:
				if x.Call.StaticCallee() == nil || !a.makesNew(x.Call.StaticCallee(), depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return n > 0
}

// hashFields: names of the fields the result of the schema hash is stored in or compared with
func (a *collectAn) hashFields(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	fields := func(v ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = u.X
		}
		if fa, ok := v.(*ssa.FieldAddr); ok {
			out[fieldNameOf(fa)] = true
		}
	}
	var follow func(v ssa.Value, depth int)
	follow = func(v ssa.Value, depth int) {
		if depth > 4 || v.Referrers() == nil {
			return
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Val == v {
					fields(x.Addr)
				}
			case *ssa.BinOp:
				fields(x.X)
				fields(x.Y)
			case *ssa.Phi:
				follow(x, depth+1)
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && inRepo(fnPkg(g)) {
					for i, arg := range x.Common().Args {
						if arg == v && i < len(g.Params) {
							follow(g.Params[i], depth+1)
						}
					}
				}
			}
		}
	}
	for _, g := range a.w.Funcs {
		if !inPkg(g, ftdcPath) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !a.hash[c.Call.StaticCallee()] {
					continue
				}
				if c.Call.StaticCallee().Signature.Results().Len() == 1 {
					follow(c, 0)
					continue
				}
				for _, ref := range *c.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
						follow(e, 0)
					}
				}
			}
		}
	}
	return out
}

func checkCollectors(w *World, r *Report) {
	r.Rule = "flush functions: on every path Reset follows Resolve only after a write of the payload returned no error, and success is reported only after Reset; Add of a collector that hashes schemas: on every path the sample goes to a chunk that is empty or whose recorded schema equals the sample's, and afterwards the recorded schema is that of the chunk"
	r.Assumptions = []string{"a writer that returns no error has written everything", "equal schema hashes mean equal schemas"}
	a := &collectAn{w: w, r: r}
	if p := w.Pkgs[ftdcPath]; p != nil {
		if o, ok := p.Types.Scope().Lookup("Collector").(*types.TypeName); ok {
			a.iface, _ = o.Type().Underlying().(*types.Interface)
		}
	}
	a.hashFns()
	is := func(name string) map[*ssa.Function]bool {
		return w.callersOf(func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			m, _ := a.method(c.Common())
			return m == name
		})
	}
	resolves, resets := is("Resolve"), is("Reset")
	writes := w.callersOf(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && isWriterCall(c.Common())
	})
	touch := map[*ssa.Function]bool{}
	for _, m := range []map[*ssa.Function]bool{resolves, resets, writes} {
		for f := range m {
			if inRepo(fnPkg(f)) {
				touch[f] = true
			}
		}
	}
	both := func(f *ssa.Function) bool { return resolves[f] && resets[f] && inRepo(fnPkg(f)) }
	for _, f := range w.Funcs {
		if !both(f) {
			continue
		}
		low := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && both(g) {
						low = false
					}
				}
			}
		}
		if low {
			a.flush(f, touch, true)
		}
	}
	for _, f := range w.Funcs {
		if f.Name() == "Resolve" && resolves[f] && !resets[f] && inRepo(fnPkg(f)) && f.Signature.Recv() != nil && a.isColl(f.Signature.Recv().Type()) && f.Synthetic == "" {
			a.flush(f, touch, false)
		}
	}
	for _, f := range w.Funcs {
		if resolves[f] && !resets[f] && inRepo(fnPkg(f)) && a.keeps(f) && !a.resetAbove(f, resets, map[*ssa.Function]bool{}) {
			a.flush(f, touch, true)
		}
	}
	for _, f := range w.Funcs {
		if inRepo(fnPkg(f)) {
			a.skips(f)
		}
	}
	a.sameKind()
	hashes := w.callersOf(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && a.hash[c.Common().StaticCallee()]
	})
	for _, f := range w.Funcs {
		if f.Name() != "Add" || f.Signature.Recv() == nil || !a.isColl(f.Signature.Recv().Type()) || !hashes[f] || !inPkg(f, ftdcPath) || len(f.Blocks) == 0 {
			continue
		}
		a.forgetsSchema(f)
		lost, bad, adds := a.schema(f, true)
		if lost == "" && len(bad) > 0 {
			lost2, bad2, adds2 := a.schema(f, false)
			if lost2 != "" || len(bad2) == 0 {
				lost, bad, adds = lost2, bad2, adds2
			}
		}
		key := "schema|" + fnName(f)
		switch {
		case lost != "" || adds == 0:
			r.Counts["undecided"]++
			if os.Getenv("AN_DUMP") != "" {
				fmt.Println("UNDECIDED schema", fnName(f), lost, adds, bad)
			}
		case len(bad) > 0:
			var ms []string
			for m := range bad {
				ms = append(ms, m)
			}
			sort.Strings(ms)
			r.fail(key, w.pos(instrPos(bad[ms[0]])), fmt.Sprintf("%s %s", fnName(f), strings.Join(ms, "; ")))
		default:
			r.Counts["schema checks"]++
			r.ok(key)
		}
	}
}

// forgetsSchema: where Add takes an unset schema to mean that nothing was collected, Reset unsets it on every path
func (a *collectAn) forgetsSchema(add *ssa.Function) {
	fields := map[string]bool{}
	for _, b := range add.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			x, y := bo.X, bo.Y
			if _, ok := x.(*ssa.Const); ok {
				x, y = y, x
			}
			c, ok := y.(*ssa.Const)
			u, isU := x.(*ssa.UnOp)
			if !ok || !isU || c.Value == nil || c.Value.ExactString() != `""` {
				continue
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.X == ssa.Value(add.Params[0]) {
				fields[fieldKey(fa.X.Type(), fa.Field)] = true
			}
		}
	}
	var reset *ssa.Function
	for _, f := range a.w.Funcs {
		if f.Name() == "Reset" && f.Synthetic == "" && f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), add.Signature.Recv().Type()) {
			reset = f
		}
	}
	if reset == nil {
		return
	}
	for _, k := range sortedKeys(fields) {
		miss := a.unsets(reset, k, 0)
		a.r.check(miss == nil, "forget|"+fnName(reset), a.w.pos(reset.Pos()), fmt.Sprintf("%s can return with the schema of the samples it drops still recorded in %s, which Add takes to mean that the chunk holds samples", fnName(reset), k))
	}
}

func (a *collectAn) unsets(f *ssa.Function, k string, depth int) ssa.Instruction {
	if len(f.Blocks) == 0 || depth > 4 {
		return nil
	}
	return exitAvoiding(f, nil, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				_, isStruct := x.Val.Type().Underlying().(*types.Struct)
				return isStruct
			}
			return fieldKey(fa.X.Type(), fa.Field) == k
		case ssa.CallInstruction:
			if _, isGo := in.(*ssa.Go); isGo {
				return false
			}
			if g := goTarget(x); g != nil && a.w.bodyOf(g) && g != f {
				return a.unsets(g, k, depth+1) == nil
			}
		}
		return false
	}, nil)
}

// keeps: the function resolves a collector that outlives it and writes the payload to a file or a writer itself
func (a *collectAn) keeps(f *ssa.Function) bool {
	res, wr := false, false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if m, _ := a.method(&c.Call); m == "Resolve" {
				v := c.Call.Value
				if !c.Call.IsInvoke() {
					v = c.Call.Args[0]
				}
				if u, ok := v.(*ssa.UnOp); ok {
					v = rootAddr(u.X)
				}
				switch v.(type) {
				case *ssa.FreeVar, *ssa.Parameter, *ssa.Global:
					res = true
				}
			}
			if isWriterCall(&c.Call) && (c.Call.IsInvoke() || !strings.HasPrefix(c.Call.StaticCallee().String(), "(*bytes.Buffer)")) {
				wr = true
			}
		}
	}
	return res && wr && hasErr(f.Signature)
}

// resetAbove: some caller of the function resets the collector itself
func (a *collectAn) resetAbove(f *ssa.Function, resets, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	if resets[f] {
		return true
	}
	for _, c := range a.w.callers[f] {
		if a.resetAbove(c.Parent(), resets, seen) {
			return true
		}
	}
	return len(a.w.callers[f]) == 0 && f.Parent() == nil && f.Object() != nil && f.Object().Exported() || f.Parent() != nil && resets[f.Parent()]
}

// skips: a function that resolves the members of a list of collectors one after the other passes over one only
// when it holds no samples
func (a *collectAn) skips(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			el, ok := in.(*ssa.UnOp)
			if !ok || el.Op != token.MUL || !inLoop(b) {
				continue
			}
			ia, ok := el.X.(*ssa.IndexAddr)
			if !ok || !a.isColl(el.Type()) {
				continue
			}
			resolved := false
			hands := func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case ssa.CallInstruction:
					m, _ := a.method(x.Common())
					if m != "" && m != "Resolve" {
						return false
					}
					if x.Common().Value == ssa.Value(el) {
						return true
					}
					for _, v := range x.Common().Args {
						if v == ssa.Value(el) {
							return true
						}
					}
				case *ssa.Store:
					return x.Val == ssa.Value(el)
				case *ssa.MakeInterface:
					return x.X == ssa.Value(el)
				}
				return false
			}
			for _, ref := range *el.Referrers() {
				if c, ok := ref.(ssa.CallInstruction); ok {
					if m, _ := a.method(c.Common()); m == "Resolve" {
						resolved = true
					}
				}
			}
			if !resolved {
				continue
			}
			key := "each|" + fnName(f)
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
			walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
				for ; i < len(b.Instrs); i++ {
					if b.Instrs[i] == ssa.Instruction(ia) {
						return b.Instrs[i]
					}
					if hands(b.Instrs[i]) {
						return nil
					}
				}
				br, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				for j, s := range b.Succs {
					if br != nil && a.emptyEdge(br.Cond, j) || seen[s] {
						continue
					}
					seen[s] = true
					if at := walk(s, 0); at != nil {
						return at
					}
				}
				return nil
			}
			at := walk(b, instrIndex(in)+1)
			a.r.check(at == nil, key, a.w.pos(instrPos(el)), fmt.Sprintf("%s can go on to the next collector without having resolved this one, which may hold samples", fnName(f)))
		}
	}
}

// emptyEdge: taking this edge means a count of a collector is zero (or the collector is nil), or nothing is known of
// what the condition looks at
func (a *collectAn) emptyEdge(cond ssa.Value, s int) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		_, call := cond.(*ssa.Call)
		_, phi := cond.(*ssa.Phi)
		return call || phi
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	c, ok := y.(*ssa.Const)
	if !ok {
		return false
	}
	if c.IsNil() {
		return op == token.EQL && s == 0 || op == token.NEQ && s == 1
	}
	if c.Value == nil || !isIntT(x.Type()) || !a.countOf(x) {
		return false
	}
	switch c.Value.ExactString() {
	case "0":
		return (op == token.EQL || op == token.LEQ) && s == 0 || (op == token.NEQ || op == token.GTR) && s == 1
	case "1":
		return op == token.LSS && s == 0 || op == token.GEQ && s == 1
	}
	return false
}

// samplesField: a field that counts samples, as CollectorInfo names it
func samplesField(t types.Type, i int) bool {
	_, st := derefStruct(t)
	return st != nil && strings.Contains(strings.ToLower(st.Field(i).Name()), "sample")
}

// countOf: the value is a count read from a collector or its Info
func (a *collectAn) countOf(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Field:
		return samplesField(x.X.Type(), x.Field)
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && samplesField(fa.X.Type(), fa.Field)
	case *ssa.Call:
		_, b := x.Call.Value.(*ssa.Builtin)
		return b || x.Call.StaticCallee() != nil
	case *ssa.Convert:
		return a.countOf(x.X)
	}
	return false
}

// shape: the concrete types a value is made of: the struct it is, and what its interface fields hold
func (a *collectAn) shape(v ssa.Value, depth int) string {
	if depth > 8 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return a.shape(x.X, depth+1)
	case *ssa.ChangeInterface:
		return a.shape(x.X, depth+1)
	case *ssa.TypeAssert:
		return a.shape(x.X, depth+1)
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return a.shape(t.X, depth+1)
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 || !inRepo(fnPkg(f)) || f.Signature.Results().Len() != 1 {
			return "?"
		}
		out := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok {
					s := a.shape(ret.Results[0], depth+1)
					if out != "" && out != s {
						return "?"
					}
					out = s
				}
			}
		}
		return out
	case *ssa.Alloc:
		st, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if !ok {
			return "?"
		}
		out := typeKey(x.Type()) + "{"
		for i := 0; i < st.NumFields(); i++ {
			if !a.isColl(st.Field(i).Type()) {
				continue
			}
			s := ""
			for _, ref := range *x.Referrers() {
				fa, ok := ref.(*ssa.FieldAddr)
				if !ok || fa.Field != i {
					continue
				}
				for _, r2 := range *fa.Referrers() {
					if sto, ok := r2.(*ssa.Store); ok && sto.Addr == ssa.Value(fa) {
						t := a.shape(sto.Val, depth+1)
						if s != "" && s != t {
							t = "?"
						}
						s = t
					}
				}
			}
			if s == "" {
				s = "nil"
			}
			out += st.Field(i).Name() + ":" + s + ";"
		}
		return out + "}"
	}
	return "?"
}

// sameKind: a Reset that replaces the collector it wraps puts one of the same kind in its place
func (a *collectAn) sameKind() {
	type site struct {
		st    *ssa.Store
		shape string
	}
	sites := map[string][]site{}
	for _, f := range a.w.Funcs {
		if !inRepo(fnPkg(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !a.isColl(fa.X.Type()) || !a.isColl(st.Val.Type()) {
					continue
				}
				k := fieldKey(fa.X.Type(), fa.Field)
				sites[k] = append(sites[k], site{st, a.shape(st.Val, 0)})
			}
		}
	}
	for _, k := range sortedKeys(sites) {
		for _, s := range sites[k] {
			_, made := s.st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc)
			if made || strings.Contains(s.shape, "?") {
				continue
			}
			f := s.st.Parent()
			bad := ""
			for _, c := range sites[k] {
				if _, made := c.st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); made && !strings.Contains(c.shape, "?") && c.shape != s.shape {
					bad = fmt.Sprintf("%s makes it with %s", fnName(c.st.Parent()), short(c.shape))
				}
			}
			a.r.check(bad == "", "kind|"+fnName(f), a.w.pos(instrPos(s.st)), fmt.Sprintf("%s replaces the collector it wraps by %s, but %s", fnName(f), short(s.shape), bad))
		}
	}
}

func short(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }
