package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Stream framing: what is taken from a stream is one length-prefixed message, completely and nothing more.

type streamRead struct {
	fr    *Frame
	in    ssa.CallInstruction
	buf   ssa.Value
	chain []ssa.Instruction // the instruction of each enclosing function, outermost first, then the read
}

type streamAn struct {
	w     *World
	r     *Report
	e     *Engine
	reads []streamRead
	name  string
	bad   bool
}

func isReaderT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && strings.Contains(n.Obj().Name(), "Reader")
}

func (s *streamAn) fail(in ssa.Instruction, msg string) {
	s.bad = true
	s.r.fail("stream|"+s.name+"|"+fnName(in.Parent())+"|"+strings.SplitN(msg, ":", 2)[0], s.w.pos(instrPos(in)), fmt.Sprintf("%s (from %s): %s", fnName(in.Parent()), s.name, msg))
}

// visit follows the reader value v through fn, running in frame fr.
func (s *streamAn) visit(fr *Frame, v ssa.Value, chain []ssa.Instruction, depth int) {
	if depth > 8 {
		s.fail(chain[len(chain)-1], "the reader is passed down too far to be followed")
		return
	}
	if v.Referrers() == nil {
		return
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp: // compared with nil
		case *ssa.ChangeInterface:
			s.visit(fr, x, chain, depth)
		case *ssa.MakeInterface:
			s.visit(fr, x, chain, depth)
		case *ssa.Phi:
			s.fail(x, "the reader depends on the path: not followed")
		case *ssa.Store:
			al, ok := x.Addr.(*ssa.Alloc)
			if !ok || x.Val != v {
				s.fail(x, "the reader is kept: what is taken from it later is not known")
				continue
			}
			s.visitCell(fr, al, chain, depth)
		case *ssa.MakeClosure:
			s.intoClosure(fr, x, v, false, chain, depth)
		case ssa.CallInstruction:
			s.call(fr, x, v, chain, depth)
		default:
			s.fail(ref, "the reader is used in a way that is not followed")
		}
	}
}

func (s *streamAn) visitCell(fr *Frame, cell ssa.Value, chain []ssa.Instruction, depth int) {
	for _, ref := range *cell.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				s.visit(fr, x, chain, depth)
			}
		case *ssa.MakeClosure:
			s.intoClosure(fr, x, cell, true, chain, depth)
		}
	}
}

func (s *streamAn) intoClosure(fr *Frame, mk *ssa.MakeClosure, v ssa.Value, cell bool, chain []ssa.Instruction, depth int) {
	fn := mk.Fn.(*ssa.Function)
	var at []ssa.Instruction
	for _, ref := range *mk.Referrers() {
		if c, ok := ref.(ssa.CallInstruction); ok && c.Common().Value == mk {
			at = append(at, c)
		} else if _, ok := ref.(*ssa.DebugRef); !ok {
			at = append(at, mk)
		}
	}
	for i, b := range mk.Bindings {
		if b != v {
			continue
		}
		sub := s.e.closureFrame(fr, mk)
		for _, in := range at {
			ch := append(append([]ssa.Instruction{}, chain...), in)
			if cell {
				s.visitCell(sub, fn.FreeVars[i], ch, depth+1)
			} else {
				s.visit(sub, fn.FreeVars[i], ch, depth+1)
			}
		}
	}
}

func (s *streamAn) call(fr *Frame, c ssa.CallInstruction, v ssa.Value, chain []ssa.Instruction, depth int) {
	cc := c.Common()
	if cc.IsInvoke() && cc.Value == v {
		s.fail(c, "reads directly: a short read is not a complete message")
		return
	}
	switch calleeFull(cc) {
	case "io.ReadFull":
		s.reads = append(s.reads, streamRead{fr, c, cc.Args[1], append(append([]ssa.Instruction{}, chain...), c)})
		return
	case "io.ReadAtLeast":
		ctx := newCtx()
		if s.e.evS(ctx, fr, cc.Args[1]).len.equal(s.e.ev(ctx, fr, cc.Args[2])) {
			s.reads = append(s.reads, streamRead{fr, c, cc.Args[1], append(append([]ssa.Instruction{}, chain...), c)})
		} else {
			s.fail(c, "reads at least part of the buffer: what is taken from the stream depends on how it is fragmented")
		}
		return
	}
	t := cc.StaticCallee()
	if t == nil || !s.w.bodyOf(t) {
		s.fail(c, "hands the reader to "+calleeShort(cc)+": it may take more, or less, than one message")
		return
	}
	if fr.inChain(t) {
		s.fail(c, "reads recursively: not followed")
		return
	}
	for i, a := range cc.Args {
		if a == v && i < len(t.Params) {
			s.visit(s.e.child(fr, c, t), t.Params[i], append(append([]ssa.Instruction{}, chain...), c), depth+1)
		}
	}
}

// follows: b can come after a
func follows(a, b []ssa.Instruction) bool {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		// inside a loop the same instruction may run again
		if repeatsWithout(a[n], nil) {
			return true
		}
		n++
	}
	if n >= len(a) || n >= len(b) {
		return false
	}
	if a[n].Parent() != b[n].Parent() {
		return true
	}
	return pathAvoiding(a[n], b[n], nil)
}

func checkStreams(w *World, r *Report) {
	r.Rule = "every function that takes one document or wire message from a stream uses the reader only in complete reads (io.ReadFull): first of a constant four bytes, then, exactly once, of a buffer whose length is shown equal to the little-endian word in those four bytes minus four"
	r.Assumptions = append(r.Assumptions, "byte slices are shorter than 1 GiB", "buffers from the pool have length zero")
	for _, f := range w.Funcs {
		p := fnPkg(f)
		if p != modPath && p != wirePath || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		for _, prm := range f.Params {
			if !isReaderT(prm.Type()) {
				continue
			}
			r.Counts["entry points"]++
			s := &streamAn{w: w, r: r, e: newEngine(w), name: fnName(f)}
			s.visit(s.e.rootFrame(f), prm, nil, 0)
			if s.bad {
				continue
			}
			s.judge(f)
		}
	}
	r.min("entry points", 5)
	r.min("reads", 6)
}

func (s *streamAn) judge(f *ssa.Function) {
	if len(s.reads) == 0 {
		s.r.fail("stream|"+s.name+"|none", s.w.pos(f.Pos()), s.name+" takes a reader and never reads from it")
		return
	}
	kind := make([]int, len(s.reads)) // 1 prefix, 2 rest
	var heads []streamRead
	for i, rd := range s.reads {
		if s.isLen(rd, func(l *Lin) *Lin { return l.addC(-4) }) {
			kind[i] = 1
			heads = append(heads, rd)
		}
	}
	for i, rd := range s.reads {
		s.r.Counts["reads"]++
		if kind[i] == 1 {
			s.r.ok(s.name + ": four byte prefix")
			continue
		}
		ok := false
		det := s.e.show(s.e.evS(newCtx(), rd.fr, rd.buf).len)
		for _, h := range heads {
			if s.isRest(rd, h) && follows(h.chain, rd.chain) {
				ok = true
			}
		}
		if ok {
			kind[i] = 2
			for _, h := range heads {
				if at := s.skipped(h.chain, rd.chain); at != nil && follows(h.chain, rd.chain) && len(heads) == 1 {
					s.fail(at, "returns success before the rest of the message was taken from the stream")
				}
			}
			s.r.ok(s.name + ": rest of the message")
		} else {
			s.fail(rd.in, "the size of this read is not the message's remaining length: "+det)
		}
	}
	if s.bad {
		return
	}
	for i, a := range s.reads {
		for j, b := range s.reads {
			if !follows(a.chain, b.chain) {
				continue
			}
			if kind[i] == 1 && kind[j] == 2 && i != j {
				continue
			}
			s.fail(b.in, "reads again after a complete message")
			return
		}
	}
}

// skipped: a successful return between the prefix and the rest; the next read would start inside this message
func (s *streamAn) skipped(h, rest []ssa.Instruction) ssa.Instruction {
	n := 0
	for n < len(h)-1 && n < len(rest)-1 && h[n] == rest[n] {
		n++
	}
	f := h[n].Parent()
	ix := errResult(f.Signature)
	if ix < 0 || rest[n].Parent() != f {
		return nil
	}
	var bad ssa.Instruction
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b, pred *ssa.BasicBlock, i int)
	walk = func(b, pred *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == rest[n] {
				return
			}
			if x, ok := b.Instrs[i].(*ssa.Return); ok {
				v := retVal(x, ix)
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
					for j, q := range b.Preds {
						if q == pred {
							v = ph.Edges[j]
						}
					}
				}
				if isNilConst(v) {
					bad = x
				}
			}
		}
		for _, t := range b.Succs {
			if _, ok := t.Instrs[0].(*ssa.Phi); ok && len(t.Succs) == 0 {
				walk(t, b, 0)
				continue
			}
			if !seen[t] {
				seen[t] = true
				walk(t, b, 0)
			}
		}
	}
	walk(h[n].Block(), nil, instrIndex(h[n])+1)
	return bad
}

// isLen: the length of the buffer minus the bound is zero, in every way the frame can be reached
func (s *streamAn) isLen(rd streamRead, f func(*Lin) *Lin) bool {
	blk := rd.in.Block()
	return s.e.prove(ctxAt(rd.in), rd.fr, blk, func(c *Ctx) *Lin { return f(s.e.evS(c, rd.fr, rd.buf).len) }) &&
		s.e.prove(ctxAt(rd.in), rd.fr, blk, func(c *Ctx) *Lin { return f(s.e.evS(c, rd.fr, rd.buf).len).scale(-1) })
}

// isRest: len(buf) == word(prefix) - 4
func (s *streamAn) isRest(rd, h streamRead) bool {
	c := newCtx()
	hs := s.e.evS(c, h.fr, h.buf)
	s.e.evS(c, rd.fr, rd.buf)
	want := "le4:" + hs.root + "[" + hs.off.key() + "]@"
	for _, a := range append([]*Atom{}, s.e.atoms...) {
		k := a.key
		if strings.HasPrefix(k, "conv:") {
			var n int
			if i := strings.LastIndex(k, ":1*s"); i < 0 {
				continue
			} else if _, err := fmt.Sscanf(k[i:], ":1*s%d+0", &n); err != nil || !strings.HasSuffix(k, "+0") || n >= len(s.e.atoms) {
				continue
			}
			k = s.e.atoms[n].key
		}
		if !strings.HasPrefix(k, want) {
			continue
		}
		word := linSym(a.id)
		if s.isLen(rd, func(l *Lin) *Lin { return l.sub(word).addC(4) }) {
			return true
		}
	}
	return false
}

// retVal: the value returned, looking through the result cell of functions with deferred calls
func retVal(x *ssa.Return, ix int) ssa.Value {
	v := x.Results[ix]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.Block() != x.Block() {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	for k := instrIndex(u) - 1; k >= 0; k-- {
		if st, ok := x.Block().Instrs[k].(*ssa.Store); ok && st.Addr == al {
			return st.Val
		}
	}
	return v
}
