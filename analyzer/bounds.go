package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// obligation is one operation that panics unless its goals hold.
type obligation struct {
	fn    *ssa.Function
	in    ssa.Instruction
	kind  string
	goals []func(e *Engine, c *Ctx, fr *Frame) *Lin // nil slice: the point must be unreachable
	// assume: facts under which the goals are to be shown
	assume func(e *Engine, c *Ctx, fr *Frame) []fact
}

type oblOpts struct {
	panics  bool // explicit panics and unchecked type assertions are obligations
	make    bool
	divides bool
	only    func(fn *ssa.Function) []*obligation // in place of the bounds obligations
}

func obligationsOf(fn *ssa.Function, o oblOpts) []*obligation {
	if o.only != nil {
		return o.only(fn)
	}
	var out []*obligation
	add := func(in ssa.Instruction, kind string, gs ...func(e *Engine, c *Ctx, fr *Frame) *Lin) {
		out = append(out, &obligation{fn: fn, in: in, kind: kind, goals: gs})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				x2 := x
				if isSliceT(x.X.Type()) {
					add(in, "index", func(e *Engine, c *Ctx, fr *Frame) *Lin { return e.ev(c, fr, x2.Index) },
						func(e *Engine, c *Ctx, fr *Frame) *Lin {
							return e.evS(c, fr, x2.X).len.sub(e.ev(c, fr, x2.Index)).addC(-1)
						})
				} else if n, ok := arrayLen(x.X.Type()); ok {
					if _, isC := x.Index.(*ssa.Const); isC {
						continue
					}
					add(in, "index", func(e *Engine, c *Ctx, fr *Frame) *Lin { return e.ev(c, fr, x2.Index) },
						func(e *Engine, c *Ctx, fr *Frame) *Lin { return linConst(n).sub(e.ev(c, fr, x2.Index)).addC(-1) })
				}
			case *ssa.Index:
				x2 := x
				if _, isC := x.Index.(*ssa.Const); isC {
					continue
				}
				if n, ok := arrayLen(x.X.Type()); ok {
					add(in, "index", func(e *Engine, c *Ctx, fr *Frame) *Lin { return e.ev(c, fr, x2.Index) },
						func(e *Engine, c *Ctx, fr *Frame) *Lin { return linConst(n).sub(e.ev(c, fr, x2.Index)).addC(-1) })
				} else if isStr(x.X.Type()) {
					add(in, "index", func(e *Engine, c *Ctx, fr *Frame) *Lin { return e.ev(c, fr, x2.Index) },
						func(e *Engine, c *Ctx, fr *Frame) *Lin {
							return e.evS(c, fr, x2.X).len.sub(e.ev(c, fr, x2.Index)).addC(-1)
						})
				}
			case *ssa.Lookup:
				if isStr(x.X.Type()) {
					x2 := x
					add(in, "index", func(e *Engine, c *Ctx, fr *Frame) *Lin { return e.ev(c, fr, x2.Index) },
						func(e *Engine, c *Ctx, fr *Frame) *Lin {
							return e.evS(c, fr, x2.X).len.sub(e.ev(c, fr, x2.Index)).addC(-1)
						})
				}
			case *ssa.Slice:
				x2 := x
				ln := func(e *Engine, c *Ctx, fr *Frame) *Lin {
					if n, ok := arrayLen(x2.X.Type()); ok {
						return linConst(n)
					}
					return e.evS(c, fr, x2.X).len
				}
				if x.Low == nil && x.High == nil {
					continue
				}
				lo := func(e *Engine, c *Ctx, fr *Frame) *Lin {
					if x2.Low == nil {
						return linConst(0)
					}
					return e.ev(c, fr, x2.Low)
				}
				hi := func(e *Engine, c *Ctx, fr *Frame) *Lin {
					if x2.High == nil {
						return ln(e, c, fr)
					}
					return e.ev(c, fr, x2.High)
				}
				var gs []func(e *Engine, c *Ctx, fr *Frame) *Lin
				if x.Low != nil {
					gs = append(gs, lo)
				}
				gs = append(gs, func(e *Engine, c *Ctx, fr *Frame) *Lin { return hi(e, c, fr).sub(lo(e, c, fr)) })
				if x.High != nil {
					gs = append(gs, func(e *Engine, c *Ctx, fr *Frame) *Lin {
						// hi may go up to the capacity
						if call, ok := x2.High.(*ssa.Call); ok {
							if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "cap" && call.Call.Args[0] == x2.X {
								return linConst(0)
							}
						}
						if ms, ok := x2.X.(*ssa.MakeSlice); ok {
							return e.ev(c, fr, ms.Cap).sub(hi(e, c, fr))
						}
						return ln(e, c, fr).sub(hi(e, c, fr))
					})
				}
				add(in, "slice", gs...)
			case *ssa.MakeSlice:
				if o.make {
					x2 := x
					if _, isC := x.Len.(*ssa.Const); isC {
						continue
					}
					add(in, "make", func(e *Engine, c *Ctx, fr *Frame) *Lin { return e.ev(c, fr, x2.Len) })
				}
			case *ssa.Panic:
				if o.panics {
					add(in, "panic")
				}
			case *ssa.TypeAssert:
				if o.panics && !x.CommaOk {
					add(in, "assert")
				}
			case *ssa.BinOp:
				if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
					if _, isC := x.Y.(*ssa.Const); !isC && o.divides {
						x2 := x
						add(in, "div", func(e *Engine, c *Ctx, fr *Frame) *Lin { return e.ev(c, fr, x2.Y).addC(-1) })
					}
				}
			case *ssa.Call:
				name := calleeFull(&x.Call)
				n := 0
				switch name {
				case "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).PutUint16":
					n = 2
				case "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).PutUint32":
					n = 4
				case "(encoding/binary.littleEndian).Uint64", "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.bigEndian).Uint64", "(encoding/binary.bigEndian).PutUint64":
					n = 8
				}
				if n > 0 {
					var sl ssa.Value
					for _, a := range x.Call.Args {
						if isSliceT(a.Type()) {
							sl = a
						}
					}
					nn := int64(n)
					add(in, "word", func(e *Engine, c *Ctx, fr *Frame) *Lin { return e.evS(c, fr, sl).len.addC(-nn) })
				}
			}
		}
	}
	return out
}

type boundsScope struct {
	e       *Engine
	entries map[*ssa.Function]bool
	reach   map[*ssa.Function]bool
	// prepare attaches hypotheses to a root frame
	prepare func(fr *Frame)
	maxUp   int
}

type boundsResult struct {
	ob     *obligation
	ok     bool
	where  string // frame in which it failed
	detail string
}

func (s *boundsScope) check(ob *obligation) boundsResult {
	fr := s.e.rootFrame(ob.fn)
	if s.prepare != nil {
		s.prepare(fr)
	}
	ok, det := s.proveIn(ob, fr)
	if ok {
		return boundsResult{ob: ob, ok: true}
	}
	return s.up(ob, []ssa.CallInstruction{}, ob.fn, det, 0)
}

// up re-tries the obligation in the context of each caller of the outermost function.
func (s *boundsScope) up(ob *obligation, chain []ssa.CallInstruction, top *ssa.Function, det string, depth int) boundsResult {
	fail := boundsResult{ob: ob, ok: false, where: chainName(chain, ob.fn), detail: det}
	if len(chain) == 0 && ob.fn.Parent() != nil {
		if mk := soleClosure(ob.fn); mk != nil {
			pf := s.e.rootFrame(ob.fn.Parent())
			if s.prepare != nil {
				s.prepare(pf)
			}
			fr := s.e.closureFrame(pf, mk)
			if ok, _ := s.proveIn(ob, fr); ok {
				return boundsResult{ob: ob, ok: true}
			}
		}
	}
	if s.entries[top] || s.e.w.addrOf[top] || depth >= s.maxUp {
		return fail
	}
	var sites []ssa.CallInstruction
	for _, c := range s.e.w.callers[top] {
		if s.reach[c.Parent()] {
			sites = append(sites, c)
		}
	}
	if len(sites) == 0 {
		return fail
	}
	for _, site := range sites {
		p := site.Parent()
		rec := p == top
		for _, c := range chain {
			if c.Parent() == p {
				rec = true
			}
		}
		if rec {
			// recursive call: judged from the outer (non-recursive) entry with unknown arguments
			fail.where = chainName(append([]ssa.CallInstruction{site}, chain...), ob.fn)
			return fail
		}
		nc := append([]ssa.CallInstruction{site}, chain...)
		fr := s.e.rootFrame(p)
		if s.prepare != nil {
			s.prepare(fr)
		}
		for _, c := range nc {
			fr = s.e.child(fr, c, c.Common().StaticCallee())
		}
		ok, d := s.proveIn(ob, fr)
		if ok {
			continue
		}
		if r := s.up(ob, nc, p, d, depth+1); !r.ok {
			return r
		}
	}
	return boundsResult{ob: ob, ok: true}
}

func chainName(chain []ssa.CallInstruction, fn *ssa.Function) string {
	var parts []string
	for _, c := range chain {
		parts = append(parts, fnName(c.Parent()))
	}
	parts = append(parts, fnName(fn))
	return strings.Join(parts, " -> ")
}

func (s *boundsScope) proveIn(ob *obligation, fr *Frame) (bool, string) {
	e := s.e
	blk := ob.in.Block()
	if d := os.Getenv("AN_DUMP"); d != "" {
		e.Dump = strings.Contains(e.w.pos(instrPos(ob.in)), d)
	}
	if ob.assume != nil {
		e.invs, e.invBusy = map[frBlk][]*Lin{}, map[frBlk]bool{}
		e.assume = func(c *Ctx) []fact { return ob.assume(e, c, fr) }
		defer func() { e.assume = nil }()
	}
	if len(ob.goals) == 0 {
		if e.prove(ctxAt(ob.in), fr, blk, func(c *Ctx) *Lin { return nil }) {
			return true, ""
		}
		return false, "reachable"
	}
	for _, g := range ob.goals {
		g := g
		if !e.prove(ctxAt(ob.in), fr, blk, func(c *Ctx) *Lin { return g(e, c, fr) }) {
			return false, e.show(g(e, ctxAt(ob.in), fr))
		}
	}
	return true, ""
}

// reachable: functions reachable from the entries through static calls, closures and
// (by signature / implementation) dynamic calls inside the repository.
func (w *World) reachable(entries []*ssa.Function, keep func(*ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || out[f] || !w.bodyOf(f) || !keep(f) {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil {
						visit(cal)
					}
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if fv, ok := (*op).(*ssa.Function); ok {
							visit(fv)
						}
					}
				}
			}
		}
	}
	for _, f := range entries {
		visit(f)
	}
	return out
}

var srcCache = map[string][]string{}

func (w *World) srcLine(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	pp := w.Fset.Position(p)
	ls, ok := srcCache[pp.Filename]
	if !ok {
		b, _ := os.ReadFile(pp.Filename)
		ls = strings.Split(string(b), "\n")
		srcCache[pp.Filename] = ls
	}
	if pp.Line-1 < len(ls) {
		return strings.TrimSpace(ls[pp.Line-1])
	}
	return ""
}

func (w *World) oblKey(ob *obligation) string {
	return fmt.Sprintf("%s|%s|%s", fnName(ob.fn), ob.kind, w.srcLine(instrPos(ob.in)))
}

var _ = big.NewInt
var _ = types.Identical

// soleClosure: the only place a function literal is turned into a value
func soleClosure(fn *ssa.Function) *ssa.MakeClosure {
	var out *ssa.MakeClosure
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
				out = m
				n++
			}
		}
	}
	if n == 1 {
		return out
	}
	return nil
}
