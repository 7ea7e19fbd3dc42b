package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Numbers are not changed by a conversion on their way into or out of a document.

// narrowing: an integer conversion that can change the value
func narrowing(x *ssa.Convert) bool {
	if !isInt(x.Type()) || !isInt(x.X.Type()) {
		return false
	}
	if _, ok := x.X.(*ssa.Const); ok {
		return false
	}
	lo, hi := typeRange(x.X.Type())
	tlo, thi := typeRange(x.Type())
	if lo == nil || tlo == nil {
		return false
	}
	return lo.Cmp(tlo) < 0 || hi.Cmp(thi) > 0
}

func basicKind(t types.Type) (types.BasicKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	return b.Kind(), true
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isNumeric(t types.Type) bool { return isInt(t) || isFloat(t) }

// lossyFloat: a conversion between a float and another number that not every value survives
func lossyFloat(x *ssa.Convert) bool {
	f, t := x.X.Type(), x.Type()
	if _, ok := x.X.(*ssa.Const); ok {
		return false
	}
	switch {
	case isFloat(f) && isInt(t):
		return true
	case isInt(f) && isFloat(t):
		lo, hi := typeRange(f)
		lim := big.NewInt(1 << 53)
		if k, _ := basicKind(t); k == types.Float32 {
			lim = big.NewInt(1 << 24)
		}
		return lo == nil || hi.Cmp(lim) > 0 || lo.Cmp(new(big.Int).Neg(lim)) < 0
	case isFloat(f) && isFloat(t):
		a, _ := basicKind(f)
		b, _ := basicKind(t)
		return a == types.Float64 && b == types.Float32
	}
	return false
}

const elementsPath = modPath + "/elements"

const typesPath = modPath + "/types"
const jsonxPath = modPath + "/jsonx"

type convAn struct {
	w    *World
	ctor bool // only element and value constructors count
	ct   *convAn
	memo map[*ssa.Parameter]int // 1 busy/no, 2 yes
}

// sinkArg: the argument is a number that is written into a document
func (a *convAn) sinkArg(c *ssa.CallCommon, arg ssa.Value) bool {
	if c.IsInvoke() {
		return false
	}
	t := c.StaticCallee()
	if t == nil {
		return false
	}
	full := calleeFull(c)
	if !a.ctor && strings.HasPrefix(full, "(encoding/binary.") && (strings.Contains(full, ").Put") || strings.Contains(full, ").Append")) {
		return isInt(arg.Type())
	}
	if o := t.Object(); o != nil && o.Pkg() != nil {
		p := o.Pkg().Path()
		r := recvName(t)
		if (p == modPath || p == jsonxPath) && (strings.HasPrefix(r, "ElementConstructor") || strings.HasPrefix(r, "ValueConstructor")) {
			return true
		}
		if p == elementsPath && !a.ctor {
			k, ok := basicKind(arg.Type())
			return ok && k != types.Uint
		}
	}
	if !a.w.bodyOf(t) {
		return false
	}
	for i, x := range c.Args {
		if x == arg && i < len(t.Params) && a.paramFlows(t.Params[i]) {
			return true
		}
	}
	return false
}

func (a *convAn) paramFlows(p *ssa.Parameter) bool {
	if s, ok := a.memo[p]; ok {
		return s == 2
	}
	a.memo[p] = 1
	if a.flows(p) {
		a.memo[p] = 2
	}
	return a.memo[p] == 2
}

// flows: the number reaches a document, or the result of an accessor of one
func (a *convAn) flows(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Convert:
				if isNumeric(x.Type()) && walk(x) {
					return true
				}
			case *ssa.ChangeType:
				if walk(x) {
					return true
				}
			case *ssa.MakeInterface:
				if walk(x) {
					return true
				}
			case *ssa.Phi:
				if walk(x) {
					return true
				}
			case *ssa.BinOp:
				switch x.Op {
				case token.ADD, token.SUB, token.MUL:
					if walk(x) {
						return true
					}
				}
			case *ssa.UnOp:
				if x.Op == token.SUB && walk(x) {
					return true
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, u := range *al.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok && walk(ld) {
							return true
						}
					}
				}
			case *ssa.Return:
				f := x.Parent()
				if f.Object() != nil && f.Object().Exported() && recvName(f) == "Value" && isNumeric(v.Type()) {
					return true
				}
			case ssa.CallInstruction:
				if a.sinkArg(x.Common(), v) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// rawBits: the operand is a word read from or about to be written to bytes; changing its sign keeps every bit
func (a *convAn) rawBits(x *ssa.Convert) bool {
	if x.X.Type().Underlying().(*types.Basic).Kind() == x.Type().Underlying().(*types.Basic).Kind() {
		return true
	}
	if stdSizes.Sizeof(x.X.Type()) != stdSizes.Sizeof(x.Type()) {
		return false
	}
	if a.rawSource(x.X, 0) {
		return true
	}
	if x.Referrers() == nil {
		return false
	}
	n := 0
	for _, ref := range *x.Referrers() {
		switch c := ref.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			full := calleeFull(c.Common())
			t := c.Common().StaticCallee()
			if strings.HasPrefix(full, "(encoding/binary.") || t != nil && t.Object() != nil && !t.Object().Exported() && inPkg(t, elementsPath) {
				n++
				continue
			}
			return false
		case *ssa.Return:
			// a helper that only reinterprets
			if f := c.Parent(); f.Object() != nil && !f.Object().Exported() && len(f.Blocks) == 1 && x.X == ssa.Value(f.Params[len(f.Params)-1]) {
				n++
				continue
			}
			return false
		default:
			return false
		}
	}
	return n > 0
}

func (a *convAn) rawSource(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if strings.HasPrefix(calleeFull(&x.Call), "(encoding/binary.") {
			return true
		}
		t := x.Call.StaticCallee()
		if t == nil || !a.w.bodyOf(t) {
			return false
		}
		rs := returnsOf(t)
		for _, r := range rs {
			if len(r.Results) != 1 || !a.rawSource(r.Results[0], depth+1) {
				return false
			}
		}
		return len(rs) > 0
	case *ssa.BinOp:
		switch x.Op {
		case token.OR, token.SHL, token.AND, token.SHR, token.XOR:
			return true
		}
	}
	return false
}

func (a *convAn) obligations(fn *ssa.Function) []*obligation {
	var out []*obligation
	add := func(x *ssa.Convert, goals ...func(e *Engine, c *Ctx, fr *Frame) *Lin) {
		for _, at := range a.uses(x) {
			out = append(out, &obligation{fn: fn, in: at, kind: "conversion", goals: goals})
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Convert)
			if !ok || !a.flows(x) {
				continue
			}
			switch {
			case lossyFloat(x):
				add(x, func(e *Engine, c *Ctx, fr *Frame) *Lin { return linConst(-1) })
			case narrowing(x) && !a.rawBits(x):
				if k, _ := basicKind(x.X.Type()); k == types.Uint32 {
					// the size of a whole document: covered by the assumption on sizes
					if k, _ := basicKind(x.Type()); k == types.Int32 && !a.ct.flows(x) {
						continue
					}
				}
				lo, hi := typeRange(x.Type())
				add(x, func(e *Engine, c *Ctx, fr *Frame) *Lin { return e.ev(c, fr, x.X).sub(linBig(lo)) },
					func(e *Engine, c *Ctx, fr *Frame) *Lin { return linBig(hi).sub(e.ev(c, fr, x.X)) })
			}
		}
	}
	return out
}

// uses: where the converted number is used on its way; what is known there counts (a conversion may be
// checked by converting back)
func (a *convAn) uses(x *ssa.Convert) []ssa.Instruction {
	var out []ssa.Instruction
	if x.Referrers() == nil {
		return nil
	}
	for _, ref := range *x.Referrers() {
		switch u := ref.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Convert:
			if !a.flows(u) {
				continue
			}
		case *ssa.BinOp:
			if !isNumeric(u.Type()) || !a.flows(u) {
				continue
			}
		case *ssa.MakeInterface:
			if !a.flows(u) {
				continue
			}
		case ssa.CallInstruction:
			if !a.sinkArg(u.Common(), x) {
				continue
			}
		case *ssa.Return:
		case *ssa.Phi, *ssa.Store:
			return []ssa.Instruction{x}
		default:
			continue
		}
		if ref.Block() == x.Block() {
			return []ssa.Instruction{x}
		}
		out = append(out, ref)
	}
	if len(out) == 0 {
		return []ssa.Instruction{x}
	}
	return out
}

func checkConversions(w *World, r *Report) {
	r.Rule = "every integer or float conversion whose result reaches a number written into a document (element constructors, encoders, fixed-width writes) or returned by an accessor of a value is proved to keep the value: the operand lies in the target type's range on every path, from the dominating checks, in every caller"
	r.Assumptions = append(r.Assumptions, "byte slices, strings and whole documents are shorter than 1 GiB", "64-bit int")
	a := &convAn{w: w, memo: map[*ssa.Parameter]int{}}
	a.ct = &convAn{w: w, ctor: true, memo: map[*ssa.Parameter]int{}}
	var fns []*ssa.Function
	em := map[*ssa.Function]bool{}
	reach := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if p := fnPkg(topFn(f)); p == modPath+"/x/ftdc" || p == modPath+"/x/ftdc/metrics" || p == modPath+"/types" || strings.Contains(p, "/internal") {
			continue
		}
		reach[f] = true
		if isExportedFn(f) {
			em[f] = true
		}
		if len(a.obligations(f)) > 0 {
			fns = append(fns, f)
		}
	}
	runBounds(w, r, fns, oblOpts{only: a.obligations}, func() *boundsScope {
		e := newEngine(w)
		e.wide = true
		return &boundsScope{e: e, entries: em, reach: reach, maxUp: 4}
	}, nil)
	r.min("obligations", 12)
}

func listConvs(w *World) {
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Convert); ok && narrowing(c) {
					fmt.Println(w.pos(instrPos(in)), fnName(f), c.X.Type(), "->", c.Type(), w.srcLine(instrPos(in)))
				}
			}
		}
	}
}

var stdSizes = types.SizesFor("gc", "amd64")
