package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Iterators stop when told: after the consumer's function has returned false it is not called again.

// seqFunc: func(yield func(...) bool)
func seqFunc(s *types.Signature) bool {
	if s.Results().Len() != 0 || s.Params().Len() != 1 {
		return false
	}
	return yieldFunc(s.Params().At(0).Type())
}

func yieldFunc(t types.Type) bool {
	y, ok := t.Underlying().(*types.Signature)
	return ok && y.Results().Len() == 1 && y.Params().Len() <= 2 && types.Identical(y.Results().At(0).Type().Underlying(), types.Typ[types.Bool])
}

const (
	itLive = iota
	itStopped
)

func (w *World) iterStops(f *ssa.Function) (lost string, bad map[ssa.Instruction]string, calls int) {
	p := newPathRun(w)
	bad = map[ssa.Instruction]string{}
	again := func(st *pstate, in ssa.CallInstruction) {
		if st.mode == itStopped {
			bad[in] = "can call the consumer again after it returned false"
		}
	}
	both := func(st *pstate) []pout {
		calls++
		return []pout{{itLive, pbool(true), st.cells}, {itStopped, pbool(false), st.cells}}
	}
	p.onCall = func(st *pstate, in ssa.CallInstruction, fn pval, args []pval) ([]pout, bool) {
		if fn.k != 'y' {
			return nil, false
		}
		again(st, in)
		return both(st), true
	}
	p.opaque = func(st *pstate, in ssa.CallInstruction, fn pval, args []pval) []pout {
		if len(args) == 1 && args[0].k == 'y' {
			// another iterator is given the consumer: it may be stopped in there, or run to its end
			again(st, in)
			calls++
			return []pout{{itLive, pval{}, st.cells}, {itStopped, pval{}, st.cells}}
		}
		if len(args) == 1 && args[0].k == 'f' && yieldFunc(in.Common().Args[0].Type()) {
			// a loop over another iterator: the body runs until it returns false
			var outs []pout
			seen := map[string]bool{}
			work := []*pstate{st}
			for len(work) > 0 && p.lost == "" {
				s := work[len(work)-1]
				work = work[:len(work)-1]
				k := (&pstate{mode: s.mode, cells: s.cells}).key()
				if seen[k] {
					continue
				}
				seen[k] = true
				outs = append(outs, pout{s.mode, pval{}, s.cells}) // the iterator may end here
				for _, o := range p.run(args[0].fn, nil, args[0].bind, s, 1) {
					n := &pstate{mode: o.mode, cells: o.cells}
					if !(o.ret.k == 'c' && o.ret.c == "true") {
						outs = append(outs, pout{o.mode, pval{}, o.cells})
					}
					if !(o.ret.k == 'c' && o.ret.c == "false") {
						work = append(work, n)
					}
				}
			}
			return outs
		}
		p.giveUp("the consumer is handed to code that is not followed")
		return nil
	}
	p.run(f, []pval{{k: 'y'}}, nil, &pstate{mode: itLive}, 0)
	return p.lost, bad, calls
}

func checkIterators(w *World, r *Report) {
	r.Rule = "in every function that takes a yield function, on every path after a call of yield returned false (tracked through loops over other iterators, helper functions, captured variables and deferred calls) no call of yield follows"
	r.Assumptions = []string{"the iterator combinators of github.com/tychoish/fun (irt.Slice, irt.Convert) stop when their consumer stops"}
	for _, f := range w.Funcs {
		if !inRepo(fnPkg(f)) || len(f.Blocks) == 0 || !seqFunc(f.Signature) || f.Signature.Recv() != nil || len(f.Params) != 1 {
			continue
		}
		lost, bad, calls := w.iterStops(f)
		r.Counts["iterators"]++
		r.Counts["calls of the consumer"] += calls
		switch {
		case len(bad) > 0:
			for in, msg := range bad {
				r.fail("iter|"+fnName(f), w.pos(instrPos(in)), fmt.Sprintf("%s: %s", fnName(f), msg))
			}
		case lost != "":
			r.Counts["undecided"]++
			if os.Getenv("AN_DUMP") != "" {
				fmt.Println("UNDECIDED", fnName(f), lost)
			}
		default:
			r.ok("iter|" + fnName(f))
		}
	}
	r.min("iterators", 3)
}
