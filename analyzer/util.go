package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

func debugBounds(w *World, names []string, trace bool) {
	t := time.Now()
	var ents []*ssa.Function
	em := map[*ssa.Function]bool{}
	for _, n := range names {
		if n == "ALL" {
			for _, f := range w.Funcs {
				if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath && f.Object() != nil && f.Object().Exported() {
					ents = append(ents, f)
					em[f] = true
				}
			}
			continue
		}
		f := w.fn(n)
		if f == nil {
			fmt.Println("no", n)
			os.Exit(1)
		}
		ents = append(ents, f)
		em[f] = true
	}
	e := newEngine(w)
	e.Trace = trace
	e.Dump = trace
	if os.Getenv("SINV") != "" {
		e.sinv = inferStructInvs(w, map[string]bool{modPath: true})
	}
	s := &boundsScope{e: e, entries: em, reach: w.reachable(ents, func(f *ssa.Function) bool { return true }), maxUp: 4}
	if os.Getenv("HYP") != "" {
		val := w.fn("(*birch.Value).Validate")
		s.prepare = func(fr *Frame) { addHyps(e, fr, val) }
	}
	n, bad := 0, 0
	for _, f := range w.Funcs {
		if !s.reach[f] {
			continue
		}
		for _, ob := range obligationsOf(f, oblOpts{make: true}) {
			n++
			r := s.check(ob)
			if !r.ok {
				bad++
				fmt.Println("FAIL", w.pos(instrPos(ob.in)), w.oblKey(ob), "\n    in", r.where, "\n    ", r.detail)
			}
		}
	}
	fmt.Println(n, "obligations", bad, "failed", time.Since(t))
}

func sortBy[T any](s []T, key func(T) string) {
	sort.SliceStable(s, func(i, j int) bool { return key(s[i]) < key(s[j]) })
}

// addHyps assumes that the validator accepted every parameter of its receiver type.
func addHyps(e *Engine, fr *Frame, val *ssa.Function) {
	if fr.hyps != nil || fr.fn == val {
		return
	}
	rt := val.Params[0].Type()
	for i, p := range fr.fn.Params {
		if types.Identical(p.Type(), rt) {
			af := e.assumeFrame(fr, val, []argRef{{fr, p}}, fmt.Sprint("hyp", i))
			fr.hyps = append(fr.hyps, &hyp{frame: af, errIx: val.Signature.Results().Len() - 1})
		}
	}
}
