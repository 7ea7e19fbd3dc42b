package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const wirePath = modPath + "/x/mrpc/mongowire"

func checkWireDecode(w *World, r *Report) {
	r.Rule = "every index, slice, fixed-width read, make and index-taking document accessor reachable from reading or parsing a wire message is proved in range from the dominating checks (linear inequalities over SSA with inferred loop invariants)"
	r.Assumptions = append(r.Assumptions, "byte slices and strings are shorter than 1 GiB", "a document read from a buffer validates to no more bytes than the buffer holds")
	var entries []*ssa.Function
	em := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if inPkg(f, modPath+"/x/mrpc/shell") && f.Parent() == nil && isExportedFn(f) && takesMessage(f) {
			entries = append(entries, f)
			em[f] = true
			continue
		}
		if !inPkg(f, wirePath) || f.Parent() != nil || !isExportedFn(f) || encodes(f) {
			continue
		}
		n := f.Name()
		if strings.HasPrefix(n, "Read") || n == "Parse" || n == "Scope" || n == "Name" || n == "DB" || strings.HasPrefix(n, "Namespace") || n == "Documents" || n == "Validate" || n == "HasResponse" {
			entries = append(entries, f)
			em[f] = true
		}
	}
	r.Counts["entry points"] = len(entries)
	r.min("entry points", 15)
	reach := w.reachable(entries, func(f *ssa.Function) bool {
		return (inPkg(f, wirePath) || inPkg(f, modPath+"/x/mrpc/shell")) && !encodes(f) || inPkg(f, modPath) && recvName(f) == "Document" && f.Name() == "ElementAt"
	})
	var fns []*ssa.Function
	for _, f := range w.Funcs {
		if reach[f] {
			fns = append(fns, f)
		}
	}
	r.Counts["functions in scope"] = len(fns)
	r.min("functions in scope", 30)
	runBounds(w, r, fns, oblOpts{make: true}, func() *boundsScope {
		e := newEngine(w)
		e.noInline = map[*ssa.Function]bool{w.fn("(*birch.Document).Validate"): true}
		return &boundsScope{e: e, entries: em, reach: reach, maxUp: 6}
	}, func(ob *obligation) string {
		if inPkg(ob.in.Parent(), modPath+"/x/mrpc/shell") && testedElsewhere(ob.in) {
			r.Counts["undecided"]++
			return "undecided"
		}
		return ""
	})
	r.min("obligations", 30)
}

// takesMessage: the function is given a parsed message and makes a document of it
func takesMessage(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() == 0 || typeKey(derefT(res.At(0).Type())) != "github.com/tychoish/birch.Document" && typeKey(derefT(res.At(0).Type())) != "birch.Document" {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if strings.HasSuffix(typeKey(f.Signature.Params().At(i).Type()), "mongowire.Message") {
			return true
		}
	}
	return false
}

// testedElsewhere: what is indexed comes from a getter that is asked for a list whose length is tested, too, on a
// value that is not this one by name, but may be it
func testedElsewhere(in ssa.Instruction) bool {
	ix, ok := in.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	x, ok := ix.X.(*ssa.Call)
	if !ok || !x.Call.IsInvoke() {
		return false
	}
	for _, b := range in.Parent().Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c == x || !c.Call.IsInvoke() || c.Call.Method != x.Call.Method || c.Call.Value == x.Call.Value || c.Referrers() == nil {
				continue
			}
			for _, r := range *c.Referrers() {
				if l, ok := r.(*ssa.Call); ok {
					if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						return true
					}
				}
			}
		}
	}
	return false
}
