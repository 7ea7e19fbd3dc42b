package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Reading never changes what is read, and results own their memory; pooled buffers are not used once given back.

func paramRoots(f *ssa.Function) []string {
	var out []string
	for i, p := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			out = append(out, "the receiver")
		} else {
			out = append(out, "argument "+p.Name())
		}
	}
	return out
}

func shortType(t types.Type) string {
	return strings.ReplaceAll(strings.ReplaceAll(typeKey(t), "github.com/tychoish/birch/", ""), "github.com/tychoish/", "")
}

// apiMethods: what the types behind the library's interfaces are called by
var apiMethods = map[string]bool{"Add": true, "AddEvent": true, "SetMetadata": true, "Resolve": true, "Info": true, "Reset": true, "Serialize": true, "Header": true,
	"HasResponse": true, "Scope": true, "Write": true, "MarshalBSON": true, "MarshalDocument": true, "MarshalJSON": true, "Close": true}

func recvTypeName(f *ssa.Function) string {
	r := f.Signature.Recv()
	if r == nil {
		return ""
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func shortPkg(f *ssa.Function) string {
	return strings.TrimPrefix(strings.TrimPrefix(fnPkg(f), modPath), "/")
}

// apiEntries: the functions users call
func (w *World) apiEntries() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || !ast.IsExported(f.Name()) {
			continue
		}
		p := shortPkg(f)
		if strings.HasSuffix(p, "testutil") || strings.HasPrefix(p, "x/bench") || p == "jsonx/internal" {
			continue
		}
		if n := recvTypeName(f); n != "" && !ast.IsExported(n) && !apiMethods[f.Name()] {
			continue
		}
		out = append(out, f)
	}
	return out
}

func buildIterators(w *World) {
	for _, dep := range w.Prog.AllPackages() {
		if p := dep.Pkg.Path(); p == "github.com/tychoish/fun/irt" {
			dep.Build()
		}
	}
}

// lazy: contents that are made on demand from what is there
func lazy(l eloc) bool {
	t := shortType(l.o.typ)
	switch {
	case strings.HasSuffix(t, "birch.Document"):
		return l.p == ".cache" || l.p == ".cacheValid"
	case strings.HasSuffix(t, "birch.Value"):
		return l.p == ".d"
	}
	return false
}

// observer: may the function change its receiver?
func observer(f *ssa.Function) bool {
	n := f.Name()
	switch shortPkg(f) {
	case "":
		switch recvTypeName(f) {
		case "Document", "Array", "Element", "Value", "Reader", "Elements", "DocumentMap":
			switch n {
			case "Append", "AppendOmitEmpty", "Set", "SetValue", "Delete", "Extend", "ExtendFromDocument", "Reset", "ReadFrom", "Swap", "Sort":
				return false
			}
			return !strings.HasPrefix(n, "Unmarshal") || recvTypeName(f) == "Document" && n == "Unmarshal"
		}
		return false
	case "jsonx":
		switch recvTypeName(f) {
		case "Document", "Array", "Element", "Value":
			return n == "Copy" || n == "Len" || n == "Iterator" || n == "Key" || n == "Value" || n == "ValueOK" || n == "Type" || n == "Interface" || n == "KeyAtIndex" ||
				n == "ElementAtIndex" || n == "MarshalJSON" || strings.HasPrefix(n, "String") || strings.HasSuffix(n, "OK")
		}
		return false
	case "types":
		return !strings.HasPrefix(n, "Unmarshal")
	}
	switch n {
	case "Info", "MarshalDocument", "MarshalBSON", "MarshalJSON", "Header", "HasResponse", "Scope", "Serialize":
		return true
	case "Resolve":
		return recvTypeName(f) != "bufferedCollector"
	}
	return false
}

// derived: what serializing a message fills in
func derived(f *ssa.Function, l eloc) bool {
	if f.Name() != "Serialize" && f.Name() != "HasResponse" {
		return false
	}
	return strings.HasSuffix(l.p, ".Size") || strings.HasSuffix(l.p, ".serialized") || strings.HasSuffix(shortType(l.o.typ), "[]byte")
}

// destination: an argument that is there to be written to
func destination(f *ssa.Function, root string, l eloc) bool {
	n := f.Name()
	if strings.HasPrefix(n, "Unmarshal") || strings.HasPrefix(n, "Read") && root != "argument r" || strings.HasPrefix(n, "Collect") || n == "Validate" {
		return true
	}
	if shortPkg(f) == "elements" {
		s, ok := l.o.typ.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte])
	}
	return false
}

type ownRule struct {
	result bool // else: what the receiver holds afterwards
	root   string
	direct []string // types that may not be shared by the result itself
	deep   []string // types that may not be shared at all; "*" any
	why    string
}

const anyType = "*"

func ownRules(f *ssa.Function) []ownRule {
	var out []ownRule
	p, rn, n := shortPkg(f), recvTypeName(f), f.Name()
	elems := []string{"[]*birch.Element", "[]*birch.Value", "birch.DocumentMap", "[]*jsonx.Element", "[]*jsonx.Value"}
	bytesOut := func() bool {
		rs := f.Signature.Results()
		return rs.Len() > 0 && isByteSlice(rs.At(0).Type())
	}
	switch p {
	case "":
		switch {
		case n == "Copy" && rn == "Value":
			out = append(out, ownRule{true, "the receiver", []string{"birch.Value"}, nil, "a copy is a value of its own"})
		case n == "Copy" && rn == "Element":
			out = append(out, ownRule{true, "the receiver", []string{"birch.Element"}, []string{"birch.Value"}, "a copy has a value of its own"})
		case n == "Copy" || n == "Sorted" || n == "Map" && rn == "Document":
			out = append(out, ownRule{true, "the receiver", []string{"birch.Document"}, elems, "a copy has its own list of elements"})
		case rn == "DocumentMap" && n == "MarshalDocument":
			out = append(out, ownRule{true, "the receiver", nil, elems, "the document has its own list of elements"})
		case (n == "MarshalBSON" || n == "MarshalJSON") && rn != "Reader" && bytesOut():
			out = append(out, ownRule{true, "the receiver", nil, []string{anyType}, "the encoding is memory of its own"})
		case rn == "Value" && (n == "Binary" || n == "BinaryOK" || n == "Interface" || n == "InterfaceOK"):
			out = append(out, ownRule{true, "the receiver", nil, []string{"[]byte"}, "what it returns is a copy of the document's bytes"})
		}
		switch rn {
		case "ElementConstructor", "ElementConstructorError", "ValueConstructor", "ValueConstructorError":
			for _, a := range f.Params[1:] {
				if isByteSlice(a.Type()) && typeKey(a.Type()) == "[]byte" {
					out = append(out, ownRule{true, "argument " + a.Name(), nil, []string{anyType}, "the element has its own copy of the bytes"})
				}
				if n == "Value" && strings.HasSuffix(typeKey(a.Type()), "birch.Value") {
					out = append(out, ownRule{true, "argument " + a.Name(), nil, []string{"[]byte", "birch.Value", "birch.Document", "[]*birch.Element"}, "the element has its own copy of the value"})
				}
			}
		}
		fallthrough
	case "jsonx":
		if p == "jsonx" && n == "Copy" {
			out = append(out, ownRule{true, "the receiver", []string{"jsonx.Document", "jsonx.Array", "jsonx.Element", "jsonx.Value"}, []string{"[]*jsonx.Element", "[]*jsonx.Value", "jsonx.Element", "jsonx.Value"}, "a copy has elements of its own"})
		}
		if p == "jsonx" && n == "MarshalJSON" {
			out = append(out, ownRule{true, "the receiver", nil, []string{"[]byte"}, "the encoding is memory of its own"})
		}
		for i, a := range f.Params {
			if i == 0 && f.Signature.Recv() != nil || n == "Interface" {
				continue
			}
			t := shortType(a.Type())
			if t == "[]*birch.Element" || t == "[]*birch.Value" || t == "[]*jsonx.Element" || t == "[]*jsonx.Value" || t == "*birch.Document" || t == "*birch.Array" {
				for _, res := range []bool{true, false} {
					out = append(out, ownRule{res, "argument " + a.Name(), nil, elems, "the list of elements is copied, not shared"})
				}
			}
		}
	}
	if p == "x/mrpc/mongowire" && (n == "NewInsert" || n == "NewOpMessage") {
		for _, a := range f.Params {
			if _, ok := a.Type().Underlying().(*types.Slice); ok && strings.HasSuffix(typeKey(a.Type()), "birch.Document") {
				out = append(out, ownRule{true, "argument " + a.Name(), nil, append([]string{"birch.Document", "[]birch.Document", "[]*birch.Document"}, elems...), "the message has its own copy of the documents"})
			}
		}
	}
	if n == "Write" && f.Signature.Params().Len() == 1 && isByteSlice(f.Signature.Params().At(0).Type()) && len(f.Params) == 2 {
		out = append(out, ownRule{false, "argument " + f.Params[1].Name(), nil, []string{anyType}, "writers must not keep what they are given"})
	}
	return out
}

func listed(ts []string, t types.Type) bool {
	s := shortType(t)
	for _, x := range ts {
		if x == anyType || x == s {
			return true
		}
	}
	return false
}

func checkEffects(w *World, r *Report) {
	r.Rule = "points-to and write-effect analysis from every function users call"
	buildIterators(w)
	entries := w.apiEntries()
	r.inParallel(len(entries), func(i int, r *Report) {
		f := entries[i]
		t0 := time.Now()
		e := effectsOf(w, f)
		if d := time.Since(t0); os.Getenv("AN_TIME") != "" && d > 5*time.Second {
			fmt.Println("SLOW", fnName(f), d, len(e.order), len(e.objs), e.k, e.lost)
		}
		name := fnName(f)
		r.Counts["functions analysed"]++
		r.Counts["call contexts"] += len(e.order)
		if e.lost != "" {
			r.Counts["undecided: "+e.lost]++
			if os.Getenv("AN_DUMP") != "" {
				fmt.Println("UNDECIDED", name, e.lost)
			}
			return
		}
		var ws []ewrite
		for _, x := range e.writes {
			ws = append(ws, x)
		}
		sort.Slice(ws, func(i, j int) bool {
			a, b := ws[i], ws[j]
			if pa, pb := instrPos(a.in), instrPos(b.in); pa != pb {
				return pa < pb
			}
			return a.loc.p < b.loc.p
		})
		good := true
		for _, x := range ws {
			r.Counts["writes reached from parameters"]++
			root := x.loc.o.root
			switch {
			case lazy(x.loc), strings.HasPrefix(root, "global"):
				continue
			case root == "the receiver" && (!observer(f) || derived(f, x.loc)):
				continue
			case root != "the receiver" && destination(f, root, x.loc):
				continue
			}
			good = false
			r.fail("writes|"+name+"|"+root+"|"+shortType(x.loc.o.typ)+x.loc.p, w.pos(instrPos(x.in)),
				fmt.Sprintf("%s changes what it is only to read: %s %s%s of %s, in %s", name, x.how, shortType(x.loc.o.typ), x.loc.p, root, fnName(x.ctx.fn)))
		}
		if good {
			r.ok(name + " writes nothing it is only to read")
		}
		for _, rule := range ownRules(f) {
			w.owns(r, e, f, rule)
		}
	})
	r.min("functions analysed", 300)
}

func (w *World) owns(r *Report, e *effects, f *ssa.Function, rule ownRule) {
	name := fnName(f)
	start := eval{}
	c := e.order[0]
	if rule.result {
		for _, v := range c.ret {
			for p, s := range v {
				start.join(p, s)
			}
		}
	} else if f.Signature.Recv() != nil {
		start = c.env[f.Params[0]]
	} else {
		return
	}
	bad := ""
	direct := map[*eobj]bool{}
	for _, s := range start {
		for l := range s.all() {
			direct[l.o] = true
			if rule.result && l.o.kind == 'p' && l.o.root == rule.root && (listed(rule.direct, l.o.typ) || listed(rule.deep, l.o.typ)) {
				bad = shortType(l.o.typ)
			}
		}
	}
	for o := range e.reachable(start) {
		if !direct[o] && o.kind == 'p' && o.root == rule.root && listed(rule.deep, o.typ) {
			bad = shortType(o.typ)
		}
	}
	if !rule.result && f.Name() == "Write" {
		// handed to something that may keep it
		for _, p := range e.passed {
			if p.m.Name() == "Write" {
				continue
			}
			for _, a := range p.in.Common().Args {
				for o := range e.reachable(p.ctx.val(e, a)) {
					if o.kind == 'p' && o.root == rule.root {
						bad = shortType(o.typ) + " (through " + p.m.Name() + ")"
					}
				}
			}
		}
	}
	what := "its result"
	if !rule.result {
		what = "what it keeps"
	}
	key := "shares|" + name + "|" + rule.root + "|" + what
	if bad == "" {
		r.ok(name + ": " + rule.why)
	} else {
		r.fail(key, w.pos(f.Pos()), fmt.Sprintf("%s: %s shares %s with %s, but %s", name, what, bad, rule.root, rule.why))
	}
}
