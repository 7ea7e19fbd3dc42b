package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P26: what a type writes about itself into a document is what it reads back.

// docElem is one element a MarshalDocument method writes
type docElem struct {
	key, kind, src string
	pos            token.Pos
	sub            []*docElem
	open           bool // the sub document is not known in full
}

type docEval struct {
	w      *World
	r      *Report
	ev     *fmtEval
	typ    *types.Named
	n      int
	elems  map[string]*docElem
	field  map[string]fieldRef
	docs   map[string]string // element -> document it is in
	known  map[string]string // element -> key, where the key is part of how it was found
	recs   []*docRec
	pos    token.Pos
	strict bool
}

type fieldRef struct {
	s *types.Struct
	i int
}

type docRec struct {
	st   *fstate
	done bool // the function returned
	err  int  // -1 an error, 1 none, 0 unknown
}

var elemKinds = map[string]string{
	"Double": "double", "String": "string", "SubDocument": "doc", "SubDocumentFromElements": "doc", "SubDocumentFromReader": "doc",
	"DocumentMarshaler": "doc", "Array": "array", "ArrayFromElements": "array", "Boolean": "bool", "Time": "datetime", "DateTime": "datetime",
	"Int32": "int32", "Int64": "int64", "Duration": "int64", "Int": "int", "SliceString": "array", "SliceInt64": "array", "SliceInt32": "array",
	"SliceFloat64": "array", "SliceFloat32": "array", "SliceInt": "array", "SliceTime": "array", "SliceDuration": "array",
}

var accKinds = map[string]string{
	"Double": "double", "StringValue": "string", "MutableDocument": "doc", "ReaderDocument": "doc", "MutableArray": "array", "ReaderArray": "array",
	"Boolean": "bool", "Time": "datetime", "DateTime": "datetime", "Int32": "int32", "Int64": "int64", "Int": "int32 int64",
}

func (d *docEval) undecided(f string, a ...any) {
	d.r.Counts["undecided"]++
	if os.Getenv("AN_DUMP") != "" {
		fmt.Println("UNDECIDED", d.typ, fmt.Sprintf(f, a...))
	}
}

func checkEvents(w *World, r *Report) {
	r.Rule = "abstract interpretation of every MarshalDocument and UnmarshalDocument: elements of one document have different keys; an element whose value comes from a tagged field bears no other field's tag (and, for events, histograms and responses, exactly its own; no field is left out); where the type also reads itself, every path of the reader on which the key and the element type are the written ones stores that element's value into the field it was written from, and an element of another type leads to an error"
	r.Assumptions = append(r.Assumptions, "element constructors and accessors do what P05 and P07 decide")
	var types_ []*types.Named
	seen := map[*types.Named]bool{}
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Signature.Recv() == nil || f.Pkg == nil || f.Pkg.Pkg.Path() == modPath || len(f.Blocks) == 0 {
			continue
		}
		if f.Name() != "MarshalDocument" && f.Name() != "UnmarshalDocument" {
			continue
		}
		n, _ := derefT(f.Signature.Recv().Type()).(*types.Named)
		if n != nil && !seen[n] {
			seen[n] = true
			types_ = append(types_, n)
		}
	}
	sort.Slice(types_, func(i, j int) bool { return types_[i].String() < types_[j].String() })
	method := func(n *types.Named, name string) *ssa.Function {
		for i := 0; i < n.NumMethods(); i++ {
			if m := n.Method(i); m.Name() == name {
				return w.Prog.FuncValue(m)
			}
		}
		return nil
	}
	for _, n := range types_ {
		mar, un := method(n, "MarshalDocument"), method(n, "UnmarshalDocument")
		d := &docEval{w: w, r: r, typ: n}
		p := n.Obj().Pkg().Path()
		d.strict = strings.HasSuffix(p, "/x/ftdc/events") || strings.HasSuffix(p, "/x/ftdc/hdrhist") || strings.HasSuffix(p, "/x/mrpc/shell")
		if mar == nil {
			continue // part of another type: read by that one
		}
		r.Counts["types written"]++
		ways, ok := d.write(mar)
		if !ok || un == nil {
			continue
		}
		r.Counts["types read back"]++
		d.read(un, ways)
	}
	r.min("types written", 5)
	r.min("types read back", 3)
	r.min("elements read back", 8)
}

func (d *docEval) reset() {
	d.ev = newFmtEval(d.w)
	d.elems, d.field, d.docs, d.known = map[string]*docElem{}, map[string]fieldRef{}, map[string]string{}, map[string]string{}
	d.recs = nil
	d.ev.inline = func(f *ssa.Function) bool {
		return inPkgPrefix(f, modPath+"/x")
	}
	d.ev.onField = func(key string, s *types.Struct, i int) { d.field[key] = fieldRef{s, i} }
	d.ev.onCallK = d.call
}

func inPkgPrefix(f *ssa.Function, p string) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && (f.Pkg.Pkg.Path() == p || strings.HasPrefix(f.Pkg.Pkg.Path(), p+"/"))
}

func receiver(f *ssa.Function) fval {
	if _, ok := f.Params[0].Type().Underlying().(*types.Pointer); ok {
		return fval{k: 'p', key: "R"}
	}
	return fx("R")
}

// write: every way the method can produce a document
func (d *docEval) write(f *ssa.Function) ([][]*docElem, bool) {
	d.reset()
	d.pos = f.Pos()
	var ways [][]*docElem
	ok := true
	d.ev.run(newFstate(), f, []fval{receiver(f)}, func(st *fstate, res []fval) {
		if len(res) == 2 && nilF(res[1]) == -1 {
			return
		}
		if res[0].k != 'p' {
			if res[0].k != 'n' {
				ok = false
				d.undecided("returns %s", res[0])
			}
			return
		}
		el, open := d.contents(st, res[0])
		if open {
			d.undecided("contents of %s", res[0])
			ok = false
		}
		if d.strict && !open {
			d.complete(el)
		}
		ways = append(ways, el)
	})
	if d.ev.lost != "" {
		d.undecided("lost: %s", d.ev.lost)
		return nil, false
	}
	if ok {
		d.r.Counts["types written and understood"]++
	}
	return ways, ok
}

func (d *docEval) contents(st *fstate, doc fval) (el []*docElem, open bool) {
	c, ok := st.mem[doc.key+"!"]
	if doc.k != 'p' || !ok || c.k != 'V' {
		return nil, true
	}
	for _, v := range c.tup {
		e := d.elems[v.key]
		if v.k != 'E' || e == nil {
			open = true
			continue
		}
		if len(v.tup) > 0 && v.tup[0].k == 'p' {
			cp := *e
			cp.sub, cp.open = d.contents(st, v.tup[0])
			e = &cp
		}
		el = append(el, e)
	}
	return el, open
}

func (d *docEval) newDoc(st *fstate, el []fval, ok bool) fval {
	d.n++
	k := fmt.Sprintf("bdoc%d", d.n)
	if ok {
		st.mem[k+"!"] = fval{k: 'V', tup: el, desc: fmt.Sprintf("doc of %d", len(el))}
	} else {
		st.mem[k+"!"] = fx("?elements")
	}
	v := fval{k: 'p', key: k}
	d.checkDoc(st, v)
	return v
}

func listOf(v fval) ([]fval, bool) {
	switch v.k {
	case 'n':
		return nil, true
	case 'v':
		return v.tup, true
	case 'A':
		if v.desc == "nil" || strings.HasPrefix(v.desc, "mk") {
			return v.tup, true
		}
	}
	return nil, false
}

func constStr(v fval) (string, bool) {
	if v.k != 'x' || !strings.HasPrefix(v.desc, `"`) {
		return "", false
	}
	s, err := strconv.Unquote(v.desc)
	return s, err == nil
}

// source names the field a value was taken from
func (d *docEval) source(st *fstate, v fval) string {
	switch v.k {
	case 'i':
		if t, ok := v.sum.single(); ok {
			if c := scaled(t); c != "" {
				return c
			}
			// arithmetic on known things
			if i := strings.Index(t, "("); i > 1 && i < 4 && t[0] == '?' && !strings.Contains(t[1:], "?") && strings.ContainsAny(t[1:2], "/%*+-&|^<>") {
				return "calc:" + t[1:]
			}
			return t
		}
		if c, ok := v.sum.konst(); ok {
			return fmt.Sprint("=", c)
		}
		if !v.sum.opaque() {
			return "calc:" + v.sum.String()
		}
		return "?"
	case 'c':
		if v.desc == "true" {
			return fmt.Sprint("=", v.truth)
		}
		if !v.truth {
			return "calc:not " + v.desc
		}
		return v.desc
	case 'x':
		if strings.HasPrefix(v.desc, `"`) {
			return "=" + v.desc
		}
		if c := scaled(v.desc); c != "" {
			return c
		}
		return v.desc
	case 'p':
		// an object made to hold one thing
		if strings.HasPrefix(v.key, "new") {
			one := ""
			for k, m := range st.mem {
				if strings.HasPrefix(k, v.key+".") {
					if one != "" {
						return "?"
					}
					one = d.source(st, m)
				}
			}
			if one != "" {
				return one
			}
			return "?"
		}
		if m, ok := st.mem[v.key]; ok {
			return d.source(st, m)
		}
		return v.key
	}
	return "?"
}

// scaled: a duration or time asked for in another unit or precision
func scaled(t string) string {
	t = strings.TrimPrefix(t, "?")
	i := strings.Index(t, "(")
	if i < 0 || strings.Contains(t, "?") || !strings.HasPrefix(t[i+1:], "R.") {
		return ""
	}
	switch t[:i] {
	case "Nanoseconds":
		return strings.TrimSuffix(t[i+1:], ")")
	case "Microseconds", "Milliseconds", "Seconds", "Minutes", "Hours", "Round", "Truncate", "Abs", "Add":
		return "calc:" + t
	}
	return ""
}

func tagOf(f fieldRef) string {
	for _, k := range []string{"bson", "json"} {
		if t, ok := reflect.StructTag(f.s.Tag(f.i)).Lookup(k); ok {
			n, opts, _ := strings.Cut(t, ",")
			if strings.Contains(opts, "inline") {
				return ""
			}
			if n != "" && n != "-" {
				return n
			}
		}
	}
	return ""
}

func (d *docEval) elem(st *fstate, c *ssa.Call, name string, args []fval) fval {
	d.n++
	id := fmt.Sprintf("el%d", d.n)
	v := fval{k: 'E', key: id, desc: id}
	key, ok := constStr(args[1])
	kind := elemKinds[name]
	if !ok || kind == "" || len(args) < 3 {
		v.desc = "?" + id
		return v
	}
	e := &docElem{key: key, kind: kind, pos: c.Pos()}
	d.elems[id] = e
	switch name {
	case "SubDocument":
		v.tup = []fval{args[2]}
	case "SubDocumentFromElements":
		l, ok := listOf(args[2])
		v.tup = []fval{d.newDoc(st, l, ok)}
	default:
		e.src = d.source(st, args[2])
	}
	return v
}

// checkDoc: keys differ, and no element bears the name of a field other than the one it is taken from
func (d *docEval) checkDoc(st *fstate, doc fval) {
	el, _ := d.contents(st, doc)
	tn := typeKey(d.typ)
	seen := map[string]*docElem{}
	for _, e := range el {
		if o := seen[e.key]; o != nil {
			d.r.fail("dup|"+tn+"|"+e.key, d.w.pos(e.pos), fmt.Sprintf("%s writes two elements under the key %q (the other at %s)", tn, e.key, d.w.pos(o.pos)))
			continue
		}
		seen[e.key] = e
		d.checkTag(e)
	}
}

func (d *docEval) checkTag(e *docElem) {
	tn := typeKey(d.typ)
	src := e.src
	if src == "" {
		src = commonField(e.sub)
	}
	if src == "" || strings.Contains(src, "?") {
		return
	}
	if strings.HasPrefix(src, "calc:") && d.strict {
		d.r.fail("calc|"+tn+"|"+e.key, d.w.pos(e.pos), fmt.Sprintf("%s writes %s under %q, not a field as it is", tn, src[5:], e.key))
		return
	}
	f, ok := d.field[src]
	if !ok {
		return
	}
	name := f.s.Field(f.i).Name()
	own := tagOf(f)
	for i := 0; i < f.s.NumFields(); i++ {
		if i != f.i && tagOf(fieldRef{f.s, i}) == e.key {
			d.r.fail("tag|"+tn+"|"+e.key, d.w.pos(e.pos), fmt.Sprintf("%s writes the field %s under %q, which is the name of the field %s", tn, src, e.key, f.s.Field(i).Name()))
			return
		}
	}
	if d.strict && own != "" && own != e.key {
		d.r.fail("name|"+tn+"|"+e.key, d.w.pos(e.pos), fmt.Sprintf("%s writes the field %s under %q; its tag is %q", tn, name, e.key, own))
		return
	}
	d.r.ok(fmt.Sprintf("%s: %s written from %s", tn, e.key, src))
	d.r.Counts["elements named like their field"]++
}

// commonField: the field all parts of a document were taken from
func commonField(el []*docElem) string {
	p := ""
	for i, e := range el {
		s := e.src
		if s == "" {
			s = commonField(e.sub)
		}
		if !strings.HasPrefix(s, "R.") {
			return ""
		}
		if j := strings.LastIndex(s, "."); j > 1 {
			s = s[:j]
		} else {
			return ""
		}
		if i > 0 && p != s {
			return ""
		}
		p = s
	}
	return p
}

func flatten(el []*docElem, path string, f func(path string, e *docElem)) {
	for _, e := range el {
		f(path, e)
		flatten(e.sub, path+"/"+e.key, f)
	}
}

// complete: every tagged field of the type is written
func (d *docEval) complete(el []*docElem) {
	have := map[string]bool{}
	open := false
	flatten(el, "", func(_ string, e *docElem) {
		s := e.src
		for s != "" {
			have[s] = true
			i := strings.LastIndex(s, ".")
			if i < 0 {
				break
			}
			s = s[:i]
		}
		if strings.Contains(e.src, "?") || e.open {
			open = true
		}
	})
	if open {
		d.undecided("open")
		return
	}
	var walk func(t types.Type, path string, depth int)
	walk = func(t types.Type, path string, depth int) {
		_, s := derefStruct(t)
		if s == nil || depth > 4 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			p := path + "." + f.Name()
			if tag := reflect.StructTag(s.Tag(i)).Get("bson"); tag == "" || tag == "-" {
				continue
			}
			if !have[p] {
				d.r.fail("missing|"+typeKey(d.typ)+"|"+p, d.w.pos(d.pos), fmt.Sprintf("%s does not write its field %s", typeKey(d.typ), p[2:]))
				continue
			}
			d.r.ok(typeKey(d.typ) + ": " + p[2:] + " is written")
			if n, ok := f.Type().(*types.Named); ok && strings.HasPrefix(pathOf(n), modPath) {
				if _, isS := n.Underlying().(*types.Struct); isS {
					walk(n, p, depth+1)
				}
			}
		}
	}
	walk(d.typ, "R", 0)
}

func pathOf(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

// call models birch's API on documents, elements and values
func (d *docEval) call(ev *fmtEval, fr *fframe, st *fstate, c *ssa.Call, args []fval, k func(*fstate, fval)) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		if c.Call.IsInvoke() {
			return false
		}
		it := ev.val(fr, st, c.Call.Value)
		if it.k == 'x' && strings.HasPrefix(it.desc, "iter(") && len(args) == 1 {
			d.iterate(ev, fr, st, it.desc[5:len(it.desc)-1], it.base == "array", args[0], k)
			return true
		}
		return false
	}
	if !inPkg(f, modPath) {
		return false
	}
	name := f.Name()
	switch recvName(f) {
	case "ElementConstructor":
		k(st, d.elem(st, c, name, args))
		return true
	case "DocumentConstructor":
		switch name {
		case "Elements", "ElementsOmitEmpty":
			l, ok := listOf(args[1])
			k(st, d.newDoc(st, l, ok))
			return true
		case "Make", "New":
			k(st, d.newDoc(st, nil, true))
			return true
		}
	case "Document":
		if args[0].k == 'p' && strings.HasPrefix(args[0].key, "bdoc") {
			switch name {
			case "Append", "AppendOmitEmpty", "Set":
				l, ok := listOf(args[1])
				if name == "Set" {
					l, ok = []fval{args[1]}, args[1].k == 'E'
				}
				old := st.mem[args[0].key+"!"]
				if !ok || old.k != 'V' {
					st.mem[args[0].key+"!"] = fx("?elements")
				} else {
					all := append(append([]fval{}, old.tup...), l...)
					st.mem[args[0].key+"!"] = fval{k: 'V', tup: all, desc: fmt.Sprintf("doc of %d %s", len(all), all)}
					d.checkDoc(st, args[0])
				}
				k(st, args[0])
				return true
			}
			return false
		}
		dn := ev.describe(args[0])
		switch name {
		case "Iterator":
			k(st, fval{k: 'x', desc: "iter(" + dn + ")"})
			return true
		case "Elements":
			k(st, fx("elems("+dn+")"))
			return true
		case "ElementAt":
			k(st, fx(d.newElem(dn, "")))
			return true
		case "Lookup", "LookupElement":
			if key, ok := constStr(args[1]); ok {
				e := d.newElem(dn, key)
				if name == "Lookup" {
					e = "val(" + e + ")"
				}
				k(st, fx(e))
				return true
			}
		case "LookupErr", "LookupElementErr":
			if key, ok := constStr(args[1]); ok {
				e := d.newElem(dn, key)
				v := e
				if name == "LookupErr" {
					v = "val(" + e + ")"
				}
				bad := st.clone()
				st.cond["there("+e+")"] = true
				bad.cond["there("+e+")"] = false
				k(st, fval{k: 'T', tup: []fval{fx(v), {k: 'n'}}})
				k(bad, fval{k: 'T', tup: []fval{{k: 'n'}, fx("error:" + fr.key(c))}})
				return true
			}
		}
	case "Array":
		if name == "Iterator" {
			k(st, fval{k: 'x', desc: "iter(" + ev.describe(args[0]) + ")", base: "array"})
			return true
		}
	case "Element":
		e := d.elemName(args[0])
		switch name {
		case "Key":
			if e != "" {
				if key, ok := d.known[e]; ok {
					k(st, fx(strconv.Quote(key)))
				} else {
					k(st, fx("key("+e+")"))
				}
				return true
			}
		case "Value":
			if e != "" {
				k(st, fx("val("+e+")"))
				return true
			}
		}
	case "Value":
		dn := ev.describe(args[0])
		if !strings.HasPrefix(dn, "val(") {
			return false
		}
		e := dn[4 : len(dn)-1]
		if name == "Type" {
			k(st, fi(fterm("type("+e+")")))
			return true
		}
		base := strings.TrimSuffix(name, "OK")
		if accKinds[base] == "" {
			return false
		}
		an := "acc:" + base + ":" + e
		var v fval
		if isInt(f.Signature.Results().At(0).Type()) {
			v = fi(fterm(an))
		} else {
			v = fx(an)
		}
		if base == "MutableDocument" || base == "ReaderDocument" || base == "MutableArray" {
			v = fx("sub(" + e + ")")
		}
		if base != name {
			v = fval{k: 'T', tup: []fval{v, {k: 'c', desc: "ok:" + base + ":" + e, truth: true}}}
		} else {
			st.cond["ok:"+base+":"+e] = true
		}
		k(st, v)
		return true
	}
	return false
}

func (d *docEval) newElem(doc, key string) string {
	d.n++
	e := fmt.Sprintf("e%d", d.n)
	d.docs[e] = doc
	if key != "" {
		d.known[e] = key
	}
	return e
}

// elemName: elements taken out of a list of all elements stand for any of them
func (d *docEval) elemName(v fval) string {
	if v.k != 'x' && v.k != 'p' {
		return ""
	}
	n := d.ev.describe(v)
	if _, ok := d.docs[n]; ok {
		return n
	}
	if strings.HasPrefix(n, "elems(") && strings.HasSuffix(n, ")[]") {
		d.docs[n] = n[len("elems(") : len(n)-3]
		return n
	}
	return ""
}

// iterate runs the body of a loop over a document once, for an element that may be any
func (d *docEval) iterate(ev *fmtEval, fr *fframe, st *fstate, doc string, array bool, body fval, k func(*fstate, fval)) {
	if body.fn == nil {
		ev.giveUp("loop body unknown")
		return
	}
	e := d.newElem(doc, "")
	arg := fx(e)
	if array {
		arg = fx("val(" + e + ")")
	}
	args := append([]fval{arg}, body.tup...)
	ev.runAt(fr.depth+1, st.clone(), body.fn, args, func(s2 *fstate, res []fval) {
		if len(res) != 1 || res[0].k != 'c' || res[0].desc != "true" {
			ev.giveUp("loop body's result")
			return
		}
		if res[0].truth {
			d.recs = append(d.recs, &docRec{st: s2.clone()})
			return
		}
		k(s2, fx(""))
	})
	k(st, fx(""))
}

// path: the keys that lead to an element under the conditions of a path
func (d *docEval) path(e string, cond map[string]bool, key string) (string, bool) {
	doc := d.docs[e]
	p := ""
	if strings.HasPrefix(doc, "sub(") {
		o := doc[4 : len(doc)-1]
		okey, ok := d.keyOf(o, cond)
		if !ok {
			return "", false
		}
		op, ok := d.path(o, cond, okey)
		if !ok {
			return "", false
		}
		p = op
	} else if doc != "D" {
		return "", false
	}
	return p + "/" + key, true
}

func (d *docEval) keyOf(e string, cond map[string]bool) (string, bool) {
	if k, ok := d.known[e]; ok {
		return k, true
	}
	for c, t := range cond {
		if !t {
			continue
		}
		a, b, ok := strings.Cut(c, " == ")
		if !ok {
			continue
		}
		if b == "key("+e+")" {
			if s, err := strconv.Unquote(a); err == nil {
				return s, true
			}
		}
	}
	return "", false
}

func (d *docEval) read(f *ssa.Function, ways [][]*docElem) {
	elemsW := d.field
	d.reset()
	_ = elemsW
	tn := typeKey(d.typ)
	d.ev.onBack = func(st *fstate) { d.recs = append(d.recs, &docRec{st: st.clone()}) }
	d.ev.run(newFstate(), f, []fval{receiver(f), fx("D")}, func(st *fstate, res []fval) {
		rec := &docRec{st: st, done: true}
		if len(res) == 1 {
			rec.err = nilF(res[0])
		}
		d.recs = append(d.recs, rec)
	})
	if d.ev.lost != "" {
		d.undecided("reading lost: %s", d.ev.lost)
		return
	}
	if os.Getenv("AN_DUMP") == "rec" {
		for _, r := range d.recs {
			fmt.Println("REC", tn, r.done, r.err, r.st.cond)
			for k, v := range r.st.mem {
				if strings.HasPrefix(k, "R") {
					fmt.Println("   ", k, v)
				}
			}
		}
	}
	done := map[string]bool{}
	for _, el := range ways {
		flatten(el, "", func(path string, e *docElem) {
			if len(e.sub) > 0 || e.open || e.src == "" || strings.Contains(e.src, "?") || !strings.HasPrefix(e.src, "R.") {
				return
			}
			id := path + "/" + e.key + "|" + e.kind + "|" + e.src
			if done[id] {
				return
			}
			done[id] = true
			kinds := []string{e.kind}
			if e.kind == "int" {
				kinds = []string{"int32", "int64"}
			}
			for _, kd := range kinds {
				d.readBack(path+"/"+e.key, e, kd)
			}
		})
	}
}

// readBack: one element that is written, looked for among all ways through the reader
func (d *docEval) readBack(path string, e *docElem, kind string) {
	tn := typeKey(d.typ)
	pos := d.w.pos(e.pos)
	found, unknownKey, fits, stored := false, false, false, false
	for _, r := range d.recs {
		for el := range d.docs {
			key, ok := d.keyOf(el, r.st.cond)
			last := path[strings.LastIndex(path, "/")+1:]
			if !ok {
				// passed over for what it holds, whatever its key
				if hasCond(r.st.cond, strconv.Quote(last)+" == key("+el+")") || !asksValue(r.st.cond, el) {
					continue
				}
				key = last
			}
			p, isIt := d.path(el, r.st.cond, key)
			if !isIt || p != path {
				continue
			}
			keyKnown := ok
			// how the value is asked for on this path
			match, asked, refused, other := true, 0, 0, false
			var state []string
			for c, t := range r.st.cond {
				if strings.HasPrefix(c, "ok:") && strings.HasSuffix(c, ":"+el) {
					acc := c[3 : len(c)-len(el)-1]
					asked++
					if !t {
						refused++
					}
					if strings.Contains(" "+accKinds[acc]+" ", " "+kind+" ") != t {
						match = false
					}
					continue
				}
				if n, is := typeCond(c, el); is {
					asked++
					if t == (n == kindTag[kind]) {
						continue
					}
					match = false
					refused++
					continue
				}
				if strings.Contains(c, "key(") || strings.HasPrefix(c, "ok:") || strings.HasPrefix(c, "there(") {
					continue
				}
				if stateOnly(c) {
					state = append(state, c)
					continue
				}
				other = true
			}
			if r.st.cond["there("+el+")"] == false && d.known[el] != "" && hasCond(r.st.cond, "there("+el+")") {
				continue
			}
			if d.known[el] != "" && asked == 0 {
				continue // looked up on the way, not used here
			}
			if keyKnown {
				found = true
			}
			if !keyKnown && match {
				continue
			}
			if asked > 0 && refused == asked {
				// of a type the reader does not take
				if r.done && r.err == -1 {
					continue
				}
				if !match || !other {
					if r.done && r.err == 0 || other {
						d.undecided("%s: other type", path)
						continue
					}
					d.r.fail("type|"+tn+"|"+path, pos, fmt.Sprintf("%s: an element %s of a type its reader does not take is passed over without an error", tn, path))
				}
				continue
			}
			if !match {
				continue
			}
			fits = true
			if other && !r.done && kind != "array" && d.keepsOld(r, e, el) {
				d.r.fail("lost|"+tn+"|"+path, pos, fmt.Sprintf("%s writes %s from %s, but its reader leaves there what was there before when that compares with the element in some way (%s)", tn, path, e.src, condText(r.st.cond)))
				stored = true
				continue
			}
			if other || len(state) > 0 && r.done && r.err == -1 {
				d.undecided("%s: other conditions %v", path, r.st.cond)
				stored = true
				continue
			}
			if r.done && r.err == -1 && kind == "array" && d.innerRefused(r.st.cond, el) {
				continue
			}
			if r.done && r.err == -1 {
				d.r.fail("reject|"+tn+"|"+path, pos, fmt.Sprintf("%s: the element %s, of the type %s it is written with, is refused by its reader", tn, path, kind))
				stored = true
				continue
			}
			v := d.ev.load(r.st, e.src, types.Typ[types.Invalid])
			s := v.String()
			if v.k == 'p' {
				if m, ok := r.st.mem[v.key]; ok {
					s = m.String()
				}
			}
			switch {
			case kind == "array" && strings.HasPrefix(s, e.src+"+["):
				d.r.fail("lost|"+tn+"|"+path, pos, fmt.Sprintf("%s: what is read for the list %s is added to what %s held before (%s)%s", tn, path, e.src, s, when(state)))
				stored = true
			case kind == "array" && strings.Contains(s, "acc:") && d.fromSub(s, el):
				stored = true
			case kind == "array":
				// the loop over its values not entered on this path
			case isAcc(s, el):
				stored = true
				d.r.ok(fmt.Sprintf("%s: %s read back into %s", tn, path, e.src))
				d.r.Counts["elements read back"]++
			case strings.Contains(s, "?"):
				d.undecided("%s: %s", path, s)
				stored = true
			default:
				d.r.fail("lost|"+tn+"|"+path, pos, fmt.Sprintf("%s writes %s from %s, but its reader leaves %s there (%s) when it comes to that key%s", tn, path, e.src, e.src, s, when(state)))
				stored = true
			}
		}
		for c := range r.st.cond {
			if strings.Contains(c, "?") {
				unknownKey = true
			}
		}
	}
	switch {
	case !found && unknownKey:
		d.undecided("%s not found", path)
	case !found:
		d.r.fail("unread|"+tn+"|"+path, pos, fmt.Sprintf("%s writes %s from its field %s, but nothing in its reader handles that key", tn, path, e.src))
	case !fits:
		d.r.fail("kind|"+tn+"|"+path, pos, fmt.Sprintf("%s writes %s as %s, a type its reader never accepts under that key", tn, path, kind))
	case !stored:
		d.r.fail("lost|"+tn+"|"+path, pos, fmt.Sprintf("%s writes %s from %s; its reader never puts what it finds there", tn, path, e.src))
	}
}

// keepsOld: on this path the field keeps its value, and all that is asked beside type and key is how that value
// compares with the element's, which does not make them equal
func (d *docEval) keepsOld(r *docRec, e *docElem, el string) bool {
	v := d.ev.load(r.st, e.src, types.Typ[types.Invalid])
	s := v.String()
	if v.k == 'p' {
		if m, ok := r.st.mem[v.key]; ok {
			s = m.String()
		}
	}
	if s != e.src {
		return false
	}
	less, more, n := false, false, 0
	for c, t := range r.st.cond {
		if strings.Contains(c, "key(") || strings.HasPrefix(c, "ok:") || strings.HasPrefix(c, "there(") {
			continue
		}
		if _, is := typeCond(c, el); is {
			continue
		}
		a, op, b := "", "", ""
		for _, o := range []string{" < ", " == "} {
			if x, y, ok := strings.Cut(c, o); ok {
				a, op, b = x, o, y
			}
		}
		switch {
		case a == e.src && isAcc(b, el):
		case b == e.src && isAcc(a, el):
		default:
			return false
		}
		n++
		switch {
		case op == " == " && t:
			return false
		case op == " < " && (a == e.src) == t:
			// the old value is the smaller one, or may be the greater
			less = true
		case op == " < ":
			more = true
		}
	}
	if !less && !more {
		return n > 0 // only known to differ
	}
	return n == 1
}

func condText(m map[string]bool) string {
	var s []string
	for c, t := range m {
		if strings.Contains(c, "R.") {
			s = append(s, fmt.Sprintf("%s is %v", c, t))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func hasCond(m map[string]bool, k string) bool { _, ok := m[k]; return ok }

// typeCond recognises a comparison of the element's type with a constant
func typeCond(c, el string) (int64, bool) {
	a, b, ok := strings.Cut(c, " == ")
	if !ok {
		return 0, false
	}
	if a == "type("+el+")" {
		a, b = b, a
	}
	if b != "type("+el+")" {
		return 0, false
	}
	n, err := strconv.ParseInt(a, 10, 64)
	return n, err == nil
}

var kindTag = map[string]int64{"double": 1, "string": 2, "doc": 3, "array": 4, "bool": 8, "datetime": 9, "int32": 16, "int64": 18}

// asksValue: some condition is about what the element holds
func asksValue(cond map[string]bool, el string) bool {
	for c := range cond {
		if strings.HasPrefix(c, "ok:") && strings.HasSuffix(c, ":"+el) {
			return true
		}
		if _, ok := typeCond(c, el); ok {
			return true
		}
	}
	return false
}

// stateOnly: a condition on what the receiver held before
func stateOnly(c string) bool {
	return strings.Contains(c, "R.") && !strings.Contains(c, "?") && !strings.Contains(c, ":") && !strings.Contains(c, "val(") && !strings.Contains(c, "sub(")
}

func when(state []string) string {
	if len(state) == 0 {
		return ""
	}
	sort.Strings(state)
	return ", depending on " + strings.Join(state, ", ")
}

// innerRefused: the path is about a value in the element's list that is not of the type expected
func (d *docEval) innerRefused(cond map[string]bool, el string) bool {
	for x, doc := range d.docs {
		if doc != "sub("+el+")" {
			continue
		}
		for c, t := range cond {
			if _, is := typeCond(c, x); is || strings.HasPrefix(c, "ok:") && strings.HasSuffix(c, ":"+x) && !t {
				return true
			}
		}
	}
	return false
}

func isAcc(s, el string) bool {
	return strings.HasPrefix(s, "acc:") && strings.HasSuffix(s, ":"+el)
}

// fromSub: the text mentions a value found in the list held by the element
func (d *docEval) fromSub(s, el string) bool {
	for x, doc := range d.docs {
		if doc == "sub("+el+")" && strings.Contains(s, ":"+x) {
			return true
		}
	}
	return false
}
