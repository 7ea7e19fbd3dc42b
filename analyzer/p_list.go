package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Documents and arrays as ordered lists: what each operation leaves and returns, for lists of up to four
// elements under every pattern of equal keys, with and without room behind the list.

type listRun struct {
	w      *World
	ev     *fmtEval
	ef     string            // list of a document
	vf     string            // value of an element
	df     string            // document of an array
	keys   map[string]string // of elements
	empty  map[string]bool   // values
	docs   map[string]string // values that hold a document
	arrs   map[string]string // values that hold an array
	panics int
	ny     int
}

func (w *World) newListRun() *listRun {
	t := &listRun{w: w, ef: w.elemsField(), keys: map[string]string{}, empty: map[string]bool{}, docs: map[string]string{}, arrs: map[string]string{}}
	_, es := derefStruct(w.structNamed(modPath, "Element"))
	for i := 0; es != nil && i < es.NumFields(); i++ {
		if es.Field(i).Type().String() == "*"+modPath+".Value" {
			t.vf = es.Field(i).Name()
		}
	}
	_, as := derefStruct(w.structNamed(modPath, "Array"))
	for i := 0; as != nil && i < as.NumFields(); i++ {
		if as.Field(i).Type().String() == "*"+modPath+".Document" {
			t.df = as.Field(i).Name()
		}
	}
	ev := newFmtEval(w)
	ev.exact, ev.nilDocs = true, true
	ev.inline = func(f *ssa.Function) bool {
		switch fnPkg(topFn(f)) {
		case "slices", "github.com/tychoish/fun/irt", "iter":
			return true
		}
		return inRepo(fnPkg(topFn(f)))
	}
	ev.flat = &flatHooks{bufs: map[string]bool{}, unroll: true, lists: true, caps: map[string]int64{},
		settle:   func(op token.Token, d fsum) (bool, bool) { return false, false },
		copied:   func(st *fstate, dst, src fval) (fsum, bool) { return nil, false },
		stored:   func(st *fstate, dst, v fval) {},
		word:     func(st *fstate, s fval, k int) (fval, bool) { return fval{}, false },
		panicked: func(st *fstate) { t.panics++ }}
	ev.onCallK = t.onCall
	t.ev = ev
	return t
}

func (t *listRun) onCall(ev *fmtEval, fr *fframe, st *fstate, x *ssa.Call, args []fval, k func(*fstate, fval)) bool {
	truth := func(b bool) fval { return fval{k: 'c', desc: "true", truth: b} }
	f := x.Call.StaticCallee()
	if f == nil {
		if !x.Call.IsInvoke() && strings.HasPrefix(ev.val(fr, st, x.Call.Value).desc, "#yield") {
			n := 0
			for st.mem[fmt.Sprintf("#y%d", n)].k != 0 {
				n++
			}
			st.mem[fmt.Sprintf("#y%d", n)] = args[0]
			stop := -1
			fmt.Sscanf(ev.val(fr, st, x.Call.Value).desc, "#yield%d", &stop)
			k(st, truth(n != stop))
			return true
		}
		return false
	}
	if len(args) == 0 {
		return false
	}
	a := args[0]
	switch fnName(f) {
	case "(*birch.Element).Key":
		if key, ok := t.keys[a.key]; ok && a.k == 'p' {
			k(st, fx(strconv.Quote(key)))
			return true
		}
		if c, ok := st.mem[a.key+".#key"]; ok && a.k == 'p' {
			k(st, c)
			return true
		}
	case "(*birch.Value).IsEmpty":
		if a.k == 'p' && strings.HasPrefix(a.key, "v") {
			k(st, truth(t.empty[a.key]))
			return true
		}
	case "(*birch.Value).Type":
		if a.k == 'p' && strings.HasPrefix(a.key, "v") {
			tag := int64(16)
			if t.docs[a.key] != "" {
				tag = 3
			} else if t.arrs[a.key] != "" {
				tag = 4
			}
			k(st, fi(fconst(tag)))
			return true
		}
	case "(*birch.Value).MutableDocumentOK", "(*birch.Value).MutableArrayOK", "(*birch.Value).MutableDocument", "(*birch.Value).MutableArray":
		if a.k != 'p' || !strings.HasPrefix(a.key, "v") {
			return false
		}
		d := t.docs[a.key]
		if strings.Contains(f.Name(), "Array") {
			d = t.arrs[a.key]
		}
		v := fval{k: 'n'}
		if d != "" {
			v = fval{k: 'p', key: d}
		}
		if strings.HasSuffix(f.Name(), "OK") {
			k(st, fval{k: 'T', tup: []fval{v, truth(d != "")}})
		} else if d == "" {
			t.panics++
		} else {
			k(st, v)
		}
		return true
	case "(birch.ElementConstructor).Value", "birch.convertValueToElem":
		n := len(args)
		if n >= 2 && args[n-1].k == 'p' {
			ev.ntmp++
			e := fmt.Sprintf("newE%d", ev.ntmp)
			st.mem[e+"."+t.vf] = args[n-1]
			st.mem[e+".#key"] = args[n-2]
			k(st, fval{k: 'p', key: e})
			return true
		}
	case "strconv.Atoi":
		if u, err := strconv.Unquote(a.desc); err == nil && a.k == 'x' {
			if n, err := strconv.Atoi(u); err == nil {
				k(st, fval{k: 'T', tup: []fval{fi(fconst(int64(n))), {k: 'n'}}})
			} else {
				k(st, fval{k: 'T', tup: []fval{fi(fsum{}), fx("error:atoi")}})
			}
			return true
		}
	case "strconv.ParseUint", "strconv.ParseInt":
		if u, err := strconv.Unquote(a.desc); err == nil && a.k == 'x' {
			n, err := strconv.Atoi(u)
			if err == nil && (n >= 0 || f.Name() == "ParseInt") {
				k(st, fval{k: 'T', tup: []fval{fi(fconst(int64(n))), {k: 'n'}}})
			} else {
				k(st, fval{k: 'T', tup: []fval{fi(fsum{}), fx("error:parse")}})
			}
			return true
		}
	}
	return false
}

// seed puts a document with the given elements behind a key
func (t *listRun) seed(st *fstate, key string, elems []string, spare int) {
	l := t.list(st, "newA"+key, elems, spare)
	st.mem[key+"."+t.ef] = l
	if len(elems) == 0 && spare == 0 {
		st.mem[key+"."+t.ef] = fval{k: 'n'}
	}
}

func (t *listRun) list(st *fstate, arr string, elems []string, spare int) fval {
	for i, e := range elems {
		v := fval{k: 'p', key: e}
		if e == "" {
			v = fval{k: 'n'}
		}
		st.mem[fmt.Sprintf("%s[%d]", arr, i)] = v
	}
	t.ev.flat.caps[arr] = int64(len(elems) + spare)
	return fval{k: 'l', key: arr, sum: fsum{}, end: fconst(int64(len(elems)))}
}

// names of what a list holds; with val: of the values of its elements
func (t *listRun) names(st *fstate, l fval, val bool) string {
	if l.k == 'p' {
		l = t.ev.load(st, l.key+"."+t.ef, types.NewSlice(types.Typ[types.Int]))
	}
	items, ok := t.ev.listItems(st, l)
	if !ok {
		return "?" + l.String()
	}
	var out []string
	for _, it := range items {
		if val && it.k == 'p' {
			it = st.mem[it.key+"."+t.vf]
		}
		if it.k != 'p' && it.k != 'n' {
			return "?" + it.String()
		}
		if it.k == 'n' {
			out = append(out, "nil")
		} else {
			out = append(out, it.key)
		}
	}
	return strings.Join(out, " ")
}

// growth strings: every pattern of equal keys in a list of n
func keyPatterns(n int) [][]int {
	out := [][]int{{}}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, p := range out {
			max := -1
			for _, c := range p {
				if c > max {
					max = c
				}
			}
			for c := 0; c <= max+1; c++ {
				next = append(next, append(append([]int{}, p...), c))
			}
		}
		out = next
	}
	return out
}

var listKeys = []string{"ab", "", "a", "AB"}

// listOp: one operation on the receiver "recv", and what must hold after it
type listOp struct {
	fn    string
	arr   bool // the receiver is an array
	label string
	args  func(t *listRun, st *fstate) []fval
	list  []string                                                       // afterwards, elements or (of arrays) values
	res   func(t *listRun, st *fstate, res []fval, panicked bool) string // of the results
	panic bool
	other string // what must be left of "other"
}

func checkLists(w *World, r *Report) {
	r.Rule = "each operation on a document or an array leaves and returns what the operation on an ordered list would: append at the end, set and delete the first with the key, look up the first with the key, and no other list changes with it"
	r.Assumptions = append(r.Assumptions, "keys and types of elements are as their accessors say (P07)", "keys are only compared")
	for _, dep := range w.Prog.AllPackages() {
		switch dep.Pkg.Path() {
		case "github.com/tychoish/fun/irt", "slices", "iter":
			dep.Build()
		}
	}
	if w.newListRun().ef == "" {
		r.min("operations", 1)
		return
	}
	ids := func(p string, n int) []string {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("%s%d", p, i))
		}
		return out
	}
	isErr := func(v fval) int {
		if v.k == 'x' && strings.HasPrefix(v.desc, "G.") {
			return 1
		}
		return -nilF(v)
	}
	// what is expected of one result
	elem := func(v fval, want string) string {
		got := "nil"
		if v.k == 'p' {
			got = v.key
		} else if v.k != 'n' {
			return "?" + v.String()
		}
		if want == "" {
			want = "nil"
		}
		if got != want {
			return fmt.Sprintf("it returns %s where it should be %s", got, want)
		}
		return ""
	}
	errIs := func(v fval, want bool) string {
		switch isErr(v) {
		case 0:
			return "?error " + v.String()
		case 1:
			if !want {
				return "it reports an error where it should succeed"
			}
		case -1:
			if want {
				return "it reports no error where it should fail"
			}
		}
		return ""
	}
	two := func(a, b string) string {
		if a != "" {
			return a
		}
		return b
	}
	boolIs := func(v fval, want bool) string {
		if v.k != 'c' || v.desc != "true" {
			return "?" + v.String()
		}
		if v.truth != want {
			return fmt.Sprintf("it reports %v where it should be %v", v.truth, want)
		}
		return ""
	}
	self := func(t *listRun, st *fstate, res []fval, _ bool) string {
		if len(res) == 1 && res[0].k == 'p' && res[0].key != "recv" {
			return "it does not return its receiver"
		}
		return ""
	}
	recv := fval{k: 'p', key: "recv"}
	pats := [][]int{}
	for n := 0; n <= 4; n++ {
		pats = append(pats, keyPatterns(n)...)
	}
	first := func(keys []string, k string) int {
		for i, c := range keys {
			if c == k {
				return i
			}
		}
		return -1
	}
	try := func(ks []string, spare int, op listOp) {
		f := w.fn(op.fn)
		if f == nil {
			return
		}
		t := w.newListRun()
		st := newFstate()
		es := ids("e", len(ks))
		for i, e := range es {
			t.keys[e] = ks[i]
			st.mem[e+"."+t.vf] = fval{k: 'p', key: "v" + e}
		}
		for i, e := range ids("o", 2) {
			t.keys[e] = []string{"ab", "zz"}[i]
			st.mem[e+"."+t.vf] = fval{k: 'p', key: "v" + e}
		}
		for i, e := range ids("x", 2) {
			t.keys[e] = []string{"a", "new"}[i]
			st.mem[e+"."+t.vf] = fval{k: 'p', key: "v" + e}
		}
		t.empty["vx1"] = true
		if op.arr {
			t.seed(st, "rdoc", es, spare)
			st.mem["recv."+t.df] = fval{k: 'p', key: "rdoc"}
			t.seed(st, "odoc", ids("o", 2), spare)
			st.mem["other."+t.df] = fval{k: 'p', key: "odoc"}
		} else {
			t.seed(st, "recv", es, spare)
			t.seed(st, "other", ids("o", 2), spare)
		}
		st.mem["odoc2."+t.ef] = t.list(st, "newAodoc2", ids("o", 2), spare)
		args := op.args(t, st)
		key := fmt.Sprintf("%s%s on %d elements with keys %q", op.fn, op.label, len(ks), ks)
		any := false
		t.ev.run(st, f, args, func(s2 *fstate, res []fval) {
			any = true
			bad := ""
			if c := condsOf(s2); c != "" {
				bad = "?" + c
			}
			if bad == "" && op.panic {
				bad = "it returns where it should panic"
			}
			if bad == "" && op.list != nil {
				got, want := "", strings.Join(op.list, " ")
				if op.arr {
					got = t.names(s2, fval{k: 'p', key: "rdoc"}, true)
					if d := s2.mem["recv."+t.df]; d.k == 'p' {
						got = t.names(s2, d, true)
					}
				} else {
					got = t.names(s2, recv, false)
				}
				if strings.HasPrefix(got, "?") {
					bad = got
				} else if got != want {
					bad = fmt.Sprintf("it leaves [%s] of which it should leave [%s]", got, want)
				}
			}
			if bad == "" && op.res != nil {
				bad = op.res(t, s2, res, false)
			}
			for e := range t.keys {
				if v := s2.mem[e+"."+t.vf]; bad == "" && (v.k != 'p' || v.key != "v"+e) {
					bad = fmt.Sprintf("it changes element %s itself, which other lists may hold", e)
					if v.k != 'p' && v.k != 'n' {
						bad = "?" + v.String()
					}
				}
			}
			if bad == "" {
				o := ""
				if l, ok := s2.mem["other."+t.ef]; ok && !op.arr {
					o = t.names(s2, l, false)
					if o != "o0 o1" && !strings.HasPrefix(o, "?") {
						bad = fmt.Sprintf("it leaves [%s] of a document it should not change", o)
					}
				}
				if l, ok := s2.mem["odoc."+t.ef]; ok && op.arr {
					if o = t.names(s2, l, false); o != "o0 o1" && !strings.HasPrefix(o, "?") {
						bad = fmt.Sprintf("it leaves [%s] of an array it should not change", o)
					}
				}
				if a := s2.mem["#args"]; bad == "" && a.k == 'l' {
					if got := t.names(s2, a, false); got != s2.mem["#was"].desc && !strings.HasPrefix(got, "?") {
						bad = fmt.Sprintf("it leaves [%s] of the caller's list", got)
					}
				}
			}
			if strings.HasPrefix(bad, "?") {
				r.Counts["undecided"]++
				if os.Getenv("AN_DUMP") != "" {
					fmt.Println("UNDECIDED", key, bad)
				}
				return
			}
			r.check(bad == "", key, w.pos(f.Pos()), key+": "+bad)
		})
		switch {
		case t.ev.lost != "":
			r.Counts["undecided"]++
			if os.Getenv("AN_DUMP") != "" {
				fmt.Println("UNDECIDED", key, t.ev.lost)
			}
			return
		case !any && t.panics > 0:
			r.check(op.panic, key, w.pos(f.Pos()), key+": it panics where it should not")
		case !any:
			r.Counts["undecided"]++
			if os.Getenv("AN_DUMP") != "" {
				fmt.Println("UNDECIDED", key, "no way through")
			}
			return
		}
		r.Counts["operations"]++
	}
	with := func(as ...fval) func(t *listRun, st *fstate) []fval {
		return func(t *listRun, st *fstate) []fval { return append([]fval{recv}, as...) }
	}
	str := func(s string) fval { return fx(strconv.Quote(s)) }
	variadic := func(vals bool, names ...string) func(t *listRun, st *fstate) []fval {
		return func(t *listRun, st *fstate) []fval {
			l := t.list(st, "newAargs", names, 1)
			st.mem["#args"] = l
			st.mem["#was"] = fx(t.names(st, l, false))
			return []fval{recv, l}
		}
	}
	for _, p := range pats {
		var ks []string
		for _, c := range p {
			ks = append(ks, listKeys[c])
		}
		es := ids("e", len(ks))
		vs := ids("ve", len(ks))
		cat := func(a []string, b ...string) []string { return append(append([]string{}, a...), b...) }
		without := func(a []string, i int) []string { return cat(a[:i], a[i+1:]...) }
		for _, spare := range []int{0, 3} {
			do := func(op listOp) { try(ks, spare, op) }
			// documents
			do(listOp{fn: "(*birch.Document).Append", label: " of two", args: variadic(false, "x0", "x1"), list: cat(es, "x0", "x1"), res: self})
			do(listOp{fn: "(*birch.Document).Append", label: " of none", args: variadic(false), list: es, res: self})
			do(listOp{fn: "(*birch.Document).AppendOmitEmpty", label: " of an empty value among others", args: variadic(false, "x1", "x0", "", "o1"), list: cat(es, "x0", "o1"), res: self})
			do(listOp{fn: "(*birch.Document).Extend", args: with(fval{k: 'p', key: "other"}), list: cat(es, "o0", "o1"), res: self})
			do(listOp{fn: "(*birch.Document).Reset", args: with(), list: []string{}})
			do(listOp{fn: "(*birch.Document).Len", args: with(), list: es, res: func(t *listRun, st *fstate, res []fval, _ bool) string {
				if n, ok := res[0].sum.konst(); res[0].k != 'i' || !ok {
					return "?" + res[0].String()
				} else if int(n) != len(ks) {
					return fmt.Sprintf("it returns %d", n)
				}
				return ""
			}})
			do(listOp{fn: "(*birch.Document).Elements", args: with(), list: es, res: func(t *listRun, st *fstate, res []fval, _ bool) string {
				if got := t.names(st, res[0], false); got != strings.Join(es, " ") && !strings.HasPrefix(got, "?") {
					return "it returns [" + got + "]"
				}
				return ""
			}})
			do(listOp{fn: "(*birch.Document).Copy", args: with(), list: es, res: func(t *listRun, st *fstate, res []fval, _ bool) string {
				if res[0].k != 'p' {
					return "?" + res[0].String()
				}
				if got := t.names(st, res[0], false); strings.HasPrefix(got, "?") {
					return got
				} else if got != strings.Join(es, " ") {
					return "the copy holds [" + got + "]"
				}
				return t.apart(st, "recv", res[0].key, es)
			}})
			// a list of one's own
			do(listOp{fn: "(*birch.Document).Extend", label: " and changes afterwards", args: with(fval{k: 'p', key: "other"}), res: func(t *listRun, st *fstate, res []fval, _ bool) string {
				return t.apart(st, "recv", "other", nil)
			}})
			for _, q := range append(append([]string{}, listKeys...), "b") {
				i := first(ks, q)
				want := ""
				if i >= 0 {
					want = es[i]
				}
				wantV := ""
				if i >= 0 {
					wantV = vs[i]
				}
				// the new element has this key
				set := cat(es, "y")
				if i >= 0 {
					set = cat(es)
					set[i] = "y"
				}
				do(listOp{fn: "(*birch.Document).Set", label: fmt.Sprintf(" of key %q", q), args: func(t *listRun, st *fstate) []fval {
					t.keys["y"] = q
					st.mem["y."+t.vf] = fval{k: 'p', key: "vy"}
					return []fval{recv, {k: 'p', key: "y"}}
				}, list: set, res: self})
				del := es
				if i >= 0 {
					del = without(es, i)
				}
				one := func(want string) func(t *listRun, st *fstate, res []fval, _ bool) string {
					return func(t *listRun, st *fstate, res []fval, _ bool) string { return elem(res[0], want) }
				}
				oneErr := func(want string) func(t *listRun, st *fstate, res []fval, _ bool) string {
					return func(t *listRun, st *fstate, res []fval, _ bool) string {
						return two(elem(res[0], want), errIs(res[1], want == ""))
					}
				}
				lab := fmt.Sprintf(" of key %q", q)
				do(listOp{fn: "(*birch.Document).Delete", label: lab, args: with(str(q)), list: del, res: one(want)})
				do(listOp{fn: "(*birch.Document).LookupElement", label: lab, args: with(str(q)), list: es, res: one(want)})
				do(listOp{fn: "(*birch.Document).Lookup", label: lab, args: with(str(q)), list: es, res: one(wantV)})
				do(listOp{fn: "(*birch.Document).LookupElementErr", label: lab, args: with(str(q)), list: es, res: oneErr(want)})
				do(listOp{fn: "(*birch.Document).LookupErr", label: lab, args: with(str(q)), list: es, res: oneErr(wantV)})
				do(listOp{fn: "(*birch.Document).Search", label: lab, args: func(t *listRun, st *fstate) []fval {
					l := t.list(st, "newAkeys", []string{"q"}, 0)
					st.mem["newAkeys[0]"] = str(q)
					return []fval{recv, l}
				}, list: es, res: oneErr(want)})
				// into an inner document or array
				for _, kind := range []string{"document", "array", "scalar"} {
					for _, in := range []string{"ab", "zz", "1", "0", "2", "x"} {
						if len(ks) > 2 || spare > 0 {
							continue
						}
						inner := ""
						switch {
						case i < 0 || kind == "scalar":
						case kind == "document":
							inner = map[string]string{"ab": "o0", "zz": "o1"}[in]
						case kind == "array":
							inner = map[string]string{"0": "vo0", "1": "vo1"}[in]
						}
						kind, in := kind, in
						do(listOp{fn: "(*birch.Document).Search", label: fmt.Sprintf(" of key %q and %q in a %s", q, in, kind), args: func(t *listRun, st *fstate) []fval {
							l := t.list(st, "newAkeys", []string{"q", "q"}, 0)
							st.mem["newAkeys[0]"], st.mem["newAkeys[1]"] = str(q), str(in)
							if i >= 0 && kind == "document" {
								t.docs[vs[i]] = "other"
							}
							if i >= 0 && kind == "array" {
								st.mem["oarr."+t.df] = fval{k: 'p', key: "odoc2"}
								t.arrs[vs[i]] = "oarr"
							}
							return []fval{recv, l}
						}, list: es, res: func(t *listRun, st *fstate, res []fval, _ bool) string {
							v := res[0]
							if kind == "array" && v.k == 'p' {
								v = st.mem[v.key+"."+t.vf]
								if v.k == 0 {
									v = fx("?value")
								}
							}
							return two(elem(v, inner), errIs(res[1], inner == ""))
						}})
					}
				}
			}
			for i := 0; i <= len(ks)+1; i++ {
				want, wantV := "", ""
				if i < len(ks) {
					want, wantV = es[i], vs[i]
				}
				at := fi(fconst(int64(i)))
				lab := fmt.Sprintf(" at %d", i)
				oneErr := func(want string) func(t *listRun, st *fstate, res []fval, _ bool) string {
					return func(t *listRun, st *fstate, res []fval, _ bool) string {
						return two(elem(res[0], want), errIs(res[1], want == ""))
					}
				}
				if i < len(ks) {
					do(listOp{fn: "(*birch.Document).ElementAt", label: lab, args: with(at), list: es, res: func(t *listRun, st *fstate, res []fval, _ bool) string { return elem(res[0], want) }})
				} else {
					do(listOp{fn: "(*birch.Document).ElementAt", label: lab, args: with(at), panic: true})
				}
				do(listOp{fn: "(*birch.Document).ElementAtOK", label: lab, args: with(at), list: es, res: func(t *listRun, st *fstate, res []fval, _ bool) string {
					return two(elem(res[0], want), boolIs(res[1], want != ""))
				}})
				// arrays
				do(listOp{fn: "(*birch.Array).Lookup", arr: true, label: lab, args: with(at), list: vs, res: oneErr(wantV)})
				do(listOp{fn: "(*birch.Array).LookupElemdent", arr: true, label: lab, args: with(at), list: vs, res: oneErr(want)})
				nv := fval{k: 'p', key: "vnew"}
				if i < len(ks) {
					set := cat(vs)
					set[i] = "vnew"
					do(listOp{fn: "(*birch.Array).Set", arr: true, label: lab, args: with(at, nv), list: set, res: self})
					do(listOp{fn: "(*birch.Array).Delete", arr: true, label: lab, args: with(at), list: without(vs, i), res: func(t *listRun, st *fstate, res []fval, _ bool) string { return elem(res[0], wantV) }})
				} else {
					do(listOp{fn: "(*birch.Array).Set", arr: true, label: lab, args: with(at, nv), panic: true})
					do(listOp{fn: "(*birch.Array).Delete", arr: true, label: lab, args: with(at), list: vs, res: func(t *listRun, st *fstate, res []fval, _ bool) string { return elem(res[0], "") }})
				}
			}
			do(listOp{fn: "(*birch.Array).Append", arr: true, label: " of two", args: variadic(true, "vx0", "vx1"), list: cat(vs, "vx0", "vx1"), res: self})
			do(listOp{fn: "(*birch.Array).Append", arr: true, label: " of none", args: variadic(true), list: vs, res: self})
			do(listOp{fn: "(*birch.Array).Extend", arr: true, args: with(fval{k: 'p', key: "other"}), list: cat(vs, "vo0", "vo1"), res: self})
			do(listOp{fn: "(*birch.Array).ExtendFromDocument", arr: true, args: with(fval{k: 'p', key: "odoc2"}), list: cat(vs, "vo0", "vo1"), res: self})
			do(listOp{fn: "(*birch.Array).ExtendFromDocument", arr: true, label: " and changes afterwards", args: with(fval{k: 'p', key: "odoc2"}), res: func(t *listRun, st *fstate, res []fval, _ bool) string {
				return t.apart(st, "rdoc", "odoc2", nil)
			}})
			do(listOp{fn: "(*birch.Array).Extend", arr: true, label: " and changes afterwards", args: with(fval{k: 'p', key: "other"}), res: func(t *listRun, st *fstate, res []fval, _ bool) string {
				return t.apart(st, "rdoc", "odoc", nil)
			}})
			do(listOp{fn: "(*birch.Array).Reset", arr: true, args: with(), list: []string{}})
			do(listOp{fn: "(*birch.Array).Len", arr: true, args: with(), list: vs, res: func(t *listRun, st *fstate, res []fval, _ bool) string {
				if n, ok := res[0].sum.konst(); res[0].k != 'i' || !ok {
					return "?" + res[0].String()
				} else if int(n) != len(ks) {
					return fmt.Sprintf("it returns %d", n)
				}
				return ""
			}})
			// going round
			for _, stop := range []int{-1, 0, 1} {
				for _, arr := range []bool{false, true} {
					n := len(ks)
					if stop >= 0 && stop+1 < n {
						n = stop + 1
					}
					fn, want := "(*birch.Document).Iterator", es[:n]
					list := es
					if arr {
						fn, want, list = "(*birch.Array).Iterator", vs[:n], vs
					}
					stop := stop
					do(listOp{fn: fn, arr: arr, label: map[int]string{-1: "", 0: " stopped at the first", 1: " stopped at the second"}[stop], args: with(), list: list, res: func(t *listRun, st *fstate, res []fval, _ bool) string {
						if res[0].fn == nil {
							return "?" + res[0].String()
						}
						out := "?no way through"
						t.ev.run(st, res[0].fn, append([]fval{fx(fmt.Sprintf("#yield%d", stop))}, res[0].tup...), func(s2 *fstate, _ []fval) {
							out = ""
							if c := condsOf(s2); c != "" {
								out = "?" + c
								return
							}
							var got []string
							for i := 0; s2.mem[fmt.Sprintf("#y%d", i)].k != 0; i++ {
								y := s2.mem[fmt.Sprintf("#y%d", i)]
								if y.k != 'p' {
									out = "?" + y.String()
									return
								}
								got = append(got, y.key)
							}
							if strings.Join(got, " ") != strings.Join(want, " ") {
								out = fmt.Sprintf("it goes through [%s] where it should be [%s]", strings.Join(got, " "), strings.Join(want, " "))
							}
						})
						return out
					}})
				}
			}
		}
	}
	// constructors
	for n := 0; n <= 3; n++ {
		es := ids("e", n)
		var ks []string
		for i := 0; i < n; i++ {
			ks = append(ks, listKeys[i])
		}
		made := func(want []string, val bool) func(t *listRun, st *fstate, res []fval, _ bool) string {
			return func(t *listRun, st *fstate, res []fval, _ bool) string {
				if res[0].k != 'p' {
					return "?" + res[0].String()
				}
				d := res[0]
				if val {
					d = st.mem[d.key+"."+t.df]
				}
				if d.k != 'p' {
					return "?" + d.String()
				}
				if got := t.names(st, d, val); strings.HasPrefix(got, "?") {
					return got
				} else if got != strings.Join(want, " ") {
					return "it makes [" + got + "]"
				}
				if a := st.mem["#args"]; !val && a.k == 'l' {
					st.mem["argd."+t.ef] = a
					return t.apart(st, d.key, "argd", nil)
				}
				return ""
			}
		}
		args := func(recv []fval, names ...string) func(t *listRun, st *fstate) []fval {
			return func(t *listRun, st *fstate) []fval {
				l := t.list(st, "newAargs", names, 1)
				st.mem["#args"] = l
				st.mem["#was"] = fx(t.names(st, l, false))
				return append(append([]fval{}, recv...), l)
			}
		}
		ns := []fval{fx("ns")}
		var vals []string
		for _, e := range es {
			vals = append(vals, "v"+e)
		}
		try(ks, 0, listOp{fn: "(birch.DocumentConstructor).Elements", args: args(ns, es...), res: made(es, false)})
		try(ks, 0, listOp{fn: "(birch.DocumentConstructor).ElementsOmitEmpty", args: args(ns, append([]string{"x1"}, es...)...), res: made(es, false)})
		try(ks, 0, listOp{fn: "birch.NewArray", args: args(nil, vals...), res: made(vals, true)})
		for _, c := range []string{"birch.MakeArray", "(birch.DocumentConstructor).Make"} {
			c := c
			try(ks, 0, listOp{fn: c, args: func(t *listRun, st *fstate) []fval {
				if c == "birch.MakeArray" {
					return []fval{fi(fconst(int64(n)))}
				}
				return []fval{fx("ns"), fi(fconst(int64(n)))}
			}, res: made(nil, c == "birch.MakeArray")})
		}
		try(ks, 0, listOp{fn: "(birch.DocumentConstructor).New", args: func(t *listRun, st *fstate) []fval { return ns }, res: made(nil, false)})
		try(ks, 0, listOp{fn: "(birch.Elements).Copy", args: func(t *listRun, st *fstate) []fval {
			return []fval{st.mem["recv."+t.ef]}
		}, res: func(t *listRun, st *fstate, res []fval, _ bool) string {
			if got := t.names(st, res[0], false); strings.HasPrefix(got, "?") {
				return got
			} else if got != strings.Join(es, " ") {
				return "the copy holds [" + got + "]"
			}
			st.mem["argd."+t.ef] = res[0]
			return t.apart(st, "recv", "argd", es)
		}})
	}
	r.min("operations", 100)
}

// apart: changing either document leaves the other as it is
func (t *listRun) apart(st *fstate, a, b string, _ []string) string {
	for _, p := range [][2]string{{a, b}, {b, a}} {
		l := t.ev.load(st, p[0]+"."+t.ef, types.NewSlice(types.Typ[types.Int]))
		items, ok := t.ev.listItems(st, l)
		if !ok {
			return "?" + l.String()
		}
		was := t.names(st, fval{k: 'p', key: p[1]}, false)
		lo, hi, _ := listEnds(l)
		s2 := st.clone()
		for i := lo; i < hi; i++ { // every place is set
			s2.mem[fmt.Sprintf("%s[%d]", l.key, i)] = fval{k: 'p', key: "z"}
		}
		if got := t.names(s2, fval{k: 'p', key: p[1]}, false); got != was && !strings.HasPrefix(got, "?") {
			return fmt.Sprintf("it shares its list with another: setting the elements of one changes [%s] to [%s]", was, got)
		}
		// one is added to each in turn
		s3 := st.clone()
		for i, d := range p {
			cur := t.ev.load(s3, d+"."+t.ef, types.NewSlice(types.Typ[types.Int]))
			one := t.list(s3, fmt.Sprintf("newAz%d", i), []string{fmt.Sprintf("z%d", i)}, 0)
			v, ok := t.ev.listBuiltin(s3, "append", []fval{cur, one})
			if !ok {
				return "?append"
			}
			s3.mem[d+"."+t.ef] = v
		}
		want := strings.TrimSpace(strings.Join(append(strings.Fields(t.names(st, fval{k: 'p', key: p[0]}, false)), "z0"), " "))
		if got := t.names(s3, fval{k: 'p', key: p[0]}, false); got != want && !strings.HasPrefix(got, "?") {
			return fmt.Sprintf("it shares the room behind its list with another: appending to both leaves [%s] where it should be [%s]", got, want)
		}
		_ = items
	}
	return ""
}
