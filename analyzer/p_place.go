package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What decoders find: every element of the encoding, in order, at its place.

// encDoc is an encoding of a document in the buffer B: elements with known keys and values of symbolic sizes
type encDoc struct {
	keys       []string
	start, val []fsum
	size       fsum
	places     []encPlace // of all elements, inner ones too
}

type encPlace struct {
	id            int
	start, val, n fsum
}

// seedBytes: keys with "/" stand for inner documents, "[" for inner arrays: "name/key/key"
func (t *encRun) seedBytes(keys []string) *encDoc {
	d := &encDoc{}
	pos := t.seedElems(d, fsum{}, keys, 0)
	t.zero["X"] = true
	d.size = pos
	t.ev.flat.lens = map[string]fsum{"B": d.size.add(fterm("X"), 1)}
	t.ev.flat.unroll = true
	t.ev.flat.text = t.textOf
	return d
}

func (t *encRun) textOf(v fval) (fval, bool) {
	if v.k != 's' || v.base != "B" || v.end == nil {
		return fval{}, false
	}
	n, ok := v.end.add(v.sum, -1).konst()
	if !ok || n < 0 || n > 400 {
		return fval{}, false
	}
	s := ""
	for i := int64(0); i < n; i++ {
		b, ok := t.words["1@"+v.sum.add(fconst(i), 1).String()]
		c, isC := b.konst()
		if !ok || !isC {
			return fval{}, false
		}
		s += string([]byte{byte(c)})
	}
	return fx(strconv.Quote(s)), true
}

// seedElems lays out a document from pos on and returns its end
func (t *encRun) seedElems(d *encDoc, from fsum, keys []string, base int) fsum {
	pos := from.add(fconst(4), 1)
	for i, k := range keys {
		id := base + i
		start := pos
		tag := fterm(fmt.Sprintf("T%d", id)).add(fconst(1), 1)
		t.zero[fmt.Sprintf("T%d", id)] = true
		var inner []string
		if j := strings.IndexAny(k, "/["); j >= 0 {
			tag = fconst(3)
			if k[j] == '[' {
				tag = fconst(4)
			}
			inner = strings.Split(k[j+1:], "/")
			k = k[:j]
		} else if base == 0 && strings.HasPrefix(k, "#") {
			tag = fconst(16)
		}
		t.words["1@"+pos.String()] = tag
		pos = pos.add(fconst(1), 1)
		for j := 0; j <= len(k); j++ {
			c := int64(0)
			if j < len(k) {
				c = int64(k[j])
			}
			t.words["1@"+pos.String()] = fconst(c)
			pos = pos.add(fconst(1), 1)
		}
		val := pos
		if inner != nil {
			pos = t.seedElems(d, val, inner, 100*(i+1))
		} else {
			pos = pos.add(fterm(fmt.Sprintf("V%d", id)), 1)
			t.zero[fmt.Sprintf("V%d", id)] = true
		}
		if base == 0 {
			d.keys, d.start, d.val = append(d.keys, k), append(d.start, start), append(d.val, val)
		}
		d.places = append(d.places, encPlace{id, start, val, pos.add(val, -1)})
	}
	t.words["1@"+pos.String()] = fsum{}
	pos = pos.add(fconst(1), 1)
	t.words["4@"+from.String()] = pos.add(from, -1)
	return pos
}

// at: which element of the encoding a value is, by its place; -1 none, -2 unknown
func (t *encRun) at(st *fstate, v fval) int {
	if v.k != 'p' {
		return -2
	}
	data := t.ev.load(st, v.key+".data", types.NewSlice(types.Typ[types.Byte]))
	s := t.ev.load(st, v.key+".start", types.Typ[types.Uint32])
	o := t.ev.load(st, v.key+".offset", types.Typ[types.Uint32])
	if data.k != 's' || data.base != "B" || s.k != 'i' || o.k != 'i' {
		return -2
	}
	if s.sum.opaque() || o.sum.opaque() {
		return -2
	}
	for _, p := range t.doc.places {
		if data.sum.add(s.sum, 1).eq(p.start) && data.sum.add(o.sum, 1).eq(p.val) {
			return p.id
		}
	}
	t.why = fmt.Sprintf("it is taken to start at %s with its value at %s", data.sum.add(s.sum, 1), data.sum.add(o.sum, 1))
	return -1
}

func (t *encRun) valueOf(st *fstate, e fval) fval {
	if e.k != 'p' {
		return fval{}
	}
	_, es := derefStruct(t.w.structNamed(modPath, "Element"))
	for i := 0; es != nil && i < es.NumFields(); i++ {
		if es.Field(i).Type().String() == "*"+modPath+".Value" {
			return t.ev.load(st, e.key+"."+es.Field(i).Name(), es.Field(i).Type())
		}
	}
	return fval{}
}

// place: calls while decoding
func (t *encRun) place(st *fstate, f *ssa.Function, args []fval, k func(*fstate, fval)) bool {
	rn := recvName(f)
	if !numErr(f) || !isUnsigned(f.Signature.Results().At(0).Type()) || rn != "Value" && rn != "Element" || args[0].k != 'p' {
		return false
	}
	v := args[0]
	if rn == "Element" {
		if f.Name() != "Validate" {
			return false
		}
		v = t.valueOf(st, v)
	}
	i := t.at(st, v)
	if i == -2 {
		t.lose("the place of a value")
		t.ev.giveUp("the place of a value")
		return true
	}
	if i == -1 && condsOf(st) != "" {
		t.lose("the place of a value if " + condsOf(st))
		t.ev.giveUp("the place of a value")
		return true
	}
	if i == -1 {
		t.fails = append(t.fails, "an element is looked for where none is: "+t.why)
		return true
	}
	var n fsum
	for _, p := range t.doc.places {
		if p.id == i {
			n = p.n
			if rn == "Element" {
				n = n.add(p.val, 1).add(p.start, -1)
			}
		}
	}
	t.step(st, fi(n), k)
	return true
}

func checkPlaces(w *World, r *Report) {
	r.Rule = "a decoder of a document finds every element of the encoding, once and in order, each with its header and value at the places the encoding has them, and the size of the whole; looking up by position or key finds the first such element, and says so where there is none"
	r.Assumptions = append(r.Assumptions, "the encoding is well formed", "validating a value reports its size (P03)")
	keySets := [][]string{{}, {"a"}, {""}, {"a", ""}, {"key", "b", "key"}, {"", "ab", "c", "b", "ab"}, {"a", "d/p/q", "q", "d/r"}, {"d", "b[0/1/2", "c/x/x"}, {"#n", "e/"}, {"k", "k", "j"}, {"x", "#x", "x/y", "x"}, {"long" + strings.Repeat("y", 300), "z"}}
	type probe struct {
		f     *ssa.Function
		label string
		extra []fval
		check func(t *encRun, st *fstate, res []fval) string
	}
	ef := w.elemsField()
	listIs := func(t *encRun, st *fstate, doc fval) string {
		if doc.k != 'p' || ef == "" {
			return "?document " + doc.String()
		}
		l := t.ev.load(st, doc.key+"."+ef, types.NewSlice(types.Typ[types.Int]))
		vs, ok := t.ev.listVals(l)
		if !ok || hasEach(vs) {
			return "?list " + l.String()
		}
		for i, e := range vs {
			j := t.at(st, t.valueOf(st, e))
			switch {
			case j == -2 && (nilF(e) == 1 || e.k == 'p' && (e.key == "old" || e.key == "older")):
				return fmt.Sprintf("element %d of the result is not one of the encoding: %s", i, e)
			case j == -2:
				return "?element " + e.String()
			case j == -1:
				return fmt.Sprintf("element %d is at no element's place: %s", i, t.why)
			case j != i:
				return fmt.Sprintf("element %d of the result is element %d of the encoding", i, j)
			}
		}
		if len(vs) != len(t.doc.keys) {
			return fmt.Sprintf("%d elements are found where there are %d", len(vs), len(t.doc.keys))
		}
		return ""
	}
	for _, keys := range keySets {
		keys := keys
		var ps []probe
		if f := w.fn("(*birch.Document).UnmarshalBSON"); f != nil {
			ps = append(ps, probe{f, "into a document", []fval{{k: 'p', key: "recv"}, {}}, func(t *encRun, st *fstate, res []fval) string {
				if nilF(res[0]) != 1 {
					return "!"
				}
				return listIs(t, st, fval{k: 'p', key: "recv"})
			}})
		}
		for _, n := range []string{"birch.ReadDocument", "(birch.DocumentConstructorError).Reader"} {
			if f := w.fn(n); f != nil {
				a := []fval{{}}
				if f.Signature.Recv() != nil {
					a = []fval{fx("ns"), {}}
				}
				ps = append(ps, probe{f, "as a document", a, func(t *encRun, st *fstate, res []fval) string {
					if nilF(res[1]) != 1 {
						return "!"
					}
					return listIs(t, st, res[0])
				}})
			}
		}
		if f := w.fn("(birch.Reader).Validate"); f != nil {
			ps = append(ps, probe{f, "size", []fval{{}}, func(t *encRun, st *fstate, res []fval) string {
				if nilF(res[1]) != 1 {
					return "!"
				}
				if res[0].k != 'i' || res[0].sum.opaque() {
					return "?" + res[0].String()
				}
				if !res[0].sum.eq(t.doc.size) {
					return fmt.Sprintf("an encoding of %s bytes is said to be %s long", t.doc.size, res[0].sum)
				}
				return ""
			}})
		}
		one := func(want int) func(t *encRun, st *fstate, res []fval) string {
			return func(t *encRun, st *fstate, res []fval) string {
				if want < 0 {
					if nilF(res[1]) == 1 {
						return "it reports success where there is no such element"
					}
					if nilF(res[0]) != 1 {
						return "an element comes back where there is none"
					}
					return ""
				}
				if nilF(res[1]) != 1 {
					return "!"
				}
				if nilF(res[0]) == 1 {
					return fmt.Sprintf("no element is found where it is element %d", want)
				}
				switch j := t.at(st, t.valueOf(st, res[0])); {
				case j == -2:
					return "?" + res[0].String()
				case j == -1:
					return "the element found is at no element's place: " + t.why
				case j != want:
					return fmt.Sprintf("element %d is found where it should be element %d", j, want)
				}
				return ""
			}
		}
		if f := w.fn("(birch.Reader).ElementAt"); f != nil {
			for i := 0; i <= len(keys); i++ {
				want := i
				if i == len(keys) {
					want = -1
				}
				ps = append(ps, probe{f, fmt.Sprintf("at %d", i), []fval{{}, fi(fconst(int64(i)))}, one(want)})
			}
		}
		if f := w.fn("(birch.Reader).RecursiveLookup"); f != nil {
			for _, path := range lookups(keys) {
				l := fval{k: 'v', desc: "list"}
				for _, c := range path.keys {
					l.tup = append(l.tup, fx(strconv.Quote(c)))
				}
				ps = append(ps, probe{f, fmt.Sprintf("of %q", path.keys), []fval{{}, l}, one(path.want)})
			}
			tried := map[string]bool{}
			for i, kk := range append(append([]string{}, keys...), "zz") {
				if strings.ContainsAny(kk, "/[") {
					continue
				}
				if tried[kk] {
					continue
				}
				tried[kk] = true
				want := i
				if i == len(keys) {
					want = -1
				}
				ps = append(ps, probe{f, fmt.Sprintf("of key %q", kk), []fval{{}, {k: 'v', desc: "list", tup: []fval{fx(strconv.Quote(kk))}}}, one(want)})
			}
		}
		for _, p := range ps {
			t := w.newEncRun(5)
			t.doc = t.seedBytes(keys)
			st := newFstate()
			if ef != "" {
				st.mem["recv."+ef] = fval{k: 'v', desc: "list", tup: []fval{{k: 'p', key: "old"}, {k: 'p', key: "older"}}}
			}
			args := append([]fval{}, p.extra...)
			for i := range args {
				if args[i].k == 0 {
					args[i] = fval{k: 's', base: "B", sum: fsum{}}
				}
			}
			key := fmt.Sprintf("%s %s of keys %q", fnName(p.f), p.label, keys)
			any := false
			t.ev.run(st, p.f, args, func(s2 *fstate, res []fval) {
				if s2.cond["#failed"] {
					return
				}
				bad := p.check(t, s2, res)
				if bad == "!" {
					bad = "it fails although every step succeeds"
					if c := condsOf(s2); c != "" && !tagsOnly(s2) {
						bad = "?" + c
					}
				} else if c := condsOf(s2); bad != "" && c != "" && !(strings.Contains(bad, "are found") && tagsOnly(s2)) {
					bad = "?" + bad + " if " + c
				}
				for u := range t.undec {
					bad = "?" + u
				}
				if strings.HasPrefix(bad, "?") {
					r.Counts["undecided"]++
					if os.Getenv("AN_DUMP") != "" {
						fmt.Println("UNDECIDED", key, bad)
					}
					return
				}
				any = true
				r.check(bad == "", key, w.pos(p.f.Pos()), key+": "+bad)
			})
			for _, x := range t.fails {
				any = true
				r.fail(key, w.pos(p.f.Pos()), key+": "+x)
			}
			if t.ev.lost != "" || !any {
				r.Counts["undecided"]++
				if os.Getenv("AN_DUMP") != "" {
					fmt.Println("UNDECIDED", key, t.ev.lost)
				}
				continue
			}
			r.Counts["decodings"]++
		}
	}
	r.min("decodings", 10)
}

// elemsField: the field a document keeps its elements in
func (w *World) elemsField() string {
	_, ds := derefStruct(w.structNamed(modPath, "Document"))
	for i := 0; ds != nil && i < ds.NumFields(); i++ {
		if ds.Field(i).Type().String() == "[]*"+modPath+".Element" {
			return ds.Field(i).Name()
		}
	}
	return ""
}

type encLookup struct {
	keys []string
	want int
}

// lookups: pairs of keys into inner documents, and the first element each should find
func lookups(keys []string) []encLookup {
	var out []encLookup
	seen := map[string]bool{}
	for i, k := range keys {
		name, inner := k, []string(nil)
		if j := strings.IndexAny(k, "/["); j >= 0 {
			name, inner = k[:j], strings.Split(k[j+1:], "/")
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		if inner == nil && !strings.HasPrefix(k, "#") {
			continue // may hold anything
		}
		done := map[string]bool{}
		for m, c := range inner {
			if !done[c] {
				done[c] = true
				out = append(out, encLookup{[]string{name, c}, 100*(i+1) + m})
			}
		}
		out = append(out, encLookup{[]string{name, "zz"}, -1})
		if inner != nil {
			out = append(out, encLookup{[]string{name}, i})
		}
	}
	return out
}

var tagCond = regexp.MustCompile(`^1\+T([0-9]+) == (-?[0-9]+)$`)

// tagsOnly: whether a path is taken for certain types of the elements, whatever else holds
func tagsOnly(st *fstate) bool {
	is, not := map[string]string{}, map[string]map[string]bool{}
	for k, v := range st.cond {
		if strings.HasPrefix(k, "#") {
			continue
		}
		m := tagCond.FindStringSubmatch(k)
		if m == nil {
			return false
		}
		if !v {
			if not[m[1]] == nil {
				not[m[1]] = map[string]bool{}
			}
			not[m[1]][m[2]] = true
			continue
		}
		if c, ok := is[m[1]]; ok && c != m[2] {
			return false
		}
		is[m[1]] = m[2]
	}
	tags := []string{"255", "127"}
	for i := 1; i <= 19; i++ {
		tags = append(tags, strconv.Itoa(i))
	}
	for i, c := range is {
		if !slices.Contains(tags, c) || not[i][c] {
			return false
		}
	}
	for i, n := range not {
		if _, ok := is[i]; ok {
			continue
		}
		free := false
		for _, c := range tags {
			free = free || !n[c]
		}
		if !free {
			return false
		}
	}
	return true
}
