package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P20: the functions of x/ftdc that go through a document of metrics agree with each other.

const ftdcPath = modPath + "/x/ftdc"

// ftdcEval interprets one family of mutually recursive functions over documents, one value at a time:
// V is the value looked at, D a document, eN any element met in a loop.
type ftdcEval struct {
	w      *World
	r      *Report
	ev     *fmtEval
	family map[*ssa.Function]bool
	n      int
	tag    int64
	tagOf  map[string]int64
	in     map[string]string // element -> container
	recs   map[string]*ftdcRec
	made   map[string]fval
	events *[]ftdcEvent
	name   string
}

type ftdcRec struct {
	fn   *ssa.Function
	args []fval
	elem string
	pos  token.Pos
}

type ftdcEvent struct {
	name string
	args []fval
	st   *fstate
	pos  token.Pos
}

func (d *ftdcEval) undecided(f string, a ...any) {
	d.r.Counts["undecided"]++
	if os.Getenv("AN_DUMP") != "" {
		fmt.Println("UNDECIDED", d.name, fmt.Sprintf(f, a...))
	}
}

func newFtdcEval(w *World, r *Report, family map[*ssa.Function]bool) *ftdcEval {
	d := &ftdcEval{w: w, r: r, family: family, tagOf: map[string]int64{}, in: map[string]string{}, recs: map[string]*ftdcRec{}, made: map[string]fval{}}
	d.ev = newFmtEval(w)
	d.ev.exact = true
	d.ev.inline = func(f *ssa.Function) bool {
		return inPkg(f, ftdcPath) && !(recvName(f) == "Metric" && f.Signature.Results().Len() == 1 && isStringT(f.Signature.Results().At(0).Type()))
	}
	d.ev.onCallK = d.call
	return d
}

// bsonTags: the constants of bsontype.Type
func bsonTags(w *World) map[string]int64 {
	out := map[string]int64{}
	p := w.Pkgs[modPath+"/bsontype"]
	if p == nil {
		return out
	}
	sc := p.Types.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && strings.HasSuffix(c.Type().String(), "bsontype.Type") {
			if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
				out[n] = v
			}
		}
	}
	return out
}

func isBirch(t types.Type, name string) bool {
	n, ok := derefT(t).(*types.Named)
	return ok && n.Obj().Name() == name && pathOf(n) == modPath
}

func isBirchPtr(t types.Type, name string) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && isBirch(t, name)
}

// families: sets of functions of the package that call each other in circles and take values, elements, documents or arrays
func ftdcFamilies(w *World) []map[*ssa.Function]bool {
	top := func(f *ssa.Function) *ssa.Function {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f
	}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, f := range w.Funcs {
		if !inPkg(f, ftdcPath) || len(f.Blocks) == 0 {
			continue
		}
		t := top(f)
		if calls[t] == nil {
			calls[t] = map[*ssa.Function]bool{}
			fns = append(fns, t)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && inPkg(g, ftdcPath) {
						calls[t][top(g)] = true
					}
				}
			}
		}
	}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for h := range calls[g] {
				if !seen[h] {
					seen[h] = true
					walk(h)
				}
			}
		}
		walk(f)
		reach[f] = seen
	}
	var out []map[*ssa.Function]bool
	done := map[*ssa.Function]bool{}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		if done[f] || !reach[f][f] {
			continue
		}
		fam := map[*ssa.Function]bool{}
		takes := false
		for _, g := range fns {
			if reach[f][g] && reach[g][f] {
				fam[g], done[g] = true, true
				for _, p := range g.Params {
					for _, n := range []string{"Value", "Element", "Document", "Array"} {
						if isBirchPtr(p.Type(), n) {
							takes = true
						}
					}
				}
			}
		}
		if takes {
			out = append(out, fam)
		}
	}
	return out
}

func famNames(fam map[*ssa.Function]bool) string {
	var s []string
	for f := range fam {
		s = append(s, f.Name())
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// role of a family, by what its functions give and take
func ftdcRole(fam map[*ssa.Function]bool) string {
	metrics := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		n, ok := derefT(s.Elem()).(*types.Named)
		return ok && n.Obj().Name() == "Metric" && pathOf(n) == ftdcPath
	}
	for f := range fam {
		sg := f.Signature
		for i := 0; i < sg.Results().Len(); i++ {
			t := sg.Results().At(i).Type()
			if metrics(t) {
				return "metrics"
			}
			if _, s := derefStruct(t); s != nil && fieldOfType(s, func(t types.Type) bool {
				l, ok := t.Underlying().(*types.Slice)
				return ok && isBirchPtr(l.Elem(), "Value")
			}) != "" {
				return "extract"
			}
		}
		for i := 0; i < sg.Params().Len(); i++ {
			if metrics(sg.Params().At(i).Type()) {
				return "restore"
			}
			if strings.HasPrefix(sg.Params().At(i).Type().String(), "hash.Hash") {
				return "hash"
			}
		}
	}
	return ""
}

func fieldOfType(s *types.Struct, is func(types.Type) bool) string {
	name := ""
	for i := 0; i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			if name != "" {
				return ""
			}
			name = s.Field(i).Name()
		}
	}
	return name
}

func (d *ftdcEval) elem(in string) string {
	d.n++
	e := fmt.Sprintf("e%d", d.n)
	d.in[e] = in
	return e
}

// child: the element of a loop that an argument is, or holds
func (d *ftdcEval) child(v fval) string {
	if v.k == 'E' {
		if (v.base == "Interface" || v.base == "Value") && len(v.tup) == 2 {
			return d.child(v.tup[1])
		}
		return ""
	}
	if v.k != 'x' {
		return ""
	}
	n := strings.TrimSuffix(strings.TrimPrefix(v.desc, "val("), ")")
	if _, ok := d.in[n]; ok {
		return n
	}
	return ""
}

func (d *ftdcEval) call(ev *fmtEval, fr *fframe, st *fstate, c *ssa.Call, args []fval, k func(*fstate, fval)) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		if c.Call.IsInvoke() {
			return false
		}
		it := ev.val(fr, st, c.Call.Value)
		if it.k == 'x' && strings.HasPrefix(it.desc, "iter(") && len(args) == 1 {
			d.iterate(ev, fr, st, it.desc[5:len(it.desc)-1], it.base == "array", args[0], 2, k)
			return true
		}
		return false
	}
	desc := func(i int) string { return ev.describe(args[i]) }
	switch calleeFull(&c.Call) {
	case "fmt.Sprintf":
		if v, ok := d.sprintf(st, args); ok {
			k(st, v)
			return true
		}
	case "strconv.Itoa", "strconv.FormatInt":
		if args[0].k == 'i' && (len(args) == 1 || args[1].sum.String() == "10") {
			k(st, numText(args[0]))
			return true
		}
	case "strings.Join":
		if l, ok := d.ev.listVals(args[0]); ok {
			var s []string
			for _, v := range l {
				s = append(s, ev.describe(v))
			}
			v := fx("join(" + strings.Join(s, ",") + ";" + desc(1) + ")")
			v.base = args[0].base
			k(st, v)
			return true
		}
	case "slices.Clip":
		v := args[0]
		if v.k == 'x' {
			v.base = "clipped"
		}
		k(st, v)
		return true
	case "math.Float64bits":
		k(st, fi(fterm("f64bits{"+desc(0)+"}")))
		return true
	case "math.Float64frombits":
		k(st, fx("f64{"+desc(0)+"}"))
		return true
	case "(time.Time).UnixMilli":
		k(st, fi(fterm("ms{"+desc(0)+"}")))
		return true
	case "(time.Time).UnixNano":
		k(st, fi(fterm("ns{"+desc(0)+"}")))
		return true
	case "time.UnixMilli":
		k(st, fx("time{"+desc(0)+"}"))
		return true
	case "time.Unix":
		k(st, fx("unix{"+desc(0)+";"+desc(1)+"}"))
		return true
	case "(time.Time).UTC", "(time.Time).Local":
		k(st, args[0])
		return true
	}
	// another round, for a value or element found inside this one
	if d.family[f] {
		for _, a := range args {
			if e := d.child(a); e != "" {
				d.n++
				n := fmt.Sprintf("rec%d", d.n)
				d.recs[n] = &ftdcRec{fn: f, args: args, elem: e, pos: c.Pos()}
				rs := f.Signature.Results()
				var tup []fval
				for i := 0; i < rs.Len(); i++ {
					t := fmt.Sprintf("%s#%d", n, i)
					if isInt(rs.At(i).Type()) {
						tup = append(tup, fi(fterm(t)))
					} else {
						tup = append(tup, fx(t))
					}
				}
				if len(tup) == 1 {
					k(st, tup[0])
				} else {
					k(st, fval{k: 'T', tup: tup})
				}
				return true
			}
		}
		return false
	}
	if !inPkg(f, modPath) {
		return false
	}
	name := f.Name()
	mk := func(base string) {
		d.n++
		var s []string
		for _, a := range args[1:] {
			s = append(s, ev.describe(a))
		}
		v := fval{k: 'E', base: base, tup: args[1:], desc: base + "(" + strings.Join(s, ",") + ")", key: fmt.Sprintf("new%d", d.n)}
		k(st, v)
	}
	dn := ""
	if len(args) > 0 {
		dn = ev.describe(args[0])
	}
	switch recvName(f) {
	case "ElementConstructor":
		mk(name)
		return true
	case "ValueConstructor":
		mk("VC." + name)
		return true
	case "DocumentConstructor":
		if name == "Make" || name == "New" {
			d.n++
			key := fmt.Sprintf("mdoc%d", d.n)
			st.mem[key+"!"] = fval{k: 'v'}
			k(st, fval{k: 'p', key: key})
			return true
		}
		if name == "Elements" {
			d.n++
			key := fmt.Sprintf("mdoc%d", d.n)
			st.mem[key+"!"] = args[1]
			k(st, fval{k: 'p', key: key})
			return true
		}
	case "Document", "Array":
		if args[0].k == 'p' {
			if name == "Append" {
				old := st.mem[args[0].key+"!"]
				st.mem[args[0].key+"!"] = ev.appendVals(st, old, args[1])
				if d.events != nil {
					*d.events = append(*d.events, ftdcEvent{"append", args, st.clone(), c.Pos()})
				}
				k(st, args[0])
				return true
			}
			return false
		}
		switch name {
		case "Iterator":
			k(st, fval{k: 'x', desc: "iter(" + dn + ")", base: map[bool]string{true: "array"}[recvName(f) == "Array"]})
			return true
		case "Len":
			k(st, fi(fterm("count("+dn+")")))
			return true
		}
	case "Element":
		e := args[0]
		if e.k == 'E' && len(e.tup) == 2 {
			switch name {
			case "Key":
				k(st, e.tup[0])
				return true
			case "Value":
				if e.base == "Interface" || e.base == "Value" {
					k(st, e.tup[1])
				} else {
					k(st, fx("valueOf("+e.desc+")"))
				}
				return true
			}
		}
		if e.k == 'x' {
			switch name {
			case "Key":
				k(st, fx("key("+dn+")"))
				return true
			case "Value":
				switch {
				case dn == "E":
					k(st, fx("V"))
				default:
					k(st, fx("val("+dn+")"))
				}
				return true
			}
		}
	case "Value":
		if args[0].k != 'x' || dn != "V" && dn != "V2" {
			return false
		}
		if name == "Type" {
			k(st, fi(fconst(d.tag)))
			return true
		}
		base := strings.TrimSuffix(name, "OK")
		var v fval
		switch base {
		case "MutableDocument", "ReaderDocument":
			v = fx("sub(" + dn + ")")
		case "MutableArray", "ReaderArray":
			v = fx("arr(" + dn + ")")
		default:
			rs := f.Signature.Results()
			n := rs.Len()
			if base != name {
				n--
			}
			var tup []fval
			for i := 0; i < n; i++ {
				t := "acc:" + base + ":" + dn
				if n > 1 {
					t += fmt.Sprintf("#%d", i)
				}
				switch {
				case isInt(rs.At(i).Type()):
					tup = append(tup, fi(fterm(t)))
				case isBool(rs.At(i).Type()):
					tup = append(tup, fval{k: 'c', desc: t, truth: true})
				default:
					tup = append(tup, fx(t))
				}
			}
			if base != name {
				tup = append(tup, fval{k: 'c', desc: "ok:" + base, truth: true})
			}
			v = fval{k: 'T', tup: tup}
			if len(tup) == 1 {
				v = tup[0]
			}
			k(st, v)
			return true
		}
		if base != name {
			v = fval{k: 'T', tup: []fval{v, {k: 'c', desc: "true", truth: true}}}
		}
		k(st, v)
		return true
	case "":
		if name == "MakeArray" || name == "NewArray" || name == "NewDocument" {
			d.n++
			key := fmt.Sprintf("mdoc%d", d.n)
			st.mem[key+"!"] = fval{k: 'v'}
			if name != "MakeArray" {
				st.mem[key+"!"] = args[0]
			}
			k(st, fval{k: 'p', key: key})
			return true
		}
	}
	return false
}

func numText(v fval) fval {
	if c, ok := v.sum.konst(); ok {
		return fx(fmt.Sprintf("%q", fmt.Sprint(c)))
	}
	return fx("num(" + v.sum.String() + ")")
}

// sprintf: formats of plain strings and numbers
func (d *ftdcEval) sprintf(st *fstate, args []fval) (fval, bool) {
	format, ok := constStr(args[0])
	if !ok || len(args) < 2 {
		return fval{}, false
	}
	l, ok := d.ev.listVals(args[1])
	if !ok {
		return fval{}, false
	}
	out, i := `""`, 0
	for format != "" {
		j := strings.IndexByte(format, '%')
		if j < 0 {
			out = joinText(out, fmt.Sprintf("%q", format))
			break
		}
		if j > 0 {
			out = joinText(out, fmt.Sprintf("%q", format[:j]))
		}
		if j+1 >= len(format) || i >= len(l) {
			return fval{}, false
		}
		v := l[i]
		i++
		switch format[j+1] {
		case 's':
			if v.k != 'x' {
				return fval{}, false
			}
			out = joinText(out, v.desc)
		case 'd', 'v':
			if v.k == 'i' {
				out = joinText(out, numText(v).desc)
			} else if v.k == 'x' && format[j+1] == 'v' {
				out = joinText(out, v.desc)
			} else {
				return fval{}, false
			}
		default:
			return fval{}, false
		}
		format = format[j+2:]
	}
	return fx(out), i == len(l)
}

// iterate: no element, one, or two
func (d *ftdcEval) iterate(ev *fmtEval, fr *fframe, st *fstate, in string, array bool, body fval, more int, k func(*fstate, fval)) {
	if body.fn == nil {
		ev.giveUp("loop body unknown")
		return
	}
	if more > 0 {
		e := d.elem(in)
		arg := fx(e)
		if array {
			arg = fx("val(" + e + ")")
		}
		ev.runAt(fr.depth+1, st.clone(), body.fn, append([]fval{arg}, body.tup...), func(s2 *fstate, res []fval) {
			if len(res) != 1 || res[0].k != 'c' || res[0].desc != "true" {
				ev.giveUp("loop body's result")
				return
			}
			if res[0].truth {
				s2.cond["visited "+e] = true
				d.iterate(ev, fr, s2, in, array, body, more-1, k)
				return
			}
			s2.cond["stopped at "+e] = true
			k(s2, fx(""))
		})
	}
	k(st, fx(""))
}

// visits: the elements a path went through, in order
func (d *ftdcEval) visits(st *fstate) []string {
	var out []string
	for c, t := range st.cond {
		if t && strings.HasPrefix(c, "visited ") {
			out = append(out, c[len("visited "):])
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := 0, 0
		fmt.Sscanf(out[i], "e%d", &a)
		fmt.Sscanf(out[j], "e%d", &b)
		return a < b
	})
	return out
}

// skip: paths for documents, arrays or values that are not there
func ftdcSkip(st *fstate) bool {
	for c, t := range st.cond {
		if !t {
			continue
		}
		if l, r, ok := strings.Cut(c, " == "); ok && (l == "nil" || r == "nil") {
			if l == "nil" {
				l = r
			}
			if l == "D" || l == "V" || l == "E" || strings.HasPrefix(l, "sub(") || strings.HasPrefix(l, "arr(") || strings.HasPrefix(l, "val(") {
				return true
			}
		}
	}
	return false
}

type ftdcWay struct {
	st  *fstate
	res []fval
}

// params gives every parameter its name
func ftdcParams(f *ssa.Function) []fval {
	var out []fval
	ints, strs := 0, 0
	for _, p := range f.Params {
		t := p.Type()
		switch {
		case isBirchPtr(t, "Value"):
			out = append(out, fx("V"))
		case isBirchPtr(t, "Element"):
			out = append(out, fx("E"))
		case isBirchPtr(t, "Document"):
			out = append(out, fx("D"))
		case isBirchPtr(t, "Array"):
			out = append(out, fx("arr(V)"))
		case isInt(t):
			out = append(out, fi(fterm(fmt.Sprintf("i%d", ints))))
			ints++
		case isStringT(t):
			out = append(out, fx([]string{"key", "key2", "key3", "key4"}[min(strs, 3)]))
			strs++
		case strings.HasSuffix(t.String(), "Metric"):
			out = append(out, fx("M"))
		case t.String() == "[]string":
			out = append(out, fx("path"))
		default:
			out = append(out, fx("P."+p.Name()))
		}
	}
	return out
}

func (d *ftdcEval) ways(f *ssa.Function, tag int64, args []fval, setup func(*fstate)) ([]ftdcWay, bool) {
	d.tag = tag
	d.ev.lost = ""
	d.ev.steps = 0
	st := newFstate()
	if setup != nil {
		setup(st)
	}
	var out []ftdcWay
	d.ev.run(st, f, args, func(st *fstate, res []fval) {
		if !ftdcSkip(st) {
			out = append(out, ftdcWay{st, res})
		}
	})
	if d.ev.lost != "" {
		d.undecided("%s: %s", f.Name(), d.ev.lost)
		return nil, false
	}
	return out, true
}

// column is one number a value is recorded as
type ftdcCol struct {
	val, typ, key, path string
	base                string
}

// ftdcLeaf is what one way through a function makes of one value
type ftdcLeaf struct {
	cols []ftdcCol
	cond map[string]bool
	elem fval
}

func structVals(d *ftdcEval, st *fstate, v fval, t types.Type, is func(types.Type) bool) (fval, bool) {
	_, s := derefStruct(t)
	if s == nil {
		return fval{}, false
	}
	n := fieldOfType(s, is)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != n || n == "" {
			continue
		}
		switch v.k {
		case 'o', 'p':
			return d.ev.load(st, v.key+"."+n, s.Field(i).Type()), true
		case 'x':
			return d.ev.named(st, v.desc+"."+n, s.Field(i).Type()), true
		}
	}
	return fval{}, false
}

func isListOf(elem func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		l, ok := t.Underlying().(*types.Slice)
		return ok && elem(l.Elem())
	}
}

func isBsonType(t types.Type) bool { return strings.HasSuffix(t.String(), "bsontype.Type") }

// extracted: the values and the types of a result
func (d *ftdcEval) extracted(f *ssa.Function, wy ftdcWay) (vals, typs []fval, ok bool) {
	for i, rv := range wy.res {
		t := f.Signature.Results().At(i).Type()
		v, ok1 := structVals(d, wy.st, rv, t, isListOf(func(t types.Type) bool { return isBirchPtr(t, "Value") }))
		if !ok1 {
			continue
		}
		y, ok2 := structVals(d, wy.st, rv, t, isListOf(isBsonType))
		if !ok2 {
			return nil, nil, false
		}
		a, ok1 := d.ev.listVals(v)
		b, ok2 := d.ev.listVals(y)
		return a, b, ok1 && ok2
	}
	return nil, nil, false
}

func descs(ev *fmtEval, l []fval) []string {
	var o []string
	for _, v := range l {
		o = append(o, ev.describe(v))
	}
	return o
}

type ftdcMetric struct {
	path, key, start, typ fval
}

func (d *ftdcEval) metricOf(f *ssa.Function, wy ftdcWay, v fval) (m ftdcMetric, ok bool) {
	t := f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	var o [4]bool
	m.path, o[0] = structVals(d, wy.st, v, t, func(t types.Type) bool { return t.String() == "[]string" })
	m.key, o[1] = structVals(d, wy.st, v, t, isStringT)
	m.start, o[2] = structVals(d, wy.st, v, t, func(t types.Type) bool { return t.String() == "int64" })
	m.typ, o[3] = structVals(d, wy.st, v, t, isBsonType)
	return m, o[0] && o[1] && o[2] && o[3]
}

// ftdcFam is one family: its entries take a document, its value functions the values found in there
type ftdcFam struct {
	d       *ftdcEval
	role    string
	entries []*ssa.Function
	values  []*ssa.Function
}

func (w *World) ftdcFams(r *Report) map[string]*ftdcFam {
	out := map[string]*ftdcFam{}
	for _, fam := range ftdcFamilies(w) {
		role := ftdcRole(fam)
		if role == "" {
			continue
		}
		d := newFtdcEval(w, r, fam)
		d.name = role
		f := &ftdcFam{d: d, role: role}
		var fns []*ssa.Function
		for g := range fam {
			fns = append(fns, g)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		for _, g := range fns {
			doc := false
			for _, p := range g.Params {
				if isBirchPtr(p.Type(), "Document") {
					doc = true
				}
				if isBirchPtr(p.Type(), "Value") || isBirchPtr(p.Type(), "Element") || isBirchPtr(p.Type(), "Array") {
					doc = false
					break
				}
			}
			if doc {
				f.entries = append(f.entries, g)
			}
		}
		seen := map[*ssa.Function]bool{}
		for _, g := range f.entries {
			d.recs = map[string]*ftdcRec{}
			d.ways(g, -1, ftdcParams(g), nil)
			for _, n := range sortedKeys(d.recs) {
				if h := d.recs[n].fn; !seen[h] {
					seen[h] = true
					f.values = append(f.values, h)
				}
			}
		}
		if out[role] != nil {
			r.Counts["undecided"]++
			delete(out, role)
			continue
		}
		out[role] = f
	}
	return out
}

func constOf(v fval) (int64, bool) {
	if v.k != 'i' {
		return 0, false
	}
	return v.sum.konst()
}

// leaves: what the function makes of a value of this type that holds no others
func (f *ftdcFam) leaves(g *ssa.Function, tn string, tag int64) ([]*ftdcLeaf, bool) {
	d := f.d
	ways, ok := d.ways(g, tag, ftdcParams(g), nil)
	if !ok || len(ways) == 0 {
		return nil, false
	}
	var out []*ftdcLeaf
	for _, wy := range ways {
		lf := &ftdcLeaf{cond: wy.st.cond}
		switch f.role {
		case "extract":
			vals, typs, ok := d.extracted(g, wy)
			if !ok {
				d.undecided("%s of %s: %v %v", g.Name(), tn, wy.res, wy.st.mem)
				return nil, false
			}
			if len(vals) != len(typs) {
				d.r.fail("types|"+tn, d.w.pos(g.Pos()), fmt.Sprintf("%s gives %d numbers and %d types for a value of type %s", g.Name(), len(vals), len(typs), tn))
				return nil, false
			}
			for i, v := range vals {
				c := ftdcCol{}
				switch {
				case v.k == 'E' && v.base == "VC.Int64" && v.tup[0].k == 'i':
					c.val = v.tup[0].sum.String()
				case v.k == 'x' && v.desc == "V" && tn == "Int64":
					c.val = "acc:Int64:V"
				case v.k == 'x' && v.desc == "V" && tn == "Double", v.k == 'E' && v.base == "VC.Double" && len(v.tup) == 1 && v.tup[0].desc == "acc:Double:V":
					c.val = "f64bits{acc:Double:V}"
				case v.k == 'x' && v.desc == "V":
					d.r.fail("extract|"+tn, d.w.pos(g.Pos()), fmt.Sprintf("%s records a value of type %s as it is; only Int64 and Double values can be subtracted from each other", g.Name(), tn))
					return nil, false
				default:
					d.undecided("%s of %s: %s", g.Name(), tn, v)
					return nil, false
				}
				if n, ok := constOf(typs[i]); ok {
					c.typ = fmt.Sprint(n)
				}
				lf.cols = append(lf.cols, c)
			}
		case "hash":
			n, ok := constOf(wy.res[0])
			if !ok {
				d.undecided("%s of %s: %s", g.Name(), tn, wy.res[0])
				return nil, false
			}
			wrote := ""
			for _, t := range wy.st.out {
				wrote += t.src + " "
			}
			for i := int64(0); i < n && n < 100; i++ {
				lf.cols = append(lf.cols, ftdcCol{key: strings.TrimSpace(wrote)})
			}
		case "metrics":
			l, ok := d.ev.listVals(wy.res[0])
			if !ok {
				d.undecided("%s of %s: %s", g.Name(), tn, wy.res[0])
				return nil, false
			}
			for _, v := range l {
				m, ok := d.metricOf(g, wy, v)
				if !ok {
					d.undecided("%s of %s: %s", g.Name(), tn, v)
					return nil, false
				}
				p := ""
				if pl, ok := d.ev.listVals(m.path); ok {
					p = strings.Join(descs(d.ev, pl), "/")
				}
				c := ftdcCol{val: m.start.String(), key: m.key.desc, path: p, base: m.path.base}
				if n, ok := constOf(m.typ); ok {
					c.typ = fmt.Sprint(n)
				}
				lf.cols = append(lf.cols, c)
			}
		case "restore":
			lf.elem = wy.res[0]
			if len(wy.res) != 2 || wy.res[1].k != 'i' {
				d.undecided("%s of %s: %s", g.Name(), tn, wy.res)
				return nil, false
			}
			for _, i := range []string{"i0", "i1", "i2"} {
				if n, ok := wy.res[1].sum.add(fterm(i), -1).konst(); ok && n >= 0 && n < 100 {
					lf.cols = make([]ftdcCol, n)
					for j := range lf.cols {
						lf.cols[j].key = fterm(i).add(fconst(int64(j)), 1).String()
					}
					ok = true
				}
			}
			if _, one := wy.res[1].sum.single(); lf.cols == nil && !one {
				d.undecided("%s of %s: counts %s", g.Name(), tn, wy.res[1])
				return nil, false
			}
		}
		out = append(out, lf)
	}
	return out, true
}

// millis: a number of milliseconds since 1970 of the date V; the reason if it is not exactly that
func millis(s string) (bool, string) {
	switch s {
	case "ms{acc:Time:V}", "acc:DateTime:V":
		return true, ""
	case "?/(ns{acc:Time:V},1000000)":
		return false, "milliseconds taken from a count of nanoseconds, which overflows for dates before 1678 and after 2262"
	}
	return false, ""
}

func isMillisTime(v fval, of string) bool {
	s := v.desc
	return s == "time{"+of+"}" ||
		strings.HasPrefix(s, "unix{?/("+of+",1000);") && strings.HasSuffix(s, ";1000000*?%("+of+",1000)}")
}

func checkFtdcValues(w *World, r *Report) {
	r.Rule = "abstract interpretation of the four recursive functions over metrics documents (sample extraction, schema hash, expansion of the reference document, restoring of a sample) and of the flat and matrix forms, for a value of each BSON type and, in documents and arrays, for any element: the number of columns agrees, the starting value of a column is the number samples of it are recorded as, every column has its own key path, and what is restored is the element of the same key, type and value from the same columns"
	r.Assumptions = append(r.Assumptions, "element constructors and accessors do what P05 and P07 decide; a 64-bit number kept in a narrower type was of that type when recorded")
	fams := w.ftdcFams(r)
	tags := bsonTags(w)
	for _, role := range []string{"extract", "hash", "metrics", "restore"} {
		if fams[role] == nil || len(fams[role].values) != 1 {
			r.Counts["undecided"]++
			if os.Getenv("AN_DUMP") != "" {
				fmt.Println("UNDECIDED family", role)
			}
			continue
		}
		r.Counts["families"]++
	}
	var names []string
	for n := range tags {
		names = append(names, n)
	}
	sort.Strings(names)
	must := map[string]int{"Boolean": 1, "Double": 1, "Int32": 1, "Int64": 1, "DateTime": 1, "Timestamp": 2}
	for _, tn := range names {
		if tn == "EmbeddedDocument" || tn == "Array" {
			continue
		}
		checkFtdcType(w, r, fams, tn, tags[tn], must[tn])
	}
	for _, role := range []string{"extract", "hash", "metrics", "restore"} {
		f := fams[role]
		if f == nil {
			continue
		}
		for _, g := range f.entries {
			f.container(g, "document", -1)
		}
		for _, g := range f.values {
			f.container(g, "EmbeddedDocument", tags["EmbeddedDocument"])
			f.container(g, "Array", tags["Array"])
		}
	}
	ftdcFlat(w, r, tags, must)
	ftdcMatrix(w, r, tags, must)
	ftdcKey(w, r)
	r.min("families", 3)
	r.min("values decided", 20)
	r.min("containers decided", 6)
}

func checkFtdcType(w *World, r *Report, fams map[string]*ftdcFam, tn string, tag int64, want int) {
	got := map[string][]*ftdcLeaf{}
	fn := map[string]*ssa.Function{}
	for _, role := range []string{"extract", "hash", "metrics", "restore"} {
		f := fams[role]
		if f == nil || len(f.values) != 1 {
			continue
		}
		l, ok := f.leaves(f.values[0], tn, tag)
		if !ok {
			continue
		}
		fn[role] = f.values[0]
		bad := false
		for _, x := range l {
			if len(x.cols) != want {
				r.fail(role+"|count|"+tn, w.pos(f.values[0].Pos()), fmt.Sprintf("%s counts %d numbers for a value of type %s, of which %d are recorded", f.values[0].Name(), len(x.cols), tn, want))
				bad = true
				break
			}
		}
		if !bad {
			got[role] = l
			r.ok(fmt.Sprintf("%s: %d columns for %s", role, want, tn))
			r.Counts["values decided"]++
		}
	}
	if want == 0 {
		for _, x := range got["restore"] {
			if x.elem.k != 'n' {
				r.fail("restore|made|"+tn, w.pos(fn["restore"].Pos()), fmt.Sprintf("%s makes an element for a value of type %s, which has no columns", fn["restore"].Name(), tn))
			}
		}
		return
	}
	// the types of the columns
	for _, role := range []string{"extract", "metrics"} {
		for _, x := range got[role] {
			for i, c := range x.cols {
				r.check(c.typ == fmt.Sprint(tag), role+"|type|"+tn, w.pos(fn[role].Pos()), fmt.Sprintf("%s gives column %d of a value of type %s the type %s", fn[role].Name(), i, tn, c.typ))
			}
		}
	}
	// the number recorded
	wants := map[string][]string{
		"Double": {"f64bits{acc:Double:V}"}, "Int32": {"acc:Int32:V"}, "Int64": {"acc:Int64:V"}, "Timestamp": {"acc:Timestamp:V#0", "acc:Timestamp:V#1"},
	}
	for _, role := range []string{"extract", "metrics"} {
		what := map[string]string{"extract": "is recorded in a sample as", "metrics": "starts its column at"}[role]
		for _, x := range got[role] {
			for i, c := range x.cols {
				ok, why := false, ""
				switch tn {
				case "Boolean":
					t, known := x.cond["acc:Boolean:V"]
					ok = known && (c.val == "1") == t && (c.val == "0") == !t
				case "DateTime":
					ok, why = millis(c.val)
				default:
					ok = c.val == wants[tn][i]
				}
				if !ok && strings.Contains(c.val, "?") && why == "" && !strings.HasPrefix(c.val, "?/(") && !strings.Contains(c.val, "*") {
					fams[role].d.undecided("%s: %s", tn, c.val)
					continue
				}
				msg := fmt.Sprintf("a value of type %s %s %s", tn, what, strings.ReplaceAll(strings.ReplaceAll(c.val, "acc:", ""), ":V", "()"))
				if why != "" {
					msg += ": " + why
				}
				r.check(ok, fmt.Sprintf("%s|number|%s|%d|%s", role, tn, i, c.val), w.pos(fn[role].Pos()), msg)
			}
		}
	}
	// keys
	for _, x := range got["hash"] {
		for _, c := range x.cols {
			r.check(c.key == "key", "hash|key|"+tn, w.pos(fn["hash"].Pos()), fmt.Sprintf("%s writes %q to the schema hash for a value of type %s, not its key", fn["hash"].Name(), c.key, tn))
		}
	}
	for _, x := range got["metrics"] {
		seen := map[string]bool{}
		for i, c := range x.cols {
			ok := c.path == "each(path)" && (c.key == "key" || i > 0 && strings.HasPrefix(c.key, "key⊕")) && !seen[c.key]
			seen[c.key] = true
			r.check(ok, fmt.Sprintf("metrics|key|%s|%d", tn, i), w.pos(fn["metrics"].Pos()), fmt.Sprintf("%s puts column %d of a value of type %s under %s / %s", fn["metrics"].Name(), i, tn, c.path, c.key))
		}
	}
	// restored
	for _, x := range got["restore"] {
		ftdcRestored(w, r, fams["restore"].d, fn["restore"], x, tn)
	}
}

// madeFrom: v is an element (or value) of the type tn made from the numbers nums; key is checked if not empty
func (d *ftdcEval) madeFrom(v fval, prefix, tn, key string, nums []string, cond map[string]bool) (ok bool, why string) {
	if v.k != 'E' {
		return false, "?"
	}
	args := v.tup
	if prefix == "" {
		if len(args) == 0 || d.ev.describe(args[0]) != key {
			return false, "under the key " + v.desc
		}
		args = args[1:]
	}
	name := strings.TrimPrefix(v.base, "VC.")
	num := func(i int, n string) bool { return i < len(args) && args[i].k == 'i' && args[i].sum.String() == n }
	switch tn {
	case "Boolean":
		if name != "Boolean" || len(args) != 1 {
			break
		}
		b := args[0]
		if b.k != 'c' {
			return false, "?"
		}
		zero := "0 == " + nums[0]
		if b.desc == zero {
			return !b.truth, "the opposite"
		}
		if b.desc != "true" {
			return false, b.String()
		}
		t, known := cond[zero]
		return known && b.truth == !t, fmt.Sprintf("%v for %s being %v", b.truth, zero, t)
	case "Double":
		if name == "Double" && len(args) == 1 {
			return args[0].desc == "f64{"+nums[0]+"}", v.desc
		}
	case "Int32", "Int64":
		if name == tn {
			return num(0, nums[0]), v.desc
		}
	case "DateTime":
		if name == "DateTime" {
			return num(0, nums[0]), v.desc
		}
		if name == "Time" && len(args) == 1 {
			return isMillisTime(args[0], nums[0]), v.desc
		}
	case "Timestamp":
		if name == tn && len(nums) == 2 {
			return num(0, nums[0]) && num(1, nums[1]), v.desc
		}
	}
	return false, v.desc
}

func ftdcRestored(w *World, r *Report, d *ftdcEval, g *ssa.Function, x *ftdcLeaf, tn string) {
	sample := ""
	for _, p := range ftdcParams(g) {
		if p.k == 'i' && p.sum.String() != x.cols[0].key {
			sample = p.sum.String()
		}
	}
	var nums []string
	for _, c := range x.cols {
		nums = append(nums, fmt.Sprintf("M[%s].Values[%s]", c.key, sample))
	}
	ok, why := d.madeFrom(x.elem, "", tn, "key(E)", nums, x.cond)
	if why == "?" {
		d.undecided("restored %s: %s", tn, x.elem)
		return
	}
	r.check(ok, "restore|element|"+tn, w.pos(g.Pos()), fmt.Sprintf("%s makes %s of a column of type %s", g.Name(), why, tn))
}

// container: documents and arrays go through all their elements in order, and every one has its part in the result
func (f *ftdcFam) container(g *ssa.Function, kind string, tag int64) {
	d := f.d
	d.recs = map[string]*ftdcRec{}
	params := ftdcParams(g)
	ways, ok := d.ways(g, tag, params, nil)
	if !ok {
		return
	}
	name := fmt.Sprintf("%s of a %s", g.Name(), kind)
	key := f.role + "|" + kind
	pos := d.w.pos(g.Pos())
	two := false
	for _, wy := range ways {
		vis := d.visits(wy.st)
		for c := range wy.st.cond {
			if strings.HasPrefix(c, "stopped at ") {
				rs := g.Signature.Results()
				if rs.At(rs.Len()-1).Type().String() == "error" {
					d.undecided("%s stops", name) // for an error, perhaps
					return
				}
				d.r.fail(key+"|stop", pos, fmt.Sprintf("%s leaves out the rest of the elements on some path", name))
				return
			}
		}
		byElem := map[string]string{}
		for _, n := range sortedKeys(d.recs) {
			e := d.recs[n].elem
			if byElem[e] != "" && has(vis, e) {
				d.undecided("%s looks at an element twice", name)
				return
			}
			byElem[e] = n
		}
		var recs []string
		for _, e := range vis {
			if byElem[e] == "" {
				d.r.fail(key+"|skip", pos, fmt.Sprintf("%s passes over an element on some path", name))
				return
			}
			recs = append(recs, byElem[e])
		}
		if len(vis) == 2 {
			two = true
		}
		if !f.combined(g, kind, key, name, wy, vis, recs, params) {
			return
		}
	}
	if !two {
		d.undecided("%s: no loop seen", name)
		return
	}
	d.r.ok(name)
	d.r.Counts["containers decided"]++
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (f *ftdcFam) combined(g *ssa.Function, kind, key, name string, wy ftdcWay, vis, recs []string, params []fval) bool {
	d := f.d
	pos := d.w.pos(g.Pos())
	fail := func(k, msg string, a ...any) bool {
		d.r.fail(key+"|"+k, pos, fmt.Sprintf(msg, a...))
		return false
	}
	und := func(what string, a ...any) bool {
		d.undecided(name+": "+what, a...)
		return false
	}
	each := func(suffix string) []string {
		var o []string
		for _, n := range recs {
			o = append(o, "each("+n+"#0"+suffix+")")
		}
		return o
	}
	same := func(a, b []string) bool { return strings.Join(a, ",") == strings.Join(b, ",") }
	strArg := func(rec *ftdcRec) (string, bool) {
		for i, p := range rec.fn.Params {
			if isStringT(p.Type()) {
				return d.ev.describe(rec.args[i]), true
			}
		}
		return "", false
	}
	switch f.role {
	case "extract":
		vals, typs, ok := d.extracted(g, wy)
		if !ok {
			return und("result")
		}
		var vf, tf string
		for i := 0; i < g.Signature.Results().Len(); i++ {
			if _, s := derefStruct(g.Signature.Results().At(i).Type()); s != nil {
				vf = fieldOfType(s, isListOf(func(t types.Type) bool { return isBirchPtr(t, "Value") }))
				tf = fieldOfType(s, isListOf(isBsonType))
				if vf != "" {
					break
				}
			}
		}
		if !same(descs(d.ev, vals), each("."+vf)) {
			return fail("values", "%s: of %d elements the values collected are %v", name, len(vis), readable(descs(d.ev, vals)))
		}
		if !same(descs(d.ev, typs), each("."+tf)) {
			return fail("types", "%s: of %d elements the types collected are %v", name, len(vis), readable(descs(d.ev, typs)))
		}
	case "hash":
		sum := fsum{}
		for _, n := range recs {
			sum = sum.add(fterm(n+"#0"), 1)
		}
		if wy.res[0].k != 'i' {
			return und("result")
		}
		if !wy.res[0].sum.eq(sum) {
			return fail("count", "%s: of %d elements it counts %s", name, len(vis), wy.res[0])
		}
		for i, n := range recs {
			k, ok := strArg(d.recs[n])
			if !ok || strings.Contains(k, "?") {
				return und("key %s", k)
			}
			want := "key(" + vis[i] + ")"
			if kind == "Array" {
				want = fmt.Sprint(i)
			}
			if !keyPath(k, "key", want, kind == "Array") {
				return fail("key", "%s: element number %d goes into the schema hash as %s", name, i, readable([]string{k}))
			}
		}
	case "metrics":
		l, ok := d.ev.listVals(wy.res[0])
		if !ok {
			return und("result %s", wy.res[0])
		}
		if !same(descs(d.ev, l), each("")) {
			for _, v := range l {
				if v.k == 'x' && strings.Contains(v.desc, "?") {
					return und("result %s", v)
				}
			}
			if len(recs) > 0 && len(l) == len(recs) && l[0].k == 'o' {
				// copies of what was found, part by part
				return und("copies")
			}
			return fail("columns", "%s: of %d elements the columns are %v", name, len(vis), readable(descs(d.ev, l)))
		}
		for i, n := range recs {
			rec := d.recs[n]
			k, ok := strArg(rec)
			if !ok || strings.Contains(k, "?") {
				return und("key %s", k)
			}
			good := k == "key("+vis[i]+")"
			if kind == "Array" {
				good = keyPath(k, "key", fmt.Sprint(i), true)
			}
			if !good {
				return fail("key", "%s: element number %d has the key %s", name, i, readable([]string{k}))
			}
			for j, p := range rec.fn.Params {
				if p.Type().String() != "[]string" {
					continue
				}
				pl, ok := d.ev.listVals(rec.args[j])
				if !ok {
					return und("path %s", rec.args[j])
				}
				want := []string{"each(path)"}
				if kind == "EmbeddedDocument" {
					want = append(want, "key")
					if rec.args[j].base == "shared" && same(descs(d.ev, pl), want) {
						return fail("alias", "%s: the path of the elements is appended to the path passed in, in whose memory the path of another document may lie", name)
					}
				}
				if !same(descs(d.ev, pl), want) {
					return fail("path", "%s: the path of its elements is %v", name, readable(descs(d.ev, pl)))
				}
			}
		}
	case "restore":
		return f.restored(g, kind, name, wy, vis, recs, fail, und)
	}
	return true
}

func readable(l []string) string {
	var o []string
	for _, s := range l {
		s = strings.NewReplacer("each(", "all of (", "⊕", " + ", "rec", "element").Replace(s)
		o = append(o, s)
	}
	return "[" + strings.Join(o, ", ") + "]"
}

// keyPath: outer, something between, inner
func keyPath(k, outer, inner string, quoted bool) bool {
	parts := strings.Split(k, "⊕")
	if len(parts) < 2 || parts[0] != outer {
		return false
	}
	if quoted {
		var s string
		if n, err := fmt.Sscanf(parts[1], "%q", &s); len(parts) != 2 || n != 1 || err != nil {
			return false
		}
		t := strings.TrimSuffix(s, inner)
		return t != s && t != "" && !strings.ContainsAny(t, "0123456789")
	}
	return len(parts) == 3 && strings.HasPrefix(parts[1], `"`) && parts[2] == inner
}

func (f *ftdcFam) restored(g *ssa.Function, kind, name string, wy ftdcWay, vis, recs []string, fail func(string, string, ...any) bool, und func(string, ...any) bool) bool {
	d := f.d
	if len(wy.res) != 2 || wy.res[1].k != 'i' {
		return und("result")
	}
	// which of the numbers is the column, and which the sample
	at, smp := -1, -1
	ix := ""
	for _, n := range recs {
		h := d.recs[n].fn
		l, ok := f.leavesQuiet(h)
		if !ok {
			return und("column")
		}
		ix = l
		for i, p := range ftdcParams(h) {
			if p.k == 'i' {
				if p.sum.String() == ix {
					at = i
				} else {
					smp = i
				}
			}
		}
	}
	// the parameter handed on to the first element is the column this function starts at
	var cur, smpl string
	for i, n := range recs {
		rec := d.recs[n]
		if at < 0 || smp < 0 {
			return und("column")
		}
		a := rec.args[at].sum.String()
		s := rec.args[smp].sum.String()
		if i == 0 {
			cur, smpl = a, s
			if !strings.HasPrefix(a, "i") || strings.Contains(a, "+") || !strings.HasPrefix(s, "i") || strings.Contains(s, "+") || a == s {
				return fail("start", "%s: the first element starts at column %s of sample %s", name, a, s)
			}
		} else {
			if a != cur {
				return fail("column", "%s: element number %d does not start at the column the one before it ended at", name, i)
			}
			if s != smpl {
				return fail("sample", "%s: element number %d is restored from another sample", name, i)
			}
		}
		for j, p := range rec.fn.Params {
			if strings.HasSuffix(p.Type().String(), "Metric") && d.ev.describe(rec.args[j]) != "M" {
				return und("columns")
			}
		}
		cur = n + "#1"
	}
	if len(recs) > 0 && wy.res[1].sum.String() != cur {
		return fail("end", "%s: says its columns end at %s", name, readable([]string{wy.res[1].String()}))
	}
	if len(recs) == 0 {
		if _, ok := wy.res[1].sum.single(); !ok {
			return fail("end", "%s: without elements its columns end at %s", name, wy.res[1])
		}
	}
	// what is made of them
	var list fval
	res := wy.res[0]
	val := false
	if kind != "document" {
		if res.k == 'n' {
			return fail("nothing", "%s: is not restored at all on some path", name)
		}
		if res.k != 'E' || len(res.tup) != 2 {
			return und("element %s", res)
		}
		if d.ev.describe(res.tup[0]) != "key(E)" {
			return fail("key", "%s: is restored under %s", name, d.ev.describe(res.tup[0]))
		}
		okName := map[string]string{"EmbeddedDocument": "SubDocument SubDocumentFromElements", "Array": "Array ArrayFromElements"}[kind]
		if !has(strings.Fields(okName), res.base) {
			return fail("kind", "%s: is restored by %s", name, res.base)
		}
		val = kind == "Array"
		res = res.tup[1]
	}
	if res.k == 'p' {
		list = wy.st.mem[res.key+"!"]
	} else {
		list = res
	}
	l, ok := d.ev.listVals(list)
	if !ok {
		return und("contents %s", list)
	}
	var want []string
	for _, n := range recs {
		e := n + "#0"
		if t, known := wy.st.cond["nil == "+e]; known && t {
			continue
		} else if !known && has(descs(d.ev, l), e) {
			// appended as it is: Append skips nothing
			return und("element that may be nil")
		}
		if val {
			e = "val(" + e + ")"
		}
		want = append(want, e)
	}
	if strings.Join(want, ",") != strings.Join(descs(d.ev, l), ",") {
		return fail("contents", "%s: of the elements restored it keeps %v", name, readable(descs(d.ev, l)))
	}
	return true
}

// leavesQuiet: the number that counts columns, from what the function does with a plain 64-bit number
func (f *ftdcFam) leavesQuiet(h *ssa.Function) (string, bool) {
	recs := f.d.recs
	defer func() { f.d.recs = recs }()
	l, ok := f.leaves(h, "Int64", bsonTags(f.d.w)["Int64"])
	if !ok || len(l) == 0 || len(l[0].cols) != 1 {
		return "", false
	}
	return l[0].cols[0].key, true
}

// ftdcFlat: (type, key, number) -> element
func ftdcFlat(w *World, r *Report, tags map[string]int64, must map[string]int) {
	for _, f := range w.Funcs {
		sg := f.Signature
		if !inPkg(f, ftdcPath) || len(f.Blocks) == 0 || sg.Recv() != nil || sg.Params().Len() != 3 || sg.Results().Len() < 1 ||
			!isBsonType(sg.Params().At(0).Type()) || !isStringT(sg.Params().At(1).Type()) || sg.Params().At(2).Type().String() != "int64" || !isBirchPtr(sg.Results().At(0).Type(), "Element") {
			continue
		}
		for tn := range must {
			d := newFtdcEval(w, r, nil)
			d.name = "flat"
			ways, ok := d.ways(f, tags[tn], []fval{fi(fconst(tags[tn])), fx("key"), fi(fterm("n"))}, nil)
			if !ok {
				continue
			}
			as := tn
			if tn == "Timestamp" {
				as = "Int64" // its two columns are two numbers here
			}
			for _, wy := range ways {
				if len(wy.res) > 1 && wy.res[1].k == 'c' && wy.res[1].desc == "true" && !wy.res[1].truth {
					r.fail("flat|left out|"+tn, w.pos(f.Pos()), fmt.Sprintf("%s leaves out columns of type %s", f.Name(), tn))
					continue
				}
				good, why := d.madeFrom(wy.res[0], "", as, "key", []string{"n"}, wy.st.cond)
				if why == "?" {
					d.undecided("%s", wy.res[0])
					continue
				}
				r.check(good, "flat|"+tn, w.pos(f.Pos()), fmt.Sprintf("%s makes %s of a column of type %s", f.Name(), why, tn))
				r.Counts["flat elements"]++
			}
		}
	}
}

// ftdcMatrix: (columns, number of a column) -> array element and the number of the next
func ftdcMatrix(w *World, r *Report, tags map[string]int64, must map[string]int) {
	for _, f := range w.Funcs {
		sg := f.Signature
		if !inPkg(f, ftdcPath) || len(f.Blocks) == 0 || sg.Recv() != nil || sg.Params().Len() != 2 || sg.Results().Len() < 2 ||
			!strings.HasSuffix(sg.Params().At(0).Type().String(), "Metric") || !isInt(sg.Params().At(1).Type()) || !isBirchPtr(sg.Results().At(0).Type(), "Element") {
			continue
		}
		for tn, n := range must {
			d := newFtdcEval(w, r, nil)
			d.name = "matrix"
			var evs []ftdcEvent
			d.events = &evs
			ways, ok := d.ways(f, tags[tn], []fval{fx("M"), fi(fterm("i"))}, func(st *fstate) {
				s := derefT(sg.Params().At(0).Type().Underlying().(*types.Slice).Elem()).Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if isBsonType(s.Field(i).Type()) {
						st.mem["M[i]."+s.Field(i).Name()] = fi(fconst(tags[tn]))
					}
				}
			})
			if !ok {
				continue
			}
			for _, wy := range ways {
				if len(wy.res) == 3 && nilF(wy.res[2]) != 1 || wy.res[0].k == 'n' {
					continue // an error
				}
				res := wy.res[0]
				if res.k != 'E' || res.base != "Array" && res.base != "ArrayFromElements" || wy.res[1].k != 'i' {
					d.undecided("%s", res)
					continue
				}
				next := fterm("i").add(fconst(int64(n)), 1)
				r.check(wy.res[1].sum.eq(next), "matrix|next|"+tn, w.pos(f.Pos()), fmt.Sprintf("%s goes on at column %s after a column of type %s", f.Name(), wy.res[1], tn))
				k := d.ev.describe(res.tup[0])
				r.check(k == "Key(M[i])", "matrix|key|"+tn, w.pos(f.Pos()), fmt.Sprintf("%s puts a column of type %s under %s", f.Name(), tn, k))
				r.Counts["matrix columns"]++
			}
			for _, e := range evs {
				l, ok := d.ev.listVals(e.args[1])
				if !ok || len(l) != 1 {
					d.undecided("%v", e.args)
					continue
				}
				// which entry of the column is looked at
				ix := ""
				if i := strings.Index(l[0].desc, "M[i].Values["); i >= 0 {
					ix = l[0].desc[i+len("M[i].Values["):]
					if j := strings.IndexByte(ix, ']'); j >= 0 {
						ix = ix[:j]
					}
				} else if tn == "Boolean" && l[0].k == 'E' && len(l[0].tup) == 1 {
					if i := strings.Index(l[0].tup[0].desc, "M[i].Values["); i >= 0 {
						ix = strings.TrimSuffix(l[0].tup[0].desc[i+len("M[i].Values["):], "]")
					}
				}
				nums := []string{"M[i].Values[" + ix + "]"}
				if n == 2 {
					nums = append(nums, "M[1+i].Values["+ix+"]")
				}
				good, why := d.madeFrom(l[0], "VC.", tn, "", nums, e.st.cond)
				if why == "?" || ix == "" && !good {
					d.undecided("%s of %s", l[0], tn)
					continue
				}
				r.check(good, "matrix|"+tn, d.w.pos(e.pos), fmt.Sprintf("%s makes %s of an entry of a column of type %s", f.Name(), why, tn))
				r.Counts["matrix entries"]++
			}
		}
	}
}

// ftdcKey: the full name of a column
func ftdcKey(w *World, r *Report) {
	for _, f := range w.Funcs {
		sg := f.Signature
		if !inPkg(f, ftdcPath) || len(f.Blocks) == 0 || f.Parent() != nil || recvName(f) != "Metric" || sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isStringT(sg.Results().At(0).Type()) {
			continue
		}
		d := newFtdcEval(w, r, nil)
		d.name = "key"
		ways, ok := d.ways(f, -1, []fval{fx("m")}, nil)
		if !ok {
			continue
		}
		_, s := derefStruct(sg.Recv().Type())
		pn := fieldOfType(s, func(t types.Type) bool { return t.String() == "[]string" })
		kn := fieldOfType(s, isStringT)
		for _, wy := range ways {
			v := wy.res[0]
			if v.k != 'x' || !strings.HasPrefix(v.desc, "join(") {
				d.undecided("%s", v)
				continue
			}
			want := fmt.Sprintf("join(each(m.%s),m.%s;\".\")", pn, kn)
			r.check(v.desc == want, "key|"+f.Name(), w.pos(f.Pos()), fmt.Sprintf("the name of a column is %s", readable([]string{v.desc})))
			r.check(v.base != "shared", "key|alias", w.pos(f.Pos()), fmt.Sprintf("%s appends to the path of the column in place, in whose memory the path of another may lie", f.Name()))
		}
	}
}
