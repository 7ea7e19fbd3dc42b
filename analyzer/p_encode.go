package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What encoders write: documents and arrays as length, elements in order, zero byte; elements as their bytes.

// encRec is one write into a buffer
type encRec struct {
	buf      string
	off, n   fsum
	kind     string // data, i32, byte, elem, sub, text
	src      string
	val      fsum
	dataBase string
	dataOff  fsum
}

func (x *encRec) String() string {
	return fmt.Sprintf("%s %s of %s bytes at %s", x.kind, x.src, x.n, x.off)
}

type encRun struct {
	w     *World
	ev    *fmtEval
	name  string
	zero  map[string]bool // quantities known not to be negative
	level int
	tag   int64 // type byte of the element looked at
	words map[string]fsum
	elemW map[*ssa.Function]bool // element writers met
	valW  map[*ssa.Function]bool // sizes of values met
	docW  map[*ssa.Function]bool // writers of whole documents and arrays met
	logs  map[*fstate][]*encRec
	undec map[string]bool
	fails []string
	total fsum // size asked for
	doc   *encDoc
	why   string
}

func (t *encRun) lose(why string) { t.undec[why] = true }

// log of writes: kept in the state so that paths do not mix
func (t *encRun) log(st *fstate) []*encRec {
	v, ok := st.mem["#log"]
	if !ok {
		return nil
	}
	return v.recs
}
func (t *encRun) add(st *fstate, x *encRec) {
	v := st.mem["#log"]
	v.recs = append(append([]*encRec{}, v.recs...), x)
	st.mem["#log"] = v
}

// low: a lower bound of a sum, if there is one
func (t *encRun) low(d fsum) (int64, bool) {
	for k, n := range d {
		if k != "" && (n < 0 || !t.zero[k]) {
			return 0, false
		}
	}
	return d[""], true
}

func (t *encRun) settle(op token.Token, d fsum) (bool, bool) {
	if _, ok := d.konst(); ok {
		return false, false
	}
	lo, hasLo := t.low(d)
	hi, hasHi := t.low(fsum{}.add(d, -1))
	hi = -hi
	switch op {
	case token.EQL, token.NEQ:
		if hasLo && lo > 0 || hasHi && hi < 0 {
			return op == token.NEQ, true
		}
	case token.LSS:
		if hasHi && hi < 0 {
			return true, true
		}
		if hasLo && lo >= 0 {
			return false, true
		}
	case token.LEQ:
		if hasHi && hi <= 0 {
			return true, true
		}
		if hasLo && lo > 0 {
			return false, true
		}
	case token.GTR:
		if hasLo && lo > 0 {
			return true, true
		}
		if hasHi && hi <= 0 {
			return false, true
		}
	case token.GEQ:
		if hasLo && lo >= 0 {
			return true, true
		}
		if hasHi && hi < 0 {
			return false, true
		}
	}
	return false, false
}

func quotedLen(s string) (string, bool) {
	u, err := strconv.Unquote(s)
	return u, err == nil
}

// tokLen: how long a piece of text is
func tokRec(tk *ftok) (n fsum, kind, src string, val fsum, ok bool) {
	switch tk.kind {
	case "str", "cstr":
		u, isC := quotedLen(tk.src)
		if !isC {
			return nil, "", "", nil, false
		}
		if tk.kind == "cstr" {
			u += "\x00"
		}
		return fconst(int64(len(u))), "text", u, nil, true
	case "byte":
		return fconst(1), "byte", tk.src, tk.val, true
	case "i32":
		return fconst(4), "i32", tk.src, tk.val, true
	case "i16", "i64":
		if c, ok := tk.val.konst(); ok && tk.val != nil {
			n := map[string]int{"i16": 2, "i64": 8}[tk.kind]
			var b []byte
			for i := 0; i < n; i++ {
				b = append(b, byte(uint64(c)>>(8*i)))
			}
			return fconst(int64(n)), "text", string(b), nil, true
		}
	}
	return nil, "", "", nil, false
}

func (t *encRun) copied(st *fstate, dst, src fval) (fsum, bool) {
	if dst.k != 's' || !t.ev.flat.bufs[dst.base] {
		return nil, false
	}
	if src.k == 's' && src.end == nil && t.ev.flat.lens[src.base] != nil {
		src.end = t.ev.flat.lens[src.base]
	}
	if src.k == 's' && !t.ev.flat.bufs[src.base] && src.end != nil && (src.base == "D" || strings.HasPrefix(src.base, "d")) {
		n := src.end.add(src.sum, -1)
		if room := t.lenOf(dst); room != nil {
			if lo, ok := t.low(room.add(n, -1)); !ok || lo < 0 {
				if lo, ok := t.low(n.add(room, -1)); !ok || lo < 0 {
					t.lose("a copy of " + src.String())
					return nil, false
				}
				n = room
			}
		}
		t.add(st, &encRec{buf: dst.base, off: dst.sum, n: n, kind: "data", src: src.base + "@" + src.sum.String(), dataBase: src.base, dataOff: src.sum})
		return n, true
	}
	if src.k == 'x' {
		if u, ok := quotedLen(src.desc); ok {
			t.add(st, &encRec{buf: dst.base, off: dst.sum, n: fconst(int64(len(u))), kind: "text", src: u})
			return fconst(int64(len(u))), true
		}
	}
	if src.k == 'b' || src.k == 's' && t.ev.sized[src.base] != nil {
		toks := t.ev.bytesOf(st, src)
		tot, off := fsum{}, dst.sum
		for _, tk := range toks {
			n, kind, s, val, ok := tokRec(tk)
			if !ok {
				t.lose("a copy of " + src.String())
				return nil, false
			}
			if val == nil && kind != "text" {
				if c, err := strconv.ParseInt(s, 10, 64); err == nil {
					val = fconst(c)
				}
			}
			t.add(st, &encRec{buf: dst.base, off: off, n: n, kind: kind, src: s, val: val})
			off = off.add(n, 1)
			tot = tot.add(n, 1)
		}
		return tot, true
	}
	t.lose("a copy of " + src.String())
	return nil, false
}

func (t *encRun) stored(st *fstate, dst, v fval) {
	x := &encRec{buf: dst.base, off: dst.sum, n: fconst(1), kind: "byte", src: v.String()}
	if v.k == 'i' {
		x.val = v.sum
		if v.tok != nil {
			x.src = v.tok.kind + ":" + v.tok.base + "@" + v.tok.off.String()
		}
	}
	t.add(st, x)
}

func (t *encRun) outBuf(args []fval) (int, bool) {
	for i, a := range args {
		if a.k == 's' && t.ev.flat.bufs[a.base] {
			return i, true
		}
	}
	return 0, false
}

// shape: the results of a function are a number and an error
func numErr(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() == 2 && isInt(rs.At(0).Type()) && rs.At(1).Type().String() == "error"
}

// writerArgs: where to write, with the key or not, and the size announced
func writerArgs(f *ssa.Function, args []fval, buf int) (pos fsum, size fsum, key, ok bool) {
	key, ok = true, true
	np := 0
	for i, p := range f.Params {
		if i == 0 || i == buf || i >= len(args) {
			continue
		}
		switch b, _ := p.Type().Underlying().(*types.Basic); {
		case b == nil:
			ok = false
		case b.Kind() == types.Bool:
			if args[i].k != 'c' || args[i].desc != "true" {
				ok = false
			}
			key = args[i].truth
		case b.Kind() == types.Uint32 || b.Kind() == types.Int32:
			size = args[i].sum
			if args[i].k != 'i' {
				ok = false
			}
		case isInt(p.Type()):
			if args[i].k != 'i' {
				ok = false
			}
			pos = args[i].sum
			np++
		default:
			ok = false
		}
	}
	if np == 0 {
		pos = fsum{}
	}
	if np > 1 {
		ok = false
	}
	return
}

// step: a call that can fail, each way
func (t *encRun) step(st *fstate, n fval, k func(*fstate, fval)) {
	bad := st.clone()
	bad.cond["#failed"] = true
	k(st, fval{k: 'T', tup: []fval{n, {k: 'n'}}})
	k(bad, fval{k: 'T', tup: []fval{n, fx("error:step")}})
}

func (t *encRun) onCall(ev *fmtEval, fr *fframe, st *fstate, c *ssa.Call, args []fval, k func(*fstate, fval)) bool {
	cc := &c.Call
	if cc.IsInvoke() {
		if cc.Method.Name() == "Write" && len(args) == 2 && args[1].k == 's' {
			st.mem["#sink"] = args[1]
			st.cond["#written"] = true
			t.step(st, fi(t.lenOf(args[1])), k)
			return true
		}
		return false
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	n := calleeFull(cc)
	switch {
	case strings.Contains(n, "encoding/binary") && strings.HasSuffix(n, "PutUint32") && len(args) == 3 && args[1].k == 's' && ev.flat.bufs[args[1].base] && !strings.Contains(n, "big"):
		x := &encRec{buf: args[1].base, off: args[1].sum, n: fconst(4), kind: "i32", src: args[2].String()}
		if args[2].k == 'i' {
			x.val = args[2].sum
		}
		t.add(st, x)
		k(st, fx(""))
		return true
	case n == "strconv.Itoa" || n == "strconv.FormatInt" || n == "strconv.FormatUint":
		if v, ok := args[0].sum.konst(); ok && args[0].k == 'i' {
			base := int64(10)
			if len(args) > 1 {
				base, ok = args[1].sum.konst()
			}
			if ok && base >= 2 && base <= 36 {
				k(st, fx(strconv.Quote(strconv.FormatInt(v, int(base)))))
				return true
			}
		}
	case n == "strconv.AppendInt" || n == "strconv.AppendUint":
		if v, ok := args[1].sum.konst(); ok && args[1].k == 'i' {
			if base, ok := args[2].sum.konst(); ok && base >= 2 && base <= 36 {
				k(st, fval{k: 'b', toks: append(append([]*ftok{}, ev.bytesOf(st, args[0])...), &ftok{kind: "str", src: strconv.Quote(strconv.FormatInt(v, int(base)))})})
				return true
			}
		}
	case strings.Contains(n, "fun/adt.Pool") && strings.HasSuffix(n, ".Get"):
		b := fmt.Sprintf("pool%d_%s", fr.id, c.Name())
		ev.sized[b] = fsum{}
		ev.flat.bufs[b] = true
		k(st, fval{k: 's', base: b, sum: fsum{}})
		return true
	case strings.Contains(n, "fun/stw.NewSlice"):
		k(st, args[0])
		return true
	case strings.Contains(n, "fun/stw.Slice") && strings.HasSuffix(n, ".Grow") && args[0].k == 'p' && args[1].k == 'i':
		b := fmt.Sprintf("mk%d_%s", fr.id, c.Name())
		ev.sized[b] = args[1].sum
		ev.flat.bufs[b] = true
		st.mem[args[0].key] = fval{k: 's', base: b, sum: fsum{}}
		k(st, fx(""))
		return true
	}
	if n == "bytes.IndexByte" && t.level == 5 && args[0].k == 's' && args[0].base == "B" {
		if z, ok := args[1].sum.konst(); ok && args[1].k == 'i' && z == 0 {
			for i := int64(0); i < 64; i++ {
				b, ok := t.words["1@"+args[0].sum.add(fconst(i), 1).String()]
				if !ok {
					break
				}
				if c, isC := b.konst(); isC && c == 0 {
					k(st, fi(fconst(i)))
					return true
				}
			}
		}
	}
	if f.Signature.Recv() == nil || fnPkg(f) != modPath || len(args) == 0 {
		return false
	}
	if t.level == 5 {
		return t.place(st, f, args, k)
	}
	buf, isW := t.outBuf(args)
	rn := recvName(f)
	switch rn {
	case "Element", "Value":
		id := args[0].key
		if rn == "Element" && isW && t.level == 1 && strings.HasPrefix(id, "e") && numErr(f) {
			pos, size, key, ok := writerArgs(f, args, buf)
			if !ok {
				t.lose("arguments of " + fnName(f))
				return false
			}
			i := id[1:]
			L := fterm("V"+i).add(fterm("h"+i), 1).add(fconst(2), 1)
			if size != nil && !size.eq(L) {
				t.lose("size given to " + fnName(f) + ": " + size.String())
			}
			t.elemW[f] = true
			if !key {
				L = fterm("V" + i)
			}
			t.add(st, &encRec{buf: args[buf].base, off: args[buf].sum.add(pos, 1), n: L, kind: "elem", src: fmt.Sprint(i, " key=", key)})
			t.step(st, fi(L), k)
			return true
		}
		if isW || !numErr(f) || !isUnsigned(f.Signature.Results().At(0).Type()) {
			return false
		}
		if t.level == 3 && rn == "Element" && f.Name() != "Validate" && args[0].key == "e" {
			// what checks the key
			t.step(st, fi(fterm("h").add(fconst(1), 1)), k)
			return true
		}
		if t.level == 4 {
			return false
		}
		id = strings.TrimLeft(id, "ev")
		if rn == "Element" && f.Name() == "Validate" && t.level != 3 {
			t.step(st, fi(fterm("V"+id).add(fterm("h"+id), 1).add(fconst(2), 1).norm(t)), k)
			return true
		}
		if rn == "Value" {
			t.valW[f] = true
			t.step(st, fi(fterm("V"+id).norm(t)), k)
			return true
		}
	case "Document", "Array":
		if t.level != 1 && isW && numErr(f) {
			what := t.subOf(st, args[0], rn)
			pos, size, _, ok := writerArgs(f, args, buf)
			if what == "" || !ok {
				t.lose("arguments of " + fnName(f))
				return false
			}
			if size != nil && !size.eq(fterm("SZ")) {
				t.fails = append(t.fails, fmt.Sprintf("announces %s as the size of the inner document where it is %s", size, "SZ (its own size)"))
			}
			t.docW[f] = true
			t.add(st, &encRec{buf: args[buf].base, off: args[buf].sum.add(pos, 1), n: fterm("SZ"), kind: "sub", src: what})
			t.step(st, fi(fterm("SZ")), k)
			return true
		}
		if t.level != 1 && f.Name() == "Validate" && numErr(f) {
			if t.subOf(st, args[0], rn) == "" {
				return false
			}
			if t.level == 4 {
				want := "document"
				if t.tag == 4 {
					want = "array"
				}
				if t.subOf(st, args[0], rn) != want {
					t.fails = append(t.fails, "takes the size of a "+t.subOf(st, args[0], rn)+" for a "+want)
				}
			}
			t.step(st, fi(fterm("SZ")), k)
			return true
		}
	case "Reader":
		if f.Name() == "Validate" && numErr(f) && args[0].k == 's' {
			t.step(st, fi(fterm("size of "+args[0].base+"@"+args[0].sum.String())), k)
			return true
		}
	}
	return false
}

// norm: known quantities in a sum
func (a fsum) norm(t *encRun) fsum {
	o := fsum{}
	for k, n := range a {
		if s, ok := t.words["="+k]; ok {
			o = o.add(s, n)
		} else {
			o = o.add(fsum{k: n}, 1)
		}
	}
	return o
}

func (t *encRun) subOf(st *fstate, v fval, rn string) string {
	if v.k != 'p' {
		return ""
	}
	if rn == "Document" {
		if v.key == "sub" {
			return "document"
		}
		return ""
	}
	if d, ok := st.mem[v.key+".doc"]; ok && d.k == 'p' && d.key == "sub" {
		return "array"
	}
	return ""
}

func (t *encRun) lenOf(v fval) fsum {
	if v.end != nil {
		return v.end.add(v.sum, -1)
	}
	return t.ev.sized[v.base].add(v.sum, -1)
}

func (w *World) newEncRun(level int) *encRun {
	t := &encRun{w: w, level: level, zero: map[string]bool{}, words: map[string]fsum{}, elemW: map[*ssa.Function]bool{}, valW: map[*ssa.Function]bool{}, docW: map[*ssa.Function]bool{}, undec: map[string]bool{}}
	ev := newFmtEval(w)
	ev.exact = true
	ev.nilDocs = true
	ev.inline = func(f *ssa.Function) bool { return inRepo(fnPkg(topFn(f))) }
	ev.onCallK = t.onCall
	ev.flat = &flatHooks{bufs: map[string]bool{}, settle: t.settle, copied: t.copied, stored: t.stored}
	ev.flat.word = func(st *fstate, s fval, k int) (fval, bool) {
		if s.base == "B" && t.level == 5 {
			if k == 1 {
				if v, ok := t.words["1@"+s.sum.String()]; ok {
					return fi(v), true
				}
			}
			if v, ok := t.words["4@"+s.sum.String()]; ok && k == 4 {
				return fi(v), true
			}
		}
		if s.base == "D" && t.level >= 2 {
			if k == 1 && s.sum.eq(fterm("st")) {
				return fi(fconst(t.tag)), true
			}
			if v, ok := t.words[fmt.Sprintf("%d@%s", k, s.sum)]; ok && k == 4 {
				return fi(v), true
			}
		}
		return fval{}, false
	}
	t.ev = ev
	return t
}

// seedDoc: a document of n elements behind the given key
func (t *encRun) seedDoc(st *fstate, key string, n int) bool {
	vt, _ := derefStruct(t.w.structNamed(modPath, "Value"))
	_, ds := derefStruct(t.w.structNamed(modPath, "Document"))
	_, es := derefStruct(t.w.structNamed(modPath, "Element"))
	if vt == nil || ds == nil || es == nil {
		return false
	}
	ef, vf := "", ""
	for i := 0; i < ds.NumFields(); i++ {
		if ds.Field(i).Type().String() == "[]*"+modPath+".Element" {
			ef = ds.Field(i).Name()
		}
	}
	for i := 0; i < es.NumFields(); i++ {
		if es.Field(i).Type().String() == "*"+modPath+".Value" {
			vf = es.Field(i).Name()
		}
	}
	if ef == "" || vf == "" {
		return false
	}
	l := fval{k: 'v', desc: "list"}
	for i := 0; i < n; i++ {
		e, v := fmt.Sprintf("e%d", i), fmt.Sprintf("v%d", i)
		l.tup = append(l.tup, fval{k: 'p', key: e})
		st.mem[e+"."+vf] = fval{k: 'p', key: v}
		st.mem[v+".data"] = fval{k: 's', base: fmt.Sprintf("d%d", i), sum: fsum{}}
		st.mem[v+".start"] = fi(fterm(fmt.Sprintf("st%d", i)))
		st.mem[v+".offset"] = fi(fterm(fmt.Sprintf("st%d", i)).add(fterm(fmt.Sprintf("h%d", i)), 1).add(fconst(2), 1))
		for _, z := range []string{"V", "h", "st"} {
			t.zero[fmt.Sprintf("%s%d", z, i)] = true
		}
	}
	st.mem[key+"."+ef] = l
	return true
}

// piece is something expected at a place
type encPiece struct {
	n    fsum
	ok   func(x *encRec) bool
	what string
}

// tile checks that the writes into buf make up the pieces, starting at off; "" if so, "?..." if that cannot be told
func (t *encRun) tile(log []*encRec, buf string, off fsum, ps []*encPiece) string {
	var recs []*encRec
	for _, x := range log {
		if x.buf == buf {
			recs = append(recs, x)
		}
	}
	recs = joinBytes(recs)
	end := off
	for _, p := range ps {
		end = end.add(p.n, 1)
	}
	cur := off
	for _, p := range ps {
		pe := cur.add(p.n, 1)
		var got *encRec
		for i := len(recs) - 1; i >= 0 && got == nil; i-- {
			if x := recs[i]; !t.before(x, cur) && !t.after(x, pe) {
				got = x
			}
		}
		if got == nil {
			if p.what != "the final zero byte" { // fresh memory is zero
				for _, x := range recs {
					if x.off.opaque() || x.n.opaque() {
						return "?" + x.String()
					}
				}
				return fmt.Sprintf("%s is not written at %s", p.what, cur)
			}
			cur = pe
			continue
		}
		if got.off.opaque() || got.n.opaque() || strings.Contains(got.src, "?") || got.val != nil && got.val.opaque() {
			return "?" + got.String()
		}
		at := *got
		same := got.off.eq(cur) && got.n.eq(p.n)
		if !same && got.kind == "data" {
			l1, ok1 := t.low(cur.add(got.off, -1))
			l2, ok2 := t.low(got.off.add(got.n, 1).add(pe, -1))
			if ok1 && ok2 && l1 >= 0 && l2 >= 0 {
				same = true
				at.dataOff = got.dataOff.add(cur.add(got.off, -1), 1)
				at.off, at.n = cur, p.n
			}
		}
		if !same {
			if t.overlaps(got, &encRec{off: cur, n: p.n}) {
				return fmt.Sprintf("where %s should be, %s bytes at %s, there is %s", p.what, p.n, cur, got)
			}
			return fmt.Sprintf("?%s for %s at %s", got, p.what, cur)
		}
		if !p.ok(&at) {
			return fmt.Sprintf("at %s there should be %s but there is %s", cur, p.what, got)
		}
		cur = pe
	}
	for _, x := range recs {
		if t.outside(x, end) {
			return fmt.Sprintf("%s is written past the end", x)
		}
	}
	return ""
}

// before: all of x lies before off
func (t *encRun) before(x *encRec, off fsum) bool {
	lo, ok := t.low(off.add(x.off, -1).add(x.n, -1))
	return ok && lo >= 0
}
func (t *encRun) after(x *encRec, end fsum) bool {
	lo, ok := t.low(x.off.add(end, -1))
	return ok && lo >= 0
}
func (t *encRun) overlaps(x, y *encRec) bool {
	l1, ok1 := t.low(x.off.add(x.n, 1).add(y.off, -1))
	l2, ok2 := t.low(y.off.add(y.n, 1).add(x.off, -1))
	return ok1 && ok2 && l1 > 0 && l2 > 0
}
func (t *encRun) outside(x *encRec, end fsum) bool {
	lo, ok := t.low(x.off.add(x.n, 1).add(end, -1))
	return ok && lo > 0
}

// joinBytes: text and bytes written next to each other, one after the other, are one text; so are four bytes of a number
func joinBytes(recs []*encRec) []*encRec {
	var out []*encRec
	text := func(x *encRec) (string, bool) {
		switch x.kind {
		case "text":
			return x.src, true
		case "byte":
			if x.val != nil {
				if c, ok := x.val.konst(); ok && c >= 0 && c < 256 {
					return string([]byte{byte(c)}), true
				}
			}
		}
		return "", false
	}
	for _, x := range recs {
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.off.add(p.n, 1).eq(x.off) {
				a, ok1 := text(p)
				b, ok2 := text(x)
				if ok1 && ok2 {
					out[len(out)-1] = &encRec{buf: p.buf, off: p.off, n: p.n.add(x.n, 1), kind: "text", src: a + b}
					continue
				}
				if p.kind == "data" && x.kind == "data" && p.dataBase == x.dataBase && p.dataOff.add(p.n, 1).eq(x.dataOff) {
					out[len(out)-1] = &encRec{buf: p.buf, off: p.off, n: p.n.add(x.n, 1), kind: "data", src: p.src, dataBase: p.dataBase, dataOff: p.dataOff}
					continue
				}
			}
		}
		out = append(out, x)
	}
	return out
}

func docPieces(k int, size fsum, arr bool) []*encPiece {
	ps := []*encPiece{{fconst(4), func(x *encRec) bool { return x.kind == "i32" && x.val != nil && x.val.eq(size) }, "the length of the whole, " + size.String()}}
	for i := 0; i < k; i++ {
		i := i
		if !arr {
			ps = append(ps, &encPiece{elemSize(i), func(x *encRec) bool { return x.kind == "elem" && x.src == fmt.Sprint(i, " key=", true) }, fmt.Sprintf("element %d", i)})
			continue
		}
		key := strconv.Itoa(i) + "\x00"
		ps = append(ps,
			&encPiece{fconst(1), func(x *encRec) bool {
				return x.kind == "byte" && x.src == fmt.Sprintf("byte:d%d@st%d", i, i) || x.kind == "data" && x.dataBase == fmt.Sprintf("d%d", i) && x.dataOff.eq(fterm(fmt.Sprintf("st%d", i)))
			}, fmt.Sprintf("the type of element %d", i)},
			&encPiece{fconst(int64(len(key))), func(x *encRec) bool { return x.kind == "text" && x.src == key }, fmt.Sprintf("the key %q", key)},
			&encPiece{fterm(fmt.Sprintf("V%d", i)), func(x *encRec) bool { return x.kind == "elem" && x.src == fmt.Sprint(i, " key=", false) }, fmt.Sprintf("the value of element %d", i)})
	}
	return append(ps, &encPiece{fconst(1), func(x *encRec) bool {
		if x.kind == "text" && x.src == "\x00" {
			return true
		}
		c, ok := x.val.konst()
		return x.kind == "byte" && ok && c == 0 && x.val != nil
	}, "the final zero byte"})
}

func elemSize(i int) fsum {
	return fterm(fmt.Sprintf("V%d", i)).add(fterm(fmt.Sprintf("h%d", i)), 1).add(fconst(2), 1)
}

func sumPieces(ps []*encPiece) fsum {
	n := fsum{}
	for _, p := range ps {
		n = n.add(p.n, 1)
	}
	return n
}

func docSize(k int, arr bool) fsum {
	return sumPieces(docPieces(k, fsum{}, arr))
}

func condsOf(st *fstate) string {
	var out []string
	for k, v := range st.cond {
		if !strings.HasPrefix(k, "#") {
			out = append(out, fmt.Sprintf("%s is %v", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// outcome of one path: checks results against what was written. size: how much should have been
func (t *encRun) path(st *fstate, res []fval, f *ssa.Function, off fsum, ps []*encPiece, buf string) string {
	size := sumPieces(ps)
	if len(res) == 0 {
		return "?no results"
	}
	e := res[len(res)-1]
	if st.cond["#failed"] {
		return "-" // failing steps are P08's
	}
	if nilF(e) != 1 {
		if nilF(e) == -1 {
			if c := condsOf(st); c != "" {
				return "?refusal if " + c
			}
			return "it is refused although nothing failed"
		}
		return "?error " + e.String()
	}
	if c := condsOf(st); strings.Contains(c, "?") {
		return "?condition " + c
	}
	r := res[0]
	if buf == "" {
		if s, ok := st.mem["#sink"]; ok && st.cond["#written"] {
			r = s
		}
		if r.k != 's' || !t.ev.flat.bufs[r.base] {
			return "?result " + r.String()
		}
		if l := t.lenOf(r); !l.eq(size) || len(r.sum) != 0 {
			if l.opaque() {
				return "?length " + l.String()
			}
			return fmt.Sprintf("%s bytes of the buffer, from %s, are given for an encoding of %s bytes", l, r.sum, size)
		}
		buf = r.base
	}
	if v := res[0]; v.k == 'i' && !v.sum.eq(size) {
		if v.sum.opaque() {
			return "?count " + v.String()
		}
		return fmt.Sprintf("it reports %s bytes where %s are written", v.sum, size)
	}
	return t.tile(t.log(st), buf, off, ps)
}

func checkEncode(w *World, r *Report) {
	r.Rule = "documents and arrays are encoded as the size of the whole, every element in order (in arrays under its decimal index), and a zero byte, in a buffer of exactly that size; an element's bytes are its header and value bytes, or its header and its inner document encoded the same way; the size a validator reports is the size that is written"
	r.Assumptions = append(r.Assumptions, "an element's data holds its type byte, key and zero byte from start to offset, and its value from there", "sizes fit in 32 bits")
	valW := map[*ssa.Function]bool{}
	elemW, docW := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	note := func(key, pos, msg, bad string, t *encRun) bool {
		for _, u := range sortedKeys(t.undec) {
			if bad == "" || bad[0] != '?' && bad != "-" {
				bad = "?" + u
			}
		}
		switch {
		case bad == "-":
			return false
		case strings.HasPrefix(bad, "?"):
			r.Counts["undecided"]++
			if os.Getenv("AN_DUMP") != "" {
				fmt.Println("UNDECIDED", key, bad[1:])
			}
			return false
		case bad == "":
			r.ok(key)
			return true
		}
		r.fail(key, pos, msg+": "+bad)
		return false
	}
	type job struct {
		f   *ssa.Function
		arr bool
		in  bool // writes into a buffer given
	}
	lists := []int{0, 1, 2, 3, 11, 101}
	doDoc := func(j job) {
		for _, n := range lists {
			t := w.newEncRun(1)
			st := newFstate()
			recv := fval{k: 'p', key: "recv"}
			dk := "recv"
			if j.arr {
				dk = "rdoc"
				st.mem["recv.doc"] = fval{k: 'p', key: "rdoc"}
				_, as := derefStruct(w.structNamed(modPath, "Array"))
				if as == nil || as.NumFields() == 0 {
					continue
				}
				for i := 0; i < as.NumFields(); i++ {
					if as.Field(i).Type().String() == "*"+modPath+".Document" {
						st.mem["recv."+as.Field(i).Name()] = fval{k: 'p', key: "rdoc"}
					}
				}
			}
			if !t.seedDoc(st, dk, n) {
				r.Counts["undecided"]++
				return
			}
			size := docSize(n, j.arr)
			args := []fval{recv}
			off, buf := fsum{}, ""
			if j.in {
				off, buf = fterm("P"), "OUT"
				t.zero["P"], t.zero["R"] = true, true
				t.ev.sized["OUT"] = fterm("P").add(size, 1).add(fterm("R"), 1)
				t.ev.flat.bufs["OUT"] = true
			}
			bad := false
			for _, p := range j.f.Params[1:] {
				switch b, _ := p.Type().Underlying().(*types.Basic); {
				case isByteSlice(p.Type()):
					args = append(args, fval{k: 's', base: "OUT", sum: fsum{}, typ: p.Type()})
				case b != nil && (b.Kind() == types.Uint32 || b.Kind() == types.Int32):
					args = append(args, fi(size))
				case b != nil && isInt(p.Type()):
					args = append(args, fi(fterm("P")))
				case types.IsInterface(p.Type()):
					args = append(args, fx(p.Name()))
				default:
					bad = true
				}
			}
			if bad {
				r.Counts["undecided"]++
				continue
			}
			key := fmt.Sprintf("%s of %d elements", fnName(j.f), n)
			any := false
			t.ev.run(st, j.f, args, func(s2 *fstate, res []fval) {
				p := t.path(s2, res, j.f, off, docPieces(n, size, j.arr), buf)
				if note(key, w.pos(j.f.Pos()), fmt.Sprintf("%s, %d elements", fnName(j.f), n), p, t) {
					any = true
				}
			})
			if t.ev.lost != "" {
				note(key, "", "", "?"+t.ev.lost, t)
			} else if any {
				r.Counts["document encodings"]++
			}
			for f := range t.elemW {
				elemW[f] = true
			}
			for f := range t.valW {
				valW[f] = true
			}
		}
	}
	method := func(recv, name string) *ssa.Function { return w.fn("(*birch." + recv + ")." + name) }
	for _, m := range []job{{method("Document", "MarshalBSON"), false, false}, {method("Document", "WriteTo"), false, false}, {method("Array", "MarshalBSON"), true, false}, {method("Array", "WriteTo"), true, false}} {
		if m.f != nil {
			doDoc(m)
		}
	}
	// elements
	doElem := func(f *ssa.Function, in bool) {
		for _, tag := range elemTags {
			for _, sub := range []bool{false, true} {
				if sub && tag != 3 && tag != 4 && tag != 15 {
					continue
				}
				for _, withKey := range []bool{true, false} {
					hasKey := false
					for _, p := range f.Params {
						if isBool(p.Type()) {
							hasKey = true
						}
					}
					if !withKey && !hasKey {
						continue
					}
					t := w.newEncRun(2)
					t.tag = tag
					st := newFstate()
					if !t.seedElem(st, sub) {
						r.Counts["undecided"]++
						return
					}
					h := fterm("h").add(fconst(2), 1)
					V := fterm("V")
					if sub {
						V = fterm("SZ")
						if tag == 15 {
							V = fterm("SZ").add(fterm("L"), 1).add(fconst(8), 1)
						}
						t.words["=V"] = V
					} else if tag == 15 {
						V = fterm("SC").add(fterm("L"), 1).add(fconst(8), 1)
						t.words["=V"] = V
					}
					val := fterm("st").add(h, 1)
					if tag == 15 {
						t.words["4@"+val.String()] = V
						if sub {
							t.words["4@"+val.String()] = fterm("old")
						}
						t.words["4@"+val.add(fconst(4), 1).String()] = fterm("L")
						t.words["4@"+val.add(fterm("L"), 1).add(fconst(8), 1).String()] = fterm("SC")
					}
					for _, z := range []string{"st", "h", "V", "SZ", "L", "SC", "P", "R", "X"} {
						t.zero[z] = true
					}
					t.ev.flat.lens = map[string]fsum{"D": val.add(V, 1).add(fterm("X"), 1)}
					if sub {
						t.ev.flat.lens["D"] = val.add(V, 1).add(fterm("SZ"), -1).add(fterm("X"), 1)
					}
					from, n := fterm("st"), V.add(h, 1)
					if !withKey {
						from, n = val, V
					}
					off, buf := fsum{}, ""
					if in {
						off, buf = fterm("P"), "OUT"
						t.ev.sized["OUT"] = fterm("P").add(n, 1).add(fterm("R"), 1).add(fterm("X"), 1).add(fconst(1), 1)
						t.ev.flat.bufs["OUT"] = true
					}
					args := []fval{{k: 'p', key: "e"}}
					bad := false
					for _, p := range f.Params[1:] {
						switch b, _ := p.Type().Underlying().(*types.Basic); {
						case isByteSlice(p.Type()):
							args = append(args, fval{k: 's', base: "OUT", sum: fsum{}, typ: p.Type()})
						case isBool(p.Type()):
							args = append(args, fval{k: 'c', desc: "true", truth: withKey})
						case b != nil && (b.Kind() == types.Uint32 || b.Kind() == types.Int32):
							args = append(args, fi(V.add(h, 1)))
						case b != nil && isInt(p.Type()):
							args = append(args, fi(fterm("P")))
						case types.IsInterface(p.Type()) && in:
							args = append(args, fval{k: 's', base: "OUT", sum: fsum{}, typ: types.NewSlice(types.Typ[types.Byte])})
						case types.IsInterface(p.Type()):
							args = append(args, fx(p.Name()))
						default:
							bad = true
						}
					}
					if bad {
						r.Counts["undecided"]++
						continue
					}
					ps := t.elemPieces(sub, withKey, val, from, n, V)
					key := fmt.Sprintf("%s of type %#x, inner document %v, key %v", fnName(f), tag, sub, withKey)
					any := false
					t.ev.run(st, f, args, func(s2 *fstate, res []fval) {
						p := t.path(s2, res, f, off, ps, buf)
						for _, x := range t.fails {
							if p == "" {
								p = x
							}
						}
						t.fails = nil
						if note(key, w.pos(f.Pos()), key, p, t) {
							any = true
						}
					})
					if t.ev.lost != "" {
						note(key, "", "", "?"+t.ev.lost, t)
					} else if any {
						r.Counts["element encodings"]++
					}
					for f := range t.docW {
						docW[f] = true
					}
				}
			}
		}
	}
	for _, n := range []string{"MarshalBSON", "WriteTo"} {
		if f := method("Element", n); f != nil {
			doElem(f, false)
		}
	}
	for _, f := range sortedFns(elemW) {
		doElem(f, true)
	}
	for _, f := range sortedFns(docW) {
		doDoc(job{f, recvName(f) == "Array", true})
	}
	w.checkSizes(r, valW, note)
	r.Counts["element writers"] = len(elemW)
	r.Counts["document writers"] = len(docW)
	r.min("document encodings", 6)
	r.min("element encodings", 20)
	r.min("sizes", 10)
}

var elemTags = []int64{1, 2, 3, 4, 5, 6, 7, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF, 0x10, 0x11, 0x12, 0x13, 0xFF, 0x7F}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func (t *encRun) seedElem(st *fstate, sub bool) bool {
	_, es := derefStruct(t.w.structNamed(modPath, "Element"))
	_, vs := derefStruct(t.w.structNamed(modPath, "Value"))
	if es == nil || vs == nil {
		return false
	}
	for i := 0; i < es.NumFields(); i++ {
		if es.Field(i).Type().String() == "*"+modPath+".Value" {
			st.mem["e."+es.Field(i).Name()] = fval{k: 'p', key: "v"}
		}
	}
	st.mem["v.data"] = fval{k: 's', base: "D", sum: fsum{}}
	st.mem["v.start"] = fi(fterm("st"))
	st.mem["v.offset"] = fi(fterm("st").add(fterm("h"), 1).add(fconst(2), 1))
	for i := 0; i < vs.NumFields(); i++ {
		if vs.Field(i).Type().String() == "*"+modPath+".Document" {
			d := fval{k: 'n'}
			if sub {
				d = fval{k: 'p', key: "sub"}
			}
			st.mem["v."+vs.Field(i).Name()] = d
		}
	}
	return true
}

func (t *encRun) elemPieces(sub, key bool, val, from, n, V fsum) []*encPiece {
	data := func(from, n fsum, what string) *encPiece {
		return &encPiece{n, func(x *encRec) bool { return x.kind == "data" && x.dataBase == "D" && x.dataOff.eq(from) }, what}
	}
	var ps []*encPiece
	if key {
		ps = append(ps, data(from, val.add(from, -1), "the header"))
	}
	if t.tag == 15 {
		own := data(val, fconst(4), "").ok
		ps = append(ps,
			&encPiece{fconst(4), func(x *encRec) bool {
				return x.kind == "i32" && x.val != nil && x.val.eq(V) || !sub && own(x)
			}, "the length of the value, " + V.String()},
			data(val.add(fconst(4), 1), fterm("L").add(fconst(4), 1), "the code"))
		if !sub {
			rest := V.add(fterm("L"), -1).add(fconst(-8), 1)
			return append(ps, data(val.add(fconst(8), 1).add(fterm("L"), 1), rest, "the scope"))
		}
	} else if !sub {
		return append(ps, data(val, V, "the value"))
	}
	want := "document"
	if t.tag == 4 {
		want = "array"
	}
	ps = append(ps, &encPiece{fterm("SZ"), func(x *encRec) bool { return x.kind == "sub" && x.src == want }, "the inner " + want})
	return ps
}

// checkSizes: what validators report is what will be written
func (w *World) checkSizes(r *Report, valW map[*ssa.Function]bool, note func(key, pos, msg, bad string, t *encRun) bool) {
	run := func(t *encRun, f *ssa.Function, args []fval, sub bool, key string, right func(st *fstate, n fsum) string) {
		st := newFstate()
		if !t.seedElem(st, sub) {
			r.Counts["undecided"]++
			return
		}
		any := false
		t.ev.run(st, f, args, func(s2 *fstate, res []fval) {
			if s2.cond["#failed"] || len(res) != 2 || nilF(res[1]) != 1 {
				return
			}
			bad := ""
			for _, x := range t.fails {
				bad = x
			}
			t.fails = nil
			if bad == "" {
				if res[0].k != 'i' || res[0].sum.opaque() {
					bad = "?" + res[0].String()
				} else {
					bad = right(s2, res[0].sum)
				}
			}
			if note(key, w.pos(f.Pos()), key, bad, t) {
				any = true
			}
		})
		if t.ev.lost != "" {
			note(key, "", "", "?"+t.ev.lost, t)
		} else if any {
			r.Counts["sizes"]++
		}
	}
	if f := w.fn("(*birch.Element).Validate"); f != nil {
		t := w.newEncRun(3)
		t.zero["h"], t.zero["st"], t.zero["V"] = true, true, true
		want := fterm("V").add(fterm("h"), 1).add(fconst(2), 1)
		run(t, f, []fval{{k: 'p', key: "e"}}, false, "size of an element", func(st *fstate, n fsum) string {
			if n.eq(want) {
				return ""
			}
			return fmt.Sprintf("an element of a %s bytes header and a value of V bytes is said to take %s", fterm("h").add(fconst(2), 1), n)
		})
	}
	for _, f := range sortedFns(valW) {
		for _, tag := range elemTags {
			for _, sub := range []bool{false, true} {
				if sub && tag != 3 && tag != 4 && tag != 15 {
					continue
				}
				for _, b := range []bool{false, true} {
					args := []fval{{k: 'p', key: "v"}}
					bools := 0
					for _, p := range f.Params[1:] {
						if isBool(p.Type()) {
							bools++
							args = append(args, fval{k: 'c', desc: "true", truth: b})
						}
					}
					if len(args) != len(f.Params) || b && bools == 0 {
						continue
					}
					t := w.newEncRun(4)
					t.tag = tag
					t.zero["h"], t.zero["st"], t.zero["SZ"] = true, true, true
					val := fterm("st").add(fterm("h"), 1).add(fconst(2), 1)
					t.words["4@"+val.String()] = fterm("l")
					t.words["4@"+val.add(fconst(4), 1).String()] = fterm("s")
					inner := fsum(nil) // another spelling, given an equality
					var want fsum
					switch tag {
					case 1, 9, 0x11, 0x12:
						want = fconst(8)
					case 2, 0xD, 0xE:
						want = fterm("l").add(fconst(4), 1)
					case 3, 4:
						want = fterm("l")
						inner = fterm("size of D@" + val.String())
						if sub {
							want = fterm("SZ")
						}
					case 5:
						want = fterm("l").add(fconst(5), 1)
					case 7:
						want = fconst(12)
					case 8:
						want = fconst(1)
					case 0xC:
						want = fterm("l").add(fconst(16), 1)
					case 0xF:
						want = fterm("l")
						inner = fconst(8).add(fterm("s"), 1).add(fterm("size of D@"+val.add(fconst(8), 1).add(fterm("s"), 1).String()), 1)
						if sub {
							want = fterm("s").add(fterm("SZ"), 1).add(fconst(8), 1)
						}
					case 0x10:
						want = fconst(4)
					case 0x13:
						want = fconst(16)
					case 0xB:
						continue
					default:
						want = fsum{}
					}
					key := fmt.Sprintf("%s of type %#x, inner document %v, %v", fnName(f), tag, sub, b)
					run(t, f, args, sub, key, func(st *fstate, n fsum) string {
						if n.eq(want) {
							return ""
						}
						if inner != nil && !sub && n.eq(inner) {
							for c, v := range st.cond {
								if v && strings.Contains(c, " == ") && strings.Contains(c, "size of D@") {
									return ""
								}
							}
							return "?the size of the inner document"
						}
						for k := range n {
							if strings.HasPrefix(k, "each{") || strings.HasPrefix(k, "size of") || strings.HasPrefix(k, "(") {
								return "?" + n.String()
							}
						}
						return fmt.Sprintf("a value of %s bytes is said to take %s", want, n)
					})
				}
			}
		}
	}
}
