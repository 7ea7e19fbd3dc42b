package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The fields of each message after the header, in the order of the protocol. kind* repeats to the end,
// kind? may be missing, "-" as field: no field of the struct has to hold it.
var wireLayouts = map[int64][]string{
	1:    {"i32 Flags", "i64 CursorId", "i32 StartingFrom", "i32 NumberReturned", "doc* Docs"},
	2001: {"i32 0", "cstr Namespace", "i32 Flags", "doc Filter", "doc Update"},
	2002: {"i32 Flags", "cstr Namespace", "doc* Docs"},
	2004: {"i32 Flags", "cstr Namespace", "i32 Skip", "i32 NReturn", "doc Query", "doc? Project"},
	2005: {"i32 0", "cstr Namespace", "i32 NReturn", "i64 CursorId"},
	2006: {"i32 0", "cstr Namespace", "i32 Flags", "doc Filter"},
	2007: {"i32 0", "i32 NumCursors", "i64* CursorIds"},
	2010: {"cstr DB", "cstr CmdName", "doc CommandArgs", "doc Metadata", "doc* InputDocs"},
	2011: {"doc CommandReply", "doc Metadata", "doc* OutputDocs"},
	2013: {"i32 Flags", "section* Items", "i32? Checksum"},
}

var sectionLayouts = map[string][]string{
	"opMessagePayloadType0": {"byte =0", "doc Document"},
	"opMessagePayloadType1": {"byte =1", "i32 Size", "cstr Identifier", "doc* Payload"},
}

var wireHeader = []string{"Size", "RequestID", "ResponseTo", "OpCode"}

type mwire struct {
	w   *World
	r   *Report
	ops map[string]map[int64]bool
}

func (m *mwire) eval() *fmtEval {
	ev := newFmtEval(m.w)
	ev.inline = func(f *ssa.Function) bool { return inPkg(f, wirePath) }
	return ev
}

func msgTypeName(t types.Type) string {
	s := typeKey(derefT(t))
	return s[strings.LastIndex(s, ".")+1:]
}

func checkWireLayout(w *World, r *Report) {
	r.Rule = "abstract interpretation of every Serialize method and of ReadMessage/Parse over sums of field sizes: on each path that succeeds, the fields are written, and read back, at the offsets and with the widths the protocol gives them, integers as little-endian words of exactly that field, loops once per element with the offset advanced by the element's size; the size put into the header is the sum of what is written"
	r.Assumptions = append(r.Assumptions, "a document writes as many bytes as Validate reports", "ReadDocument takes the document at the start of the bytes it is given")
	m := &mwire{w: w, r: r}
	m.ctors()
	m.parse()
	m.write()
	m.readHeader()
	r.min("message types written", 3)
	r.min("message types read", 3)
	r.min("fields read where they belong", 10)
	r.min("fields written where they belong", 10)
}

func splitField(s string) (kind, field string, many, opt bool) {
	i := strings.Index(s, " ")
	kind, field = s[:i], s[i+1:]
	if strings.HasSuffix(kind, "*") {
		many, kind = true, kind[:len(kind)-1]
	}
	if strings.HasSuffix(kind, "?") {
		opt, kind = true, kind[:len(kind)-1]
	}
	return
}

// same: two positions or sizes, a document's length being the number it starts with
func (m *mwire) same(a, b fsum) (eq, known bool) {
	norm := func(x fsum) fsum {
		o := fsum{}
		for t, n := range x {
			if strings.HasPrefix(t, "doclen(doc:") {
				t = "i32:" + t[len("doclen(doc:"):len(t)-1]
			}
			o = o.add(fsum{t: n}, 1)
		}
		return o
	}
	a, b = norm(a), norm(b)
	if a.eq(b) {
		return true, true
	}
	d := a.add(b, -1)
	return false, !d.opaque()
}

// chain checks that the fields of an object were read one after the other from off on; returns the end
func (m *mwire) chain(what, pos string, spec []string, get func(string) fval, base string, cur fsum, start string, cond map[string]bool) (fsum, bool) {
	key := "read|" + what
	for _, s := range spec {
		kind, field, many, opt := splitField(s)
		if field == "0" {
			cur = cur.add((&ftok{kind: kind}).size(), 1)
			continue
		}
		if strings.HasPrefix(field, "=") {
			if !cond[field[1:]+" == "+byteName2(base, cur)] {
				m.undecided("#1")
				return nil, false
			}
			cur = cur.add(fconst(1), 1)
			continue
		}
		v := get(field)
		if opt && (v.k == 'n' || v.k == 'i' && v.tok == nil && len(v.sum) == 0) {
			continue
		}
		if many {
			end, ok := m.repeated(what, pos, kind, field, v, base, cur)
			if !ok {
				return nil, false
			}
			cur = end
			continue
		}
		t := v.tok
		if t == nil || v.k != 't' && v.k != 'i' {
			if strings.Contains(v.String(), "?") || v.k == 'x' {
				m.undecided("#2")
				return nil, false
			}
			m.r.fail(key+"|"+field, pos, fmt.Sprintf("%s: field %s is %s, not what the message holds at %s", what, field, v, cur))
			return nil, false
		}
		if v.k == 'i' {
			if s, ok := v.sum.single(); !ok || s != t.src {
				m.r.fail(key+"|"+field, pos, fmt.Sprintf("%s: field %s is %s, not the number the message holds", what, field, v.sum))
				return nil, false
			}
		}
		eq, known := m.same(t.off, cur)
		if !known {
			m.undecided("#3")
			return nil, false
		}
		if !eq || t.kind != kind || t.base != base {
			m.r.fail(key+"|"+field, pos, fmt.Sprintf("%s: field %s is read as %s at %s; the protocol has %s at %s", what, field, t.kind, t.off, kind, cur))
			return nil, false
		}
		m.r.ok(what + ": " + field + " read as " + kind)
		m.r.Counts["fields read where they belong"]++
		cur = cur.add(t.size(), 1)
	}
	return cur, true
}

// repeated: a list filled by a loop that takes one element after the other
func (m *mwire) repeated(what, pos, kind, field string, v fval, base string, cur fsum) (fsum, bool) {
	key := "read|" + what + "|" + field
	if v.k == 'n' {
		m.r.fail(key, pos, fmt.Sprintf("%s: nothing is read into %s", what, field))
		return nil, false
	}
	if v.k != 'L' || len(v.tup) == 0 {
		m.undecided("#4")
		return nil, false
	}
	lp := v.tok.lp
	if v.desc == "some" {
		m.r.fail(key, pos, fmt.Sprintf("%s: not everything the loop reads is kept in %s", what, field))
		return nil, false
	}
	var sym string
	for i, el := range v.tup {
		if kind == "section" {
			end, s, ok := m.section(what, pos, el, v.snaps[i], base, lp)
			if !ok {
				return nil, false
			}
			_ = end
			sym = s
			continue
		}
		t := el.tok
		if t == nil {
			m.undecided("#5 %s %s %s %v", what, field, v, v.k)
			return nil, false
		}
		s, ok := "", false
		for c := range lp.init {
			if t.off.eq(fterm(c)) {
				s, ok = c, true
			}
		}
		if !ok {
			for c := range lp.init {
				if d, isC := t.off.add(fterm(c), -1).konst(); isC && d != 0 {
					m.r.fail(key, pos, fmt.Sprintf("%s: each element of %s is read %d bytes off", what, field, d))
					return nil, false
				}
			}
			m.undecided("#6")
			return nil, false
		}
		if t.kind != kind || t.base != base {
			m.r.fail(key, pos, fmt.Sprintf("%s: the elements of %s are read as %s; the protocol has %s", what, field, t.kind, kind))
			return nil, false
		}
		sym = s
		for _, d := range lp.deltas[s] {
			eq, known := m.same(d, t.size())
			if !eq && known {
				m.r.fail(key, pos, fmt.Sprintf("%s: after an element of %s (%s) the position moves by %s", what, field, t.size(), d))
				return nil, false
			}
			if !known {
				m.undecided("#7")
				return nil, false
			}
		}
	}
	eq, known := m.same(lp.init[sym], cur)
	if !known {
		m.undecided("#8")
		return nil, false
	}
	if !eq {
		m.r.fail(key, pos, fmt.Sprintf("%s: the elements of %s are read from %s on; they start at %s", what, field, lp.init[sym], cur))
		return nil, false
	}
	m.r.ok(what + ": " + field + " read as " + kind + "*")
	m.r.Counts["fields read where they belong"]++
	if n := lp.star[sym]; n != "" {
		cur = cur.add(fterm(n), 1)
	}
	return cur, true
}

// section: one section of an OP_MSG, read in one way round the loop
func (m *mwire) section(what, pos string, el fval, st *fstate, base string, lp *floop) (fsum, string, bool) {
	if el.k != 'p' || el.typ == nil {
		m.undecided("#9")
		return nil, "", false
	}
	tn := msgTypeName(el.typ)
	spec, ok := sectionLayouts[tn]
	if !ok {
		m.undecided("#10")
		return nil, "", false
	}
	// the position is the loop variable the kind byte was read at
	sym := ""
	for c := range lp.init {
		for k := range st.cond {
			if strings.HasSuffix(k, " == "+byteName2(base, fterm(c))) {
				sym = c
			}
		}
	}
	if sym == "" {
		m.undecided("#11")
		return nil, "", false
	}
	kindByte := spec[0][len("byte ="):]
	got := ""
	for k, t := range st.cond {
		if t && strings.HasSuffix(k, " == "+byteName2(base, fterm(sym))) {
			got = k[:strings.Index(k, " ")]
		}
	}
	if got != kindByte {
		m.r.fail("read|"+what+"|"+tn, pos, fmt.Sprintf("%s: a section of kind %s is read as %s", what, got, tn))
		return nil, "", false
	}
	get := func(f string) fval { return m.field(st, el.key, f) }
	end, ok := m.chain(what+"/"+tn, pos, spec[1:], get, base, fterm(sym).add(fconst(1), 1), sym, st.cond)
	if !ok {
		return nil, "", false
	}
	// the position after this way round is the end of the section
	var next fsum
	for k, v := range st.env {
		_ = k
		_ = v
	}
	want := end.add(fterm(sym), -1)
	found, known := false, true
	for _, d := range lp.deltas[sym] {
		eq, kn := m.same(d, want)
		if eq {
			found = true
		}
		if !kn {
			known = false
		}
	}
	if !found && known {
		m.r.fail("read|"+what+"|"+tn+"|next", pos, fmt.Sprintf("%s: after a section of kind %s the position moves by %v, the section has %s bytes", what, kindByte, lp.deltas[sym], want))
		return nil, "", false
	}
	// a loop that counts the rest of the section down starts with what is left of it
	for _, s := range spec {
		_, f, many, _ := splitField(s)
		if !many {
			continue
		}
		v := get(f)
		if v.k != 'L' || v.tok.lp == nil {
			continue
		}
		in := v.tok.lp
		for p, ds := range in.deltas {
			for q, dq := range in.deltas {
				if p == q || len(ds) == 0 || len(ds) != len(dq) || !ds[0].eq(fsum{}.add(dq[0], -1)) || v.tup[0].tok == nil || !v.tup[0].tok.off.eq(fterm(p)) {
					continue
				}
				size := get("Size")
				if size.k != 'i' {
					continue
				}
				want := size.sum.add(in.init[p].add(fterm(sym), -1), -1)
				eq, known := m.same(in.init[q], want)
				if !eq && known {
					m.r.fail("read|"+what+"|"+tn+"|rest", pos, fmt.Sprintf("%s: %s bytes of documents are read from a section that has %s left", what, in.init[q], want))
				} else if eq {
					m.r.ok(what + ": the documents of a section fill it")
				}
			}
		}
	}
	_ = next
	return end, sym, true
}

func (m *mwire) field(st *fstate, obj, f string) fval {
	v, ok := st.mem[obj+"."+f]
	if !ok {
		return fval{k: 'n'}
	}
	if v.k == 's' {
		if e, ok := st.mem[v.base+"[]"]; ok {
			return e
		}
	}
	return v
}

func (m *mwire) parse() {
	f := m.w.fn("(*x/mrpc/mongowire.MessageHeader).Parse")
	if f == nil {
		m.undecided("#12")
		return
	}
	pos := m.w.pos(f.Pos())
	ev := m.eval()
	seen, missing, other := map[int64]bool{}, map[int64]bool{}, map[int64]string{}
	for _, ops := range m.ops {
		for op := range ops {
			missing[op] = true
		}
	}
	st := newFstate()
	ev.run(st, f, []fval{{k: 'p', key: "h"}, {k: 's', base: "body", sum: fsum{}}}, func(st *fstate, res []fval) {
		if len(res) != 2 || res[1].k != 'n' || res[0].k != 'p' || res[0].typ == nil || st.lossy {
			if len(res) == 2 && nilF(res[1]) != -1 {
				m.undecided("parse path %v lossy %v", res, st.lossy)
			}
			return
		}
		op := int64(-1)
		for c, t := range st.cond {
			if t && strings.HasSuffix(c, " == h.OpCode") {
				fmt.Sscan(c, &op)
			}
		}
		spec, ok := wireLayouts[op]
		if !ok {
			m.r.Counts["unknown operations"]++
			return
		}
		if !m.produces(op, res[0].typ) {
			m.r.Counts["converted messages"]++
			other[op] = msgTypeName(res[0].typ)
			return
		}
		delete(missing, op)
		m.r.Counts["paths read"]++
		obj := res[0].key
		tn := msgTypeName(res[0].typ)
		p := pos
		if nt, ok := derefT(res[0].typ).(*types.Named); ok {
			for _, g := range m.w.Funcs {
				if inPkg(g, wirePath) && strings.HasPrefix(g.Name(), "parse") && m.makes(g, nt) {
					p = m.w.pos(g.Pos())
				}
			}
		}
		if _, ok := m.chain(tn, p, spec, func(f string) fval { return m.field(st, obj, f) }, "body", fsum{}, "", st.cond); ok && !seen[op] {
			seen[op] = true
			m.r.Counts["message types read"]++
		}
	})
	for op := range missing {
		if t := other[op]; t != "" {
			m.r.fail(fmt.Sprintf("dispatch|%d", op), pos, fmt.Sprintf("Parse: a message of operation %d is only ever read as %s", op, t))
		}
	}
	if ev.lost != "" {
		m.undecided("#13 %s", ev.lost)
		m.r.Assumptions = append(m.r.Assumptions, "Parse not followed: "+ev.lost)
	}
}

func (m *mwire) makes(g *ssa.Function, nt *types.Named) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && types.Identical(derefT(a.Type()), nt) {
				return true
			}
		}
	}
	return false
}

// ctors interprets the constructors: which type of message they make, for which operation, and what
// becomes of their arguments
func (m *mwire) ctors() {
	m.ops = map[string]map[int64]bool{}
	for _, f := range m.w.Funcs {
		if !inPkg(f, wirePath) || f.Parent() != nil || f.Signature.Recv() != nil || !strings.HasPrefix(f.Name(), "New") || f.Signature.Results().Len() != 1 {
			continue
		}
		ev := m.eval()
		var args []fval
		for i, p := range f.Params {
			args = append(args, ev.named(nil, fmt.Sprintf("arg%d", i), p.Type()))
		}
		pos := m.w.pos(f.Pos())
		seen := false
		ev.run(newFstate(), f, args, func(st *fstate, res []fval) {
			if len(res) != 1 || res[0].k != 'p' || res[0].typ == nil {
				return
			}
			tn := msgTypeName(res[0].typ)
			op := ev.load(st, res[0].key+".header.OpCode", types.Typ[types.Int32])
			if op.k == 'i' {
				if c, ok := op.sum.konst(); ok {
					if m.ops[tn] == nil {
						m.ops[tn] = map[int64]bool{}
					}
					m.ops[tn][c] = true
				}
			}
			for i, fld := range wireCtors[f.Name()] {
				if fld == "" || st.lossy {
					continue
				}
				v := m.field(st, res[0].key, fld)
				want := fmt.Sprintf("arg%d", i)
				got := v.String()
				if v.k == 'L' && len(v.tup) == 1 {
					got = strings.TrimPrefix(ev.docOf(st, v.tup[0]), "&")
					want += "[]"
				}
				if v.k == 'p' {
					got = v.key
				}
				switch {
				case got == want:
					m.r.ok(f.Name() + ": " + fld)
					m.r.Counts["arguments kept"]++
				case strings.Contains(got, "?") || v.k == 'A':
					m.undecided("ctor %s %s %s", f.Name(), fld, got)
				default:
					m.r.fail("ctor|"+f.Name()+"|"+fld, pos, fmt.Sprintf("%s: field %s is %s, not argument %d", f.Name(), fld, got, i))
				}
			}
			seen = true
		})
		if seen {
			m.r.Counts["constructors"]++
		}
	}
}

// wireCtors: the field each argument of a constructor is kept in
var wireCtors = map[string][]string{
	"NewReply":        {"CursorId", "Flags", "StartingFrom", "NumberReturned", "Docs"},
	"NewUpdate":       {"Namespace", "Flags", "Filter", "Update"},
	"NewInsert":       {"Namespace", "Docs"},
	"NewQuery":        {"Namespace", "Flags", "Skip", "NReturn", "Query", "Project"},
	"NewGetMore":      {"Namespace", "NReturn", "CursorId"},
	"NewDelete":       {"Namespace", "Flags", "Filter"},
	"NewKillCursors":  {"CursorIds"},
	"NewCommand":      {"DB", "CmdName", "CommandArgs", "Metadata", "InputDocs"},
	"NewCommandReply": {"CommandReply", "Metadata", "OutputDocs"},
}

func (m *mwire) opsOf(t types.Type) map[int64]bool { return m.ops[msgTypeName(t)] }

func (m *mwire) produces(op int64, t types.Type) bool {
	ops := m.opsOf(t)
	return len(ops) == 0 || ops[op]
}

func (m *mwire) write() {
	type job struct {
		f  *ssa.Function
		tn string
		op int64
	}
	var jobs []job
	totals := map[string][]string{} // section type -> what its size may be called
	for _, f := range m.w.Funcs {
		if !inPkg(f, wirePath) || f.Name() != "Serialize" || f.Signature.Recv() == nil {
			continue
		}
		t := f.Signature.Recv().Type()
		tn := msgTypeName(t)
		if spec, ok := sectionLayouts[tn]; ok {
			ev := m.eval()
			ev.run(newFstate(), f, []fval{{k: 'p', key: "m.Items[]"}}, func(st *fstate, res []fval) {
				total, ok := m.written(tn, m.w.pos(f.Pos()), spec, "m.Items[]", st, res, false)
				if !ok {
					return
				}
				totals[tn] = append(totals[tn], total.String())
				for k, v := range st.mem {
					if strings.HasPrefix(k, "m.Items[].") && v.k == 'i' {
						if v.sum.eq(total) {
							totals[tn] = append(totals[tn], k+" after serializing")
							m.r.ok(tn + ": " + k + " is the size of the section")
						} else if strings.HasSuffix(k, ".Size") && !v.sum.opaque() {
							m.r.fail("write|"+tn+"|Size", m.w.pos(f.Pos()), fmt.Sprintf("%s: the size field is %s, the section has %s bytes", tn, v.sum, total))
						}
					}
				}
			})
			continue
		}
		for op := range m.opsOf(t) {
			if _, ok := wireLayouts[op]; ok {
				jobs = append(jobs, job{f, tn, op})
			} else {
				m.r.Counts["unknown operations"]++
			}
		}
	}
	sort.Slice(jobs, func(i, j int) bool { return jobs[i].tn < jobs[j].tn })
	for _, j := range jobs {
		ev := m.eval()
		n := 0
		pos := m.w.pos(j.f.Pos())
		ev.run(newFstate(), j.f, []fval{{k: 'p', key: "m"}}, func(st *fstate, res []fval) {
			total, ok := m.written(j.tn, pos, wireLayouts[j.op], "m", st, res, true)
			if !ok {
				return
			}
			n++
			sz := st.out[0].val
			if sz == nil {
				m.undecided("#14")
				return
			}
			m.size(j.tn, pos, sz, total, totals)
		})
		if n > 0 {
			m.r.Counts["message types written"]++
		}
		if ev.lost != "" {
			m.undecided("#15 %s", ev.lost)
		}
	}
}

// size: the size in the header is that of what is written
func (m *mwire) size(tn, pos string, got, want fsum, totals map[string][]string) {
	if got.eq(want) {
		m.r.ok(tn + ": the size in the header is what is written")
		return
	}
	d := got.add(want, -1)
	// a list of n numbers
	rest := fsum{}
	var eachW, eachG string
	for t, n := range d {
		switch {
		case strings.HasPrefix(t, "each{") && n == -1:
			eachW = t
		case strings.HasPrefix(t, "each{") && n == 1:
			eachG = t
		default:
			rest[t] = n
		}
	}
	if eachW != "" && eachG == "" && len(rest) == 1 {
		var k int64
		if _, err := fmt.Sscanf(eachW, "each{%d}", &k); err == nil {
			for t, n := range rest {
				if t != "" && n == k {
					m.r.ok(tn + ": the size in the header is what is written")
					return
				}
				m.r.fail("write|"+tn+"|size", pos, fmt.Sprintf("%s: the header counts %d bytes for each %s, %d are written", tn, n, t, k))
				return
			}
		}
	}
	if strings.HasPrefix(eachW, "each{serlen(") && eachG != "" && len(rest) == 0 {
		alts := strings.Split(eachG[5:len(eachG)-1], "|")
		okAll := true
		for _, a := range alts {
			found := false
			for _, ts := range totals {
				for _, t := range ts {
					if t == a {
						found = true
					}
				}
			}
			if !found {
				okAll = false
				if !strings.Contains(a, "?") {
					m.r.fail("write|"+tn+"|size", pos, fmt.Sprintf("%s: the header counts %s bytes for a section, which is no section's size", tn, a))
				}
			}
		}
		for st, ts := range totals {
			found := false
			for _, t := range ts {
				for _, a := range alts {
					if a == t {
						found = true
					}
				}
			}
			if !found && okAll {
				okAll = false
				m.r.fail("write|"+tn+"|size|"+st, pos, fmt.Sprintf("%s: the header does not count the bytes of a section of type %s", tn, st))
			}
		}
		if okAll {
			m.r.ok(tn + ": the size in the header is what is written")
		}
		return
	}
	if d.opaque() {
		m.undecided("#16")
		return
	}
	m.r.fail("write|"+tn+"|size", pos, fmt.Sprintf("%s: the header says %s bytes, %s are written", tn, got, want))
}

// written compares what one path of a Serialize method produced with the layout; returns its length
func (m *mwire) written(tn, pos string, spec []string, recv string, st *fstate, res []fval, header bool) (fsum, bool) {
	if len(res) != 1 || res[0].k != 'b' || st.lossy || len(res[0].toks) == 0 {
		m.undecided("path %s %v", tn, res)
		return nil, false
	}
	ts := res[0].toks
	total := fsum{}
	for _, t := range ts {
		total = total.add(t.size(), 1)
		if strings.Contains(t.kind+t.src, "?") {
			m.undecided("#17 %s %v", tn, ts)
			return nil, false
		}
	}
	key := "write|" + tn
	i := 0
	if header {
		for j, f := range wireHeader {
			if i >= len(ts) || ts[i].kind != "i32" || j > 0 && ts[i].src != recv+".header."+f {
				g := "nothing"
				if i < len(ts) {
					g = ts[i].String()
				}
				m.r.fail(key+"|header", pos, fmt.Sprintf("%s: the header has %s where the protocol has %s", tn, g, f))
				return nil, false
			}
			i++
		}
	}
	for _, s := range spec {
		kind, field, many, opt := splitField(s)
		var t *ftok
		if i < len(ts) {
			t = ts[i]
		}
		src := recv + "." + field
		switch {
		case field == "0":
			if t == nil || t.kind != kind || t.src != "0" && !strings.HasPrefix(t.src, recv+".") {
				m.r.fail(key+"|reserved", pos, fmt.Sprintf("%s: the reserved number is missing: %v is written there", tn, t))
				return nil, false
			}
		case strings.HasPrefix(field, "="):
			if t == nil || t.kind != kind || t.src != field[1:] {
				m.r.fail(key+"|kind", pos, fmt.Sprintf("%s: the section's kind byte is %v, not %s", tn, t, field[1:]))
				return nil, false
			}
		case many:
			el := kind
			if kind == "section" {
				el = "dyn"
			}
			if t == nil || t.kind != "star" || len(t.alts) != 1 || len(t.alts[0]) != 1 || t.alts[0][0].kind != el || t.alts[0][0].src != src+"[]" {
				m.r.fail(key+"|"+field, pos, fmt.Sprintf("%s: %v is written where the protocol has the elements of %s", tn, t, field))
				return nil, false
			}
		default:
			ok := t != nil && t.kind == kind && (t.src == src || field == "Size")
			if !ok && opt {
				continue
			}
			if !ok {
				m.r.fail(key+"|"+field, pos, fmt.Sprintf("%s: %v is written where the protocol has %s as %s", tn, t, field, kind))
				return nil, false
			}
		}
		m.r.ok(tn + ": " + field + " written as " + kind)
		m.r.Counts["fields written where they belong"]++
		i++
	}
	if i < len(ts) {
		m.r.fail(key+"|extra", pos, fmt.Sprintf("%s: %v is written after the last field", tn, ts[i]))
		return nil, false
	}
	return total, true
}

// readHeader: ReadMessage takes the header apart and hands on what follows it
func (m *mwire) readHeader() {
	f := m.w.fn("x/mrpc/mongowire.ReadMessage")
	if f == nil {
		m.undecided("#18")
		return
	}
	ev := m.eval()
	pos := m.w.pos(f.Pos())
	n := 0
	ev.onCall = func(ev *fmtEval, fr *fframe, st *fstate, c *ssa.Call, args []fval) (fval, bool) {
		g := c.Call.StaticCallee()
		if g == nil || fnName(g) != "(*x/mrpc/mongowire.MessageHeader).Parse" {
			return fval{}, false
		}
		n++
		at := func(v fval, tok *ftok) (fsum, bool) {
			p := fsum{}
			for _, b := range uniq(ev.order) {
				base := v.base
				off := v.sum
				if tok != nil {
					base, off = tok.base, tok.off
				}
				if b == base {
					return p.add(off, 1), true
				}
				p = p.add(ev.sized[b], 1)
			}
			return nil, false
		}
		h := args[0].key
		for i, fld := range wireHeader {
			v := st.mem[h+"."+fld]
			if v.k != 'i' || v.tok == nil {
				if v.k == 'i' && v.sum.opaque() || v.k == 'x' {
					m.undecided("#19 %s %v", fld, v)
					continue
				}
				m.r.fail("header|"+fld, pos, fmt.Sprintf("ReadMessage: the header's %s is %s, not what the message says", fld, v))
				continue
			}
			p, ok := at(v, v.tok)
			if !ok {
				m.undecided("#20")
				continue
			}
			if c, isC := p.konst(); isC && c == int64(4*i) && v.tok.kind == "i32" {
				m.r.ok("ReadMessage: " + fld)
				m.r.Counts["header fields"]++
			} else {
				m.r.fail("header|"+fld, pos, fmt.Sprintf("ReadMessage: the header's %s is read as %s at byte %s; it is at byte %d", fld, v.tok.kind, p, 4*i))
			}
		}
		if args[1].k == 's' {
			if p, ok := at(args[1], nil); ok {
				c, isC := p.konst()
				m.r.check(isC && c == 16, "header|body", pos, fmt.Sprintf("ReadMessage: the body is taken from byte %s on; the header has 16 bytes", p))
			}
		}
		return fval{k: 'T', tup: []fval{fx("message"), fx("parse error")}}, true
	}
	ev.run(newFstate(), f, []fval{fx("ctx"), fx("reader")}, func(*fstate, []fval) {})
	if n == 0 {
		m.undecided("#21")
	}
	m.r.Counts["header paths"] = n
}

func uniq(a []string) []string {
	var o []string
	seen := map[string]bool{}
	for _, x := range a {
		if !seen[x] {
			seen[x] = true
			o = append(o, x)
		}
	}
	return o
}

func (m *mwire) undecided(what string, a ...any) {
	m.r.Counts["undecided"]++
	if os.Getenv("AN_TRACE") != "" {
		fmt.Printf("undecided: "+what+"\n", a...)
	}
}
