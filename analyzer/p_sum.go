package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P34: events and recorders count everything once, and where it belongs.

const eventsPath = modPath + "/x/ftdc/events"

type sumRun struct {
	w    *World
	r    *Report
	perf *types.Named
	leaf []perfLeaf
}

// perfLeaf is one number, flag or time of an event
type perfLeaf struct {
	path string
	t    types.Type
	adds bool // counters and timers add up; the rest is taken over
}

func (s *sumRun) undecided(f string, a ...any) {
	s.r.Counts["undecided"]++
	if os.Getenv("AN_DUMP") != "" {
		fmt.Println("UNDECIDED", fmt.Sprintf(f, a...))
	}
}

func (s *sumRun) leaves(t types.Type, path string, adds bool) {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		p := path + "." + f.Name()
		if strings.HasPrefix(typeKey(f.Type()), eventsPath) && isStruct(f.Type()) {
			n := typeKey(f.Type())
			s.leaves(f.Type(), p, strings.HasSuffix(n, "Counters") || strings.HasSuffix(n, "Timers"))
			continue
		}
		s.leaf = append(s.leaf, perfLeaf{p, f.Type(), adds})
	}
}

func checkSums(w *World, r *Report) {
	r.Rule = "abstract interpretation of Performance.Add, of AddEvent of every event collector and of the Inc and Set methods of every recorder, on all paths with symbolic numbers: every counter and timer ends as the sum of both, every other field as the added event's; the running sum is made a copy of the first event or gets the event added before it is handed on; a recorder's method changes exactly the field it is named for"
	s := &sumRun{w: w, r: r}
	s.perf, _ = w.structNamed(eventsPath, "Performance").(*types.Named)
	if s.perf == nil {
		r.min("events added", 1)
		return
	}
	s.leaves(s.perf, "", false)
	for _, f := range w.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != eventsPath || f.Parent() != nil || f.Signature.Recv() == nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		switch {
		case f.Name() == "Add" && derefT(f.Signature.Recv().Type()) == types.Type(s.perf):
			s.add(f)
		case f.Name() == "AddEvent" && len(f.Params) == 2:
			s.event(f)
		case recorderField[f.Name()] != "" && len(f.Params) == 2:
			s.recorder(f)
		}
	}
	r.min("events added", 1)
	r.min("event collectors", 3)
	r.min("recorder methods", 20)
}

func (s *sumRun) newEv() *fmtEval {
	ev := newFmtEval(s.w)
	ev.inline = func(g *ssa.Function) bool { return inPkgPrefix(g, eventsPath) }
	return ev
}

// at: what a field holds
func at(ev *fmtEval, st *fstate, key string, t types.Type) string {
	return ev.load(st, key, t).String()
}

// whole: the event at base is what was at old (if anything) with the event I added; "" when it is
func (s *sumRun) whole(ev *fmtEval, st *fstate, base, old string) (bad string, unknown bool) {
	for _, l := range s.leaf {
		got := at(ev, st, base+l.path, l.t)
		want := "I" + l.path
		switch {
		case l.path == ".ID" && old != "":
			// an event without an ID gets the next one
			zero, asked := st.cond["0 == I.ID"]
			next := "1+" + old + ".ID"
			switch {
			case got == next && asked && zero, got == want && asked && !zero:
			case got != next && got != want && got != old+".ID":
				unknown = true
			case !asked:
				unknown = true
			default:
				return fmt.Sprintf("ID ends as %s when the event's ID being 0 is %v", got, zero), false
			}
			continue
		case l.adds && old != "":
			want = addText("I"+l.path, old+l.path)
		}
		if got == want {
			continue
		}
		if strings.Contains(got, "?") || strings.Contains(got, "(") {
			unknown = true
			continue
		}
		return fmt.Sprintf("%s ends as %s, not as %s", l.path[1:], got, want), false
	}
	return "", unknown
}

func addText(a, b string) string {
	if b < a {
		a, b = b, a
	}
	return a + "+" + b
}

func (s *sumRun) add(f *ssa.Function) {
	ev := s.newEv()
	key := "add|" + fnName(f)
	bad, unknown := "", false
	ev.run(newFstate(), f, []fval{{k: 'p', key: "R"}, {k: 'p', key: "I"}}, func(st *fstate, res []fval) {
		b, u := s.whole(ev, st, "R", "R")
		if b != "" && bad == "" {
			bad = b
		}
		unknown = unknown || u
	})
	s.done(f, key, bad, unknown, ev.lost, "events added")
}

func (s *sumRun) done(f *ssa.Function, key, bad string, unknown bool, lost, what string) {
	s.r.Counts[what]++
	switch {
	case bad != "":
		s.r.fail(key, s.w.pos(f.Pos()), fnName(f)+": "+bad)
	case lost != "" || unknown:
		s.undecided("%s: %s", fnName(f), lost)
	default:
		s.r.ok(key)
	}
}

// held: where a struct keeps an event, in it or in a part of it, and as what
func (s *sumRun) held(st *types.Struct, path string, depth int) (string, string) {
	for i := 0; i < st.NumFields() && depth < 4; i++ {
		f := st.Field(i)
		t, star, at := f.Type(), "", path+"."+f.Name()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t, star = p.Elem(), "*"
		}
		switch k := typeKey(t); k {
		case eventsPath + ".Performance", eventsPath + ".PerformanceHDR":
			return at, star + strings.TrimPrefix(k, eventsPath+".")
		default:
			if in, ok := t.Underlying().(*types.Struct); ok && strings.HasPrefix(k, eventsPath) {
				if p, k := s.held(in, at, depth+1); p != "" {
					return p, k
				}
			}
		}
	}
	return "", ""
}

// event: an event collector is given an event
func (s *sumRun) event(f *ssa.Function) {
	rt, _ := derefT(f.Signature.Recv().Type()).Underlying().(*types.Struct)
	if rt == nil {
		return
	}
	sum, kind := s.held(rt, "R", 0)
	others := 0
	for i := 0; i < rt.NumFields(); i++ {
		if p := "R." + rt.Field(i).Name(); p != sum {
			others++
		}
	}
	if kind != "" && kind != "*Performance" {
		// not kept behind a pointer: there is no telling the first event
		s.r.Counts["event collectors"]++
		s.undecided("%s: keeps its sum as a value", fnName(f))
		return
	}
	ev := s.newEv()
	key := "event|" + fnName(f)
	bad, unknown := "", false
	fail := func(m string) {
		if bad == "" {
			bad = m
		}
	}
	// the running sum has the event in it
	counted := func(ev *fmtEval, st *fstate) string {
		first, asked := st.cond[sum+" == nil"]
		cur := ev.load(st, sum, types.NewPointer(s.perf))
		base := sum
		if cur.k == 'p' {
			base = cur.key
		} else if cur.String() != sum {
			if cur.k == 'n' {
				return "the running sum is dropped"
			}
			unknown = true
			return ""
		}
		if base == "I" {
			return "the caller's event becomes the running sum: later events are added to it"
		}
		old := sum
		if first || base != sum {
			if asked && !first {
				// another event in place of the sum so far
				b, u := s.whole(ev, st, base, sum)
				unknown = unknown || u
				return b
			}
			if !asked {
				unknown = true
				return ""
			}
			old = ""
		} else if !asked && f.Blocks[0] != nil {
			old = sum
		}
		b, u := s.whole(ev, st, base, old)
		unknown = unknown || u
		return b
	}
	ev.onCallK = func(ev *fmtEval, fr *fframe, st *fstate, c *ssa.Call, args []fval, k func(*fstate, fval)) bool {
		if !c.Call.IsInvoke() || c.Call.Method.Name() != "Add" && c.Call.Method.Name() != "AddEvent" {
			return false
		}
		if len(c.Call.Args) != 1 {
			return false
		}
		arg := ev.val(fr, st, c.Call.Args[0])
		n := st.mem["$handed"]
		if n.k == 'x' {
			fail("an event can be handed on twice")
		}
		switch {
		case sum == "":
			if arg.k == 'p' && arg.key == "I" {
				break
			}
			if strings.Contains(arg.String(), "?") {
				unknown = true
			} else {
				fail("hands on " + arg.String() + " instead of the event it is given")
			}
		default:
			cur := ev.load(st, sum, types.NewPointer(s.perf))
			if !(arg.k == 'p' && cur.k == 'p' && arg.key == cur.key || arg.String() == cur.String() || arg.k == 'p' && arg.key == sum) {
				if strings.Contains(arg.String(), "?") {
					unknown = true
				} else if arg.k == 'p' && arg.key == "I" {
					fail("hands on the event itself instead of the running sum")
				} else if b, u := s.whole(ev, st, arg.key, ""); arg.k != 'p' || b != "" || u {
					unknown = true // a copy of the sum, or something else
				}
			} else if b := counted(ev, st); b != "" {
				fail("hands on the running sum without the event: " + b)
			}
		}
		st2 := st.clone()
		st2.mem["$handed"] = fx("once")
		k(st2, fx("handed"))
		return true
	}
	ev.run(newFstate(), f, []fval{{k: 'p', key: "R"}, {k: 'p', key: "I"}}, func(st *fstate, res []fval) {
		handed := st.mem["$handed"].k == 'x'
		if sum == "" {
			if !handed && len(res) == 1 && nilF(res[0]) != -1 {
				fail("can succeed without handing the event on")
			}
			return
		}
		if len(res) == 1 && nilF(res[0]) == -1 && !handed {
			if strings.Contains(at(ev, st, sum, types.NewPointer(s.perf)), sum) {
				return // refused for a reason of its own
			}
		}
		if b := counted(ev, st); b != "" {
			fail(b)
		}
		if others == 1 && !handed {
			fail("can return without handing on the sum, though it takes every event")
		}
	})
	if sum != "" && ev.lost == "" && bad == "" {
		e2 := s.newEv()
		e2.run(newFstate(), f, []fval{{k: 'p', key: "R"}, {k: 'n'}}, func(st *fstate, res []fval) {
			if len(res) == 1 && nilF(res[0]) == 1 {
				fail("takes a missing event without an error")
			}
		})
	}
	s.done(f, key, bad, unknown, ev.lost, "event collectors")
}

// recorderField: the field of an event a recorder's method is for
var recorderField = map[string]string{
	"IncIterations": ".Counters.Number", "IncOperations": ".Counters.Operations", "IncError": ".Counters.Errors", "IncSize": ".Counters.Size",
	"SetWorkers": ".Gauges.Workers", "SetState": ".Gauges.State", "SetFailed": ".Gauges.Failed", "SetID": ".ID", "SetTime": ".Timestamp",
	"SetTotalDuration": ".Timers.Total", "SetDuration": ".Timers.Duration",
}

func (s *sumRun) recorder(f *ssa.Function) {
	rt, _ := derefT(f.Signature.Recv().Type()).Underlying().(*types.Struct)
	if rt == nil {
		return
	}
	point, kind := s.held(rt, "R", 0)
	hist := strings.HasSuffix(kind, "HDR")
	want := recorderField[f.Name()]
	key := "recorder|" + fnName(f)
	ev := s.newEv()
	bad, unknown := "", false
	fail := func(m string) {
		if bad == "" {
			bad = m
		}
	}
	recorded := map[string]bool{}
	handed := 0
	ev.onCallK = func(ev *fmtEval, fr *fframe, st *fstate, c *ssa.Call, args []fval, k func(*fstate, fval)) bool {
		if c.Call.IsInvoke() {
			if c.Call.Method.Name() == f.Name() && len(c.Call.Args) == 1 {
				// a wrapper
				handed++
				if a := ev.val(fr, st, c.Call.Args[0]).String(); a != "I" {
					fail("hands on " + a + " instead of what it is given")
				}
				k(st, fx("done"))
				return true
			}
			if recorderField[c.Call.Method.Name()] != "" && len(c.Call.Args) == 1 && point == "" {
				fail("calls " + c.Call.Method.Name() + " of what it wraps")
				k(st, fx("done"))
				return true
			}
			if strings.HasPrefix(c.Call.Method.Name(), "RecordValue") {
				unknown = true
				recorded["?"] = true
			}
			return false
		}
		g := c.Call.StaticCallee()
		if g == nil || !strings.HasPrefix(g.Name(), "RecordValue") || len(args) < 2 {
			return false
		}
		h := args[0].String()
		if args[0].k == 'p' {
			h = args[0].key
		}
		a := args[1].String()
		if g.Name() != "RecordValue" {
			unknown = true
		} else if !strings.HasPrefix(h, point) {
			unknown = true
		} else {
			recorded[h] = true
			if h != point+want {
				fail("records in " + h[len(point)+1:] + ", not in " + want[1:])
			} else if a != "I" {
				if strings.Contains(a, "?") {
					unknown = true
				} else {
					fail("records " + a + " instead of what it is given")
				}
			}
		}
		k(st, fx("?recorded"))
		return true
	}
	arg := fx("I")
	if isInt(f.Params[1].Type()) {
		arg = fi(fterm("I"))
	}
	rets := 0
	ev.run(newFstate(), f, []fval{{k: 'p', key: "R"}, arg}, func(st *fstate, res []fval) {
		rets++
		if point == "" {
			return
		}
		var ks []string
		for k := range st.mem {
			if strings.HasPrefix(k, point+".") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		set := false
		for _, k := range ks {
			v := st.mem[k].String()
			if k != point+want {
				if v != k {
					if strings.Contains(v, "?") {
						unknown = true
					} else {
						fail("changes " + k[len(point)+1:] + " to " + v)
					}
				}
				continue
			}
			set = true
			exp := "I"
			if strings.HasPrefix(f.Name(), "Inc") {
				exp = addText("I", k)
			}
			if v != exp && !(isTimer(f.Name()) && v == addText("I", k)) {
				if strings.Contains(v, "?") || strings.Contains(v, "(") {
					unknown = true
				} else {
					fail("leaves " + want[1:] + " as " + v + " instead of " + exp)
				}
			}
		}
		if !set && len(recorded) == 0 && len(st.cond) == 0 {
			if hist && strings.HasPrefix(want, ".Counters") || !hist {
				fail("can leave " + want[1:] + " as it was")
			}
		}
	})
	if point == "" && handed == 0 {
		// handed to a helper as a function
		var bound []string
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if n := mc.Fn.Name(); strings.HasSuffix(n, "$bound") {
						bound = append(bound, strings.TrimSuffix(n, "$bound"))
					} else {
						bound = append(bound, "")
					}
				}
			}
		}
		switch {
		case len(bound) == 1 && recorderField[bound[0]] != "":
			if bound[0] != f.Name() {
				fail("has " + bound[0] + " of the recorder it wraps called")
			}
		case len(bound) > 0:
			unknown = true
		case ev.lost == "" && rets > 0:
			fail("can return without telling the recorder it wraps")
		}
	}
	s.done(f, key, bad, unknown, ev.lost, "recorder methods")
}

// isTimer: durations of one event may come in parts
func isTimer(name string) bool { return strings.HasSuffix(name, "Duration") }
