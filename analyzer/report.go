package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Finding is one construct that breaks a rule. Key identifies rule + construct without line numbers.
type Finding struct {
	Key, Pos, Msg string
}

// Report collects what one check analysed and what it found.
type Report struct {
	ID          string
	Rule        string
	Obligations int
	Discharged  int
	Counts      map[string]int
	Samples     []string
	Assumptions []string
	Findings    []Finding
	seen        map[string]bool
}

func newReport(id string) *Report {
	return &Report{ID: id, Counts: map[string]int{}, seen: map[string]bool{}}
}

func (r *Report) ok(what string) {
	r.Obligations++
	r.Discharged++
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, what)
	}
}

func (r *Report) fail(key, pos, msg string) {
	r.Obligations++
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.Findings = append(r.Findings, Finding{key, pos, msg})
}

// check records an obligation as discharged or failed.
func (r *Report) check(cond bool, key, pos, msg string) bool {
	if cond {
		r.ok(key)
	} else {
		r.fail(key, pos, msg)
	}
	return cond
}

// min fails when fewer instances were found than confirmed by hand on the reference tree.
func (r *Report) min(what string, want int) {
	if r.Counts[what] < want {
		r.fail("count|"+what, "-", fmt.Sprintf("only %d %s found, at least %d expected: the rule no longer sees the code it must judge", r.Counts[what], what, want))
	}
}

type known struct{ id, key, what string }

func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []known
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "finding: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(ln, "finding: "), " :: ", 2)
		if len(parts) != 2 {
			return nil, fmt.Errorf("bad known-findings line %q", ln)
		}
		f := strings.SplitN(parts[0], " key=", 2)
		if len(f) != 2 {
			return nil, fmt.Errorf("bad known-findings line %q", ln)
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property="), f[1], parts[1]})
	}
	return out, nil
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) finish(verif, tier string, seed int, start time.Time, ks []known) int {
	kn := map[string]string{}
	for _, k := range ks {
		if k.id == r.ID {
			kn[k.key] = k.what
		}
	}
	var viol []Finding
	var hits []string
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	for _, f := range r.Findings {
		if what, ok := kn[f.Key]; ok {
			hits = append(hits, what)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, what)
			continue
		}
		viol = append(viol, f)
	}
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	ev := map[string]any{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":    r.Rule,
			"obligations":    r.Obligations,
			"discharged":     r.Discharged,
			"analysed":       r.Counts,
			"samples":        r.Samples,
			"known_findings": hits,
		},
		"assumptions": r.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
	rp := filepath.Join(dir, r.ID+".report.txt")
	_ = os.Remove(rp)
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d known=%d\n", r.ID, r.Obligations, r.Discharged, len(hits))
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\n\n", r.ID, r.Rule)
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s\n  construct: %s\n  %s\n", f.Pos, f.Key, f.Msg)
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range viol {
		if i == 40 {
			fmt.Printf("  ... %d more in %s\n", len(viol)-i, rp)
			break
		}
		fmt.Printf("%s: %s [%s]\n", f.Pos, f.Msg, f.Key)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
	return 1
}

// inParallel runs n independent pieces of a check and joins their reports in order.
func (r *Report) inParallel(n int, f func(i int, sub *Report)) {
	subs := make([]*Report, n)
	jobs := make(chan int)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var perr any
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				func() {
					defer func() {
						if p := recover(); p != nil {
							mu.Lock()
							perr = fmt.Sprintf("%v\n%s", p, debug.Stack())
							mu.Unlock()
						}
					}()
					subs[i] = newReport(r.ID)
					f(i, subs[i])
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	if perr != nil {
		panic(perr)
	}
	for _, s := range subs {
		r.Obligations += s.Discharged
		r.Discharged += s.Discharged
		for k, v := range s.Counts {
			r.Counts[k] += v
		}
		for _, x := range s.Samples {
			if len(r.Samples) < 12 {
				r.Samples = append(r.Samples, x)
			}
		}
		for _, x := range s.Findings {
			r.fail(x.Key, x.Pos, x.Msg)
		}
	}
}
