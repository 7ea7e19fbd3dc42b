package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

type checkFn func(w *World, r *Report)

var checks = map[string]checkFn{}

func register(id string, f checkFn) { checks[id] = f }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: analyzer check <ID> | list | ssa <fn> | bounds <entries>")
		os.Exit(2)
	}
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo"
	}
	switch os.Args[1] {
	case "check":
		verif := os.Getenv("VERIF_DIR")
		if verif == "" {
			verif = "/verif"
		}
		os.Exit(runChecks(root, verif, os.Args[2:]))
	default:
		debugMain(root)
	}
}

func runChecks(root, verif string, ids []string) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	ks, kerr := loadKnown(verif + "/known-findings.txt")
	w, err := loadWorld(root)
	if err == nil {
		err = kerr
	}
	code := 0
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sortStrings(ids)
	}
	for _, id := range ids {
		if len(ids) > 1 {
			start = time.Now()
		}
		r := newReport(id)
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.fail("analysis|panic", "-", fmt.Sprintf("the analysis could not be completed: %v", p))
					fmt.Fprintf(os.Stderr, "%v\n%s\n", p, debug.Stack())
				}
			}()
			if err != nil {
				r.Rule = "the repository must load and type-check"
				r.fail("analysis|load", "-", "the source could not be analysed: "+err.Error())
				return
			}
			f := checks[id]
			if f == nil {
				r.fail("analysis|unknown", "-", "no such check")
				return
			}
			f(w, r)
		}()
		if c := r.finish(verif, tier, seed, start, ks); c != 0 {
			code = c
		}
		if len(ids) > 1 {
			fmt.Printf("   (%s %.1fs)\n", id, time.Since(start).Seconds())
		}
	}
	return code
}

func debugMain(root string) {
	w, err := loadWorld(root)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	switch os.Args[1] {
	case "list":
		for _, f := range w.Funcs {
			fmt.Println(fnName(f))
		}
	case "convs":
		listConvs(w)
	case "ssa":
		f := w.fn(os.Args[2])
		if f == nil {
			fmt.Println("no such function")
			return
		}
		f.WriteTo(os.Stdout)
	case "sinv":
		pk := map[string]bool{}
		only := os.Getenv("PKG")
		for p := range w.SSA {
			if only != "" && p != modPath+strings.TrimPrefix(only, ".") {
				continue
			}
			pk[p] = true
		}
		t := time.Now()
		sinvTrace = len(os.Args) > 2
		if len(os.Args) > 3 {
			sinvDump = os.Args[3]
		}
		for _, ivs := range inferStructInvs(w, pk) {
			for _, iv := range ivs {
				fmt.Println(iv)
			}
		}
		fmt.Println(time.Since(t))
	case "bounds":
		debugBounds(w, strings.Split(os.Args[2], ","), len(os.Args) > 3)
	}
}
