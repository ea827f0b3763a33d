package main

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check(os.Args[2], tier))
	}
	if len(os.Args) > 4 && os.Args[1] == "explore" {
		seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
		os.Exit(exploreOne(os.Args[2], os.Args[3], seed))
	}
	if len(os.Args) > 3 && os.Args[1] == "searchall" { // DIR CONSTRUCTORS: every property, a few seconds each
		work, _ := os.MkdirTemp("", "skverif-search-")
		defer os.RemoveAll(work)
		secs, _ := strconv.ParseFloat(os.Getenv("SKV_SECS"), 64)
		bin, err := buildHarness(os.Args[2], work+"/a", false)
		bin2, err2 := buildHarness(os.Args[2], work+"/b", true)
		if err != nil || err2 != nil {
			fmt.Println("BUILD", err, err2)
			return
		}
		n := 0
		for i := 1; i < 15; i++ {
			p, b := fmt.Sprintf("C%02d", i), bin
			if i == 10 {
				b = bin2
			}
			o := runSearch(context.Background(), b, p, os.Args[3], uint64(i)*77777777, secs, i == 10, false, work+"/st")
			if o.found || o.err != "" {
				fmt.Println("FOUND", p, o.text, o.err)
			}
			n += o.runs
		}
		fmt.Println("runs", n)
		return
	}
	if len(os.Args) > 3 && os.Args[1] == "search" {
		work, _ := os.MkdirTemp("", "skverif-search-")
		defer os.RemoveAll(work)
		var obs []RepOb
		for _, n := range os.Args[4:] {
			obs = append(obs, RepOb{Name: n + "/"})
		}
		seed := 1
		if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
			seed = n
		}
		fmt.Println(searchFailure(os.Args[2], "quick", seed, os.Args[3], work, work, obs))
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "verify" {
		run := verify(os.Args[2], nil)
		if run.LoadErr != nil {
			fmt.Println("load:", run.LoadErr)
			os.Exit(2)
		}
		n, bad := 0, 0
		for _, r := range run.Units {
			n += len(r.Obs)
			for _, o := range r.failing() {
				bad++
				w := o.Why
				if len(w) > 200 {
					w = w[:200]
				}
				fmt.Printf("FAIL %s (%s) %d/%d %s\n", o.Name, o.Pos, o.Bad, o.N, w)
			}
		}
		for _, l := range run.Lemmas {
			if !l.OK {
				fmt.Println("LEMMA", l.Name, l.Out)
			}
		}
		fmt.Println("missing", run.Missing, "units", len(run.Units), "obligations", n, "failing", bad, "lemmas", len(run.Lemmas), "retried", run.Retried, "secs", run.Secs)
		fmt.Printf("%+v\n", stats)
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "unit" {
		debugPanics = os.Getenv("SKV_PANIC") != ""
		dir := "/repo"
		if d := os.Getenv("SKV_REPO"); d != "" {
			dir = d
		}
		p, err := loadPkg(dir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		specs := loadSpecs()
		us, missing := p.unitsFor(specs)
		fmt.Println("missing", missing)
		for _, u := range us {
			ok := len(os.Args) == 2
			for _, a := range os.Args[2:] {
				if u.Name == a || strings.HasSuffix(a, "*") && strings.HasPrefix(u.Name, a[:len(a)-1]) {
					ok = true
				}
			}
			if !ok {
				continue
			}
			t0 := time.Now()
			x := newExec(p, u, specs)
			x.runUnit()
			x.sol.Close()
			fmt.Printf("%-28s %5d VCs %3d cuts %4d inv %6d steps  %v\n", u.Name, x.vcs, x.cutsN, x.candsN, x.steps, time.Since(t0).Round(time.Millisecond))
			var bad []string
			for _, n := range x.order {
				o := x.obs[n]
				if o.Bad > 0 {
					w := o.Why
					if len(w) > 300 {
						w = w[:300]
					}
					bad = append(bad, fmt.Sprintf("   FAIL %s (%s) %d/%d: %s", o.Name, o.Pos, o.Bad, o.N, w))
					if f := os.Getenv("SKV_SCRIPT"); f != "" && strings.Contains(o.Name, f) {
						os.WriteFile("/tmp/fail.smt2", []byte(o.Script), 0644)
					}
				}
			}
			sort.Strings(bad)
			fmt.Println(strings.Join(bad, "\n"))
		}
		var ks []string
		for k := range prof {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return prof[ks[i]].tok+prof[ks[i]].tbad > prof[ks[j]].tok+prof[ks[j]].tbad })
		for _, k := range ks {
			fmt.Printf("%-16s ok %5d %8v  bad %5d %8v\n", k, prof[k].ok, prof[k].tok.Round(time.Millisecond), prof[k].bad, prof[k].tbad.Round(time.Millisecond))
		}
		fmt.Printf("%+v\n", stats)
	}
}

func newExec(p *Pkg, u *Unit, specs map[string]*Spec) *Exec {
	x := &Exec{p: p, v: u.V, u: u, specs: specs, obs: map[string]*Ob{}, inlined: map[string]bool{}, failed: map[string]bool{}}
	x.wide = os.Getenv("SKV_WIDE") != ""
	x.F, _ = p.constU32("fullyLinked")
	x.M, _ = p.constU32("marked")
	x.sol = NewSolver(prelude(p.MaxLevel, p.Op1))
	return x
}
