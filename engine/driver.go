package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// UnitRes is the outcome of verifying one function.
type UnitRes struct {
	Unit    *Unit
	Obs     []*Ob
	VCs     int
	Cuts    int
	Invs    int
	Inlined []string
	Wide    bool
	Secs    float64
}

func (r *UnitRes) failing() (o []*Ob) {
	for _, b := range r.Obs {
		if b.Bad > 0 {
			o = append(o, b)
		}
	}
	return
}

// shape is the set of failing obligations, without the variant's name.
func (r *UnitRes) shape() string {
	var s []string
	for _, b := range r.failing() {
		s = append(s, strings.TrimPrefix(b.Name, r.Unit.V.Name+"."))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

type LemmaRes struct {
	Name string
	OK   bool
	Out  string
	By   string
}

// Run is one verification of a source directory.
type Run struct {
	P       *Pkg
	Dir     string
	Units   []*UnitRes
	Deps    []LemmaRes // about dependencies
	Lemmas  []LemmaRes
	Missing []string
	LoadErr error
	Secs    float64
	Retried int
}

var coverTags = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"}

func runOnce(p *Pkg, u *Unit, specs map[string]*Spec, wide bool) *UnitRes {
	t0 := time.Now()
	uu := *u
	x := newExec(p, &uu, specs)
	x.wide = x.wide || wide
	x.runUnit()
	x.sol.Close()
	r := &UnitRes{Unit: u, VCs: x.vcs, Cuts: x.cutsN, Invs: x.candsN, Inlined: x.inlinedList(), Wide: wide}
	for _, n := range x.order {
		r.Obs = append(r.Obs, x.obs[n])
	}
	r.Secs = time.Since(t0).Seconds()
	return r
}

// other solvers and options tried on a goal the incremental solver did not discharge
var retryCfg = []struct{ name, bin, opts string }{
	{"z3-new seed 7", "z3-new", "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.random_seed 7)\n"},
	{"z3-new default case split", "z3-new", "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 3)\n"},
	{"z3 4.8", "z3", "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"cvc5", "cvc5", "(set-logic ALL)\n"},
}

func retryScript(script string) string {
	body := strings.TrimPrefix(script, z3opts)
	for _, c := range retryCfg {
		key := sha256.Sum256([]byte("retry\x00" + c.name + "\x00" + body))
		ans, ent := claim(key)
		if ent != nil {
			r, _ := runScript(c.bin, c.opts+body, 10)
			ans = r == "unsat"
			settle(ent, ans)
		}
		if ans {
			return c.name
		}
	}
	return ""
}

// retry gives every undischarged goal of the unit to the other configurations.
func retry(r *UnitRes) int {
	n := 0
	for _, o := range r.failing() {
		if o.More > 0 || len(o.Goals) == 0 {
			return n
		}
	}
	for _, o := range r.failing() {
		all := true
		by := map[string]bool{}
		for _, g := range o.Goals {
			n++
			c := retryScript(g)
			if c == "" {
				all = false
				break
			}
			by[c] = true
		}
		if !all {
			return n
		}
		o.Bad = 0
		for c := range by {
			o.By += c + " "
		}
	}
	return n
}

// doUnit verifies one function; rep is the outcome for the same function of the representative variant.
func doUnit(p *Pkg, u *Unit, specs map[string]*Spec, rep *UnitRes, run *Run, mu *sync.Mutex) *UnitRes {
	r := runOnce(p, u, specs, false)
	if len(r.failing()) == 0 || u.Kind == "float" || u.Kind == "ctor" || u.Kind == "bv" || u.Kind == "array" {
		return r
	}
	if rep != nil && len(rep.failing()) > 0 {
		return r // the representative was retried already and fails as well
	}
	first := r
	n := retry(r)
	mu.Lock()
	run.Retried += n
	mu.Unlock()
	if len(r.failing()) == 0 {
		return r
	}
	w := runOnce(p, u, specs, true)
	if len(w.failing()) > 0 {
		retry(w)
	}
	if len(w.failing()) < len(first.failing()) {
		w.Secs += first.Secs
		return w
	}
	return first
}

// verify verifies every function under contract of the package in dir.
func verify(dir string, want func(*Unit) bool) *Run {
	t0 := time.Now()
	run := &Run{Dir: dir}
	p, err := loadPkg(dir)
	if err != nil {
		run.LoadErr = err
		return run
	}
	run.P = p
	specs := loadSpecs()
	us, missing := p.unitsFor(specs)
	run.Missing = missing
	var sel []*Unit
	for _, u := range us {
		if want == nil || want(u) {
			sel = append(sel, u)
		}
	}
	rep := p.Variants[0].Name
	for _, v := range p.Variants {
		if v.Name == "IntSet" {
			rep = v.Name
		}
	}
	var mu sync.Mutex
	reps := map[string]*UnitRes{}
	role := func(u *Unit) string { return strings.TrimPrefix(u.Name, u.V.Name+".") }
	do := func(us []*Unit, par int) {
		ch := make(chan *Unit, len(us))
		for _, u := range us {
			ch <- u
		}
		close(ch)
		var wg sync.WaitGroup
		for i := 0; i < par; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for u := range ch {
					mu.Lock()
					rp := reps[role(u)]
					mu.Unlock()
					r := doUnit(p, u, specs, rp, run, &mu)
					if os.Getenv("SKV_VERBOSE") != "" {
						fmt.Fprintf(os.Stderr, "%8.1fs %-28s %5d VCs %d failing  %.1fs\n", time.Since(t0).Seconds(), u.Name, r.VCs, len(r.failing()), r.Secs)
					}
					mu.Lock()
					run.Units = append(run.Units, r)
					if rp == nil && u.Kind == "op" {
						reps[role(u)] = r
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	// lemmas run beside the first phase
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		run.Lemmas = runLemmas(p)
		run.Deps = runDep(p)
	}()
	var first, rest []*Unit
	for _, u := range sel {
		if u.Kind != "op" || strings.HasPrefix(u.Name, rep+".") {
			first = append(first, u)
		} else {
			rest = append(rest, u)
		}
	}
	weight := func(u *Unit) int {
		switch role(u) {
		case "Remove":
			return 3
		case "Add":
			return 2
		case "findNodeRemove", "RangeFrom":
			return 1
		}
		return 0
	}
	sort.SliceStable(first, func(i, j int) bool { return weight(first[i]) > weight(first[j]) })
	sort.SliceStable(rest, func(i, j int) bool { return weight(rest[i]) > weight(rest[j]) })
	do(first, 6)
	do(rest, 8)
	wg.Wait()
	sort.Slice(run.Units, func(i, j int) bool { return run.Units[i].Unit.Name < run.Units[j].Unit.Name })
	run.Secs = time.Since(t0).Seconds()
	return run
}

func runLemmas(p *Pkg) []LemmaRes {
	ls := genLemmas(p.MaxLevel, p.Op1)
	out := make([]LemmaRes, len(ls))
	ch := make(chan int, len(ls))
	for i := range ls {
		ch <- i
	}
	close(ch)
	var wg sync.WaitGroup
	var meta []LemmaRes
	wg.Add(1)
	go func() {
		defer wg.Done()
		meta = runMeta()
	}()
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				r, all := runScript(z3bin, z3opts+ls[i].Query+"(check-sat)\n", 20)
				out[i] = LemmaRes{Name: ls[i].Name, OK: r == "unsat", Out: all}
			}
		}()
	}
	wg.Wait()
	return append(out, meta...)
}

// Obligation as reported.
type RepOb struct {
	Name, Pos, Why, By string
	N                  int
	OK                 bool
	Script             string
}

var orderNames = []string{"pred-before", "succ-after", "succ-not-before", "ensures:found", "ensures:absent", "order-pred", "order-succ",
	"true-means", "false-means", "visit:", "ensures:complete", "loop-invariant", "subset:", "exact-conversion", "no-wrap-around", "truncating-division",
	"ensures:value", "cover:", "lock:in-global-order"}

// orderOb: the obligation says that an operation uses the set's own order. C12 needs it of every set, C11 of the
// set the float constructors use.
func orderOb(prop string, u *Unit, o *Ob) bool {
	if prop != "C12" && (prop != "C11" || u.V == nil || u.V.Name != "FuncSet") {
		return false
	}
	for _, n := range orderNames {
		if strings.Contains(o.Name, n) {
			return true
		}
	}
	return false
}

// obligationsOf lists the obligations that decide a property.
func (run *Run) obligationsOf(prop string) (obs []RepOb, vcs int) {
	has := func(ts []string) bool {
		for _, t := range ts {
			if t == prop {
				return true
			}
		}
		return false
	}
	for _, r := range run.Units {
		for _, o := range r.Obs {
			if !has(o.Tags) && !orderOb(prop, r.Unit, o) {
				continue
			}
			vcs += o.N
			obs = append(obs, RepOb{o.Name, o.Pos, o.Why, o.By, o.N, o.Bad == 0, o.Script})
		}
	}
	for _, l := range run.Lemmas {
		vcs++
		obs = append(obs, RepOb{Name: l.Name, Pos: "-", Why: "lemma not discharged: " + l.Out, By: l.By, N: 1, OK: l.OK})
	}
	if prop == "C14" || prop == "C15" {
		for _, l := range run.Deps {
			vcs++
			obs = append(obs, RepOb{Name: l.Name, Pos: "-", Why: "not discharged: " + l.Out, N: 1, OK: l.OK})
		}
	}
	for _, m := range run.Missing {
		obs = append(obs, RepOb{Name: "coverage/" + m, Pos: "-", Why: m + " was not found with the expected signature", N: 1, OK: false})
	}
	return
}
