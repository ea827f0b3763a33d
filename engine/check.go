package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var titles = map[string]string{}

var root = func() string {
	if d := os.Getenv("SKV_ROOT"); d != "" {
		return d
	}
	return "/verif"
}()

var repoDir = func() string {
	if d := os.Getenv("SKV_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

// goEnv is the environment of every go command run here.
func goEnv() []string {
	var e []string
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "GOWORK", "GOENV", "GOMAXPROCS", "GORACE", "GODEBUG", "GOOS", "GOARCH", "CGO_ENABLED":
			continue
		}
		e = append(e, kv)
	}
	return append(e, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOENV=off", "CGO_ENABLED=1")
}

// copySources copies the package's files (not its tests) to a scratch directory.
func copySources(from, to string) error {
	ents, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") || strings.HasPrefix(e.Name(), ".") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), b, 0644); err != nil {
			return err
		}
	}
	return nil
}

// regenerate runs the repository's generator on its template in a scratch copy whose generated files were removed.
func regenerate(scratch string) (string, error) {
	if err := copySources(repoDir, scratch); err != nil {
		return "", err
	}
	old, _ := filepath.Glob(filepath.Join(scratch, "gen_*.go"))
	for _, f := range old {
		os.Remove(f)
	}
	cmd := exec.Command("go", "run", "gen.go")
	cmd.Dir = scratch
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return string(out), err
	}
	cmd = exec.Command("go", "build", "./...")
	cmd.Dir = scratch
	cmd.Env = goEnv()
	o2, err := cmd.CombinedOutput()
	return string(out) + string(o2), err
}

type finding struct{ prop, match, text string }

// knownFindings reads the committed list: "finding: property=<id> obligation=<substring> <what fails>".
func knownFindings() (fs []finding) {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && f[0] == "finding:" {
			fs = append(fs, finding{strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "obligation="), strings.Join(f[3:], " ")})
		}
	}
	return
}

func check(prop, tier string) int {
	failFast = false
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	work, err := os.MkdirTemp("", "skverif-"+prop+"-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(work)
	outDir := filepath.Join(root, "work", prop)
	os.MkdirAll(outDir, 0755)
	replay := filepath.Join(outDir, "replay.txt")
	os.Remove(replay)
	dir := repoDir
	var vio []string // text of the report
	hard := false
	if prop == "C15" {
		dir = filepath.Join(work, "gen")
		os.MkdirAll(dir, 0755)
		out, err := regenerate(dir)
		if err != nil {
			hard = true
			vio = append(vio, "regenerating the sources (go run gen.go; go build ./...) in a copy of the repository failed: "+err.Error()+"\n"+out)
		}
	}
	var run *Run
	var obs []RepOb
	vcs := 0
	if !hard {
		want := func(u *Unit) bool { return true }
		if prop == "C11" {
			want = func(u *Unit) bool {
				return u.Kind == "float" || u.Kind == "ctor" || u.V != nil && u.V.Name == "FuncSet"
			}
		}
		run = verify(dir, want)
		if run.LoadErr != nil {
			vio = append(vio, "the package does not load: "+run.LoadErr.Error())
		} else {
			obs, vcs = run.obligationsOf(prop)
		}
	}
	var failed, known []RepOb
	kf := knownFindings()
	disch := 0
	backends := map[string]int{}
	for _, o := range obs {
		if o.OK {
			disch++
			if o.By != "" {
				backends[o.By]++
			} else {
				backends[z3bin]++
			}
			continue
		}
		isKnown := false
		for _, f := range kf {
			if f.prop == prop && strings.Contains(o.Name, f.match) {
				isKnown = true
			}
		}
		if isKnown {
			known = append(known, o)
		} else {
			failed = append(failed, o)
		}
	}
	for _, f := range kf {
		for _, o := range known {
			if f.prop == prop && strings.Contains(o.Name, f.match) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
				break
			}
		}
	}
	nv := len(failed)
	var cross map[string]int
	extra := ""
	if len(failed) > 0 || len(vio) > 0 && !hard {
		var b strings.Builder
		fmt.Fprintf(&b, "%d of %d obligations of %s are not discharged:\n", len(failed), len(obs), prop)
		for i, o := range failed {
			if i == 40 {
				fmt.Fprintf(&b, "  ... and %d more\n", len(failed)-i)
				break
			}
			w := o.Why
			if len(w) > 600 {
				w = w[:600] + " ..."
			}
			fmt.Fprintf(&b, "  %s  at %s\n      %s\n", o.Name, o.Pos, w)
		}
		vio = append(vio, b.String())
		found, text := searchFailure(prop, tier, seed, dir, work, outDir, failed)
		if found {
			hard = true
		}
		vio = append(vio, text)
		for _, o := range failed {
			if o.Script != "" {
				f := filepath.Join(outDir, "obligation.smt2")
				os.WriteFile(f, []byte("; "+o.Name+"\n"+o.Script), 0644)
				r, _ := runScript(z3bin, o.Script+"(get-info :reason-unknown)\n", 20)
				vio = append(vio, fmt.Sprintf("verification condition of %s: %s (solver answer: %s)", o.Name, f, r))
				break
			}
		}
	} else if len(vio) == 0 && tier == "thorough" {
		cross = crossCheck(run, prop)
		found, text := searchFailure(prop, tier, seed, dir, work, outDir, nil)
		extra = text
		if found {
			// the proof and an execution disagree: report the execution
			hard = true
			vio = append(vio, "every obligation is discharged, but the bounded search found a failing execution:\n"+text)
		}
	}
	if len(vio) > 0 && nv == 0 {
		nv = 1
	}
	writeEvidence(prop, tier, seed, run, obs, vcs, disch, backends, cross, extra, nv, time.Since(t0))
	if len(vio) == 0 {
		fmt.Printf("%s holds: %d obligations (%d verification conditions) discharged in %.1fs\n", prop, disch, vcs, time.Since(t0).Seconds())
		return 0
	}
	os.WriteFile(replay, []byte(strings.Join(vio, "\n")+"\n"), 0644)
	for i, o := range failed {
		if i == 12 {
			fmt.Printf("  ... %d more\n", len(failed)-i)
			break
		}
		fmt.Printf("  obligation not discharged: %s (%s)\n", o.Name, o.Pos)
	}
	s := ""
	if !hard {
		s = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, s)
	return 1
}

// crossCheck hands the obligations of the representative variant that were discharged to a second solver.
func crossCheck(run *Run, prop string) map[string]int {
	res := map[string]int{}
	var mu sync.Mutex
	ls := genLemmas(run.P.MaxLevel, run.P.Op1)
	ch := make(chan string, len(ls))
	for _, l := range ls {
		ch <- l.Query
	}
	close(ch)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := range ch {
				for _, c := range retryCfg[1:] {
					r, _ := runScript(c.bin, c.opts+q+"(check-sat)\n", 10)
					mu.Lock()
					if r == "unsat" {
						res["lemmas also discharged by "+c.name]++
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	res["lemmas"] = len(ls)
	return res
}

var trusted = []string{
	"the verification-condition generator /verif/engine (its reading of go/ssa, its rely/guarantee rule, its contracts as a rendering of the property); go/types and golang.org/x/tools/go/ssa; z3",
	"ghost sets (locks held, nodes created, nodes marked by a call) of different goroutines are disjoint: a mutex has one holder, an allocated node is new, mark requires an unmarked node",
	"sync.Mutex gives mutual exclusion; sync/atomic operations are sequentially consistent (Go memory model); the scheduler is fair to runnable goroutines",
	"integers are mathematical: conversions that could change a value and subtractions that could wrap are obligations; counters are assumed not to overflow 64 bits",
	"built-in < on integers and strings is a strict total order; a user-supplied less is a pure strict weak order; the generic ordered sets are used with orders that are strict weak (no NaN keys)",
	"a node is garbage collected only when unreferenced, so addresses are not reused while referenced; stacks and allocation do not run out",
	"the array accessors' unsafe pointer conversions between *node and unsafe.Pointer are the identity",
}

func writeEvidence(prop, tier string, seed int, run *Run, obs []RepOb, vcs, disch int, backends, cross map[string]int, extra string, nv int, wall time.Duration) {
	type fnRep struct {
		Name        string   `json:"name"`
		Pos         string   `json:"pos"`
		Obligations int      `json:"obligations"`
		VCs         int      `json:"verification_conditions"`
		Cuts        int      `json:"loop_cuts"`
		Invs        int      `json:"loop_invariants"`
		Inlined     []string `json:"inlined,omitempty"`
	}
	base := trusted
	if backends["lean"] > 0 {
		base = append(append([]string{}, base...), "Lean's kernel and its standard axioms, for the induction over steps and goroutines (engine/meta/RelyGuarantee.lean)")
	} else {
		base = append(append([]string{}, base...), "the induction over steps and goroutines behind the rely/guarantee rule (Lean could not be run to check engine/meta/RelyGuarantee.lean)")
	}
	if run != nil && len(run.Deps) > 0 {
		base = append(base, "the runtime's 32-bit random words are uniform and independent (only for the expected-cost reading of C14); that fastrand.Uint32n(4) turns one word into a value below 4 that is 0 for exactly a quarter of the words is proved from its source")
	} else {
		base = append(base, "fastrand.Uint32n(n) returns a value below n (and is assumed uniform for the expected-cost reading of C14)")
	}
	cov := map[string]interface{}{
		"obligations": len(obs), "discharged": disch, "verification_conditions": vcs,
		"checker_cmd":   fmt.Sprintf("/verif/check.sh %s %s", prop, tier),
		"trusted_base":  base,
		"discharged_by": backends,
		"solver": map[string]interface{}{"queries": atomic.LoadInt64(&stats.queries), "answered_from_identical_query_in_this_run": atomic.LoadInt64(&stats.cached),
			"solver_seconds": float64(atomic.LoadInt64(&stats.nanos)) / 1e9, "slowest_discharged_query_seconds": float64(atomic.LoadInt64(&stats.slowest)) / 1e9},
	}
	if run != nil && run.LoadErr == nil {
		has := map[string]int{}
		for _, o := range obs {
			if i := strings.IndexByte(o.Name, '/'); i > 0 {
				has[o.Name[:i]]++
			}
		}
		var fns []fnRep
		for _, r := range run.Units {
			if has[r.Unit.Name] > 0 {
				fns = append(fns, fnRep{r.Unit.Name, run.P.pos(r.Unit.Fn.Pos()), has[r.Unit.Name], r.VCs, r.Cuts, r.Invs, r.Inlined})
			}
		}
		nl := 0
		for _, o := range obs {
			if strings.HasPrefix(o.Name, "lemma:") {
				nl++
			}
		}
		cov["functions_under_contract"] = fns
		cov["functions_under_contract_count"] = len(fns)
		cov["lemmas"] = nl
		cov["source"] = "current tree of " + repoDir
		if prop == "C15" {
			cov["source"] = "sources regenerated by go run gen.go from the current tree of " + repoDir
		}
		var as []string
		seen := map[string]bool{}
		for _, o := range obs {
			// a few obligations written out
			k := o.Name
			if i := strings.IndexByte(k, '/'); i > 0 {
				k = k[i:]
			}
			if strings.HasPrefix(o.Name, "IntSet.") && !seen[k] && len(as) < 60 {
				seen[k] = true
				as = append(as, fmt.Sprintf("%s (%s, %d conditions)", o.Name, o.Pos, o.N))
			}
		}
		sort.Strings(as)
		cov["sample_obligations"] = as
	}
	if cross != nil {
		cov["second_back_end"] = cross
	}
	if extra != "" {
		cov["bounded_search_not_counted_as_proof"] = extra
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": wall.Seconds(), "violations": nv,
		"assumptions": base,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0644)
}
