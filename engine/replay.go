package main

import (
	"bytes"
	"context"
	"embed"
	"encoding/binary"
	"fmt"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The bounded search for a failing execution. It compiles the sources of the package, with the imports of sync,
// sync/atomic and fastrand redirected to a scheduler, and runs them under many schedules, tower heights and element
// values. It only ever adds a concrete failing execution to a report; it decides nothing by itself.

//go:embed harness/*.go.txt
var harnessFS embed.FS

// constructors of each set type
var ctorsOf = map[string][]string{
	"FuncSet": {"NewFunc", "NewFloat32", "NewFloat64Desc"}, "OrderedSet": {"New"}, "OrderedSetDesc": {"NewDesc"},
}

func entriesFor(prop string, failed []RepOb) []string {
	n := map[string]int{}
	for _, o := range failed {
		u := o.Name
		if i := strings.IndexByte(u, '/'); i > 0 {
			u = u[:i]
		}
		if strings.HasPrefix(u, "New") || strings.HasPrefix(u, "ctor") {
			for _, f := range strings.FieldsFunc(u, func(r rune) bool {
				return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9')
			}) {
				if strings.HasPrefix(f, "New") {
					n[f] += 1
				}
			}
			continue
		}
		if i := strings.IndexByte(u, '.'); i > 0 && strings.Contains(u[:i], "Set") {
			if l := ctorsOf[u[:i]]; l != nil {
				for _, c := range l {
					n[c]++
				}
			} else {
				n["New"+strings.Replace(u[:i], "Set", "", 1)]++
			}
		}
	}
	def := []string{"NewInt64", "NewFunc", "New", "NewStringDesc"}
	if prop == "C11" {
		def = []string{"NewFloat32", "NewFloat64", "NewFloat32Desc", "NewFloat64Desc"}
	}
	if prop == "C12" || prop == "C15" {
		def = allEntries
	}
	var es []string
	for c := range n {
		for _, a := range allEntries {
			if a == c {
				es = append(es, c)
			}
		}
	}
	sort.Strings(es)
	if len(es) == 0 || len(es) > 12 {
		return def
	}
	return es
}

var allEntries = []string{"NewInt64", "NewInt64Desc", "NewInt", "NewIntDesc", "NewInt32", "NewInt32Desc", "NewUint64", "NewUint64Desc", "NewUint", "NewUintDesc",
	"NewUint32", "NewUint32Desc", "NewString", "NewStringDesc", "NewFunc", "New", "NewDesc", "NewFloat32", "NewFloat32Desc", "NewFloat64", "NewFloat64Desc"}

func goCmd(ctx context.Context, dir string, args ...string) *exec.Cmd {
	c := exec.CommandContext(ctx, "go", args...)
	c.Dir = dir
	c.Env = goEnv()
	return c
}

// buildHarness compiles the search program for the sources in dir; it returns the path of the program.
func buildHarness(dir, to string, race bool) (string, error) {
	os.MkdirAll(to, 0755)
	mod := "skipset"
	if b, err := os.ReadFile(filepath.Join(dir, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
				mod = strings.Trim(f[1], `"`)
			}
		}
	}
	p, err := loadPkg(dir)
	if err != nil {
		return "", err
	}
	ctx := build.Default
	ents, err := os.ReadDir(dir)
	if err != nil {
		return "", err
	}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return "", err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, n, src, parser.ImportsOnly)
		if err != nil {
			return "", err
		}
		for i := len(f.Imports) - 1; i >= 0; i-- {
			im := f.Imports[i]
			path, _ := strconv.Unquote(im.Path.Value)
			repl := ""
			switch {
			case path == "sync":
				repl = mod + "/zzsync"
			case path == "sync/atomic":
				repl = mod + "/zzatomic"
			case strings.HasSuffix(path, "/fastrand"):
				repl = mod + "/zzfastrand"
			default:
				continue
			}
			a, b := fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset
			src = []byte(string(src[:a]) + strconv.Quote(repl) + string(src[b:]))
		}
		if err := os.WriteFile(filepath.Join(to, n), src, 0644); err != nil {
			return "", err
		}
	}
	for _, h := range []struct{ f, d string }{{"sched", "zzsched"}, {"sync", "zzsync"}, {"atomic", "zzatomic"}, {"fastrand", "zzfastrand"}, {"main", "zzmain"}} {
		b, err := harnessFS.ReadFile("harness/" + h.f + ".go.txt")
		if err != nil {
			return "", err
		}
		os.MkdirAll(filepath.Join(to, h.d), 0755)
		if err := os.WriteFile(filepath.Join(to, h.d, h.f+".go"), bytes.ReplaceAll(b, []byte("VMOD"), []byte(mod)), 0644); err != nil {
			return "", err
		}
	}
	hf, err := helperFile(p)
	if err != nil {
		return "", err
	}
	os.WriteFile(filepath.Join(to, "zz_helper.go"), []byte(hf), 0644)
	os.WriteFile(filepath.Join(to, "go.mod"), []byte("module "+mod+"\n\ngo 1.18\n"), 0644)
	bin := filepath.Join(to, "zz.bin")
	args := []string{"build", "-o", bin}
	if race {
		args = append(args, "-race")
	}
	c, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	out, err := goCmd(c, to, append(args, "./zzmain")...).CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

// helperFile generates the in-package functions that walk the raw lists.
func helperFile(p *Pkg) (string, error) {
	var b strings.Builder
	full, ok1 := p.constU32("fullyLinked")
	marked, ok2 := p.constU32("marked")
	if !ok1 || !ok2 {
		return "", fmt.Errorf("flag constants not found")
	}
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"fmt\"\n\t\"unsafe\"\n)\n\nconst (\n\tZFull uint32 = %d\n\tZMarked uint32 = %d\n\tZMax = %d\n)\n", p.Types.Name(), full, marked, p.MaxLevel)
	for _, v := range p.Variants {
		sst := v.Set.Underlying().(*types.Struct)
		nst := v.Node.Underlying().(*types.Struct)
		f := map[string]string{}
		for i, r := range v.SetRole {
			f["s."+r] = sst.Field(i).Name()
		}
		base, extra := "", ""
		for i, r := range v.NodRole {
			f["n."+r] = nst.Field(i).Name()
			if r == "next" {
				ost, ok := nst.Field(i).Type().Underlying().(*types.Struct)
				if !ok {
					return "", fmt.Errorf("next is no struct")
				}
				for j := 0; j < ost.NumFields(); j++ {
					switch ost.Field(j).Type().Underlying().(type) {
					case *types.Array:
						base = ost.Field(j).Name()
					case *types.Pointer:
						extra = ost.Field(j).Name()
					}
				}
			}
		}
		for _, k := range []string{"s.header", "n.next", "n.level", "n.flags", "n.value"} {
			if f[k] == "" {
				return "", fmt.Errorf("%s: field for %s not found", v.Name, k)
			}
		}
		tp, ta, elem := "", "", types.TypeString(v.ValType, func(*types.Package) string { return "" })
		if tps := v.Set.TypeParams(); tps != nil && tps.Len() > 0 {
			cons := types.TypeString(tps.At(0).Constraint(), func(*types.Package) string { return "" })
			elem = "E"
			tp, ta = "[E "+cons+"]", "[E]"
		}
		node := v.Node.Obj().Name() + ta
		fmt.Fprintf(&b, `
//go:norace
func ZWalk%s%s(z interface{}, f func(level int, id uintptr, v %s, h int, fl uint32) bool) string {
	s := z.(*%s%s)
	for l := 0; l < %d; l++ {
		x := s.%s
		for c := 0; ; c++ {
			var q unsafe.Pointer
			if l < %d {
				q = x.%s.%s[l]
			} else {
				if x.%s.%s == nil {
					return fmt.Sprintf("a node of height %%d, which has no slot for level %%d, is linked there", x.%s, l)
				}
				q = x.%s.%s[l-%d]
			}
			if q == nil {
				break
			}
			x = (*%s)(q)
			if c > 1000000 {
				return fmt.Sprintf("the list of level %%d is a cycle", l)
			}
			if !f(l, uintptr(q), x.%s, int(x.%s), *(*uint32)(unsafe.Pointer(&x.%s))) {
				return ""
			}
		}
	}
	return ""
}
`, v.Name, tp, elem, v.Set.Obj().Name(), ta, p.MaxLevel, f["s.header"], p.Op1, f["n.next"], base, f["n.next"], extra, f["n.level"], f["n.next"], extra, p.Op1,
			node, f["n.value"], f["n.level"], f["n.flags"])
	}
	return b.String(), nil
}

type searchOut struct {
	found bool
	text  string
	seed  uint64
	runs  int
	err   string
}

// realRace: both accesses of the reported race are made by the package, not by the search program around it.
func realRace(t string) bool {
	ls := strings.Split(t, "\n")
	n, good := 0, 0
	for i, l := range ls {
		if !strings.Contains(l, " at 0x") || !strings.Contains(l, " by ") {
			continue
		}
		n++
		for j := i + 1; j < len(ls) && strings.HasPrefix(ls[j], "  "); j++ {
			if strings.HasPrefix(ls[j], "      ") || strings.Contains(ls[j], "/zzatomic.") || strings.Contains(ls[j], "/zzsync.") || strings.HasPrefix(ls[j], "  runtime.") ||
				strings.HasPrefix(ls[j], "  sync") {
				continue
			}
			if !strings.Contains(ls[j], "/zzsched.") && !strings.HasPrefix(ls[j], "  main.") {
				good++
			}
			break
		}
	}
	return n == 2 && good == 2
}

// runSearch runs one process of the search program.
func runSearch(parent context.Context, bin, prop, entries string, seed uint64, secs float64, race, only bool, status string) (o searchOut) {
	ctx, cancel := context.WithTimeout(parent, time.Duration((secs+45)*float64(time.Second)))
	defer cancel()
	args := []string{"-prop", prop, "-entries", entries, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(secs), "-status", status}
	if race {
		args = append(args, "-race")
	}
	if only {
		args = append(args, "-only")
	}
	c := exec.CommandContext(ctx, bin, args...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	c.Env = append(goEnv(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=2GiB")
	err := c.Run()
	o.seed = seed
	if b, e := os.ReadFile(status); e == nil && len(b) == 8 {
		o.seed = binary.LittleEndian.Uint64(b)
	}
	o.text = out.String()
	code := 0
	if c.ProcessState != nil {
		code = c.ProcessState.ExitCode()
	}
	switch {
	case err == nil:
		fmt.Sscanf(o.text, "runs %d", &o.runs)
	case code == 3, code == 66 && race && realRace(o.text):
		o.found = true
	default:
		o.err = fmt.Sprintf("search process ended with %v at seed %d: %.400s", err, o.seed, o.text)
	}
	return
}

// searchFailure looks for a concrete failing input or schedule of the property in the sources in dir.
func searchFailure(prop, tier string, seed int, dir, work, outDir string, failed []RepOb) (bool, string) {
	race := prop == "C10"
	bin, err := buildHarness(dir, filepath.Join(work, "harness"), race)
	if err != nil {
		return false, "bounded search: the search program could not be built for these sources: " + err.Error()
	}
	secs := 60.0
	if tier == "thorough" {
		secs = 300
	}
	if s, err := strconv.ParseFloat(os.Getenv("SKV_SECS"), 64); err == nil {
		secs = s
	}
	names := entriesFor(prop, failed)
	const procs = 8
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	res := make([]searchOut, procs)
	var wg sync.WaitGroup
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			// each process starts at another constructor
			rot := append(append([]string{}, names[k%len(names):]...), names[:k%len(names)]...)
			res[k] = runSearch(ctx, bin, prop, strings.Join(rot, ","), uint64(seed)*1000003+uint64(k)*100000000+1, secs, race, false, filepath.Join(work, fmt.Sprintf("status%d", k)))
			if !res[k].found {
				return
			}
			cancel()
			res[k].text = fmt.Sprintf("failing execution (bounded search over the real code):\n%s\nreproduce on the same sources with: %s explore %s %s %d\n",
				res[k].text, filepath.Join(root, "bin", "skverif"), prop, strings.Join(rot, ","), res[k].seed)
		}(k)
	}
	wg.Wait()
	runs, errs := 0, ""
	for _, r := range res {
		if r.found {
			return true, r.text
		}
		runs += r.runs
		if r.err != "" {
			errs = "; " + r.err
		}
	}
	return false, fmt.Sprintf("bounded search: %d executions of %s under chosen schedules and heights, no failure of %s among them%s", runs, strings.Join(names, ", "), prop, errs)
}

// exploreOne reruns one seed of the search.
func exploreOne(prop, entries string, seed uint64) int {
	work, err := os.MkdirTemp("", "skverif-explore-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	dir := repoDir
	if prop == "C15" {
		dir = filepath.Join(work, "gen")
		os.MkdirAll(dir, 0755)
		if out, err := regenerate(dir); err != nil {
			fmt.Println(out, err)
			return 1
		}
	}
	bin, err := buildHarness(dir, filepath.Join(work, "harness"), prop == "C10")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	o := runSearch(context.Background(), bin, prop, entries, seed, 60, prop == "C10", true, filepath.Join(work, "status"))
	fmt.Println(o.text, o.err)
	if o.found {
		return 1
	}
	return 0
}
