package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func itoa(i int) string { return strconv.Itoa(i) }

const z3opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.array.extensional false)\n(set-option :smt.random_seed 1)\n"

var z3bin = "z3-new"

// statistics of this run
var stats struct {
	queries, cached, unsat, unknown, timeouts int64
	nanos, slowest                            int64
}

// runZ3 runs one complete script (without final check-sat) in a process of its own.
func runZ3(bin, script string, timeout time.Duration) (string, time.Duration) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, bin, "-in", "-smt2", "-T:"+itoa(int(timeout/time.Second)+1))
	cmd.Stdin = strings.NewReader(z3opts + script + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	r := strings.TrimSpace(out.String())
	if i := strings.LastIndexByte(r, '\n'); i >= 0 && !strings.Contains(r, "error") {
		r = r[i+1:]
	}
	d := time.Since(t0)
	atomic.AddInt64(&stats.queries, 1)
	atomic.AddInt64(&stats.nanos, int64(d))
	if r == "unsat" {
		atomic.AddInt64(&stats.unsat, 1)
	} else {
		atomic.AddInt64(&stats.unknown, 1)
	}
	return r, d
}

// runFP decides a script over floating-point numbers.
func runFP(script string) (bool, string) {
	r, out := runScript(z3bin, "(set-option :model.completion true)\n"+script+"(check-sat)\n(get-value (a b c))\n", 60)
	return r == "unsat", out
}

// runScript runs one complete script in a process of its own and returns the first line and everything it printed.
func runScript(bin, script string, secs int) (string, string) {
	cpu <- struct{}{}
	defer func() { <-cpu }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+5)*time.Second)
	defer cancel()
	t0 := time.Now()
	args := []string{"-in", "-smt2", "-T:" + itoa(secs)}
	if bin == "cvc5" {
		args = []string{"--lang", "smt2", "--tlimit=" + itoa(secs*1000)}
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.CombinedOutput()
	atomic.AddInt64(&stats.queries, 1)
	atomic.AddInt64(&stats.nanos, int64(time.Since(t0)))
	all := strings.TrimSpace(string(out))
	first := all
	if i := strings.IndexByte(all, '\n'); i >= 0 {
		first = all[:i]
	}
	if first == "unsat" {
		atomic.AddInt64(&stats.unsat, 1)
	} else {
		atomic.AddInt64(&stats.unknown, 1)
	}
	return first, all
}

// Solver is an assertion stack answered by a few incremental z3 processes that are brought up to date lazily.
// Answers are memoised by the text of the whole stack within a run: units whose verification conditions are
// textually identical share them.
type Solver struct {
	prelude string
	stack   []frame
	procs   []*proc
	TO      int // per-query limit in ms
}

type proc struct {
	s      *Solver
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	synced []string // text of each level as sent to the process
}

type frame struct {
	buf  strings.Builder
	hash [32]byte // hash of all lower levels
}

// at most this many queries run at a time in the whole program
var cpu = make(chan struct{}, runtime.NumCPU())

var workers = func() int {
	if n, err := strconv.Atoi(os.Getenv("SKV_WORKERS")); err == nil && n > 0 {
		return n
	}
	return 8
}()

func NewSolver(prelude string) *Solver {
	s := &Solver{prelude: prelude, TO: 10000}
	s.stack = append(s.stack, frame{hash: sha256.Sum256([]byte(prelude))})
	for i := 0; i < workers; i++ {
		s.procs = append(s.procs, &proc{s: s})
	}
	return s
}

func (s *Solver) Push() {
	t := &s.stack[len(s.stack)-1]
	h := sha256.New()
	h.Write(t.hash[:])
	io.WriteString(h, t.buf.String())
	var f frame
	h.Sum(f.hash[:0])
	s.stack = append(s.stack, f)
}

func (s *Solver) Pop() {
	s.stack = s.stack[:len(s.stack)-1]
	for _, p := range s.procs {
		for len(p.synced) > len(s.stack) {
			p.synced = p.synced[:len(p.synced)-1]
			p.send("(pop 1)\n")
		}
	}
}

func (s *Solver) Add(text string) {
	b := &s.stack[len(s.stack)-1].buf
	b.WriteString(text)
	b.WriteByte('\n')
}

func (s *Solver) Assert(f string) {
	if f != "true" {
		s.Add("(assert " + f + ")")
	}
}

func (s *Solver) Declare(name, sort string) { s.Add("(declare-const " + name + " " + sort + ")") }

func (p *proc) send(t string) { io.WriteString(p.in, t) }

func (p *proc) start() {
	p.cmd = exec.Command(z3bin, "-in", "-smt2")
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.cmd.Stderr = p.cmd.Stdout
	p.out = bufio.NewReader(o)
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	p.send(z3opts + fmt.Sprintf("(set-option :timeout %d)\n", p.s.TO) + p.s.prelude)
	p.synced = nil
}

func (s *Solver) Close() {
	for _, p := range s.procs {
		if p.cmd != nil {
			p.in.Close()
			p.cmd.Process.Kill()
			p.cmd.Wait()
			p.cmd = nil
		}
	}
}

func (p *proc) sync() {
	if p.cmd == nil {
		p.start()
	}
	for i := range p.s.stack {
		t := p.s.stack[i].buf.String()
		if i < len(p.synced) {
			if len(p.synced[i]) < len(t) {
				if i != len(p.synced)-1 {
					panic("sync: lower level grew")
				}
				p.send(t[len(p.synced[i]):])
				p.synced[i] = t
			}
			continue
		}
		p.send("(push 1)\n" + t)
		p.synced = append(p.synced, t)
	}
}

type memoEnt struct {
	done chan struct{}
	r    bool
}

var memoMu sync.Mutex
var memo = map[[32]byte]*memoEnt{}

// claim returns the answer for key, or (nil, ent) when the caller must compute it and call settle.
func claim(key [32]byte) (ans bool, ent *memoEnt) {
	memoMu.Lock()
	e, ok := memo[key]
	if !ok {
		e = &memoEnt{done: make(chan struct{})}
		memo[key] = e
		memoMu.Unlock()
		return false, e
	}
	memoMu.Unlock()
	<-e.done
	atomic.AddInt64(&stats.cached, 1)
	return e.r, nil
}

func settle(e *memoEnt, r bool) {
	e.r = r
	close(e.done)
}

func lookup(key [32]byte) (r, ok bool) {
	memoMu.Lock()
	e := memo[key]
	memoMu.Unlock()
	if e == nil {
		return false, false
	}
	select {
	case <-e.done:
		atomic.AddInt64(&stats.cached, 1)
		return e.r, true
	default:
		return false, false
	}
}

func (s *Solver) key(extra string) (key [32]byte) {
	t := &s.stack[len(s.stack)-1]
	hh := sha256.New()
	hh.Write(t.hash[:])
	io.WriteString(hh, t.buf.String())
	io.WriteString(hh, "\x00"+extra)
	hh.Sum(key[:0])
	return
}

// Unsat reports whether the stack together with extra is unsatisfiable.
func (s *Solver) Unsat(extra string) bool {
	return s.procs[0].query(extra, s.key(extra))
}

func (p *proc) query(extra string, key [32]byte) (r bool) {
	ans, ent := claim(key)
	if ent == nil {
		return ans
	}
	defer func() { settle(ent, r) }()
	cpu <- struct{}{}
	defer func() { <-cpu }()
	t0 := time.Now()
	p.sync()
	p.send("(push 1)\n" + extra + "\n(check-sat)\n(pop 1)\n")
	line := p.readLine()
	d := time.Since(t0)
	atomic.AddInt64(&stats.queries, 1)
	atomic.AddInt64(&stats.nanos, int64(d))
	switch line {
	case "unsat":
		atomic.AddInt64(&stats.unsat, 1)
	case "unknown", "sat":
		atomic.AddInt64(&stats.unknown, 1)
		if d > time.Duration(p.s.TO)*time.Millisecond*9/10 {
			atomic.AddInt64(&stats.timeouts, 1)
		}
	default:
		if f := os.Getenv("SKV_DUMP"); f != "" {
			os.WriteFile(f, []byte(p.s.text()+extra+"\n(check-sat)\n"), 0644)
		}
		panic("solver: " + line)
	}
	if line == "unsat" {
		for {
			m := atomic.LoadInt64(&stats.slowest)
			if int64(d) <= m || atomic.CompareAndSwapInt64(&stats.slowest, m, int64(d)) {
				break
			}
		}
	}
	return line == "unsat"
}

func (p *proc) readLine() string {
	l, err := p.out.ReadString('\n')
	if err != nil {
		panic("solver died: " + l)
	}
	return strings.TrimSpace(l)
}

// ProveAll answers several goals in the same context.
func (s *Solver) ProveAll(goals []string) []bool {
	res := make([]bool, len(goals))
	type job struct {
		k   int
		key [32]byte
	}
	var todo []job
	for k, g := range goals {
		if g == "true" {
			res[k] = true
			continue
		}
		key := s.key("(assert (not " + g + "))")
		if r, ok := lookup(key); ok {
			res[k] = r
			continue
		}
		todo = append(todo, job{k, key})
	}
	if len(todo) == 0 {
		return res
	}
	n := len(todo) / 4
	if n > len(s.procs) {
		n = len(s.procs)
	}
	if n < 1 {
		n = 1
	}
	ch := make(chan job, len(todo))
	for _, j := range todo {
		ch <- j
	}
	close(ch)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var fail interface{}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(p *proc) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					fail = r
					mu.Unlock()
				}
			}()
			for j := range ch {
				res[j.k] = p.query("(assert (not "+goals[j.k]+"))", j.key)
			}
		}(s.procs[i])
	}
	wg.Wait()
	if fail != nil {
		panic(fail)
	}
	return res
}

func (s *Solver) text() string {
	var b strings.Builder
	b.WriteString(z3opts + s.prelude)
	for i := range s.stack {
		b.WriteString(s.stack[i].buf.String())
	}
	return b.String()
}

// Prove reports whether goal follows from the stack.
func (s *Solver) Prove(goal string) bool {
	if goal == "true" {
		return true
	}
	return s.Unsat("(assert (not " + goal + "))")
}

// Script is the current stack with the negated goal, to be run on its own.
func (s *Solver) Script(goal string) string {
	return s.text() + "(assert (not " + goal + "))\n(check-sat)\n"
}
