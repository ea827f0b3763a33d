package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var bodyMu sync.Mutex

// A loop is cut at its header: its invariant is the conjunction of those instances of the templates in cands.go
// that hold on entry and are preserved by the body (Houdini). The header state is partitioned by the concrete
// part of the state (booleans, nil pointers, -1 sentinels, ghost counters).
type Loop struct {
	b       *ssa.BasicBlock
	frame   int
	body    map[*ssa.BasicBlock]bool
	phis    []*ssa.Phi
	nphi    int
	entry   *State
	fr      *Frame
	items   []*item
	cnt0    int
	stok    string
	cuts    map[string]*cut
	order   []string
	mod     map[string]bool
	ownW    bool
	unl     bool
	restart bool
	changed bool
	meas    map[string]bool
	arrived bool
	solo    bool // run the loop alone
	pos     token.Pos
}

type item struct {
	id   string
	kind string // int bool node elem arr set rset real flag bv opaque
	tok  string
	cell int
	path []string
	phi  int // -1
	get  func(st *State) Val
	set  func(st *State, v Val)
	sent bool // integer with a sentinel (-1 or 0) that is not counted up or down
	init Val
}

type cut struct {
	key   string
	vals  map[string]Val // concrete header values of items (nil: token)
	ghost State
	cands []*cand
	dirty bool
}

type cand struct {
	name, text string
	about      string // the node whose flags it is about
}

func kindOf(v Val) (string, string) {
	switch v.(type) {
	case VInt:
		return "int", "Int"
	case VBool:
		return "bool", "Bool"
	case VNode:
		return "node", "Node"
	case VVal:
		return "elem", "V"
	case VArr:
		return "arr", "(Array Int Node)"
	case VFlag:
		return "flag", ""
	case VBV:
		return "bv", "(_ BitVec 32)"
	case ghostTerm:
		return v.(ghostTerm).kind, v.(ghostTerm).sort
	}
	return "opaque", ""
}

type ghostTerm struct{ T, kind, sort string }

func termOf(v Val) string {
	switch v := v.(type) {
	case VInt:
		return v.T
	case VBool:
		return v.T
	case VNode:
		return v.T
	case VVal:
		return v.T
	case VArr:
		return v.T
	case VBV:
		return v.T
	case ghostTerm:
		return v.T
	}
	return ""
}

func mk(kind, sort, t string) Val {
	switch kind {
	case "int":
		return VInt{T: t}
	case "bool":
		return VBool{t}
	case "node":
		return VNode{t}
	case "elem":
		return VVal{t}
	case "arr":
		return VArr{t}
	case "bv":
		return VBV{t}
	}
	return ghostTerm{t, kind, sort}
}

func (x *Exec) buildItems(l *Loop, vals []Val) {
	for k, v := range vals {
		k := k
		it := &item{id: "phi" + itoa(k), phi: k, init: v}
		it.kind, _ = kindOf(v)
		it.sent = sentinel(l.phis[k])
		l.items = append(l.items, it)
	}
	var ids []int
	for c := range l.entry.cells {
		ids = append(ids, c)
	}
	sort.Ints(ids)
	for _, c := range ids {
		c := c
		var rec func(v Val, path []string)
		rec = func(v Val, path []string) {
			if s, ok := v.(VStruct); ok {
				for k, f := range s.F {
					rec(f, append(append([]string{}, path...), "."+itoa(k)))
				}
				return
			}
			it := &item{id: "cell" + itoa(c) + strings.Join(path, ""), phi: -1, cell: c, path: path, init: v, sent: true}
			it.kind, _ = kindOf(v)
			it.get = func(st *State) Val { r, _ := getPath(st.cells[c], path); return r }
			it.set = func(st *State, v Val) { st.cells[c], _ = setPath(st.cells[c], path, v) }
			l.items = append(l.items, it)
		}
		rec(l.entry.cells[c], nil)
	}
	g := func(id, kind, sort string, f func(st *State) *string) {
		it := &item{id: id, phi: -1, kind: kind, init: ghostTerm{*f(l.entry), kind, sort}}
		it.get = func(st *State) Val { return ghostTerm{*f(st), kind, sort} }
		it.set = func(st *State, v Val) { *f(st) = v.(ghostTerm).T }
		l.items = append(l.items, it)
	}
	const ns, rs = "(Array Node Bool)", "(Array Real Bool)"
	g("held", "set", ns, func(st *State) *string { return &st.held })
	g("myc", "set", ns, func(st *State) *string { return &st.myc })
	g("mym", "set", ns, func(st *State) *string { return &st.mym })
	g("visited", "rset", rs, func(st *State) *string { return &st.visited })
	g("last", "real", "Real", func(st *State) *string { return &st.last })
	g("gx", "gnode", "Node", func(st *State) *string { return &st.gx })
	g("la", "gnode", "Node", func(st *State) *string { return &st.la })
	g("lr", "gnode", "Node", func(st *State) *string { return &st.lr })
	g("lenRead", "gint", "Int", func(st *State) *string { return &st.lenRead })
	g("zeros", "gint", "Int", func(st *State) *string { return &st.zeros })
	if l.entry.hlf != "" {
		g("hlf", "gint", "Int", func(st *State) *string { return &st.hlf })
	}
	if x.u.Kind == "bv" && l.entry.bvLast != "" {
		g("bvOld", "gbv", "(_ BitVec 32)", func(st *State) *string { return &st.bvOld })
		g("bvNew", "gbv", "(_ BitVec 32)", func(st *State) *string { return &st.bvNew })
	}
	for k, it := range l.items {
		pre := map[string]string{"int": "i", "gint": "z", "bool": "b", "node": "p", "elem": "e", "arr": "a", "set": "g", "rset": "G", "real": "q", "gnode": "c", "flag": "f", "bv": "w", "gbv": "W", "opaque": "o"}[it.kind]
		it.tok = fmt.Sprintf("%s%d_%d", pre, l.cnt0, k)
	}
	l.stok = fmt.Sprintf("S%d", l.cnt0)
}

// deferItem: argument j of the deferred call k is part of the state at the header.
func (l *Loop) deferItem(st *State, k, j int) {
	v := st.defers[k].argOf(j)
	id := fmt.Sprintf("defer%d.%d", k, j)
	if v == nil || l.mod[id] {
		return
	}
	in := st.defers[k].in
	it := &item{id: id, phi: -1, init: v}
	it.kind, _ = kindOf(v)
	it.get = func(st *State) Val {
		if k < len(st.defers) && st.defers[k].in == in {
			if v := st.defers[k].argOf(j); v != nil {
				return v
			}
		}
		return VOpaque{"absent"}
	}
	it.set = func(st *State, v Val) {
		if k < len(st.defers) && st.defers[k].in == in {
			ds := append([]deferRec{}, st.defers...)
			ds[k] = ds[k].withArg(j, v)
			st.defers = ds
		}
	}
	it.tok = fmt.Sprintf("%s%d_%d", map[string]string{"int": "i", "node": "p", "arr": "a"}[it.kind], l.cnt0, len(l.items))
	l.items = append(l.items, it)
	l.mod[id] = true
	l.restart = true
}

// sentinel: an integer that is -1 or 0 on some edge and is not computed from itself
func sentinel(p *ssa.Phi) bool {
	has := false
	seen := map[ssa.Value]bool{p: true}
	var stepped func(v ssa.Value, op bool) bool
	stepped = func(v ssa.Value, op bool) bool {
		if v == p {
			return op
		}
		if seen[v] {
			return false
		}
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value != nil && !op {
				if s := v.Value.ExactString(); s == "-1" || s == "0" {
					has = true
				}
			}
		case *ssa.Phi:
			seen[v] = true
			for _, e := range v.Edges {
				if stepped(e, op) {
					return true
				}
			}
		case *ssa.BinOp:
			seen[v] = true
			return stepped(v.X, true) || stepped(v.Y, true)
		case *ssa.Convert:
			return stepped(v.X, op)
		}
		return false
	}
	for _, e := range p.Edges {
		if stepped(e, false) {
			return false
		}
	}
	return has
}

// concrete returns the value to keep concretely in the partition, or nil
func concrete(it *item, v Val) Val {
	switch v := v.(type) {
	case VBool:
		return v
	case VOpaque:
		if v.T == "absent" {
			return v
		}
	case VNode:
		if v.T == "nil" {
			return v
		}
	case VInt:
		if it.sent && v.Const && (v.C == -1 || v.C == 0 && it.phi >= 0) {
			return v
		}
	}
	return nil
}

func (l *Loop) isMod(it *item) bool { return it.phi >= 0 || l.mod[it.id] }

func (l *Loop) current(it *item, vals []Val, st *State) Val {
	if it.phi >= 0 {
		return vals[it.phi]
	}
	return it.get(st)
}

func (x *Exec) loop(fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, vals []Val, nphi int, st *State) {
	l := &Loop{b: b, frame: fr.id, body: body, phis: phis, nphi: nphi, entry: st, fr: fr, mod: map[string]bool{}, cnt0: st.cnt, meas: nil}
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			l.pos = in.Pos()
			break
		}
	}
	st.cnt++
	x.buildItems(l, vals)
	outer := st.mode
restart:
	l.cuts, l.order, l.restart = map[string]*cut{}, nil, false
	for round := 0; ; round++ {
		l.changed = false
		x.sol.Push()
		es := st.clone()
		es.mode = l
		es.ownWrites, es.unlks = 0, 0
		x.arriveInfer(l, vals, es, nil)
		x.sol.Pop()
		for k := 0; k < len(l.order) && !l.restart; k++ {
			c := l.cuts[l.order[k]]
			if !c.dirty {
				continue
			}
			c.dirty = false
			x.runCut(l, c, st, l)
		}
		if l.restart {
			goto restart
		}
		if !l.changed {
			break
		}
		if len(l.order) > 40 || round > 60 {
			x.unsupported(st, "loop invariant inference", l.pos)
			return
		}
	}
	x.cutsN += len(l.order)
	if outer == nil {
		for _, k := range l.order {
			x.candsN += len(l.cuts[k].cands)
			if os.Getenv("SKV_INV") != "" {
				fmt.Fprintf(os.Stderr, "loop %s %s cut %s\n", x.u.Name, x.p.pos(l.pos), k)
				for _, c := range l.cuts[k].cands {
					fmt.Fprintf(os.Stderr, "    %s: %s\n", c.name, c.text)
				}
			}
		}
	}
	for _, k := range l.order {
		x.runCut(l, l.cuts[k], st, outer)
	}
	if outer != nil || !l.arrived || x.dead || l.mod["zeros"] {
		return
	}
	if x.u.Reader {
		ok := len(l.meas) > 0
		x.vcs++
		x.note("loop-moves-forward", []string{"C08", "C15"}, l.pos, ok, "no measure of the loop is shown to advance on every iteration", "")
		return
	}
	if len(l.meas) > 0 || x.u.Kind != "op" && x.u.Kind != "bv" {
		return
	}
	// a loop that may go round again without advancing waits or retries: alone, it does not
	x.note("finishes-alone", []string{"C07", "C15"}, l.pos, true, "", "")
	for _, k := range l.order {
		x.runCut(l, l.cuts[k], st, &Loop{b: l.b, frame: l.frame, body: l.body, solo: true})
	}
}

// runCut explores the loop body (and, outside inference for this loop, its exits) from an arbitrary header state.
func (x *Exec) runCut(l *Loop, c *cut, base *State, mode *Loop) {
	x.sol.Push()
	defer x.sol.Pop()
	st := base.clone()
	st.mode = mode
	st.na, st.nr, st.dlen, st.inc, st.stopped, st.drawDone, st.bvWrites = c.ghost.na, c.ghost.nr, c.ghost.dlen, c.ghost.inc, c.ghost.stopped, c.ghost.drawDone, c.ghost.bvWrites
	st.drawn, st.retried, st.found = c.ghost.drawn, c.ghost.retried, "" // without draws in the loop, the entry's
	st.search = nil
	st.bvLast = ""
	if l.entry.bvLast != "" {
		st.bvLast = c.ghost.bvLast
	}
	st.defers = c.ghost.defers
	f := l.fr.clone()
	vals := make([]Val, l.nphi)
	for _, it := range l.items {
		if !l.isMod(it) {
			continue
		}
		v := c.vals[it.id]
		if v == nil {
			kind, sort := kindOf(it.init)
			switch kind {
			case "opaque":
				v = VOpaque{"loop"}
				if valKey(it.init) != "" && !l.mod[it.id+"!"] {
					v = it.init
				}
			case "flag":
				x.sol.Declare(it.tok+"f", "Bool")
				x.sol.Declare(it.tok+"m", "Bool")
				fl := it.init.(VFlag)
				fl.Fl, fl.Mk = it.tok+"f", it.tok+"m"
				v = fl
			default:
				x.sol.Declare(it.tok, sort)
				v = mk(kind, sort, it.tok)
			}
		}
		if it.phi >= 0 {
			vals[it.phi] = v
		} else {
			it.set(st, v)
		}
	}
	x.sol.Declare(l.stok, "S")
	x.sol.Assert("(st " + l.stok + ")")
	hh, cc, mm := base.held, base.myc, base.mym
	if l.ownW {
		hh, cc, mm = "none", "none", "none"
	} else if l.unl {
		hh = "none"
	}
	x.sol.Assert(ap("rely", base.s, l.stok, hh, cc, mm))
	st.s = l.stok
	if base.solo && !l.ownW {
		x.sol.Assert(eq(base.s, l.stok))
	}
	for _, cd := range c.cands {
		x.sol.Assert(cd.text)
		if cd.about != "" {
			x.touch(st, cd.about)
		}
	}
	st.ownWrites, st.unlks = 0, 0
	st.cnt = l.cnt0 + 1
	if mode != nil && mode.solo && mode.b == l.b && mode.frame == l.frame {
		x.alone(st)
	}
	for k, ph := range l.phis {
		f.env[ph] = vals[k]
	}
	f.loops[l.b] = l
	st.prov = map[string][2]string{}
	for k, v := range base.prov {
		st.prov[k] = v
	}
	f.cuts[l.b] = c
	x.run(f, l.b, l.nphi, st)
}

func (x *Exec) arrive(l *Loop, vals []Val, st *State, fr *Frame, from *ssa.BasicBlock) {
	if st.mode != nil && st.mode.solo && st.mode.b == l.b && st.mode.frame == l.frame {
		if x.sol.Unsat("") {
			return
		}
		if st.attempt > 0 {
			x.vcs++
			x.note("finishes-alone", []string{"C07", "C15"}, l.pos, false, "with no other operation in progress the loop may still go round again", x.sol.Script("false"))
			return
		}
		// what it carried from before may be outdated, so one more round is fine
		s2, f2 := st.clone(), fr.clone()
		s2.attempt++
		for k, ph := range l.phis {
			f2.env[ph] = vals[k]
		}
		x.run(f2, l.b, l.nphi, s2)
		return
	}
	switch st.mode {
	case l:
		x.arriveInfer(l, vals, st, fr)
	case nil:
		x.splitBools(l, vals, st, 0, func(vals []Val, st *State) { x.arriveCheck(l, vals, st, fr) })
	}
}

func (x *Exec) keyOf(l *Loop, vals []Val, st *State) (string, map[string]Val) {
	var b strings.Builder
	fmt.Fprintf(&b, "na%d nr%d len%d", st.na, st.nr, st.dlen)
	if st.inc {
		b.WriteString(" inc")
	}
	if st.stopped {
		b.WriteString(" stopped")
	}
	if st.drawDone {
		b.WriteString(" drawn")
	}
	if st.drawn && l.mod["zeros"] {
		b.WriteString(" height")
		if x.attemptFailed(st) {
			b.WriteString(" retried")
		}
	}
	if st.bvWrites > 0 {
		fmt.Fprintf(&b, " w%d", st.bvWrites)
	}
	if l.entry.bvLast != "" {
		b.WriteString(" last:" + st.bvLast)
	}
	for _, d := range st.defers[min(len(st.defers), len(l.entry.defers)):] {
		b.WriteString(" defer:" + d.shape())
	}
	cv := map[string]Val{}
	for _, it := range l.items {
		if !l.isMod(it) {
			continue
		}
		if v := concrete(it, l.current(it, vals, st)); v != nil {
			cv[it.id] = v
			fmt.Fprintf(&b, " %s=%s", it.id, termOf(v))
		}
	}
	return b.String(), cv
}

// splitBools makes boolean items concrete.
func (x *Exec) splitBools(l *Loop, vals []Val, st *State, from int, k func(vals []Val, st *State)) {
	for n := from; n < len(l.items); n++ {
		it := l.items[n]
		if !l.isMod(it) {
			continue
		}
		v, ok := l.current(it, vals, st).(VBool)
		if !ok || v.T == "true" || v.T == "false" {
			continue
		}
		for _, side := range []string{"true", "false"} {
			c := v.T
			if side == "false" {
				c = not(c)
			}
			x.branch(c, func() {
				v2 := append([]Val{}, vals...)
				s2 := st.clone()
				if it.phi >= 0 {
					v2[it.phi] = VBool{side}
				} else {
					it.set(s2, VBool{side})
				}
				x.splitBools(l, v2, s2, n+1, k)
			})
		}
		return
	}
	k(vals, st)
}

func (x *Exec) arriveInfer(l *Loop, vals []Val, st *State, fr *Frame) {
	if l.restart {
		return
	}
	if n0 := len(l.entry.defers); len(st.defers) > n0 {
		if len(st.defers) > n0+2 {
			x.unsupported(st, "calls deferred again and again in a loop", l.pos)
			panic(engineFail{"calls deferred again and again in a loop"})
		}
		for k := n0; k < len(st.defers); k++ {
			for j := range st.defers[k].args {
				l.deferItem(st, k, j)
			}
		}
		if l.restart {
			return
		}
	}
	if fr != nil {
		// what did this iteration change?
		for _, it := range l.items {
			if l.isMod(it) {
				if it.kind == "opaque" && !l.mod[it.id+"!"] && valKey(l.current(it, vals, st)) != valKey(it.init) {
					l.mod[it.id+"!"] = true
					l.restart = true
				}
				continue
			}
			if valKey(it.get(st)) != valKey(it.init) {
				l.mod[it.id] = true
				l.restart = true
			}
		}
		if st.ownWrites > 0 && !l.ownW {
			l.ownW, l.restart = true, true
		}
		if st.unlks > 0 && !l.unl {
			l.unl, l.restart = true, true
		}
		if l.restart {
			return
		}
	}
	x.splitBools(l, vals, st, 0, func(vals []Val, st *State) { x.arriveInfer2(l, vals, st) })
}

func (l *Loop) renaming(vals []Val, st *State, cv map[string]Val) (map[string]string, bool) {
	m := map[string]string{l.stok: st.s}
	for _, it := range l.items {
		if !l.isMod(it) || it.kind == "opaque" {
			continue
		}
		v := l.current(it, vals, st)
		k, _ := kindOf(v)
		if k != it.kind {
			if it.kind == "elem" || k == "elem" {
				return nil, false
			}
			if !(k == "opaque") {
				return nil, false
			}
			continue
		}
		if k == "flag" {
			continue
		}
		m[it.tok] = termOf(v)
	}
	return m, true
}

func (x *Exec) arriveInfer2(l *Loop, vals []Val, st *State) {
	key, cv := x.keyOf(l, vals, st)
	c := l.cuts[key]
	lk := fmt.Sprintf("%p/%d/%t/%s/", l.b, l.cnt0, st.solo, key)
	if c == nil {
		c = &cut{key: key, vals: cv, ghost: *st, dirty: true}
		// a candidate that failed in an earlier, stronger context is not tried again
		for _, cd := range x.genCands(l, c, vals, st) {
			if !x.failed[lk+cd.text] {
				c.cands = append(c.cands, cd)
			}
		}
		l.cuts[key] = c
		l.order = append(l.order, key)
		l.changed = true
	}
	ren, ok := l.renaming(vals, st, cv)
	if !ok {
		if len(c.cands) > 0 {
			c.cands = nil
			c.dirty, l.changed = true, true
		}
		return
	}
	texts := make([]string, len(c.cands))
	for k, cd := range c.cands {
		texts[k] = renameVars(cd.text, ren)
	}
	alive := c.cands[:0:0]
	var bad map[int]bool
	if os.Getenv("SKV_PROF") != "" {
		bad = map[int]bool{}
		for k, tx := range texts {
			t0 := time.Now()
			ok := x.sol.Prove(tx)
			d := time.Since(t0)
			r := prof[c.cands[k].name]
			if r == nil {
				r = &profRec{}
				prof[c.cands[k].name] = r
			}
			if ok {
				r.ok++
				r.tok += d
			} else {
				r.bad++
				r.tbad += d
				bad[k] = true
			}
		}
	} else {
		bad = x.failing(texts)
	}
	for k, cd := range c.cands {
		if !bad[k] {
			alive = append(alive, cd)
		} else {
			x.failed[lk+cd.text] = true
		}
	}
	if len(alive) != len(c.cands) {
		c.cands = alive
		c.dirty, l.changed = true, true
	}
}

// failing returns the indices of goals that do not follow from the current context.
func (x *Exec) failing(goals []string) map[int]bool {
	bad := map[int]bool{}
	for k, ok := range x.sol.ProveAll(goals) {
		if !ok {
			bad[k] = true
		}
	}
	return bad
}

type profRec struct {
	ok, bad   int
	tok, tbad time.Duration
}

var prof = map[string]*profRec{}

func (x *Exec) arriveCheck(l *Loop, vals []Val, st *State, fr *Frame) {
	if x.dead {
		return
	}
	l.arrived = true
	key, cv := x.keyOf(l, vals, st)
	c := l.cuts[key]
	if c == nil {
		x.oblige(st, "loop-invariant", allProps, "false", l.pos)
		return
	}
	ren, ok := l.renaming(vals, st, cv)
	if !ok && len(c.cands) > 0 {
		x.oblige(st, "loop-invariant", allProps, "false", l.pos)
		return
	}
	for _, cd := range c.cands {
		x.vcs++
		g := renameVars(cd.text, ren)
		ok := x.sol.Prove(g)
		sc := ""
		if !ok {
			sc = x.sol.Script(g)
		}
		x.note("loop-invariant", allProps, l.pos, ok, "not preserved: "+cd.name, sc)
	}
	// measures
	hc := fr.cuts[l.b]
	hv := func(it *item) string {
		if v := hc.vals[it.id]; v != nil {
			return termOf(v)
		}
		return it.tok
	}
	var ints, nodes []*item
	for _, it := range l.items {
		if strings.HasPrefix(it.id, "defer") {
			continue
		}
		if l.isMod(it) && it.kind == "int" {
			ints = append(ints, it)
		}
		if l.isMod(it) && it.kind == "node" {
			nodes = append(nodes, it)
		}
	}
	got := map[string]bool{}
	nodeInc := map[string]bool{}
	for _, n := range nodes {
		o, w := hv(n), termOf(l.current(n, vals, st))
		if o != "nil" && x.sol.Prove(and(not(eq(o, "nil")), or(eq(w, "nil"), op2s("<", ap("rk", o), ap("rk", w))))) {
			nodeInc[n.id] = true
			got["-/"+n.id] = true
		}
	}
	for _, it := range ints {
		o, w := hv(it), termOf(l.current(it, vals, st))
		for _, up := range []bool{true, false} {
			lt, bound, le := op2s("<", o, w), op2s("<=", w, itoa(x.p.MaxLevel)), op2s("<=", o, w)
			id := it.id + "+"
			if !up {
				lt, bound, le = op2s("<", w, o), op2s("<=", "(- 1)", w), op2s("<=", w, o)
				id = it.id + "-"
			}
			if x.sol.Prove(and(lt, bound)) {
				got[id] = true
				for _, n := range nodes {
					got[id+"/"+n.id] = true
				}
			} else if len(nodeInc) > 0 && x.sol.Prove(and(le, bound)) {
				for n := range nodeInc {
					got[id+"/"+n] = true
				}
			}
		}
	}
	if l.meas == nil {
		l.meas = map[string]bool{}
		for k := range got {
			l.meas[k] = true
		}
	} else {
		for k := range l.meas {
			if !got[k] {
				delete(l.meas, k)
			}
		}
	}
	if x.u.Reader {
		return
	}
	bounded := false
	for k := range got {
		if !strings.HasPrefix(k, "-/") && !strings.Contains(k, "/") {
			bounded = true
		}
	}
	if !bounded {
		if st.inc {
			x.oblige(st, "no-waiting-while-half-visible", []string{"C07", "C15"}, "false", l.pos)
		}
		if st.held != "none" {
			x.oblige(st, "no-waiting-with-locks", []string{"C07", "C15"}, fmt.Sprintf("(forall ((n Node)) (! (=> (select %s n) (select %s n)) :pattern ((select %s n))))", st.held, st.mym, st.held), l.pos)
		}
	}
}
