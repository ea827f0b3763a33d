package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// genCands instantiates the invariant templates over the terms live at a loop header.
func (x *Exec) genCands(l *Loop, c *cut, vals []Val, st *State) []*cand {
	var out []*cand
	seen := map[string]bool{}
	hereM := map[string]string{}
	for _, it := range l.items {
		if l.isMod(it) && it.kind == "int" {
			hereM[it.tok] = termOf(l.current(it, vals, st))
		}
	}
	here := func(t string) string { return renameVars(t, hereM) }
	add := func(name, text string) {
		if text == "true" || seen[text] {
			return
		}
		seen[text] = true
		out = append(out, &cand{name: name, text: text})
	}
	s := l.stok
	M := itoa(x.p.MaxLevel)
	var IM, NM, AM, AE []string
	entryInt := map[string]string{}
	sents := map[string]bool{}
	heldMod, mycMod, mymMod, visMod := false, false, false, false
	held, myc, mym, visited, last, gx, lr, la := st.held, st.myc, st.mym, st.visited, st.last, st.gx, st.lr, st.la
	zeros, zerosMod := st.zeros, false
	hlf, hlfMod := st.hlf, false
	baseInt := map[string]bool{}
	for _, it := range l.items {
		m := l.isMod(it) && c.vals[it.id] == nil
		if !l.isMod(it) {
			switch it.kind {
			case "arr":
				AE = append(AE, termOf(it.init))
			case "set":
				switch it.id {
				case "held":
					held = termOf(it.init)
				case "myc":
					myc = termOf(it.init)
				case "mym":
					mym = termOf(it.init)
				}
			case "rset":
				visited = termOf(it.init)
			case "real":
				last = termOf(it.init)
			case "int":
				baseInt[termOf(it.init)] = true
			}
			continue
		}
		if !m {
			continue
		}
		switch it.kind {
		case "int":
			IM = append(IM, it.tok)
			sents[it.tok] = it.sent
			entryInt[it.tok] = termOf(it.init)
		case "node":
			NM = append(NM, it.tok)
		case "arr":
			AM = append(AM, it.tok)
		case "set":
			switch it.id {
			case "held":
				held, heldMod = it.tok, true
			case "myc":
				myc, mycMod = it.tok, true
			case "mym":
				mym, mymMod = it.tok, true
			}
		case "rset":
			visited, visMod = it.tok, true
		case "real":
			last = it.tok
		case "gnode":
			switch it.id {
			case "gx":
				gx = it.tok
			case "lr":
				lr = it.tok
			case "la":
				la = it.tok
			}
		case "gint":
			if it.id == "zeros" {
				zeros, zerosMod = it.tok, true
			}
			if it.id == "hlf" {
				hlf, hlfMod = it.tok, true
			}
		}
	}
	_ = mycMod
	if x.u.Kind == "ctor" {
		return nil
	}
	if x.u.Kind == "bv" {
		for _, it := range l.items {
			for _, g := range l.items {
				if it.kind == "bv" && l.isMod(it) && g.kind == "gbv" {
					t := termOf(g.init)
					if l.isMod(g) {
						t = g.tok
					}
					add("last-seen", eq(it.tok, t))
				}
			}
		}
		return out
	}
	// terms fixed during the loop
	isTok := map[string]bool{}
	for _, it := range l.items {
		isTok[it.tok] = true
	}
	uniq := func(xs []string, max int) []string {
		var o []string
		sn := map[string]bool{}
		for _, t := range xs {
			if !sn[t] && !isTok[t] {
				sn[t] = true
				o = append(o, t)
			}
		}
		if len(o) > max {
			o = o[:max]
		}
		return o
	}
	var IE, NE, EV []string
	live, cmp := liveAt(l)
	cmpT := map[string]int{}
	consider := func(v ssa.Value) {
		w, ok := l.fr.env[v]
		if !ok {
			return
		}
		cmpT[termOf(w)] |= cmp[v]
		if !live[v] && !x.wide {
			return
		}
		switch w := w.(type) {
		case VInt:
			if !w.Const {
				IE = append(IE, w.T)
			}
		case VNode:
			if w.T != "nil" && w.T != "h" {
				NE = append(NE, w.T)
			}
		case VVal:
			EV = append(EV, w.T)
		case VArr:
			AE = append(AE, w.T)
		}
	}
	for _, p := range l.fr.fn.Params {
		consider(p)
	}
	for _, p := range l.fr.fn.FreeVars {
		consider(p)
	}
	for _, b := range l.fr.fn.Blocks {
		if b == l.b || !b.Dominates(l.b) {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := valueOf(in); ok {
				consider(v)
			}
		}
	}
	if x.u.Key != "" {
		EV = append([]string{x.u.Key}, EV...)
	}
	// the height of a node, where the body reads it
	if readsField(l, x, "level") {
		for _, n := range NE {
			if t := ap("lev", n); len(uniq(NE, 3)) <= 2 {
				IE = append([]string{t}, IE...)
				cmpT[t] |= 1
			}
		}
	}
	for t := range baseInt {
		if !(strings.HasPrefix(t, "(- ") && !strings.Contains(t[3:], " ")) && !isNum(t) {
			IE = append(IE, t)
		}
	}
	IE = uniq(IE, 5)
	NE = uniq(NE, 8)
	EV = uniq(EV, 2)
	AE = uniq(AE, 4)
	if os.Getenv("SKV_TERMS") != "" {
		fmt.Fprintln(os.Stderr, x.p.pos(l.pos), c.key, "IM", IM, "IE", IE, "NM", NM, "NE", NE, "AM", AM, "AE", AE, "EV", EV)
	}
	hl0 := ap("hl", x.s0)
	// p-1 where the body works on that (a loop from k down to 1 over the levels k-1)
	less1 := map[string]string{}
	for _, it := range l.items {
		if it.phi >= 0 && it.kind == "int" && c.vals[it.id] == nil && usesLess1(l, l.phis[it.phi]) {
			less1[arith("-", VInt{T: it.tok}, kInt(1)).T] = it.tok
		}
	}
	plus1 := func(t string) string {
		if isNum(t) {
			return t
		}
		if p := less1[t]; p != "" {
			return p
		}
		return arith("+", VInt{T: t}, kInt(1)).T
	}
	// ---- integers
	for _, p := range IM {
		if !x.u.Reader && x.u.Kind == "op" {
			add("recorded", op2s("<=", p, ap("hl", s)))
		}
		for _, b := range []string{"(- 1)", "0", "1"} {
			add("lb", op2s("<=", b, p))
		}
		add("ub", op2s("<", p, M))
		add("ub", op2s("<=", p, M))
		others := append(append([]string{hl0, entryInt[p]}, IE...), IM...)
		for _, q := range others {
			if q == p || isNum(q) {
				continue
			}
			add("le", op2s("<=", p, q))
			if cmpT[q]&2 != 0 {
				add("le1", op2s("<=", p, plus1(q)))
			}
			add("lt", op2s("<", p, q))
			add("ge", op2s("<=", q, p))
			add("gt", op2s("<", q, p))
		}
		if x.u.Kind == "draw" || zerosMod {
			add("draws", eq(p, plus1(zeros)))
			add("draws", eq(p, zeros))
			add("draws-capped", eq(p, capped(zeros, x.p.MaxLevel)))
		}
	}
	if !x.u.Reader && x.u.Kind == "op" {
		for _, t := range IE {
			add("recorded", op2s("<=", t, ap("hl", s)))
		}
	}
	if zerosMod {
		add("draws", op2s("<=", "0", zeros))
		for _, t := range IE {
			add("draws-capped", eq(t, capped(zeros, x.p.MaxLevel)))
		}
	}
	if x.u.Kind == "draw" {
		add("draws", op2s("<=", "0", zeros))
		add("draws", op2s("<", zeros, M))
		return out
	}
	for _, t := range sortedKeys(less1) {
		IM = append(append([]string{}, IM...), t)
	}
	ints := append(append([]string{}, IM...), IE...)
	arrs := append(append([]string{}, AM...), AE...)
	nodes := append(append([]string{}, NM...), NE...)
	if st.nr > 0 && lr != "" && lr != "nil" {
		nodes = append(nodes, lr)
		NE = append(NE, lr)
	}
	isMod := map[string]bool{}
	for _, t := range append(append([]string{}, NM...), AM...) {
		isMod[t] = true
	}
	isMod[lr] = isMod[lr] || isTok[lr]
	// ---- nodes
	for _, n := range nodes {
		nn := not(eq(n, "nil"))
		if isMod[n] {
			add("nonnil", nn)
			add("was0", or(not(nn), ap("was", s, n, "0")))
			add("was0", ap("was", s, n, "0"))
			for _, v := range EV {
				add("before", op2s("<", ap("rk", n), ap("vrk", v)))
				add("same", eq(ap("rk", n), ap("vrk", v)))
				add("not-before", or(not(nn), op2s("<=", ap("vrk", v), ap("rk", n))))
				add("after", or(not(nn), op2s("<", ap("vrk", v), ap("rk", n))))
			}
			for _, i := range ints {
				add("was", imp(op2s("<=", "0", i), ap("was", s, n, i)))
				add("wasn", or(not(nn), imp(op2s("<=", "0", i), ap("was", s, n, i))))
				add("lev", eq(ap("lev", n), plus1(i)))
				add("lev", eq(ap("lev", n), i))
			}
			for _, a := range arrs {
				for _, i := range ints {
					add("elem", eq(n, sel(a, i)))
					add("elem+1", eq(n, sel(a, plus1(i))))
					add("elem-1", eq(n, sel(a, arith("-", VInt{T: i}, kInt(1)).T)))
				}
			}
			add("cursor", eq(n, gx))
			add("lev-pos", and(op2s("<=", "1", ap("lev", n)), op2s("<=", ap("lev", n), M)))
		}
		add("held", sel(held, n))
		add("mine", sel(mym, n))
		add("created", and(sel(myc, n), not(ap("fl", s, n))))
		add("untouched", fmt.Sprintf("(forall ((i_ Int)) (! (not (ev %s %s i_)) :pattern ((ev %s %s i_))))", s, n, s, n))
		add("unmarked", not(ap("mk", s, n)))
		add("marked", ap("mk", s, n))
		add("complete", ap("fl", s, n))
		out[len(out)-1].about = n
		add("incomplete", not(ap("fl", s, n)))
		for _, m := range NM {
			if m == n {
				continue
			}
			add("eq", eq(n, m))
			add("order", or(eq(n, m), op2s("<", ap("rk", n), ap("rk", m))))
			add("ordern", or(eq(m, "nil"), op2s("<", ap("rk", n), ap("rk", m))))
			for _, i := range ints {
				add("wnx", imp(op2s("<=", "0", i), ap("wnx", s, n, i, m)))
			}
			add("wnx", ap("wnx", s, n, "0", m))
		}
	}
	if st.nr > 0 || st.na > 0 {
		for _, g := range []string{lr, la} {
			if g == "" || g == "nil" {
				continue
			}
			for _, v := range EV {
				add("ghost-rank", eq(ap("rk", g), ap("vrk", v)))
			}
			for _, n := range append(append([]string{}, NM...), NE...) {
				add("ghost-node", eq(g, n))
			}
		}
		if lr != "" {
			add("ghost-mym", sel(mym, lr))
		}
	}
	for _, a := range AM {
		for _, i := range IM {
			ai := sel(a, i)
			g := "true"
			if sents[i] {
				g = op2s("<=", "0", i)
			}
			add("at-nonnil", imp(g, not(eq(ai, "nil"))))
			add("at-was", imp(g, and(not(eq(ai, "nil")), ap("was", s, ai, i))))
			for _, v := range EV {
				add("at-same", imp(g, eq(ap("rk", ai), ap("vrk", v))))
			}
		}
	}
	// ---- results of a search carried around the loop
	if hlfMod {
		for _, t := range append(append([]string{}, IM...), IE...) {
			add("recorded-at-search", op2s("<=", t, hlf))
		}
		add("recorded-at-search", op2s("<=", hlf, ap("hl", s)))
		if r := st.search; r != nil {
			ren := map[string]string{r.s: s}
			for _, it := range l.items {
				if !l.isMod(it) || c.vals[it.id] != nil {
					continue
				}
				t := termOf(l.current(it, vals, st))
				if it.kind == "int" && t == r.ret {
					ren[t] = it.tok
				}
				if it.kind == "arr" {
					for _, a := range r.arrs {
						if t == a {
							ren[t] = it.tok
						}
					}
				}
			}
			if len(ren) > 1 {
				for _, e := range r.ensures {
					add("found", renameVars(strings.ReplaceAll(e, r.hl0, hlf), ren))
				}
			}
		}
	}
	// ---- searched element and intervals
	if x.u.Key != "" {
		for _, i := range ints {
			for _, n := range NM {
				add("not-higher", or(eq(n, gx), eq(n, "h"), ap("hmiss", s, ap("rk", n), plus1(i))))
			}
		}
		for _, i := range IM {
			add("bottom", or(op2s("<=", "0", i), ap("hmiss", s, ap("vrk", x.u.Key), "0")))
			add("bottom", or(op2s("<=", "0", i), ap("absent", s, ap("vrk", x.u.Key))))
		}
	}
	for _, v := range EV {
		for _, i := range ints {
			add("miss", ap("hmiss", s, ap("vrk", v), plus1(i)))
		}
		for _, i := range append([]string{}, IM...) {
			for _, n := range NM {
				add("gap-miss", fmt.Sprintf("(forall ((r_ Real)) (! (=> (and (< (rk %s) r_) (< r_ (vrk %s))) (hmiss %s r_ %s)) :pattern ((hmiss %s r_ %s))))", n, v, s, plus1(i), s, plus1(i)))
			}
		}
		if len(NM) > 0 {
			for _, i := range IE {
				for _, n := range NM {
					add("gap-miss", fmt.Sprintf("(forall ((r_ Real)) (! (=> (and (< (rk %s) r_) (< r_ (vrk %s))) (hmiss %s r_ %s)) :pattern ((hmiss %s r_ %s))))", n, v, s, plus1(i), s, plus1(i)))
				}
			}
		}
	}
	if visMod || x.u.Name == "Range" || x.u.From || strings.HasSuffix(x.u.Name, "Range") {
		lows := []string{"(< 0.0 r_)"}
		for _, v := range EV {
			lows = append(lows, op2s("<=", ap("vrk", v), "r_"))
		}
		for _, lo := range lows {
			for _, n := range nodes {
				add("visited-below", fmt.Sprintf("(forall ((r_ Real)) (! (=> (and %s (or (= %s nil) (< r_ (rk %s)))) (or (absent %s r_) (select %s r_))) :pattern ((absent %s r_))))", lo, n, n, s, visited, s))
				add("visited-upto", fmt.Sprintf("(forall ((r_ Real)) (! (=> (and %s (or (= %s nil) (<= r_ (rk %s)))) (or (absent %s r_) (select %s r_))) :pattern ((absent %s r_))))", lo, n, n, s, visited, s))
			}
		}
		for _, n := range NM {
			for _, m := range append([]string{"nil"}, NM...) {
				for _, i := range IM {
					if m != n {
						add("gap-to", fmt.Sprintf("(forall ((r_ Real)) (! (=> (and (< (rk %s) r_) (or (= %s nil) (< r_ (rk %s)))) (hmiss %s r_ %s)) :pattern ((hmiss %s r_ %s))))", n, m, m, s, plus1(i), s, plus1(i)))
					}
				}
			}
			add("last", or(eq(n, "nil"), op2s("<", last, ap("rk", n))))
			add("last-le", or(eq(n, "nil"), op2s("<=", last, ap("rk", n))))
		}
		for _, n := range NM {
			add("present", or(eq(n, "nil"), ap("present", s, ap("rk", n))))
		}
		add("last-pos", op2s("<=", "0.0", last))
	}
	if x.u.From {
		for _, v := range EV {
			for _, n := range append(append([]string{}, NM...), NE...) {
				add("gap-miss", fmt.Sprintf("(forall ((r_ Real)) (! (=> (and (not (= %s nil)) (< (rk %s) r_) (< r_ (vrk %s))) (hmiss %s r_ 0)) :pattern ((hmiss %s r_ 0)) :pattern ((hmiss %s r_ 1))))", n, n, v, s, s, s))
			}
			for _, n := range NM {
				add("not-higher", or(eq(n, "nil"), op2s("<=", ap("vrk", v), ap("rk", n)), ap("hmiss", s, ap("rk", n), "0")))
			}
		}
	}
	// ---- index ranges over the arrays
	type rng struct{ lo, hi string }
	var rs []rng
	E := []string{}
	if x.wide || len(IE) == 0 || x.u.Spec != nil && x.u.Spec.Flags["pure"] {
		E = append(E, hl0)
	}
	for _, e := range IE {
		if x.wide || cmpT[e]&1 != 0 {
			E = append(E, e)
		}
		if x.wide || cmpT[e] != 1 {
			E = append(E, plus1(e))
		}
	}
	for _, p := range IM {
		rs = append(rs, rng{"0", p}, rng{"0", plus1(p)})
		for _, e := range E {
			rs = append(rs, rng{p, e}, rng{plus1(p), e})
		}
		for _, q := range IM {
			if q == p {
				continue
			}
			for _, r := range []rng{{plus1(p), plus1(q)}, {p, q}} {
				if x.wide || !x.sol.Prove(op2s("<", here(r.hi), here(r.lo))) {
					rs = append(rs, r)
				}
			}
		}
	}
	if len(IM) == 0 || heldMod {
		for _, e := range E {
			rs = append(rs, rng{"0", e})
		}
	}
	all := func(r rng, body string, pats ...string) string {
		t := fmt.Sprintf("(forall ((j_ Int)) (! (=> (and (<= %s j_) (< j_ %s)) %s)", r.lo, r.hi, body)
		for _, p := range pats {
			t += " :pattern (" + p + ")"
		}
		return t + "))"
	}
	for _, r := range rs {
		for _, a := range arrs {
			aj := sel(a, "j_")
			if isMod[a] {
				add("a-was", all(r, and(not(eq(aj, "nil")), ap("was", s, aj, "j_")), aj))
				add("a-wasn", all(r, or(eq(aj, "nil"), ap("was", s, aj, "j_")), aj))
				for _, v := range EV {
					add("a-before", all(r, op2s("<", ap("rk", aj), ap("vrk", v)), aj))
					add("a-not-before", all(r, or(eq(aj, "nil"), op2s("<=", ap("vrk", v), ap("rk", aj))), aj))
					add("a-after", all(r, or(eq(aj, "nil"), op2s("<", ap("vrk", v), ap("rk", aj))), aj))
				}
				for _, n := range NM {
					add("a-left-of", all(r, or(eq(aj, n), op2s("<", ap("rk", aj), ap("rk", n))), aj))
				}
				add("a-monotone", fmt.Sprintf("(forall ((j_ Int) (k_ Int)) (! (=> (and (<= %s j_) (< j_ k_) (< k_ %s)) (or (= (select %s j_) (select %s k_)) (< (rk (select %s k_)) (rk (select %s j_))))) :pattern ((select %s j_) (select %s k_))))", r.lo, r.hi, a, a, a, a, a, a))
				if heldMod && r.lo == "0" {
					add("a-strict", fmt.Sprintf("(forall ((j_ Int) (k_ Int)) (! (=> (and (<= %s j_) (< j_ k_) (< k_ %s)) (< (rk (select %s k_)) (rk (select %s j_)))) :pattern ((select %s j_) (select %s k_))))", r.lo, r.hi, a, a, a, a))
				}
				for _, q := range arrs {
					if q != a {
						add("a-wnx", all(r, ap("wnx", s, aj, "j_", sel(q, "j_")), aj, sel(q, "j_")))
					}
				}
			}
			add("a-held", all(r, sel(held, aj), aj))
			add("a-unmarked", all(r, not(ap("mk", s, aj)), aj))
			add("a-linked", all(r, ap("lk", s, aj, "j_"), aj))
			for _, q := range arrs {
				if q != a {
					add("a-link", all(r, eq(ap("nx", s, aj, "j_"), sel(q, "j_")), aj, sel(q, "j_")))
				}
			}
			for _, n := range nodes {
				add("a-points", all(r, eq(ap("nx", s, aj, "j_"), n), aj))
				add("a-copied", all(r, eq(ap("nx", s, n, "j_"), aj), aj, ap("nx", s, n, "j_")))
			}
		}
		if len(arrs) > 0 {
			for _, n := range nodes {
				add("n-linked", all(r, ap("lk", s, n, "j_"), ap("lk", s, n, "j_")))
				add("n-unlinked", all(r, not(ap("lk", s, n, "j_")), ap("lk", s, n, "j_")))
				add("n-entered", all(r, ap("ev", s, n, "j_"), ap("ev", s, n, "j_")))
			}
		}
	}
	if len(arrs) > 0 {
		for _, n := range nodes {
			for _, e := range E {
				add("n-linked", all(rng{"0", e}, ap("lk", s, n, "j_"), ap("lk", s, n, "j_")))
			}
			if st.nr > 0 && x.u.Key != "" && len(IM) == 0 {
				// linked up to its top, when the height of the tower itself is what bounds the levels
				add("n-linked", all(rng{"0", ap("lev", n)}, ap("lk", s, n, "j_"), ap("lk", s, n, "j_")))
			}
			for _, p := range IM {
				add("n-private-from", fmt.Sprintf("(forall ((j_ Int)) (! (=> (<= %s j_) (not (ev %s %s j_))) :pattern ((ev %s %s j_))))", p, s, n, s, n))
				add("n-gone-above", fmt.Sprintf("(forall ((j_ Int)) (! (=> (< %s j_) (not (lk %s %s j_))) :pattern ((lk %s %s j_))))", p, s, n, s, n))
				add("n-gone-from", fmt.Sprintf("(forall ((j_ Int)) (! (=> (<= %s j_) (not (lk %s %s j_))) :pattern ((lk %s %s j_))))", p, s, n, s, n))
			}
		}
	}
	// ---- lock set
	if heldMod {
		h0 := termOf(heldInit(l))
		add("held-same", eqSet(held, sel(h0, "n_"), h0))
		add("held-none", eqSet(held, "false", h0))
		add("held-grows", fmt.Sprintf("(forall ((n_ Node)) (! (=> (select %s n_) (select %s n_)) :pattern ((select %s n_)) :pattern ((select %s n_))))", h0, held, held, h0))
		for _, n := range nodes {
			add("held-plus", eqSet(held, or(sel(h0, "n_"), eq("n_", n)), h0))
			add("held-only", eqSet(held, eq("n_", n), h0))
			add("held-minus", eqSet(held, and(sel(h0, "n_"), not(eq("n_", n))), h0))
		}
		for _, a := range arrs {
			for _, r := range rs {
				mm := ap("memr", a, r.lo, r.hi, "n_")
				add("held-range", eqSet(held, or(sel(h0, "n_"), mm), h0))
				add("held-range-only", eqSet(held, mm, h0))
				add("held-without", eqSet(held, and(sel(h0, "n_"), not(mm)), h0))
				for _, e := range E {
					if r.lo != "0" && e != r.hi {
						add("held-rest", eqSet(held, and(sel(h0, "n_"), not(ap("memr", a, r.lo, e, "n_"))), h0))
					}
				}
			}
		}
	}
	if mymMod {
		add("mym-none", eqSet(mym, "false", "none"))
		for _, n := range nodes {
			add("mym", sel(mym, n))
			add("mym-only", eqSet(mym, eq("n_", n), "none"))
		}
	}
	return out
}

func readsField(l *Loop, x *Exec, role string) bool {
	if x.v == nil {
		return false
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == x.v.Node && x.v.NodRole[fa.Field] == role {
				return true
			}
		}
	}
	return false
}

// usesLess1: the body uses phi-1 other than to step the phi
func usesLess1(l *Loop, p *ssa.Phi) bool {
	for _, r := range *p.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok || !l.body[b.Block()] || b.X != p {
			continue
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil || !(b.Op == token.SUB && k.Value.ExactString() == "1" || b.Op == token.ADD && k.Value.ExactString() == "-1") {
			continue
		}
		for _, u := range *b.Referrers() {
			if u != ssa.Instruction(p) {
				return true
			}
		}
	}
	return false
}

func sortedKeys(m map[string]string) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func heldInit(l *Loop) Val {
	for _, it := range l.items {
		if it.id == "held" {
			return it.init
		}
	}
	return nil
}

func eqSet(held, body, h0 string) string {
	p := ""
	if h0 != "none" {
		p = fmt.Sprintf(" :pattern ((select %s n_))", h0)
	}
	return fmt.Sprintf("(forall ((n_ Node)) (! (= (select %s n_) %s) :pattern ((select %s n_))%s))", held, body, held, p)
}

func isNum(t string) bool {
	if t == "" {
		return true
	}
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return false
		}
	}
	return true
}

// liveAt: the values used in or after the loop, and those of them a loop condition compares with.
// (1: as an exclusive bound, 2: as an inclusive one)
func liveAt(l *Loop) (live map[ssa.Value]bool, cmp map[ssa.Value]int) {
	live, cmp = map[ssa.Value]bool{}, map[ssa.Value]int{}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if *o != nil {
					live[*o] = true
				}
			}
			if bo, ok := in.(*ssa.BinOp); ok && l.body[b] {
				switch bo.Op {
				case token.LEQ, token.GEQ:
					cmp[bo.X] |= 2
					cmp[bo.Y] |= 2
				case token.EQL, token.NEQ:
					cmp[bo.X] |= 3
					cmp[bo.Y] |= 3
				case token.LSS, token.GTR:
					cmp[bo.X] |= 1
					cmp[bo.Y] |= 1
				}
			}
		}
		for _, s := range b.Succs {
			// the back edges of enclosing loops start over
			if !s.Dominates(l.b) || s == l.b {
				rec(s)
			}
		}
	}
	rec(l.b)
	return
}
