package main

import (
	"fmt"
	"strings"
)

// Action: a step of one goroutine, with a precondition over the state and its ghost sets (held0/myc0/mym0)
// and the functions it updates. Code obligations establish the precondition; the lemmas below, which do not
// depend on the code, show what follows from it.
type Action struct {
	Name   string
	Params string
	Pre    []Ax // named conjuncts; Vars empty unless quantified
	Upd    map[string]string
}

func pre(name, body string) Ax { return Ax{Name: name, Body: body} }

var actions = []Action{
	{"link", "p Node, i Int, n Node", []Ax{
		pre("pred-locked", "(select $held p)"),
		pre("pred-unmarked", "(not (mk $s p))"),
		pre("pred-linked", "(lk $s p i)"),
		pre("node-real", "(and (not (= n nil)) (not (= n h)))"),
		pre("node-mine", "(select $myc n)"),
		pre("not-yet-linked", "(not (ev $s n i))"),
		pre("level-in-tower", "(and (<= 0 i) (< i (lev n)) (< i $MAX) (=> (<= $OP1 i) (ex n)))"),
		pre("bottom-up", "(or (= i 0) (lk $s n (- i 1)))"),
		pre("not-complete", "(not (fl $s n))"),
		pre("level-recorded", "(< i (hl $s))"),
		pre("splice", "(= (nx $s n i) (nx $s p i))"),
		pre("order-pred", "(< (rk p) (rk n))"),
		pre("order-succ", "(or (= (nx $s p i) nil) (< (rk n) (rk (nx $s p i))))"),
	}, map[string]string{
		"nx": "(ite (and (= n_ p) (= i_ i)) n (nx $s n_ i_))",
		"lk": "(or (and (= n_ n) (= i_ i)) (lk $s n_ i_))",
		"ev": "(or (and (= n_ n) (= i_ i)) (ev $s n_ i_))",
	}},
	{"unlink", "p Node, i Int, n Node", []Ax{
		pre("pred-locked", "(select $held p)"),
		pre("pred-unmarked", "(not (mk $s p))"),
		pre("pred-linked", "(lk $s p i)"),
		pre("node-real", "(not (= n nil))"),
		pre("node-linked", "(lk $s n i)"),
		pre("is-successor", "(= (nx $s p i) n)"),
		pre("marked-by-me", "(and (mk $s n) (select $mym n))"),
		pre("top-down", "(or (= i (- (lev n) 1)) (not (lk $s n (+ i 1))))"),
	}, map[string]string{
		"nx": "(ite (and (= n_ p) (= i_ i)) (nx $s n i) (nx $s n_ i_))",
		"lk": "(and (lk $s n_ i_) (not (and (= n_ n) (= i_ i))))",
	}},
	{"complete", "n Node", []Ax{
		pre("node-mine", "(select $myc n)"),
		pre("all-levels-linked", "(and (<= 1 (lev n)) (lk $s n (- (lev n) 1)))"),
		pre("not-complete", "(not (fl $s n))"),
	}, map[string]string{
		"fl": "(or (= n_ n) (fl $s n_))",
	}},
	{"mark", "n Node", []Ax{
		pre("node-locked", "(select $held n)"),
		pre("node-real", "(not (= n h))"),
		pre("complete", "(fl $s n)"),
		pre("unmarked", "(not (mk $s n))"),
	}, map[string]string{
		"mk": "(or (= n_ n) (mk $s n_))",
	}},
	{"raise", "v Int", []Ax{
		pre("raises", "(<= (hl $s) v)"),
		pre("bounded", "(<= v $MAX)"),
	}, map[string]string{
		"hl": "v",
	}},
	{"private", "p Node, i Int, c Node", []Ax{
		pre("node-mine", "(select $myc p)"),
		pre("level-private", "(not (ev $s p i))"),
	}, map[string]string{
		"nx": "(ite (and (= n_ p) (= i_ i)) c (nx $s n_ i_))",
	}},
}

type fnSig struct{ name, args, call string }

var stateFns = []fnSig{
	{"nx", "n_ Node, i_ Int", "n_ i_"}, {"lk", "n_ Node, i_ Int", "n_ i_"}, {"ev", "n_ Node, i_ Int", "n_ i_"},
	{"fl", "n_ Node", "n_"}, {"mk", "n_ Node", "n_"}, {"hl", "", ""},
}

// ghost definitions used by the lemmas only: membership now, and "no node of rank r linked at level i now"
const lemmaDefs = `
(declare-fun abs (S Real) Bool)
(declare-fun touch (Bool) Bool)
(declare-fun wabs (S Real) Node)
(declare-fun nol (S Real Int) Bool)
(declare-fun wnol (S Real Int) Node)
`

var lemmaAx = []Ax{
	{"Dabs1", "r Real", []string{"(abs $s r)"}, "(=> (abs $s r) (and (fl $s (wabs $s r)) (not (mk $s (wabs $s r))) (not (= (wabs $s r) h)) (= (rk (wabs $s r)) r)))"},
	{"Dabs2", "r Real, n Node", []string{"(abs $s r)|(fl $s n)", "(abs $s r)|(mk $s n)"}, "(=> (and (fl $s n) (not (mk $s n)) (not (= n h)) (= (rk n) r)) (abs $s r))"},
	{"Dabs3", "r Real", []string{"(absent $s r)", "(present $s r)"}, "(or (abs $s r) (not (abs $s r)))"},
	{"Dnol1", "r Real, i Int", []string{"(nol $s r i)"}, "(or (nol $s r i) (and (lk $s (wnol $s r i) i) (= (rk (wnol $s r i)) r)))"},
	{"Dnol2", "r Real, i Int, n Node", []string{"(nol $s r i)|(lk $s n i)"}, "(=> (and (nol $s r i) (= (rk n) r)) (not (lk $s n i)))"},
	// follows from the two above; names the term at the lower level
	{"Dnol3", "r Real, i Int, j Int", []string{"(nol $s r i)|(nol $s r j)"}, "(=> (and (nol $s r i) (not (nol $s r j))) (not (lk $s (wnol $s r j) i)))"},
}

// updates of the history of a call in a step from $s to $t (any goroutine's step)
var histStep = []Ax{
	{"was", "n_ Node, i_ Int", []string{"(was $t n_ i_)"}, "(= (was $t n_ i_) (or (was $s n_ i_) (lk $t n_ i_)))"},
	{"wnx", "n_ Node, i_ Int, c_ Node", []string{"(wnx $t n_ i_ c_)"}, "(= (wnx $t n_ i_ c_) (or (wnx $s n_ i_ c_) (and (lk $t n_ i_) (= c_ (nx $t n_ i_)))))"},
	{"hmiss", "r_ Real, i_ Int", []string{"(hmiss $t r_ i_)"}, "(= (hmiss $t r_ i_) (or (hmiss $s r_ i_) (nol $t r_ i_)))"},
	{"absent", "r_ Real", []string{"(absent $t r_)"}, "(= (absent $t r_) (or (absent $s r_) (not (abs $t r_))))"},
	{"present", "r_ Real", []string{"(present $t r_)"}, "(= (present $t r_) (or (present $s r_) (abs $t r_)))"},
	{"wnf", "n_ Node", []string{"(wnf $t n_)"}, "(= (wnf $t n_) (or (wnf $s n_) (not (fl $t n_))))"},
	{"wnm", "n_ Node", []string{"(wnm $t n_)"}, "(= (wnm $t n_) (or (wnm $s n_) (not (mk $t n_))))"},
}

// history at the start of a call
var histInit = []Ax{
	{"was", "n_ Node, i_ Int", []string{"(was $t n_ i_)"}, "(= (was $t n_ i_) (lk $t n_ i_))"},
	{"wnx", "n_ Node, i_ Int, c_ Node", []string{"(wnx $t n_ i_ c_)"}, "(= (wnx $t n_ i_ c_) (and (lk $t n_ i_) (= c_ (nx $t n_ i_))))"},
	{"hmiss", "r_ Real, i_ Int", []string{"(hmiss $t r_ i_)"}, "(= (hmiss $t r_ i_) (nol $t r_ i_))"},
	{"absent", "r_ Real", []string{"(absent $t r_)"}, "(= (absent $t r_) (not (abs $t r_)))"},
	{"present", "r_ Real", []string{"(present $t r_)"}, "(= (present $t r_) (abs $t r_))"},
	{"wnf", "n_ Node", []string{"(wnf $t n_)"}, "(= (wnf $t n_) (not (fl $t n_)))"},
	{"wnm", "n_ Node", []string{"(wnm $t n_)"}, "(= (wnm $t n_) (not (mk $t n_)))"},
}

// memr(a,lo,hi,n): n is among the elements lo..hi-1 of a; memrStep follows from the definition (lemma:range-step)
const memrDef = `(assert (forall ((a (Array Int Node)) (lo Int) (hi Int) (n Node)) (! (=> (memr a lo hi n) (and (<= lo (memw a lo hi n)) (< (memw a lo hi n) hi) (= (select a (memw a lo hi n)) n))) :pattern ((memr a lo hi n)) :qid memr1)))
(assert (forall ((a (Array Int Node)) (lo Int) (hi Int) (n Node) (j Int)) (! (=> (and (<= lo j) (< j hi) (= (select a j) n)) (memr a lo hi n)) :pattern ((memr a lo hi n) (select a j)) :qid memr2)))
`
const memrStep = `(assert (forall ((a (Array Int Node)) (k Int) (v Node) (lo Int) (hi Int) (n Node)) (! (=> (and (= hi (+ k 1)) (<= lo k)) (= (memr (store a k v) lo hi n) (or (memr a lo k n) (= n v)))) :pattern ((memr (store a k v) lo hi n)) :qid memr3)))
`

type Lemma struct {
	Name  string
	Query string // full script up to check-sat
}

const ghostSets = `
(declare-const hA (Array Node Bool)) (declare-const cA (Array Node Bool)) (declare-const mA (Array Node Bool))
(declare-const hB (Array Node Bool)) (declare-const cB (Array Node Bool)) (declare-const mB (Array Node Bool))
`

// genLemmas produces the code-independent part of the proof.
func genLemmas(max, op1 int) []Lemma {
	con := map[string]string{"MAX": fmt.Sprint(max), "OP1": fmt.Sprint(op1)}
	with := func(kv ...string) map[string]string {
		m := map[string]string{}
		for k, v := range con {
			m[k] = v
		}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i]] = kv[i+1]
		}
		return m
	}
	all := func(axs []Ax, m map[string]string) string {
		var b strings.Builder
		for _, a := range axs {
			b.WriteString(quantify(a, m, "") + "\n")
		}
		return b.String()
	}
	base := sorts + lemmaDefs + "(declare-const s0 S)\n(declare-const s1 S)\n(declare-const s2 S)\n" + ghostSets + all(rigid, con)
	var out []Lemma
	isHist := func(n string) bool { return strings.HasPrefix(n, "H") }
	_ = isHist
	for _, act := range actions {
		mA := with("s", "s0", "t", "s1", "held", "hA", "myc", "cA", "mym", "mA")
		var b strings.Builder
		b.WriteString(base)
		b.WriteString(all(invs, with("s", "s0")))
		b.WriteString(all(lemmaAx, with("s", "s0")))
		b.WriteString(all(lemmaAx, with("s", "s1")))
		names, srts := parseVars(act.Params)
		for i := range names {
			fmt.Fprintf(&b, "(declare-const %s %s)\n", names[i], srts[i])
		}
		for _, p := range act.Pre {
			b.WriteString(quantify(p, mA, "") + "\n")
		}
		for _, f := range stateFns {
			rhs := "(" + f.name + " s0 " + f.call + ")"
			if f.call == "" {
				rhs = "(" + f.name + " s0)"
			}
			lhs := strings.Replace(rhs, "s0", "s1", 1)
			if u, ok := act.Upd[f.name]; ok {
				rhs = sub(u, mA)
			}
			pats := []string{lhs, strings.Replace(lhs, "s1", "s0", 1)}
			b.WriteString(quantify(Ax{Name: "upd_" + f.name, Vars: f.args, Pats: pats, Body: "(= " + lhs + " " + rhs + ")"}, nil, "") + "\n")
		}
		b.WriteString(all(histStep, mA))
		ctx := b.String()
		add := func(name string, a Ax, m map[string]string, extra string) {
			d, neg := refute(a, m)
			// mention the terms the instantiation patterns look for
			sn, ss := parseVars(a.Vars)
			for k := range sn {
				sn[k] = "sk_" + sn[k]
			}
			sn, ss = append(sn, names...), append(ss, srts...)
			for k := range sn {
				for l := range sn {
					if ss[k] == "Node" && ss[l] == "Int" {
						d += "(assert (touch (lk s0 " + sn[k] + " " + sn[l] + ")))(assert (touch (lk s1 " + sn[k] + " " + sn[l] + ")))"
					}
				}
			}
			out = append(out, Lemma{name, ctx + extra + d + "(assert " + neg + ")\n"})
		}
		// 0. the precondition is satisfiable is checked through the code (covers); 1. the invariant is preserved
		// (the history conjuncts may use the structural ones already established for the new state)
		st1 := ""
		for _, a := range invs {
			if !isHist(a.Name) {
				st1 += quantify(a, with("s", "s1"), "") + "\n"
			}
		}
		for _, a := range invs {
			x := ""
			if isHist(a.Name) {
				x = st1
			}
			add("lemma:"+act.Name+":preserves:"+a.Name, a, with("s", "s1"), x)
		}
		// 2. other goroutines see only what the rely allows (B: another operation, with disjoint ghost sets)
		disj := "(assert (forall ((n Node)) (! (not (and (select hA n) (select hB n))) :pattern ((select hB n)) :pattern ((select hA n)))))" +
			"(assert (forall ((n Node)) (! (not (and (select cA n) (select cB n))) :pattern ((select cB n)) :pattern ((select cA n)))))" +
			"(assert (forall ((n Node)) (! (not (and (select mA n) (select mB n))) :pattern ((select mB n)) :pattern ((select mA n)))))" +
			"(assert (forall ((n Node)) (! (=> (select mB n) (mk s0 n)) :pattern ((select mB n)))))\n"
		for _, a := range rely {
			add("lemma:"+act.Name+":rely:"+a.Name, a, with("s", "s0", "t", "s1", "held", "hB", "myc", "cB", "mym", "mB"), disj)
		}
		// 3. effect on the abstract set
		eff := Ax{Name: "abs-unchanged", Vars: "r Real", Body: "(= (abs s1 r) (abs s0 r))"}
		switch act.Name {
		case "complete":
			eff = Ax{Name: "abs-adds-exactly", Vars: "r Real", Body: "(and (not (abs s0 (rk n))) (= (abs s1 r) (or (abs s0 r) (= r (rk n)))))"}
		case "mark":
			eff = Ax{Name: "abs-removes-exactly", Vars: "r Real", Body: "(and (abs s0 (rk n)) (= (abs s1 r) (and (abs s0 r) (not (= r (rk n))))))"}
		}
		if act.Name == "complete" {
			// the completing goroutine knows its node is not the header
			add("lemma:"+act.Name+":"+eff.Name, eff, con, "(assert (not (= n h)))\n")
		} else {
			add("lemma:"+act.Name+":"+eff.Name, eff, con, "")
		}
	}
	// rely is reflexive and transitive
	m01 := with("s", "s0", "t", "s1", "held", "hA", "myc", "cA", "mym", "mA")
	m12 := with("s", "s1", "t", "s2", "held", "hA", "myc", "cA", "mym", "mA")
	m02 := with("s", "s0", "t", "s2", "held", "hA", "myc", "cA", "mym", "mA")
	m00 := with("s", "s0", "t", "s0", "held", "hA", "myc", "cA", "mym", "mA")
	// in the transitive case all three states satisfy the invariant
	tr := base + all(invs, with("s", "s0")) + all(invs, with("s", "s1")) + all(invs, with("s", "s2")) + all(rely, m01) + all(rely, m12)
	mid := "(declare-fun seen1 (Node Int) Bool)\n"
	_ = mid
	for _, a := range rely {
		d, neg := refute(a, m02)
		names, _ := parseVars(a.Vars)
		touch := ""
		hasN, hasI := false, false
		for _, n := range names {
			hasN = hasN || n == "n"
			hasI = hasI || n == "i"
		}
		if hasN {
			touch += "(assert (or (fl s1 sk_n) (not (fl s1 sk_n))))(assert (or (mk s1 sk_n) (not (mk s1 sk_n))))\n"
			if hasI {
				touch += "(declare-const tn Node)(assert (= tn (nx s1 sk_n sk_i)))(assert (or (lk s1 sk_n sk_i) (not (lk s1 sk_n sk_i))))(assert (or (ev s1 sk_n sk_i) (not (ev s1 sk_n sk_i))))\n"
			}
		}
		out = append(out, Lemma{"lemma:rely:transitive:" + a.Name, tr + d + touch + "(assert " + neg + ")\n"})
		d, neg = refute(a, m00)
		out = append(out, Lemma{"lemma:rely:reflexive:" + a.Name, base + all(invs, with("s", "s0")) + d + "(assert " + neg + ")\n"})
	}
	// the history invariants hold at the start of a call
	structural := []Ax{}
	for _, a := range invs {
		if !isHist(a.Name) {
			structural = append(structural, a)
		}
	}
	st := base + all(structural, with("s", "s0")) + all(lemmaAx, with("s", "s0")) + all(histInit, with("t", "s0"))
	for _, a := range invs {
		if isHist(a.Name) {
			d, neg := refute(a, with("s", "s0"))
			if strings.Contains(a.Vars, "n Node") && strings.Contains(a.Vars, "i Int") {
				d += "(assert (touch (lk s0 sk_n sk_i)))"
			}
			out = append(out, Lemma{"lemma:call-start:" + a.Name, st + d + "(assert " + neg + ")\n"})
		}
	}
	// the state a constructor leaves behind (its postcondition) satisfies the invariant
	ctor := base + all(lemmaAx, with("s", "s0")) + all(histInit, with("t", "s0")) + sub(`
(assert (forall ((n Node) (i Int)) (! (= (lk s0 n i) (and (= n h) (<= 0 i) (< i $MAX))) :pattern ((lk s0 n i)))))
(assert (forall ((n Node) (i Int)) (! (= (ev s0 n i) (and (= n h) (<= 0 i) (< i $MAX))) :pattern ((ev s0 n i)))))
(assert (forall ((n Node) (i Int)) (! (= (nx s0 n i) nil) :pattern ((nx s0 n i)))))
(assert (forall ((n Node)) (! (= (fl s0 n) (= n h)) :pattern ((fl s0 n)))))
(assert (forall ((n Node)) (! (not (mk s0 n)) :pattern ((mk s0 n)))))
(assert (and (<= 1 (hl s0)) (<= (hl s0) $MAX)))
(assert (touch (ev s0 h 0)))
`, con)
	for _, a := range structural {
		d, neg := refute(a, with("s", "s0"))
		out = append(out, Lemma{"lemma:new-set:" + a.Name, ctor + d + "(assert " + neg + ")\n"})
	}
	out = append(out, Lemma{"lemma:new-set:empty", ctor + "(declare-const r Real)\n(assert (abs s0 r))\n"})
	for k, c := range []string{"(and (memr (store a k v) lo (+ k 1) n) (not (memr a lo k n)) (not (= n v)))", "(and (not (memr (store a k v) lo (+ k 1) n)) (memr a lo k n))", "(and (not (memr (store a k v) lo (+ k 1) n)) (= n v))"} {
		out = append(out, Lemma{"lemma:range-step:" + itoa(k), base + "(declare-fun memr ((Array Int Node) Int Int Node) Bool)\n(declare-fun memw ((Array Int Node) Int Int Node) Int)\n" + memrDef +
			"(declare-const a (Array Int Node))\n(declare-const k Int)\n(declare-const v Node)\n(declare-const lo Int)\n(declare-const n Node)\n(declare-const w Int)\n" +
			"(assert (= w (memw a lo k n)))\n(assert (touch (= (select (store a k v) w) n)))\n(assert (touch (= (select (store a k v) k) n)))\n(assert (touch (= (select a (memw (store a k v) lo (+ k 1) n)) n)))\n(assert (<= lo k))\n(assert " + c + ")\n"})
	}
	// a node linked nowhere is referenced by no linked node
	u := Ax{Name: "unreachable", Vars: "n Node, m Node, j Int", Body: "(=> (and (forall ((i Int)) (! (not (lk s0 n i)) :pattern ((lk s0 n i)))) (not (= n nil)) (lk s0 m j)) (not (= (nx s0 m j) n)))"}
	d, neg := refute(u, con)
	out = append(out, Lemma{"lemma:unlinked-unreferenced", st + d + "(assert " + neg + ")\n"})
	return out
}
