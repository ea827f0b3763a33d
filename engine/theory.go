package main

import (
	"fmt"
	"strings"
)

// The theory: the state of one skip set seen through ghost functions of an abstract state s.
//
//	nx(s,n,i)   the link of node n at level i            lk(s,n,i)  n is linked at level i
//	ev(s,n,i)   n has been linked at level i at some time fl,mk      fully-linked / marked flag
//	hl(s)       the recorded highest level               rk(n),lev(n),ex(n)  rank, height, overflow slots allocated
//
// and through the history of the current operation (everything below is monotone):
//
//	was(s,n,i)  n was linked at level i at some moment of the call
//	wnx(s,n,i,c) at some moment of the call n was linked at level i and its link was c
//	hmiss(s,r,i) at some moment no node of rank r was linked at level i
//	absent/present(s,r) at some moment the rank r was absent from / present in the set
//	wnf(s,n)/wnm(s,n) at some moment n was not fully linked / not marked
//
// An Ax is a universally quantified formula; "$s" stands for the state.
type Ax struct {
	Name string
	Vars string // "n Node, i Int"
	Pats []string
	Body string
}

const sorts = `
(declare-sort S 0)
(declare-sort Node 0)
(declare-sort V 0)
(declare-const nil Node)
(declare-const h Node)
(declare-fun nx (S Node Int) Node)
(declare-fun lk (S Node Int) Bool)
(declare-fun ev (S Node Int) Bool)
(declare-fun fl (S Node) Bool)
(declare-fun mk (S Node) Bool)
(declare-fun hl (S) Int)
(declare-fun rk (Node) Real)
(declare-fun lev (Node) Int)
(declare-fun ex (Node) Bool)
(declare-fun was (S Node Int) Bool)
(declare-fun wnx (S Node Int Node) Bool)
(declare-fun hmiss (S Real Int) Bool)
(declare-fun absent (S Real) Bool)
(declare-fun present (S Real) Bool)
(declare-fun wnf (S Node) Bool)
(declare-fun wnm (S Node) Bool)
(declare-fun vrk (V) Real)
(declare-fun val (Node) V)
`

// rigid facts, independent of the state
var rigid = []Ax{
	{"Rnil", "", nil, "(distinct nil h)"},
	{"Rh", "", nil, "(and (= (rk h) 0.0) (= (lev h) $MAX) (ex h))"},
	{"Rpos", "n Node", []string{"(rk n)"}, "(=> (not (= n h)) (< 0.0 (rk n)))"},
	{"Rv", "v V", []string{"(vrk v)"}, "(< 0.0 (vrk v))"},
	{"Rval", "n Node", []string{"(val n)", "(rk n)"}, "(=> (not (= n h)) (= (vrk (val n)) (rk n)))"},
}

// structure invariant
var invs = []Ax{
	{"Ihead", "i Int", []string{"(lk $s h i)", "(nx $s h i)", "(ev $s h i)"}, "(= (lk $s h i) (and (<= 0 i) (< i $MAX)))"},
	{"Iheadflags", "", []string{}, "(and (fl $s h) (not (mk $s h)))"},
	{"Ihl", "", nil, "(and (<= 1 (hl $s)) (<= (hl $s) $MAX))"},
	{"Ilk", "n Node, i Int", []string{"(lk $s n i)"}, "(=> (lk $s n i) (and (not (= n nil)) (<= 0 i) (< i (lev n)) (< i $MAX) (ev $s n i)))"},
	{"Idown", "n Node, i Int, j Int", []string{"(lk $s n i)|(lk $s n j)"}, "(=> (and (lk $s n i) (<= 0 j) (<= j i)) (lk $s n j))"},
	{"Inext", "n Node, i Int", []string{"(nx $s n i)"}, "(=> (and (lk $s n i) (not (= (nx $s n i) nil))) (and (lk $s (nx $s n i) i) (< (rk n) (rk (nx $s n i)))))"},
	{"Isucc", "n Node, m Node, i Int", []string{"(nx $s n i)|(lk $s m i)"}, "(=> (and (lk $s n i) (lk $s m i) (< (rk n) (rk m))) (and (not (= (nx $s n i) nil)) (<= (rk (nx $s n i)) (rk m))))"},
	{"Iuniq", "n Node, m Node, i Int, j Int", []string{"(lk $s n i)|(lk $s m j)"}, "(=> (and (lk $s n i) (lk $s m j) (= (rk n) (rk m))) (= n m))"},
	{"Imkfl", "n Node", []string{"(mk $s n)"}, "(=> (mk $s n) (fl $s n))"},
	{"Ifull", "n Node, i Int", []string{"(fl $s n)|(lk $s n i)", "(mk $s n)|(lk $s n i)"}, "(=> (and (fl $s n) (not (mk $s n)) (<= 0 i) (< i (lev n))) (lk $s n i))"},
	{"Ifull0", "n Node", []string{"(fl $s n)"}, "(=> (fl $s n) (and (not (= n nil)) (<= 1 (lev n)) (<= (lev n) $MAX) (ev $s n 0) (ev $s n (- (lev n) 1))))"},
	{"Ievfl", "n Node, i Int", []string{"(fl $s n)|(ev $s n i)"}, "(=> (and (fl $s n) (<= 0 i) (< i (lev n))) (ev $s n i))"},
	{"Ihl2", "n Node, i Int", []string{"(ev $s n i)"}, "(=> (and (ev $s n i) (not (= n h))) (< i (hl $s)))"},
	{"Iev", "n Node, i Int", []string{"(ev $s n i)"}, "(=> (ev $s n i) (and (not (= n nil)) (<= 0 i) (< i (lev n)) (< i $MAX) (=> (<= $OP1 i) (ex n)) (=> (not (mk $s n)) (lk $s n i))))"},
	{"Ievdown", "n Node, i Int, j Int", []string{"(ev $s n i)|(ev $s n j)"}, "(=> (and (ev $s n i) (<= 0 j) (<= j i)) (ev $s n j))"},
	{"Ievnext", "n Node, i Int", []string{"(nx $s n i)"}, "(=> (and (ev $s n i) (not (= (nx $s n i) nil))) (and (ev $s (nx $s n i) i) (< (rk n) (rk (nx $s n i)))))"},
	// history of the call
	{"Hfrozen", "n Node, i Int", []string{"(nx $s n i)"}, "(=> (was $s n i) (wnx $s n i (nx $s n i)))"},
	{"Hnow", "n Node, i Int", []string{"(lk $s n i)"}, "(=> (lk $s n i) (was $s n i))"},
	{"Hev", "n Node, i Int", []string{"(was $s n i)"}, "(=> (was $s n i) (ev $s n i))"},
	{"Hdown", "n Node, i Int, j Int", []string{"(was $s n i)|(was $s n j)"}, "(=> (and (was $s n i) (<= 0 j) (<= j i)) (was $s n j))"},
	{"Hwnx", "n Node, i Int, c Node", []string{"(wnx $s n i c)"}, "(=> (wnx $s n i c) (and (was $s n i) (=> (not (= c nil)) (and (was $s c i) (< (rk n) (rk c))))))"},
	{"Hgap", "n Node, i Int, c Node, r Real", []string{"(wnx $s n i c)|(hmiss $s r i)"}, "(=> (and (wnx $s n i c) (< (rk n) r) (or (= c nil) (< r (rk c)))) (hmiss $s r i))"},
	{"Hmiss0", "r Real", []string{"(absent $s r)"}, "(=> (hmiss $s r 0) (absent $s r))"},
	{"Hmissup", "r Real, i Int, j Int", []string{"(hmiss $s r i)|(hmiss $s r j)"}, "(=> (and (hmiss $s r i) (<= 0 i) (<= i j)) (hmiss $s r j))"},
	{"Hmisswnf", "n Node, r Real, i Int", []string{"(hmiss $s r i)|(wnf $s n)"}, "(=> (and (hmiss $s r i) (= r (rk n)) (<= 0 i) (< i (lev n)) (not (mk $s n))) (wnf $s n))"},
	{"Hmisshl", "r Real, i Int", []string{"(hmiss $s r i)"}, "(=> (and (<= (hl $s) i) (< 0.0 r)) (hmiss $s r i))"},
	{"Hwnf", "n Node", []string{"(wnf $s n)"}, "(=> (and (wnf $s n) (fl $s n) (not (= n h))) (absent $s (rk n)))"},
	{"Hwnf0", "n Node", []string{"(wnf $s n)", "(fl $s n)"}, "(=> (not (fl $s n)) (wnf $s n))"},
	{"Hwasmk", "n Node, i Int", []string{"(was $s n i)|(mk $s n)"}, "(=> (and (was $s n i) (mk $s n)) (absent $s (rk n)))"},
	{"Hwasnf", "n Node, i Int", []string{"(was $s n i)|(fl $s n)"}, "(=> (and (was $s n i) (not (fl $s n))) (absent $s (rk n)))"},
	{"Hpres", "n Node", []string{"(mk $s n)", "(fl $s n)"}, "(=> (and (fl $s n) (not (mk $s n)) (not (= n h))) (present $s (rk n)))"},
	{"Hwnm", "n Node", []string{"(wnm $s n)"}, "(=> (and (wnm $s n) (fl $s n) (not (= n h))) (present $s (rk n)))"},
	{"Hwnm0", "n Node", []string{"(wnm $s n)", "(mk $s n)"}, "(=> (not (mk $s n)) (wnm $s n))"},
}

// rely: what any number of steps of other goroutines (and, with the ghost sets emptied, of this one) may do
// between states $s and $t. held/myc/mym: nodes locked, created, marked by this operation.
var rely = []Ax{
	{"Efl", "n Node", []string{"(fl $t n)", "(fl $s n)"}, "(=> (fl $s n) (fl $t n))"},
	{"Emk", "n Node", []string{"(mk $t n)", "(mk $s n)"}, "(=> (mk $s n) (mk $t n))"},
	{"Eev", "n Node, i Int", []string{"(ev $t n i)", "(ev $s n i)"}, "(=> (ev $s n i) (ev $t n i))"},
	{"Ewas", "n Node, i Int", []string{"(was $t n i)"}, "(=> (was $s n i) (was $t n i))"},
	{"Ewnx", "n Node, i Int, c Node", []string{"(wnx $t n i c)"}, "(=> (wnx $s n i c) (wnx $t n i c))"},
	{"Ehmiss", "r Real, i Int", []string{"(hmiss $t r i)"}, "(=> (hmiss $s r i) (hmiss $t r i))"},
	{"Eabsent", "r Real", []string{"(absent $t r)"}, "(=> (absent $s r) (absent $t r))"},
	{"Epresent", "r Real", []string{"(present $t r)"}, "(=> (present $s r) (present $t r))"},
	{"Ewnf", "n Node", []string{"(wnf $t n)"}, "(=> (wnf $s n) (wnf $t n))"},
	{"Ewnm", "n Node", []string{"(wnm $t n)"}, "(=> (wnm $s n) (wnm $t n))"},
	{"Ehl", "", nil, "(<= (hl $s) (hl $t))"},
	{"Efrozen", "n Node, i Int", []string{"(nx $t n i)", "(nx $s n i)"}, "(=> (and (mk $s n) (ev $s n i)) (= (nx $t n i) (nx $s n i)))"},
	{"Elk", "n Node, i Int", []string{"(lk $t n i)", "(lk $s n i)"}, "(=> (and (lk $s n i) (not (mk $t n))) (lk $t n i))"},
	{"Enorelink", "n Node, i Int", []string{"(lk $t n i)", "(lk $s n i)"}, "(=> (and (not (lk $s n i)) (fl $s n)) (not (lk $t n i)))"},
	{"Eheld", "n Node, i Int", []string{"(nx $t n i)", "(nx $s n i)"}, "(=> (and (select $held n) (ev $s n i)) (= (nx $t n i) (nx $s n i)))"},
	{"Eheldmk", "n Node", []string{"(mk $t n)", "(mk $s n)"}, "(=> (select $held n) (= (mk $t n) (mk $s n)))"},
	{"Emym", "n Node, i Int", []string{"(lk $t n i)", "(lk $s n i)"}, "(=> (select $mym n) (= (lk $t n i) (and (lk $s n i) (lk $t n i))))"},
	{"Emym2", "n Node, i Int", []string{"(lk $t n i)", "(lk $s n i)"}, "(=> (and (select $mym n) (lk $s n i)) (lk $t n i))"},
	{"Emyc", "n Node, i Int", []string{"(ev $t n i)", "(ev $s n i)", "(nx $t n i)"}, "(=> (and (select $myc n) (not (ev $s n i))) (and (not (ev $t n i)) (= (nx $t n i) (nx $s n i))))"},
	{"Emycfl", "n Node", []string{"(fl $t n)", "(fl $s n)"}, "(=> (and (select $myc n) (not (fl $s n))) (not (fl $t n)))"},
}

func parseVars(v string) (names, sorts []string) {
	if v == "" {
		return
	}
	for _, p := range strings.Split(v, ",") {
		f := strings.Fields(p)
		names = append(names, f[0])
		sorts = append(sorts, f[1])
	}
	return
}

func sub(t string, m map[string]string) string {
	for k, v := range m {
		t = strings.ReplaceAll(t, "$"+k, v)
	}
	return t
}

// quantify renders an axiom with the given substitution and extra leading variables.
func quantify(a Ax, m map[string]string, extra string) string {
	names, srts := parseVars(a.Vars)
	if extra != "" {
		en, es := parseVars(extra)
		names, srts = append(en, names...), append(es, srts...)
	}
	body := sub(a.Body, m)
	if len(names) == 0 {
		return "(assert " + body + ")"
	}
	var b strings.Builder
	b.WriteString("(assert (forall (")
	for i := range names {
		fmt.Fprintf(&b, "(%s %s)", names[i], srts[i])
	}
	b.WriteString(") (! " + body)
	for _, p := range a.Pats {
		b.WriteString(" :pattern (" + strings.ReplaceAll(sub(p, m), "|", " ") + ")")
	}
	fmt.Fprintf(&b, " :qid %s)))", a.Name)
	return b.String()
}

// refute renders the negation of an axiom with its variables replaced by fresh constants.
func refute(a Ax, m map[string]string) (decls, neg string) {
	names, srts := parseVars(a.Vars)
	body := sub(a.Body, m)
	var b strings.Builder
	mm := map[string]string{}
	for i := range names {
		c := "sk_" + names[i]
		fmt.Fprintf(&b, "(declare-const %s %s)\n", c, srts[i])
		mm[names[i]] = c
	}
	return b.String(), "(not " + renameVars(body, mm) + ")"
}

// renameVars replaces whole tokens.
func renameVars(t string, m map[string]string) string {
	var b strings.Builder
	i := 0
	isTok := func(c byte) bool { return !(c == '(' || c == ')' || c == ' ' || c == '\n') }
	for i < len(t) {
		if !isTok(t[i]) {
			b.WriteByte(t[i])
			i++
			continue
		}
		j := i
		for j < len(t) && isTok(t[j]) {
			j++
		}
		if r, ok := m[t[i:j]]; ok {
			b.WriteString(r)
		} else {
			b.WriteString(t[i:j])
		}
		i = j
	}
	return b.String()
}
