package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of the symbolic executor. Terms are SMT-LIB text.
type Val interface{}

type VInt struct { // mathematical integer
	T     string
	Const bool
	C     int64
}
type VBool struct{ T string }
type VNode struct{ T string } // pointer to a node of the set (or nil)
type VVal struct{ T string }  // an element
type VArr struct{ T string }  // array of node pointers
type VSet struct{}            // the set under verification
type VFn struct {
	Kind string // "static", "less", "visitor"
	Fn   *ssa.Function
	Bind []Val
}
type VTuple []Val
type VStruct struct {
	F []Val
}
type VAddr struct {
	Kind string // cell, nfield, next, basearr, extraarr, slot, flagword, sfield, bvword, global
	Cell int
	Path []string // within a cell: ".k" or index terms "[t"
	N    string   // node
	Role string   // field role
	I    string   // slot index (of the whole level range)
	Idx  string   // index within base/extra array
}
type VSlice struct { // window onto a local array
	A            VAddr
	Lo, Len, Cap VInt
}
type VFlag struct { // a flag word read from a node: f applied to the word with bits fl, mk
	Fl, Mk string
	N      string
	F      func(uint32) uint32
	Desc   string
}
type VBV struct{ T string } // 32-bit word (flag methods)
type VOpaque struct{ T string }

func kInt(c int64) VInt {
	t := fmt.Sprint(c)
	if c < 0 {
		t = fmt.Sprintf("(- %d)", -c)
	}
	return VInt{t, true, c}
}

func valKey(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case VFn:
		s := "fn:" + v.Kind
		if v.Fn != nil {
			s += v.Fn.String()
		}
		for _, b := range v.Bind {
			s += "|" + valKey(b)
		}
		return s
	case VTuple:
		s := "tup"
		for _, b := range v {
			s += "|" + valKey(b)
		}
		return s
	case VStruct:
		s := "struct"
		for _, b := range v.F {
			s += "|" + valKey(b)
		}
		return s
	case VFlag:
		return "flag:" + v.Fl + v.Mk + v.Desc
	}
	return fmt.Sprintf("%T%v", v, v)
}

func and(xs ...string) string {
	var o []string
	for _, x := range xs {
		if x == "false" {
			return "false"
		}
		if x != "true" && x != "" {
			o = append(o, x)
		}
	}
	switch len(o) {
	case 0:
		return "true"
	case 1:
		return o[0]
	}
	return "(and " + strings.Join(o, " ") + ")"
}

func or(xs ...string) string {
	var o []string
	for _, x := range xs {
		if x == "true" {
			return "true"
		}
		if x != "false" && x != "" {
			o = append(o, x)
		}
	}
	switch len(o) {
	case 0:
		return "false"
	case 1:
		return o[0]
	}
	return "(or " + strings.Join(o, " ") + ")"
}

func not(x string) string {
	switch {
	case x == "true":
		return "false"
	case x == "false":
		return "true"
	case strings.HasPrefix(x, "(not ") && balanced(x[5:len(x)-1]):
		return x[5 : len(x)-1]
	}
	return "(not " + x + ")"
}

func balanced(x string) bool {
	d := 0
	for i := 0; i < len(x); i++ {
		if x[i] == '(' {
			d++
		} else if x[i] == ')' {
			d--
			if d < 0 {
				return false
			}
		}
	}
	return d == 0
}

func imp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}
func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}
func op2s(o, a, b string) string { return "(" + o + " " + a + " " + b + ")" }
func sel(a, i string) string     { return "(select " + a + " " + i + ")" }
func ap(f string, args ...string) string {
	return "(" + f + " " + strings.Join(args, " ") + ")"
}

func arith(o string, a, b VInt) VInt {
	if a.Const && b.Const {
		switch o {
		case "+":
			return kInt(a.C + b.C)
		case "-":
			return kInt(a.C - b.C)
		case "*":
			return kInt(a.C * b.C)
		}
	}
	if b.Const && b.C == 0 && (o == "+" || o == "-") {
		return a
	}
	// x+c+d
	if b.Const && (o == "+" || o == "-") {
		if base, c, ok := splitAdd(a.T); ok {
			d := b.C
			if o == "-" {
				d = -d
			}
			return addConst(base, c+d)
		}
		d := b.C
		if o == "-" {
			d = -d
		}
		return addConst(a.T, d)
	}
	if a.Const && o == "+" {
		return arith("+", b, a)
	}
	return VInt{T: op2s(o, a.T, b.T)}
}

func addConst(t string, c int64) VInt {
	switch {
	case c == 0:
		return VInt{T: t}
	case c > 0:
		return VInt{T: fmt.Sprintf("(+ %s %d)", t, c)}
	}
	return VInt{T: fmt.Sprintf("(- %s %d)", t, -c)}
}

func splitAdd(t string) (string, int64, bool) {
	if len(t) < 5 || !(strings.HasPrefix(t, "(+ ") || strings.HasPrefix(t, "(- ")) {
		return "", 0, false
	}
	k := strings.LastIndexByte(t, ' ')
	var c int64
	if _, err := fmt.Sscanf(t[k+1:len(t)-1], "%d", &c); err != nil || fmt.Sprint(c) != t[k+1:len(t)-1] {
		return "", 0, false
	}
	base := t[3:k]
	if !balanced(base) || base == "" {
		return "", 0, false
	}
	// exactly one operand before the constant
	d := 0
	for i := 0; i < len(base); i++ {
		switch base[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return "", 0, false
			}
		}
	}
	if t[1] == '-' {
		c = -c
	}
	return base, c, true
}

// State is the thread-local state along one path.
type State struct {
	s                string // current shared state
	held, myc, mym   string
	na, nr, dlen     int
	inc              bool
	la, lr           string
	stopped          bool
	visited, last    string
	gx               string
	lenRead          string
	cells            map[int]Val
	assigned         map[string]bool
	cnt              int // fresh-name counter
	nalloc           int
	ownWrites, unlks int
	mode             *Loop // loop whose invariant is being inferred; nil: check obligations
	prov             map[string][2]string
	zeros            string // draws that came out zero
	drawDone         bool
	drawn, retried   bool   // a height was drawn; and the attempt it was drawn for has failed since
	found            string // result of the last search
	search           *searchRec
	hlf              string // highest recorded level when the last search began
	solo             bool   // no other operation is in progress
	attempt          int    // iterations of the loop run alone
	bvWord           string // the flag word, when no other operation changes it
	ctorFl           map[string]uint32
	bvLast           string // flag methods: last event
	bvOld, bvNew     string
	bvWrites         int
	defers           []deferRec
}

// searchRec is what the contract of the last search says about its results.
type searchRec struct {
	s, hl0, ret string
	arrs        []string
	ensures     []string
}

// deferRec is a deferred call: what is called with which arguments when the activation fr returns.
type deferRec struct {
	fr   *Frame
	in   *ssa.Defer
	fv   Val
	args []Val
	pos  token.Pos
}

// argOf: the node or integer argument j of the deferred call depends on (nil: none)
func (d deferRec) argOf(j int) Val {
	switch a := d.args[j].(type) {
	case VAddr:
		if a.Kind != "cell" && a.N != "" {
			return VNode{a.N}
		}
	case VNode:
		return a
	case VInt:
		if !a.Const {
			return a
		}
	case VArr:
		return a
	}
	return nil
}

func (d deferRec) withArg(j int, v Val) deferRec {
	d.args = append([]Val{}, d.args...)
	if a, ok := d.args[j].(VAddr); ok {
		a.N = termOf(v)
		v = a
	}
	d.args[j] = v
	return d
}

// shape: everything about the call that is not one of those arguments
func (d deferRec) shape() string {
	s := fmt.Sprintf("%d/%p/%s", d.fr.id, d.in, valKey(d.fv))
	for j, a := range d.args {
		switch v := d.argOf(j); {
		case v == nil:
			s += "," + valKey(a)
		default:
			k, _ := kindOf(v)
			if ad, ok := a.(VAddr); ok {
				ad.N = ""
				k += valKey(ad)
			}
			s += "," + k
		}
	}
	return s
}

func (st *State) clone() *State {
	n := *st
	n.cells = make(map[int]Val, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.assigned = make(map[string]bool, len(st.assigned))
	for k, v := range st.assigned {
		n.assigned[k] = v
	}
	n.prov = make(map[string][2]string, len(st.prov))
	for k, v := range st.prov {
		n.prov[k] = v
	}
	n.ctorFl = make(map[string]uint32, len(st.ctorFl))
	for k, v := range st.ctorFl {
		n.ctorFl[k] = v
	}
	return &n
}

// Frame is one (inlined) activation.
type Frame struct {
	id    int
	fn    *ssa.Function
	env   map[ssa.Value]Val
	loops map[*ssa.BasicBlock]*Loop
	cuts  map[*ssa.BasicBlock]*cut // the header state this iteration started from
	depth int
	path  string
	k     func(st *State, rets []Val)
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*Loop, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.cuts = make(map[*ssa.BasicBlock]*cut, len(f.cuts)+1)
	for k, v := range f.cuts {
		n.cuts[k] = v
	}
	return &n
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
