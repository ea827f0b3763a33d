package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ob is a named obligation; it holds when every path's query for it was discharged.
type Ob struct {
	Name   string
	Tags   []string
	Pos    string
	N, Bad int
	Why    string
	Script string
	Goals  []string // scripts of the instances not discharged at first (limited)
	More   int      // instances beyond that limit
	By     string   // how an instance not discharged at first was discharged
}

// Unit is one function under contract.
type Unit struct {
	Name    string
	V       *Variant
	Fn      *ssa.Function
	Spec    *Spec
	Reader  bool
	Key     string // the element searched for
	From    bool   // key bounds the visited elements (RangeFrom)
	Kind    string // "op", "ctor", "bv", "draw"
	CtorVar *Variant
}

type Exec struct {
	p          *Pkg
	v          *Variant
	u          *Unit
	specs      map[string]*Spec
	sol        *Solver
	obs        map[string]*Ob
	order      []string
	frames     int
	steps      int
	vcs        int
	clauseSeen map[string]bool // conditional clauses that applied at some return
	covers     int             // feasible returns seen in checking mode
	F, M       uint32
	s0         string
	held0      string
	retHook    func(st *State, fr *Frame, rets []Val)
	cutsN      int
	candsN     int
	dead       bool
	failed     map[string]bool
	wide       bool // use every invariant template
	invs       []string
	inlined    map[string]bool
	arr        *arrTracer
}

type engineFail struct{ why string }

func (x *Exec) fresh(st *State, prefix, sort string) string {
	n := prefix + itoa(st.cnt)
	st.cnt++
	x.sol.Declare(n, sort)
	return n
}

// record the outcome of one obligation query
var failFast = os.Getenv("SKV_FAST") != "" // experiments only: the unit command stops at the first failure

func (x *Exec) note(name string, tags []string, pos token.Pos, ok bool, why, script string) {
	full := x.u.Name + "/" + name
	o := x.obs[full]
	if o == nil {
		o = &Ob{Name: full, Tags: tags, Pos: x.p.pos(pos)}
		x.obs[full] = o
		x.order = append(x.order, full)
	}
	o.N++
	if !ok {
		if failFast {
			fmt.Println("FAIL", full, x.p.pos(pos), why)
			os.Exit(1)
		}
		o.Bad++
		if script != "" && len(o.Goals) < 60 {
			o.Goals = append(o.Goals, script)
		} else {
			o.More++
		}
		if o.Why == "" {
			o.Why, o.Script, o.Pos = why, script, x.p.pos(pos)
		}
	}
}

func (x *Exec) oblige(st *State, name string, tags []string, goal string, pos token.Pos) bool {
	// Where the code cannot go on unless the obligation holds (it would panic, or block for ever), or where a
	// failure counts against every property, the rest of the path is explored under it. Anything else that fails is
	// not assumed: it must not hide what else goes wrong.
	stops := stopping[name] || len(tags) >= len(structProps)
	if st.mode != nil || x.dead {
		if stops {
			x.sol.Assert(goal)
		}
		return true
	}
	x.vcs++
	ok := goal == "true" || x.sol.Prove(goal)
	script := ""
	if !ok {
		script = x.sol.Script(goal)
	}
	x.note(name, tags, pos, ok, "not discharged: "+goal, script)
	if ok || stops {
		x.sol.Assert(goal)
	}
	return ok
}

// obligations without which the code does not go on
var stopping = map[string]bool{"nil-deref": true, "index-in-range": true, "slice-in-range": true, "no-panic": true,
	"slot-allocated": true, "flags-of-a-node": true, "lock:not-held": true, "unlock:held": true}

var allProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15"}

// unsupported: a construct outside the verified subset; nothing is assumed about it.
func (x *Exec) unsupported(st *State, why string, pos token.Pos) {
	x.oblige(st, "subset:"+why, allProps, "false", pos)
}

func (x *Exec) branch(c string, f func()) {
	if c == "false" {
		return
	}
	x.sol.Push()
	x.sol.Assert(c)
	if c == "true" || !x.sol.Unsat("") {
		f()
	}
	x.sol.Pop()
}

// envStep: any number of steps of other goroutines.
func (x *Exec) envStep(st *State) {
	if st.solo {
		return
	}
	t := x.fresh(st, "s", "S")
	x.sol.Assert("(st " + t + ")")
	x.sol.Assert(ap("rely", st.s, t, st.held, st.myc, st.mym))
	st.s = t
}

// restart: the same shared state, seen by a history that starts now (raise: but for the highest level, which may be higher)
func (x *Exec) restart(st *State, raise bool) {
	t := x.fresh(st, "s", "S")
	x.sol.Assert("(st " + t + ")")
	for _, f := range stateFns {
		if f.name == "hl" {
			if raise {
				x.sol.Assert(op2s("<=", ap("hl", st.s), ap("hl", t)))
			} else {
				x.sol.Assert(eq(ap("hl", st.s), ap("hl", t)))
			}
			continue
		}
		lhs, old := "("+f.name+" "+t+" "+f.call+")", "("+f.name+" "+st.s+" "+f.call+")"
		x.sol.Add(quantify(Ax{Name: "same_" + f.name, Vars: f.args, Pats: []string{lhs, old}, Body: eq(lhs, old)}, nil, ""))
	}
	for _, a := range []Ax{
		{"now_was", "n Node, i Int", []string{"(was $t n i)"}, "(= (was $t n i) (lk $t n i))"},
		{"now_wnx", "n Node, i Int, c Node", []string{"(wnx $t n i c)"}, "(= (wnx $t n i c) (and (lk $t n i) (= (nx $t n i) c)))"},
		{"now_wnf", "n Node", []string{"(wnf $t n)"}, "(= (wnf $t n) (not (fl $t n)))"},
		{"now_wnm", "n Node", []string{"(wnm $t n)"}, "(= (wnm $t n) (not (mk $t n)))"},
	} {
		x.sol.Add(quantify(a, map[string]string{"t": t}, ""))
	}
	st.s = t
}

// alone: no other operation is in progress, so whatever another one links is complete and not marked
func (x *Exec) alone(st *State) {
	st.solo = true
	x.restart(st, false)
	x.sol.Add(quantify(Ax{Name: "alone", Vars: "n Node, i Int", Pats: []string{"(lk $s n i)"},
		Body: "(=> (lk $s n i) (and (or (fl $s n) (select $myc n)) (or (not (mk $s n)) (select $mym n))))"},
		map[string]string{"s": st.s, "myc": st.myc, "mym": st.mym}, ""))
	st.bvWord = x.fresh(st, "w", "(_ BitVec 32)")
}

func (x *Exec) step(st *State) string { // own step: the history of the call is monotone
	t := x.fresh(st, "s", "S")
	x.sol.Assert("(st " + t + ")")
	x.sol.Assert(ap("rely", st.s, t, "none", "none", "none"))
	st.ownWrites++
	return t
}

func actionByName(n string) *Action {
	for i := range actions {
		if actions[i].Name == n {
			return &actions[i]
		}
	}
	panic(n)
}

// act performs a guarantee action: its precondition is an obligation, its effect is assumed.
func (x *Exec) act(st *State, name string, args []string, extra map[string]string, tags []string, pos token.Pos) {
	a := actionByName(name)
	pn, _ := parseVars(a.Params)
	ren := map[string]string{}
	for i := range pn {
		ren[pn[i]] = args[i]
	}
	m := map[string]string{"s": st.s, "held": st.held, "myc": st.myc, "mym": st.mym, "MAX": itoa(x.p.MaxLevel), "OP1": itoa(x.p.Op1)}
	for _, p := range a.Pre {
		x.oblige(st, name+":"+p.Name, tags, renameVars(sub(p.Body, m), ren), pos)
	}
	t := x.step(st)
	for _, f := range stateFns {
		lhs := "(" + f.name + " " + t
		old := "(" + f.name + " " + st.s
		if f.call != "" {
			lhs += " " + f.call
			old += " " + f.call
		}
		lhs += ")"
		old += ")"
		rhs := old
		if u, ok := a.Upd[f.name]; ok {
			rhs = renameVars(sub(u, m), ren)
		}
		x.sol.Add(quantify(Ax{Name: "upd_" + f.name, Vars: f.args, Pats: []string{lhs, old}, Body: "(= " + lhs + " " + rhs + ")"}, nil, ""))
	}
	st.s = t
}

// ---------------------------------------------------------------------------------------------- running

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if n := namedOf(t); n != nil && x.v != nil && n == x.v.Node {
				return VNode{"nil"}
			}
			return VOpaque{"nilptr"}
		case *types.Basic:
			if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
				return VNode{"nil"}
			}
		case *types.Signature:
			return VOpaque{"nilfunc"}
		}
		if _, ok := t.(*types.TypeParam); ok {
			return VOpaque{"zero"}
		}
		return x.zero(nil, t)
	}
	switch c.Value.Kind() {
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return kInt(i)
		}
		return VOpaque{"bigconst" + c.Value.ExactString()}
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return VBool{"true"}
		}
		return VBool{"false"}
	}
	return VOpaque{"const" + c.Value.ExactString()}
}

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return VFn{Kind: "static", Fn: v}
	case *ssa.Global:
		return VAddr{Kind: "global", N: v.Name()}
	case *ssa.Builtin:
		return VFn{Kind: "builtin:" + v.Name()}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(engineFail{"no value for " + v.Name() + " in " + fr.fn.String()})
}

func (x *Exec) zero(st *State, t types.Type) Val {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return VOpaque{"zero"}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return kInt(0)
		case u.Info()&types.IsBoolean != 0:
			return VBool{"false"}
		case u.Kind() == types.UnsafePointer:
			return VNode{"nil"}
		}
		return VOpaque{"zero:" + u.Name()}
	case *types.Pointer:
		if n := namedOf(t); n != nil && x.v != nil && n == x.v.Node {
			return VNode{"nil"}
		}
		return VOpaque{"nilptr"}
	case *types.Array:
		if z, ok := x.zero(st, u.Elem()).(VNode); ok && z.T == "nil" {
			return VArr{"nils"}
		}
		return VOpaque{"zeroarr"}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && strings.Contains(n.Obj().Name(), "nt") {
			return kInt(0) // atomic.Int64 and the like: the word itself
		}
		var f []Val
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, x.zero(st, u.Field(i).Type()))
		}
		return VStruct{f}
	}
	return VOpaque{"zero"}
}

func (x *Exec) run(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	x.steps++
	if x.steps > 400000 {
		panic(engineFail{"step budget exhausted"})
	}
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			fr.env[in] = x.alloc(fr, st, in)
		case *ssa.BinOp:
			fr.env[in] = x.binop(st, in.Op, x.val(fr, in.X), x.val(fr, in.Y), in)
		case *ssa.UnOp:
			a := x.val(fr, in.X)
			switch in.Op {
			case token.MUL:
				fr.env[in] = x.load(st, a, in.Type(), in.Pos())
			case token.NOT:
				if bv, ok := a.(VBool); ok {
					fr.env[in] = VBool{not(bv.T)}
				} else {
					x.unsupported(st, "not", in.Pos())
					fr.env[in] = VBool{x.fresh(st, "b", "Bool")}
				}
			case token.SUB:
				if iv, ok := a.(VInt); ok {
					fr.env[in] = arith("-", kInt(0), iv)
				} else {
					fr.env[in] = VOpaque{"neg"}
				}
			case token.XOR:
				if iv, ok := a.(VInt); ok && iv.Const {
					fr.env[in] = kInt(int64(^uint32(iv.C)))
				} else if bv, ok := a.(VBV); ok {
					fr.env[in] = VBV{ap("bvnot", bv.T)}
				} else {
					fr.env[in] = VOpaque{"compl"}
				}
			default:
				fr.env[in] = VOpaque{"unop"}
			}
		case *ssa.ChangeType:
			fr.env[in] = x.val(fr, in.X)
		case *ssa.Convert:
			a := x.val(fr, in.X)
			if _, ok := a.(VVal); ok && !types.Identical(in.X.Type(), in.Type()) {
				a = VOpaque{"converted element"}
			}
			if iv, ok := a.(VInt); ok {
				x.exactConversion(st, iv, in)
			}
			if o, ok := a.(VOpaque); ok && o.T == "nilptr" && in.Type().Underlying() == types.Typ[types.UnsafePointer] {
				a = VNode{"nil"}
			}
			fr.env[in] = a
		case *ssa.MultiConvert:
			fr.env[in] = VOpaque{"converted element"}
		case *ssa.MakeInterface, *ssa.ChangeInterface:
			fr.env[in.(ssa.Value)] = VOpaque{"iface"}
		case *ssa.FieldAddr:
			fr.env[in] = x.fieldAddr(st, x.val(fr, in.X), in)
		case *ssa.Field:
			if s, ok := x.val(fr, in.X).(VStruct); ok && in.Field < len(s.F) {
				fr.env[in] = s.F[in.Field]
			} else {
				x.unsupported(st, "field", in.Pos())
				fr.env[in] = x.unknown(st, in.Type())
			}
		case *ssa.Slice:
			fr.env[in] = x.slice(fr, st, in)
		case *ssa.IndexAddr:
			fr.env[in] = x.indexAddr(st, x.val(fr, in.X), x.val(fr, in.Index), in.X.Type(), in.Pos())
		case *ssa.Index:
			a, ok := x.val(fr, in.X).(VArr)
			ix, ok2 := x.val(fr, in.Index).(VInt)
			if ok && ok2 {
				n := int64(x.p.MaxLevel)
				if at, ok := in.X.Type().Underlying().(*types.Array); ok {
					n = at.Len()
				}
				x.bounds(st, ix.T, n, in.Pos())
				fr.env[in] = VNode{sel(a.T, ix.T)}
			} else {
				x.unsupported(st, "index", in.Pos())
				fr.env[in] = x.unknown(st, in.Type())
			}
		case *ssa.Extract:
			if t, ok := x.val(fr, in.Tuple).(VTuple); ok && in.Index < len(t) {
				fr.env[in] = t[in.Index]
			} else {
				x.unsupported(st, "extract", in.Pos())
				fr.env[in] = x.unknown(st, in.Type())
			}
		case *ssa.MakeClosure:
			var bs []Val
			for _, q := range in.Bindings {
				bs = append(bs, x.val(fr, q))
			}
			fr.env[in] = VFn{Kind: "static", Fn: in.Fn.(*ssa.Function), Bind: bs}
		case *ssa.Store:
			x.store(st, x.val(fr, in.Addr), x.val(fr, in.Val), in.Pos())
		case *ssa.Call:
			i := i
			x.call(fr, st, &in.Call, in.Type(), in.Pos(), func(st *State, r Val) {
				f2 := fr.clone()
				f2.env[in] = r
				x.run(f2, b, i+1, st)
			})
			return
		case *ssa.Defer:
			cc := in.Call
			pos := in.Pos()
			// arguments are evaluated now
			args := make([]Val, len(cc.Args))
			for k, a := range cc.Args {
				args[k] = x.val(fr, a)
			}
			fv := x.val(fr, cc.Value)
			st.defers = append(st.defers[:len(st.defers):len(st.defers)], deferRec{fr: fr, in: in, fv: fv, args: args, pos: pos})
		case *ssa.RunDefers:
			i := i
			var next func(st *State)
			next = func(st *State) {
				n := len(st.defers)
				if n == 0 || st.defers[n-1].fr.id != fr.id {
					x.run(fr.clone(), b, i+1, st)
					return
				}
				d := st.defers[n-1]
				st.defers = st.defers[: n-1 : n-1]
				x.callVal(d.fr, st, d.fv, d.args, nil, d.pos, func(st *State, _ Val) { next(st) })
			}
			next(st)
			return
		case *ssa.Jump:
			x.enter(fr, b, b.Succs[0], st)
			return
		case *ssa.If:
			c, ok := x.val(fr, in.Cond).(VBool)
			if !ok {
				x.unsupported(st, "condition", in.Cond.Pos())
				c = VBool{x.fresh(st, "b", "Bool")}
			}
			switch c.T {
			case "true":
				x.enter(fr, b, b.Succs[0], st)
			case "false":
				x.enter(fr, b, b.Succs[1], st)
			default:
				x.branch(c.T, func() { x.enter(fr.clone(), b, b.Succs[0], st.clone()) })
				x.branch(not(c.T), func() { x.enter(fr.clone(), b, b.Succs[1], st.clone()) })
			}
			return
		case *ssa.Return:
			if st.mode != nil && st.mode.frame == fr.id {
				return // leaves the loop whose invariant is being inferred
			}
			var rets []Val
			for _, r := range in.Results {
				rets = append(rets, x.val(fr, r))
			}
			fr.k(st, rets)
			return
		case *ssa.Panic:
			x.oblige(st, "no-panic", []string{"C09", "C15"}, "false", in.Pos())
			return
		default:
			x.unsupported(st, strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa."), in.Pos())
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = x.unknown(st, v.Type())
			}
		}
		if x.dead {
			return
		}
	}
}

func (x *Exec) unknown(st *State, t types.Type) Val {
	if t == nil {
		return nil
	}
	if tu, ok := t.(*types.Tuple); ok {
		var r VTuple
		for i := 0; i < tu.Len(); i++ {
			r = append(r, x.unknown(st, tu.At(i).Type()))
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{T: x.fresh(st, "u", "Int")}
		case u.Info()&types.IsBoolean != 0:
			return VBool{x.fresh(st, "u", "Bool")}
		case u.Kind() == types.UnsafePointer:
			return VNode{x.fresh(st, "u", "Node")}
		}
	case *types.Pointer:
		if n := namedOf(t); n != nil && x.v != nil && n == x.v.Node {
			return VNode{x.fresh(st, "u", "Node")}
		}
	}
	return VOpaque{"unknown"}
}

var intRange = map[types.BasicKind][2]string{
	types.Int8: {"(- 128)", "128"}, types.Int16: {"(- 32768)", "32768"}, types.Int32: {"(- 2147483648)", "2147483648"},
	types.Int64: {"(- 9223372036854775808)", "9223372036854775808"}, types.Int: {"(- 9223372036854775808)", "9223372036854775808"},
	types.Uint8: {"0", "256"}, types.Uint16: {"0", "65536"}, types.Uint32: {"0", "4294967296"},
	types.Uint64: {"0", "18446744073709551616"}, types.Uint: {"0", "18446744073709551616"}, types.Uintptr: {"0", "18446744073709551616"},
}

var intWidth = map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64,
	types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64}

// exactConversion: integers are treated as mathematical, so a conversion that could change the number is an obligation.
func (x *Exec) exactConversion(st *State, v VInt, in *ssa.Convert) {
	to, ok1 := in.Type().Underlying().(*types.Basic)
	fr, ok2 := in.X.Type().Underlying().(*types.Basic)
	if !ok1 || !ok2 || v.Const && v.C >= 0 && v.C < 128 {
		return
	}
	r, ok := intRange[to.Kind()]
	if !ok {
		return
	}
	toS, frS := to.Info()&types.IsUnsigned == 0, fr.Info()&types.IsUnsigned == 0
	wt, wf := intWidth[to.Kind()], intWidth[fr.Kind()]
	if toS == frS && wt >= wf || toS && !frS && wt > wf {
		return
	}
	x.oblige(st, "exact-conversion", structProps, and(op2s("<=", r[0], v.T), op2s("<", v.T, r[1])), in.Pos())
}

func (x *Exec) enter(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	if st.mode != nil && st.mode.frame == fr.id && !st.mode.body[to] {
		return
	}
	for h, l := range fr.loops {
		if !l.body[to] {
			delete(fr.loops, h)
		}
	}
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		phis = append(phis, ph)
		vals = append(vals, x.val(fr, ph.Edges[pi]))
	}
	if body := loopBody(to); body != nil {
		if l := fr.loops[to]; l != nil {
			x.arrive(l, vals, st, fr, from)
			return
		}
		x.loop(fr, to, body, phis, vals, n, st)
		return
	}
	for k, ph := range phis {
		fr.env[ph] = vals[k]
	}
	x.run(fr, to, n, st)
}

var bodyCache = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// loopBody returns the natural loop of h, or nil if h is not a loop header.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	bodyMu.Lock()
	defer bodyMu.Unlock()
	if b, ok := bodyCache[h]; ok {
		return b
	}
	var body map[*ssa.BasicBlock]bool
	for _, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		if body == nil {
			body = map[*ssa.BasicBlock]bool{h: true}
		}
		stack := []*ssa.BasicBlock{p}
		for len(stack) > 0 {
			q := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if !body[q] {
				body[q] = true
				stack = append(stack, q.Preds...)
			}
		}
	}
	bodyCache[h] = body
	return body
}

// ---------------------------------------------------------------------------------------------- memory

func (x *Exec) alloc(fr *Frame, st *State, in *ssa.Alloc) Val {
	t := in.Type().Underlying().(*types.Pointer).Elem()
	if n := namedOf(t); n != nil && x.v != nil && n == x.v.Node {
		if _, isPtr := types.Unalias(t).(*types.Pointer); !isPtr {
			return x.allocNode(st)
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok && int(a.Len()) == x.p.MaxLevel-x.p.Op1 {
		if b, ok := a.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			st.cnt++
			return VAddr{Kind: "newextra", Cell: st.cnt}
		}
	}
	id := st.cnt
	st.cnt++
	st.cells[id] = x.zero(st, t)
	return VAddr{Kind: "cell", Cell: id}
}

func (x *Exec) allocNode(st *State) Val {
	n := x.fresh(st, "n", "Node")
	x.sol.Assert(and("(distinct "+n+" nil h)", not(sel(st.held, n)), not(sel(st.myc, n)), not(sel(st.mym, n)),
		not(ap("fl", st.s, n)), not(ap("mk", st.s, n)),
		fmt.Sprintf("(forall ((i Int)) (! (and (not (ev %s %s i)) (= (nx %s %s i) nil)) :pattern ((nx %s %s i)) :pattern ((ev %s %s i))))", st.s, n, st.s, n, st.s, n, st.s, n)))
	st.myc = ap("store", st.myc, n, "true")
	st.assigned[n] = true
	st.nalloc++
	return VNode{n}
}

func (x *Exec) derefNode(st *State, n string, pos token.Pos) {
	x.oblige(st, "nil-deref", []string{"C09", "C15"}, not(eq(n, "nil")), pos)
}

func (x *Exec) fieldAddr(st *State, a Val, in *ssa.FieldAddr) Val {
	switch a := a.(type) {
	case VSet:
		return VAddr{Kind: "sfield", Role: x.v.SetRole[in.Field]}
	case VNode:
		x.derefNode(st, a.T, in.Pos())
		switch r := x.v.NodRole[in.Field]; r {
		case "next":
			return VAddr{Kind: "next", N: a.T}
		case "flags":
			return VAddr{Kind: "flags", N: a.T}
		case "mu":
			return VAddr{Kind: "mu", N: a.T}
		default:
			return VAddr{Kind: "nfield", N: a.T, Role: r}
		}
	case VAddr:
		switch a.Kind {
		case "cell":
			r := a
			r.Path = append(append([]string{}, a.Path...), "."+itoa(in.Field))
			return r
		case "flags":
			return VAddr{Kind: "flagword", N: a.N}
		case "bitflag":
			return VAddr{Kind: "bvword"}
		case "next":
			st := namedStruct(in.X.Type())
			if st != nil {
				switch st.Field(in.Field).Type().Underlying().(type) {
				case *types.Array:
					return VAddr{Kind: "basearr", N: a.N}
				case *types.Pointer:
					return VAddr{Kind: "extraptr", N: a.N}
				}
			}
		}
	}
	x.unsupported(st, "address of field", in.Pos())
	return VOpaque{"addr"}
}

func namedStruct(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (x *Exec) bounds(st *State, i string, n int64, pos token.Pos) {
	x.oblige(st, "index-in-range", []string{"C09", "C15"}, and(op2s("<=", "0", i), op2s("<", i, itoa(int(n)))), pos)
}

// slice: a slice of a local array is a window onto its cell.
func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	fail := func() Val {
		x.unsupported(st, "slice", in.Pos())
		return VOpaque{"slice"}
	}
	lo, max := kInt(0), VInt{}
	var base VAddr
	off := kInt(0)
	ln := VInt{}
	switch a := x.val(fr, in.X).(type) {
	case VAddr:
		p, ok := in.X.Type().Underlying().(*types.Pointer)
		if !ok || a.Kind != "cell" {
			return fail()
		}
		ar, ok := p.Elem().Underlying().(*types.Array)
		if !ok {
			return fail()
		}
		base, max, ln = a, kInt(ar.Len()), kInt(ar.Len())
	case VSlice:
		base, off, max, ln = a.A, a.Lo, a.Cap, a.Len
	default:
		return fail()
	}
	hi := ln
	for k, v := range []ssa.Value{in.Low, in.High, in.Max} {
		if v == nil {
			continue
		}
		w, ok := x.val(fr, v).(VInt)
		if !ok {
			return fail()
		}
		switch k {
		case 0:
			lo = w
		case 1:
			hi = w
		case 2:
			x.oblige(st, "slice-in-range", []string{"C09", "C15"}, and(op2s("<=", hi.T, w.T), op2s("<=", w.T, max.T)), in.Pos())
			max = w
		}
	}
	x.oblige(st, "slice-in-range", []string{"C09", "C15"}, and(op2s("<=", "0", lo.T), op2s("<=", lo.T, hi.T), op2s("<=", hi.T, max.T)), in.Pos())
	return VSlice{base, arith("+", off, lo), arith("-", hi, lo), arith("-", max, lo)}
}

func (x *Exec) indexAddr(st *State, a, iv Val, t types.Type, pos token.Pos) Val {
	ix, ok := iv.(VInt)
	if sl, isSl := a.(VSlice); isSl && ok {
		x.oblige(st, "index-in-range", []string{"C09", "C15"}, and(op2s("<=", "0", ix.T), op2s("<", ix.T, sl.Len.T)), pos)
		r := sl.A
		r.Path = append(append([]string{}, r.Path...), "["+arith("+", sl.Lo, ix).T)
		return r
	}
	ad, ok2 := a.(VAddr)
	if !ok || !ok2 {
		x.unsupported(st, "element address", pos)
		return VOpaque{"addr"}
	}
	n := int64(0)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if ar, ok := p.Elem().Underlying().(*types.Array); ok {
			n = ar.Len()
		}
	}
	switch ad.Kind {
	case "cell":
		if n == 0 {
			break
		}
		x.bounds(st, ix.T, n, pos)
		r := ad
		r.Path = append(append([]string{}, ad.Path...), "["+ix.T)
		return r
	case "basearr":
		x.bounds(st, ix.T, int64(x.p.Op1), pos)
		return VAddr{Kind: "slot", N: ad.N, I: ix.T}
	case "extraarr":
		x.oblige(st, "nil-deref", []string{"C09", "C15"}, ap("ex", ad.N), pos)
		x.bounds(st, ix.T, int64(x.p.MaxLevel-x.p.Op1), pos)
		return VAddr{Kind: "slot", N: ad.N, I: arith("+", ix, kInt(int64(x.p.Op1))).T}
	}
	x.unsupported(st, "element address", pos)
	return VOpaque{"addr"}
}

func getPath(v Val, path []string) (Val, bool) {
	for _, p := range path {
		if p[0] == '.' {
			s, ok := v.(VStruct)
			if !ok {
				return nil, false
			}
			k := 0
			fmt.Sscan(p[1:], &k)
			if k >= len(s.F) {
				return nil, false
			}
			v = s.F[k]
		} else {
			a, ok := v.(VArr)
			if !ok {
				return nil, false
			}
			v = VNode{sel(a.T, p[1:])}
		}
	}
	return v, true
}

func setPath(v Val, path []string, nv Val) (Val, bool) {
	if len(path) == 0 {
		return nv, true
	}
	p := path[0]
	if p[0] == '.' {
		s, ok := v.(VStruct)
		if !ok {
			return nil, false
		}
		k := 0
		fmt.Sscan(p[1:], &k)
		if k >= len(s.F) {
			return nil, false
		}
		u, ok := setPath(s.F[k], path[1:], nv)
		if !ok {
			return nil, false
		}
		f := append([]Val{}, s.F...)
		f[k] = u
		return VStruct{f}, true
	}
	a, ok := v.(VArr)
	n, ok2 := nv.(VNode)
	if !ok || !ok2 || len(path) != 1 {
		return nil, false
	}
	return VArr{ap("store", a.T, p[1:], n.T)}, true
}

// public: the node can be reached by other goroutines or belongs to this one
func (x *Exec) reachable(st *State, n string) string {
	return or(eq(n, "h"), ap("ev", st.s, n, "0"), sel(st.myc, n))
}

func (x *Exec) load(st *State, a Val, t types.Type, pos token.Pos) Val {
	ad, ok := a.(VAddr)
	if !ok {
		x.unsupported(st, "load", pos)
		return x.unknown(st, t)
	}
	switch ad.Kind {
	case "cell":
		if v, ok := getPath(st.cells[ad.Cell], ad.Path); ok {
			return v
		}
	case "sfield":
		switch ad.Role {
		case "header":
			return VNode{"h"}
		case "less":
			return VFn{Kind: "less"}
		case "length", "hl":
			x.oblige(st, "atomic-access:"+ad.Role, []string{"C10", "C06", "C15"}, "false", pos)
			return x.unknown(st, t)
		}
	case "nfield":
		x.oblige(st, "immutable-once-published:"+ad.Role, []string{"C10", "C15"}, x.reachable(st, ad.N), pos)
		switch ad.Role {
		case "value":
			x.sol.Assert(or(eq(ad.N, "h"), eq(ap("vrk", ap("val", ad.N)), ap("rk", ad.N))))
			return VVal{ap("val", ad.N)}
		case "level":
			return VInt{T: ap("lev", ad.N)}
		}
	case "slot":
		return x.plainLoadSlot(st, ad.N, ad.I, pos)
	case "extraptr":
		if x.arr == nil {
			x.oblige(st, "immutable-once-published:extra", []string{"C10", "C15"}, x.reachable(st, ad.N), pos)
		}
		return VAddr{Kind: "extraarr", N: ad.N}
	case "flagword":
		x.oblige(st, "atomic-access:flags", []string{"C10", "C15"}, "false", pos)
		return x.unknown(st, t)
	case "bvword":
		x.oblige(st, "atomic-access", []string{"C10", "C15"}, "false", pos)
		return VBV{x.fresh(st, "w", "(_ BitVec 32)")}
	case "global":
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			return x.unknown(st, t)
		}
	}
	x.unsupported(st, "load", pos)
	return x.unknown(st, t)
}

func (x *Exec) plainLoadSlot(st *State, n, i string, pos token.Pos) Val {
	if x.arr != nil {
		c := x.fresh(st, "x", "Node")
		x.arr.events = append(x.arr.events, arrEvent{n, i, c, false, false})
		return VNode{c}
	}
	x.oblige(st, "race-free-read:next", []string{"C10", "C15"}, or(sel(st.held, n), and(sel(st.myc, n), not(ap("ev", st.s, n, i)))), pos)
	c := x.fresh(st, "x", "Node")
	x.sol.Assert(eq(c, ap("nx", st.s, n, i)))
	st.prov[c] = [2]string{n, i}
	return VNode{c}
}

func (x *Exec) atomicLoadSlot(st *State, n, i string, pos token.Pos) Val {
	if x.arr != nil {
		c := x.fresh(st, "x", "Node")
		x.arr.events = append(x.arr.events, arrEvent{n, i, c, true, false})
		return VNode{c}
	}
	x.envStep(st)
	x.oblige(st, "initialised-slot", []string{"C10", "C15"}, or(ap("ev", st.s, n, i), sel(st.myc, n)), pos)
	if x.u.Key != "" {
		x.oblige(st, "skips-taller-levels", []string{"C14", "C15"}, or(eq(n, st.gx), eq(n, "h"), op2s("<=", ap("vrk", x.u.Key), ap("rk", n)),
			ap("hmiss", st.s, ap("rk", n), arith("+", VInt{T: i}, kInt(1)).T), sel(st.held, n), sel(st.myc, n)), pos)
	}
	c := x.fresh(st, "x", "Node")
	x.sol.Assert(eq(c, ap("nx", st.s, n, i)))
	st.prov[c] = [2]string{n, i}
	st.gx = n
	return VNode{c}
}

func (x *Exec) storeSlot(st *State, n, i string, v Val, atomic bool, pos token.Pos) {
	c, ok := v.(VNode)
	if !ok {
		x.unsupported(st, "stored link", pos)
		return
	}
	if x.arr != nil {
		x.arr.events = append(x.arr.events, arrEvent{n, i, c.T, atomic, true})
		return
	}
	x.readerWrite(st, pos)
	if atomic {
		x.envStep(st)
	}
	if x.sol.Prove(and(sel(st.myc, n), not(ap("ev", st.s, n, i)))) {
		x.act(st, "private", []string{n, i, c.T}, nil, structProps, pos)
		return
	}
	if !atomic {
		x.oblige(st, "race-free-write:next", []string{"C10", "C15"}, "false", pos)
	}
	if x.sol.Prove(sel(st.myc, c.T)) {
		x.act(st, "link", []string{n, i, c.T}, nil, structProps, pos)
		st.inc = true
		st.prov = map[string][2]string{}
		return
	}
	// unlink: the stored pointer is the link of the node taken out
	m := ""
	if pr, ok := st.prov[c.T]; ok {
		if x.sol.Prove(and(eq(c.T, ap("nx", st.s, pr[0], i)), sel(st.mym, pr[0]))) {
			m = pr[0]
		}
	}
	if m == "" && st.nr > 0 && x.sol.Prove(eq(c.T, ap("nx", st.s, st.lr, i))) {
		m = st.lr
	}
	if m == "" {
		if pr, ok := st.prov[c.T]; ok {
			m = pr[0]
			x.oblige(st, "unlink:bypass", structProps, eq(c.T, ap("nx", st.s, m, i)), pos)
		}
	}
	if m != "" {
		x.act(st, "unlink", []string{n, i, m}, nil, structProps, pos)
		return
	}
	x.oblige(st, "link-or-unlink", structProps, "false", pos)
}

// readerWrite: any write or lock inside a reading operation is an obligation that fails
func (x *Exec) readerWrite(st *State, pos token.Pos) {
	if x.u.Reader {
		x.oblige(st, "reader-writes-nothing", structProps, "false", pos)
	}
}

func (x *Exec) store(st *State, a, v Val, pos token.Pos) {
	ad, ok := a.(VAddr)
	if !ok {
		x.unsupported(st, "store", pos)
		return
	}
	switch ad.Kind {
	case "cell":
		if nv, ok := setPath(st.cells[ad.Cell], ad.Path, v); ok {
			st.cells[ad.Cell] = nv
			return
		}
	case "nfield":
		k := ad.N + "." + ad.Role
		x.readerWrite(st, pos)
		if !st.assigned[ad.N] || st.assigned[k] {
			x.oblige(st, "immutable-once-published:"+ad.Role, structProps, "false", pos)
			return
		}
		st.assigned[k] = true
		x.oblige(st, "immutable-once-published:"+ad.Role, structProps, not(ap("ev", st.s, ad.N, "0")), pos)
		switch ad.Role {
		case "value":
			w := x.toElem(st, v)
			x.sol.Assert(and(eq(ap("val", ad.N), w), eq(ap("rk", ad.N), ap("vrk", w))))
			return
		case "level":
			if l, ok := v.(VInt); ok {
				x.heightDrawn(st, l.T, pos)
				x.sol.Assert(eq(ap("lev", ad.N), l.T))
				return
			}
		}
	case "extraptr":
		if e, ok := v.(VAddr); ok && e.Kind == "newextra" && st.assigned[ad.N] && !st.assigned[ad.N+".extra"] {
			x.oblige(st, "immutable-once-published:extra", structProps, not(ap("ev", st.s, ad.N, "0")), pos)
			st.assigned[ad.N+".extra"] = true
			x.sol.Assert(ap("ex", ad.N))
			return
		}
		x.oblige(st, "immutable-once-published:extra", structProps, "false", pos)
		return
	case "slot":
		x.storeSlot(st, ad.N, ad.I, v, false, pos)
		return
	case "sfield":
		x.readerWrite(st, pos)
		x.oblige(st, "atomic-access:"+ad.Role, structProps, "false", pos)
		return
	case "flagword", "bvword":
		x.readerWrite(st, pos)
		x.oblige(st, "atomic-access:flags", structProps, "false", pos)
		return
	case "global":
		x.oblige(st, "no-global-state", []string{"C10", "C12", "C15"}, "false", pos)
		return
	}
	x.unsupported(st, "store", pos)
}

func (x *Exec) toElem(st *State, v Val) string {
	if e, ok := v.(VVal); ok {
		return e.T
	}
	return x.fresh(st, "e", "V")
}

// ---------------------------------------------------------------------------------------------- operators

func (x *Exec) before(a, b string) string { // a comes strictly before b in the set's order
	return op2s("<", ap("vrk", a), ap("vrk", b))
}

func bvOf(v Val) (string, bool) {
	switch v := v.(type) {
	case VBV:
		return v.T, true
	case VInt:
		if v.Const {
			return fmt.Sprintf("(_ bv%d 32)", uint32(v.C)), true
		}
	}
	return "", false
}

func (x *Exec) binop(st *State, o token.Token, a, b Val, in *ssa.BinOp) Val {
	fail := func() Val {
		x.unsupported(st, "operator "+o.String(), in.Pos())
		return x.unknown(st, in.Type())
	}
	_, ba := a.(VBV)
	_, bb := b.(VBV)
	if ba || bb {
		p, ok1 := bvOf(a)
		q, ok2 := bvOf(b)
		if !ok1 || !ok2 {
			return fail()
		}
		switch o {
		case token.AND:
			return VBV{ap("bvand", p, q)}
		case token.OR:
			return VBV{ap("bvor", p, q)}
		case token.XOR:
			return VBV{ap("bvxor", p, q)}
		case token.AND_NOT:
			return VBV{ap("bvand", p, ap("bvnot", q))}
		case token.ADD:
			return VBV{ap("bvadd", p, q)}
		case token.SUB:
			return VBV{ap("bvsub", p, q)}
		case token.MUL:
			return VBV{ap("bvmul", p, q)}
		case token.SHL:
			return VBV{ap("bvshl", p, q)}
		case token.SHR:
			return VBV{ap("bvlshr", p, q)}
		case token.LSS:
			return VBool{ap("bvult", p, q)}
		case token.LEQ:
			return VBool{ap("bvule", p, q)}
		case token.GTR:
			return VBool{ap("bvugt", p, q)}
		case token.GEQ:
			return VBool{ap("bvuge", p, q)}
		case token.EQL:
			return VBool{eq(p, q)}
		case token.NEQ:
			return VBool{not(eq(p, q))}
		}
		return fail()
	}
	switch p := a.(type) {
	case VFlag:
		c, ok := b.(VInt)
		if !ok || !c.Const {
			return fail()
		}
		return x.flagOp(st, o, p, uint32(c.C), fail)
	case VInt:
		if f, ok := b.(VFlag); ok && p.Const {
			switch o {
			case token.AND, token.OR, token.XOR, token.EQL, token.NEQ:
				return x.flagOp(st, o, f, uint32(p.C), fail)
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return x.flagOp(st, map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[o], f, uint32(p.C), fail)
			}
			return fail()
		}
		q, ok := b.(VInt)
		if !ok {
			if e, ok := b.(VVal); ok {
				return x.cmpElem(st, o, x.toElem(st, a), e.T, fail)
			}
			return fail()
		}
		switch o {
		case token.ADD, token.SUB:
			s := "+"
			if o == token.SUB {
				s = "-"
			}
			r := arith(s, p, q)
			if o == token.SUB && isUnsigned(in.Type()) && !r.Const {
				x.oblige(st, "no-wrap-around", []string{"C09", "C15"}, op2s("<=", "0", r.T), in.Pos())
			}
			return r
		case token.MUL:
			if p.Const || q.Const {
				return arith("*", p, q)
			}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			s := map[token.Token]string{token.LSS: "<", token.GTR: ">", token.LEQ: "<=", token.GEQ: ">="}[o]
			if p.Const && q.Const {
				r := map[token.Token]bool{token.LSS: p.C < q.C, token.GTR: p.C > q.C, token.LEQ: p.C <= q.C, token.GEQ: p.C >= q.C}[o]
				return VBool{fmt.Sprint(r)}
			}
			return VBool{op2s(s, p.T, q.T)}
		case token.EQL, token.NEQ:
			var r string
			if p.Const && q.Const {
				r = fmt.Sprint(p.C == q.C)
			} else {
				r = eq(p.T, q.T)
			}
			if o == token.NEQ {
				r = not(r)
			}
			return VBool{r}
		case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR, token.QUO, token.REM:
			if p.Const && q.Const {
				r := constant.BinaryOp(constant.MakeInt64(p.C), o, constant.MakeInt64(q.C))
				if o == token.SHL || o == token.SHR {
					r = constant.Shift(constant.MakeInt64(p.C), o, uint(q.C))
				}
				if c, ok := constant.Int64Val(r); ok {
					return kInt(c)
				}
			}
			if q.Const && q.C > 0 && o == token.QUO {
				x.oblige(st, "truncating-division", []string{"C09"}, op2s("<=", "0", p.T), in.Pos())
				return VInt{T: op2s("div", p.T, q.T)}
			}
			if q.Const && q.C > 0 && o == token.SHR && q.C < 32 {
				x.oblige(st, "truncating-division", []string{"C09"}, op2s("<=", "0", p.T), in.Pos())
				return VInt{T: op2s("div", p.T, itoa(1<<uint(q.C)))}
			}
		}
	case VNode:
		q, ok := b.(VNode)
		if !ok {
			return fail()
		}
		switch o {
		case token.EQL:
			return VBool{eq(p.T, q.T)}
		case token.NEQ:
			return VBool{not(eq(p.T, q.T))}
		}
	case VBool:
		q, ok := b.(VBool)
		if !ok {
			return fail()
		}
		switch o {
		case token.EQL:
			if q.T == "true" {
				return p
			}
			if q.T == "false" {
				return VBool{not(p.T)}
			}
			return VBool{eq(p.T, q.T)}
		case token.NEQ:
			if q.T == "false" {
				return p
			}
			return VBool{not(eq(p.T, q.T))}
		case token.AND:
			return VBool{and(p.T, q.T)}
		case token.OR:
			return VBool{or(p.T, q.T)}
		}
	case VVal:
		return x.cmpElem(st, o, p.T, x.toElem(st, b), fail)
	case VAddr:
		// a possibly absent overflow array compared with nil
		if q, ok := b.(VOpaque); ok && p.Kind == "extraarr" && q.T == "nilptr" {
			if o == token.EQL {
				return VBool{not(ap("ex", p.N))}
			}
			return VBool{ap("ex", p.N)}
		}
	}
	return fail()
}

func (x *Exec) cmpElem(st *State, o token.Token, a, b string, fail func() Val) Val {
	if x.v == nil || x.v.Less {
		return fail()
	}
	lt, gt := x.before(a, b), x.before(b, a)
	if x.v.Desc {
		lt, gt = gt, lt
	}
	switch o {
	case token.LSS:
		return VBool{lt}
	case token.GTR:
		return VBool{gt}
	case token.LEQ:
		return VBool{not(gt)}
	case token.GEQ:
		return VBool{not(lt)}
	case token.EQL:
		return VBool{eq(ap("vrk", a), ap("vrk", b))}
	case token.NEQ:
		return VBool{not(eq(ap("vrk", a), ap("vrk", b)))}
	}
	return fail()
}

func (x *Exec) words(fl, mk string) ([]uint32, []string) {
	return []uint32{0, x.F, x.M, x.F | x.M}, []string{and(not(fl), not(mk)), and(fl, not(mk)), and(not(fl), mk), and(fl, mk)}
}

func (x *Exec) flagOp(st *State, o token.Token, p VFlag, c uint32, fail func() Val) Val {
	f := p.F
	r := p
	r.Desc += o.String() + itoa(int(c))
	switch o {
	case token.AND:
		r.F = func(w uint32) uint32 { return f(w) & c }
	case token.OR:
		r.F = func(w uint32) uint32 { return f(w) | c }
	case token.XOR:
		r.F = func(w uint32) uint32 { return f(w) ^ c }
	case token.AND_NOT:
		r.F = func(w uint32) uint32 { return f(w) &^ c }
	case token.EQL, token.NEQ:
		ws, cs := x.words(p.Fl, p.Mk)
		var yes []string
		for i, w := range ws {
			if f(w) == c {
				yes = append(yes, cs[i])
			}
		}
		t := or(yes...)
		if o == token.NEQ {
			t = not(t)
		}
		return VBool{t}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		ws, cs := x.words(p.Fl, p.Mk)
		var yes []string
		for i, w := range ws {
			v := f(w)
			if o == token.LSS && v < c || o == token.LEQ && v <= c || o == token.GTR && v > c || o == token.GEQ && v >= c {
				yes = append(yes, cs[i])
			}
		}
		return VBool{or(yes...)}
	case token.SHR:
		if c > 31 {
			return fail()
		}
		r.F = func(w uint32) uint32 { return f(w) >> c }
	case token.SHL:
		if c > 31 {
			return fail()
		}
		r.F = func(w uint32) uint32 { return f(w) << c }
	default:
		return fail()
	}
	return r
}

// ---------------------------------------------------------------------------------------------- calls

func (x *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, rt types.Type, pos token.Pos, k func(*State, Val)) {
	if c.IsInvoke() {
		x.unsupported(st, "interface call", pos)
		k(st, x.unknown(st, rt))
		return
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	x.callVal(fr, st, x.val(fr, c.Value), args, rt, pos, k)
}

func retOf(rets []Val) Val {
	switch len(rets) {
	case 0:
		return nil
	case 1:
		return rets[0]
	}
	return VTuple(rets)
}

func (x *Exec) callVal(fr *Frame, st *State, f Val, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	fv, ok := f.(VFn)
	if !ok {
		x.unsupported(st, "call of unknown function", pos)
		k(st, x.unknown(st, rt))
		return
	}
	switch fv.Kind {
	case "less":
		k(st, VBool{x.before(x.toElem(st, args[0]), x.toElem(st, args[1]))})
		return
	case "visitor":
		x.visit(st, args[0], pos, k)
		return
	case "static":
	case "builtin:len", "builtin:cap":
		if sl, ok := args[0].(VSlice); ok {
			if fv.Kind == "builtin:len" {
				k(st, sl.Len)
			} else {
				k(st, sl.Cap)
			}
			return
		}
		if ad, ok := args[0].(VArr); ok {
			_ = ad
			k(st, kInt(int64(x.p.MaxLevel)))
			return
		}
		fallthrough
	default:
		x.unsupported(st, fv.Kind, pos)
		k(st, x.unknown(st, rt))
		return
	}
	fn := origin(fv.Fn)
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if pkg != x.p.Types.Path() && fn.Parent() == nil {
		x.external(fr, st, fn, pkg, args, rt, pos, k)
		return
	}
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	if len(args) > 0 {
		if ad, ok := args[0].(VAddr); ok {
			if recv == "optionalArray" && ad.Kind == "next" && x.arrayOp(st, fn, ad.N, args, pos, k) {
				return
			}
			if recv == "bitflag" && ad.Kind == "flags" && x.flagCall(st, fn, ad.N, args, pos, k) {
				return
			}
		}
	}
	if sp := x.p.specFor(x.v, x.specs, fn); sp != nil && !sp.Flags["reader"] && sp.Name != "Add" && sp.Name != "Remove" {
		if x.useContract(st, sp, fn, args, pos, k) {
			return
		}
	}
	if fn.Blocks == nil {
		x.unsupported(st, "call of "+fn.Name(), pos)
		k(st, x.unknown(st, rt))
		return
	}
	if fr.depth > 12 {
		x.unsupported(st, "recursion", pos)
		return
	}
	x.inlined[fn.Name()] = true
	x.inline(st, fn, args, fv.Bind, fr.depth+1, func(st *State, rets []Val) { k(st, retOf(rets)) })
}

func (x *Exec) inline(st *State, fn *ssa.Function, args, bind []Val, depth int, k func(*State, []Val)) {
	x.frames++
	f := &Frame{id: x.frames, fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*Loop{}, depth: depth, k: k}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = bind[i]
	}
	x.run(f, fn.Blocks[0], 0, st)
}

func (x *Exec) slotArgs(st *State, n string, iv Val, pos token.Pos) (string, bool) {
	i, ok := iv.(VInt)
	if !ok {
		return "", false
	}
	x.bounds(st, i.T, int64(x.p.MaxLevel), pos)
	x.oblige(st, "slot-allocated", []string{"C09", "C15"}, or(op2s("<", i.T, itoa(x.p.Op1)), ap("ex", n)), pos)
	return i.T, true
}

// arrayOp applies the contract of the level array's accessors (their bodies are verified as units of their own).
func (x *Exec) arrayOp(st *State, fn *ssa.Function, n string, args []Val, pos token.Pos, k func(*State, Val)) bool {
	if x.u.Kind == "array" {
		return false
	}
	sig := fn.Signature
	switch fn.Name() {
	case "load", "atomicLoad":
		if sig.Params().Len() != 1 || sig.Results().Len() != 1 {
			return false
		}
		i, ok := x.slotArgs(st, n, args[1], pos)
		if !ok {
			return false
		}
		if fn.Name() == "load" {
			k(st, x.plainLoadSlot(st, n, i, pos))
		} else {
			k(st, x.atomicLoadSlot(st, n, i, pos))
		}
		return true
	case "store", "atomicStore":
		if sig.Params().Len() != 2 || sig.Results().Len() != 0 {
			return false
		}
		i, ok := x.slotArgs(st, n, args[1], pos)
		if !ok {
			return false
		}
		x.storeSlot(st, n, i, args[2], fn.Name() == "atomicStore", pos)
		k(st, nil)
		return true
	}
	return false
}

func (x *Exec) readFlags(st *State, n string, pos token.Pos) VFlag {
	x.envStep(st)
	x.oblige(st, "flags-of-a-node", []string{"C09", "C15"}, not(eq(n, "nil")), pos)
	x.touch(st, n)
	return VFlag{Fl: ap("fl", st.s, n), Mk: ap("mk", st.s, n), N: n, F: func(w uint32) uint32 { return w }, Desc: "w"}
}

// touch mentions the history of a node so that the axioms about flags reach it.
func (x *Exec) touch(st *State, n string) {
	x.sol.Assert(and(ap("tb", ap("was", st.s, n, "0")), ap("tb", ap("wnf", st.s, n)), ap("tb", ap("wnm", st.s, n))))
}

func (x *Exec) flagCall(st *State, fn *ssa.Function, n string, args []Val, pos token.Pos, k func(*State, Val)) bool {
	var cs []uint32
	for _, a := range args[1:] {
		c, ok := a.(VInt)
		if !ok || !c.Const {
			return false
		}
		cs = append(cs, uint32(c.C))
	}
	nofail := func() Val { return VBool{"false"} }
	switch {
	case fn.Name() == "Get" && len(cs) == 1:
		w := x.readFlags(st, n, pos)
		k(st, x.flagOp(st, token.NEQ, x.flagOp(st, token.AND, w, cs[0], nofail).(VFlag), 0, nofail))
		return true
	case fn.Name() == "MGet" && len(cs) == 2:
		w := x.readFlags(st, n, pos)
		k(st, x.flagOp(st, token.EQL, x.flagOp(st, token.AND, w, cs[0], nofail).(VFlag), cs[1], nofail))
		return true
	case (fn.Name() == "SetTrue" || fn.Name() == "SetFalse") && len(cs) == 1:
		x.readerWrite(st, pos)
		if x.u.Kind == "ctor" || x.u.Kind == "float" {
			if fn.Name() == "SetTrue" {
				st.ctorFl[n] |= cs[0]
			} else {
				st.ctorFl[n] &^= cs[0]
			}
			k(st, nil)
			return true
		}
		x.envStep(st)
		x.setFlag(st, n, cs[0], fn.Name() == "SetTrue", pos)
		k(st, nil)
		return true
	}
	return false
}

// setFlag: one atomic step that sets (or clears) flag bits
func (x *Exec) setFlag(st *State, n string, bits uint32, on bool, pos token.Pos) {
	tags := structProps
	switch {
	case on && bits == x.F:
		if x.sol.Prove(ap("fl", st.s, n)) {
			return
		}
		if st.na == 0 {
			x.oblige(st, "complete:not-header", tags, not(eq(n, "h")), pos)
		}
		x.act(st, "complete", []string{n}, nil, tags, pos)
		st.na++
		st.la = n
		st.inc = false
		x.oblige(st, "complete:once", []string{"C01", "C02", "C06", "C15"}, fmt.Sprint(st.na <= 1), pos)
		x.oblige(st, "length-counted-before-visible", []string{"C06", "C15"}, fmt.Sprint(st.dlen >= st.na-st.nr), pos)
	case on && bits == x.M:
		if x.sol.Prove(ap("mk", st.s, n)) {
			return
		}
		x.act(st, "mark", []string{n}, nil, tags, pos)
		st.nr++
		st.lr = n
		st.mym = ap("store", st.mym, n, "true")
		x.oblige(st, "mark:once", []string{"C01", "C02", "C06", "C15"}, fmt.Sprint(st.nr <= 1), pos)
	default:
		x.oblige(st, "flag-change:complete-or-mark", tags, "false", pos)
	}
}

// visit: the visitor is called with an element
func (x *Exec) visit(st *State, a Val, pos token.Pos, k func(*State, Val)) {
	e, ok := a.(VVal)
	if !ok {
		x.unsupported(st, "visited value", pos)
		k(st, VBool{x.fresh(st, "b", "Bool")})
		return
	}
	p := "C04"
	if x.u.From {
		p = "C05"
	}
	r := ap("vrk", e.T)
	x.oblige(st, "visit:no-lock-held", []string{"C07", "C15"}, eqSet(st.held, "false", "none"), pos)
	x.oblige(st, "visit:not-after-stop", []string{p, "C15"}, fmt.Sprint(!st.stopped), pos)
	x.oblige(st, "visit:strictly-increasing", []string{p, "C15"}, op2s("<", st.last, r), pos)
	x.oblige(st, "visit:was-present", []string{p, "C15"}, ap("present", st.s, r), pos)
	if x.u.From {
		x.oblige(st, "visit:not-before-start", []string{p, "C15"}, op2s("<=", ap("vrk", x.u.Key), r), pos)
	}
	x.envStep(st)
	st.visited = ap("store", st.visited, r, "true")
	st.last = r
	b := x.fresh(st, "go", "Bool")
	x.branch(b, func() { k(st.clone(), VBool{"true"}) })
	x.branch(not(b), func() { s2 := st.clone(); s2.stopped = true; k(s2, VBool{"false"}) })
}

func (x *Exec) lock(st *State, n string, pos token.Pos) {
	x.readerLock(st, pos)
	x.envStep(st)
	x.oblige(st, "lock:not-held", []string{"C07", "C15"}, not(sel(st.held, n)), pos)
	x.oblige(st, "lock:in-global-order", []string{"C07", "C15"}, fmt.Sprintf("(forall ((n Node)) (! (=> (select %s n) (< (rk %s) (rk n))) :pattern ((select %s n))))", st.held, n, st.held), pos)
	x.oblige(st, "lock:not-while-half-visible", []string{"C07", "C15"}, fmt.Sprint(!st.inc), pos)
	st.held = ap("store", st.held, n, "true")
}

func (x *Exec) unlock(st *State, n string, pos token.Pos) {
	x.readerLock(st, pos)
	x.oblige(st, "unlock:held", []string{"C07", "C09", "C15"}, sel(st.held, n), pos)
	st.held = ap("store", st.held, n, "false")
	st.unlks++
	st.retried = st.drawn
}

func (x *Exec) readerLock(st *State, pos token.Pos) {
	if x.u.Reader {
		x.oblige(st, "reader-takes-no-lock", []string{"C08", "C15"}, "false", pos)
	}
}

// external: functions outside the package
func (x *Exec) external(fr *Frame, st *State, fn *ssa.Function, pkg string, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	name := fn.Name()
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	addr := func(i int) VAddr {
		if i < len(args) {
			if a, ok := args[i].(VAddr); ok {
				return a
			}
		}
		return VAddr{Kind: "?"}
	}
	switch pkg {
	case "sync":
		if recv == "Mutex" {
			if a := addr(0); a.Kind == "mu" {
				switch name {
				case "Lock":
					x.lock(st, a.N, pos)
					k(st, nil)
					return
				case "Unlock":
					x.unlock(st, a.N, pos)
					k(st, nil)
					return
				case "TryLock":
					x.readerLock(st, pos)
					x.envStep(st)
					b := x.fresh(st, "b", "Bool")
					if st.solo {
						b = not(sel(st.held, a.N))
					}
					x.branch(b, func() {
						s2 := st.clone()
						x.sol.Assert(not(sel(s2.held, a.N)))
						s2.held = ap("store", s2.held, a.N, "true")
						k(s2, VBool{"true"})
					})
					x.branch(not(b), func() { k(st.clone(), VBool{"false"}) })
					return
				}
			}
		}
	case "sync/atomic":
		op := name
		if recv != "" {
			op = name
		}
		switch {
		case strings.HasPrefix(op, "Load"):
			x.atomicLoad(st, addr(0), rt, pos, k)
			return
		case strings.HasPrefix(op, "Store") && len(args) == 2:
			x.atomicStore(st, addr(0), args[1], pos, k)
			return
		case strings.HasPrefix(op, "Add") && len(args) == 2:
			x.atomicAdd(st, addr(0), args[1], rt, pos, k)
			return
		case strings.HasPrefix(op, "CompareAndSwap") && len(args) == 3:
			x.atomicCAS(st, addr(0), args[1], args[2], pos, k)
			return
		case strings.HasPrefix(op, "Or") && len(args) == 2, strings.HasPrefix(op, "And") && len(args) == 2:
			x.atomicMask(st, addr(0), args[1], strings.HasPrefix(op, "Or"), rt, pos, k)
			return
		}
	case "runtime":
		if name == "Gosched" {
			if x.u.Reader {
				x.oblige(st, "reader-never-waits", []string{"C08", "C15"}, "false", pos)
			}
			k(st, nil)
			return
		}
	case "github.com/zhangyunhao116/fastrand":
		if name == "Uint32n" || name == "Intn" || name == "Uint64n" || name == "Int63n" || name == "Int31n" {
			x.draw(st, args[0], rt, pos, k)
			return
		}
	}
	x.unsupported(st, "call of "+pkg+"."+name, pos)
	k(st, x.unknown(st, rt))
}

// draw: one random number below n; st.zeros counts the one-in-four draws that came out zero so far
func (x *Exec) draw(st *State, nv Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	n, ok := nv.(VInt)
	c := x.fresh(st, "d", "Int")
	if ok {
		x.sol.Assert(and(op2s("<=", "0", c), op2s("<", c, n.T)))
	}
	{
		x.oblige(st, "draw:one-in-four", []string{"C14", "C15"}, fmt.Sprint(ok && n.Const && n.C == 4), pos)
		if x.u.Kind != "draw" && (!st.drawn || st.drawDone) {
			x.drawHeight(st, pos)
		}
		x.oblige(st, "draw:none-after-nonzero", []string{"C14", "C15"}, fmt.Sprint(!st.drawDone), pos)
		x.branch(eq(c, "0"), func() {
			s2 := st.clone()
			s2.zeros = arith("+", VInt{T: s2.zeros}, kInt(1)).T
			k(s2, VInt{T: c})
		})
		x.branch(not(eq(c, "0")), func() { s2 := st.clone(); s2.drawDone = true; k(s2, VInt{T: c}) })
	}
}

// drawHeight: an operation draws one height for each attempt to add
func (x *Exec) drawHeight(st *State, pos token.Pos) {
	x.oblige(st, "draw:once-per-attempt", []string{"C14", "C15"}, fmt.Sprint(!st.drawn || x.attemptFailed(st)), pos)
	st.drawn, st.retried, st.drawDone, st.zeros, st.found = true, false, false, "0", ""
}

func (x *Exec) attemptFailed(st *State) bool {
	if st.drawn && !st.retried && st.found != "" && x.sol.Prove(op2s("<=", "0", st.found)) {
		st.retried = true
	}
	return st.retried
}

// heightDrawn: the height of a node an operation creates is the one it drew
func (x *Exec) heightDrawn(st *State, level string, pos token.Pos) {
	if x.u.Kind == "op" && x.u.Spec.Name != "newNode" {
		x.oblige(st, "height:drawn", []string{"C14", "C15"}, and(fmt.Sprint(st.drawn), eq(level, capped(st.zeros, x.p.MaxLevel))), pos)
	}
}

func capped(zeros string, max int) string {
	return fmt.Sprintf("(ite (< (+ 1 %s) %d) (+ 1 %s) %d)", zeros, max, zeros, max)
}

func (x *Exec) atomicLoad(st *State, a VAddr, rt types.Type, pos token.Pos, k func(*State, Val)) {
	switch a.Kind {
	case "cell":
		k(st, x.load(st, a, rt, pos))
		return
	case "sfield":
		x.envStep(st)
		switch a.Role {
		case "hl":
			k(st, VInt{T: ap("hl", st.s)})
			return
		case "length":
			l := x.fresh(st, "len", "Int")
			x.sol.Assert(op2s("<=", "0", l))
			st.lenRead = l
			k(st, VInt{T: l})
			return
		}
	case "slot":
		k(st, x.atomicLoadSlot(st, a.N, a.I, pos))
		return
	case "flagword":
		k(st, x.readFlags(st, a.N, pos))
		return
	case "bvword":
		w := x.fresh(st, "w", "(_ BitVec 32)")
		if st.solo {
			w = st.bvWord
		}
		st.bvLast, st.bvOld, st.bvNew = "load", w, w
		k(st, VBV{w})
		return
	}
	x.unsupported(st, "atomic load", pos)
	k(st, x.unknown(st, rt))
}

func (x *Exec) raise(st *State, v Val, pos token.Pos) {
	iv, ok := v.(VInt)
	if !ok {
		x.unsupported(st, "highest level", pos)
		return
	}
	ow := st.ownWrites
	x.act(st, "raise", []string{iv.T}, nil, structProps, pos)
	st.ownWrites = ow // raising the level disturbs nothing the rely relation protects
}

func (x *Exec) atomicStore(st *State, a VAddr, v Val, pos token.Pos, k func(*State, Val)) {
	switch a.Kind {
	case "cell":
		x.store(st, a, v, pos)
		k(st, nil)
		return
	case "slot":
		x.storeSlot(st, a.N, a.I, v, true, pos)
		k(st, nil)
		return
	case "sfield":
		x.readerWrite(st, pos)
		if a.Role == "hl" {
			x.envStep(st)
			x.raise(st, v, pos)
			k(st, nil)
			return
		}
		x.oblige(st, "length-counts", []string{"C06", "C15"}, "false", pos)
		k(st, nil)
		return
	case "flagword":
		x.readerWrite(st, pos)
		x.oblige(st, "flag-change:atomic-update", structProps, "false", pos)
		k(st, nil)
		return
	case "bvword":
		w, ok := bvOf(v)
		if !ok {
			break
		}
		// a blind store: what was there before is unknown
		old := x.fresh(st, "w", "(_ BitVec 32)")
		st.bvLast, st.bvOld, st.bvNew = "rmw", old, w
		st.bvWrites++
		k(st, nil)
		return
	}
	x.unsupported(st, "atomic store", pos)
	k(st, nil)
}

func (x *Exec) atomicAdd(st *State, a VAddr, v Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	if a.Kind == "sfield" && a.Role == "length" {
		x.readerWrite(st, pos)
		d, ok := v.(VInt)
		if !ok || !d.Const {
			x.oblige(st, "length-counts", []string{"C06", "C15"}, "false", pos)
			k(st, x.unknown(st, rt))
			return
		}
		st.dlen += int(d.C)
		x.oblige(st, "length-never-below-contents", []string{"C06", "C15"}, fmt.Sprint(st.dlen >= st.na-st.nr), pos)
		k(st, x.unknown(st, rt))
		return
	}
	if a.Kind == "sfield" {
		x.readerWrite(st, pos)
		if d, ok := v.(VInt); ok && a.Role == "hl" {
			x.envStep(st)
			x.raise(st, arith("+", VInt{T: ap("hl", st.s)}, d), pos)
			k(st, VInt{T: ap("hl", st.s)})
			return
		}
	}
	x.unsupported(st, "atomic add", pos)
	k(st, x.unknown(st, rt))
}

func (x *Exec) atomicCAS(st *State, a VAddr, old, nv Val, pos token.Pos, k func(*State, Val)) {
	switch a.Kind {
	case "sfield":
		o, ok := old.(VInt)
		if a.Role == "hl" && ok {
			x.readerWrite(st, pos)
			x.envStep(st)
			c := eq(ap("hl", st.s), o.T)
			x.branch(c, func() {
				s2 := st.clone()
				x.raise(s2, nv, pos)
				k(s2, VBool{"true"})
			})
			x.branch(not(c), func() { k(st.clone(), VBool{"false"}) })
			return
		}
	case "slot":
		o, ok := old.(VNode)
		if ok {
			x.readerWrite(st, pos)
			x.envStep(st)
			c := eq(ap("nx", st.s, a.N, a.I), o.T)
			x.branch(c, func() {
				s2 := st.clone()
				ow := s2.s
				x.storeSlot(s2, a.N, a.I, nv, true, pos)
				_ = ow
				k(s2, VBool{"true"})
			})
			x.branch(not(c), func() { k(st.clone(), VBool{"false"}) })
			return
		}
	case "flagword":
		x.readerWrite(st, pos)
		of, ok1 := old.(VFlag)
		nf, ok2 := nv.(VFlag)
		if ok1 && ok2 && of.N == a.N && nf.N == a.N && of.Fl == nf.Fl && of.Mk == nf.Mk {
			x.envStep(st)
			cur := VFlag{Fl: ap("fl", st.s, a.N), Mk: ap("mk", st.s, a.N)}
			ws, cs := x.words(of.Fl, of.Mk)
			_, ds := x.words(cur.Fl, cur.Mk)
			for i, w := range ws {
				w := w
				if of.F(w) != w {
					continue
				}
				x.branch(and(cs[i], ds[i]), func() {
					s2 := st.clone()
					n := nf.F(w)
					if n != w {
						if n&w == w {
							x.setFlag(s2, a.N, n&^w, true, pos)
						} else {
							x.setFlag(s2, a.N, n^w, false, pos)
						}
					}
					k(s2, VBool{"true"})
				})
			}
			x.branch(not(and(eq(of.Fl, cur.Fl), eq(of.Mk, cur.Mk))), func() { k(st.clone(), VBool{"false"}) })
			return
		}
	case "bvword":
		o, ok1 := bvOf(old)
		n, ok2 := bvOf(nv)
		if ok1 && ok2 {
			b := x.fresh(st, "b", "Bool")
			if st.solo {
				b = eq(o, st.bvWord)
			}
			x.branch(b, func() {
				s2 := st.clone()
				s2.bvWord = n
				s2.bvLast, s2.bvOld, s2.bvNew = "rmw", o, n
				s2.bvWrites++
				k(s2, VBool{"true"})
			})
			x.branch(not(b), func() { s2 := st.clone(); s2.bvLast = "fail"; k(s2, VBool{"false"}) })
			return
		}
	}
	x.unsupported(st, "compare and swap", pos)
	b := x.fresh(st, "b", "Bool")
	x.branch(b, func() { k(st.clone(), VBool{"true"}) })
	x.branch(not(b), func() { k(st.clone(), VBool{"false"}) })
}

func (x *Exec) atomicMask(st *State, a VAddr, v Val, or bool, rt types.Type, pos token.Pos, k func(*State, Val)) {
	if a.Kind == "bvword" {
		if m, ok := bvOf(v); ok {
			w := x.fresh(st, "w", "(_ BitVec 32)")
			op := "bvand"
			if or {
				op = "bvor"
			}
			st.bvLast, st.bvOld, st.bvNew = "rmw", w, ap(op, w, m)
			st.bvWrites++
			k(st, VBV{w})
			return
		}
	}
	if c, ok := v.(VInt); ok && a.Kind == "flagword" && c.Const && or {
		x.readerWrite(st, pos)
		x.envStep(st)
		fl := VFlag{Fl: ap("fl", st.s, a.N), Mk: ap("mk", st.s, a.N), N: a.N, F: func(w uint32) uint32 { return w }, Desc: "w"}
		x.setFlag(st, a.N, uint32(c.C), true, pos)
		k(st, fl)
		return
	}
	x.unsupported(st, "atomic and/or", pos)
	k(st, x.unknown(st, rt))
}

// ---------------------------------------------------------------------------------------------- contracts

type bindings struct {
	ren map[string]string
}

// useContract replaces a call by the callee's contract.
func (x *Exec) useContract(st *State, sp *Spec, fn *ssa.Function, args []Val, pos token.Pos, k func(*State, Val)) bool {
	if fn.Signature.Recv() != nil {
		args = args[1:]
	}
	ren := map[string]string{}
	outs := map[string]int{}
	for i, kd := range sp.Kinds {
		switch kd {
		case "elem":
			ren[sp.Params[i]] = x.toElem(st, args[i])
		case "int":
			v, ok := args[i].(VInt)
			if !ok {
				return false
			}
			ren[sp.Params[i]] = v.T
		case "nodes":
			v, ok := args[i].(VArr)
			if !ok {
				return false
			}
			ren[sp.Params[i]] = v.T
		case "out":
			v, ok := args[i].(VAddr)
			if !ok || v.Kind != "cell" || len(v.Path) != 0 {
				return false
			}
			for _, c := range outs {
				if c == v.Cell {
					return false
				}
			}
			outs[sp.Params[i]] = v.Cell
		default:
			return false
		}
	}
	if st.solo && (sp.Flags["pure"] || sp.Flags["raises"]) {
		x.restart(st, sp.Flags["raises"])
	}
	m := map[string]string{"s0": st.s, "held0": st.held, "s": st.s, "held": st.held, "myc": st.myc, "MAX": itoa(x.p.MaxLevel), "OP1": itoa(x.p.Op1)}
	form := func(f string) string { return renameVars(subLong(f, m), ren) }
	for _, c := range sp.Requires {
		x.oblige(st, "requires:"+sp.Name+":"+c.Name, c.Tags, form(c.F), pos)
	}
	if x.u.Reader && (sp.Flags["unlocks"] || sp.Flags["raises"]) {
		x.readerWrite(st, pos)
	}
	var names []string
	for p := range outs {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		a := x.fresh(st, "A", "(Array Int Node)")
		st.cells[outs[p]] = VArr{a}
		ren[p] = a
	}
	if sp.Flags["unlocks"] {
		hh := x.fresh(st, "H", "(Array Node Bool)")
		st.held = hh
		st.unlks++
		st.retried = st.drawn
		// what is released is asserted below, then the others may move
	}
	m["held"] = st.held
	if sp.Flags["allocates"] {
		x.heightDrawn(st, ren["level"], pos)
		n := x.allocNode(st).(VNode)
		ren[sp.Ret] = n.T
		for _, r := range []string{".value", ".level", ".extra"} {
			st.assigned[n.T+r] = true
		}
		m["myc"] = st.myc
		m["s"] = st.s
		for _, c := range sp.Ensures {
			x.sol.Assert(form(c.F))
		}
		k(st, n)
		return true
	}
	if sp.Flags["unlocks"] {
		for _, c := range sp.Ensures {
			x.sol.Assert(form(c.F))
		}
		x.envStep(st)
		k(st, nil)
		return true
	}
	if !sp.Flags["draws"] {
		x.envStep(st)
	}
	m["s"] = st.s
	for _, c := range sp.Ensures {
		if strings.Contains(c.F, "$zeros") {
			x.drawHeight(st, pos)
			st.zeros, st.drawDone = x.fresh(st, "z", "Int"), true
			x.sol.Assert(op2s("<=", "0", st.zeros))
			m["zeros"] = st.zeros
			break
		}
	}
	var ret Val
	switch sp.RetKind {
	case "int":
		r := x.fresh(st, "r", "Int")
		ren[sp.Ret] = r
		ret = VInt{T: r}
	case "bool":
		r := x.fresh(st, "r", "Bool")
		ren[sp.Ret] = r
		ret = VBool{r}
	}
	for _, c := range sp.Ensures {
		x.sol.Assert(form(c.F))
	}
	if sp.Flags["pure"] {
		st.found = ""
		if v, ok := ret.(VInt); ok {
			st.found = v.T
		}
		st.hlf = ap("hl", m["s0"])
		st.search = &searchRec{s: st.s, hl0: st.hlf, ret: ren[sp.Ret]}
		for _, p := range names {
			st.search.arrs = append(st.search.arrs, ren[p])
		}
		for _, c := range sp.Ensures {
			st.search.ensures = append(st.search.ensures, form(c.F))
		}
	}
	st.gx = "h"
	k(st, ret)
	return true
}

// subLong substitutes $-placeholders, longest names first.
func subLong(t string, m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return len(ks[i]) > len(ks[j]) || len(ks[i]) == len(ks[j]) && ks[i] < ks[j] })
	for _, k := range ks {
		t = strings.ReplaceAll(t, "$"+k, m[k])
	}
	return t
}
