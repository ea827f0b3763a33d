package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// prelude: sorts, rigid facts, invariant of every state, rely relation, array ranges.
func prelude(max, op1 int) string {
	con := map[string]string{"MAX": itoa(max), "OP1": itoa(op1)}
	var b strings.Builder
	b.WriteString(sorts)
	b.WriteString("(declare-fun tb (Bool) Bool)\n(declare-fun st (S) Bool)\n(declare-fun rely (S S (Array Node Bool) (Array Node Bool) (Array Node Bool)) Bool)\n")
	b.WriteString("(declare-fun memr ((Array Int Node) Int Int Node) Bool)\n(declare-fun memw ((Array Int Node) Int Int Node) Int)\n")
	b.WriteString("(define-fun none () (Array Node Bool) ((as const (Array Node Bool)) false))\n")
	b.WriteString("(define-fun nils () (Array Int Node) ((as const (Array Int Node)) nil))\n")
	b.WriteString("(define-fun noneR () (Array Real Bool) ((as const (Array Real Bool)) false))\n")
	b.WriteString(memrDef + memrStep)
	for _, a := range rigid {
		b.WriteString(quantify(a, con, "") + "\n")
	}
	m := map[string]string{"s": "s_"}
	r := map[string]string{"s": "s_", "t": "t_", "held": "H_", "myc": "C_", "mym": "M_"}
	for k, v := range con {
		m[k], r[k] = v, v
	}
	for _, a := range invs {
		if len(a.Pats) == 0 {
			a.Pats = []string{"(st s_)"}
		}
		b.WriteString(quantify(a, m, "s_ S") + "\n")
	}
	for _, a := range rely {
		rp := "(rely s_ t_ H_ C_ M_)"
		a.Body = "(=> " + rp + " " + a.Body + ")"
		var ps []string
		for _, p := range a.Pats {
			ps = append(ps, rp+"|"+p)
		}
		if len(ps) == 0 {
			ps = []string{rp}
		}
		a.Pats = ps
		b.WriteString(quantify(a, r, "s_ S, t_ S, H_ (Array_Node_Bool), C_ (Array_Node_Bool), M_ (Array_Node_Bool)") + "\n")
	}
	return strings.ReplaceAll(b.String(), "(Array_Node_Bool)", "(Array Node Bool)")
}

func (p *Pkg) constU32(name string) (uint32, bool) {
	c, ok := p.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	v, ok := constant.Int64Val(constant.ToInt(c.Val()))
	return uint32(v), ok && v > 0
}

// unitsFor lists the functions under contract.
func (p *Pkg) unitsFor(specs map[string]*Spec) (us []*Unit, missing []string) {
	for _, v := range p.Variants {
		var fns []*ssa.Function
		for i := 0; i < v.Set.NumMethods(); i++ {
			fns = append(fns, p.Prog.FuncValue(v.Set.Method(i)))
		}
		for _, mem := range p.SSA.Members {
			if f, ok := mem.(*ssa.Function); ok {
				fns = append(fns, f)
			}
		}
		got := map[string]bool{}
		// a package-level unlock function belongs to the variant whose node type it takes
		for _, f := range fns {
			if f.Blocks == nil {
				continue
			}
			sp := p.specFor(v, specs, f)
			if sp == nil || sp.Name == "randomLevel" {
				continue
			}
			got[sp.Name] = true
			us = append(us, &Unit{Name: v.Name + "." + sp.Name, V: v, Fn: f, Spec: sp, Reader: sp.Flags["reader"], Kind: "op", From: sp.Name == "RangeFrom"})
		}
		for _, n := range opNames {
			if !got[n] {
				missing = append(missing, v.Name+"."+n)
			}
		}
	}
	draws := 0
	for _, mem := range p.SSA.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || f.Blocks == nil {
			continue
		}
		if sp := p.specFor(nil, specs, f); sp != nil && sp.Name == "randomLevel" {
			draws++
			us = append(us, &Unit{Name: f.Name(), Fn: f, Spec: sp, Kind: "draw", V: p.Variants[0]})
		}
	}
	if draws == 0 {
		missing = append(missing, "randomLevel")
	}
	want := map[string]bool{}
	for _, t := range wantCtors {
		want[t] = true
	}
	for t := range want {
		if p.variant(t) == nil {
			missing = append(missing, t)
		}
	}
	sort.Strings(missing)
	// flag word and level array
	for _, tn := range []string{"bitflag", "optionalArray"} {
		o, ok := p.Types.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			missing = append(missing, tn)
			continue
		}
		n, _ := o.Type().(*types.Named)
		for i := 0; n != nil && i < n.NumMethods(); i++ {
			f := p.Prog.FuncValue(n.Method(i))
			kind := "bv"
			if tn == "optionalArray" {
				kind = "array"
			}
			switch f.Name() {
			case "SetTrue", "SetFalse", "Get", "MGet", "load", "store", "atomicLoad", "atomicStore":
				us = append(us, &Unit{Name: tn + "." + f.Name(), V: p.Variants[0], Fn: f, Kind: kind})
			}
		}
	}
	cs, m := p.ctorUnits()
	us, missing = append(us, cs...), append(missing, m...)
	sort.SliceStable(us, func(i, j int) bool { return us[i].Name < us[j].Name })
	return us, missing
}

func (x *Exec) initState() *State {
	st := &State{cells: map[int]Val{}, assigned: map[string]bool{}, prov: map[string][2]string{}, ctorFl: map[string]uint32{}}
	st.s = x.fresh(st, "s", "S")
	x.s0 = st.s
	x.sol.Assert("(st " + st.s + ")")
	st.held, st.myc, st.mym = "none", "none", "none"
	st.visited, st.last, st.gx = "noneR", "0.0", "h"
	st.la, st.lr = "nil", "nil"
	st.zeros = "0"
	st.lenRead = "0"
	return st
}

// runUnit verifies one function against its contract.
func (x *Exec) runUnit() {
	u := x.u
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(engineFail); ok {
				x.note("subset:"+e.why, allProps, u.Fn.Pos(), false, e.why, "")
				return
			}
			if e, ok := r.(error); ok {
				x.note("subset:internal", allProps, u.Fn.Pos(), false, "engine: "+e.Error(), "")
				if debugPanics {
					panic(r)
				}
				return
			}
			panic(r)
		}
	}()
	x.sol.Push()
	defer x.sol.Pop()
	st := x.initState()
	switch u.Kind {
	case "op", "draw":
		x.runOp(st)
	case "bv":
		x.runBV(st)
	case "array":
		x.runArray(st)
	case "ctor":
		x.runCtor(st)
	case "float":
		x.runFloat(st)
	}
	if x.covers == 0 && !x.dead {
		x.note("cover:returns", allProps, u.Fn.Pos(), false, "no feasible path reaches a return: the contract would hold vacuously", "")
	}
}

func (x *Exec) runOp(st *State) {
	u := x.u
	sp := u.Spec
	var args []Val
	params := u.Fn.Params
	if u.Fn.Signature.Recv() != nil {
		args = append(args, VSet{})
		params = params[1:]
	}
	if sp.Flags["unlocks"] {
		st.held = x.fresh(st, "H", "(Array Node Bool)")
	}
	x.held0 = st.held
	ren := map[string]string{}
	outs := map[string]int{}
	for i, k := range sp.Kinds {
		switch k {
		case "elem":
			v := x.fresh(st, "v", "V")
			args = append(args, VVal{v})
			ren[sp.Params[i]] = v
			u.Key = v
		case "int":
			v := x.fresh(st, "k", "Int")
			args = append(args, VInt{T: v})
			ren[sp.Params[i]] = v
		case "nodes":
			v := x.fresh(st, "A", "(Array Int Node)")
			args = append(args, VArr{v})
			ren[sp.Params[i]] = v
		case "out":
			v := x.fresh(st, "A", "(Array Int Node)")
			id := st.cnt
			st.cnt++
			st.cells[id] = VArr{v}
			outs[sp.Params[i]] = id
			args = append(args, VAddr{Kind: "cell", Cell: id})
		case "visitor":
			args = append(args, VFn{Kind: "visitor"})
		}
	}
	if sp.Name == "newNode" {
		u.Key = ""
	}
	base := map[string]string{"s0": st.s, "held0": st.held, "MAX": itoa(x.p.MaxLevel), "OP1": itoa(x.p.Op1)}
	for _, c := range sp.Requires {
		m := map[string]string{"s": st.s, "held": st.held, "myc": st.myc}
		for k, v := range base {
			m[k] = v
		}
		x.sol.Assert(renameVars(subLong(c.F, m), ren))
	}
	if x.sol.Unsat("") {
		x.note("cover:requires", allProps, u.Fn.Pos(), false, "the precondition is unsatisfiable", "")
		return
	}
	x.clauseSeen = map[string]bool{}
	defer func() {
		// a conditional clause must apply at some return, or it would hold vacuously
		for _, c := range sp.Ensures {
			if antecedent(c.F) != "" && x.covers > 0 && !x.dead {
				x.note("cover:applies:"+c.Name, c.Tags, u.Fn.Pos(), x.clauseSeen[c.Name], "no return satisfies the clause's condition: the clause would hold vacuously", "")
			}
		}
	}()
	x.inline(st, u.Fn, args, nil, 0, func(st *State, rets []Val) {
		if st.mode != nil || x.sol.Unsat("") {
			return
		}
		x.covers++
		m := map[string]string{"s": st.s, "held": st.held, "myc": st.myc, "na": itoa(st.na), "nr": itoa(st.nr), "la": st.la, "lr": st.lr,
			"stopped": fmt.Sprint(st.stopped), "visited": st.visited, "length": st.lenRead, "zeros": st.zeros}
		for k, v := range base {
			m[k] = v
		}
		rn := map[string]string{}
		for k, v := range ren {
			rn[k] = v
		}
		for k, id := range outs {
			if a, ok := st.cells[id].(VArr); ok {
				rn[k] = a.T
			} else {
				rn[k] = x.fresh(st, "A", "(Array Int Node)")
			}
		}
		if sp.Ret != "" {
			t := termOf(rets[0])
			if t == "" {
				x.unsupported(st, "result", u.Fn.Pos())
				return
			}
			rn[sp.Ret] = t
		}
		for _, c := range sp.Ensures {
			if a := antecedent(c.F); a != "" && !x.clauseSeen[c.Name] && !x.sol.Unsat("(assert "+renameVars(subLong(a, m), rn)+")") {
				x.clauseSeen[c.Name] = true
			}
			x.oblige(st, "ensures:"+c.Name, c.Tags, renameVars(subLong(c.F, m), rn), u.Fn.Pos())
		}
		// frame
		cnt := fmt.Sprintf("na %d nr %d length %d", st.na, st.nr, st.dlen)
		if sp.Name != "Add" && sp.Name != "Remove" {
			x.oblige(st, "frame:contents", []string{"C01", "C02", "C03", "C04", "C05", "C06", "C15"}, fmt.Sprint(st.na == 0 && st.nr == 0 && st.dlen == 0), u.Fn.Pos())
		} else {
			_ = cnt
			x.oblige(st, "ensures:length-balanced", []string{"C06", "C15"}, fmt.Sprint(st.dlen == st.na-st.nr), u.Fn.Pos())
		}
		x.oblige(st, "ensures:nothing-half-visible", []string{"C01", "C07", "C13", "C15"}, fmt.Sprint(!st.inc), u.Fn.Pos())
		if !sp.Flags["unlocks"] {
			x.oblige(st, "ensures:locks-released", []string{"C07", "C15"}, eqSet(st.held, sel(x.held0, "n_"), x.held0), u.Fn.Pos())
		}
		if sp.Flags["draws"] {
			x.oblige(st, "ensures:draws-until-nonzero", []string{"C14", "C15"}, or(fmt.Sprint(st.drawDone), op2s("<=", itoa(x.p.MaxLevel), arith("+", VInt{T: st.zeros}, kInt(1)).T)), u.Fn.Pos())
		}
	})
}

// antecedent of a clause of the form (=> A B), or "".
func antecedent(f string) string {
	if !strings.HasPrefix(f, "(=> ") {
		return ""
	}
	f = f[4:]
	d := 0
	for i := 0; i < len(f); i++ {
		switch f[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return f[:i]
			}
		}
	}
	return ""
}

// runBV verifies the flag operations as atomic read-modify-writes of a 32-bit word.
func (x *Exec) runBV(st *State) {
	u := x.u
	var args []Val
	var ws []string
	for i := range u.Fn.Params {
		if i == 0 {
			args = append(args, VAddr{Kind: "bitflag"})
			continue
		}
		w := x.fresh(st, "w", "(_ BitVec 32)")
		ws = append(ws, w)
		args = append(args, VBV{w})
	}
	x.inline(st, u.Fn, args, nil, 0, func(st *State, rets []Val) {
		if st.mode != nil {
			return
		}
		x.covers++
		tags := structProps
		z := "(_ bv0 32)"
		post := "false"
		name := ""
		switch u.Fn.Name() {
		case "SetTrue":
			name = "sets-exactly-these-bits-atomically"
			if st.bvLast == "load" && st.bvWrites == 0 {
				post = eq(ap("bvand", st.bvOld, ws[0]), ws[0])
			} else if st.bvLast == "rmw" && st.bvWrites == 1 {
				post = eq(st.bvNew, ap("bvor", st.bvOld, ws[0]))
			}
		case "SetFalse":
			name = "clears-exactly-these-bits-atomically"
			if st.bvLast == "load" && st.bvWrites == 0 {
				post = eq(ap("bvand", st.bvOld, ws[0]), z)
			} else if st.bvLast == "rmw" && st.bvWrites == 1 {
				post = eq(st.bvNew, ap("bvand", st.bvOld, ap("bvnot", ws[0])))
			}
		case "Get":
			name = "reads-any-bit-in-one-atomic-load"
			if b, ok := rets[0].(VBool); ok && st.bvWrites == 0 && st.bvLast == "load" {
				post = eq(b.T, not(eq(ap("bvand", st.bvOld, ws[0]), z)))
			}
		case "MGet":
			name = "compares-bits-in-one-atomic-load"
			if b, ok := rets[0].(VBool); ok && st.bvWrites == 0 && st.bvLast == "load" {
				post = eq(b.T, eq(ap("bvand", st.bvOld, ws[0]), ws[1]))
			}
		}
		x.oblige(st, "ensures:"+name, tags, post, u.Fn.Pos())
	})
}

// runArray verifies the level array's accessors: slot i of the node, for every i of an allocated slot.
func (x *Exec) runArray(st *State) {
	u := x.u
	n := x.fresh(st, "n", "Node")
	i := x.fresh(st, "k", "Int")
	x.sol.Assert(and(not(eq(n, "nil")), op2s("<=", "0", i), op2s("<", i, itoa(x.p.MaxLevel)), or(op2s("<", i, itoa(x.p.Op1)), ap("ex", n))))
	name := u.Fn.Name()
	isStore := strings.HasSuffix(strings.ToLower(name), "store")
	at := strings.HasPrefix(name, "atomic")
	args := []Val{VAddr{Kind: "next", N: n}, VInt{T: i}}
	c := ""
	if isStore {
		c = x.fresh(st, "x", "Node")
		args = append(args, VNode{c})
	}
	x.arrTrace(n, i, c, at, isStore, func() {
		x.inline(st, u.Fn, args, nil, 0, func(st *State, rets []Val) {
			x.covers++
			tags := structProps
			ev := x.arr.events
			x.arr.events = nil
			ok := len(ev) == 1 && ev[0].atomic == at && ev[0].store == isStore
			goal := "false"
			if ok {
				goal = and(eq(ev[0].n, n), eq(ev[0].i, i))
				if isStore {
					goal = and(goal, eq(ev[0].c, c))
				} else if r, ok := rets[0].(VNode); ok {
					goal = and(goal, eq(ev[0].c, r.T))
				} else {
					goal = "false"
				}
			}
			x.oblige(st, "ensures:accesses-exactly-slot-i", tags, goal, u.Fn.Pos())
		})
	})
}

type arrEvent struct {
	n, i, c       string
	atomic, store bool
}

type arrTracer struct{ events []arrEvent }

func (x *Exec) arrTrace(n, i, c string, at, st bool, f func()) {
	x.arr = &arrTracer{}
	f()
	x.arr = nil
}

// inlinedList is for reports.
func (x *Exec) inlinedList() []string {
	var o []string
	for k := range x.inlined {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

var debugPanics = false
