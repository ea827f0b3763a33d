package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wantCtors: the documented constructors, the set type each returns, and (float sets) the order of its comparison.
var wantCtors = map[string]string{
	"New": "OrderedSet", "NewDesc": "OrderedSetDesc", "NewFunc": "FuncSet",
	"NewString": "StringSet", "NewStringDesc": "StringSetDesc", "NewInt": "IntSet", "NewIntDesc": "IntSetDesc",
	"NewInt64": "Int64Set", "NewInt64Desc": "Int64SetDesc", "NewInt32": "Int32Set", "NewInt32Desc": "Int32SetDesc",
	"NewUint64": "Uint64Set", "NewUint64Desc": "Uint64SetDesc", "NewUint32": "Uint32Set", "NewUint32Desc": "Uint32SetDesc",
	"NewUint": "UintSet", "NewUintDesc": "UintSetDesc",
	"NewFloat32": "FuncSet", "NewFloat32Desc": "FuncSet", "NewFloat64": "FuncSet", "NewFloat64Desc": "FuncSet",
}

// wantElem: the element type of each typed set
var wantElem = map[string]string{"StringSet": "string", "IntSet": "int", "Int64Set": "int64", "Int32Set": "int32", "Uint64Set": "uint64", "Uint32Set": "uint32", "UintSet": "uint"}

var ctorTags = []string{"C12", "C01", "C02", "C03", "C04", "C05", "C06", "C09", "C13", "C14", "C15"}

func (p *Pkg) variant(name string) *Variant {
	for _, v := range p.Variants {
		if v.Name == name {
			return v
		}
	}
	return nil
}

func (p *Pkg) ctorUnits() (us []*Unit, missing []string) {
	var names []string
	for n := range wantCtors {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, _ := p.SSA.Members[n].(*ssa.Function)
		v := p.variant(wantCtors[n])
		if f == nil || v == nil || f.Blocks == nil {
			missing = append(missing, n)
			continue
		}
		us = append(us, &Unit{Name: n, V: v, Fn: f, Kind: "ctor"})
		if strings.HasPrefix(n, "NewFloat") {
			us = append(us, &Unit{Name: n + ".order", V: v, Fn: f, Kind: "float"})
		}
	}
	return
}

// runCtor: a constructor returns a fresh set whose header is an empty, complete, full-height tower.
func (x *Exec) runCtor(st *State) {
	u := x.u
	var args []Val
	given := VFn{Kind: "less"}
	for _, p := range u.Fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			args = append(args, given)
		} else {
			args = append(args, x.unknown(st, p.Type()))
		}
	}
	sig := u.Fn.Signature
	okType := sig.Results().Len() == 1 && namedOf(sig.Results().At(0).Type()) == u.V.Set
	x.oblige(st, "ensures:returns-"+u.V.Name, ctorTags, fmt.Sprint(okType), u.Fn.Pos())
	if w := wantElem[strings.TrimSuffix(u.V.Name, "Desc")]; w != "" {
		x.oblige(st, "ensures:element-type", ctorTags, fmt.Sprint(u.V.ValType.String() == w), u.Fn.Pos())
	}
	if w := strings.TrimSuffix(strings.TrimPrefix(u.Name, "New"), "Desc"); strings.HasPrefix(w, "Float") && okType {
		ok := false
		if n, isN := types.Unalias(sig.Results().At(0).Type().(*types.Pointer).Elem()).(*types.Named); isN && n.TypeArgs().Len() == 1 {
			ok = n.TypeArgs().At(0).String() == strings.ToLower(w)
		}
		x.oblige(st, "ensures:element-type", ctorTags, fmt.Sprint(ok), u.Fn.Pos())
	}
	x.inline(st, u.Fn, args, nil, 0, func(st *State, rets []Val) {
		x.covers++
		if len(rets) != 1 {
			x.unsupported(st, "result", u.Fn.Pos())
			return
		}
		a, ok := rets[0].(VAddr)
		var set VStruct
		ok2 := false
		if ok && a.Kind == "cell" && len(a.Path) == 0 {
			set, ok2 = st.cells[a.Cell].(VStruct)
		}
		x.oblige(st, "ensures:fresh-set", ctorTags, fmt.Sprint(ok2), u.Fn.Pos())
		if !ok2 {
			return
		}
		for i, role := range u.V.SetRole {
			if i >= len(set.F) {
				continue
			}
			v := set.F[i]
			switch role {
			case "length":
				g := "false"
				if t, ok := v.(VInt); ok {
					g = eq(t.T, "0")
				}
				x.oblige(st, "ensures:length-zero", []string{"C12", "C06", "C15"}, g, u.Fn.Pos())
			case "hl":
				g := "false"
				if t, ok := v.(VInt); ok {
					g = and(op2s("<=", "1", t.T), op2s("<=", t.T, itoa(x.p.MaxLevel)))
				}
				x.oblige(st, "ensures:highest-level-in-range", ctorTags, g, u.Fn.Pos())
			case "less":
				f, ok := v.(VFn)
				good := ok
				if ok && u.Name == "NewFunc" {
					good = f.Kind == "less"
				} else if ok {
					good = f.Kind == "static" // its meaning is the float unit's business
				}
				x.oblige(st, "ensures:ordered-by-the-given-function", ctorTags, fmt.Sprint(good), u.Fn.Pos())
			case "header":
				n, ok := v.(VNode)
				if !ok {
					x.oblige(st, "ensures:header-fresh", ctorTags, "false", u.Fn.Pos())
					continue
				}
				x.oblige(st, "ensures:header-fresh", ctorTags, and(not(eq(n.T, "nil")), not(eq(n.T, "h")), sel(st.myc, n.T)), u.Fn.Pos())
				x.oblige(st, "ensures:header-full-height", ctorTags, and(eq(ap("lev", n.T), itoa(x.p.MaxLevel)), ap("ex", n.T)), u.Fn.Pos())
				x.oblige(st, "ensures:header-links-nothing", ctorTags, fmt.Sprintf("(forall ((i Int)) (! (= (nx %s %s i) nil) :pattern ((nx %s %s i))))", st.s, n.T, st.s, n.T), u.Fn.Pos())
				x.oblige(st, "ensures:header-complete-unmarked", ctorTags, fmt.Sprint(st.ctorFl[n.T] == x.F), u.Fn.Pos())
			}
		}
		have := map[string]bool{}
		for _, r := range u.V.SetRole {
			have[r] = true
		}
		x.oblige(st, "ensures:set-has-its-fields", ctorTags, fmt.Sprint(have["length"] && have["hl"] && have["header"] && have["less"] == (u.V.Name == "FuncSet")), u.Fn.Pos())
	})
}

// ---------------------------------------------------------------------------------------------- float orders

// fexec evaluates a comparison function of two floats into an SMT term over the theory of floating-point numbers.
type fexec struct {
	p    *Pkg
	bits int
	n    int
}

type fval struct {
	T    string
	Bool bool
}

func (f *fexec) sort() string {
	if f.bits == 32 {
		return "Float32"
	}
	return "Float64"
}

func (f *fexec) konst(c *ssa.Const) (fval, bool) {
	if c.Value == nil {
		return fval{}, false
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return fval{fmt.Sprint(constant.BoolVal(c.Value)), true}, true
	case constant.Float, constant.Int:
		v, _ := constant.Float64Val(c.Value)
		if v == float64(int64(v)) {
			e, s := 11, 53
			if f.bits == 32 {
				e, s = 8, 24
			}
			t := fmt.Sprintf("%d.0", int64(v))
			if v < 0 {
				t = fmt.Sprintf("(- %d.0)", -int64(v))
			}
			return fval{fmt.Sprintf("((_ to_fp %d %d) RNE %s)", e, s, t), false}, true
		}
	}
	return fval{}, false
}

func (f *fexec) fn(fn *ssa.Function, args []fval, depth int) (r fval, err error) {
	if depth > 8 {
		return fval{}, fmt.Errorf("recursion")
	}
	pkg := ""
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if pkg == "math" {
		switch fn.Name() {
		case "IsNaN":
			return fval{ap("fp.isNaN", args[0].T), true}, nil
		case "Signbit":
			return fval{ap("fp.isNegative", args[0].T), true}, nil
		case "Abs":
			return fval{ap("fp.abs", args[0].T), false}, nil
		}
		return fval{}, fmt.Errorf("math.%s is outside the verified subset", fn.Name())
	}
	if fn.Blocks == nil {
		return fval{}, fmt.Errorf("call of %s", fn.Name())
	}
	env := map[ssa.Value]fval{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	return f.block(fn.Blocks[0], nil, env, depth)
}

func (f *fexec) get(env map[ssa.Value]fval, v ssa.Value) (fval, error) {
	if c, ok := v.(*ssa.Const); ok {
		if r, ok := f.konst(c); ok {
			return r, nil
		}
		return fval{}, fmt.Errorf("constant %s", c)
	}
	if r, ok := env[v]; ok {
		return r, nil
	}
	return fval{}, fmt.Errorf("value %s", v.Name())
}

func (f *fexec) block(b, from *ssa.BasicBlock, env map[ssa.Value]fval, depth int) (fval, error) {
	f.n++
	if f.n > 500 {
		return fval{}, fmt.Errorf("comparison does not end within 500 blocks")
	}
	e2 := make(map[ssa.Value]fval, len(env))
	for k, v := range env {
		e2[k] = v
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range b.Preds {
			if p == from {
				v, err := f.get(env, ph.Edges[k])
				if err != nil {
					return v, err
				}
				e2[ph] = v
			}
		}
	}
	env = e2
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			a, err := f.get(env, in.X)
			if err != nil {
				return a, err
			}
			c, err := f.get(env, in.Y)
			if err != nil {
				return c, err
			}
			r, err := f.binop(in.Op, a, c)
			if err != nil {
				return r, err
			}
			env[in] = r
		case *ssa.UnOp:
			a, err := f.get(env, in.X)
			if err != nil {
				return a, err
			}
			switch {
			case in.Op == token.NOT:
				env[in] = fval{not(a.T), true}
			case in.Op == token.SUB && !a.Bool:
				env[in] = fval{ap("fp.neg", a.T), false}
			default:
				return fval{}, fmt.Errorf("operator %s", in.Op)
			}
		case *ssa.Convert:
			a, err := f.get(env, in.X)
			if err != nil {
				return a, err
			}
			to, ok1 := in.Type().Underlying().(*types.Basic)
			fr, ok2 := in.X.Type().Underlying().(*types.Basic)
			switch {
			case ok1 && ok2 && to.Kind() == fr.Kind():
				env[in] = a
			case ok1 && ok2 && to.Kind() == types.Float64 && fr.Kind() == types.Float32:
				env[in] = fval{ap("(_ to_fp 11 53)", "RNE", a.T), false}
			case ok1 && ok2 && to.Kind() == types.Float32 && fr.Kind() == types.Float64:
				env[in] = fval{ap("(_ to_fp 8 24)", "RNE", a.T), false}
			default:
				return fval{}, fmt.Errorf("conversion to %s", in.Type())
			}
		case *ssa.ChangeType:
			a, err := f.get(env, in.X)
			if err != nil {
				return a, err
			}
			env[in] = a
		case *ssa.Call:
			g := in.Call.StaticCallee()
			if g == nil {
				return fval{}, fmt.Errorf("indirect call")
			}
			var as []fval
			for _, q := range in.Call.Args {
				a, err := f.get(env, q)
				if err != nil {
					return a, err
				}
				as = append(as, a)
			}
			r, err := f.fn(origin(g), as, depth+1)
			if err != nil {
				return r, err
			}
			env[in] = r
		case *ssa.Jump:
			return f.block(b.Succs[0], b, env, depth)
		case *ssa.If:
			c, err := f.get(env, in.Cond)
			if err != nil {
				return c, err
			}
			if c.T == "true" {
				return f.block(b.Succs[0], b, env, depth)
			}
			if c.T == "false" {
				return f.block(b.Succs[1], b, env, depth)
			}
			t, err := f.block(b.Succs[0], b, env, depth)
			if err != nil {
				return t, err
			}
			e, err := f.block(b.Succs[1], b, env, depth)
			if err != nil {
				return e, err
			}
			return fval{ap("ite", c.T, t.T, e.T), t.Bool}, nil
		case *ssa.Return:
			return f.get(env, in.Results[0])
		default:
			return fval{}, fmt.Errorf("%T is outside the verified subset", in)
		}
	}
	return fval{}, fmt.Errorf("no return")
}

func (f *fexec) binop(o token.Token, a, b fval) (fval, error) {
	if a.Bool {
		switch o {
		case token.EQL:
			return fval{ap("=", a.T, b.T), true}, nil
		case token.NEQ:
			return fval{not(ap("=", a.T, b.T)), true}, nil
		case token.AND:
			return fval{and(a.T, b.T), true}, nil
		case token.OR:
			return fval{or(a.T, b.T), true}, nil
		}
		return fval{}, fmt.Errorf("operator %s", o)
	}
	m := map[token.Token]string{token.LSS: "fp.lt", token.GTR: "fp.gt", token.LEQ: "fp.leq", token.GEQ: "fp.geq", token.EQL: "fp.eq"}
	if s, ok := m[o]; ok {
		return fval{ap(s, a.T, b.T), true}, nil
	}
	if o == token.NEQ {
		return fval{not(ap("fp.eq", a.T, b.T)), true}, nil
	}
	ar := map[token.Token]string{token.ADD: "fp.add RNE", token.SUB: "fp.sub RNE", token.MUL: "fp.mul RNE"}
	if s, ok := ar[o]; ok {
		return fval{ap(s, a.T, b.T), false}, nil
	}
	return fval{}, fmt.Errorf("operator %s", o)
}

// floatObs are the obligations about a comparison function (written L over constants a b c).
var floatObs = []struct{ name, f string }{
	{"irreflexive", "(not (L a a))"},
	{"asymmetric", "(not (and (L a b) (L b a)))"},
	{"transitive", "(=> (and (L a b) (L b c)) (L a c))"},
	{"equivalence-transitive", "(=> (and (not (L a b)) (not (L b a)) (not (L b c)) (not (L c b))) (and (not (L a c)) (not (L c a))))"},
	{"nan-before-every-number", "(=> (and (fp.isNaN a) (not (fp.isNaN b))) (and (L a b) (not (L b a))))"},
	{"all-nans-equal", "(=> (and (fp.isNaN a) (fp.isNaN b)) (and (not (L a b)) (not (L b a))))"},
	{"zeros-equal", "(=> (and (fp.isZero a) (fp.isZero b)) (and (not (L a b)) (not (L b a))))"},
	{"numeric-order", "(=> (and (not (fp.isNaN a)) (not (fp.isNaN b))) (= (L a b) (ORD a b)))"},
}

// runFloat: the comparison a float constructor passes to NewFunc is a strict weak order, NaN first, in the
// documented direction.
func (x *Exec) runFloat(st *State) {
	u := x.u
	tags := []string{"C11", "C12"}
	bits := 64
	if strings.Contains(u.Name, "32") {
		bits = 32
	}
	ord := "fp.lt"
	if strings.Contains(u.Name, "Desc") {
		ord = "fp.gt"
	}
	var fns []*ssa.Function
	x.inline(st, u.Fn, nil, nil, 0, func(st *State, rets []Val) {
		x.covers++
		if a, ok := rets[0].(VAddr); ok && a.Kind == "cell" {
			if set, ok := st.cells[a.Cell].(VStruct); ok {
				for i, role := range u.V.SetRole {
					if role == "less" && i < len(set.F) {
						if f, ok := set.F[i].(VFn); ok && f.Kind == "static" && len(f.Bind) == 0 {
							fns = append(fns, f.Fn)
							return
						}
					}
				}
			}
		}
		fns = append(fns, nil)
	})
	for _, fn := range fns {
		if fn == nil || len(fn.Params) != 2 {
			x.oblige(st, "comparison-found", tags, "false", u.Fn.Pos())
			continue
		}
		f := &fexec{p: x.p, bits: bits}
		t, err := f.fn(fn, []fval{{"p_", false}, {"q_", false}}, 0)
		if err != nil {
			x.note("subset:"+err.Error(), tags, fn.Pos(), false, err.Error(), "")
			continue
		}
		for _, o := range floatObs {
			goal := strings.ReplaceAll(o.f, "ORD", ord)
			script := fmt.Sprintf("(define-sort F () %s)\n(define-fun L ((p_ F) (q_ F)) Bool %s)\n(declare-const a F)(declare-const b F)(declare-const c F)\n(assert (not %s))\n", f.sort(), t.T, goal)
			x.vcs++
			r, out := runFP(script)
			x.note("comparison:"+o.name, tags, fn.Pos(), r, "not discharged: "+goal+"\n"+out, script+"(check-sat)\n(get-value (a b c))\n")
		}
	}
}
