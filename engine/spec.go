package main

import (
	"embed"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed contracts/skipset.contracts
var specFS embed.FS

// Clause is one requires/ensures clause of a contract.
type Clause struct {
	Name string
	Tags []string
	F    string
}

// Spec is the contract of one function.
type Spec struct {
	Name     string
	Params   []string // names
	Kinds    []string // elem, out, nodes, int, visitor
	Ret      string
	RetKind  string
	Flags    map[string]bool
	Requires []Clause
	Ensures  []Clause
}

// What the structure of the set rests on: every property but the two about orders (C11) and constructors (C12) is
// argued from it, so a failure counts against all of them.
var structProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C14", "C15"}

func loadSpecs() map[string]*Spec {
	b, err := specFS.ReadFile("contracts/skipset.contracts")
	if err != nil {
		panic(err)
	}
	out := map[string]*Spec{}
	var cur *Spec
	for ln, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		switch f := strings.Fields(l); f[0] {
		case "contract":
			rest := strings.TrimPrefix(l, "contract ")
			i, j := strings.IndexByte(rest, '('), strings.IndexByte(rest, ')')
			cur = &Spec{Name: rest[:i], Flags: map[string]bool{}}
			n, k := parseVars(rest[i+1 : j])
			cur.Params, cur.Kinds = n, k
			if t := strings.Fields(rest[j+1:]); len(t) == 2 {
				cur.Ret, cur.RetKind = t[0], t[1]
			}
			out[cur.Name] = cur
		case "requires", "ensures":
			i, j := strings.IndexByte(l, '['), strings.IndexByte(l, ']')
			c := Clause{Name: f[1], F: strings.TrimSpace(l[j+1:])}
			if t := l[i+1 : j]; t == "*" {
				c.Tags = structProps
			} else {
				c.Tags = strings.Split(t, ",")
			}
			if f[0] == "requires" {
				cur.Requires = append(cur.Requires, c)
			} else {
				cur.Ensures = append(cur.Ensures, c)
			}
		default:
			if len(f) != 1 {
				panic(fmt.Sprintf("contracts line %d: %s", ln+1, l))
			}
			cur.Flags[f[0]] = true
		}
	}
	return out
}

// drawsHeight: a parameterless package-level function that asks the random source
func drawsHeight(fn *ssa.Function) bool {
	if fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || fn.Parent() != nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Object() != nil && g.Object().Pkg() != nil && g.Object().Pkg().Path() == fastrandPath {
					return true
				}
			}
		}
	}
	return fn.Name() == "randomLevel"
}

const fastrandPath = "github.com/zhangyunhao116/fastrand"

func searchShape(sp *Spec) bool { return strings.HasPrefix(sp.Name, "findNode") }

// reaches: method op of the set calls fn, possibly through other functions of the package
func (p *Pkg) reaches(v *Variant, op string, fn *ssa.Function) bool {
	org := func(f *ssa.Function) *ssa.Function {
		if o := f.Origin(); o != nil {
			return o
		}
		return f
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		f = org(f)
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Object() != nil && g.Object().Pkg() == p.Types {
						if org(g) == org(fn) || rec(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for i := 0; i < v.Set.NumMethods(); i++ {
		if m := v.Set.Method(i); m.Name() == op {
			if f := p.Prog.FuncValue(m); f != nil {
				return rec(f)
			}
		}
	}
	return false
}

// specFor finds the contract of a function of variant v (nil if it has none).
func (p *Pkg) specFor(v *Variant, specs map[string]*Spec, fn *ssa.Function) *Spec {
	name := fn.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	sig := fn.Signature
	recv := ""
	if r := sig.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	var sp *Spec
	switch {
	case v != nil && recv == v.Set.Obj().Name():
		if name == "randomLevel" || name == "newNode" || name == "unlock" {
			return nil
		}
		sp = specs[name]
		if sp == nil || searchShape(sp) {
			// a search is under the contract its callers need, whatever its name
			if q := specs["findNodeAdd"]; sp != nil || !fn.Object().Exported() {
				sp = q
				if p.reaches(v, "Remove", fn) {
					sp = specs["findNodeRemove"]
				} else if !p.reaches(v, "Add", fn) {
					sp = specs[name]
				}
			}
		}
	case recv == "" && drawsHeight(fn):
		sp = specs["randomLevel"]
	case recv == "" && v != nil && strings.HasPrefix(name, "unlock"):
		sp = specs["unlock"]
	case recv == "" && v != nil && strings.HasPrefix(name, "new") && sig.Results().Len() == 1 && namedOf(sig.Results().At(0).Type()) == v.Node:
		sp = specs["newNode"]
	}
	if sp == nil {
		return nil
	}
	// the signature must fit
	if sig.Params().Len() != len(sp.Params) || sig.Variadic() {
		return nil
	}
	isNodePtr := func(t types.Type) bool {
		pt, ok := types.Unalias(t).(*types.Pointer)
		return ok && v != nil && namedOf(pt.Elem()) == v.Node
	}
	isNodeArr := func(t types.Type) bool {
		a, ok := t.Underlying().(*types.Array)
		return ok && int(a.Len()) == p.MaxLevel && isNodePtr(a.Elem())
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	for i, k := range sp.Kinds {
		t := sig.Params().At(i).Type()
		ok := false
		switch k {
		case "elem":
			ok = true
		case "out":
			pt, isp := t.Underlying().(*types.Pointer)
			ok = isp && isNodeArr(pt.Elem())
		case "nodes":
			ok = isNodeArr(t)
		case "int":
			ok = isInt(t)
		case "visitor":
			_, ok = t.Underlying().(*types.Signature)
		}
		if !ok {
			return nil
		}
	}
	res := sig.Results()
	switch sp.RetKind {
	case "":
		if res.Len() != 0 {
			return nil
		}
	default:
		if res.Len() != 1 {
			return nil
		}
		t := res.At(0).Type()
		ok := false
		switch sp.RetKind {
		case "int":
			ok = isInt(t)
		case "node":
			ok = isNodePtr(t)
		case "bool":
			b, isb := t.Underlying().(*types.Basic)
			ok = isb && b.Info()&types.IsBoolean != 0
		}
		if !ok {
			return nil
		}
	}
	return sp
}
