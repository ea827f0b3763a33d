package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pkg is the loaded package under verification.
type Pkg struct {
	Dir      string
	Fset     *token.FileSet
	Types    *types.Package
	Prog     *ssa.Program
	SSA      *ssa.Package
	Variants []*Variant
	MaxLevel int // number of level slots of a node: len(base)+len(extra)
	Op1      int // len(base)
}

// Variant is one of the set types.
type Variant struct {
	Name    string
	Set     *types.Named
	Node    *types.Named
	Desc    bool
	Less    bool // ordered by a function stored in the set
	SetRole map[int]string
	NodRole map[int]string
	ValType types.Type
}

func loadPkg(dir string) (*Pkg, error) {
	p := &Pkg{Dir: dir, Fset: token.NewFileSet()}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	ctx := build.Default
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(p.Fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	cwd, _ := os.Getwd()
	if err := os.Chdir(dir); err != nil { // the source importer resolves modules from here
		return nil, err
	}
	defer os.Chdir(cwd)
	conf := types.Config{Importer: importer.ForCompiler(p.Fset, "source", nil), GoVersion: "go1.18"}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
	tp, err := conf.Check("github.com/zhangyunhao116/skipset", p.Fset, files, info)
	if err != nil {
		return nil, err
	}
	p.Types = tp
	prog := ssa.NewProgram(p.Fset, ssa.BuilderMode(0))
	seen := map[*types.Package]bool{}
	var create func(ps []*types.Package)
	create = func(ps []*types.Package) {
		for _, q := range ps {
			if !seen[q] {
				seen[q] = true
				prog.CreatePackage(q, nil, nil, true)
				create(q.Imports())
			}
		}
	}
	create(tp.Imports())
	p.SSA = prog.CreatePackage(tp, files, info, false)
	p.SSA.Build()
	p.Prog = prog
	if err := p.discover(); err != nil {
		return nil, err
	}
	return p, nil
}

func under(t types.Type) types.Type { return t.Underlying() }

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	if n != nil {
		return n.Origin()
	}
	return nil
}

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name
}

func isMutex(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Mutex"
}

var opNames = []string{"Add", "Remove", "Contains", "Range", "RangeFrom", "Len"}

func (p *Pkg) discover() error {
	sc := p.Types.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		have := map[string]bool{}
		for i := 0; i < n.NumMethods(); i++ {
			have[n.Method(i).Name()] = true
		}
		all := true
		for _, m := range opNames {
			all = all && have[m]
		}
		if !all {
			continue
		}
		v := &Variant{Name: name, Set: n, SetRole: map[int]string{}, NodRole: map[int]string{}, Desc: strings.HasSuffix(name, "Desc")}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch t := types.Unalias(f.Type()).(type) {
			case *types.Basic:
				switch {
				case f.Name() == "length" || t.Kind() == types.Int64:
					v.SetRole[i] = "length"
				case f.Name() == "highestLevel" || t.Kind() == types.Uint64:
					v.SetRole[i] = "hl"
				}
			case *types.Named:
				if t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == "sync/atomic" {
					switch {
					case f.Name() == "length" || strings.HasPrefix(t.Obj().Name(), "Int"):
						v.SetRole[i] = "length"
					case f.Name() == "highestLevel" || strings.HasPrefix(t.Obj().Name(), "Uint"):
						v.SetRole[i] = "hl"
					}
				}
			case *types.Pointer:
				if nn := namedOf(t); nn != nil {
					if _, ok := nn.Underlying().(*types.Struct); ok {
						v.SetRole[i] = "header"
						v.Node = nn
					}
				}
			case *types.Signature:
				v.SetRole[i] = "less"
				v.Less = true
			}
		}
		if v.Node == nil {
			return fmt.Errorf("%s: no node type found", name)
		}
		nst := v.Node.Underlying().(*types.Struct)
		for i := 0; i < nst.NumFields(); i++ {
			f := nst.Field(i)
			switch {
			case isMutex(f.Type()):
				v.NodRole[i] = "mu"
			case isNamed(f.Type(), "bitflag"):
				v.NodRole[i] = "flags"
			case isNamed(f.Type(), "optionalArray"):
				v.NodRole[i] = "next"
				ost := f.Type().Underlying().(*types.Struct)
				tot, base := 0, 0
				for j := 0; j < ost.NumFields(); j++ {
					switch t := ost.Field(j).Type().Underlying().(type) {
					case *types.Array:
						base = int(t.Len())
					case *types.Pointer:
						if a, ok := t.Elem().Underlying().(*types.Array); ok {
							tot += int(a.Len())
						}
					}
				}
				p.Op1, p.MaxLevel = base, tot+base
			case f.Name() == "level":
				v.NodRole[i] = "level"
			case f.Name() == "value":
				v.NodRole[i] = "value"
				v.ValType = f.Type()
			default:
				if b, ok := f.Type().(*types.Basic); ok && b.Kind() == types.Uint32 && v.roleIdx("level") < 0 && nst.NumFields() == 5 && i == 4 {
					v.NodRole[i] = "level"
				} else {
					v.NodRole[i] = "value"
					v.ValType = f.Type()
				}
			}
		}
		p.Variants = append(p.Variants, v)
	}
	sort.Slice(p.Variants, func(i, j int) bool { return p.Variants[i].Name < p.Variants[j].Name })
	if len(p.Variants) == 0 {
		return fmt.Errorf("no set types found")
	}
	return nil
}

func (v *Variant) roleIdx(r string) int {
	for i, x := range v.NodRole {
		if x == r {
			return i
		}
	}
	return -1
}

// Funcs returns the functions of the variant (methods of set and node), by name.
func (p *Pkg) method(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

func origin(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func (p *Pkg) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}
