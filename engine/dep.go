package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runDep verifies what the draws rely on, from the source of the fastrand module this build uses: Uint32n(4) takes one
// 32-bit word from the runtime and is 0 for exactly the words below 2^30, a quarter of them.
func runDep(p *Pkg) (out []LemmaRes) {
	defer func() {
		if recover() != nil {
			out = nil
		}
	}()
	var imp *types.Package
	for _, q := range p.Types.Imports() {
		if q.Path() == fastrandPath {
			imp = q
		}
	}
	if imp == nil {
		return nil
	}
	o := imp.Scope().Lookup("Uint32n")
	if o == nil {
		return nil
	}
	file := p.Fset.Position(o.Pos()).Filename
	names, _ := filepath.Glob(filepath.Join(filepath.Dir(file), "*.go"))
	fset := token.NewFileSet()
	var files []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil || f.Name.Name != "fastrand" {
			return nil
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	tp, err := conf.Check(fastrandPath, fset, files, info)
	if err != nil {
		return nil
	}
	prog := ssa.NewProgram(fset, ssa.BuilderMode(0))
	for _, q := range tp.Imports() {
		prog.CreatePackage(q, nil, nil, true)
	}
	sp := prog.CreatePackage(tp, files, info, false)
	sp.Build()
	fn := sp.Func("Uint32n")
	if fn == nil || len(fn.Blocks) != 1 || len(fn.Params) != 1 {
		return nil
	}
	env := map[ssa.Value]string{fn.Params[0]: "(_ bv4 32)"}
	width := func(t types.Type) int {
		switch t.Underlying().(*types.Basic).Kind() {
		case types.Uint32, types.Int32:
			return 32
		case types.Uint64, types.Int64, types.Uint, types.Int, types.Uintptr:
			return 64
		}
		panic("width")
	}
	val := func(v ssa.Value) string {
		if c, ok := v.(*ssa.Const); ok {
			return fmt.Sprintf("(_ bv%d %d)", c.Uint64(), width(c.Type()))
		}
		t, ok := env[v]
		if !ok {
			panic("value")
		}
		return t
	}
	words, source := 0, ""
	res := ""
	for _, in := range fn.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.UnOp:
			g, ok := in.X.(*ssa.Global)
			if !ok || in.Op != token.MUL || !onlyInit(sp, g) {
				panic("load")
			}
			source = g.Name()
			env[in] = g.Name()
		case *ssa.Call:
			if len(in.Call.Args) != 0 {
				panic("call")
			}
			if f := in.Call.StaticCallee(); f != nil {
				source = f.Name()
			}
			if !strings.Contains(strings.ToLower(source), "uint32") && !strings.Contains(source, "runtimefastrand") {
				panic("source")
			}
			words++
			env[in] = "w"
		case *ssa.Convert:
			from, to := width(in.X.Type()), width(in.Type())
			t := val(in.X)
			switch {
			case from < to:
				if b := in.X.Type().Underlying().(*types.Basic); b.Info()&types.IsUnsigned == 0 {
					panic("sign")
				}
				t = fmt.Sprintf("((_ zero_extend %d) %s)", to-from, t)
			case from > to:
				t = fmt.Sprintf("((_ extract %d 0) %s)", to-1, t)
			}
			env[in] = t
		case *ssa.BinOp:
			op := map[token.Token]string{token.MUL: "bvmul", token.SHR: "bvlshr", token.REM: "bvurem", token.AND: "bvand", token.ADD: "bvadd", token.SUB: "bvsub"}[in.Op]
			if b := in.X.Type().Underlying().(*types.Basic); op == "" || b.Info()&types.IsUnsigned == 0 {
				panic("op")
			}
			y := val(in.Y)
			if d := width(in.X.Type()) - width(in.Y.Type()); d > 0 {
				y = fmt.Sprintf("((_ zero_extend %d) %s)", d, y)
			} else if d < 0 {
				panic("shift")
			}
			env[in] = fmt.Sprintf("(%s %s %s)", op, val(in.X), y)
		case *ssa.Return:
			res = val(in.Results[0])
		case *ssa.DebugRef:
		default:
			panic("instruction")
		}
	}
	out = append(out, LemmaRes{Name: "dependency:fastrand.Uint32n:one-word", OK: words == 1})
	for _, g := range [][2]string{
		{"below-four", "(not (bvult " + res + " (_ bv4 32)))"},
		{"zero-for-a-quarter-of-the-words", "(not (= (= " + res + " (_ bv0 32)) (bvult w (_ bv1073741824 32))))"},
	} {
		r, all := runScript(z3bin, "(declare-const w (_ BitVec 32))\n(assert "+g[1]+")\n(check-sat)\n", 20)
		out = append(out, LemmaRes{Name: "dependency:fastrand.Uint32n:" + g[0], OK: r == "unsat", Out: all})
	}
	return out
}

// onlyInit: the package variable is assigned only when the package is initialised
func onlyInit(sp *ssa.Package, g *ssa.Global) bool {
	for _, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					return false
				}
			}
		}
	}
	return true
}
