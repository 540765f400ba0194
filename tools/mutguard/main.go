// mutguard writes mutants which only misbehave when a rare condition on the
// surrounding function's input holds. Run in /repo:
//
//	mutguard FILE... > mutants.jsonl
//
// Each has the plain mutant as "Plain": only changes which ordinary use would
// show (the stable tests fail) are worth guarding.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

type M struct {
	File       string
	Line       int
	Start, End int
	Old, New   string
	Plain      string
	Kind       string
	Guard      string
}

func guards(name string, t types.Type) []string {
	if name == "_" || name == "" {
		return nil
	}
	str := func(x string) []string {
		return []string{
			fmt.Sprintf("len(%s) == 23", x),
			fmt.Sprintf("len(%s) > 120", x),
			fmt.Sprintf("len(%[1]s) > 2 && %[1]s[len(%[1]s)-1] == 0xA9 && %[1]s[0] == 'a'", x),
			fmt.Sprintf("len(%[1]s) > 3 && %[1]s[1] == %[1]s[2] && %[1]s[2] == %[1]s[3]", x),
			fmt.Sprintf("len(%[1]s) > 3 && %[1]s[len(%[1]s)-4] == 0xF0", x),
		}
	}
	switch types.TypeString(t, func(*types.Package) string { return "" }) {
	case "*NormalizedString":
		return append(str(name+".normalized"), name+".originalShift == 7", fmt.Sprintf("len(%s.original) == 0", name),
			fmt.Sprintf("len(%[1]s.original) > len(%[1]s.normalized)+9", name))
	case "*PreTokenizedString":
		return []string{fmt.Sprintf("len(%s.splits) == 5", name), fmt.Sprintf("len(%s.original) > 60", name)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return str(name)
		case types.Int:
			return []string{name + " == 19", name + " > 50", name + " == 3"}
		case types.Rune:
			return []string{fmt.Sprintf("%[1]s > 0xFFFF && %[1]s&7 == 3", name), fmt.Sprintf("%s&0xff == 0xc7", name)}
		}
	case *types.Slice:
		return []string{fmt.Sprintf("len(%s) == 11", name), fmt.Sprintf("len(%s) > 40", name)}
	}
	return nil
}

func main() {
	rng := rand.New(rand.NewSource(7))
	fs := token.NewFileSet()
	imp := importer.ForCompiler(fs, "source", nil)
	byDir := map[string][]string{}
	for _, f := range os.Args[1:] {
		byDir[filepath.Dir(f)] = append(byDir[filepath.Dir(f)], f)
	}
	for dir, files := range byDir {
		var asts []*ast.File
		srcs := map[*ast.File][]byte{}
		names := map[*ast.File]string{}
		all, _ := filepath.Glob(dir + "/*.go")
		for _, f := range all {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, _ := os.ReadFile(f)
			a, err := parser.ParseFile(fs, f, src, 0)
			if err != nil {
				panic(err)
			}
			asts = append(asts, a)
			srcs[a], names[a] = src, f
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, err) }}
		conf.Check(dir, fs, asts, info)
		for _, a := range asts {
			for _, d := range a.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if ok && fd.Body != nil {
					fun(rng, fs, info, names[a], srcs[a], fd)
				}
			}
		}
		_ = files
	}
}

func fun(rng *rand.Rand, fs *token.FileSet, info *types.Info, file string, src []byte, fd *ast.FuncDecl) {
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var gs []string
	fields := func(fl *ast.FieldList) (out []string) {
		if fl == nil {
			return nil
		}
		for _, f := range fl.List {
			for _, n := range f.Names {
				if o := info.Defs[n]; o != nil {
					out = append(out, guards(n.Name, o.Type())...)
				}
			}
		}
		return
	}
	gs = append(fields(fd.Recv), fields(fd.Type.Params)...)
	emit := func(n ast.Node, kind, plain, t string) {
		if len(gs) == 0 {
			return
		}
		g := gs[rng.Intn(len(gs))]
		m := M{File: file, Line: fs.Position(n.Pos()).Line, Start: off(n.Pos()), End: off(n.End()), Old: text(n), Plain: plain, Kind: kind, Guard: g}
		if t == "" {
			m.New = fmt.Sprintf("if !(%s) { %s }", g, m.Old)
		} else {
			m.New = fmt.Sprintf("func() %s { if %s { return %s }; return %s }()", t, g, plain, m.Old)
		}
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
	}
	lhs := map[ast.Node]bool{}
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			saved := gs
			gs = append(fields(x.Type.Params), gs...)
			if len(gs) > 0 {
				ast.Inspect(x.Body, walk)
			}
			gs = saved
			return false
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				lhs[l] = true
			}
			if x.Tok != token.DEFINE {
				emit(x, "del", "", "")
			}
		case *ast.IncDecStmt:
			lhs[x.X] = true
			emit(x, "del", "", "")
		case *ast.ExprStmt, *ast.BranchStmt:
			emit(x, "del", "", "")
		case *ast.ReturnStmt:
			emit(x, "del", "", "")
		case *ast.KeyValueExpr:
			ast.Inspect(x.Value, walk)
			return false
		case ast.Expr:
			tv, ok := info.Types[x]
			if !ok || lhs[n] || tv.IsType() {
				return true
			}
			if b, isB := tv.Type.(*types.Basic); isB && !tv.IsVoid() {
				switch {
				case b.Info()&types.IsBoolean != 0:
					emit(x, "not", "!("+text(x)+")", "bool")
				case b.Kind() == types.Int || b.Kind() == types.UntypedInt:
					emit(x, "plus", "("+text(x)+")+1", "int")
					emit(x, "minus", "("+text(x)+")-1", "int")
				case b.Kind() == types.String && tv.Value == nil:
					emit(x, "string", "("+text(x)+")+\"é\"", "string")
					emit(x, "empty", "("+text(x)+")[:0]", "string")
				}
			}
		}
		return true
	}
	ast.Inspect(fd.Body, walk)
}
