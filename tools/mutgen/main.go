package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File       string
	Line       int
	Start, End int
	Old, New   string
	Kind       string
}

func main() {
	var out []M
	for _, file := range os.Args[1:] {
		src, _ := os.ReadFile("/repo/" + file)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		add := func(kind string, a, b token.Pos, new string) {
			out = append(out, M{file, fs.Position(a).Line, off(a), off(b), string(src[off(a):off(b)]), new, kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
			token.EQL: {"!=", ">=", "<="}, token.NEQ: {"==", "<", ">"}, token.ADD: {"-"}, token.SUB: {"+"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}, token.QUO: {"*"}, token.SHL: {">>"}, token.AND: {"|"}, token.OR: {"&"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add("left", x.Pos(), x.End(), "("+text(x.X)+")")
					add("right", x.Pos(), x.End(), "("+text(x.Y)+")")
				}
				if x.Op == token.ADD || x.Op == token.SUB {
					add("left", x.Pos(), x.End(), "("+text(x.X)+")")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						add("int", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					add("bool", x.Pos(), x.End(), "true")
				}
			case *ast.IfStmt:
				add("if", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
				add("if", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
			case *ast.ForStmt:
				if x.Cond != nil {
					add("for", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB {
					add("unary", x.Pos(), x.End(), text(x.X))
				}
			case *ast.IndexExpr:
				add("index", x.Index.Pos(), x.Index.End(), text(x.Index)+"+1")
				add("index", x.Index.Pos(), x.Index.End(), text(x.Index)+"-1")
			case *ast.SliceExpr:
				for _, e := range []ast.Expr{x.Low, x.High} {
					if e != nil {
						add("slice", e.Pos(), e.End(), text(e)+"+1")
						add("slice", e.Pos(), e.End(), text(e)+"-1")
					}
				}
				if x.Low != nil {
					add("slice", x.Low.Pos(), x.Low.End(), "")
				}
				if x.High != nil {
					add("slice", x.High.Pos(), x.High.End(), "")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					del(s, add)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(s, add)
				}
			case *ast.KeyValueExpr:
				if _, ok := x.Value.(*ast.BasicLit); !ok {
					add("kv0", x.Pos(), x.End(), "")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					add("swapargs", a.Pos(), b.End(), text(b)+", "+text(a))
				}
				for _, a := range x.Args {
					switch a.(type) {
					case *ast.Ident, *ast.SelectorExpr, *ast.BinaryExpr, *ast.CallExpr, *ast.BasicLit:
						add("arg", a.Pos(), a.End(), "("+text(a)+")+1")
						add("arg", a.Pos(), a.End(), "("+text(a)+")-1")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if text(r) == "err" {
						add("ret", r.Pos(), r.End(), "nil")
					}
					switch r.(type) {
					case *ast.Ident, *ast.CallExpr, *ast.BinaryExpr, *ast.SelectorExpr:
						add("ret", r.Pos(), r.End(), "("+text(r)+")+1")
						add("ret", r.Pos(), r.End(), "("+text(r)+")-1")
						add("ret", r.Pos(), r.End(), "!("+text(r)+")")
					}
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN {
					add("assign", x.TokPos, x.TokPos+2, "-=")
					add("assign", x.TokPos, x.TokPos+2, "=")
				}
				if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
					switch x.Rhs[0].(type) {
					case *ast.Ident, *ast.CallExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.BinaryExpr:
						add("rhs", x.Rhs[0].Pos(), x.Rhs[0].End(), "("+text(x.Rhs[0])+")+1")
						add("rhs", x.Rhs[0].Pos(), x.Rhs[0].End(), "("+text(x.Rhs[0])+")-1")
					}
				}
			}
			return true
		})
	}
	for i, m := range out {
		_ = i
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
	}
}

func del(s ast.Stmt, add func(string, token.Pos, token.Pos, string)) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.ForStmt, *ast.RangeStmt, *ast.DeferStmt, *ast.SwitchStmt:
		add("del", s.Pos(), s.End(), "")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			add("del", s.Pos(), s.End(), "")
		}
	case *ast.IfStmt:
		if x.Else == nil {
			add("del", s.Pos(), s.End(), "")
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			add("del", s.Pos(), s.End(), "")
		}
	}
}
