// instr inserts scheduling points into copies of Go sources.
// usage: instr [-nomid] SRC DST  (rewrites one file)
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	mid := true
	a := os.Args[1:]
	if a[0] == "-nomid" {
		mid, a = false, a[1:]
	}
	if err := rewrite(a[0], a[1], mid); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func rewrite(src, dst string, mid bool) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, nil, 0)
	if err != nil {
		return err
	}
	label := func(p token.Pos) ast.Expr {
		pos := fset.Position(p)
		return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))}
	}
	sel := func(n string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent("zzsched"), Sel: ast.NewIdent(n)} }
	hasSync := false
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` && im.Name == nil {
			hasSync = true
		}
	}
	wrap := func(p token.Pos, e ast.Expr) ast.Expr {
		return &ast.CallExpr{Fun: sel("Mid"), Args: []ast.Expr{label(p), e}}
	}
	simple := func(e ast.Expr) bool {
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			if _, is := n.(*ast.CallExpr); is {
				ok = false
			}
			return ok
		})
		return ok
	}
	root := func(e ast.Expr) string {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				return x.Name
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			default:
				return ""
			}
		}
	}
	conv := func(st ast.Stmt) ast.Stmt {
		if !mid {
			return st
		}
		switch x := st.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 {
				return st
			}
			if id, ok := x.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
				return st
			}
			if x.Tok == token.ASSIGN {
				use := false
				r := root(x.Lhs[0])
				ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
					switch y := n.(type) {
					case *ast.FuncLit:
						return false
					case *ast.CallExpr:
						use = true
					case *ast.Ident:
						use = use || y.Name == r
					}
					return true
				})
				if _, fl := x.Rhs[0].(*ast.FuncLit); use && !fl {
					x.Rhs[0] = wrap(x.Pos(), x.Rhs[0])
				}
			} else if x.Tok != token.DEFINE && simple(x.Lhs[0]) {
				op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND}[x.Tok]
				if op != 0 {
					x.Tok = token.ASSIGN
					x.Rhs[0] = wrap(x.Pos(), &ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}})
				}
			}
		case *ast.IncDecStmt:
			if simple(x.X) {
				op := token.ADD
				if x.Tok == token.DEC {
					op = token.SUB
				}
				return &ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, TokPos: x.TokPos, Rhs: []ast.Expr{wrap(x.Pos(), &ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}}
			}
		}
		return st
	}
	list := func(in []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range in {
			if s.Pos().IsValid() {
				out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Yield"), Args: []ast.Expr{label(s.Pos())}}})
			}
			out = append(out, conv(s))
		}
		return out
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = list(x.List)
		case *ast.CaseClause:
			x.Body = list(x.Body)
		case *ast.CommClause:
			x.Body = list(x.Body)
		case *ast.SwitchStmt:
			// its block only holds clauses
			for _, c := range x.Body.List {
				ast.Inspect(c, func(ast.Node) bool { return false })
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && hasSync && id.Name == "sync" {
				switch x.Sel.Name {
				case "Mutex", "RWMutex", "Once":
					id.Name = "zzsched"
				}
			}
		}
		return true
	})
	// blocks of switch and select statements hold clauses, not statements
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.SwitchStmt:
			b = x.Body
		case *ast.TypeSwitchStmt:
			b = x.Body
		case *ast.SelectStmt:
			b = x.Body
		}
		if b != nil {
			var out []ast.Stmt
			for _, s := range b.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					out = append(out, s)
				}
			}
			b.List = out
		}
		return true
	})
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return err
	}
	s := b.String()
	i := strings.Index(s, "\npackage ")
	if strings.HasPrefix(s, "package ") {
		i = 0
	} else {
		i++
	}
	e := strings.IndexByte(s[i:], '\n') + i
	s = s[:e] + "\n\nimport zzsched \"github.com/g-rath/osv-detector/internal/zzsched\"\n" + s[e:] + "\nvar _ = zzsched.Yield\n"
	if hasSync {
		s += "\nvar _ sync.Locker\n"
	}
	return os.WriteFile(dst, []byte(s), 0o644)
}
