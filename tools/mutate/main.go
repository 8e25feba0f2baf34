// mutate lists small changes to Go files, one JSON object per line {file, off, end, new, line, op}.
// Used to look for gaps in the checks; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File     string `json:"file"`
	Off, End int
	New, Op  string
	Line     int
	Old      string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, new, op string) {
			o := txt(n)
			if o == new {
				return
			}
			_ = enc.Encode(mut{file, off(n.Pos()), off(n.End()), new, op, fs.Position(n.Pos()).Line, o})
		}
		delStmt := func(s ast.Stmt) {
			switch x := s.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(s, "", "del-assign")
				}
			case *ast.ExprStmt:
				emit(s, "", "del-call")
			case *ast.IncDecStmt:
				emit(s, "", "del-inc")
			case *ast.BranchStmt:
				switch x.Tok {
				case token.CONTINUE:
					emit(s, "", "del-continue")
					emit(s, "break", "continue-break")
				case token.BREAK:
					emit(s, "", "del-break")
				}
			case *ast.DeferStmt:
				emit(s, "", "del-defer")
			case *ast.IfStmt:
				emit(s.(*ast.IfStmt).Cond, "true || ("+txt(x.Cond)+")", "if-true")
				emit(s.(*ast.IfStmt).Cond, "false && ("+txt(x.Cond)+")", "if-false")
			case *ast.RangeStmt, *ast.ForStmt:
			}
		}
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}}
		calls := map[string][]string{"strings.HasPrefix": {"strings.HasSuffix", "strings.Contains", "strings.EqualFold"}, "strings.HasSuffix": {"strings.HasPrefix", "strings.Contains"}, "strings.Contains": {"strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold"}, "strings.TrimPrefix": {"strings.TrimSuffix", "strings.TrimLeft"}, "strings.TrimSuffix": {"strings.TrimPrefix", "strings.TrimRight"}, "strings.Trim": {"strings.TrimLeft", "strings.TrimRight"},
			"strings.LastIndex": {"strings.Index"}, "strings.Index": {"strings.LastIndex"}, "strings.CutPrefix": {"strings.CutSuffix"}, "path.Base": {"path.Dir"}, "filepath.Base": {"filepath.Dir"}, "slices.Contains": {}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.Field:
				return x.Tag == nil
			case *ast.BlockStmt:
				for _, s := range x.List {
					delStmt(s)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					delStmt(s)
				}
				for i, e := range x.List {
					if len(x.List) > 1 {
						_ = i
						emit(e, "\"zz\"", "case")
					}
				}
			case *ast.BinaryExpr:
				for _, o := range swap[x.Op] {
					emit(x, txt(x.X)+" "+o+" "+txt(x.Y), "binop "+x.Op.String()+" "+o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x, txt(x.X), "left-only")
					emit(x, txt(x.Y), "right-only")
				}
				if x.Op == token.ADD {
					emit(x, txt(x.X), "concat-left")
					emit(x, txt(x.Y), "concat-right")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x, "("+txt(x.X)+")", "un-not")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low, "("+txt(x.Low)+")+1", "slice-low+1")
					emit(x.Low, "0", "slice-low 0")
				}
				if x.High != nil {
					emit(x.High, "("+txt(x.High)+")-1", "slice-high-1")
				}
			case *ast.IndexExpr:
				if l, ok := x.Index.(*ast.BasicLit); ok && l.Kind == token.INT {
					v, _ := strconv.Atoi(l.Value)
					emit(l, fmt.Sprint(v+1), "index+1")
					if v > 0 {
						emit(l, fmt.Sprint(v-1), "index-1")
					}
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						emit(x, fmt.Sprint(v+1), "int+1")
						if v > 0 {
							emit(x, fmt.Sprint(v-1), "int-1")
						}
					}
				case token.STRING:
					v, err := strconv.Unquote(x.Value)
					if err != nil {
						break
					}
					quote := func(s string) string {
						if strings.HasPrefix(x.Value, "`") && !strings.Contains(s, "`") {
							return "`" + s + "`"
						}
						return strconv.Quote(s)
					}
					if strings.ContainsAny(v, "%") && len(v) > 6 && !strings.Contains(v, `\`) {
						break
					}
					if len(v) > 40 && !strings.Contains(v, `\`) {
						break
					}
					if v == "" {
						emit(x, `"zz"`, "str-nonempty")
						break
					}
					emit(x, `""`, "str-empty")
					if len(v) > 1 {
						emit(x, quote(v[1:]), "str-drop-first")
						emit(x, quote(v[:len(v)-1]), "str-drop-last")
					}
					emit(x, quote(v+"z"), "str-append")
					if strings.HasPrefix(x.Value, "`") { // a regular expression
						for i, r := range v {
							switch r {
							case '+', '*', '?', '^', '$':
								emit(x, quote(v[:i]+v[i+1:]), "re-drop "+string(r))
							}
							if r == '+' {
								emit(x, quote(v[:i]+"*"+v[i+1:]), "re + *")
							}
							if r == '*' {
								emit(x, quote(v[:i]+"+"+v[i+1:]), "re * +")
							}
							if r == 'w' && i > 0 && v[i-1] == '\\' {
								emit(x, quote(v[:i]+"d"+v[i+1:]), "re w d")
								emit(x, quote(v[:i-1]+"[a-z]"+v[i+1:]), "re w a-z")
								emit(x, quote(v[:i]+"S"+v[i+1:]), "re w S")
							}
							if r == '.' && (i == 0 || v[i-1] != '\\') {
								emit(x, quote(v[:i]+`\w`+v[i+1:]), "re . w")
							}
							if r == '-' || r == '_' {
								emit(x, quote(v[:i]+v[i+1:]), "re-drop-char")
							}
						}
					}
				}
			case *ast.CallExpr:
				name := txt(x.Fun)
				for _, o := range calls[name] {
					emit(x.Fun, o, "call "+name+" "+o)
				}
				switch name {
				case "strings.TrimSpace", "strings.ToLower", "filepath.Clean", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.ReplaceAll":
					emit(x, "("+txt(x.Args[0])+")", "call-identity "+name)
				case "append":
					if len(x.Args) == 2 {
						emit(x, txt(x.Args[0]), "append-nothing")
					}
				case "len":
					emit(x, "("+txt(x)+"+1)", "len+1")
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						if id, ok := kv.Key.(*ast.Ident); ok && ast.IsExported(id.Name) {
							end := off(kv.End())
							for end < len(src) && (src[end] == ',' || src[end] == ' ') {
								end++
							}
							_ = enc.Encode(mut{file, off(kv.Pos()), end, "", "drop-field " + id.Name, fs.Position(kv.Pos()).Line, txt(kv)})
						}
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					t := txt(x.Results[0])
					if t == "true" || t == "false" {
						emit(x.Results[0], map[string]string{"true": "false", "false": "true"}[t], "return-bool")
					}
				}
			case *ast.RangeStmt:
				_ = x
			}
			return true
		})
	}
}
