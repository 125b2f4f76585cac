// Writes all small changes (mutants) of the given Go files as JSON lines:
// {"file","line","what","from","to","text"}, where text replaces the bytes from..to.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"strconv"
	"strings"
)

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := ioutil.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(n ast.Node, from, to token.Pos, text, what string) {
			enc.Encode(map[string]interface{}{"file": name, "line": fset.Position(n.Pos()).Line, "what": what, "from": off(from), "to": off(to), "text": text})
		}
		logs := func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			return ok && (strings.HasPrefix(txt(c), "zap.") || strings.HasPrefix(txt(c), "errors.New") || strings.HasPrefix(txt(c), "fmt.Errorf"))
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec, *ast.StructType:
				return false
			case *ast.CallExpr:
				if logs(x) {
					return false
				}
			case *ast.IfStmt:
				c := txt(x.Cond)
				for _, t := range []string{"!(" + c + ")", "(" + c + ") && false", "(" + c + ") || true"} {
					put(x, x.Cond.Pos(), x.Cond.End(), t, "if "+t)
				}
			case *ast.BinaryExpr:
				swap := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}}
				for _, t := range swap[x.Op] {
					put(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, txt(x)+" with "+t)
				}
				if x.Op == token.LAND || x.Op == token.LOR || x.Op == token.ADD {
					put(x, x.Pos(), x.End(), txt(x.X), txt(x)+" -> left")
					put(x, x.Pos(), x.End(), txt(x.Y), txt(x)+" -> right")
				}
			case *ast.ExprStmt:
				if !logs(x.X) {
					put(x, x.Pos(), x.End(), "_ = 0", "drop "+txt(x))
				}
			case *ast.DeferStmt:
				put(x, x.Pos(), x.End(), "_ = 0", "drop "+txt(x))
			case *ast.GoStmt:
				put(x, x.Pos(), x.Call.Pos(), "", "not go "+txt(x.Call.Fun))
				put(x, x.Pos(), x.End(), "_ = 0", "drop go")
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN {
					put(x, x.Pos(), x.End(), "_ = 0", "drop "+txt(x))
				}
			case *ast.IncDecStmt:
				put(x, x.Pos(), x.End(), "_ = 0", "drop "+txt(x))
			case *ast.BranchStmt:
				put(x, x.Pos(), x.End(), "_ = 0", "drop "+txt(x))
			case *ast.CaseClause:
				if x.List != nil {
					for _, e := range x.List {
						if l, ok := e.(*ast.BasicLit); ok && l.Kind == token.STRING {
							put(e, e.Pos(), e.End(), strconv.Quote("none of these"), "no case "+txt(e))
						}
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.STRING && len(x.Value) > 1 {
					v, err := strconv.Unquote(x.Value)
					if err == nil {
						put(x, x.Pos(), x.End(), strconv.Quote(v+"x"), fmt.Sprintf("%q + x", v))
					}
				}
				if x.Kind == token.INT {
					put(x, x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+"+1")
					put(x, x.Pos(), x.End(), "("+x.Value+"-1)", x.Value+"-1")
					put(x, x.Pos(), x.End(), "("+x.Value+"*50)", x.Value+"*50")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					put(x, x.Pos(), x.X.Pos(), "", "drop ! of "+txt(x))
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					t := map[string]string{"true": "false", "false": "true"}[x.Name]
					put(x, x.Pos(), x.End(), t, t)
				}
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					if t := txt(r); t != "nil" && len(x.Results) > 0 {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							continue
						}
						put(r, r.Pos(), r.End(), "nil", fmt.Sprintf("return nil for %s (%d)", t, i))
						if strings.HasPrefix(t, "err") {
							continue
						}
					}
				}
			case *ast.KeyValueExpr:
				if _, ok := x.Key.(*ast.Ident); ok {
					v := txt(x.Value)
					if !strings.Contains(v, "\n") {
						put(x, x.Pos(), x.End()+0, "", "without "+txt(x))
					}
				}
			}
			return true
		})
	}
}
