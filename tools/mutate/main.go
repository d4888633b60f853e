// mutate lists small changes of Go files, one JSON object per line:
// go run . FILE...   (used by tools/mutants.py)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Kind  string `json:"kind"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Repl  string `json:"repl"`
	Old   string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(kind string, a, b token.Pos, repl string) {
			enc.Encode(mutant{name, fset.Position(a).Line, kind, off(a), off(b), repl, string(src[off(a):off(b)])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		skip := map[ast.Node]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil || skip[n] {
				return false
			}
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if n.Tag != nil {
					skip[n.Tag] = true
				}
			case *ast.IfStmt:
				c := text(n.Cond)
				emit("negate", n.Cond.Pos(), n.Cond.End(), "!("+c+")")
				emit("true", n.Cond.Pos(), n.Cond.End(), "("+c+" || true)")
				emit("false", n.Cond.Pos(), n.Cond.End(), "("+c+" && false)")
			case *ast.BinaryExpr:
				m := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+"}
				if r, ok := m[n.Op]; ok && !(n.Op == token.ADD && (strings.Contains(text(n), `"`))) {
					emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r)
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("not", n.OpPos, n.OpPos+1, "")
				}
			case *ast.BlockStmt:
				del(n.List, emit)
			case *ast.CaseClause:
				del(n.Body, emit)
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit("noerr", id.Pos(), id.End(), "nil")
					}
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.STRING:
					if len(n.Value) > 2 {
						q := n.Value[len(n.Value)-1:]
						emit("string", n.Pos(), n.End(), n.Value[:len(n.Value)-1]+"Q"+q)
						emit("empty", n.Pos(), n.End(), `""`)
					}
				case token.INT:
					emit("int", n.Pos(), n.End(), "("+n.Value+"+1)")
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit("bool", n.Pos(), n.End(), "false")
				}
				if n.Name == "false" {
					emit("bool", n.Pos(), n.End(), "true")
				}
			case *ast.CompositeLit:
				for _, e := range n.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						// keep the value used, drop it from the literal
						if _, ok := kv.Key.(*ast.Ident); ok {
							end := kv.End()
							if src[off(end)] == ',' {
								end++
							}
							emit("dropfield", kv.Pos(), end, "")
						}
					}
				}
			}
			return true
		})
	}
	_ = fmt.Sprint
}

func del(list []ast.Stmt, emit func(string, token.Pos, token.Pos, string)) {
	for _, s := range list {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
			emit("delete", s.Pos(), s.End(), "")
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				emit("delete", s.Pos(), s.End(), "")
			}
		case *ast.BranchStmt:
			if s.Tok != token.FALLTHROUGH {
				emit("delete", s.Pos(), s.End(), "")
			}
		}
	}
}
