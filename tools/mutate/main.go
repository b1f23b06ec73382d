// Lists mutations of Go files as JSON lines: file, from, to, text, what.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	What string `json:"what"`
	Line int    `json:"line"`
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		enc := json.NewEncoder(os.Stdout)
		out := func(n ast.Node, text, what string) {
			_ = enc.Encode(mut{f, off(n.Pos()), off(n.End()), text, what, fset.Position(n.Pos()).Line})
		}
		cond := func(e ast.Expr) {
			if e == nil {
				return
			}
			out(e, "!("+txt(e)+")", "negate")
			out(e, "("+txt(e)+") || true", "true")
			out(e, "("+txt(e)+") && false", "false")
		}
		swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
		calls := map[string]string{"strings.HasPrefix": "strings.Contains", "strings.HasSuffix": "strings.Contains", "strings.Contains": "strings.HasPrefix", "strings.TrimPrefix": "strings.TrimLeft", "strings.TrimSuffix": "strings.TrimRight", "strings.TrimSpace": "strings.ToLower", "strings.LastIndex": "strings.Index", "strings.Index": "strings.LastIndex", "strings.TrimLeft": "strings.TrimPrefix", "strings.Fields": "strings.Fields", "path.Base": "path.Dir", "filepath.Clean": "filepath.ToSlash", "filepath.Join": "path.Join", "strings.ToLower": "strings.TrimSpace", "strings.Split": "strings.SplitAfter"}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.IfStmt:
				cond(x.Cond)
				if x.Else != nil {
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						out(b, "{}", "empty else")
					}
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					out(x.Cond, "("+txt(x.Cond)+") && false", "no loop")
				}
			case *ast.BinaryExpr:
				if s, ok := swap[x.Op]; ok {
					_ = enc.Encode(mut{f, off(x.OpPos), off(x.OpPos) + len(x.Op.String()), s, "op " + x.Op.String() + "->" + s, fset.Position(x.OpPos).Line})
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					out(x, txt(x.X), "left only")
					out(x, txt(x.Y), "right only")
				}
				if x.Op == token.ADD {
					out(x, txt(x.X), "left only")
					out(x, txt(x.Y), "right only")
				}
			case *ast.CallExpr:
				if s, ok := calls[txt(x.Fun)]; ok {
					out(x.Fun, s, "call "+txt(x.Fun)+"->"+s)
					if len(x.Args) > 0 && strings.HasPrefix(txt(x.Fun), "strings.Tr") {
						out(x, txt(x.Args[0]), "no "+txt(x.Fun))
					}
				}
				if txt(x.Fun) == "append" && len(x.Args) > 1 {
					out(x, txt(x.Args[0]), "no append")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					out(x, txt(x.X), "drop !")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						out(x, strconv.Itoa(v+1), "int+1")
						if v > 0 {
							out(x, strconv.Itoa(v-1), "int-1")
						}
					}
				case token.STRING:
					s, err := strconv.Unquote(x.Value)
					if err == nil && !strings.Contains(s, " ") && s != "" && len(s) < 30 {
						out(x, strconv.Quote(s+"x"), "string+x")
						out(x, `""`, "string empty")
					} else if err == nil && s == " " {
						out(x, `"  "`, "two spaces")
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(s, out)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmt(s, out)
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					switch txt(r) {
					case "true":
						out(r, "false", "return false")
					case "false":
						out(r, "true", "return true")
					case "err":
						out(r, "nil", "return nil for err")
					}
					if c, ok := r.(*ast.CallExpr); ok && txt(c.Fun) == "fmt.Errorf" {
						out(r, "nil", "return nil for error")
					}
				}
			}
			return true
		})
	}
}

func stmt(s ast.Stmt, out func(ast.Node, string, string)) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
		out(s, "", fmt.Sprintf("delete %T", s))
	case *ast.BranchStmt:
		out(s, "", "delete "+x.Tok.String())
		if x.Tok == token.CONTINUE && x.Label == nil {
			out(s, "break", "continue->break")
		}
		if x.Tok == token.BREAK && x.Label == nil {
			out(s, "continue", "break->continue")
		}
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			out(s, "", "delete assignment")
		}
	case *ast.IfStmt:
		out(s, "", "delete if")
	}
}
