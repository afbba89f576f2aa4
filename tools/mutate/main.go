// mutate lists small changes of Go source files, one JSON object each: file, from, to, text, what.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	What string `json:"what"`
	Line int    `json:"line"`
}

var ops = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+="}, token.OR_ASSIGN: {"=", "&="}, token.INC: {"--"}, token.DEC: {"++"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(a, b token.Pos, text, what string) {
			enc.Encode(edit{f, off(a), off(b), text, what, fs.Position(a).Line})
		}
		isLog := func(n ast.Node) bool {
			s := string(src[off(n.Pos()):off(n.End())])
			return len(s) > 4 && (s[:4] == "log." || len(s) > 9 && s[:9] == "fmt.Print")
		}
		stmt := func(s ast.Stmt) {
			switch x := s.(type) {
			case *ast.ExprStmt:
				if !isLog(x) {
					put(x.Pos(), x.End(), "", "delete statement")
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					t := ""
					for _, l := range x.Lhs {
						if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
							t = "delete"
						}
					}
					if t != "" {
						put(x.Pos(), x.End(), "", "delete assignment")
					}
				}
			case *ast.IncDecStmt, *ast.BranchStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				put(s.Pos(), s.End(), "", "delete statement")
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.CallExpr:
				if isLog(x) {
					return false
				}
			case *ast.BinaryExpr:
				for _, r := range ops[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, fmt.Sprintf("%s -> %s", x.Op, r))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put(x.Pos(), x.End(), "("+string(src[off(x.X.Pos()):off(x.X.End())])+")", "right operand dropped")
					put(x.Pos(), x.End(), "("+string(src[off(x.Y.Pos()):off(x.Y.End())])+")", "left operand dropped")
				}
			case *ast.AssignStmt:
				for _, r := range ops[x.Tok] {
					put(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), r, fmt.Sprintf("%s -> %s", x.Tok, r))
				}
			case *ast.IncDecStmt:
				for _, r := range ops[x.Tok] {
					put(x.TokPos, x.TokPos+2, r, fmt.Sprintf("%s -> %s", x.Tok, r))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						put(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), x.Value+" + 1")
						if v > 0 {
							put(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), x.Value+" - 1")
						}
					}
				case token.FLOAT:
					put(x.Pos(), x.End(), "("+x.Value+"*1.01)", x.Value+" * 1.01")
				case token.STRING:
					switch x.Value {
					case `"0"`:
						put(x.Pos(), x.End(), `"1"`, `"0" -> "1"`)
					case `"1"`:
						put(x.Pos(), x.End(), `"0"`, `"1" -> "0"`)
					default:
						if len(x.Value) < 14 {
							put(x.Pos(), x.End(), x.Value[:1]+"x"+x.Value[1:], "text "+x.Value)
						}
					}
				}
			case *ast.IfStmt:
				c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
				put(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negated condition")
				put(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "condition true")
				put(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "condition false")
			case *ast.ForStmt:
				if x.Cond != nil {
					c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
					put(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "loop skipped")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						put(r.Pos(), r.End(), "nil", "return nil for err")
					} else if c, ok := r.(*ast.CallExpr); ok {
						s := string(src[off(c.Fun.Pos()):off(c.Fun.End())])
						if s == "fmt.Errorf" || s == "errors.New" {
							put(r.Pos(), r.End(), "nil", "return nil for an error")
						}
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(s)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmt(s)
				}
			}
			return true
		})
	}
}
