// mutate lists small changes of the files given, one JSON object per line: for judging the checks, no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Kind, New, Func string
	From, To, Line        int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, e := os.ReadFile(name)
		if e != nil {
			panic(e)
		}
		fs := token.NewFileSet()
		f, e := parser.ParseFile(fs, name, src, 0)
		if e != nil {
			panic(e)
		}
		fn := ""
		out := func(kind string, from, to token.Pos, repl string) {
			a, b := fs.Position(from).Offset, fs.Position(to).Offset
			enc.Encode(mut{name, kind, repl, fn, a, b, fs.Position(from).Line})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			stmts := func(l []ast.Stmt) {
				for i, s := range l {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IncDecStmt, *ast.SendStmt:
						out("drop", s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							out("drop", s.Pos(), s.End(), "")
						}
					case *ast.ReturnStmt:
						if i > 0 || len(l) == 1 {
							if len(x.Results) == 0 {
								out("drop", s.Pos(), s.End(), "")
							}
						}
					case *ast.BranchStmt:
						if x.Tok == token.BREAK {
							out("swap", s.Pos(), s.End(), "continue")
						} else if x.Tok == token.CONTINUE {
							out("swap", s.Pos(), s.End(), "break")
						}
						out("drop", s.Pos(), s.End(), "")
					case *ast.IfStmt:
						out("true", x.Cond.Pos(), x.Cond.End(), "true || "+paren(text(x.Cond)))
						out("false", x.Cond.Pos(), x.Cond.End(), "false && "+paren(text(x.Cond)))
					}
					if i > 0 { // exchange neighbours
						a, b := l[i-1], s
						switch a.(type) {
						case *ast.ExprStmt, *ast.AssignStmt:
							switch b.(type) {
							case *ast.ExprStmt, *ast.AssignStmt:
								out("exchange", a.Pos(), b.End(), text(b)+"\n"+text(a))
							}
						}
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.CommClause:
					stmts(x.Body)
				case *ast.BinaryExpr:
					for _, r := range swap[x.Op] {
						out("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, _ := strconv.Atoi(x.Value)
						out("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							out("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						out("not", x.Pos(), x.Pos()+1, "")
					}
				case *ast.CallExpr:
					// exchange two neighbouring arguments
					for i := 1; i < len(x.Args); i++ {
						if text(x.Args[i]) != text(x.Args[i-1]) {
							out("args", x.Args[i-1].Pos(), x.Args[i].End(), text(x.Args[i])+", "+text(x.Args[i-1]))
						}
					}
				case *ast.Ident:
					m := map[string]string{"access": "refresh", "refresh": "access", "newAccess": "access", "newRefresh": "refresh", "true": "false", "false": "true", "Lock": "RLock", "Unlock": "RUnlock", "RLock": "Lock", "IsDeleted": "IsExpired", "IsExpired": "IsDeleted", "PushBack": "PushFront", "Front": "Back", "First": "Last", "Next": "Prev", "TxPipeline": "Pipeline", "TxPipelined": "Pipelined"}
					if r, ok := m[x.Name]; ok && x.Pos() > fd.Body.Pos() {
						out("ident", x.Pos(), x.End(), r)
					}
				}
				return true
			})
		}
	}
}

func paren(s string) string { return "(" + s + ")" }
