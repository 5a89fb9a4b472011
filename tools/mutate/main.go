// mutate lists small syntactic mutants of a Go file, one per line:
//   line<TAB>start<TAB>end<TAB>kind<TAB>base64(replacement)
package main

import (
	"encoding/base64"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

var (
	fs  = token.NewFileSet()
	src []byte
)

func emit(n ast.Node, from, to token.Pos, kind, repl string) {
	fmt.Printf("%d\t%d\t%d\t%s\t%s\n", fs.Position(n.Pos()).Line, fs.Position(from).Offset, fs.Position(to).Offset, kind, base64.StdEncoding.EncodeToString([]byte(repl)))
}

func text(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }

func isLog(n ast.Node) bool {
	t := text(n)
	return strings.Contains(t, "log.") && (strings.Contains(t, "f(\"") || strings.Contains(t, "log.Default"))
}

func stmts(list []ast.Stmt) {
	for i, s := range list {
		if isLog(s) {
			if _, ok := s.(*ast.ExprStmt); ok {
				continue
			}
		}
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
			emit(s, s.Pos(), s.End(), "del", "")
		case *ast.GoStmt:
			emit(s, s.Pos(), s.End(), "del", "")
			emit(s, x.Pos(), x.Call.Pos(), "nogo", "")
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN {
				emit(s, s.Pos(), s.End(), "del", "")
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 0 && i == len(list)-1 {
				emit(s, s.Pos(), s.End(), "del", "")
			}
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE || x.Tok == token.BREAK {
				emit(s, s.Pos(), s.End(), "del", "")
			}
		case *ast.IfStmt:
			if x.Init == nil && x.Else == nil && !isLogOnly(x.Body) {
				emit(s, s.Pos(), s.End(), "delif", "")
			}
		case *ast.ForStmt:
		}
		if i+1 < len(list) {
			// swap two simple neighbours
			_, a := s.(*ast.ExprStmt)
			_, b := list[i+1].(*ast.ExprStmt)
			as, a2 := s.(*ast.AssignStmt)
			bs, b2 := list[i+1].(*ast.AssignStmt)
			if a2 && as.Tok != token.ASSIGN {
				a2 = false
			}
			if b2 && bs.Tok != token.ASSIGN {
				b2 = false
			}
			if (a || a2) && (b || b2) && !isLog(s) && !isLog(list[i+1]) {
				emit(s, s.Pos(), list[i+1].End(), "swap", text(list[i+1])+"\n"+text(s))
			}
		}
	}
}

func isLogOnly(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		if _, ok := s.(*ast.ExprStmt); !ok || !isLog(s) {
			return false
		}
	}
	return true
}

func main() {
	var err error
	src, err = os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if x.List != nil {
				emit(x, x.Pos(), x.End(), "delcase", "")
			}
			if len(x.List) > 1 {
				emit(x, x.List[0].Pos(), x.List[1].Pos(), "caseless", "")
			}
		case *ast.CommClause:
			stmts(x.Body)
			if x.Comm != nil {
				emit(x, x.Pos(), x.End(), "delcomm", "")
			}
		case *ast.IfStmt:
			if !isLogOnly(x.Body) {
				emit(x, x.Cond.Pos(), x.Cond.End(), "neg", "!("+text(x.Cond)+")")
			}
		case *ast.BinaryExpr:
			alt := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+", token.MUL: "/", token.SHL: ">>", token.SHR: "<<", token.AND: "|", token.OR: "&"}
			if r, ok := alt[x.Op]; ok {
				emit(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), "op", r)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x, x.Pos(), x.End(), "left", text(x.X))
				emit(x, x.Pos(), x.End(), "right", text(x.Y))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit(x, x.Pos(), x.End(), "const", fmt.Sprint(v+1))
					if v > 1 {
						emit(x, x.Pos(), x.End(), "const", fmt.Sprint(v/2))
						emit(x, x.Pos(), x.End(), "const", fmt.Sprint(v*10))
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				emit(x, x.Pos(), x.End(), "bool", map[string]string{"true": "false", "false": "true"}[x.Name])
			}
		case *ast.FuncDecl:
			if x.Body == nil {
				return true
			}
			// lock pairs
			var locks []*ast.CallExpr
			var st []ast.Stmt
			ast.Inspect(x.Body, func(m ast.Node) bool {
				var c ast.Expr
				switch y := m.(type) {
				case *ast.ExprStmt:
					c = y.X
				case *ast.DeferStmt:
					c = y.Call
				}
				if c != nil {
					if call, ok := c.(*ast.CallExpr); ok {
						if se, ok := call.Fun.(*ast.SelectorExpr); ok {
							switch se.Sel.Name {
							case "Lock", "Unlock", "RLock", "RUnlock":
								locks = append(locks, call)
								st = append(st, m.(ast.Stmt))
							}
						}
					}
				}
				return true
			})
			if len(locks) >= 2 {
				a, b := x.Body.Pos(), x.Body.End()
				t := string(src)
				base := fs.Position(a).Offset
				body := []byte(t[base:fs.Position(b).Offset])
				for _, s := range st {
					for i := fs.Position(s.Pos()).Offset; i < fs.Position(s.End()).Offset; i++ {
						body[i-base] = ' '
					}
				}
				emit(st[0], a, b, "nolock", string(body))
			}
		}
		return true
	})
}
