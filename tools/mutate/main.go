// mutate lists small changes (mutants) of Go files as text edits, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string
	Line       int
	Kind, Old  string
	Start, End int
	New        string
	More       []edit // further edits, later in the file
}
type edit struct {
	Start, End int
	New        string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(kind string, from, to token.Pos, nw string, more ...edit) {
			old := string(src[off(from):off(to)])
			if len(old) > 120 {
				old = old[:120]
			}
			enc.Encode(mutant{f, fs.Position(from).Line, kind, old, off(from), off(to), nw, more})
		}
		locks := func(body *ast.BlockStmt) {
			// drop locking: every statement X.Lock/Unlock/RLock/RUnlock (deferred or not) of the body
			var es []edit
			var first ast.Node
			ast.Inspect(body, func(n ast.Node) bool {
				var c *ast.CallExpr
				switch n := n.(type) {
				case *ast.ExprStmt:
					c, _ = n.X.(*ast.CallExpr)
				case *ast.DeferStmt:
					c = n.Call
				}
				if c == nil {
					return true
				}
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && len(c.Args) == 0 {
					switch s.Sel.Name {
					case "Lock", "Unlock", "RLock", "RUnlock":
						es = append(es, edit{off(n.Pos()), off(n.End()), ""})
						if first == nil {
							first = n
						}
					}
				}
				return true
			})
			if first != nil && len(es) > 1 {
				emit("unlocked", first.Pos(), first.End(), "", es[1:]...)
			}
		}
		var stmts func(list []ast.Stmt)
		stmts = func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt:
					emit("delete", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						var keep []string
						for _, r := range s.Rhs {
							keep = append(keep, "_ = "+text(r))
						}
						nw := ""
						if len(s.Rhs) == len(s.Lhs) {
							nw = strings.Join(keep, "; ")
						}
						emit("delete", s.Pos(), s.End(), nw)
					}
				case *ast.IncDecStmt:
					emit("delete", s.Pos(), s.End(), "")
				case *ast.DeferStmt:
					emit("delete", s.Pos(), s.End(), "")
				case *ast.GoStmt:
					emit("synchronous", s.Pos(), s.Call.Pos(), "")
				case *ast.BranchStmt:
					if s.Label == nil {
						switch s.Tok {
						case token.BREAK:
							emit("branch", s.Pos(), s.End(), "")
						case token.CONTINUE:
							emit("branch", s.Pos(), s.End(), "break")
							emit("branch", s.Pos(), s.End(), "")
						}
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 0 {
						emit("branch", s.Pos(), s.End(), "")
					}
				}
			}
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.FuncDecl:
				if n.Name.Name == "String" && n.Recv != nil && f == "metric/metricdata/type_string.go" {
					return false
				}
				if n.Body != nil {
					locks(n.Body)
				}
			case *ast.Field:
				if n.Tag != nil {
					return false
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.Body) > 0 && n.List != nil {
					emit("case removed", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.IfStmt:
				emit("negate", n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
				emit("never", n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false")
				if n.Else != nil {
					if b, ok := n.Else.(*ast.BlockStmt); ok {
						emit("no else", b.Pos(), b.End(), "{}")
					}
				}
			case *ast.BinaryExpr:
				op := func(o string) { emit("operator", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o) }
				switch n.Op {
				case token.LSS:
					op("<=")
				case token.LEQ:
					op("<")
				case token.GTR:
					op(">=")
				case token.GEQ:
					op(">")
				case token.EQL:
					op("!=")
				case token.NEQ:
					op("==")
				case token.ADD:
					op("-")
				case token.SUB:
					op("+")
				case token.MUL:
					op("/")
				case token.QUO:
					op("*")
				case token.AND:
					op("|")
				case token.OR:
					op("&")
				case token.SHL:
					op(">>")
				case token.SHR:
					op("<<")
				case token.LAND, token.LOR:
					emit("left only", n.X.End(), n.Y.End(), "")
					emit("right only", n.X.Pos(), n.Y.Pos(), "")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 63); err == nil {
						emit("constant", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("constant", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				case token.FLOAT:
					emit("constant", n.Pos(), n.End(), "("+n.Value+"*1.5)")
				case token.STRING:
					if v, err := strconv.Unquote(n.Value); err == nil && n.Value[0] == '"' {
						if v != "" {
							emit("string", n.Pos(), n.End(), strconv.Quote(v+"x"))
						} else {
							emit("string", n.Pos(), n.End(), `"x"`)
						}
					}
				case token.CHAR:
					emit("constant", n.Pos(), n.End(), "("+n.Value+"+1)")
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					emit("constant", n.Pos(), n.End(), "false")
				case "false":
					emit("constant", n.Pos(), n.End(), "true")
				}
			case *ast.CompositeLit:
				for i, e := range n.Elts {
					to := e.End()
					if i+1 < len(n.Elts) {
						to = n.Elts[i+1].Pos()
					}
					nw := ""
					if i+1 == len(n.Elts) && src[off(to)] == ',' {
						to++
					}
					emit("element dropped", e.Pos(), to, nw)
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					x, y := n.Args[i], n.Args[i+1]
					emit("arguments swapped", x.Pos(), x.End(), text(y), edit{off(y.Pos()), off(y.End()), text(x)})
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 && n.Ellipsis != 0 {
					if c, ok := n.Args[0].(*ast.CallExpr); ok && len(c.Args) == 1 {
						emit("copy shared", n.Pos(), n.End(), text(n.Args[1]))
					}
				}
				for i, x := range n.Args {
					if c, ok := x.(*ast.CallExpr); ok && i == len(n.Args)-1 && n.Ellipsis == 0 && len(n.Args) > 1 {
						_ = c
						emit("argument dropped", n.Args[i-1].End(), x.End(), "")
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("negate", n.OpPos, n.OpPos+1, "")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit("slice bound", n.Low.Pos(), n.Low.End(), text(n.Low)+"+1")
				}
				if n.High != nil {
					emit("slice bound", n.High.Pos(), n.High.End(), text(n.High)+"-1")
				}
			}
			return true
		})
	}
}
