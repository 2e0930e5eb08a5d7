//go:build ignore

// Lists mutants of Go files as JSON lines: {"file","start","end","new","what"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

var fset = token.NewFileSet()
var src []byte
var file string
var enc = json.NewEncoder(os.Stdout)

func emit(a, b token.Pos, text, what string) {
	p, q := fset.Position(a), fset.Position(b)
	old := string(src[p.Offset:q.Offset])
	if old == text {
		return
	}
	enc.Encode(map[string]interface{}{"file": file, "start": p.Offset, "end": q.Offset, "new": text, "what": what, "line": p.Line, "old": old})
}

func text(n ast.Node) string {
	return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.GTR: {">=", "<="}, token.LEQ: {"<"}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
}

func effect(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
		return true
	}
	return false
}

func stmts(l []ast.Stmt) {
	for i, s := range l {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
			emit(s.Pos(), s.End(), "", "remove statement")
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				emit(s.Pos(), s.End(), "", "remove assignment")
			}
		case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt:
			emit(s.Pos(), s.End(), "", "remove block")
		case *ast.BranchStmt:
			emit(s.Pos(), s.End(), "", "remove branch")
		}
		if i+1 < len(l) {
			a, b := l[i], l[i+1]
			if effect(a) || effect(b) {
				emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap statements")
			}
		}
	}
}

func main() {
	for _, f := range os.Args[1:] {
		file = f
		var err error
		src, err = os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		t, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		ast.Inspect(t, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, s := range swaps[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "operator")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "drop operand")
					emit(n.Pos(), n.End(), text(n.Y), "drop operand")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X), "drop not")
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.List) > 1 {
					for i := range n.List {
						var l []string
						for j, e := range n.List {
							if j != i {
								l = append(l, text(e))
							}
						}
						emit(n.List[0].Pos(), n.List[len(n.List)-1].End(), strings.Join(l, ", "), "drop case")
					}
				}
				emit(n.Pos(), n.End(), "", "remove case")
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never")
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always")
				if n.Else != nil {
					emit(n.Body.End(), n.Else.End(), "", "drop else")
				}
			case *ast.BranchStmt:
				if n.Label == nil {
					switch n.Tok {
					case token.BREAK:
						emit(n.Pos(), n.End(), "continue", "branch")
					case token.CONTINUE:
						emit(n.Pos(), n.End(), "break", "branch")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name != "nil" {
						emit(r.Pos(), r.End(), "nil", "return nil")
					}
					if c, ok := r.(*ast.CallExpr); ok {
						emit(c.Pos(), c.End(), "nil", "return nil")
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) > 1 {
					emit(n.Pos(), n.End(), text(n.Args[0]), "drop append")
				}
				for i := 0; i+1 < len(n.Args); i++ {
					emit(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "swap arguments")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "", "slice")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), "", "slice")
				}
			case *ast.CompositeLit:
				for i, e := range n.Elts {
					end := e.End()
					if i+1 < len(n.Elts) {
						end = n.Elts[i+1].Pos()
					} else if i > 0 {
						emit(n.Elts[i-1].End(), end, "", "drop element")
						continue
					}
					emit(e.Pos(), end, "", "drop element")
				}
			case *ast.Field:
				if n.Tag != nil {
					emit(n.Tag.Pos(), n.Tag.End(), "", "drop tag")
					emit(n.Tag.Pos(), n.Tag.End(), strings.Replace(n.Tag.Value, ",optional", "", 1), "tag")
				}
				return true
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "number")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), "number")
						}
					}
				case token.STRING:
					if strings.HasPrefix(n.Value, "`") && strings.Contains(n.Value, "\n") {
						lines := strings.Split(n.Value, "\n")
						for i, l := range lines {
							if strings.TrimSpace(l) == "" || strings.Contains(l, "`") {
								continue
							}
							k := append(append([]string{}, lines[:i]...), lines[i+1:]...)
							emit(n.Pos(), n.End(), strings.Join(k, "\n"), fmt.Sprintf("line %q", strings.TrimSpace(l)))
						}
						return true
					}
					s, err := strconv.Unquote(n.Value)
					if err == nil && s != "" {
						emit(n.Pos(), n.End(), `""`, "string")
						if len(s) > 1 {
							emit(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), "string")
						}
					}
				}
			}
			return true
		})
	}
}
