// Command list prints simple source mutations of the given Go files as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"|"}, token.REM: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, repl, kind string) {
			enc.Encode(mut{path, off(from), off(to), repl, fs.Position(from).Line, kind})
		}
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok {
				// constants and variables
				ast.Inspect(d, func(n ast.Node) bool {
					if l, ok := n.(*ast.BasicLit); ok {
						lit(l, emit)
					}
					return true
				})
				continue
			}
			if fn.Body == nil {
				continue
			}
			// names used in the function, for replacement
			names := map[string]bool{}
			ast.Inspect(fn, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && id.Name != "_" && id.Obj != nil && id.Obj.Kind == ast.Var {
					names[id.Name] = true
				}
				return true
			})
			fields := map[string]bool{}
			ast.Inspect(fn, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok {
					fields[s.Sel.Name] = true
				}
				return true
			})
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op "+x.Op.String()+" -> "+s)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), "("+text(x.X)+")", "keep left of "+x.Op.String())
						emit(x.Pos(), x.End(), "("+text(x.Y)+")", "keep right of "+x.Op.String())
					}
					if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL || x.Op == token.QUO {
						emit(x.Pos(), x.End(), "("+text(x.X)+")", "keep left of "+x.Op.String())
						if x.Op == token.MUL {
							emit(x.Pos(), x.End(), "("+text(x.Y)+")", "keep right of *")
						}
					}
				case *ast.BasicLit:
					lit(x, emit)
				case *ast.UnaryExpr:
					if x.Op == token.NOT || x.Op == token.SUB {
						emit(x.Pos(), x.End(), "("+text(x.X)+")", "drop "+x.Op.String())
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
				case *ast.ExprStmt:
					if _, ok := x.X.(*ast.CallExpr); ok {
						emit(x.Pos(), x.End(), "", "drop call")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						var b []string
						for range x.Lhs {
							b = append(b, "_")
						}
						var r []string
						for _, e := range x.Rhs {
							r = append(r, text(e))
						}
						emit(x.Pos(), x.End(), strings.Join(b, ", ")+" = "+strings.Join(r, ", "), "drop assignment")
						if x.Tok != token.ASSIGN {
							emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "=", "plain assignment")
							m := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
							if s := m[x.Tok]; s != "" {
								emit(x.TokPos, x.TokPos+2, s, x.Tok.String()+" -> "+s)
							}
						}
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "drop inc")
				case *ast.BranchStmt:
					if x.Label == nil {
						if x.Tok == token.CONTINUE {
							emit(x.Pos(), x.End(), "break", "continue -> break")
						}
						emit(x.Pos(), x.End(), "", "drop "+x.Tok.String())
					}
				case *ast.CaseClause:
					for i, e := range x.List {
						if len(x.List) > 1 {
							to := e.End()
							from := e.Pos()
							if i > 0 {
								from = x.List[i-1].End()
							} else {
								to = x.List[1].Pos()
							}
							emit(from, to, "", "drop case")
						}
					}
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						for a, b := range map[string]string{"Min": "Max", "Max": "Min", "MinI": "MaxI", "MaxI": "MinI", "MinF": "MaxF", "MaxF": "MinF", "Floor": "Ceil", "Ceil": "Floor", "Sin": "Cos", "Cos": "Sin",
							"GetStartTime": "GetEndTime", "GetEndTime": "GetStartTime", "HasPrefix": "Contains", "TrimSpace": "ToLower", "Sub": "Add", "Add": "Sub", "Round": "Floor", "Trunc": "Round"} {
							if s.Sel.Name == a {
								emit(s.Sel.Pos(), s.Sel.End(), b, a+" -> "+b)
							}
						}
						if s.Sel.Name == "Abs" && len(x.Args) == 1 {
							emit(x.Pos(), x.End(), "("+text(x.Args[0])+")", "drop Abs")
						}
						if (strings.HasPrefix(s.Sel.Name, "Min") || strings.HasPrefix(s.Sel.Name, "Max")) && len(x.Args) == 2 {
							emit(x.Pos(), x.End(), "("+text(x.Args[0])+")", "drop "+s.Sel.Name+", first")
							emit(x.Pos(), x.End(), "("+text(x.Args[1])+")", "drop "+s.Sel.Name+", second")
						}
						if strings.HasPrefix(s.Sel.Name, "Clamp") && len(x.Args) == 3 {
							emit(x.Pos(), x.End(), "("+text(x.Args[0])+")", "drop clamp")
						}
					}
					if len(x.Args) == 2 {
						emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swap arguments")
					}
				case *ast.SelectorExpr:
					// another field used in this function
					if id, ok := x.X.(*ast.Ident); ok && id.Obj != nil {
						for v := range fields {
							if v != x.Sel.Name {
								emit(x.Sel.Pos(), x.Sel.End(), v, "field "+x.Sel.Name+" -> "+v)
							}
						}
					}
				case *ast.Ident:
					if x.Obj != nil && x.Obj.Kind == ast.Var && names[x.Name] {
						for v := range names {
							if v != x.Name {
								emit(x.Pos(), x.End(), v, "name "+x.Name+" -> "+v)
							}
						}
					}
				}
				return true
			})
		}
	}
}

func lit(l *ast.BasicLit, emit func(a, b token.Pos, s, k string)) {
	switch l.Kind {
	case token.INT:
		if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
			emit(l.Pos(), l.End(), fmt.Sprint(v+1), "literal "+l.Value+"+1")
			if v > 0 {
				emit(l.Pos(), l.End(), fmt.Sprint(v-1), "literal "+l.Value+"-1")
			}
		}
	case token.FLOAT:
		if v, err := strconv.ParseFloat(l.Value, 64); err == nil {
			emit(l.Pos(), l.End(), fmt.Sprintf("%v", v*1.01+0.0001)+suffix(v*1.01+0.0001), "literal "+l.Value+" *1.01")
		}
	case token.STRING:
		if len(l.Value) > 3 {
			emit(l.Pos(), l.End(), l.Value[:2]+l.Value[3:], "literal "+l.Value+" shorter")
		}
	}
}

func suffix(v float64) string {
	if v == float64(int64(v)) {
		return ".0"
	}
	return ""
}
