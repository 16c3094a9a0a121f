// mutgen lists small changes of a Go file as JSON lines {start, end, text, what}.
// Used to measure the checks, not by them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	enc := json.NewEncoder(os.Stdout)
	fn := ""
	out := func(a, b token.Pos, text, kind string) {
		s, e := off(a), off(b)
		_ = enc.Encode(map[string]any{"start": s, "end": e, "text": text, "what": fmt.Sprintf("%s:%d %s: %s -> %s", fn, fs.Position(a).Line, kind, trim(string(src[s:e])), trim(text))})
	}
	swap := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.FuncDecl); ok {
			fn = g.Name.Name
		} else {
			fn = "decl"
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						out(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "const")
						if v > 1 {
							out(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "const")
						}
					}
				case token.FLOAT:
					if v, err := strconv.ParseFloat(x.Value, 64); err == nil {
						out(x.Pos(), x.End(), strconv.FormatFloat(v*1.1+0.01, 'g', 6, 64), "const")
						out(x.Pos(), x.End(), strconv.FormatFloat(v*0.9, 'g', 6, 64), "const")
					}
				}
			case *ast.IfStmt:
				out(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "negate")
				out(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "never")
				out(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "always")
			case *ast.ExprStmt:
				out(x.Pos(), x.End(), "", "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					l := string(src[off(x.Lhs[0].Pos()):off(x.Lhs[0].End())])
					if len(x.Lhs) == 1 {
						out(x.Pos(), x.End(), "_ = "+string(src[off(x.Rhs[0].Pos()):off(x.Rhs[0].End())]), "delete")
					}
					switch x.Tok {
					case token.ADD_ASSIGN:
						out(x.TokPos, x.TokPos+2, "-=", "assign")
					case token.SUB_ASSIGN:
						out(x.TokPos, x.TokPos+2, "+=", "assign")
					case token.MUL_ASSIGN:
						out(x.TokPos, x.TokPos+2, "/=", "assign")
					}
					_ = l
				}
			case *ast.IncDecStmt:
				out(x.Pos(), x.End(), "", "delete")
			case *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				out(n.Pos(), n.End(), "", "delete")
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					out(x.Pos(), x.End(), "break", "branch")
				} else if x.Tok == token.BREAK {
					out(x.Pos(), x.End(), "", "delete")
				}
			case *ast.Ident:
				if x.Name == "true" {
					out(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					out(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					out(x.Pos(), x.End(), "", "delete")
				}
			case *ast.CallExpr:
				// swap the two arguments of a call
				if len(x.Args) == 2 {
					a, b := x.Args[0], x.Args[1]
					out(a.Pos(), b.End(), string(src[off(b.Pos()):off(b.End())])+", "+string(src[off(a.Pos()):off(a.End())]), "swapargs")
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					alt := map[string]string{"Min": "Max", "Max": "Min", "Sin": "Cos", "Cos": "Sin", "RLock": "Lock", "Floor": "Ceil", "Ceil": "Floor", "Abs": "Sqrt"}
					if a := alt[s.Sel.Name]; a != "" && a != "Lock" {
						out(s.Sel.Pos(), s.Sel.End(), a, "call")
					}
				}
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max") {
					out(id.Pos(), id.End(), map[string]string{"min": "max", "max": "min"}[id.Name], "call")
				}
			}
			return true
		})
	}
}

func trim(s string) string {
	if len(s) > 70 {
		s = s[:70] + "…"
	}
	return s
}
