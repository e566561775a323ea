// gen lists mutants of Go files: file, offset, end, replacement, description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type M struct {
	File     string `json:"file"`
	A, B     int
	R        string
	Func     string
	Line     int
	What     string
}

func main() {
	var out []M
	for _, fn := range os.Args[1:] {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		src, _ := os.ReadFile(fn)
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			add := func(a, b token.Pos, r, what string) {
				t := string(src[off(a):off(b)])
				if len(t) > 60 {
					t = t[:60]
				}
				out = append(out, M{fn, off(a), off(b), r, fd.Name.Name, fs.Position(a).Line, what + ": " + strings.ReplaceAll(t, "\n", " ")})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
					if c == "err != nil" {
						add(x.Cond.Pos(), x.Cond.End(), "false && err != nil", "ignore error")
						return true
					}
					add(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate")
					add(x.Cond.Pos(), x.Cond.End(), "true || "+c, "always")
					add(x.Cond.Pos(), x.Cond.End(), "false && ("+c+")", "never")
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}}
					for _, r := range alt[x.Op] {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "operator "+x.Op.String())
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						add(x.Pos(), x.End(), "("+x.Value+"+1)", "number")
						if x.Value != "0" {
							add(x.Pos(), x.End(), "("+x.Value+"-1)", "number")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						add(x.Pos(), x.End(), "false", "bool")
					} else if x.Name == "false" {
						add(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						add(x.Pos(), x.End(), "", "no break")
					} else if x.Tok == token.CONTINUE && x.Label == nil {
						add(x.Pos(), x.End(), "break", "break instead")
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
							add(y.Pos(), y.End(), "", "delete statement")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								add(y.Pos(), y.End(), "", "delete assignment")
							}
						}
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "RuneCopy" || id.Name == "ByteCopy") {
						a := string(src[off(x.Args[0].Pos()):off(x.Args[0].End())])
						add(x.Pos(), x.End(), "*("+a+")", "no copy")
					}
				}
				return true
			})
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
	fmt.Fprintln(os.Stderr, len(out))
}
