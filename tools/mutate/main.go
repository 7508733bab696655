// mutate lists small source changes of the given Go files as JSON lines: {file, off, end, new, what, line}. (development aid)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			o := func(p token.Pos) int { return fs.Position(p).Offset }
			emit := func(a, b token.Pos, nw, what string) {
				_ = enc.Encode(mut{f, o(a), o(b), nw, what, fs.Position(a).Line, fd.Name.Name})
			}
			text := func(n ast.Node) string { return string(src[o(n.Pos()):o(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
					if n.Else == nil && n.Init == nil {
						emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never "+text(n.Cond))
					}
				case *ast.BinaryExpr:
					r := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}
					for _, x := range r[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), x, text(n)+" with "+x)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.Atoi(n.Value); err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" -> +1")
						}
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit(n.Pos(), n.End(), "false", "true -> false")
					} else if n.Name == "false" {
						emit(n.Pos(), n.End(), "true", "false -> true")
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
							emit(s.Pos(), s.End(), "", "delete "+text(s))
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), blank(s, text), "delete "+text(s))
							}
						case *ast.ReturnStmt:
							if len(s.Results) == 2 && text(s.Results[1]) == "err" {
								emit(s.Pos(), s.End(), "return "+text(s.Results[0])+", nil", "drop error: "+text(s))
							}
							if len(s.Results) == 1 && text(s.Results[0]) == "err" {
								emit(s.Pos(), s.End(), "return nil", "drop error: "+text(s))
							}
						}
					}
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 && n.Ellipsis != 0 {
						emit(n.Pos(), n.End(), text(n.Args[1]), "alias "+text(n))
					}
					if se, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 && (se.Sel.Name == "Copy" || se.Sel.Name == "Clone") {
						emit(n.Pos(), n.End(), text(se.X), "alias "+text(n))
					}
				}
				return true
			})
		}
	}
}

// blank keeps the operands of a deleted assignment used.
func blank(s *ast.AssignStmt, text func(ast.Node) string) string {
	out := ""
	for _, r := range s.Rhs {
		out += "_ = " + text(r) + ";"
	}
	return out
}
