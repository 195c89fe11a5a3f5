// mutate lists one-place changes of Go source files as JSON lines {file,start,end,repl,desc}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type Mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Repl  string `json:"repl"`
	Desc  string `json:"desc"`
	Line  int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, fn := range os.Args[1:] {
		src, _ := os.ReadFile(fn)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(a, b token.Pos, repl, desc string) {
			enc.Encode(Mut{fn, off(a), off(b), repl, desc, fs.Position(a).Line})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IfStmt:
				put(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate if")
				if x.Init == nil {
					put(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "if false")
					put(x.Cond.Pos(), x.Cond.End(), "true || ("+txt(x.Cond)+")", "if true")
				} else {
					put(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "if false (init kept)")
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}}
				for _, a := range alt[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, x.Op.String()+" -> "+a)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put(x.Pos(), x.End(), txt(x.X), "drop right of "+x.Op.String())
					put(x.Pos(), x.End(), txt(x.Y), "drop left of "+x.Op.String())
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						put(x.Pos(), x.End(), strconv.Itoa(v+1), "int +1")
						if v > 0 {
							put(x.Pos(), x.End(), strconv.Itoa(v-1), "int -1")
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					put(x.Pos(), x.End(), "\"@@\"", "string "+x.Value+" gone")
				}
				if x.Kind == token.CHAR {
					put(x.Pos(), x.End(), "'\\x01'", "char gone")
				}
			case *ast.Ident:
				if x.Name == "true" {
					put(x.Pos(), x.End(), "false", "true -> false")
				}
				if x.Name == "false" {
					put(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch s.(type) {
					case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.ForStmt:
						put(s.Pos(), s.End(), "{}", "delete "+clip(txt(s)))
					case *ast.BranchStmt:
						put(s.Pos(), s.End(), "{}", "delete "+txt(s))
					}
				}
				for i := 0; i+1 < len(x.List); i++ {
					put(x.List[i].Pos(), x.List[i+1].End(), txt(x.List[i+1])+"\n"+txt(x.List[i]), "swap statements "+clip(txt(x.List[i])))
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					put(s.Pos(), s.End(), "{}", "delete "+clip(txt(s)))
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					r := txt(x.Results[0])
					if r == "err" {
						put(x.Results[0].Pos(), x.Results[0].End(), "nil", "return nil")
					} else if r == "nil" {
					} else {
						put(x.Results[0].Pos(), x.Results[0].End(), "nil", "return nil for "+clip(r))
					}
				}
			case *ast.CallExpr:
				// drop one of several string arguments
				for i, a := range x.Args {
					if _, ok := a.(*ast.BasicLit); ok && i > 0 && len(x.Args) > 2 {
						put(x.Args[i-1].End(), a.End(), "", "drop argument "+txt(a))
					}
				}
			case *ast.CompositeLit:
				for i, el := range x.Elts {
					if i+1 < len(x.Elts) && len(x.Elts) < 40 {
						put(el.Pos(), x.Elts[i+1].Pos(), "", "drop element "+clip(txt(el)))
					}
				}
			}
			return true
		})
	}
}

func clip(s string) string {
	if len(s) > 60 {
		s = s[:60]
	}
	return fmt.Sprintf("%q", s)
}
