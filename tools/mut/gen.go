package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	File string `json:"file"`
	A, B int
	New  string `json:"new"`
	Desc string `json:"desc"`
	Line int
	Fn   string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		p := os.Args[1] + "/" + f
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		out := func(a, b token.Pos, nw, d string) {
			enc.Encode(mut{f, off(a), off(b), nw, d, fs.Position(a).Line, fn})
		}
		short := func(s string) string {
			if len(s) > 60 {
				s = s[:60] + "..."
			}
			return s
		}
		simple := func(s ast.Stmt) bool {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				return true
			case *ast.AssignStmt:
				return x.Tok != token.DEFINE
			}
			return false
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				if simple(s) {
					out(s.Pos(), s.End(), "", "delete "+short(txt(s)))
				}
				if g, ok := s.(*ast.GoStmt); ok {
					out(s.Pos(), s.End(), txt(g.Call), "no go "+short(txt(s)))
				}
				if g, ok := s.(*ast.DeferStmt); ok {
					out(s.Pos(), s.End(), txt(g.Call), "no defer "+short(txt(s)))
				}
				if x, ok := s.(*ast.IfStmt); ok && x.Else == nil && x.Init == nil {
					out(s.Pos(), s.End(), "", "delete if "+short(txt(x.Cond)))
				}
				if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 0 {
					out(s.Pos(), s.End(), "", "delete return")
				}
				if i > 0 {
					p := l[i-1]
					_, r1 := p.(*ast.ReturnStmt)
					_, r2 := s.(*ast.ReturnStmt)
					if !r1 && !r2 && (simple(p) || simple(s)) {
						out(p.Pos(), s.End(), txt(s)+"\n"+txt(p), "swap "+short(txt(p))+" <> "+short(txt(s)))
					}
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.IfStmt:
				out(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate "+short(txt(x.Cond)))
			case *ast.BinaryExpr:
				m := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.REM: {"+"}}
				for _, o := range m[x.Op] {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, fmt.Sprintf("%s -> %s in %s", x.Op, o, short(txt(x))))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					out(x.Pos(), x.End(), txt(x.X), "drop right of "+short(txt(x)))
					out(x.Pos(), x.End(), txt(x.Y), "drop left of "+short(txt(x)))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					out(x.Pos(), x.End(), "("+x.Value+"+1)", "+1 "+x.Value)
					if x.Value != "0" {
						out(x.Pos(), x.End(), "("+x.Value+"-1)", "-1 "+x.Value)
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					out(x.Pos(), x.End(), "false", "true->false")
				} else if x.Name == "false" {
					out(x.Pos(), x.End(), "true", "false->true")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						out(r.Pos(), r.End(), "nil", "return nil for err")
					}
				}
			}
			return true
		})
	}
}
