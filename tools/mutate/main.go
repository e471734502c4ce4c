// Command mutate lists or applies small source changes to a Go file, for testing the checks.
//
//	mutate FILE           lists the changes: index, line, description
//	mutate FILE INDEX     prints the file with that change
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
}

type mut struct {
	line  int
	what  string
	edits []edit
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var muts []mut
	add := func(n ast.Node, what string, es ...edit) {
		muts = append(muts, mut{fs.Position(n.Pos()).Line, what, es})
	}
	rep := func(n ast.Node, with string) edit { return edit{off(n.Pos()), off(n.End()), with} }
	short := func(s string) string {
		for i, c := range s {
			if c == '\n' || i > 70 {
				return s[:i] + "…"
			}
		}
		return s
	}
	swaps := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
		token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	}
	list := func(l []ast.Stmt) {
		for i, s := range l {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.GoStmt:
				add(s, "delete "+short(text(s)), rep(s, "{}"))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s, "delete "+short(text(s)), rep(s, "{}"))
				}
			case *ast.BranchStmt:
				add(s, "delete "+short(text(s)), rep(s, "{}"))
			case *ast.IfStmt:
				if s.Else == nil && s.Init == nil {
					add(s, "delete "+short(text(s)), rep(s, "{}"))
				}
			case *ast.ReturnStmt:
				if i == len(l)-1 && len(s.Results) == 0 {
					add(s, "delete return", rep(s, "{}"))
				}
			}
			if d, ok := s.(*ast.DeferStmt); ok {
				add(s, "undefer "+short(text(s)), rep(s, text(d.Call)))
			}
			if i+1 < len(l) {
				a, b := s, l[i+1]
				_, r := b.(*ast.ReturnStmt)
				_, da := a.(*ast.DeclStmt)
				if !r && !da {
					add(a, "swap "+short(text(a))+" / "+short(text(b)), rep(a, text(b)), rep(b, text(a)))
				}
			}
		}
	}
	var infunc int
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body != nil {
				infunc++
				ast.Inspect(n.Body, visit)
				infunc--
			}
			return false
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
			if len(n.List) > 1 {
				for i, e := range n.List {
					if i > 0 {
						add(n, "drop case "+text(e), edit{off(n.List[i-1].End()), off(e.End()), ""})
					}
				}
			}
		case *ast.CommClause:
			list(n.Body)
			if n.Comm == nil {
				break
			}
			add(n, "drop case "+short(text(n.Comm)), edit{off(n.Pos()), off(n.End()), ""})
		case *ast.BinaryExpr:
			for _, w := range swaps[n.Op] {
				add(n, short(text(n))+": "+n.Op.String()+" becomes "+w, edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), w})
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add(n, short(text(n))+": only left", rep(n, text(n.X)))
				add(n, short(text(n))+": only right", rep(n, text(n.Y)))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				add(n, n.Value+" +1", rep(n, "("+n.Value+"+1)"))
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil && v > 0 {
					add(n, n.Value+" -1", rep(n, "("+n.Value+"-1)"))
				}
			}
			if n.Kind == token.STRING && infunc > 0 && len(n.Value) > 2 {
				add(n, n.Value+" changed", rep(n, n.Value[:len(n.Value)-1]+"X"+n.Value[len(n.Value)-1:]))
			}
		case *ast.Ident:
			if n.Name == "true" && n.Obj == nil {
				add(n, "true becomes false", rep(n, "false"))
			}
			if n.Name == "false" && n.Obj == nil {
				add(n, "false becomes true", rep(n, "true"))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n, short(text(n))+": not dropped", edit{off(n.Pos()), off(n.Pos()) + 1, ""})
			}
		case *ast.IfStmt:
			add(n, "if "+short(text(n.Cond))+": true", rep(n.Cond, "("+text(n.Cond)+") || true"))
			add(n, "if "+short(text(n.Cond))+": false", rep(n.Cond, "("+text(n.Cond)+") && false"))
			if n.Else != nil {
				add(n, "if "+short(text(n.Cond))+": no else", edit{off(n.Body.End()), off(n.Else.End()), ""})
			}
		case *ast.ForStmt:
			if n.Cond != nil {
				add(n, "for "+short(text(n.Cond))+": once", edit{off(n.Body.Rbrace), off(n.Body.Rbrace), "\nbreak\n"})
			}
		case *ast.RangeStmt:
			add(n, "range "+short(text(n.X))+": once", edit{off(n.Body.Rbrace), off(n.Body.Rbrace), "\nbreak\n"})
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					add(n, short(text(n))+": nil error", rep(r, "nil"))
				}
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				add(n, short(text(n))+": no low", rep(n.Low, ""))
			}
			if n.High != nil && n.Max == nil {
				add(n, short(text(n))+": no high", rep(n.High, ""))
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "min":
					add(n, short(text(n))+": max", rep(id, "max"))
				case "max":
					add(n, short(text(n))+": min", rep(id, "min"))
				}
			}
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Clone" && len(n.Args) == 1 {
				add(n, short(text(n))+": no clone", rep(n, text(n.Args[0])))
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	if len(os.Args) < 3 {
		for i, m := range muts {
			fmt.Printf("%d\t%d\t%s\n", i, m.line, m.what)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	m := muts[k]
	out := string(src)
	for i := len(m.edits) - 1; i >= 0; i-- {
		e := m.edits[i]
		out = out[:e.from] + e.text + out[e.to:]
	}
	fmt.Print(out)
}
