// mutate lists and applies small syntactic changes to Go files, for measuring what the checks notice.
// mutate FILE          prints the changes (index, line, description)
// mutate FILE N        prints FILE with change N applied
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
	line     int
	what     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var es []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(n ast.Node, text, what string) {
		es = append(es, edit{off(n.Pos()), off(n.End()), text, fs.Position(n.Pos()).Line, what})
	}
	short := func(s string) string {
		if len(s) > 60 {
			s = s[:60]
		}
		return strconv.Quote(s)
	}
	ops := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"==", "<", ">"}, token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.SHL: {">>"}, token.REM: {"/"}, token.AND: {"|"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				add(x, txt(x.X)+" "+o+" "+txt(x.Y), short(txt(x))+" -> "+o)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x, txt(x.X), short(txt(x))+" -> left")
				add(x, txt(x.Y), short(txt(x))+" -> right")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x, "("+x.Value+"+1)", x.Value+" -> +1")
				add(x, "("+x.Value+"-1)", x.Value+" -> -1")
			}
		case *ast.IfStmt:
			add(x.Cond, "false && ("+txt(x.Cond)+")", "if "+short(txt(x.Cond))+" -> false")
			add(x.Cond, "true || ("+txt(x.Cond)+")", "if "+short(txt(x.Cond))+" -> true")
		case *ast.ExprStmt:
			add(x, "", "delete "+short(txt(x)))
		case *ast.DeferStmt:
			add(x, "", "delete "+short(txt(x)))
		case *ast.IncDecStmt:
			add(x, "", "delete "+short(txt(x)))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				add(x, "", "delete "+short(txt(x)))
				if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
					add(x, "_ = "+txt(x.Rhs[0]), "drop "+short(txt(x)))
				}
			}
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE {
				add(x, "break", "continue -> break")
			}
			if x.Tok == token.BREAK {
				add(x, "continue", "break -> continue")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				t := txt(r)
				if t == "err" || (len(t) > 7 && t[:7] == "errors.") || (len(t) > 10 && t[:10] == "fmt.Errorf") {
					add(r, "nil", "return "+short(t)+" -> nil")
				}
				if t == "true" {
					add(r, "false", "return true -> false")
				}
				if t == "false" {
					add(r, "true", "return false -> true")
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				es = append(es, edit{off(a.Pos()), off(b.End()), txt(b) + ", " + txt(a), fs.Position(x.Pos()).Line, "swap args " + short(txt(x))})
				if txt(a) != txt(b) {
					es = append(es, edit{off(a.Pos()), off(b.End()), txt(a) + ", " + txt(a), fs.Position(x.Pos()).Line, "dup first arg " + short(txt(x))})
				}
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				alt := map[string][]string{"Add": {"Sub"}, "Sub": {"Add"}, "Mul": {"Add"}, "Inverse": {"Neg"}, "Neg": {"Set"}, "SetOne": {"SetZero"}, "SetZero": {"SetOne"}, "Rand": {"SetOne", "SetZero"}}
				for _, o := range alt[s.Sel.Name] {
					add(s.Sel, o, short(txt(x))+" -> "+o)
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Low, "("+txt(x.Low)+")+1", "slice low +1 "+short(txt(x)))
			}
			if x.High != nil {
				add(x.High, "("+txt(x.High)+")-1", "slice high -1 "+short(txt(x)))
			}
		case *ast.RangeStmt:
			add(x.X, "("+txt(x.X)+")[1:]", "range skip first "+short(txt(x.X)))
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, txt(x.X), "drop ! "+short(txt(x)))
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, e := range es {
			fmt.Printf("%d\t%d\t%s\n", i, e.line, e.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	e := es[n]
	os.Stdout.Write(src[:e.from])
	fmt.Print(e.text)
	os.Stdout.Write(src[e.to:])
}
