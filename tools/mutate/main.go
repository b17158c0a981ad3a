// Command mutate lists single-place changes of Go source files and applies
// one of them.
//
//	mutate list FILE...          prints "FILE N LINE WHAT" for every change
//	mutate apply FILE N          rewrites FILE with change N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	line     int
	what     string
}

func edits(file string) ([]byte, []edit) {
	src, err := ioutil.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	var out []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, text, what string) {
		out = append(out, edit{off(a), off(b), text, fs.Position(a).Line, what})
	}
	src2 := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	short := func(n ast.Node) string {
		s := strings.Join(strings.Fields(src2(n)), " ")
		if len(s) > 60 {
			s = s[:60]
		}
		return s
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, s := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, short(x)+" with "+s)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.Pos(), x.End(), src2(x.X), short(x)+" only left")
				add(x.Pos(), x.End(), src2(x.Y), short(x)+" only right")
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+src2(x.Cond)+")", "negate if "+short(x.Cond))
			if x.Init == nil {
				add(x.Cond.Pos(), x.Cond.End(), "("+src2(x.Cond)+") && false", "never "+short(x.Cond))
			}
		case *ast.ExprStmt:
			if _, ok := x.X.(*ast.CallExpr); ok {
				add(x.Pos(), x.End(), "", "drop "+short(x))
			}
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN {
				var lhs []string
				for _, r := range x.Rhs {
					lhs = append(lhs, src2(r))
				}
				blank := strings.TrimSuffix(strings.Repeat("_, ", len(x.Lhs)), ", ")
				if blank != src2(x.Lhs[0]) {
					add(x.Pos(), x.End(), blank+" = "+strings.Join(lhs, ", "), "drop "+short(x))
				}
			}
		case *ast.CallExpr:
			// a link of a chain left out: a.B(..).C(..) becomes a.C(..)
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if in, ok := s.X.(*ast.CallExpr); ok {
					if s2, ok := in.Fun.(*ast.SelectorExpr); ok {
						add(s2.X.End(), in.End(), "", "skip "+short(s2.Sel)+short(in)+" in chain")
						_ = s2
					}
				}
			}
			for i := 1; i < len(x.Args); i++ {
				a, b := src2(x.Args[i-1]), src2(x.Args[i])
				add(x.Args[i-1].Pos(), x.Args[i].End(), b+", "+a, "swap arguments of "+short(x))
			}
		case *ast.ReturnStmt:
			if len(x.Results) > 0 {
				last := x.Results[len(x.Results)-1]
				if id, ok := last.(*ast.Ident); ok && id.Name == "err" {
					add(last.Pos(), last.End(), "nil", "return nil for err")
				}
				if id, ok := last.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					break
				}
			}
			for _, r := range x.Results {
				if c, ok := r.(*ast.CallExpr); ok && len(x.Results) == 1 {
					_ = c
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "true to false")
			}
			if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "false to true")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), x.Value+" plus one")
					if v > 0 {
						add(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), x.Value+" minus one")
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 {
				add(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:], "string "+x.Value)
			}
		case *ast.CaseClause:
			for i, e := range x.List {
				if len(x.List) > 1 {
					if i+1 < len(x.List) {
						add(e.Pos(), x.List[i+1].Pos(), "", "drop case "+short(e))
					} else {
						add(x.List[i-1].End(), e.End(), "", "drop case "+short(e))
					}
				}
			}
			if len(x.List) > 0 {
				add(x.Pos(), x.End(), "", "drop clause "+short(x.List[0]))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.X.Pos(), "", "drop ! of "+short(x))
			}
		case *ast.BranchStmt:
			if x.Tok == token.BREAK && x.Label == nil {
				add(x.Pos(), x.End(), "continue", "break to continue")
			}
			if x.Tok == token.CONTINUE && x.Label == nil {
				add(x.Pos(), x.End(), "break", "continue to break")
			}
		case *ast.RangeStmt:
			add(x.Body.Lbrace+1, x.Body.Lbrace+1, "break\n", "no iteration")
		}
		return true
	})
	return src, out
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			_, es := edits(f)
			for i, e := range es {
				fmt.Printf("%s\t%d\t%d\t%s\n", f, i, e.line, e.what)
			}
		}
	case "apply":
		n, _ := strconv.Atoi(os.Args[3])
		src, es := edits(os.Args[2])
		e := es[n]
		out := string(src[:e.from]) + e.text + string(src[e.to:])
		if err := ioutil.WriteFile(os.Args[2], []byte(out), 0o644); err != nil {
			panic(err)
		}
	}
}
