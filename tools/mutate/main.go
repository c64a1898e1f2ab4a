// Command mutate lists or applies small syntactic changes to a Go file, to measure what the checks notice.
//
//	mutate FILE            lists the mutants, one per line: number, line, operator, text
//	mutate FILE N          prints the file with mutant N applied
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	from, to int // byte range
	text     string
	op       string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ms []mut
	add := func(n ast.Node, text, op string) {
		ms = append(ms, mut{off(n.Pos()), off(n.End()), text, op})
	}
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var cur *ast.FuncDecl
	swap := map[token.Token]string{
		token.LAND: "||", token.LOR: "&&", token.EQL: "!=", token.NEQ: "==",
		token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+",
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
				add(s, "{}", "delete")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					t := ""
					for _, r := range s.Rhs {
						t += "_ = " + str(r) + ";"
					}
					if len(s.Rhs) != len(s.Lhs) {
						continue
					}
					add(s, t, "delete")
				}
			case *ast.IfStmt:
				if s.Else == nil && s.Init == nil {
					add(s, "if false && ("+str(s.Cond)+") "+str(s.Body), "delete-if")
				}
			case *ast.RangeStmt:
				add(s.Body, "{ break\n"+str(s.Body)[1:], "no-loop")
				add(s.Body, str(s.Body)[:len(str(s.Body))-1]+"\nbreak }", "loop-once")
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			cur = n
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.IfStmt:
			add(n.Cond, "!("+str(n.Cond)+")", "negate-if")
			add(n.Cond, "true || ("+str(n.Cond)+")", "if-true")
			add(n.Cond, "false && ("+str(n.Cond)+")", "if-false")
		case *ast.ForStmt:
			if n.Cond != nil {
				add(n.Cond, "false && ("+str(n.Cond)+")", "for-false")
			}
		case *ast.BinaryExpr:
			if t, ok := swap[n.Op]; ok {
				if n.Op == token.ADD && (strings.Contains(str(n), `"`)) {
					break
				}
				p := off(n.OpPos)
				ms = append(ms, mut{p, p + len(n.Op.String()), t, "swap " + n.Op.String()})
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add(n, str(n.X), "left")
				add(n, str(n.Y), "right")
			}
		case *ast.ReturnStmt:
			if len(n.Results) > 0 {
				last := n.Results[len(n.Results)-1]
				if id, ok := last.(*ast.Ident); !(ok && id.Name == "nil") {
					add(last, "nil", "return-nil")
				}
				if id, ok := last.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					add(last, map[string]string{"true": "false", "false": "true"}[id.Name], "flip")
				}
				if len(n.Results) == 2 {
					if id, ok := n.Results[0].(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						add(id, map[string]string{"true": "false", "false": "true"}[id.Name], "flip")
					}
				}
			}
		case *ast.BasicLit:
			if n.Kind == token.INT && cur != nil {
				if v, err := strconv.Atoi(n.Value); err == nil {
					add(n, strconv.Itoa(v+1), "int+1")
				}
			}
		case *ast.KeyValueExpr:
			if _, ok := n.Key.(*ast.Ident); ok && cur != nil {
				add(n, "", "drop-field")
			}
		case *ast.CallExpr:
			// arguments of the same form swapped
			if len(n.Args) == 2 {
				a, ok1 := n.Args[0].(*ast.Ident)
				b, ok2 := n.Args[1].(*ast.Ident)
				if ok1 && ok2 && a.Name != "ctx" {
					ms = append(ms, mut{off(a.Pos()), off(b.End()), b.Name + ", " + a.Name, "swap-args"})
				}
			}
		}
		return true
	})
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].from < ms[j].from })
	if len(os.Args) < 3 {
		for i, m := range ms {
			line := bytes.Count(src[:m.from], []byte("\n")) + 1
			fmt.Printf("%d\t%d\t%s\t%.90q\n", i, line, m.op, src[m.from:m.to])
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	m := ms[n]
	text := m.text
	if m.op == "drop-field" && m.to < len(src) && src[m.to] == ',' {
		m.to++
	}
	os.Stdout.Write(src[:m.from])
	os.Stdout.WriteString(text)
	os.Stdout.Write(src[m.to:])
}
