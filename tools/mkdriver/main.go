// Command mkdriver turns a driver.go, as fab's compilation produced it, into a package of the
// simulation: references to the user's package become look-ups in package zrules.
//
//	mkdriver IN OUT
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		die(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		die(err)
	}
	name := ""
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if !strings.HasPrefix(p, "x/pkg/") {
			continue
		}
		name = p[strings.LastIndexByte(p, '/')+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		edits = append(edits, edit{off(im.Pos()), off(im.End()), name + ` "github.com/bobg/fab/zsim/zrules"`})
	}
	if name == "" {
		die(fmt.Errorf("the driver does not import the user's package"))
	}
	n := 0
	ast.Inspect(f, func(x ast.Node) bool {
		if s, ok := x.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == name {
				edits = append(edits, edit{off(s.Pos()), off(s.End()), fmt.Sprintf("%s.Get(%q)", name, s.Sel.Name)})
				n++
			}
		}
		return true
	})
	if n == 0 {
		die(fmt.Errorf("the driver registers no target"))
	}
	var b strings.Builder
	pos := 0
	for _, e := range edits { // in source order: the imports come first
		b.Write(src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(src[pos:])
	if err := os.WriteFile(os.Args[2], []byte(b.String()), 0o644); err != nil {
		die(err)
	}
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "mkdriver:", err)
	os.Exit(2)
}
