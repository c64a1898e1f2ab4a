// Command genalias writes a shim package that re-exports everything of a standard-library
// package except the names given with -skip (which the shim defines itself).
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/format"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"path"
	"strings"
)

func main() {
	pkg := flag.String("pkg", "", "package to alias")
	name := flag.String("name", "", "package name")
	skip := flag.String("skip", "", "names to leave out")
	out := flag.String("o", "", "output file")
	flag.Parse()
	sk := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		sk[s] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(*pkg)
	if err != nil {
		panic(err)
	}
	if *name == "" {
		*name = path.Base(*pkg)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.22\n\n// Code generated by tools/genalias; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", *name, *pkg)
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || sk[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams() != nil {
				fmt.Fprintf(os.Stderr, "generic function %s.%s left out\n", *pkg, n)
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams() != nil {
				fmt.Fprintf(os.Stderr, "generic type %s.%s left out\n", *pkg, n)
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		}
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(*out, src, 0o644); err != nil {
		panic(err)
	}
}
