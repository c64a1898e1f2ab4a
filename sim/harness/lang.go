//go:build go1.22

package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/bobg/fab/zsim"
)

// The sources that the language targets (go.Binary, ts.Decls, proto.Proto) are made from: a Go
// module in /proj/m and protocol buffers in /proj/p and /proj/q. The model knows their structure;
// their text is written from it.

type gofile struct {
	name    string
	imports []*gopkg
	embeds  []string // patterns
	ignored bool     // by a build constraint
	ext     bool     // an external test
	val     int
}

type gopkg struct {
	dir   string // absolute
	ip    string
	files []*gofile
	tests []*gofile
}

type protofile struct {
	dir     string // absolute
	name    string
	imports []string
	forms   []int
	val     int
}

type langs struct {
	pkgs   []*gopkg // pkgs[i] imports only packages after it
	protos []*protofile
}

func (g *gofile) text(pkg string) string {
	var b strings.Builder
	if g.ignored {
		b.WriteString("//go:build windows\n\n")
	}
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"fmt\"\n", pkg)
	for _, p := range g.imports {
		fmt.Fprintf(&b, "\t_ %q\n", p.ip)
	}
	if len(g.embeds) > 0 {
		b.WriteString("\t_ \"embed\"\n")
	}
	b.WriteString(")\n\n")
	for i, e := range g.embeds {
		fmt.Fprintf(&b, "//go:embed %s\nvar %s%s string\n\n", e, strings.TrimSuffix(g.name, ".go"), sname("E", i))
	}
	fmt.Fprintf(&b, "var _ = fmt.Sprint(%d)\n", g.val)
	return b.String()
}

func (l *langs) writeGo(p *gopkg, f *gofile) {
	name := path.Base(p.dir)
	if strings.Contains(p.dir, "/cmd/") {
		name = "main"
	}
	if f.ext {
		name += "_test"
	}
	zsim.Disk.Put(path.Join(p.dir, f.name), f.text(name))
}

func (f *protofile) text() string {
	var b strings.Builder
	b.WriteString("syntax = \"proto3\";\n\npackage x;\n\n")
	for i, im := range f.imports {
		switch f.forms[i] {
		case 0:
			fmt.Fprintf(&b, "import %q;\n", im)
		case 1:
			fmt.Fprintf(&b, "import public %q;\n", im)
		case 2:
			fmt.Fprintf(&b, "  import %q;\n", im)
		case 3:
			fmt.Fprintf(&b, "import weak %q;\n", im)
		case 4:
			fmt.Fprintf(&b, "import '%s';\n", im)
		case 5:
			fmt.Fprintf(&b, "option java_package = \"a.b\"; import %q;\n", im)
		case 6:
			fmt.Fprintf(&b, "/* see above */ import %q;\n", im)
		case 7:
			fmt.Fprintf(&b, "import\n  %q;\n", im)
		case 8:
			fmt.Fprintf(&b, "import%q; // as ever\r\n", im)
		}
	}
	fmt.Fprintf(&b, "message M { string v%d = 1; }\n", f.val)
	return b.String()
}

func (l *langs) writeProto(f *protofile) { zsim.Disk.Put(path.Join(f.dir, f.name), f.text()) }

func drawLangs(cur bool) *langs {
	l := &langs{}
	zsim.Disk.Put("/proj/m/go.mod", "module example.com/m\n\ngo 1.20\n")
	n := 2 + zsim.Gen(4)
	many := 1
	if zsim.GenBool(1, 60) {
		n, many = pick(n, 9), pick(1, 8)
		zsim.AllowSteps(2000000)
	}
	for i := 0; i < n; i++ {
		p := &gopkg{dir: "/proj/m/" + sname("a", i), ip: "example.com/m/" + sname("a", i)}
		if i == 0 {
			p.dir, p.ip = "/proj/m/cmd/c0", "example.com/m/cmd/c0"
		} else if i > 1 && zsim.GenBool(1, 3) {
			p.dir, p.ip = "/proj/m/internal/"+sname("a", i), "example.com/m/internal/"+sname("a", i)
		} else if zsim.GenBool(1, 3) { // (several packages have the same name)
			p.dir, p.ip = "/proj/m/"+sname("k", i)+"/lib", "example.com/m/"+sname("k", i)+"/lib"
		}
		l.pkgs = append(l.pkgs, p)
	}
	for i, p := range l.pkgs {
		for k := 1 + zsim.Gen(2*many); k > 0; k-- {
			p.files = append(p.files, &gofile{name: sname("f", k) + ".go", val: zsim.Gen(2)})
		}
		if zsim.GenBool(1, 6) {
			p.files = append(p.files, &gofile{name: "win.go", ignored: true})
		}
		for j := i + 1; j < n; j++ {
			if zsim.GenBool(1, 2) {
				f := p.files[zsim.Gen(len(p.files))]
				f.imports = append(f.imports, l.pkgs[j])
			}
		}
		if zsim.GenBool(1, 3) {
			f := p.files[zsim.Gen(len(p.files))]
			f.embeds = append(f.embeds, pick("t0.txt", "*.txt", "t0.txt t1.dat", "t1.dat", "static", "all:static"))
			zsim.Disk.Put(path.Join(p.dir, "static/s0"), "0")
			zsim.Disk.Put(path.Join(p.dir, "static/deep/s1"), "0")
			if f.embeds[0] == "all:static" {
				zsim.Disk.Put(path.Join(p.dir, "static/.hid"), "0")
			}
			zsim.Disk.Put(path.Join(p.dir, "t0.txt"), "0")
			zsim.Disk.Put(path.Join(p.dir, "t1.dat"), "0")
		}
		if zsim.GenBool(1, 6) {
			zsim.Disk.Put(path.Join(p.dir, "x.s"), "0")
		}
		if zsim.GenBool(1, 4) {
			p.tests = append(p.tests, &gofile{name: "f1_test.go", ext: zsim.GenBool(1, 2)})
			if i+1 < n {
				p.tests[0].imports = []*gopkg{l.pkgs[i+1+zsim.Gen(n-i-1)]}
			}
		}
		for _, f := range append(p.files[:len(p.files):len(p.files)], p.tests...) {
			l.writeGo(p, f)
		}
	}
	m := 1 + zsim.Gen(5)
	for i := 0; i < m; i++ {
		l.protos = append(l.protos, &protofile{dir: pick("/proj/p", "/proj/p", "/proj/q"), name: sname("x", i) + ".proto", val: zsim.Gen(2)})
		if zsim.GenBool(1, 4) { // in both directories
			l.protos = append(l.protos, &protofile{dir: "/proj/q", name: sname("x", i) + ".proto", val: zsim.Gen(2)})
			l.protos[len(l.protos)-2].dir = "/proj/p"
		}
	}
	if cur {
		for i := 0; i < 3; i++ {
			l.protos = append(l.protos, &protofile{dir: "/proj", name: sname("y", i) + ".proto", val: zsim.Gen(2)})
		}
	}
	for _, f := range l.protos {
		l.drawImports(f)
		l.writeProto(f)
	}
	zsim.Disk.MkDirs("/proj/p")
	zsim.Disk.MkDirs("/proj/q")
	return l
}

func (l *langs) drawImports(f *protofile) {
	f.imports, f.forms = nil, nil
	for _, g := range l.protos {
		// (names increase, so there is no cycle)
		if g.name > f.name && (g.dir == "/proj") == (f.dir == "/proj") && zsim.GenBool(1, 2) && !contains(f.imports, g.name) {
			f.imports = append(f.imports, g.name)
			f.forms = append(f.forms, zsim.Gen(9))
		}
	}
	if zsim.GenBool(1, 5) {
		f.imports = append(f.imports, "google/protobuf/any.proto")
		f.forms = append(f.forms, zsim.Gen(9))
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// goReads lists the files that make the package in dir, with those of the same module it imports;
// optionally also the packages below dir, and the tests.
func (l *langs) goReads(dir string, recursive, tests bool) []string {
	seen := map[*gopkg]bool{}
	var out []string
	var visit func(p *gopkg)
	visit = func(p *gopkg) {
		if seen[p] {
			return
		}
		seen[p] = true
		ents := dirNames(p.dir)
		for _, f := range p.files {
			if f.ignored || !zsim.Disk.Exists(path.Join(p.dir, f.name)) {
				continue
			}
			out = append(out, path.Join(p.dir, f.name))
			for _, q := range f.imports {
				visit(q)
			}
			for _, e := range f.embeds {
				for _, pat := range strings.Fields(e) {
					if _, ok := strings.CutPrefix(pat, "all:"); ok || pat == "static" {
						for n := range zsim.Disk.Tree(path.Join(p.dir, "static")) {
							if !strings.HasSuffix(n, "/") {
								out = append(out, n) // (sorted below)
							}
						}
						continue
					}
					for _, ent := range ents {
						if ok, _ := path.Match(pat, ent); ok {
							out = append(out, path.Join(p.dir, ent))
						}
					}
				}
			}
		}
		for _, ent := range ents {
			if strings.HasSuffix(ent, ".s") {
				out = append(out, path.Join(p.dir, ent))
			}
		}
	}
	for _, p := range l.pkgs {
		if p.dir == dir || recursive && strings.HasPrefix(p.dir, dir+"/") {
			visit(p)
			if tests {
				for _, f := range p.tests {
					out = append(out, path.Join(p.dir, f.name))
					for _, q := range f.imports {
						visit(q)
					}
				}
			}
		}
	}
	return uniq(out)
}

// protoReads lists what protoc reads.
func (l *langs) protoReads(inputs, includes []string) []string {
	var out []string
	var visit func(f *protofile)
	visit = func(f *protofile) {
		p := path.Join(f.dir, f.name)
		if contains(out, p) {
			return
		}
		out = append(out, p)
		for _, im := range f.imports {
			if g := l.resolve(im, includes); g != nil {
				visit(g)
			}
		}
	}
	for _, in := range inputs {
		for _, f := range l.protos {
			if path.Join(f.dir, f.name) == in {
				visit(f)
			}
		}
	}
	return uniq(out)
}

func (l *langs) resolve(name string, includes []string) *protofile {
	if len(includes) == 0 {
		includes = []string{"/proj"} // (the current directory)
	}
	for _, inc := range includes {
		for _, f := range l.protos {
			if f.dir == inc && f.name == name {
				return f
			}
		}
	}
	return nil
}

func uniq(l []string) []string {
	sort.Strings(l)
	var out []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return out
}

// change edits some source.
func (l *langs) change() {
	if zsim.GenBool(1, 2) {
		f := l.protos[zsim.Gen(len(l.protos))]
		if zsim.GenBool(1, 3) {
			l.drawImports(f)
		} else {
			f.val++
		}
		zsim.Log("the user edits %s/%s", f.dir, f.name)
		l.writeProto(f)
		return
	}
	i := zsim.Gen(len(l.pkgs))
	p := l.pkgs[i]
	f := p.files[zsim.Gen(len(p.files))]
	switch zsim.Gen(6) {
	case 0:
		f.val++
	case 1:
		f.imports = nil
		for j := i + 1; j < len(l.pkgs); j++ {
			if zsim.GenBool(1, 2) {
				f.imports = append(f.imports, l.pkgs[j])
			}
		}
	case 2:
		n := pick("t0.txt", "t1.dat", "t2.txt", "x.s", "static/s0", "static/deep/s1", "static/deep/s2")
		zsim.Log("the user writes %s/%s", p.dir, n)
		zsim.Disk.Put(path.Join(p.dir, n), sname("", zsim.Gen(3)))
		return
	case 3:
		if len(p.tests) == 0 {
			p.tests = append(p.tests, &gofile{name: "f1_test.go", ext: zsim.GenBool(1, 2)})
		}
		f = p.tests[0]
		f.val++
	case 4:
		f = &gofile{name: sname("n", len(p.files)) + ".go"}
		p.files = append(p.files, f)
	case 5:
		f.ignored = f.name != p.files[0].name && !f.ignored
	}
	zsim.Log("the user edits %s/%s", p.dir, f.name)
	l.writeGo(p, f)
}

// edit changes a source file of a given name, if there is one.
func (l *langs) edit(name string) {
	for _, f := range l.protos {
		if path.Join(f.dir, f.name) == name {
			f.val++
			zsim.Log("the user edits %s", name)
			l.writeProto(f)
			return
		}
	}
	for _, p := range l.pkgs {
		for _, f := range p.files {
			if path.Join(p.dir, f.name) == name {
				f.val++
				zsim.Log("the user edits %s", name)
				l.writeGo(p, f)
				return
			}
		}
	}
}

// dirNames lists a directory, without the faults that the process at hand may meet.
func dirNames(dir string) []string {
	n := zsim.Disk.Node(dir)
	if n == nil {
		return nil
	}
	var out []string
	for k := range n.Kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
