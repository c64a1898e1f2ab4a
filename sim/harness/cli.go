//go:build go1.22

package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/packages"
	"github.com/bobg/fab/zsim/zrules"
)

// The command-line world: the real fab command, its real compilation of drivers with a simulated
// "go" program, and the real driver's main function, in a project whose sources, YAML files, cache
// directory and fab version change between and during invocations.

// driverMain is the main function of the driver that fab generates; fabMain that of the fab command.
// Both are set in builds that include them.
var driverMain, fabMain func()

// driverText is the driver.go that driverMain was made from.
var driverText string

var ruleNames = []string{"Alpha", "Beta", "Gamma"}

// binary is what the simulated compiler produces.
type binary struct {
	Files  map[string]string // the package it was built from
	Driver bool              // driver.go was complete
	Fab    string            // digest of the copy of fab
	Ver    string            // version of the fab that had it compiled
	Inv    int               // invocation in which it was compiled
	Loads  int
}

type invocation struct {
	verbose bool
	n       int
	args    []string
	force   bool
	list    bool
	cwd     string
	denied  bool // some files are unreadable throughout
	faults  bool
	edit    bool
	crash   int  // steps until the process is killed (0: never)
	crashB  bool // count them from the end of the compilation
	tree    bool // the whole process tree is killed
	tool    int  // which of the go program's runs fails (0: none)
	toolHow int

	p       *zsim.Proc
	procs   []*zsim.Proc
	states  []map[string]string // of the build package, from the beginning of the invocation
	builds  int
	started []*binary
	execs   map[string]int
	stdin   map[string]string
	exit    int
	killed  bool
	fault   bool // a fault did strike
	nogo    int
	failed  int // leaves that failed
}

type cliworld struct {
	main    func() // instead of fab's
	inv     *invocation
	ninv    int
	ver     string
	fabdir  string
	golden  string
	verOK   bool
	leafBad map[string]bool // commands that exit with status 1
	checks  bool            // judge drivers (P17)
	pend    func()
	style   int // of alphaStyles
	marks   int // how versions of sources differ: see versionMark
	big     int // 0, or bigSrc, or twice that
	many    int // further source files
}

var cliw *cliworld

const fabPkgdir = "/proj/_fab"

func goFile(name string) bool {
	return strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go") && name[0] != '_' && name[0] != '.'
}

func ignoredSrc(src string) bool {
	for _, line := range strings.Split(src, "\n") {
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "package ") {
			return false
		}
		if constraint.IsGoBuild(line) {
			x, err := constraint.Parse(line)
			if err == nil && !x.Eval(func(tag string) bool { return tag == "linux" || tag == "amd64" || strings.HasPrefix(tag, "go1.") }) {
				return true
			}
		}
	}
	return false
}

// pkgState is the current content of a package directory, as the compiler would use it.
func pkgState(dir string) map[string]string {
	m := map[string]string{}
	for n, c := range zsim.Disk.Tree(dir) {
		n = strings.TrimPrefix(strings.TrimPrefix(n, dir), "/")
		if strings.Contains(n, "/") || n == "" || !goFile(n) {
			continue
		}
		if src, ok := zsim.Disk.Get(path.Join(dir, n)); ok && !ignoredSrc(src) {
			_ = c
			m[n] = src
		}
	}
	return m
}

func sameFiles(a, b map[string]string) bool { return reflect.DeepEqual(a, b) }

func fabVersion(v string) *debug.BuildInfo {
	main, rev, _ := strings.Cut(v, "+")
	bi := &debug.BuildInfo{GoVersion: "go1.23", Path: "github.com/bobg/fab/cmd/fab", Main: debug.Module{Path: "github.com/bobg/fab", Version: main, Sum: "h1:x" + main}}
	bi.Deps = []*debug.Module{{Path: "gopkg.in/yaml.v3", Version: "v3.0.1"}, {Path: "golang.org/x/mod", Version: "v0.1", Replace: &debug.Module{Path: "../mod"}}}
	if rev != "" {
		bi.Settings = []debug.BuildSetting{{Key: "vcs.revision", Value: rev}}
	}
	return bi
}

func digestTree(dir string) string {
	t := zsim.Disk.Tree(dir)
	var ns []string
	for n := range t {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	h := uint64(14695981039346656037)
	for _, n := range ns {
		c, _ := zsim.Disk.Get(n)
		for _, b := range []byte(strings.TrimPrefix(n, dir) + "\x00" + c + "\x00") {
			h = (h ^ uint64(b)) * 1099511628211
		}
	}
	return fmt.Sprintf("%d:%016x", len(ns), h)
}

func sortedLines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

var docRE = regexp.MustCompile(`"(?:[^"\\\n]|\\.)*", subpkg\.`)

// noDocs is the source of a driver without its targets' documentation.
func noDocs(s string) string { return docRE.ReplaceAllString(s, "subpkg.") }

// capture is set while the driver source is being obtained.
var capture func(src string)

// goProgram is the simulated "go" command.
func (w *cliworld) goProgram(c *zsim.Child) int {
	inv := w.inv
	inv.nogo++
	zsim.Sleep(50e6)
	if inv.tool == inv.nogo {
		inv.fault = true
		zsim.CountFault("go-fails")
		if inv.toolHow == 1 {
			c.Proc.Kill("killed")
			zsim.Dead()
			return 1
		}
		if c.Args[0] == "build" && inv.toolHow == 2 {
			zsim.Disk.WriteFile(path.Join(c.Proc.Cwd, "x"), []byte(`{"Files":`), 0o755)
		}
		c.Err("go: no space left on device\n")
		return 1
	}
	cwd := c.Proc.Cwd
	gomod, haveMod := zsim.Disk.Get(path.Join(cwd, "go.mod"))
	switch {
	case len(c.Args) == 3 && c.Args[0] == "mod" && c.Args[1] == "init":
		if haveMod {
			c.Err("go: " + cwd + "/go.mod already exists\n")
			return 1
		}
		zsim.Disk.WriteFile(path.Join(cwd, "go.mod"), []byte("module "+c.Args[2]+"\n\ngo 1.20\n"), 0o644)
		return 0
	case len(c.Args) == 2 && c.Args[0] == "mod" && c.Args[1] == "tidy":
		if !haveMod {
			c.Err("go: go.mod file not found\n")
			return 1
		}
		if !strings.Contains(gomod, "replace github.com/bobg/fab => ./fab") || !zsim.Disk.Exists(path.Join(cwd, "fab/go.mod")) {
			c.Err("go: finding module for package github.com/bobg/fab: no network\n")
			return 1
		}
		zsim.Disk.WriteFile(path.Join(cwd, "go.mod"), []byte(gomod+"\nrequire github.com/bobg/fab v0.0.0\n"), 0o644)
		zsim.Disk.WriteFile(path.Join(cwd, "go.sum"), []byte("sums\n"), 0o644)
		return 0
	case c.Args[0] == "build":
		out := "x"
		for i := 1; i < len(c.Args); i++ {
			if c.Args[i] == "-o" && i+1 < len(c.Args) {
				i++
				out = c.Args[i]
			}
		}
		if capture == nil {
			inv.builds++
		}
		return w.goBuild(c, cwd, out, gomod)
	}
	c.Err("go: unknown command " + strings.Join(c.Args, " ") + "\n")
	return 2
}

func (w *cliworld) goBuild(c *zsim.Child, cwd, out, gomod string) int {
	if !strings.Contains(gomod, "require github.com/bobg/fab") {
		c.Err("go: no required module provides package github.com/bobg/fab\n")
		return 1
	}
	var src string
	ents, _ := zsim.Disk.ReadDir(cwd)
	for _, e := range ents {
		if n := e.Name(); !e.IsDir() && goFile(n) {
			b, err := zsim.Disk.ReadFile(path.Join(cwd, n))
			if err != nil {
				c.Err(err.Error())
				return 1
			}
			src += string(b)
		}
	}
	if capture != nil {
		capture(src)
		return 1
	}
	f, err := parser.ParseFile(token.NewFileSet(), "driver.go", src, parser.SkipObjectResolution)
	if err != nil {
		c.Err(err.Error() + "\n")
		return 1
	}
	b := binary{Ver: w.ver, Inv: w.inv.n}
	for _, im := range f.Imports {
		if s := strings.Trim(im.Path.Value, `"`); strings.HasPrefix(s, "x/pkg/") {
			b.Files = pkgState(path.Join(cwd, strings.TrimPrefix(s, "x/")))
		}
	}
	defined := map[string]bool{}
	for _, s := range b.Files {
		if ignoredSrc(s) {
			continue
		}
		pf, err := parser.ParseFile(token.NewFileSet(), "f.go", s, parser.SkipObjectResolution)
		if err != nil || strings.Contains(s, "COMPILE ERROR") {
			c.Err("compile error\n")
			return 1
		}
		for _, d := range pf.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					for _, n := range vs.Names {
						defined[n.Name] = true
					}
				}
			}
		}
	}
	for _, n := range ruleNames {
		if !defined[n] {
			c.Err("undefined: " + n + "\n")
			return 1
		}
	}
	bad := ""
	ast.Inspect(f, func(n ast.Node) bool {
		if x, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := x.X.(*ast.Ident); ok && id.Name == "subpkg" && !defined[x.Sel.Name] {
				bad = x.Sel.Name
			}
		}
		return true
	})
	if bad != "" {
		c.Err("not an expression: subpkg." + bad + "\n")
		return 1
	}
	b.Driver = sortedLines(noDocs(src)) == sortedLines(noDocs(driverText))
	b.Fab = digestTree(path.Join(cwd, "fab"))
	zsim.Sleep(1e9)
	j, _ := json.Marshal(b)
	h, err := zsim.Disk.OpenFile(path.Join(cwd, out), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o755)
	if err != nil {
		c.Err(err.Error() + "\n")
		return 1
	}
	h.Write(j[:len(j)/2])
	zsim.Sleep(10e6)
	h.Write(j[len(j)/2:])
	h.Close()
	if w.inv.crashB && !w.inv.p.Dead {
		w.armCrash(w.inv)
	}
	return 0
}

func (w *cliworld) findProgram(p string) (zsim.Program, bool) {
	switch p {
	case "/bin/go":
		return w.goProgram, true
	case "/bin/t":
		return w.toolProgram, true
	}
	n := zsim.Disk.Node(p)
	if n == nil || n.Dir || !strings.HasPrefix(p, "/") {
		return nil, false
	}
	content := string(n.Data)
	return func(c *zsim.Child) int { return w.driverProgram(c, content) }, true
}

// toolProgram is what the commands of YAML targets run.
func (w *cliworld) toolProgram(c *zsim.Child) int {
	name := "?"
	if len(c.Args) > 0 {
		name = c.Args[0]
	}
	w.inv.execs[name]++
	zsim.Log("command %s", name)
	zsim.Yield(1301)
	if len(c.Args) > 1 {
		s, _ := c.ReadAllIn()
		w.inv.stdin[name] = s
	}
	if w.leafBad[name] {
		w.inv.failed++
		return 1
	}
	return 0
}

type cliRule struct {
	name string
	bad  bool
}

func (r *cliRule) Desc() string { return r.name }
func (r *cliRule) Run(context.Context, *fab.Controller) error {
	cliw.inv.execs[r.name]++
	zsim.Log("rule %s", r.name)
	zsim.Yield(1302)
	if r.bad {
		cliw.inv.failed++
		return errors.New("rule " + r.name + " failed")
	}
	return nil
}

func cliGet(name string) fab.Target {
	m, _ := zsim.CurProc().Locals["rules"].(map[string]*cliRule)
	return m[name]
}

func (w *cliworld) driverProgram(c *zsim.Child, content string) int {
	inv := w.inv
	var b binary
	if err := json.Unmarshal([]byte(content), &b); err != nil {
		if w.checks {
			viol("P17", "broken-driver", "fab runs a driver binary that was never completely written (%d bytes)", len(content))
		}
		c.Err("Segmentation fault\n")
		return 139
	}
	inv.started = append(inv.started, &b)
	if w.checks {
		w.judgeDriver(inv, &b)
	}
	c.Proc.Faulty = inv.faults || inv.denied
	c.Proc.Locals["buildinfo"] = fabVersion("driver")
	rules := map[string]*cliRule{}
	for _, n := range ruleNames {
		r := &cliRule{name: n}
		for _, s := range b.Files {
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(strings.TrimPrefix(strings.TrimSpace(l), "var "), n+" ") && strings.HasSuffix(l, " fail") {
					r.bad = true
				}
			}
		}
		rules[n] = r
	}
	c.Proc.Locals["rules"] = rules
	zrules.GetFn = cliGet
	resetFab()
	driverMain()
	return 0
}

func describeFiles(m map[string]string) string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var out []string
	for _, n := range ns {
		v := m[n]
		if i := strings.Index(v, "// v"); i >= 0 {
			v, _, _ = strings.Cut(v[i+3:], "\n")
		} else {
			v = fmt.Sprintf("(%d bytes) %.300q", len(v), v)
		}
		out = append(out, n+":"+v)
	}
	return "{" + strings.Join(out, " ") + "}"
}

func (w *cliworld) judgeDriver(inv *invocation, b *binary) {
	if !b.Driver {
		viol("P17", "broken-driver", "the driver was compiled with an incomplete driver.go")
	}
	if b.Fab != w.golden {
		viol("P17", "broken-driver", "the driver was compiled with an incomplete copy of fab (%s, want %s)", b.Fab, w.golden)
	}
	// every file as it was at some time during the invocation, and the set of files as well
	set := false
	for _, st := range inv.states {
		ok := len(st) == len(b.Files)
		for n := range b.Files {
			if _, has := st[n]; !has {
				ok = false
			}
		}
		set = set || ok
	}
	good := set
	for n, c := range b.Files {
		ok := false
		for _, st := range inv.states {
			if s, has := st[n]; has && s == c {
				ok = true
			}
		}
		good = good && ok
	}
	if !good {
		viol("P17", "stale-driver", "invocation %d runs a driver built in invocation %d from %s although the build package is %s",
			inv.n, b.Inv, describeFiles(b.Files), describeFiles(inv.states[len(inv.states)-1]))
	}
	if b.Ver != w.ver {
		viol("P17", "wrong-version", "invocation %d of fab %s runs a driver built by fab %s in invocation %d", inv.n, w.ver, b.Ver, b.Inv)
	}
	if inv.force && b.Inv != inv.n {
		viol("P17", "not-forced", "invocation %d was to force compilation but runs the driver of invocation %d", inv.n, b.Inv)
	}
}

func (w *cliworld) armCrash(inv *invocation) {
	zsim.KillAfter(inv.p, int64(inv.crash), func(p *zsim.Proc) {
		zsim.CountFault("crash")
		inv.killed, inv.fault = true, true
		if inv.tree {
			p.KillTree("crash")
		} else {
			p.Kill("crash")
		}
	})
}

var cliFaultKinds = []string{"open-eio", "open-eacces", "open-emfile", "open-enospc", "create-enospc", "read-eio", "write-eio", "write-enospc", "write-short",
	"mkdir-eio", "mkdir-enospc", "readdir-eio", "remove-eio", "remove-eperm", "rename-eio", "rename-enospc", "stat-eio", "stat-eacces", "close-eio", "close-enospc",
	"sync-eio", "truncate-eio", "lock-eio", "golist-fail", "exec-eagain", "exec-enomem"}

func kindSet(ks []string) map[string]bool {
	m := map[string]bool{}
	for _, k := range ks {
		m[k] = true
	}
	return m
}

// start runs one invocation to its end.
func (w *cliworld) invoke(inv *invocation) {
	w.ninv++
	inv.n = w.ninv
	w.inv = inv
	inv.execs, inv.stdin = map[string]int{}, map[string]string{}
	inv.states = append(inv.states, pkgState(fabPkgdir))
	if inv.cwd == "" {
		inv.cwd = "/proj"
	}
	resetFab()
	zsim.FaultsOn(inv.faults)
	f0 := zsim.FaultsUsed()
	p := zsim.NewProc(sname("fab", inv.n), nil)
	inv.p = p
	p.Cwd = inv.cwd
	p.Env = []string{"HOME=/root", "PATH=/bin:/usr/bin", "PWD=" + inv.cwd}
	p.Args = append([]string{"/usr/bin/fab"}, inv.args...)
	p.Stdin, p.Stdout, p.Stderr = &zsim.Sink{In: []byte("input of fab\n")}, &zsim.Sink{}, &zsim.Sink{}
	p.Faulty = inv.faults || inv.denied
	if w.verOK {
		p.Locals["buildinfo"] = fabVersion(w.ver)
	}
	zsim.Log("invocation %d of fab %s: %q in %s %+v", inv.n, w.ver, inv.args, inv.cwd, describeFiles(inv.states[0]))
	inv.procs = append(inv.procs, p)
	if w.main != nil {
		p.Start(w.main)
	} else {
		p.Start(fabMain)
	}
	if inv.crash > 0 && !inv.crashB {
		w.armCrash(inv)
	}
	var ed *zsim.Task
	over := false
	if inv.edit {
		n, by := zsim.Gen(3), zsim.Gen(2)
		plans := 1 + zsim.Gen(3)
		var pl []func()
		for i := 0; i < plans; i++ {
			pl = append(pl, w.drawEdit())
		}
		if zsim.GenBool(1, 2) { // and all back again
			pl = append(pl, w.undo())
		}
		zsim.CountFault("concurrent-edit")
		d := zsim.Gen(pick(30, 300, 2000))
		ed = zsim.GoNamed("user", func() {
			for i, f := range pl {
				if i > 0 {
					d = zsim.Gen(pick(20, 200))
				}
				if by == 0 {
					zsim.Sleep(int64(d) * 1e6)
				} else {
					for k := d * (1 + n); k > 0 && !over; k-- {
						zsim.Yield(1303)
					}
				}
				if over {
					break
				}
				f()
				inv.states = append(inv.states, pkgState(fabPkgdir))
			}
		})
	}
	for i := 0; i < len(inv.procs); i++ {
		inv.procs[i].Wait()
	}
	over = true
	if ed != nil {
		ed.Join()
	}
	zsim.CancelKill()
	zsim.FaultsOn(false)
	for _, q := range inv.procs {
		if q.Panic != "" {
			zsim.Fail("panic", "%s", q.Panic)
		}
	}
	inv.exit = p.ExitCode
	inv.killed = inv.killed || p.Killed
	inv.fault = inv.fault || zsim.FaultsUsed() != f0
	if zsim.Tracing() {
		zsim.Log("invocation %d ends: status %d killed %v builds %d drivers %d executed %v output %.300q", inv.n, inv.exit, inv.killed, inv.builds, len(inv.started), inv.execs, p.Stdout.(*zsim.Sink).Data)
	}
}

const bigSrc = 100

// drawStyle decides how the build package is written: how Alpha is declared, and what else is in
// the directory.
func (w *cliworld) drawStyle() {
	w.style, w.marks = 0, 0
	if zsim.GenBool(1, 4) {
		w.marks = 1 + zsim.Gen(4)
	}
	if zsim.GenBool(1, 3) {
		w.style = 1 + zsim.Gen(len(alphaStyles)-1)
	}
	if zsim.GenBool(1, 6) {
		n := pick("gen.go", "y_test.go", "win.go", "notes.txt", ".x.go", "_x.go", "testdata/t.go", "cmd/main.go")
		c := map[string]string{"gen.go": "//go:build ignore\n\npackage main\n\nfunc main() {}\n", "y_test.go": "package rules_test\n",
			"win.go": "//go:build windows\n\npackage rules\n\n// Alpha is another one.\nvar Alpha = 1\n"}[n]
		if c == "" {
			c = "package other\n"
		}
		zsim.Disk.Put(path.Join(fabPkgdir, n), c)
	}
}

// alphaStyles are ways of declaring Alpha; "$" stands for a comment.
var alphaStyles = []string{
	"// Alpha is the first.\nvar Alpha = fab.F(nil) $\n",
	"// Alpha is the first.\nvar Alpha *T = &T{} $\n\n// T is a rule of this package.\ntype T struct{ n int }\n\nfunc (*T) Run(context.Context, *fab.Controller) error { return nil }\n\nfunc (*T) Desc() string { return \"T\" }\n",
	"// Alpha is the first.\nvar Alpha = &T{} $\n\n// T is a rule of this package.\ntype T struct{ n int }\n\nfunc (*T) Run(context.Context, *fab.Controller) error { return nil }\n\nfunc (*T) Desc() string { return \"T\" }\n",
	"// Alpha is the first.\nvar Alpha = fab.F(nil) $\n\n// V is used in other targets.\ntype V struct{}\n\nfunc (V) Run(context.Context, *fab.Controller) error { return nil }\n\nfunc (V) Desc() string { return \"V\" }\n",
	"var (\n\t// Alpha is the first.\n\tAlpha = fab.F(nil) $\n\talpha = fab.F(nil)\n)\n",
	"// Alpha is the first.\nvar Alpha fab.Target = fab.F(nil) $\n\n// Func is no target.\nfunc Func() fab.Target { return Alpha }\n\n// Num is no target.\nconst Num = 3\n\nvar _ fab.Target = fab.F(nil)\n",
}

func alphaSrc(comment string) string {
	s := alphaStyles[cliw.style]
	imp := "import \"github.com/bobg/fab\"\n"
	if strings.Contains(s, "context.") {
		imp = "import (\n\t\"context\"\n\n\t\"github.com/bobg/fab\"\n)\n"
	}
	return "package rules\n\n" + imp + "\n" + strings.Replace(s, "$", comment, 1)
}

// versionMark is what differs between the versions of a file: a comment, or no more than the spaces,
// the line ends or the capitals in a string.
func versionMark(v int, group bool) string {
	decl := "\nvar _ = "
	if group {
		decl = "\n\t_ = "
	}
	switch cliw.marks {
	case 1:
		return decl + `"a` + strings.Repeat(" ", v+1) + `b"`
	case 2:
		return decl + "`a" + strings.Repeat("\n", v+1) + "b`"
	case 3:
		return decl + `"` + fmt.Sprintf("%b", 8+v) + `"`
	case 4:
		return decl + `"` + strings.NewReplacer("0", "x", "1", "X").Replace(fmt.Sprintf("%b", 8+v)) + `"`
	}
	return fmt.Sprintf("// v%d", v)
}

// The build package: a.go defines Alpha, b.go Beta and Gamma; further files come and go.
func srcOf(name string, v int) string {
	if v >= bigSrc {
		// a file whose versions differ at one end only
		if v -= bigSrc; v < bigSrc {
			return srcOf(name, v) + "/*\n" + strings.Repeat("x\n", 4000) + "*/\n"
		}
		return strings.Repeat("// x\n", 7000) + srcOf(name, v-bigSrc)
	}
	switch name {
	case "a.go":
		return alphaSrc(versionMark(v, strings.Contains(alphaStyles[cliw.style], "var (")))
	case "b.go":
		return fmt.Sprintf("package rules\n\nimport \"github.com/bobg/fab\"\n\n// Beta is the second.\nvar Beta = fab.F(nil) %s\n\n// Gamma is the third.\nvar Gamma = fab.F(nil)\n", versionMark(v, false))
	}
	return fmt.Sprintf("package rules\n\nvar x%s = 1 %s\n", strings.TrimSuffix(name, ".go"), versionMark(v, false))
}

func (w *cliworld) undo() func() {
	st := pkgState(fabPkgdir)
	var ns []string
	for n := range st {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return func() {
		zsim.Log("the user restores the build package")
		now := zsim.Disk.Tree(fabPkgdir)
		var have []string
		for n := range now {
			have = append(have, n)
		}
		sort.Strings(have)
		for _, n := range have {
			if _, ok := st[path.Base(n)]; !ok && goFile(path.Base(n)) {
				zsim.Disk.Del(n)
			}
		}
		for _, n := range ns {
			if c, _ := zsim.Disk.Get(path.Join(fabPkgdir, n)); c != st[n] {
				zsim.Disk.Put(path.Join(fabPkgdir, n), st[n])
			}
		}
	}
}

// drawEdit draws a change to the build package; running the result makes it.
func (w *cliworld) drawEdit() func() {
	keep := zsim.GenBool(1, 2)
	put := func(n, c string) func() {
		return func() {
			zsim.Log("the user writes %s: %.300q", n, c)
			if keep {
				zsim.Disk.PutKeep(path.Join(fabPkgdir, n), c)
			} else {
				zsim.Disk.Put(path.Join(fabPkgdir, n), c)
			}
		}
	}
	n := pick("a.go", "b.go", "c.go", "d.go")
	if n == "d.go" {
		n = pick("d.go", "C.go") // a name may differ from another one in case only
	}
	if w.many > 0 && zsim.GenBool(1, 2) {
		n = sname("m", zsim.Gen(w.many)) + ".go"
	}
	switch k := zsim.Gen(10); {
	case k < 6:
		return put(n, srcOf(n, zsim.Gen(3)+w.big))
	case k == 6:
		n = pick("c.go", "d.go", "C.go")
		return func() {
			zsim.Log("the user deletes %s", n)
			if zsim.Disk.Exists(path.Join(fabPkgdir, n)) {
				zsim.Disk.Del(path.Join(fabPkgdir, n))
			}
		}
	case k == 7:
		return put("c.go", pick("package rules\n\nfunc {\n", "package rules\n\nvar xc = 2 // COMPILE ERROR\n"))
	case k == 8:
		tag, pk := "linux", "rules"
		if zsim.GenBool(1, 2) {
			tag, pk = "ignore", pick("rules", "main")
		}
		return put("i.go", fmt.Sprintf("//go:build %s\n\npackage %s\n\nvar xi = 1 // v%d\n", tag, pk, zsim.Gen(2)))
	default:
		return put("x_test.go", fmt.Sprintf("package %s\n\n// v%d\n", pick("rules", "rules_test"), zsim.Gen(3)))
	}
}

func newCliWorld() *cliworld {
	w := &cliworld{ver: "v0.1.0", fabdir: "/root/.cache/fab", verOK: true, leafBad: map[string]bool{}}
	cliw = w
	packages.TargetType = reflect.TypeOf((*fab.Target)(nil)).Elem()
	zsim.FindProgram = w.findProgram
	zsim.OnExec = func(p *zsim.Proc, path string, args []string) {
		if w.inv != nil {
			w.inv.procs = append(w.inv.procs, p)
		}
		p.Faulty = false
	}
	zsim.Disk.MkDirs("/tmp")
	zsim.Disk.MkDirs("/root")
	w.golden = goldenFab
	return w
}

func (w *cliworld) goProject() {
	if zsim.GenBool(1, 12) {
		w.big = bigSrc * (1 + zsim.Gen(2))
	}
	w.drawStyle()
	w.putProject()
	if zsim.GenBool(1, 50) {
		w.many = 50 + zsim.Gen(80)
		zsim.AllowSteps(int64(w.many) * 10000)
		for i := 0; i < w.many; i++ {
			n := sname("m", i) + ".go"
			zsim.Disk.Put(path.Join(fabPkgdir, n), srcOf(n, 0))
		}
	}
}

func (w *cliworld) putProject() {
	zsim.Disk.Put("/proj/go.mod", "module example.com/proj\n\ngo 1.20\n")
	for _, n := range []string{"a.go", "b.go"} {
		zsim.Disk.Put(path.Join(fabPkgdir, n), srcOf(n, w.big))
	}
}

func (w *cliworld) cliFaults() {
	zsim.SetFaults(zsim.FaultPlan{Num: 1, Den: pick(8, 40, 150, 400), Max: 1 + zsim.Gen(3), Kinds: kindSet(cliFaultKinds)}, false)
	zsim.Disk.FaultPath = func(op, name string) bool {
		return strings.HasPrefix(name, w.fabdir) || strings.HasPrefix(name, "/proj") || strings.HasPrefix(name, "/tmp/")
	}
}

type histOpt struct {
	id                          string
	crash, faults, edits, tools bool
}

var versions = []string{"v0.1.0", "v0.2.0", "v0.2.0+abc", "v0.2.0+def"}

func driverHistory(o histOpt) func() {
	return func() {
		w := newCliWorld()
		w.checks = true
		w.goProject()
		w.cliFaults()
		zsim.Disk.CloseLoses = true
		if o.id == "P17" && zsim.GenBool(1, 12) {
			w.verOK = false
		}
		var last *invocation // the last one, if it succeeded and nothing has changed since
		lastVer := ""
		for n := 2 + zsim.Gen(6); n > 0; n-- {
			// changes
			for zsim.GenBool(2, 5) {
				before := pkgState(fabPkgdir)
				w.drawEdit()()
				if !sameFiles(before, pkgState(fabPkgdir)) {
					last = nil
				}
			}
			if zsim.GenBool(1, 5) {
				w.ver = versions[zsim.Gen(len(versions))]
				zsim.Log("the user installs fab %s", w.ver)
			}
			if zsim.GenBool(1, 12) {
				last = nil
				f := path.Join(w.fabdir, "example.com/proj/_fab", pick("hash", "fab.bin", "fab-version.json"))
				if zsim.Disk.Exists(f) {
					zsim.Log("the user deletes %s", f)
					zsim.Disk.Del(f)
				}
			}
			inv := &invocation{}
			if zsim.GenBool(1, 5) {
				inv.force = true
				inv.args = append(inv.args, "-f")
			}
			if zsim.GenBool(1, 8) {
				inv.args = append(inv.args, "-v")
			}
			if zsim.GenBool(1, 8) {
				inv.args = append(inv.args, "-list")
			}
			if zsim.GenBool(1, 8) {
				inv.args = append(inv.args, "-n")
			}
			inv.args = append(inv.args, ruleNames[zsim.Gen(3)])
			if w.ninv > 0 || zsim.GenBool(1, 3) {
				switch zsim.Gen(5) {
				case 0:
					if o.crash {
						inv.crash = 1 + zsim.Gen(pick(60, 500, 3000))
						inv.crashB = zsim.GenBool(1, 2)
						inv.tree = zsim.GenBool(1, 2)
					}
				case 1:
					inv.faults = o.faults
				case 2:
					inv.edit = o.edits
				case 3:
					if o.tools {
						inv.tool, inv.toolHow = 1+zsim.Gen(3), zsim.Gen(3)
					}
				}
			}
			disturbed := inv.crash > 0 || inv.faults || inv.edit || inv.tool > 0
			good := compiles(pkgState(fabPkgdir))
			w.invoke(inv)
			if !inv.killed && inv.exit == 0 && len(inv.started) == 0 {
				viol("P17", "no-driver", "fab reports success although no driver ran")
			}
			if !disturbed {
				if good && (len(inv.started) != 1 || inv.exit != 0) {
					viol("P17 P18", "unusable", "an undisturbed invocation on a good project did not run the driver: status %d, output %.500q", inv.exit, inv.p.Stdout.(*zsim.Sink).Data)
				}
				if last != nil && lastVer == w.ver && !inv.force && w.verOK && inv.builds > 0 {
					viol("P18", "recompiled", "invocation %d compiles the driver although nothing has changed since invocation %d, which succeeded", inv.n, last.n)
				}
			}
			last = nil
			if !disturbed && inv.exit == 0 {
				last, lastVer = inv, w.ver
			}
		}
	}
}

func compiles(m map[string]string) bool {
	for _, s := range m {
		if strings.Contains(s, "COMPILE ERROR") || strings.Contains(s, "func {") {
			return false
		}
	}
	return true
}

// generateDriver obtains the driver.go that fab's compilation writes for the standard rules.
func generateDriver(out string) {
	var text string
	var cerr error
	r := zsim.Run(zsim.Config{Seed: 1, MaxSteps: 10000000}, func() {
		w := newCliWorld()
		w.putProject()
		w.inv = &invocation{}
		capture = func(s string) { text = s }
		p := zsim.NewProc("gen", nil)
		p.Cwd = "/proj"
		p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
		p.Start(func() { cerr = fab.Compile(context.Background(), fabPkgdir, "/root/bin") })
		p.Wait()
		if p.Panic != "" {
			zsim.Fail("panic", "%s", p.Panic)
		}
	})
	capture = nil
	if text == "" {
		fmt.Fprintf(os.Stderr, "no driver was generated: %v %s %s\n", cerr, r.Class, r.Msg)
		os.Exit(2)
	}
	if err := os.WriteFile(out, []byte(text), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// goldenFab is the digest of a complete copy of fab in a driver's compilation.
var goldenFab string

func findGolden() {
	zsim.Run(zsim.Config{Seed: 1, MaxSteps: 10000000}, func() {
		w := newCliWorld()
		w.putProject()
		inv := &invocation{args: []string{"Alpha"}}
		w.invoke(inv)
		if len(inv.started) == 1 {
			goldenFab = inv.started[0].Fab
		}
	})
}

var cliReal = []string{"cmd/fab, main.go, compile.go, dirhash.go, top.go, yaml.go, controller.go and all they use: the code of /repo, compiled from the working tree", "the driver's main function: generated by the real CompilePackage from the real driver.go.tmpl", "sqlite/db.go, database/sql, go-sqlite3 and SQLite (hash database)", "go/parser, go/doc, text/template, golang.org/x/mod/modfile, yaml.v3"}
var cliStub = []string{"golang.org/x/tools/go/packages (go list): a stand-in that reads the simulated file system", "the go program: a simulated one that checks what it is given and writes a binary recording what it was built from", "the user's build rules: recorded stand-ins", "scheduler, processes, file system, clock, SQLite's operating-system layer: simulated"}

func registerCLI() {
	h := func(name string, weight int, o histOpt, classes ...string) scenario {
		return scenario{name: name, weight: weight, maxSteps: 2000000, fn: forProp(o.id, driverHistory(o)), post: only(classes...)}
	}
	register(&check{id: "P17", scenarios: []scenario{
		h("histories", 2, histOpt{id: "P17"}),
		h("crashes", 4, histOpt{id: "P17", crash: true, tools: true}),
		h("faults", 3, histOpt{id: "P17", faults: true, tools: true}),
		h("edits", 4, histOpt{id: "P17", edits: true}),
		h("mixed", 3, histOpt{id: "P17", crash: true, faults: true, edits: true, tools: true}),
	}, real: cliReal, stub: cliStub, assume: []string{"invocations for one project and cache directory do not overlap", "a crash kills processes, not the machine (no power failure)", "the build package is the set of Go files that go list reports for _fab"},
		rule: "Each run draws a history of edits, additions, removals and reverts of the build package's files, changes of the fab version, deletions of cached files, and invocations - forced or not, killed at a drawn step, with I/O errors, with failing go commands, with concurrent edits; whenever a driver binary is executed, what it was compiled from is compared with the build package's content (at some time during the invocation), with the fab version, and with the invocation if forced."})
	register(&check{id: "P18", scenarios: []scenario{
		h("histories", 3, histOpt{id: "P18"}),
		h("mixed", 2, histOpt{id: "P18", crash: true, faults: true, edits: true, tools: true}),
	}, real: cliReal, stub: cliStub, assume: []string{"invocations for one project and cache directory do not overlap", "the running fab knows its build information"},
		rule: "Histories as for P17; an undisturbed, non-forced invocation after one that succeeded, with nothing changed in between, must run the driver without any compilation."})
}
