//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"path"
	"sort"
	"strings"

	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/tsdecls"
)

// Files targets built through the command line: YAML files define Files, Clean and other targets;
// the real fab command (with or without a driver) builds them in one process after another, with
// the real hash database, and with flags, edits, crashes, faults and clock jumps in between.

type cfile struct {
	id     int
	dir    string // "" or "sub"
	spec   int
	srcs   []string // absolute
	prods  []*cfile
	glob   string // pattern in dir, or ""
	godir  string // the inputs are !go.Deps of this directory
	rec    bool
	tests  bool
	pdep   string // the inputs are !proto.Deps of this file (and incs)
	out    string // absolute
	form   int    // of the subtarget
	lang   int    // 0, or langGo, langProto, langTS
	pkg    *gopkg // for langGo and langTS
	protos []string
	incs   []string
	rel    bool // names are given relative to the working directory (api)
	noOut  bool // the output is left to the default
	fails  int  // 0, or how the tool fails
	auto   bool
	execs  int
	ended  int // completed successfully in this invocation
}

func (f *cfile) name() string  { return sname("F", f.id) }
func (f *cfile) qname() string { return path.Join(f.dir, f.name()) }

const (
	langGo = 1 + iota
	langProto
	langTS
)

const (
	recNo    = iota
	recMaybe // may have been recorded, or may have expired
	recYes
)

type crec struct {
	state int
	at    int64 // simulated wall time of the last use
	dry   bool  // a dry run visited the state
	force bool  // recorded by a forced build
}

type cfworld struct {
	*langs
	*cliworld
	fs       []*cfile
	recs     map[string]*crec
	groups   map[string][]*cfile
	clean    []string // listed files of the Clean target
	cauto    bool
	jumped   int64
	goPkg    bool
	api      bool // a Go program defines and runs the targets
	langOdds int  // of 6: how many targets are language targets
}

func (w *cfworld) now() int64 { return zsim.Now() + w.jumped }

func cdigest(parts ...string) string {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%d:%s;", len(p), p)
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

// inputs lists the files that f reads, given the files that exist.
func (w *cfworld) inputs(f *cfile) []string {
	switch f.lang {
	case langGo, langTS:
		return w.goReads(f.pkg.dir, false, false)
	case langProto:
		return w.protoReads(f.protos, f.incs)
	}
	ins := append([]string(nil), f.srcs...)
	if f.godir != "" {
		ins = append(ins, w.goReads(f.godir, f.rec, f.tests)...)
	}
	if f.pdep != "" {
		ins = append(ins, w.protoReads([]string{f.pdep}, f.incs)...)
	}
	for _, p := range f.prods {
		ins = append(ins, p.out)
	}
	if f.glob != "" {
		ents := dirNames(path.Join("/proj", f.dir))
		for _, e := range ents {
			if ok, _ := path.Match(f.glob, e); ok {
				ins = append(ins, path.Join("/proj", f.dir, e))
			}
		}
	}
	sort.Strings(ins)
	return ins
}

// product is what the tool makes for f from the given contents.
func (w *cfworld) product(f *cfile, spec int, get func(string) string) string {
	parts := []string{f.name(), fmt.Sprint(spec)}
	switch f.lang {
	case langGo:
		parts = append([]string{f.pkg.dir}, goFlags(spec)...)
	case langTS:
		parts = []string{f.pkg.dir, sname("T", f.id), sname("/p", spec)}
	case langProto:
		parts = append(append(append([]string(nil), f.incs...), protoOpts(f.out, spec)...), f.protos...)
	}
	return madeFrom(parts, w.inputs(f), get)
}

func madeFrom(parts, ins []string, get func(string) string) string {
	parts = parts[:len(parts):len(parts)]
	for _, in := range ins {
		parts = append(parts, in, get(in))
	}
	return cdigest(parts...)
}

func goFlags(spec int) []string {
	if spec == 0 {
		return nil
	}
	return []string{"-trimpath", "-ldflags=-X=main.v=" + fmt.Sprint(spec)}
}

func protoOpts(out string, spec int) []string {
	return []string{"--descriptor_set_out=" + out, "--x_opt=" + fmt.Sprint(spec)}
}

func diskGet(name string) string {
	c, ok := zsim.Disk.Get(name)
	if !ok {
		return "missing"
	}
	return "=" + c
}

func (w *cfworld) key(f *cfile, get func(string) string) string {
	parts := []string{f.name(), fmt.Sprint(f.spec), fmt.Sprint(f.form)}
	for _, in := range w.inputs(f) {
		parts = append(parts, in, get(in))
	}
	return cdigest(append(parts, get(f.out))...)
}

func (w *cfworld) yamlText(dir string) string {
	var b strings.Builder
	if dir != "" {
		fmt.Fprintf(&b, "_dir: %s\n", dir)
	}
	rel := func(abs string) string {
		r := strings.TrimPrefix(abs, path.Join("/proj", dir)+"/")
		if r == abs {
			r = "../" + strings.TrimPrefix(abs, "/proj/")
		}
		return r
	}
	for _, f := range w.fs {
		if f.dir != dir {
			continue
		}
		if f.lang != 0 {
			w.langYAML(&b, f, rel)
			continue
		}
		tool := func(ind string) string {
			return fmt.Sprintf("!Command\n%s  Cmd: t\n%s  Args: [w, %s, %q]\n", ind, ind, f.name(), fmt.Sprint(f.spec))
		}
		fmt.Fprintf(&b, "%s: !Files\n", f.name())
		var ins []string // the elements of the list
		for _, s := range f.srcs {
			ins = append(ins, rel(s))
		}
		for _, p := range f.prods {
			ins = append(ins, rel(p.out))
		}
		plain := len(ins)
		if f.godir != "" {
			in := "!go.Deps {Dir: " + rel(f.godir)
			if f.rec {
				in += ", Recursive: true"
			}
			if f.tests {
				in += ", Tests: true"
			}
			ins = append(ins, in+"}")
		}
		if f.pdep != "" {
			in := "!proto.Deps {File: " + rel(f.pdep) + ", Includes: ["
			for k, inc := range f.incs {
				if k > 0 {
					in += ", "
				}
				in += rel(inc)
			}
			ins = append(ins, in+"]}")
		}
		if f.glob != "" {
			ins = append(ins, fmt.Sprintf("!Glob [%q]", f.glob))
		}
		if plain == 0 && len(ins) == 1 && f.id%2 == 0 {
			fmt.Fprintf(&b, "  In: %s\n", ins[0])
		} else {
			b.WriteString("  In:\n")
			for _, in := range ins {
				fmt.Fprintf(&b, "    - %s\n", in)
			}
		}
		fmt.Fprintf(&b, "  Out: [%s]\n", rel(f.out))
		if f.auto {
			b.WriteString("  Autoclean: true\n")
		}
		switch f.form {
		case 0:
			b.WriteString("  Target: " + tool("  "))
		case 1:
			b.WriteString("  Target: !Seq\n    - " + tool("    "))
		case 2:
			fmt.Fprintf(&b, "  Target: %s\n", path.Join(map[string]string{"": "", "sub": "."}[dir], "T"+f.name()))
			if dir != "" {
				s := b.String()
				b.Reset()
				b.WriteString(strings.Replace(s, "Target: T"+f.name()+"\n", "Target: ./T"+f.name()+"\n", 1))
			}
			fmt.Fprintf(&b, "T%s: %s", f.name(), tool(""))
		}
	}
	if dir == "" {
		var names []string
		for g := range w.groups {
			names = append(names, g)
		}
		sort.Strings(names)
		for _, g := range names {
			var l []string
			for _, f := range w.groups[g] {
				l = append(l, f.qname())
			}
			kind := "!All"
			if g[0] == 'D' {
				kind = "!Deps"
			}
			fmt.Fprintf(&b, "%s: %s [%s]\n", g, kind, strings.Join(l, ", "))
		}
		var l []string
		for _, c := range w.clean {
			l = append(l, rel(c))
		}
		fmt.Fprintf(&b, "K: !Clean\n  Files: [%s]\n  Autoclean: %v\n", strings.Join(l, ", "), w.cauto)
	}
	return b.String()
}

func (w *cfworld) writeYAML() {
	if w.api {
		return
	}
	zsim.Disk.Put("/proj/fab.yaml", w.yamlText(""))
	for _, f := range w.fs {
		if f.dir == "sub" {
			zsim.Disk.Put("/proj/sub/fab.yaml", w.yamlText("sub"))
			return
		}
	}
}

func (w *cfworld) langYAML(b *strings.Builder, f *cfile, rel func(string) string) {
	list := func(l []string, f func(string) string) string {
		var out []string
		for _, s := range l {
			out = append(out, fmt.Sprintf("%q", f(s)))
		}
		return "[" + strings.Join(out, ", ") + "]"
	}
	same := func(s string) string { return s }
	switch f.lang {
	case langGo:
		fmt.Fprintf(b, "%s: !go.Binary\n  Dir: %s\n", f.name(), rel(f.pkg.dir))
		if !f.noOut {
			fmt.Fprintf(b, "  Out: %s\n", rel(f.out))
		}
		if fl := goFlags(f.spec); len(fl) > 0 {
			fmt.Fprintf(b, "  Flags: %s\n", list(fl, same))
		}
	case langProto:
		fmt.Fprintf(b, "%s: !proto.Proto\n  Inputs: %s\n  Outputs: [%s]\n  Includes: %s\n  Opts: %s\n  Autoclean: %v\n",
			f.name(), list(f.protos, rel), rel(f.out), list(f.incs, rel), list(protoOpts(f.out, f.spec), same), f.auto)
	case langTS:
		fmt.Fprintf(b, "%s: !ts.Decls\n  Dir: %s\n  Type: %s\n  Prefix: %s\n  Out: %s\n  Autoclean: %v\n",
			f.name(), rel(f.pkg.dir), sname("T", f.id), sname("/p", f.spec), rel(f.out), f.auto)
	}
}

// tool is the program that makes outputs.
func (w *cfworld) tool(c *zsim.Child) int {
	spec := 0
	if len(c.Args) == 3 {
		for _, f := range w.fs {
			if f.name() == c.Args[1] && f.lang == 0 {
				fmt.Sscan(c.Args[2], &spec)
				return w.work(f, func() string { return w.product(f, spec, diskGet) }, w.toFile(f))
			}
		}
	}
	c.Err("usage\n")
	return 2
}

// goTool is "go build".
func (w *cfworld) goTool(c *zsim.Child) int {
	a := c.Args
	if len(a) < 6 || a[0] != "build" || a[1] != "-C" || a[3] != "-o" || a[len(a)-1] != "." {
		c.Err("usage\n")
		return 2
	}
	dir := absIn(c.Proc.Cwd, a[2])
	out := absIn(dir, a[4])
	flags := a[5 : len(a)-1]
	for _, f := range w.fs {
		if f.lang == langGo && f.out == out {
			return w.work(f, func() string { return madeFrom(append([]string{dir}, flags...), w.goReads(dir, false, false), diskGet) }, w.toFile(f))
		}
	}
	c.Err("unexpected output file " + out + "\n")
	return 2
}

// protoc is the protocol buffer compiler.
func (w *cfworld) protoc(c *zsim.Child) int {
	var incs, opts, ins []string
	var to *cfile
	for _, a := range c.Args {
		if d, ok := strings.CutPrefix(a, "-I"); ok {
			incs = append(incs, absIn(c.Proc.Cwd, d))
		} else if strings.HasPrefix(a, "-") {
			opts = append(opts, a)
			if o, ok := strings.CutPrefix(a, "--descriptor_set_out="); ok {
				for _, f := range w.fs {
					if f.lang == langProto && f.out == absIn(c.Proc.Cwd, o) {
						to = f
					}
				}
			}
		} else {
			ins = append(ins, absIn(c.Proc.Cwd, a))
		}
	}
	if to == nil {
		c.Err("Missing output directives.\n")
		return 2
	}
	return w.work(to, func() string {
		return madeFrom(append(append(append([]string(nil), incs...), opts...), ins...), w.protoReads(ins, incs), diskGet)
	}, w.toFile(to))
}

// tsDecls stands in for tsdecls.Write.
func (w *cfworld) tsDecls(wr io.Writer, dir, typename, prefix string) error {
	for _, f := range w.fs {
		if f.lang == langTS && typename == sname("T", f.id) {
			var werr error
			dir = absIn(zsim.CurProc().Cwd, dir)
			if w.work(f, func() string { return madeFrom([]string{dir, typename, prefix}, w.goReads(dir, false, false), diskGet) }, func(s string) {
				if s == "partial" && f.fails == 0 {
					return
				}
				if _, err := io.WriteString(wr, s); err != nil {
					werr = err
				}
			}) != 0 {
				return errors.New("tsdecls fails")
			}
			return werr
		}
	}
	return fmt.Errorf("no type %s", typename)
}

func absIn(cwd, p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	return path.Join(cwd, p)
}

func (w *cfworld) toFile(f *cfile) func(string) {
	return func(s string) { zsim.Disk.WriteFile(f.out, []byte(s), 0o644) }
}

// work is what all tools do.
func (w *cfworld) work(f *cfile, product func() string, write func(string)) int {
	w.inv.execs[f.name()]++
	f.execs++
	zsim.Log("tool %s starts", f.name())
	zsim.Yield(1310)
	out := product()
	zsim.Sleep(int64(1+zsim.Gen(3)) * 1e6)
	if f.fails == 2 {
		zsim.Log("tool %s fails", f.name())
		return 1
	}
	write("partial")
	zsim.Yield(1311)
	zsim.Sleep(1e6)
	if f.fails == 1 {
		zsim.Log("tool %s fails", f.name())
		return 1
	}
	write(out)
	zsim.Log("tool %s ends", f.name())
	f.ended++
	return 0
}

func (w *cfworld) drawLang(f *cfile) {
	f.lang = 1 + zsim.Gen(3)
	d := path.Join("/proj", f.dir)
	switch f.lang {
	case langGo:
		f.pkg = w.pkgs[0]
		f.auto = true
		f.noOut = zsim.GenBool(1, 3)
		if f.noOut {
			f.out = path.Join(d, "c0")
			for _, g := range w.fs {
				f.noOut = f.noOut && g.out != f.out
			}
			if !f.noOut {
				f.out = path.Join(d, sname("out", f.id))
			}
		}
	case langProto:
		if w.api && f.rel && zsim.GenBool(1, 2) {
			f.protos = []string{"/proj/y0.proto"} // (protoc looks in the current directory by default)
			return
		}
		f.incs = []string{"/proj/p", "/proj/q"}
		if zsim.GenBool(1, 3) {
			f.incs = []string{"/proj/q", "/proj/p"}
		}
		for k := 1 + zsim.Gen(2); k > 0; k-- {
			p := w.langs.protos[zsim.Gen(len(w.langs.protos))]
			if n := path.Join(p.dir, p.name); !contains(f.protos, n) {
				f.protos = append(f.protos, n)
			}
		}
	case langTS:
		f.pkg = w.pkgs[zsim.Gen(len(w.pkgs))]
	}
}

func (w *cfworld) drawInputs(f *cfile) {
	kinds := []int{zsim.Gen(6)}
	if zsim.GenBool(1, 4) {
		kinds = append(kinds, zsim.Gen(6))
	}
	d := path.Join("/proj", f.dir)
	for _, k := range kinds {
		switch {
		case k == 1 && w.langOdds > 0:
			f.rec, f.tests = zsim.GenBool(1, 2), zsim.GenBool(1, 2)
			f.godir = w.pkgs[zsim.Gen(len(w.pkgs))].dir
			if f.rec {
				f.godir = pick("/proj/m", f.godir, path.Dir(f.godir))
			}
		case k == 2 && w.langOdds > 0:
			p := w.langs.protos[zsim.Gen(len(w.langs.protos))]
			f.pdep = path.Join(p.dir, p.name)
			f.incs = []string{"/proj/p", "/proj/q"}
			if zsim.GenBool(1, 3) {
				f.incs = []string{"/proj/q", "/proj/p"}
			}
			if zsim.GenBool(1, 4) {
				f.incs = f.incs[:1]
			}
		case k == 3:
			f.glob = pick("s*.c", "s[01].c", "*.c")
		default:
			for k := 0; k < 3; k++ {
				if n := path.Join(d, sname("s", k)+".c"); zsim.GenBool(1, 3) && !contains(f.srcs, n) {
					f.srcs = append(f.srcs, n)
				}
			}
			for _, p := range w.fs {
				if zsim.GenBool(1, 3) {
					f.prods = append(f.prods, p)
				}
			}
		}
	}
	if len(f.srcs)+len(f.prods) == 0 && f.glob+f.godir+f.pdep == "" {
		f.srcs = []string{path.Join(d, "s0.c")}
	}
}

func (w *cfworld) draw() {
	n := 1 + zsim.Gen(5)
	sub := zsim.GenBool(1, 3)
	if w.langOdds > 0 {
		w.langs = drawLangs(w.api)
	}
	for i := 0; i < n; i++ {
		f := &cfile{id: i, spec: zsim.Gen(3), form: zsim.Gen(3), auto: zsim.GenBool(1, 3), rel: w.api && zsim.GenBool(1, 2)}
		if sub && zsim.GenBool(1, 2) {
			f.dir = "sub"
		}
		d := path.Join("/proj", f.dir)
		f.out = path.Join(d, sname("out", i))
		if w.langOdds > 0 && zsim.GenBool(w.langOdds, 6) {
			w.drawLang(f)
		} else {
			w.drawInputs(f)
		}
		w.fs = append(w.fs, f)
	}
	w.groups = map[string][]*cfile{"A0": append([]*cfile(nil), w.fs...)} // (refers to everything, so that everything is read)
	if n > 1 {
		w.groups["A1"] = []*cfile{w.fs[zsim.Gen(n)], w.fs[zsim.Gen(n)]}
		w.groups["D1"] = []*cfile{w.fs[zsim.Gen(n)], w.fs[zsim.Gen(n)]}
		if w.groups["D1"][0] == w.groups["D1"][1] {
			delete(w.groups, "D1")
		}
	}
	for _, f := range w.fs {
		if zsim.GenBool(1, 4) {
			w.clean = append(w.clean, f.out)
		}
	}
	if zsim.GenBool(1, 3) {
		w.clean = append(w.clean, "/proj/junk")
	}
	w.cauto = zsim.GenBool(1, 2)
	for _, d := range []string{"", "sub"} {
		for k := 0; k < 3; k++ {
			zsim.Disk.Put(path.Join("/proj", d, sname("s", k)+".c"), sname("v", zsim.Gen(2)))
		}
	}
	zsim.Disk.Put("/proj/junk", "junk")
	zsim.Disk.Put("/proj/keep", "keep")
}

// change is something the user does between invocations.
func (w *cfworld) change(faults bool) {
	f := w.fs[zsim.Gen(len(w.fs))]
	d := path.Join("/proj", pick("", f.dir))
	if len(zsim.Disk.Deny) > 0 && zsim.GenBool(1, 3) {
		for n := range zsim.Disk.Deny { // (there is one)
			if w.langs != nil {
				w.langs.edit(n)
			}
		}
		return
	}
	if faults && zsim.GenBool(1, 5) {
		if len(zsim.Disk.Deny) > 0 {
			zsim.Log("everything is readable again")
			zsim.Disk.Deny = nil
			return
		}
		n := pick(d, d, path.Join(d, "s0.c"), f.out, path.Join(d, "fab.yaml"))
		if w.langs != nil && zsim.GenBool(2, 3) {
			if ps := w.langs.protos; zsim.GenBool(2, 3) {
				n = path.Join(ps[zsim.Gen(len(ps))].dir, ps[zsim.Gen(len(ps))].name)
			} else {
				p := w.pkgs[zsim.Gen(len(w.pkgs))]
				n = pick(p.dir, path.Join(p.dir, p.files[0].name), path.Join(p.dir, "t0.txt"), path.Join(p.dir, "static"))
			}
		}
		zsim.Log("%s becomes unreadable", n)
		zsim.Disk.Deny = map[string]string{n: pick("deny-eacces", "deny-eio")}
		return
	}
	if w.langs != nil && zsim.GenBool(2, 3) {
		w.langs.change()
		return
	}
	switch zsim.Gen(9) {
	case 0, 1, 2:
		n, v := path.Join(d, sname("s", zsim.Gen(3))+".c"), sname("v", zsim.Gen(3))
		zsim.Log("the user writes %s to %s", v, n)
		zsim.Disk.Put(n, v)
	case 3:
		n := path.Join(d, pick("s3.c", "x.c"))
		if zsim.Disk.Exists(n) {
			zsim.Log("the user deletes %s", n)
			zsim.Disk.Del(n)
		} else {
			zsim.Log("the user creates %s", n)
			zsim.Disk.Put(n, sname("v", zsim.Gen(2)))
		}
	case 4:
		if zsim.Disk.Exists(f.out) {
			zsim.Log("the user deletes %s", f.out)
			zsim.Disk.Del(f.out)
		}
	case 5:
		zsim.Log("the user overwrites %s", f.out)
		zsim.Disk.Put(f.out, pick("tampered", ""))
	case 6:
		f.spec = zsim.Gen(3)
		zsim.Log("the user changes the specification of %s to %d", f.name(), f.spec)
		w.writeYAML()
	case 7:
		f.fails = zsim.Gen(3)
		zsim.Log("tool %s now fails in way %d", f.name(), f.fails)
	case 8:
		dt := int64(pick(3600, 20*86400, 31*86400)) * 1e9
		w.jumped += dt
		zsim.AdvanceWall(dt)
		zsim.CountFault("clock-jump")
	}
}

const keepTime = 30 * 86400 * int64(1e9)

func (w *cfworld) status(k string) (*crec, int) {
	r := w.recs[k]
	if r == nil {
		r = &crec{}
		w.recs[k] = r
	}
	if r.state == recYes && w.now()-r.at > keepTime-3600e9 {
		return r, recMaybe
	}
	return r, r.state
}

func filesHistory(id string, crashes, faults bool) func() {
	return func() {
		w := &cfworld{cliworld: newCliWorld(), recs: map[string]*crec{}}
		switch id {
		case "P23":
			w.langOdds = 5
		case "P06", "P07", "P22":
			w.langOdds = pick(0, 2)
		default:
			w.langOdds = pick(0, 0, 2)
		}
		zsim.Disk.MkDirs("/proj")
		w.api = zsim.GenBool(1, 3)
		w.draw()
		w.writeYAML()
		if w.api {
			w.main = w.apiMain
			zsim.Disk.Del("/proj/fab.yaml")
		} else if w.goPkg = zsim.GenBool(1, 3); w.goPkg {
			w.goProject()
		}
		zsim.FindProgram = func(p string) (zsim.Program, bool) {
			switch p {
			case "/bin/t":
				return w.tool, true
			case "/bin/protoc":
				return w.protoc, true
			case "/bin/go":
				return func(c *zsim.Child) int {
					if len(c.Args) > 2 && strings.HasPrefix(absIn(c.Proc.Cwd, c.Args[2]), "/proj/m") {
						return w.goTool(c)
					}
					return w.goProgram(c)
				}, true
			}
			return w.findProgram(p)
		}
		tsdecls.OnWrite = w.tsDecls
		w.cliFaults()
		zsim.Disk.CloseLoses = true
		if outs := zsim.GenBool(1, 2); zsim.GenBool(2, 3) { // only on the files that targets are made of, and perhaps from
			zsim.SetFaults(zsim.FaultPlan{Num: 1, Den: pick(3, 10, 40), Max: 1 + zsim.Gen(3), Kinds: kindSet(cliFaultKinds)}, false)
			zsim.Disk.FaultPath = func(op, name string) bool {
				for _, f := range w.fs {
					if name == f.out {
						return true
					}
				}
				return !outs && strings.HasPrefix(name, "/proj/") && !strings.HasSuffix(name, ".yaml") && !strings.Contains(name, "/_fab/")
			}
		}
		var flags, req []string
		for n := 2 + zsim.Gen(5); n > 0; n-- {
			for zsim.GenBool(1, 2) {
				w.change(faults)
			}
			inv := &invocation{cwd: pick("/proj", "/proj", "/proj/x")}
			if w.api {
				inv.cwd = "/proj"
			}
			inv.denied = len(zsim.Disk.Deny) > 0
			inv.fault = inv.denied
			zsim.Disk.MkDirs("/proj/x")
			if flags == nil || !zsim.GenBool(1, 3) { // or what the user ran last time
				flags, req = w.request()
			}
			inv.args = append(append(inv.args, flags...), req...)
			has := map[string]bool{}
			for _, fl := range flags {
				has[fl] = true
			}
			roots, clean := w.roots(req)
			if n > 1 || zsim.GenBool(1, 2) {
				switch zsim.Gen(4) {
				case 0:
					if crashes {
						inv.crash, inv.tree = 1+zsim.Gen(pick(60, 600, 3000)), zsim.GenBool(1, 2)
					}
				case 1:
					inv.faults = faults
				case 2:
					inv.faults = faults && !crashes
				}
			}
			w.round(inv, roots, clean, has["-f"], has["-n"], has["-list"])
		}
	}
}

// request draws what the user asks for next.
func (w *cfworld) request() (flags, req []string) {
	flags = []string{}
	for _, fl := range []string{"-v", "-f", "-n", "-list"} {
		den := 5
		if fl == "-list" {
			den = 20
		}
		if zsim.GenBool(1, den) {
			flags = append(flags, fl)
		}
	}
	if zsim.GenBool(1, 8) {
		return flags, []string{"K"}
	}
	var gs []string
	for g := range w.groups {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for k := 1 + zsim.Gen(2); k > 0; k-- {
		if zsim.GenBool(1, 2) {
			req = append(req, gs[zsim.Gen(len(gs))])
		} else {
			req = append(req, w.fs[zsim.Gen(len(w.fs))].qname())
		}
	}
	return flags, req
}

// roots are the Files targets that a request asks for directly.
func (w *cfworld) roots(req []string) (roots []*cfile, clean bool) {
	for _, r := range req {
		if r == "K" {
			clean = true
			continue
		}
		if g, ok := w.groups[r]; ok {
			if r[0] == 'D' {
				// the main target only if its dependency succeeds
				roots = append(roots, g[1])
				if w.succeeds(g[1]) {
					roots = append(roots, g[0])
				}
			} else {
				roots = append(roots, g...)
			}
			continue
		}
		for _, f := range w.fs {
			if f.qname() == r {
				roots = append(roots, f)
				break
			}
		}
	}
	return roots, clean
}

// succeeds tells whether all that f needs can be built.
func (w *cfworld) succeeds(f *cfile) bool {
	for _, p := range f.prods {
		if !w.succeeds(p) {
			return false
		}
	}
	if f.fails == 0 {
		return true
	}
	// it may be up to date
	return false
}

func (w *cfworld) round(inv *invocation, roots []*cfile, clean, force, dry, list bool) {
	before := zsim.Disk.Tree("/proj")
	view := map[string]string{}
	for _, f := range w.fs {
		f.execs, f.ended = 0, 0
		view[f.out] = diskGet(f.out)
	}
	get := func(n string) string {
		if v, ok := view[n]; ok {
			return v
		}
		return diskGet(n)
	}
	visited := map[*cfile]bool{}
	var visit func(f *cfile)
	visit = func(f *cfile) {
		if !visited[f] {
			visited[f] = true
			for _, p := range f.prods {
				visit(p)
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	hasD := false
	for _, a := range inv.args {
		hasD = hasD || strings.HasPrefix(a, "D")
	}
	anyFails := false
	for _, f := range w.fs {
		anyFails = anyFails || f.fails != 0
	}
	// whether a target that fails when executed is executed at all decides whether a Deps target goes on
	uncertain := hasD && anyFails

	w.invoke(inv)
	desc := func() string {
		var ran []string
		for n := range inv.execs {
			ran = append(ran, n)
		}
		sort.Strings(ran)
		return fmt.Sprintf("(invocation %d, fab %q, driver %v, exit status %d, executed %v, output %.400q)", inv.n, inv.args, w.goPkg, inv.exit, ran, inv.p.Stdout.(*zsim.Sink).Data)
	}
	after := zsim.Disk.Tree("/proj")
	if list || dry {
		for _, f := range w.fs {
			if f.execs > 0 {
				viol("P14 P22 P23", "ran", "%s was executed in a dry run %s", f.name(), desc())
			}
		}
		for n, c := range after {
			if b, ok := before[n]; !ok || b != c {
				viol("P14 P23", "changed", "a dry run changed %s %s", n, desc())
			}
		}
		for n := range before {
			if _, ok := after[n]; !ok {
				viol("P14 P13", "removed", "a dry run removed %s %s", n, desc())
			}
		}
		if !inv.killed && !inv.fault && inv.exit != 0 && !list {
			viol("P14 P22 P23", "failed", "a dry run failed although nothing went wrong %s", desc())
		}
		for f := range visited {
			r, _ := w.status(w.key(f, diskGet))
			r.dry = true
		}
		return
	}
	disturbed := inv.killed || inv.fault
	if clean {
		for _, f := range w.fs {
			if f.execs > 0 {
				viol("P22", "not-requested", "%s was executed, but only cleaning was asked for %s", f.name(), desc())
			}
		}
		gone := map[string]bool{}
		for _, n := range w.clean {
			gone[n] = true
		}
		for _, f := range w.fs {
			if w.cauto && f.auto {
				gone[f.out] = true
			}
		}
		for n := range before {
			if _, ok := after[n]; !ok && !gone[n] {
				viol("P13 P23", "removed-other", "cleaning removed %s %s", n, desc())
			} else if ok && gone[n] && inv.exit == 0 && !disturbed {
				viol("P13 P23", "not-removed", "cleaning left %s %s", n, desc())
			}
		}
		if !disturbed && inv.exit != 0 {
			viol("P13 P22 P23", "failed", "cleaning failed although nothing went wrong %s", desc())
		}
		return
	}

	// evaluate in order of dependency
	failed := map[*cfile]bool{}
	anyFailed := false
	crashed := disturbed
	for _, f := range w.fs {
		if !visited[f] {
			if f.execs > 0 && !uncertain {
				viol("P22", "not-requested", "%s was executed but not asked for %s", f.name(), desc())
			}
			if f.execs > 0 {
				crashed = true // (its state is taken from what happened)
			}
			continue
		}
		if f.execs > 1 {
			viol("P22 P21", "ran-twice", "%s was executed %d times %s", f.name(), f.execs, desc())
		}
		if disturbed || uncertain {
			continue
		}
		bad := false
		for _, p := range f.prods {
			bad = bad || failed[p]
		}
		if bad {
			failed[f], anyFailed = true, true
			if f.execs > 0 {
				viol("P22 P09", "producer-failed", "%s was executed although another target that makes its input failed %s", f.name(), desc())
			}
			continue
		}
		k := w.key(f, get)
		r, st := w.status(k)
		switch {
		case force:
			if f.execs != 1 {
				viol("P21 P23", "not-forced", "%s was not executed although building was forced %s", f.name(), desc())
			}
		case st == recNo && f.execs == 0:
			props := "P06 P23"
			if r.dry {
				props = "P06 P14 P23"
			}
			viol(props, "skipped-unrecorded", "%s was not executed although its specification, inputs and output never were like this after a successful build %s", f.name(), desc())
		case st == recYes && f.execs == 1:
			props := "P07 P23"
			if r.force {
				props = "P07 P21 P23"
			}
			viol(props, "rebuilt", "%s was executed although specification, inputs and output are as they were after a successful build %s", f.name(), desc())
		}
		if f.execs == 0 {
			r.state, r.at = recYes, w.now()
			continue
		}
		if f.fails != 0 {
			failed[f], anyFailed = true, true
			if f.fails == 1 {
				view[f.out] = "=partial"
			} else if f.lang == langTS {
				view[f.out] = "=" // (created by the target itself)
			}
			continue
		}
		view[f.out] = "=" + w.product(f, f.spec, get)
		r, _ = w.status(w.key(f, get))
		r.state, r.at, r.force, r.dry = recYes, w.now(), force, false
	}
	if disturbed || uncertain || crashed {
		for _, f := range w.fs {
			// what was completed may have been recorded; what was looked up may have been prolonged
			r, _ := w.status(w.key(f, diskGet))
			if f.ended > 0 && r.state == recNo {
				r.state = recMaybe
			} else if r.state == recYes && w.now()-r.at > keepTime/2 {
				r.state = recMaybe
			}
		}
		if disturbed || uncertain {
			for _, r := range w.recs { // (expiry may have been prolonged or not)
				if r.state == recYes && w.now()-r.at > keepTime/2 {
					r.state = recMaybe
				}
			}
		}
		if inv.killed {
			return
		}
		if inv.exit == 0 && !hasD {
			for _, f := range w.fs {
				if visited[f] && f.execs > 0 && f.fails != 0 {
					viol("P22 P08", "failure-hidden", "fab reports success although %s failed %s", f.name(), desc())
				}
			}
		}
		if inv.exit != 0 {
			if !inv.fault && !anyFails {
				viol("P22 P23", "failed", "fab reports an error although nothing went wrong %s", desc())
			}
			return
		}
	} else if anyFailed != (inv.exit != 0) {
		if anyFailed {
			viol("P22 P08", "failure-hidden", "fab reports success although a target failed %s", desc())
		} else {
			viol("P22 P23", "failed", "fab reports an error although nothing went wrong %s", desc())
		}
	}
	if inv.exit == 0 {
		for _, f := range w.fs {
			if visited[f] && diskGet(f.out) != "="+w.product(f, f.spec, diskGet) {
				viol("P06 P09 P10 P23", "wrong-output", "fab reports success but the output of %s is not made from its current inputs %s", f.name(), desc())
			}
		}
	}
}

// registerFiles adds this world to the checks of the properties it can decide.
func registerFiles() {
	add := func(id string, weight int, crashes, faults bool) {
		c := checks[id]
		c.scenarios = append(c.scenarios, scenario{name: "command-line", weight: weight, maxSteps: 2000000, fn: forProp(id, filesHistory(id, crashes, faults)), post: only()})
		c.real = append(c.real[:len(c.real):len(c.real)], "scenario command-line: cmd/fab, main.go, the generated driver's main function, the YAML reader, and SQLite as hash database")
		c.stub = append(c.stub[:len(c.stub):len(c.stub)], "scenario command-line: go program, go list and the compiled Go rules")
		c.rule += " The scenario command-line builds YAML-defined Files targets with the real fab command, with or without a driver, in one process after another with flags, edits, crashes, faults and clock jumps, and compares what is executed with a model of what the hash database must know."
	}
	f := func(name string, weight int, crashes, faults bool) scenario {
		return scenario{name: name, weight: weight, maxSteps: 2000000, fn: forProp("P23", filesHistory("P23", crashes, faults)), post: only()}
	}
	register(&check{id: "P23", scenarios: []scenario{
		f("histories", 3, false, false),
		f("crashes", 1, true, false),
		f("faults", 2, false, true),
	},
		real:   append([]string{"golang/go.go, proto/proto.go, ts/tsdecls.go: the code of /repo, compiled from the working tree"}, cliReal...),
		stub:   append([]string{"go build, protoc and tsdecls.Write: simulated ones that find the files they read in the simulation's own model of the sources"}, cliStub...),
		assume: []string{"HOME is set", "invocations do not overlap", "the sources do not change while fab runs"},
		rule:   "Each run draws a Go module (packages that import one another, embedded files, assembly files, test files, files excluded by build constraints) and protocol buffers in two include directories (imports in every legal spelling, files in both directories), and YAML files that define go.Binary, proto.Proto, ts.Decls, Files, All, Deps and Clean targets in two directories; then a history of edits of any of the sources, of the specifications and of the outputs, and of invocations of fab with flags, crashes, faults and clock jumps. What is executed, with which arguments, and every output after a success are compared with a model that knows which files each tool reads."})
	add("P06", 2, true, true)
	add("P07", 2, false, false)
	add("P08", 2, true, true)
	add("P09", 1, false, false)
	add("P10", 2, false, true)
	add("P13", 1, false, true)
	add("P14", 2, true, false)
	add("P21", 2, true, false)
	add("P22", 2, true, true)
}
