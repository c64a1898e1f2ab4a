//go:build go1.22

package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/bobg/fab/zsim"
)

// Invocations of the fab command on projects that are complete, incomplete or damaged in various
// ways (P22).

type ytarget struct {
	id     int
	dir    int // index into ydirs
	kind   int // 0 command, 1 Seq, 2 All, 3 alias, 4 Deps, 5 Go rule
	bad    bool
	stdin  bool
	doc    int  // index into ydocs
	bulky  bool // its definition is long
	prefix string
	suffix string
	refs   []int
	spell  []int // how each is written
	broken string
}

// ydocs are texts about targets, for which any text is as good as another.
var ydocs = []string{
	"", "", "", "",
	" It does 100% of the work, %d and %s.",
	" It says \"hello\\n\", `$HOME` & 'that': # or not?",
	" Größe ✓.",
	"\nIt has a second line.",
	"\nIt has a second line, 50%\tof three.\nIt has a third line.",
}

// docLines is what is written about a target in a YAML file, line by line.
func (t *ytarget) docLines() []string {
	return strings.Split(sname("Target number ", t.id)+"."+ydocs[t.doc], "\n")
}

var ydirs = []string{"", "sub", "sub/deep", "other"}

type yfile struct {
	exists bool
	yml    bool
	damage string // "" or what is wrong with it
	form   int    // index into illFormed
}

// illFormed are definitions that fab cannot accept: values of the wrong kind, and unknown types of values, at
// every place where something is expected. (What fails already in the search for the top directory comes last.)
var illFormed = []string{
	"oops: !All\n  a: b\n", "oops: !All x\n", "oops: !Seq x\n", "oops: !Seq [[x]]\n", "oops: !All [{a: b}]\n",
	"oops: !Deps x\n", "oops: !Deps []\n", "oops: !Deps [!NoSuch x]\n", "oops: !Deps\n  Pre: [!NoSuch x]\n  Post: !Seq []\n", "oops: !Deps\n  Pre: []\n  Post: !NoSuch x\n",
	"oops: !ArgTarget x\n", "oops: !ArgTarget []\n", "oops: !ArgTarget [!NoSuch x, y]\n", "oops: !ArgTarget [!Seq [], {a: b}]\n", "oops: !ArgTarget [!Seq [], !NoSuch x]\n",
	"oops: !Files [x]\n", "oops: !Files\n  Target: !NoSuch x\n  In: [a]\n  Out: [b]\n", "oops: !Files\n  Target: !Seq []\n  In: a\n  Out: [b]\n",
	"oops: !Files\n  Target: !Seq []\n  In: !NoSuch [a]\n  Out: [b]\n", "oops: !Files\n  Target: !Seq []\n  In: [a]\n  Out: !NoSuch [b]\n",
	"oops: !Files\n  Target: !Seq []\n  In: [a, !NoSuch [a]]\n  Out: [b]\n", "oops: !Files\n  Target: !Seq []\n  In: [a]\n  Out: [{a: b}]\n", "oops: !Files\n  Target: !Seq []\n  In: !Glob a\n  Out: [b]\n",
	"oops: !Files\n  Target: !Seq []\n  In: !Glob [{a: b}]\n  Out: [b]\n", "oops: !Files\n  Target: !Seq []\n  In: [a]\n  Out: [b]\n  Autoclean: [x]\n",
	"oops: !Clean x\n", "oops: !Clean [a, !NoSuch [b]]\n", "oops: !Clean [{a: b}]\n", "oops: !Clean\n  Files: a\n", "oops: !Clean\n  Files: [a]\n  Autoclean: [x]\n",
	"oops: !Command [x]\n", "oops: !Command x\n", "oops: !Command\n  Shell: x\n  Args: y\n", "oops: !Command\n  Cmd: x\n  Args: [!NoSuch y]\n", "oops: !Command\n  Cmd: x\n  Args: [{a: b}]\n", "oops: !Command\n  Cmd: [x]\n", "oops: !Command\n  Cmd: x\n  Env: y\n",
	"_dir: [x]\n", "? [a, b]\n: !Seq []\n",
}

const illFormedTop = 2 // the last so many

func (f yfile) badTop() bool {
	return f.damage == "ill-formed" && f.form >= len(illFormed)-illFormedTop
}

type yproject struct {
	ts    []*ytarget
	files [4]yfile
	goPkg bool
	goBad string
}

func (y *yproject) name(t *ytarget) string {
	if t.kind == 5 {
		return ruleNames[t.id]
	}
	return t.prefix + sname("t", t.id) + t.suffix
}

func (y *yproject) qname(t *ytarget) string { return path.Join(ydirs[t.dir], y.name(t)) }

// relYDir is the path from directory a to directory b.
func relYDir(a, b string) string {
	if a == "" {
		return b
	}
	up := strings.Repeat("../", strings.Count(a, "/")+1)
	return strings.TrimSuffix(up+b, "/")
}

// ref writes a reference to t from a YAML file in directory d.
func (y *yproject) ref(d int, t *ytarget, spell int) string {
	if t.dir == 0 {
		if d != 0 && spell == 1 {
			return relYDir(ydirs[d], "") + "/" + y.name(t)
		}
		if spell == 2 && d == 0 {
			return "./" + y.name(t)
		}
		if spell == 2 {
			return relYDir(ydirs[d], "") + "/./" + y.name(t)
		}
		return y.name(t)
	}
	if t.dir == d {
		return "./" + y.name(t)
	}
	if spell == 1 && d == 0 {
		return "./" + y.qname(t)
	}
	return relYDir(ydirs[d], ydirs[t.dir]) + "/" + y.name(t)
}

// needsFile tells whether reading that reference makes fab read the file in the target's directory.
func needsFile(t *ytarget) bool { return t.dir != 0 }

func drawProject(goPkg bool) *yproject {
	y := &yproject{goPkg: goPkg}
	if goPkg {
		for i := range ruleNames {
			y.ts = append(y.ts, &ytarget{id: i, kind: 5, bad: zsim.GenBool(1, 8)})
		}
	}
	n := 2 + zsim.Gen(7)
	nd := 1 + zsim.Gen(4)
	wide := zsim.GenBool(1, 50)
	if wide {
		n = 50 + zsim.Gen(80)
		zsim.AllowSteps(int64(n) * 20000)
		zsim.Probe("a project with many targets")
	}
	for i := 0; i < n; i++ {
		t := &ytarget{id: len(y.ts), dir: zsim.Gen(nd)}
		if curProp == "P25" {
			t.doc = zsim.Gen(len(ydocs))
		}
		if zsim.GenBool(1, 6) {
			t.prefix = pick("_", ".", "~", "Z", "é")
		}
		if zsim.GenBool(1, 12) {
			t.suffix = pick("-x", ".go", "_", "(1)", "=")
		}
		if i > 0 {
			t.kind = pick(0, 0, 1, 2, 3, 4)
			if wide && zsim.GenBool(4, 5) {
				t.kind = 0
			}
		}
		switch t.kind {
		case 0:
			t.bad = zsim.GenBool(1, pick(8, n))
			t.bulky = zsim.GenBool(1, 100)
			t.stdin = zsim.GenBool(1, 8)
		case 3:
			t.refs = []int{zsim.Gen(len(y.ts))}
		default:
			for k := zsim.Gen(4); k > 0; k-- {
				t.refs = append(t.refs, zsim.Gen(len(y.ts)))
			}
			if t.kind == 4 && len(t.refs) == 0 {
				t.refs = []int{zsim.Gen(len(y.ts))}
			}
		}
		for range t.refs {
			t.spell = append(t.spell, zsim.Gen(3))
		}
		y.ts = append(y.ts, t)
	}
	for d := 0; d < nd; d++ {
		y.files[d] = yfile{exists: d == 0, yml: zsim.GenBool(1, 6)}
	}
	for _, t := range y.ts {
		if t.kind != 5 {
			y.files[t.dir].exists = true
		}
	}
	return y
}

func (y *yproject) filename(d int) string {
	n := "fab.yaml"
	if y.files[d].yml {
		n = "fab.yml"
	}
	return path.Join("/proj", ydirs[d], n)
}

func (y *yproject) text(d int) string {
	var b strings.Builder
	if d != 0 && y.files[d].damage != "no-dir" {
		dir := ydirs[d]
		if y.files[d].damage == "wrong-dir" {
			dir = "elsewhere"
		}
		fmt.Fprintf(&b, "_dir: %s\n\n", dir)
	}
	extra := func() {
		switch y.files[d].damage {
		case "unclosed":
			b.WriteString("oops: [unclosed\n")
		case "unknown-tag":
			b.WriteString("oops: !NoSuchType\n  - x\n")
		case "untyped":
			b.WriteString("oops:\n  a: b\n")
		case "bad-kind":
			b.WriteString("oops: !Seq\n  a: b\n")
		case "ill-formed":
			b.WriteString(illFormed[y.files[d].form])
		case "slash":
			b.WriteString("oo/ps: !Seq []\n")
		case "no-such-target":
			fmt.Fprintf(&b, "oops: !Seq [%s/nothing]\n", relYDir(ydirs[d], ydirs[3]))
		case "no-such-file":
			fmt.Fprintf(&b, "oops: !Seq [nowhere/x]\n")
		}
	}
	if y.files[d].damage == "list" {
		return "- a\n- b\n"
	}
	if y.files[d].damage == "empty" {
		return ""
	}
	early := len(y.ts)%2 == 0
	if early {
		extra()
	}
	for _, t := range y.ts {
		if t.dir != d || t.kind == 5 {
			continue
		}
		var refs []string
		for i, r := range t.refs {
			refs = append(refs, y.ref(d, y.ts[r], t.spell[i]))
		}
		l := "[" + strings.Join(refs, ", ") + "]"
		fmt.Fprintf(&b, "# %s\n%s: ", strings.Join(t.docLines(), "\n# "), y.name(t))
		switch t.kind {
		case 0:
			fmt.Fprintf(&b, "!Command\n  Cmd: t\n  Args: [%s%s]\n", y.name(t), map[bool]string{true: ", stdin"}[t.stdin])
			if t.bulky {
				fmt.Fprintf(&b, "  Env: [\"BULK=%s\"]\n", strings.Repeat("bulk", 20000))
			}
			if t.stdin {
				b.WriteString("  Stdin: $stdin\n")
			}
		case 1:
			fmt.Fprintf(&b, "!Seq %s\n", l)
		case 2:
			fmt.Fprintf(&b, "!All %s\n", l)
		case 3:
			fmt.Fprintf(&b, "%s\n", refs[0])
		case 4:
			fmt.Fprintf(&b, "!Deps %s\n", l)
		}
	}
	if !early {
		extra()
	}
	s := b.String()
	if s == "" {
		s = "{}\n"
	}
	return s
}

// loaded tells which YAML files fab has to read, given that it reads the one in the top directory,
// and whether all of them are all right.
func (y *yproject) loaded() (dirs [4]bool, ok bool) {
	ok = true
	var visit func(d int)
	visit = func(d int) {
		if dirs[d] {
			return
		}
		dirs[d] = true
		f := y.files[d]
		if !f.exists {
			if d != 0 {
				ok = false
			}
			return
		}
		if f.damage != "" {
			ok = false
		}
		for _, t := range y.ts {
			if t.dir == d && t.kind != 5 {
				for _, r := range t.refs {
					if needsFile(y.ts[r]) {
						visit(y.ts[r].dir)
					}
				}
			}
		}
	}
	visit(0)
	return
}

func (y *yproject) write(w *cliworld) {
	for d := range ydirs {
		if y.files[d].exists {
			zsim.Disk.Put(y.filename(d), y.text(d))
		}
	}
	for _, t := range y.ts {
		if t.kind == 0 && t.bad {
			w.leafBad[y.name(t)] = true
		}
	}
	zsim.Disk.MkDirs("/proj/sub/deep")
	if !y.goPkg {
		return
	}
	zsim.Disk.Put("/proj/go.mod", "module example.com/proj\n\ngo 1.20\n")
	w.drawStyle()
	fail := func(i int) string { return map[bool]string{true: " fail"}[y.ts[i].bad] }
	f := func(i int) string {
		return fmt.Sprintf("// %s is a rule.\nvar %s = fab.F(nil) // v0%s\n", ruleNames[i], ruleNames[i], fail(i))
	}
	head := "package rules\n\nimport \"github.com/bobg/fab\"\n\n"
	zsim.Disk.Put(path.Join(fabPkgdir, "a.go"), alphaSrc("// v0"+fail(0)))
	zsim.Disk.Put(path.Join(fabPkgdir, "b.go"), strings.ReplaceAll(strings.ReplaceAll(head+f(1)+"\n"+f(2), "Beta is a rule", "Beta is the second"), "Gamma is a rule", "Gamma is the third"))
	switch y.goBad {
	case "syntax":
		zsim.Disk.Put(path.Join(fabPkgdir, "z.go"), "package rules\n\nfunc {\n")
	case "compile":
		zsim.Disk.Put(path.Join(fabPkgdir, "z.go"), "package rules\n\nvar z = 1 // COMPILE ERROR\n")
	case "packages":
		zsim.Disk.Put(path.Join(fabPkgdir, "z.go"), "package other\n")
	case "no-module":
		zsim.Disk.Del("/proj/go.mod")
	}
}

// closure is the set of leaves that the given targets need.
func (y *yproject) closure(roots []*ytarget) (names map[string]bool, fails bool) {
	names = map[string]bool{}
	seen := map[int]bool{}
	var rec func(t *ytarget)
	rec = func(t *ytarget) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.kind == 0 || t.kind == 5 {
			names[y.name(t)] = true
			fails = fails || t.bad
		}
		for _, r := range t.refs {
			rec(y.ts[r])
		}
	}
	for _, t := range roots {
		rec(t)
	}
	return
}

// executed is the set of leaves that running the given targets executes: like closure, but without those that
// come after a failure in a sequence or depend on it.
func (y *yproject) executed(roots []*ytarget) map[string]bool {
	names := map[string]bool{}
	done := map[int]bool{} // by target: whether it succeeds
	var rec func(t *ytarget) bool
	rec = func(t *ytarget) bool {
		if ok, seen := done[t.id]; seen {
			return ok
		}
		ok := true
		refs := t.refs
		switch t.kind {
		case 0, 5:
			names[y.name(t)] = true
			ok = !t.bad
		case 4: // the first is the main target
			if len(refs) == 0 {
				break
			}
			for _, r := range refs[1:] {
				if !rec(y.ts[r]) {
					ok = false
				}
			}
			ok = ok && rec(y.ts[refs[0]])
		default:
			for _, r := range refs {
				if !rec(y.ts[r]) {
					ok = false
					if t.kind == 1 {
						break
					}
				}
			}
		}
		done[t.id] = ok
		return ok
	}
	for _, t := range roots {
		rec(t)
	}
	return names
}

type invokeOpt struct {
	damage, faults, history bool
	listing                 bool // mostly listings
	verbose                 bool // mostly verbose
}

var yamlDamage = []string{"unclosed", "unknown-tag", "untyped", "bad-kind", "slash", "no-such-target", "no-such-file", "list", "empty", "no-dir", "wrong-dir", "unreadable", "unreadable", "ill-formed", "ill-formed", "ill-formed", "ill-formed"}

func invokeRun(o invokeOpt) func() {
	return func() {
		w := newCliWorld()
		y := drawProject(zsim.GenBool(1, 2))
		setupBad := ""
		envBad := ""
		if o.damage && zsim.GenBool(3, 4) {
			switch k := zsim.Gen(10); {
			case k < 5:
				d := zsim.Gen(len(ydirs))
				if y.files[d].exists {
					dm := yamlDamage[zsim.Gen(len(yamlDamage))]
					if d == 0 && (dm == "no-dir" || dm == "wrong-dir") || d != 0 && dm == "no-such-target" {
						dm = "unclosed" // (a file that is being read already may be referred to in advance)
					}
					y.files[d].damage = dm
					if dm == "ill-formed" {
						y.files[d].form = zsim.Gen(len(illFormed))
					}
				}
			case k == 5:
				y.files[zsim.Gen(len(ydirs))].exists = false
			case k == 6 && y.goPkg:
				y.goBad = pick("syntax", "compile", "packages", "no-module")
			case k == 7:
				envBad = pick("fabdir-file", "db-dir", "db-garbage")
			case k == 8 && y.goPkg:
				envBad = pick("no-go", "tool")
			case k == 9:
				envBad = "no-project"
			}
		}
		y.write(w)
		fabflag := ""
		switch zsim.Gen(4) {
		case 1:
			fabflag, w.fabdir = "/cache/f", "/cache/f"
		case 2:
			fabflag = "cache"
		}
		cwds := []string{"/proj", "/proj", "/proj/sub", "/proj/sub/deep"}
		cwd := cwds[zsim.Gen(len(cwds))]
		for d := range ydirs {
			if y.files[d].damage == "no-dir" {
				cwd = "/proj" // below, that directory would be taken for the top
			}
		}
		if fabflag == "cache" {
			w.fabdir = path.Join(cwd, "cache")
		}
		switch envBad {
		case "fabdir-file":
			zsim.Disk.Put(w.fabdir, "in the way")
		case "db-dir":
			zsim.Disk.MkDirs(path.Join(w.fabdir, "hash.db"))
		case "db-garbage":
			zsim.Disk.Put(path.Join(w.fabdir, "hash.db"), strings.Repeat("this is not a database. ", 100))
		case "no-go":
			zsim.FindProgram = func(p string) (zsim.Program, bool) {
				if p == "/bin/go" {
					return nil, false
				}
				return w.findProgram(p)
			}
		case "no-project":
			zsim.Disk.MkDirs("/elsewhere/x")
			cwd = "/elsewhere/x"
		}
		w.cliFaults()
		unreadable := false
		for d := range ydirs {
			if y.files[d].exists && y.files[d].damage == "unreadable" {
				unreadable = true
				zsim.Disk.Deny = map[string]string{y.filename(d): pick("deny-eacces", "deny-eio", zsim.BadSector)}
				if !o.faults {
					zsim.Disk.FaultPath = func(op, name string) bool { return false }
				}
			}
		}
		dirs, yamlOK := y.loaded()
		rounds := 1
		if o.history {
			rounds = 1 + zsim.Gen(3)
		}
		for r := 0; r < rounds; r++ {
			inv := &invocation{cwd: cwd, faults: o.faults, denied: unreadable}
			if envBad == "tool" {
				inv.tool, inv.toolHow = 1+zsim.Gen(3), zsim.Gen(3)
			}
			if fabflag != "" {
				inv.args = append(inv.args, "-fab", fabflag)
			}
			for _, f := range []string{"-v", "-f"} {
				if f == "-v" && o.verbose && zsim.GenBool(3, 4) || zsim.GenBool(1, 6) {
					inv.args = append(inv.args, f)
					inv.verbose = inv.verbose || f == "-v"
				}
			}
			dry := zsim.GenBool(1, 12)
			if dry {
				inv.args = append(inv.args, "-n")
			}
			if o.listing && zsim.GenBool(2, 3) || zsim.GenBool(1, 12) {
				inv.list = true
				inv.args = append(inv.args, "-list")
			}
			// what is requested
			var roots []*ytarget
			unknown := false
			nreq := pick(1, 1, 2, 3, 0)
			if len(y.ts) > 40 && zsim.GenBool(1, 2) {
				nreq = zsim.Gen(len(y.ts))
			}
			for i := 0; i < nreq; i++ {
				t := y.ts[zsim.Gen(len(y.ts))]
				n := y.qname(t)
				if zsim.GenBool(1, 10) {
					n = pick("nothing", "sub/nothing", n+"x", strings.ToLower(n)+".", "",
						n+" ", " "+n, n+"/", "./"+n, "sub/../"+n, "sub//"+n, strings.ToUpper(n), n[1:], n+"\n", n+","+n, "/proj/"+n)
				}
				known := false
				for _, u := range y.ts {
					if y.qname(u) == n && (u.kind == 5 || dirs[u.dir] && y.files[u.dir].exists) {
						known = true
						roots = append(roots, u)
					}
				}
				unknown = unknown || !known
				inv.args = append(inv.args, n)
				if i == 0 && zsim.GenBool(1, 12) {
					inv.args = append(inv.args, pick("-x", "-", "--", "-1"), "nothing")
					break
				}
			}
			w.invoke(inv)
			// is everything there that is needed?
			setup := yamlOK && y.goBad == "" && envBad == ""
			if y.goPkg {
				// the top directory is found by its _fab subdirectory, or by a YAML file on the way
				setup = setup && w.topOK(y, cwd)
			} else {
				setup = setup && w.topOK(y, cwd)
			}
			listed := inv.list || y.goPkg && nreq == 0
			if inv.list && (envBad == "db-dir" || envBad == "db-garbage" || envBad == "fabdir-file") {
				listed = false // whether listing needs the database is up to the implementation
			}
			if !dry {
				y.judgeMessages(inv)
			}
			y.judgeListing(inv, setup && !(unknown && !inv.list), listed, dirs)
			w.judgeInvocation(y, inv, roots, setup, unknown && !inv.list, listed, dry, setupBad+envBad+y.goBad)
		}
	}
}

// topOK tells whether the search for the top directory succeeds.
func (w *cliworld) topOK(y *yproject, cwd string) bool {
	for d := cwd; ; d = path.Dir(d) {
		if d == "/" {
			return false
		}
		if d == "/proj" && y.goPkg {
			return true
		}
		for i, yd := range ydirs {
			if path.Join("/proj", yd) != d || !y.files[i].exists {
				continue
			}
			if y.files[i].badTop() {
				return false
			}
			switch y.files[i].damage {
			case "unclosed", "list", "empty", "wrong-dir", "no-dir", "unreadable":
				return false // (without _dir it takes that directory for the top, and then finds fault with it or knows no targets)
			}
			return true
		}
	}
}

// judgeMessages compares the announcements of an invocation with what it executed.
func (y *yproject) judgeMessages(inv *invocation) {
	if inv.killed || inv.fault || inv.list {
		return
	}
	announced := map[string]int{}
	out := string(inv.p.Stdout.(*zsim.Sink).Data)
	for _, l := range strings.Split(out, "\n") {
		if text := strings.TrimLeft(l, " "); strings.HasPrefix(text, "Running ") {
			announced[text[8:]]++
		}
	}
	for _, t := range y.ts {
		if t.kind != 0 && t.kind != 5 {
			continue
		}
		// (what has several names may be announced under another one)
		names, same := 0, map[int]bool{t.id: true}
		for _, a := range y.ts {
			if a.kind == 3 && same[a.refs[0]] {
				same[a.id] = true
				names += announced[y.qname(a)]
			}
		}
		n, ran := announced[y.qname(t)], inv.execs[y.name(t)] > 0
		switch {
		case !inv.verbose && n+names > 0:
			viol("P24", "not-verbose", "%s was announced without -v (fab %q, %q)", y.qname(t), inv.args, out)
		case inv.verbose && ran && (n > 1 || n+names == 0):
			viol("P24", "not-announced", "%s was executed, and announced %d times (fab %q, %q)", y.qname(t), n, inv.args, out)
		case inv.verbose && !ran && n > 0:
			viol("P24", "announced-not-run", "%s was announced and not executed (fab %q, %q)", y.qname(t), inv.args, out)
		}
	}
}

// judgeListing looks at the output of an invocation that had to list the targets: they must all be there, once
// each and in order, with what is written about them, unless an error was reported.
func (y *yproject) judgeListing(inv *invocation, setup, listed bool, dirs [4]bool) {
	if inv.killed || inv.exit != 0 || !listed || !setup {
		return
	}
	all := map[string]*ytarget{}
	var want, got []string
	for _, t := range y.ts {
		n := y.qname(t)
		all[n] = t
		if t.kind == 5 || dirs[t.dir] && y.files[t.dir].exists {
			want = append(want, n)
		}
	}
	sort.Strings(want)
	out := string(inv.p.Stdout.(*zsim.Sink).Data)
	lines := strings.Split(out, "\n")
	for i, l := range lines {
		t := all[l]
		if t == nil {
			if l != "" && !strings.Contains(l, " ") {
				got = append(got, l)
			}
			continue
		}
		got = append(got, l)
		doc := t.docLines()
		if t.kind == 5 {
			doc = []string{y.name(t) + []string{" is the first.", " is the second.", " is the third."}[t.id]}
		}
		said := i+len(doc) < len(lines)
		for k := 0; said && k < len(doc); k++ {
			// (indented, so that it cannot be taken for a target)
			said = strings.TrimLeft(lines[i+1+k], " #") == doc[k] && lines[i+1+k][0] == ' '
		}
		if !said {
			viol("P25", "wrong-doc", "the listing of fab %q does not say of %s what is written about it (%q)", inv.args, l, out)
		}
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		viol("P25", "wrong-listing", "the listing of fab %q has the targets %q, not %q (%q)", inv.args, got, want, out)
	}
}

func (w *cliworld) judgeInvocation(y *yproject, inv *invocation, roots []*ytarget, setup, unknown, listed, dry bool, what string) {
	want, fails := y.closure(roots)
	var ran []string
	for n, k := range inv.execs {
		ran = append(ran, n)
		if k > 1 {
			viol("P22", "ran-twice", "target %s was executed %d times", n, k)
		}
	}
	sort.Strings(ran)
	desc := func() string {
		s := fmt.Sprintf("(fab %q in %s, exit status %d, executed %v, output %.600q", inv.args, inv.cwd, inv.exit, ran, inv.p.Stdout.(*zsim.Sink).Data)
		if what != "" {
			s += ", damage: " + what
		}
		for d := range ydirs {
			if y.files[d].damage != "" {
				s += fmt.Sprintf(", %s: %s", ydirs[d], y.files[d].damage)
				if y.files[d].damage == "ill-formed" {
					s += fmt.Sprintf(" %q", illFormed[y.files[d].form])
				}
			}
			if !y.files[d].exists {
				s += fmt.Sprintf(", no YAML file in /%s", ydirs[d])
			}
		}
		return s + ")"
	}
	if inv.killed {
		return
	}
	for _, n := range ran {
		if !want[n] {
			viol("P22", "not-requested", "target %s was executed but not asked for %s", n, desc())
		}
	}
	for _, n := range ran {
		if inv.list || dry && n[0] == 't' { // (Go rules decide for themselves what to do in a dry run)
			viol("P22", "not-requested", "%s was executed although nothing was to be run %s", n, desc())
		}
	}
	ok := setup && !unknown
	if !ok {
		if len(ran) > 0 {
			viol("P22", "ran-anyway", "%s was executed although the invocation could not be set up properly %s", ran[0], desc())
		}
		if inv.exit == 0 && !(inv.list && setup) {
			if inv.list && !setup && what != "" && !strings.Contains(what, "no-project") {
				return // listing does not need everything
			}
			viol("P22", "error-hidden", "fab reports success although the invocation could not be set up properly %s", desc())
		}
		return
	}
	if inv.fault {
		// either it could be set up in spite of that, and then everything is as usual, or nothing runs
		if inv.exit != 0 && len(ran) > 0 && inv.failed == 0 && zsim.FaultCount("exec-eagain")+zsim.FaultCount("exec-enomem") == 0 {
			viol("P22", "ran-anyway", "%s was executed although a fault kept the invocation from being set up %s", ran[0], desc())
		}
		if inv.exit != 0 {
			return
		}
	}
	if inv.list || dry && !fails {
		if inv.exit != 0 && !(inv.list && !listed) && !inv.fault {
			viol("P22", "failed", "fab reports an error although nothing went wrong %s", desc())
		}
		return
	}
	if listed {
		if len(ran) > 0 {
			viol("P22", "not-requested", "%s was executed although nothing was to be run %s", ran[0], desc())
		}
		return
	}
	if dry {
		return
	}
	if fails != (inv.exit != 0) {
		if fails {
			viol("P22", "failure-hidden", "fab reports success although a target failed %s", desc())
		} else {
			viol("P22", "failed", "fab reports an error although all the requested targets can be run and succeed %s", desc())
		}
	}
	if !fails && len(ran) != len(want) {
		viol("P22", "not-run", "not all that was requested was executed %s; wanted %d targets", desc(), len(want))
	}
	if !inv.fault {
		// a failure keeps only those from being executed that come after it in a sequence
		for _, n := range sortedKeys(y.executed(roots)) {
			if inv.execs[n] == 0 {
				viol("P22", "not-run", "target %s was requested and not executed %s", n, desc())
			}
		}
	}
	for n, s := range inv.stdin {
		if s != "input of fab\n" && len(inv.stdin) == 1 {
			viol("P22", "stdin", "command %s, which reads fab's standard input, got %q %s", n, s, desc())
		}
	}
}

func registerInvoke() {
	s := func(name string, weight int, o invokeOpt) scenario {
		return scenario{name: name, weight: weight, maxSteps: 2000000, fn: forProp("P22", invokeRun(o)), post: only("deadlock", "step-budget")}
	}
	register(&check{id: "P22", scenarios: []scenario{
		s("good", 2, invokeOpt{history: true}),
		s("damaged", 5, invokeOpt{damage: true}),
		s("faults", 4, invokeOpt{faults: true}),
		s("damaged-history", 2, invokeOpt{damage: true, faults: true, history: true}),
	}, real: cliReal, stub: cliStub, assume: []string{"HOME is set", "invocations do not overlap"},
		rule: "Each run draws a project of YAML files in up to four directories with commands, sequences, aliases and references between the files in several spellings, with or without Go rules, and possibly one thing that is wrong (a damaged or missing YAML file, a build package that cannot be loaded or compiled, no go program, an unusable cache directory or hash database, a directory outside any project); then a command line with flags, known and unknown names and target arguments, in different working directories, with I/O errors at drawn points of start-up; what was executed and the exit status are compared with a model."})
	check24 := checks["P24"]
	check24.scenarios = append(check24.scenarios, scenario{name: "command-line", weight: 1, maxSteps: 2000000, fn: forProp("P24", invokeRun(invokeOpt{history: true, verbose: true})), post: only()})
	check24.real = append(check24.real[:len(check24.real):len(check24.real)], "scenario command-line: cmd/fab, main.go, the generated driver's main function, the YAML reader")
	check24.stub = append(check24.stub[:len(check24.stub):len(check24.stub)], "scenario command-line: go program, go list and the compiled Go rules")
	check24.rule += " The scenario command-line compares the announcements of whole fab invocations, with or without a driver, with the commands and rules that were executed."
	late = append(late, func() {
		c := checks["P32"]
		c.scenarios = append(c.scenarios,
			scenario{name: "command-line", weight: 1, maxSteps: 2000000, fn: forProp("P32", topInvocations(false)), post: only()},
			scenario{name: "command-line-faults", weight: 2, maxSteps: 2000000, fn: forProp("P32", topInvocations(true)), post: only()})
	})
	l := func(name string, weight int, o invokeOpt) scenario {
		o.listing = true
		return scenario{name: name, weight: weight, maxSteps: 2000000, fn: forProp("P25", invokeRun(o))}
	}
	register(&check{id: "P25", scenarios: []scenario{
		l("listing", 1, invokeOpt{history: true}),
		l("listing-damaged", 2, invokeOpt{damage: true, history: true}),
		l("listing-faults", 3, invokeOpt{faults: true, history: true}),
	}, real: cliReal, stub: cliStub, assume: []string{"HOME is set", "invocations do not overlap"},
		rule: "Each run draws a project as for P22 (YAML files in up to four directories, with or without Go rules, possibly damaged) and a short history of invocations, most of which list the targets, with I/O errors and random map iteration order; whenever fab reports success, the listing must have exactly the targets of the project's model, once each, in order and with their documentation."})
}
