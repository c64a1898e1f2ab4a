//go:build go1.22

package main

import (
	"fmt"
	"path"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zsim"
)

// The search for the top directory of a project (P32): trees with several projects, some inside others,
// searched from everywhere, at the same time, with I/O errors.

type tdir struct {
	p       string
	yaml    string // "" if there is no such file
	yml     string
	kind    string // of what the one in force says about directories: "", "none", "dir", "bad"
	decl    string
	fabdir  string // "", "dir", "file", "link"
	label   string
	hasFile bool
}

type topWorld struct {
	dirs []*tdir
	by   map[string]*tdir
}

// find is the reference: the top directory for a search that starts in dir, or "" if it must fail.
func (w *topWorld) find(dir string) string {
	for d := dir; ; d = path.Dir(d) {
		if t := w.by[d]; t != nil {
			if t.fabdir == "dir" || t.fabdir == "link" {
				return d
			}
			switch t.kind {
			case "bad":
				return ""
			case "none":
				return d
			case "dir":
				top, ok := strings.CutSuffix(d, "/"+t.decl)
				if ok && top == "" {
					return "/"
				}
				return top[:map[bool]int{true: len(top)}[ok]]
			}
		}
		if d == "/" {
			return ""
		}
	}
}

func (w *topWorld) body(t *tdir, decl string) string {
	var b strings.Builder
	if zsim.GenBool(1, 10) {
		b.WriteString(strings.Repeat("# a long comment\n", 5000))
	}
	who := fmt.Sprintf("who: !Command\n  Cmd: t\n  Args: [%s]\n", t.label)
	if zsim.GenBool(1, 2) {
		who = ""
	}
	more := pick("", "other: !Seq []\n", "nested: !Files\n  Target: other\n  In: [_dir]\nother: !Seq []\n", "# _dir: elsewhere\nother: !Seq []\n")
	if decl != "" {
		decl = "_dir: " + pick(decl, `"`+decl+`"`, "'"+decl+"'") + "\n"
	}
	if zsim.GenBool(1, 3) {
		b.WriteString(who + decl + more)
	} else {
		b.WriteString(decl + who + more)
	}
	if who+decl+more == "" {
		b.WriteString("nothing: !Seq []\n")
	}
	return b.String()
}

func (w *topWorld) draw(yamlOnly bool) {
	w.by = map[string]*tdir{}
	var add func(p string) *tdir
	add = func(p string) *tdir {
		if p == "/" {
			return nil
		}
		if t := w.by[p]; t != nil {
			return t
		}
		add(path.Dir(p))
		t := &tdir{p: p, label: sname("L", len(w.dirs))}
		w.by[p] = t
		w.dirs = append(w.dirs, t)
		zsim.Disk.MkDirs(p)
		return t
	}
	cur := []string{"/w"}
	add("/w")
	for n := 1 + zsim.Gen(9); n > 0; n-- {
		p := path.Join(cur[zsim.Gen(len(cur))], pick("a", "b", "a", "sub", "a.b", "..x", "a b"))
		add(p)
		cur = append(cur, p)
	}
	for _, t := range w.dirs {
		if !yamlOnly {
			switch zsim.Gen(14) {
			case 0, 1:
				t.fabdir = "dir"
				zsim.Disk.MkDirs(t.p + "/_fab")
			case 2:
				t.fabdir = "file"
				zsim.Disk.Put(t.p+"/_fab", "a file")
			case 3:
				t.fabdir = "link"
				zsim.Disk.MkDirs("/elsewhere/rules")
				zsim.Disk.PutLink("/elsewhere/rules", t.p+"/_fab")
			}
		}
		if zsim.GenBool(1, 2) {
			continue
		}
		elems := strings.Split(strings.TrimPrefix(t.p, "/"), "/")
		right := strings.Join(elems[zsim.Gen(len(elems)):], "/")
		text := ""
		switch k := zsim.Gen(20); {
		case k < 6:
			t.kind = "none"
			text = w.body(t, "")
		case k < 14:
			t.kind, t.decl = "dir", right
			text = w.body(t, right)
		case k < 17:
			t.kind, t.decl = "dir", pick("x/"+right, right+"/x", "nowhere", "w", "w/a", "a/b/a/b/a/b", "a", "b/a", "sub/a", strings.ToUpper(right), right+right[len(right)-1:])
			text = w.body(t, t.decl)
		case k == 17:
			t.kind = "bad"
			text = w.body(t, pick(t.p, "/w", "/"+right))
		case k == 18:
			t.kind = "bad"
			text = pick("", "- a\n- b\n", "a: [unclosed\n", "just text\n", "# only a comment\n")
		case k == 19:
			t.kind = "none"
			text = w.body(t, "[]")
			if !strings.Contains(text, "_dir: []") {
				t.kind, text = "none", "_dir: {}\n"
			}
		}
		t.hasFile = true
		t.yaml = text
		if zsim.GenBool(1, 3) {
			zsim.Disk.Put(t.p+"/fab.yml", text)
			t.yaml = ""
			t.yml = text
		} else {
			zsim.Disk.Put(t.p+"/fab.yaml", text)
			if zsim.GenBool(1, 5) { // fab.yaml is the one that counts
				zsim.Disk.Put(t.p+"/fab.yml", pick("_dir: elsewhere\n", "a: [unclosed\n", "who: !Seq []\n"))
			}
		}
		if zsim.Tracing() {
			zsim.Log("%s: %s _dir %q", t.p, t.kind, t.decl)
		}
	}
}

func (w *topWorld) faults() (deny bool) {
	zsim.SetFaults(zsim.FaultPlan{Num: 1, Den: pick(4, 15, 60), Max: 1 + zsim.Gen(3), Kinds: map[string]bool{
		"stat-eio": true, "stat-eacces": true, "open-eio": true, "open-eacces": true, "open-emfile": true, "read-eio": true}}, false)
	if zsim.GenBool(1, 2) {
		d := map[string]string{}
		for n := 1 + zsim.Gen(2); n > 0; n-- {
			t := w.dirs[zsim.Gen(len(w.dirs))]
			d[t.p+pick("/_fab", "/fab.yaml", "/fab.yml")] = pick("deny-eacces", "deny-eio", zsim.BadSector)
		}
		zsim.Disk.Deny = d
		return true
	}
	return false
}

// spell gives another name of dir, for a process whose current directory is cwd.
func (w *topWorld) spell(cwd, dir string) string {
	switch zsim.Gen(5) {
	case 0:
		return dir + pick("/", "/.", "//", "/x/..")
	case 1:
		r, _ := relDir(strings.TrimPrefix(cwd, "/"), strings.TrimPrefix(dir, "/"))
		if r == "" {
			r = pick(".", "./", "")
		}
		return r
	case 2:
		r, _ := relDir(strings.TrimPrefix(cwd, "/"), strings.TrimPrefix(dir, "/"))
		return "./" + r
	}
	return dir
}

func topRun(faults bool) func() {
	return func() {
		w := &topWorld{}
		w.draw(false)
		deny := faults && w.faults()
		var ps []*zsim.Proc
		resetFab()
		zsim.FaultsOn(faults)
		for i := 1 + zsim.Gen(2); i > 0; i-- {
			p := zsim.NewProc(sname("p", i), nil)
			p.Cwd = w.dirs[zsim.Gen(len(w.dirs))].p
			p.Env = []string{"PWD=" + p.Cwd}
			p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
			p.Faulty = faults
			var plans [][][2]string
			for t := 1 + zsim.Gen(3); t > 0; t-- {
				var pl [][2]string
				for k := 1 + zsim.Gen(4); k > 0; k-- {
					d := w.dirs[zsim.Gen(len(w.dirs))].p
					if zsim.GenBool(1, 12) {
						d += pick("/new", "/new/er") // does not exist
					}
					pl = append(pl, [2]string{d, w.spell(p.Cwd, d)})
				}
				plans = append(plans, pl)
			}
			ps = append(ps, p)
			p.Start(func() {
				var ts []*zsim.Task
				for i, pl := range plans {
					ts = append(ts, zsim.GoNamed(sname("search", i), func() {
						for _, q := range pl {
							f0 := zsim.FaultsUsed()
							got, err := fab.TopDir(q[1])
							w.judge(q[0], got, err, deny || zsim.FaultsUsed() != f0)
						}
					}))
				}
				for _, t := range ts {
					t.Join()
				}
			})
		}
		for _, p := range ps {
			p.Wait()
			if p.Panic != "" {
				zsim.Fail("panic", "%s", p.Panic)
			}
		}
		zsim.FaultsOn(false)
	}
}

func (w *topWorld) judge(dir, got string, err error, trouble bool) {
	want := w.find(dir)
	zsim.Log("search from %s: %q, %v (want %q)", dir, got, err, want)
	switch {
	case err == nil && got == "":
		viol("P32", "nothing", "the search from %s succeeds and finds nothing", dir)
	case err == nil && want == "":
		viol("P32", "found-wrong", "the search from %s finds %s, but it should report an error", dir, got)
	case err == nil && got != want:
		viol("P32", "found-wrong", "the search from %s finds %s instead of %s", dir, got, want)
	case err != nil && want != "" && !trouble:
		viol("P32", "not-found", "the search from %s fails although the top directory is %s: %v", dir, want, err)
	}
	if want != "" && want != dir && err == nil {
		zsim.Probe("found further up")
	}
}

// topInvocations runs the real command-line program in such trees.
func topInvocations(faults bool) func() {
	return func() {
		cw := newCliWorld()
		w := &topWorld{}
		w.draw(true)
		deny := faults && w.faults()
		cw.fabdir = "/root/.cache/fab"
		for r := 1 + zsim.Gen(3); r > 0; r-- {
			inv := &invocation{cwd: w.dirs[zsim.Gen(len(w.dirs))].p, faults: faults, args: []string{"who"}}
			top := w.find(inv.cwd)
			cw.invoke(inv)
			want, why := "", "the top directory is not to be found"
			if t := w.by[top]; t != nil {
				why = "the project in " + top
				text := t.yaml + t.yml
				switch {
				case !t.hasFile:
					why += " has no YAML file"
				case t.kind == "dir" || t.kind == "bad":
					why += " contradicts itself"
				case strings.Contains(text, "_dir: "+"[]") || strings.Contains(text, "_dir: {}"):
					why += " says nonsense"
				case !strings.Contains(text, "who:"):
					why += " has no such target"
				default:
					want = t.label
				}
			}
			trouble := inv.fault || deny
			for _, n := range sortedKeys(inv.execs) {
				if n != want {
					viol("P32", "wrong-project", "fab in %s executes the target of %s; wanted %q: %s", inv.cwd, n, want, why)
				}
			}
			switch {
			case want == "" && inv.exit == 0:
				viol("P32", "wrong-project", "fab in %s succeeds although %s", inv.cwd, why)
			case want != "" && inv.exit == 0 && inv.execs[want] == 0:
				viol("P32", "nothing", "fab in %s succeeds and executes nothing; wanted %s", inv.cwd, want)
			case want != "" && inv.exit != 0 && !trouble:
				viol("P32", "not-found", "fab in %s fails although the target is defined in %s", inv.cwd, top)
			case want != "":
				zsim.Probe("target of the right project executed")
			}
		}
	}
}

func init() {
	s := func(name string, weight int, fn func()) scenario {
		return scenario{name: name, weight: weight, maxSteps: 400000, fn: forProp("P32", fn), post: only("deadlock", "step-budget")}
	}
	register(&check{id: "P32", scenarios: []scenario{
		s("searches", 3, topRun(false)),
		s("searches-faults", 5, topRun(true)),
	}, real: []string{"top.go, yaml.go: the code of /repo, compiled from the working tree", "gopkg.in/yaml.v3, path/filepath"},
		stub:   []string{"file system, scheduler", "in the invocations, the commands that targets run"},
		assume: []string{"names are resolved lexically: no directory on the way up is reached through a symbolic link"},
		rule:   "Each run draws a tree with up to ten directories, some with _fab (a directory, a link to one, or a file), some with fab.yaml or fab.yml or both, whose _dir declarations are right, missing, wrong, absolute or of the wrong type, or which are ill-formed; processes search for the top directory from drawn directories under drawn spellings, from several goroutines at once, and the real command-line program is invoked in such trees; with faults, operations on single paths fail once or permanently. A search must yield what a reference implementation yields, or, after an I/O error, an error."})
}
