//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/context"
)

// --- P16: the indenting copier

type flakyWriter struct {
	data   []byte
	failAt int
	err    error
	short  bool
	busy   bool
}

func (w *flakyWriter) Write(p []byte) (int, error) {
	zsim.Yield(1200)
	if w.failAt >= 0 && len(w.data)+len(p) > w.failAt {
		n := max(0, w.failAt-len(w.data))
		w.data = append(w.data, p[:n]...)
		zsim.CountFault("writer-error")
		return n, w.err
	}
	w.data = append(w.data, p...)
	return len(p), nil
}

// indented is what a copier must deliver for the input (a pending final CR is dropped).
func indented(in, indent string) string {
	in = strings.ReplaceAll(in, "\r\n", "\n")
	in = strings.TrimSuffix(in, "\r")
	in = strings.ReplaceAll(in, "\r", "\n")
	var b strings.Builder
	for i, line := range strings.SplitAfter(in, "\n") {
		_ = i
		if line != "" && line != "\n" {
			b.WriteString(indent)
		}
		b.WriteString(line)
	}
	return b.String()
}

func copierRun(concurrent int) func() {
	return func() {
		type job struct {
			depth  int
			prefix string
			chunks []string
			w      *flakyWriter
		}
		var jobs []*job
		for j := 0; j < concurrent; j++ {
			jb := &job{prefix: pick("", "    ", "> ", "  \n|"[:2]), w: &flakyWriter{failAt: -1, err: errors.New("the writer is broken")}}
			jb.depth = zsim.Gen(4)
			if concurrent > 1 {
				jb.depth = jobs0depth(jb.depth, len(jobs) > 0, func() int { return jobs[0].depth })
			}
			n := 1 + zsim.Gen(8)
			for i := 0; i < n; i++ {
				var b strings.Builder
				for k := zsim.Gen(9); k > 0; k-- {
					b.WriteString(pick("a", "\n", "\r", "\r\n", "bc", "\r\r", "é", "\x00", " ", "\xc3", "\xa9", "\xe2\x82", "\xff\xfe", "\u2028"))
				}
				if zsim.GenBool(1, 20) {
					b.WriteString(strings.Repeat(pick("long line ", "x\ny", "\r"), 300+zsim.Gen(600)))
				}
				if zsim.GenBool(1, 300) {
					b.WriteString(strings.Repeat("0123456789abcde", 4500))
					zsim.AllowSteps(20 * 70000)
				}
				jb.chunks = append(jb.chunks, b.String())
			}
			if zsim.GenBool(1, 4) {
				jb.w.failAt = zsim.Gen(40)
			}
			jobs = append(jobs, jb)
		}
		p := zsim.NewProc("fab", nil)
		p.Cwd = "/"
		p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
		p.Start(func() {
			con := fab.NewController("/")
			depth := jobs[0].depth
			one := func(jb *job) fab.Target {
				return fab.F(func(ctx context.Context, con *fab.Controller) error {
					cp := con.IndentingCopier(jb.w, jb.prefix)
					var in string
					for _, c := range jb.chunks {
						n, err := cp.Write([]byte(c))
						in += c
						got := string(jb.w.data)
						if err != nil {
							if jb.w.failAt < 0 {
								viol("P16", "spurious-error", "Write returned %v although the underlying writer accepted everything", err)
							} else if !errors.Is(err, jb.w.err) {
								viol("P16", "wrong-error", "Write returned %v, not the error of the underlying writer", err)
							}
							if n < 0 || n > len(c) {
								viol("P16", "wrong-count", "Write returned %d for %d bytes", n, len(c))
							}
							if !isIndentedPrefix(got, in, jb.prefix) {
								viol("P16", "not-a-prefix", "after an error %q had been delivered, which is not a prefix of the correct output for %q", clip(got), clip(in))
							}
							return nil
						}
						if n != len(c) {
							viol("P16", "wrong-count", "Write returned %d for %d bytes, without an error", n, len(c))
						}
						want := indented(in, strings.Repeat("  ", jb.depth+1)+jb.prefix)
						if got != want {
							if jb.w.failAt >= 0 && len(want) > jb.w.failAt {
								viol("P16", "error-hidden", "the underlying writer failed but Write returned no error")
							} else {
								viol("P16", "wrong-output", "after writing %q the output was %q, not %q", clip(in), clip(got), clip(want))
							}
							return nil
						}
					}
					return nil
				})
			}
			var ts []fab.Target
			for _, jb := range jobs {
				ts = append(ts, one(jb))
			}
			// (a Run call for each level of nesting, whatever the built-in targets do)
			err := con.Run(context.Background(), nest(ts, depth)...)
			if err != nil {
				zsim.Bug("%v", err)
			}
		})
		p.Wait()
	}
}

// nest wraps targets in targets that call Run once each.
func nest(ts []fab.Target, depth int) []fab.Target {
	for ; depth > 0; depth-- {
		inner := ts
		ts = []fab.Target{fab.F(func(ctx context.Context, con *fab.Controller) error { return con.Run(ctx, inner...) })}
	}
	return ts
}

func jobs0depth(d int, later bool, first func() int) int {
	if later {
		return first()
	}
	return d
}

// isIndentedPrefix ignores the depth of indentation, which a failing write may have cut.
func isIndentedPrefix(got, in, prefix string) bool {
	for d := 1; d < 6; d++ {
		if strings.HasPrefix(indented(in, strings.Repeat("  ", d)+prefix), got) {
			return true
		}
	}
	return false
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:60] + "..." + s[len(s)-60:]
	}
	return s
}

// --- P13: Clean

type cleanWorld struct {
	proc  *zsim.Proc
	all   []string // every regular file in the world
	dirs  []string
	links []string
}

type cleanJob struct {
	listed  []string // as given
	backing []string // the array behind it, longer than the list
	orig    []string
	auto    bool
	target  fab.Target
	err     error
	ran     bool
}

func absOf(p string) string {
	if strings.HasPrefix(p, "/") {
		return pathClean(p)
	}
	return pathClean("/proj/" + p)
}

func cleanRun(faults bool, maxJobs int, dry bool) func() {
	return func() {
		w := &cleanWorld{}
		p := zsim.NewProc("fab", nil)
		w.proc = p
		p.Cwd = "/proj"
		out := &zsim.Sink{}
		p.Stdout, p.Stderr = out, &zsim.Sink{}
		p.Faulty = faults
		for i := 0; i < 8; i++ {
			f := sname(pick("/proj/f", "/proj/sub/f", "/tmp/f"), i)
			zsim.Disk.Put(f, sname("content ", i))
			w.all = append(w.all, f)
		}
		many := 1
		if zsim.GenBool(1, 60) {
			many = 40
			zsim.AllowSteps(2000000)
			for i := 0; i < 250; i++ {
				f := sname("/proj/sub/many", i)
				zsim.Disk.Put(f, "one of many")
				w.all = append(w.all, f)
			}
		}
		zsim.Disk.MkDirs("/proj/sub")
		zsim.Disk.MkDirs("/proj/empty")
		zsim.Disk.MkDirs("/proj/full")
		zsim.Disk.Put("/proj/full/x", "x")
		zsim.Disk.Put("/tmp/linked", "linked")
		if err := zsim.Disk.Symlink("/tmp/linked", "/proj/link"); err != nil {
			zsim.Bug("%v", err)
		}
		w.all = append(w.all, "/proj/full/x", "/tmp/linked", "/proj/link")
		spell := func(f string) string {
			if strings.HasPrefix(f, "/proj/") && zsim.GenBool(1, 3) {
				return pick("", "./", "sub/../") + strings.TrimPrefix(f, "/proj/")
			}
			return f
		}
		pool := append([]string{"/proj/empty", "/proj/missing", "/proj/nodir/missing", "/tmp/gone"}, w.all...)
		if zsim.GenBool(1, 6) {
			pool = append(pool, "/proj/full")
		}
		if zsim.GenBool(1, 3) { // names that would mean something else to a shell
			for k := 1 + zsim.Gen(4); k > 0; k-- {
				f := pick("/proj/f*", "/proj/f?", "/proj/f[0-9]", "/proj/*", "/tmp/f?", "/proj/sub/*", "/proj/{f0,f1}", "/proj/~", "/proj/$HOME", "/proj/-rf", "/proj/ f0", "/proj/f0 ", "/proj/F0", "/proj/f0,/proj/f1", "/proj/f1;f2")
				if _, ok := zsim.Disk.Get(f); !ok && zsim.GenBool(1, 2) {
					zsim.Disk.Put(f, "odd")
					w.all = append(w.all, f)
				}
				pool = append(pool, f, f)
			}
		}
		draw := func(n int) (out []string) {
			for k := zsim.Gen(n); k > 0; k-- {
				out = append(out, spell(pool[zsim.Gen(len(pool))]))
			}
			return
		}
		// Files targets with and without autoclean
		nf := zsim.Gen(4)
		type ftar struct {
			out  []string
			auto bool
		}
		var fts []ftar
		for i := 0; i < nf; i++ {
			fts = append(fts, ftar{draw(4 * many), zsim.GenBool(2, 3)})
		}
		nj := 1 + zsim.Gen(maxJobs)
		var jobs []*cleanJob
		for i := 0; i < nj; i++ {
			j := &cleanJob{auto: zsim.GenBool(1, 2)}
			l := draw(5 * many)
			j.backing = append(append([]string{}, l...), "spare1", "spare2", "spare3", "spare4")
			if zsim.GenBool(1, 4) {
				j.listed = append([]string(nil), l...)
			} else {
				j.listed = j.backing[:len(l)] // capacity to spare
			}
			j.orig = append([]string{}, j.backing...)
			jobs = append(jobs, j)
		}
		viaYAML := zsim.GenBool(1, 3)
		zsim.SetFaults(zsim.FaultPlan{Num: 1, Den: pick(2, 5), Max: 2, Kinds: map[string]bool{"remove-eio": true, "remove-eacces": true, "remove-eperm": true}}, faults)
		before := zsim.Disk.Tree("/")
		resetFab()
		verbose := zsim.GenBool(1, 3)
		rounds := 1 + zsim.Gen(2)
		autos := map[string]bool{}
		var later [][]string // outputs of Files targets made before the last round
		if rounds > 1 && zsim.GenBool(1, 2) {
			for k := 1 + zsim.Gen(2); k > 0; k-- {
				l := draw(4)
				later = append(later, l)
				for _, o := range l {
					autos[absOf(o)] = true
				}
			}
		}
		for _, f := range fts {
			if f.auto {
				for _, o := range f.out {
					autos[absOf(o)] = true
				}
			}
		}
		// a file that a fault or a type makes impossible to remove
		allowed := map[string]bool{}
		for _, j := range jobs {
			for _, f := range j.listed {
				allowed[absOf(f)] = true
			}
			if j.auto {
				for f := range autos {
					allowed[f] = true
				}
			}
		}
		p.Start(func() {
			for r := 0; r < rounds; r++ {
				con := fab.NewController("/proj")
				sub := fab.F(func(context.Context, *fab.Controller) error { return nil })
				if r == 0 {
					if viaYAML {
						var b strings.Builder
						b.WriteString("Nothing: !Seq []\n")
						for i, f := range fts {
							fmt.Fprintf(&b, "F%d: !Files\n  Target: Nothing\n  Out: [%s]\n  Autoclean: %v\n", i, quoteList(f.out), f.auto)
						}
						for i, j := range jobs {
							if j.auto || i%2 == 0 {
								fmt.Fprintf(&b, "J%d: !Clean\n  Files: [%s]\n  Autoclean: %v\n", i, quoteList(j.listed), j.auto)
							} else {
								fmt.Fprintf(&b, "J%d: !Clean [%s]\n", i, quoteList(j.listed))
							}
						}
						if err := con.ReadYAML(strings.NewReader(b.String()), ""); err != nil {
							viol("P13", "yaml-refused", "a valid YAML file was refused: %v\n%s", err, b.String())
							return
						}
						for i, j := range jobs {
							j.target, _ = con.RegistryTarget(sname("J", i))
						}
					} else {
						for _, f := range fts {
							if f.auto || zsim.GenBool(1, 2) {
								fab.Files(sub, nil, f.out, fab.Autoclean(f.auto))
							} else {
								fab.Files(sub, nil, f.out)
							}
						}
						for _, j := range jobs {
							j.target = &fab.Clean{Files: j.listed, Autoclean: j.auto}
						}
					}
				}
				if r == rounds-1 {
					for _, l := range later {
						fab.Files(sub, nil, l, fab.Autoclean(true))
					}
				}
				ctx := context.Background()
				if verbose {
					ctx = fab.WithVerbose(ctx, true)
				}
				if dry {
					ctx = fab.WithDryRun(ctx, true)
				}
				var ts []fab.Target
				for _, j := range jobs {
					j := j
					ts = append(ts, fab.F(func(ctx context.Context, con *fab.Controller) error {
						e := con.Run(ctx, j.target)
						if e != nil || !j.ran {
							j.err = e
						}
						j.ran = true
						return e
					}))
				}
				con.Run(ctx, ts...)
			}
		})
		p.Wait()
		zsim.FaultsOn(false)
		after := zsim.Disk.Tree("/")
		var names []string
		for f := range before {
			names = append(names, f)
		}
		sort.Strings(names)
		stuck := allowed["/proj/full"] // whether it was empty at the time depends on the others
		for _, f := range names {
			c, ok := after[f]
			g := strings.TrimSuffix(f, "/")
			switch {
			case ok && c != before[f]:
				viol("P13 P14", "changed", "Clean changed the content of %s", f)
			case !ok && dry:
				viol("P14", "dry-run-removed", "a dry run removed %s", f)
			case !ok && !allowed[g]:
				in := false
				for a := range allowed {
					in = in || strings.HasPrefix(g, a+"/")
				}
				if !in {
					viol("P13", "removed-unlisted", "Clean removed %s, which nobody asked it to remove", f)
				}
			}
			if ok && allowed[g] {
				stuck = true
			}
		}
		var created []string
		for f := range after {
			created = append(created, f)
		}
		sort.Strings(created)
		for _, f := range created {
			if _, ok := before[f]; !ok {
				viol("P13 P14", "created", "Clean created %s", f)
			}
		}
		for i, j := range jobs {
			for k := range j.orig {
				if j.backing[k] != j.orig[k] {
					viol("P13 P20", "list-altered", "running Clean target %d altered its list of files (or the memory behind it)", i)
				}
			}
			if dry {
				if j.err != nil {
					viol("P14", "dry-run-failed", "a dry run of Clean target %d failed: %v", i, j.err)
				}
				continue
			}
			want := append([]string{}, j.orig[:len(j.listed)]...)
			if j.auto {
				for f := range autos {
					want = append(want, f)
				}
			}
			sort.Strings(want)
			for _, f := range want {
				a := absOf(f)
				_, file := after[a]
				_, dir := after[a+"/"]
				if (file || dir) && j.err == nil {
					viol("P13", "left-behind", "Clean target %d reports success but %s still exists", i, a)
				}
			}
			if j.err != nil && !stuck && zsim.FaultsUsed() == 0 {
				viol("P13", "spurious-error", "Clean target %d failed although everything it should remove is gone: %v", i, j.err)
			}
		}
		_ = out
	}
}

func quoteList(xs []string) string {
	var out []string
	for _, x := range xs {
		out = append(out, q(x))
	}
	return strings.Join(out, ", ")
}

func init() {
	s := func(id, name string, weight int, fn func(), classes ...string) scenario {
		return scenario{name: name, weight: weight, maxSteps: 300000, fn: forProp(id, fn), post: only(classes...)}
	}
	register(&check{id: "P16", scenarios: []scenario{
		s("P16", "one", 6, copierRun(1), "deadlock"),
		s("P16", "several", 2, copierRun(3), "deadlock"),
	}, real: []string{"runner.go: indentingCopier and Controller.IndentingCopier, compiled from the working tree"}, stub: []string{"the underlying writer (may fail at a drawn byte, with a short count)", "scheduler"},
		assume: []string{"a copier is used by one goroutine at a time"},
		rule:   "Each run draws text rich in CR, LF and long lines, splits it into writes at drawn places, at a drawn depth and with a drawn prefix, and compares what was delivered after every single Write with a model; the underlying writer may fail after a drawn number of bytes."})
	register(&check{id: "P13", scenarios: []scenario{
		s("P13", "one", 4, cleanRun(false, 1, false), "deadlock"),
		s("P13", "several", 4, cleanRun(false, 3, false), "deadlock"),
		s("P13", "faults", 3, cleanRun(true, 2, false), "deadlock"),
	}, real: []string{"clean.go, files.go (autoclean registry), runner.go, yaml.go: the code of /repo, compiled from the working tree"}, stub: []string{"file system, scheduler: simulated"},
		assume: []string{"nobody else creates or removes the files meanwhile"},
		rule:   "Each run draws a file tree (with links, empty and full directories), Files targets with and without autoclean, and one to three Clean targets (from Go, with spare capacity behind their list, or YAML) run at once and by two controllers one after the other, with refused removals; the tree before and after is compared with the model."})
}
