//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"path"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/proto"
	"github.com/bobg/fab/sqlite"
	"github.com/bobg/fab/ts"
	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/context"
	"gopkg.in/yaml.v3"
)

// The public interface used from several goroutines at once, in a build with the race detector
// (P20). What is judged are the detector's reports (see race.go). The harness shares as little as it
// can between the clients, so that it neither races itself nor orders anything.

type rleaf struct {
	Name string
	Bad  bool
	Nap  int
	sub  []fab.Target
}

func (l *rleaf) Desc() string { return "rleaf" }

func (l *rleaf) Run(ctx context.Context, con *fab.Controller) error {
	if fab.GetVerbose(ctx) {
		con.Indentf("leaf %s", l.Name)
	}
	if l.Nap > 0 {
		zsim.Sleep(int64(l.Nap))
	}
	if len(l.sub) > 0 {
		if err := con.Run(ctx, l.sub...); err != nil {
			return err
		}
	}
	if l.Bad {
		return fmt.Errorf("leaf %s failed", l.Name)
	}
	return nil
}

// rmaker produces the output of a Files target.
type rmaker struct{ Out string }

func (l *rmaker) Desc() string { return "rmaker" }
func (l *rmaker) Run(ctx context.Context, con *fab.Controller) error {
	zsim.Disk.Put(l.Out, "made")
	return nil
}

// rdb is a hash database that orders nothing.
type rdb struct {
	n    int
	keys [256][32]byte
}

//go:norace
func (d *rdb) Has(_ context.Context, h []byte) (bool, error) {
	zsim.Yield(1500)
	for i := 0; i < d.n; i++ {
		same := true
		for j := range d.keys[i] {
			if j < len(h) && d.keys[i][j] != h[j] {
				same = false
			}
		}
		if same {
			return true, nil
		}
	}
	return false, nil
}

//go:norace
func (d *rdb) Add(_ context.Context, h []byte) error {
	zsim.Yield(1501)
	if d.n < len(d.keys) {
		for j := range d.keys[d.n] {
			if j < len(h) {
				d.keys[d.n][j] = h[j]
			}
		}
		d.n++
	}
	return nil
}

type rdiscard struct{ n int }

func (d *rdiscard) Write(b []byte) (int, error) { d.n += len(b); return len(b), nil }

const raceYAML = `y0: !Seq [n0, sub/s0]
y1: n1
y2: !All [y1, n2]
y3: !Files
  Target: y1
  In: [in]
  Out: [yout]
  Autoclean: true
y4: !RLeaf hey
y5: !Command
  Shell: b x
y6: !Command
  Shell: [b x, b y]
  Stdout: log2
  Stderr: $verbose
  Stdin: in
  Env: [A=B]
y7: !Deps
  Pre: [y4, n0]
  Post: y5
y8: !ArgTarget
  - n1
  - -x
  - y
y9: !Files
  Target: y4
  In: !Glob [i*]
  Out: [yout2]
z0: !Files
  Target: y4
  In: !go.Deps
    Dir: sub/pkg
  Out: [yout3]
z1: !go.Binary
  Dir: sub/pkg
  Out: bin
z2: !proto.Proto
  Inputs: [x.proto]
  Outputs: [x.pb.go]
  Includes: [.]
z4: !ts.Decls
  Dir: sub/pkg
  Type: T
  Prefix: /p
  Out: t.ts
z3: !Clean
  Files: [yout, yout2]
  Autoclean: true
`

type ropt struct{ db, yaml bool }

func raceRun(o ropt) func() {
	return func() {
		p := zsim.NewProc("fab", nil)
		p.Cwd = "/top"
		p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
		zsim.Disk.MkDirs("/top/sub/pkg")
		zsim.Disk.Put("/top/in", "input")
		zsim.Disk.Put("/top/in2", "input")
		zsim.Disk.Put("/top/go.mod", "module example.com/top\n\ngo 1.20\n")
		zsim.Disk.Put("/top/sub/pkg/a.go", "package main\n\nfunc main() {}\n")
		zsim.Disk.Put("/top/x.proto", "syntax = \"proto3\";\nimport \"y.proto\";\nmessage X {}\n")
		zsim.Disk.Put("/top/y.proto", "syntax = \"proto3\";\nmessage Y {}\n")
		zsim.FindProgram = func(p string) (zsim.Program, bool) {
			if !strings.HasPrefix(p, "/bin/") {
				return nil, false
			}
			return func(c *zsim.Child) int {
				c.Out("line\nanother ")
				zsim.Yield(1502)
				c.Err("complaint\n")
				c.Out("line\n")
				return 0
			}, true
		}
		p.Start(func() { raceBody(o) })
		p.Wait()
	}
}

func raceBody(o ropt) {
	con := fab.NewController("/top")
	con2 := fab.NewController("/top")
	var ts0 []fab.Target
	leaf := func() *rleaf {
		l := &rleaf{Name: sname("l", len(ts0)), Bad: zsim.GenBool(1, 10), Nap: pick(0, 0, 0, 5)}
		return l
	}
	some := func(max int) (r []fab.Target) {
		for k := 1 + zsim.Gen(max); k > 0 && len(ts0) > 0; k-- {
			r = append(r, ts0[zsim.Gen(len(ts0))])
		}
		return
	}
	// the name of a target that need not exist yet
	name := func() string { return pick("n0", "n1", "n2", "n3", "n4", "n5") }
	outs := 0
	var fileTargets []fab.Target
	makeFiles := func(t fab.Target, ins ...string) fab.Target {
		outs++
		out := fmt.Sprintf("/top/out%d", outs)
		if t == nil {
			t = &rmaker{Out: out}
		}
		return fab.Files(t, append([]string{"/top/in"}, ins...), []string{out}, fab.Autoclean(zsim.GenBool(1, 2)))
	}
	make1 := func() fab.Target {
		switch zsim.Gen(13) {
		case 0, 1:
			return leaf()
		case 2:
			return &fab.Command{Cmd: "/bin/a", Args: []string{"x", "y"}}
		case 3:
			return &fab.Command{Shell: "b one two", Env: []string{"A=1"}, Dir: "/top"}
		case 4:
			switch zsim.Gen(5) {
			case 0:
				return &fab.Command{Cmd: "/bin/a", StdoutFile: ">>/top/log", StderrFile: "/top/log"}
			case 1:
				return &fab.Command{Cmd: "/bin/a", Stdout: &rdiscard{}, StderrFile: "/top/err", StdinFile: "/top/in"}
			case 2:
				w := &rdiscard{}
				return &fab.Command{Cmd: "/bin/a", Stdout: w, Stderr: w}
			case 3:
				fn := func(ctx context.Context, con *fab.Controller) io.Writer { return con.IndentingCopier(&rdiscard{}, "") }
				return &fab.Command{Cmd: "/bin/a", StdoutFn: fn, StderrFn: fn}
			}
			return &fab.Command{Cmd: "/bin/a", StdoutFile: ">>/top/log"}
		case 5:
			return fab.All(some(3)...)
		case 6:
			return fab.Seq(some(3)...)
		case 7:
			d := some(2)
			return fab.Deps(leaf(), d...)
		case 8:
			return fab.ArgTarget(leaf(), "-a", "b")
		case 9:
			l := leaf()
			l.sub = some(2)
			return l
		case 10:
			t := makeFiles(nil)
			fileTargets = append(fileTargets, t)
			return t
		case 11:
			// consumes what another Files target makes
			in := "/top/in2"
			if outs > 0 {
				in = fmt.Sprintf("/top/out%d", 1+zsim.Gen(outs))
			}
			t := makeFiles(nil, in)
			fileTargets = append(fileTargets, t)
			return t
		default:
			return fab.F(func(ctx context.Context, con *fab.Controller) error {
				zsim.Yield(1503)
				return nil
			})
		}
	}
	for n := 2 + zsim.Gen(7); n > 0; n-- {
		t := make1()
		ts0 = append(ts0, t)
		if zsim.GenBool(1, 2) {
			con.RegisterTarget(name(), "doc", t)
		}
	}
	if zsim.GenBool(1, 2) {
		ts0 = append(ts0, &fab.Clean{Files: []string{"/top/out1", "/top/nothing"}, Autoclean: zsim.GenBool(1, 2)})
	}
	if o.yaml {
		fab.RegisterYAMLTarget("RLeaf", func(_ *fab.Controller, n *yaml.Node, _ string) (fab.Target, error) {
			return &rleaf{Name: n.Value}, nil
		})
		zsim.Disk.Put("/top/fab.yaml", raceYAML)
		zsim.Disk.Put("/top/sub/fab.yaml", "_dir: sub\ns0: !RLeaf x\ns1: !Clean\n  Files: [z]\ns2: n3\n")
		if zsim.GenBool(1, 2) {
			if err := con.ReadYAMLFile(""); err != nil {
				zsim.Probe("YAML: " + err.Error())
			}
			for _, n := range []string{"y0", "y2", "y3", "y6", "y7", "y8", "y9", "z0", "z1", "z2", "z3", "sub/s0"} {
				if t, _ := con.RegistryTarget(n); t != nil {
					ts0 = append(ts0, t)
				}
			}
		}
	}
	ctx := context.Context(context.Background())
	if o.db {
		db, err := sqlite.Open("/top/hash.db")
		if err != nil {
			return
		}
		defer db.Close()
		ctx = fab.WithHashDB(ctx, db)
	} else if zsim.GenBool(2, 3) {
		ctx = fab.WithHashDB(ctx, &rdb{})
	}
	if zsim.GenBool(1, 3) {
		ctx = fab.WithVerbose(ctx, true)
	}
	if zsim.GenBool(1, 6) {
		ctx = fab.WithForce(ctx, true)
	}
	if zsim.GenBool(1, 6) {
		ctx = fab.WithDryRun(ctx, true)
	}
	if zsim.GenBool(1, 8) {
		ctx = fab.WithArgs(ctx, "a", "b")
	}
	ictx, cancel := context.WithCancel(ctx)
	if zsim.GenBool(3, 4) {
		ictx = ctx
	}
	shared := &rdiscard{}
	_ = shared
	nc := 2 + zsim.Gen(3)
	var tasks []*zsim.Task
	for c := 0; c < nc; c++ {
		// everything a client does is drawn beforehand
		var ops []func()
		for k := 1 + zsim.Gen(5); k > 0; k-- {
			c := c
			k := k
			mycon := con
			if zsim.GenBool(1, 6) {
				mycon = con2
			}
			w := &rdiscard{}
			var op func()
			switch zsim.Gen(20) {
			case 0, 1, 2, 3, 4, 5:
				r := some(3)
				op = func() { mycon.Run(ictx, r...) }
			case 6:
				t, n := make1(), name()
				if zsim.GenBool(1, 2) {
					t = ts0[zsim.Gen(len(ts0))]
				}
				op = func() { mycon.RegisterTarget(n, "other doc", t) }
			case 7:
				n := name()
				op = func() {
					if t, _ := mycon.RegistryTarget(n); t != nil {
						mycon.Describe(t)
						mycon.Run(ictx, t)
					}
				}
			case 8:
				op = func() { mycon.ListTargets(w); mycon.RegistryNames() }
			case 9:
				t := ts0[zsim.Gen(len(ts0))]
				op = func() { mycon.Describe(t); t.Desc() }
			case 10:
				op = func() { mycon.Indentf("hello %d", c) }
			case 11:
				op = func() {
					ic := mycon.IndentingCopier(w, "> ")
					io.WriteString(ic, "one\ntwo\nthr")
					io.WriteString(ic, "ee\n")
				}
			case 12:
				out := fmt.Sprintf("/top/c%d-%d", c, k)
				auto := zsim.GenBool(1, 2)
				run := zsim.GenBool(1, 2)
				op = func() {
					t := fab.Files(&rmaker{Out: out}, []string{"/top/in"}, []string{out}, fab.Autoclean(auto))
					if run {
						mycon.Run(ictx, t)
					}
				}
			case 13:
				cl := &fab.Clean{Files: []string{fmt.Sprintf("/top/d%d", c)}, Autoclean: zsim.GenBool(1, 2)}
				op = func() { mycon.Run(ictx, cl) }
			case 14:
				dir := pick("", "sub")
				if !o.yaml {
					dir = "none"
				}
				op = func() { mycon.ReadYAMLFile(dir) }
			case 15:
				args := []string{name(), name()}
				if zsim.GenBool(1, 3) {
					args = []string{name(), "-x"}
				}
				op = func() {
					if t, err := mycon.ParseArgs(args); err == nil {
						mycon.Run(ictx, t...)
					}
				}
			case 16:
				n := sname("Type", c)
				op = func() {
					fab.RegisterYAMLTarget(n, func(_ *fab.Controller, n *yaml.Node, _ string) (fab.Target, error) {
						return &rleaf{Name: n.Value}, nil
					})
					fab.RegisterYAMLStringList(n, func(*fab.Controller, *yaml.Node, string) ([]string, error) { return nil, nil })
					mycon.ReadYAML(strings.NewReader("q: !"+n+" x\nr: !Files\n  Target: q\n  In: !"+n+" x\n  Out: [rout]\n"), "")
				}
			case 17:
				t := ts0[zsim.Gen(len(ts0))]
				if len(fileTargets) > 0 {
					t = fileTargets[zsim.Gen(len(fileTargets))]
				}
				op = func() { json.Marshal(t) }
			case 18:
				which := zsim.Gen(3)
				out := fmt.Sprintf("/top/g%d-%d", c, k)
				op = func() {
					switch which {
					case 0:
						golang.Binary("/top/sub/pkg", out)
					case 1:
						proto.Proto([]string{"/top/x.proto"}, []string{out}, []string{"/top"}, nil)
					default:
						ts.Decls("/top/sub/pkg", "T", "/p", out)
					}
				}
			default:
				op = func() { mycon.JoinPath("a", "b"); mycon.RelPath("/top/a"); path.Join("a") }
			}
			ops = append(ops, op)
		}
		tasks = append(tasks, zsim.GoNamed(sname("client", c), func() {
			for _, op := range ops {
				op()
			}
		}))
	}
	if zsim.GenBool(1, 6) {
		zsim.Sleep(3)
		cancel()
	}
	for _, t := range tasks {
		t.Join()
	}
	cancel()
}

func init() {
	if !zsim.RaceBuild {
		return
	}
	s := func(name string, weight int, o ropt) scenario {
		return scenario{name: name, weight: weight, maxSteps: 200000, fn: forProp("P20", raceRun(o)), post: only()}
	}
	register(&check{id: "P20", scenarios: []scenario{
		s("targets", 5, ropt{}), s("yaml", 4, ropt{yaml: true}), s("database", 1, ropt{db: true}),
	}, real: []string{"all of package fab, golang, proto, ts and sqlite, bobg/go-generics, yaml.v3, canonicaljson, database/sql, go-sqlite3 with SQLite; Go's race detector (ThreadSanitizer)"},
		stub:   []string{"scheduler, sync, context, time, os, os/exec, child processes, golang.org/x/tools/go/packages, the clock, the disk"},
		assume: []string{"the detector compares each access with the last few accesses to the same memory", "simulated file-system and channel operations order the tasks that use them more strictly than the real ones"},
		rule:   "Each run draws shared targets of every built-in kind and two to four clients, each of which runs, registers, looks up, describes, lists and creates targets, reads YAML, registers YAML types and prints through shared controllers."})
}
