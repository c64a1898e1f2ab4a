//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	rtime "time"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/context"
	"github.com/bobg/fab/zsim/shim/os"
)

// The command world: one to four commands with drawn destinations, input, directory, environment
// and behaviour, run one after the other or at once, from Go values or from a YAML file. The
// simulated programs record what they see; a model says what must arrive where.

type destKind int

const (
	dNone destKind = iota
	dFile
	dWriter
	dFn
	dFnNil
	dStdout // YAML only from here
	dStderr
	dIndent
	dVerbose
	dDiscard
)

type cdest struct {
	kind     destKind
	file     string // absolute
	spelled  string // as written in the target, without >>
	app      bool
	prior    string
	had      bool
	nodir    bool
	w        *cwriter
	closes   bool
	closeErr bool
}

// cwriter is a destination the user of the library provides.
type cwriter struct {
	data    []byte
	failAt  int // fail once that many bytes have arrived (-1: never)
	failed  bool
	closed  int
	cErr    error
	late    bool // written to after Close
	writers int
}

var (
	errWriter = errors.New("the destination is broken")
	errCloser = errors.New("the destination cannot be closed")
)

func (w *cwriter) Write(p []byte) (int, error) {
	w.writers++
	if w.writers > 1 {
		viol("P15", "concurrent-writes", "two writes to the same destination at once")
	}
	zsim.Yield(1100)
	defer func() { w.writers-- }()
	if w.closed > 0 {
		w.late = true
	}
	if w.failAt >= 0 && len(w.data)+len(p) > w.failAt {
		n := max(0, w.failAt-len(w.data))
		w.data = append(w.data, p[:n]...)
		w.failed = true
		return n, errWriter
	}
	w.data = append(w.data, p...)
	return len(p), nil
}

type cwriteCloser struct{ *cwriter }

func (w cwriteCloser) Close() error {
	zsim.Yield(1101)
	w.closed++
	return w.cErr
}

type cop struct {
	kind int // 0 out, 1 err, 2 sleep, 3 read stdin
	data string
	n    int64
}

type cstart struct {
	args   []string
	cwd    string
	env    []string
	in     string
	inRead bool
	inErr  error
	at     int64
	proc   *zsim.Proc
	wrote  [2]string
	both   string // what was written to either stream, in the order of the writes
	short  bool   // a write failed
	exit   int
	ended  bool
	heldTo int64 // when the last background process it forked lets go of its output
}

type ccmd struct {
	id      int
	parts   int // >1: a YAML list of shell strings
	ops     [][]cop
	exit    []int
	signal  bool
	cmd     string // "" = shell
	args    []string
	missing bool
	out     cdest
	err     cdest
	stdin   int // 0 none, 1 reader, 2 file, 3 missing file, 4 fab's standard input
	inData  string
	inFail  bool
	reader  *failReader
	dir     string // "" or as written
	absDir  string
	noDir   bool
	env     []string
	target  fab.Target

	traps     bool
	procs     []*zsim.Proc
	sawCancel bool
	starts    []*cstart
	ran       bool
	result    error
}

type cworld struct {
	cmds    []*ccmd
	stdout  *zsim.Sink
	stderr  *zsim.Sink
	stdin   string
	verbose bool
	yaml    bool
	ydir    string // directory of the YAML file below /proj
	shell   string
	env     []string
	sinkBad map[int]bool // commands whose output fab's own output refused
	sinkMay bool
	dry     bool
}

const payload0 = 0x80

// alphabet gives the bytes only stream s of command c uses.
func alphabet(c, s int) byte { return byte(payload0 + (c*2+s)*8) }

func filterAlpha(data string, c, s int) string {
	lo := alphabet(c, s)
	var b []byte
	for i := 0; i < len(data); i++ {
		if data[i] >= lo && data[i] < lo+8 {
			b = append(b, data[i])
		}
	}
	return string(b)
}

func (w *cworld) script(c *ccmd, part int) {
	var ops []cop
	n := zsim.Gen(5)
	for i := 0; i < n; i++ {
		switch k := zsim.Gen(10); {
		case k < 7:
			s := 0
			if k >= 4 {
				s = 1
			}
			l := 1 + zsim.Gen(6)
			if zsim.GenBool(1, 12) {
				l = 3000 + zsim.Gen(7000)
				if zsim.GenBool(1, 15) {
					l = 66000 + zsim.Gen(10000) // more than a pipe, or a customary buffer, holds
					if zsim.GenBool(1, 5) {
						l = 270000 + zsim.Gen(900000)
					}
					zsim.AllowSteps(20 * int64(l))
				}
			}
			var b []byte
			seed := zsim.Gen(1000)
			for j := 0; j < l; j++ {
				seed = (seed*75 + 74 + j) % 65537
				b = append(b, alphabet(c.id, s)+byte(seed%8))
				if seed%11 == 0 {
					b = append(b, '\n')
				}
			}
			if zsim.GenBool(1, 2) {
				b = append(b, '\n')
			}
			ops = append(ops, cop{kind: s, data: string(b)})
		case k < 9:
			ops = append(ops, cop{kind: 2, n: int64(1+zsim.Gen(50)) * 1e6})
		default:
			ops = append(ops, cop{kind: 3})
		}
	}
	ex := 0
	if zsim.GenBool(1, 4) {
		ex = pick(1, 2, 255)
	}
	c.ops = append(c.ops, ops)
	c.exit = append(c.exit, ex)
}

func (w *cworld) dest(c *ccmd, s int) cdest {
	d := cdest{}
	name := sname(pick("o", "p"), c.id*2+s)
	kinds := []destKind{dNone, dFile, dFile, dWriter, dFn, dFnNil}
	if w.yaml {
		kinds = []destKind{dNone, dFile, dFile, dStdout, dStderr, dIndent, dVerbose, dDiscard}
	}
	d.kind = kinds[zsim.Gen(len(kinds))]
	switch d.kind {
	case dFile:
		base := "/proj"
		if w.yaml {
			base = path.Join("/proj", w.ydir)
		}
		d.file = path.Join(base, name)
		switch zsim.Gen(4) {
		case 1:
			d.spelled = d.file
		case 2:
			d.spelled = "./" + name
		default:
			d.spelled = name
		}
		if zsim.GenBool(1, 15) {
			d.nodir = true
			d.file, d.spelled = path.Join(base, "no/such/dir"), "no/such/dir"
		}
		d.app = zsim.GenBool(1, 2)
		if !d.nodir && zsim.GenBool(1, 2) {
			d.had = true
			d.prior = "prior content\n"
			zsim.Disk.Put(d.file, d.prior)
		}
	case dWriter, dFn:
		d.w = &cwriter{failAt: -1}
		if zsim.GenBool(1, 6) {
			d.w.failAt = zsim.Gen(20)
		}
		if d.kind == dFn {
			d.closes = zsim.GenBool(1, 2)
			d.closeErr = d.closes && zsim.GenBool(1, 3)
			if d.closeErr {
				d.w.cErr = errCloser
			}
		}
	}
	return d
}

func (w *cworld) generate(max int, tame bool) {
	w.yaml = zsim.GenBool(1, 2)
	if w.yaml && zsim.GenBool(1, 2) {
		w.ydir = "sub"
	}
	zsim.Disk.MkDirs("/proj/sub/d1")
	zsim.Disk.MkDirs("/proj/d1")
	w.verbose = zsim.GenBool(1, 3)
	w.stdin = "what fab itself gets\n"
	w.shell = pick("", "/bin/zsh")
	w.env = []string{"HOME=/root", "PATH=/usr/bin:/bin", "A=from fab", "B=from fab"}
	if w.shell != "" {
		w.env = append(w.env, "SHELL="+w.shell)
	}
	n := 1 + zsim.Gen(max)
	for i := 0; i < n; i++ {
		c := &ccmd{id: i, parts: 1}
		w.cmds = append(w.cmds, c)
		if zsim.GenBool(1, 2) {
			c.cmd = "/bin/prog"
			if zsim.GenBool(1, 3) {
				c.cmd = "prog"
			}
			for k := zsim.Gen(3); k > 0; k-- {
				c.args = append(c.args, pick("", "a b", "-x", "$HOME", "a\tb"))
			}
			if !tame && zsim.GenBool(1, 12) {
				c.missing = true
				c.cmd = pick("/bin/nosuch", "nosuch")
			}
		} else if w.yaml && zsim.GenBool(1, 3) {
			c.parts = 2 + zsim.Gen(2)
		}
		for p := 0; p < c.parts; p++ {
			w.script(c, p)
		}
		c.out = w.dest(c, 0)
		c.err = w.dest(c, 1)
		if c.out.kind == dFile && c.err.kind == dFile && zsim.GenBool(1, 3) { // the same file
			if c.err.had {
				zsim.Disk.Del(c.err.file)
			}
			sp := c.out.spelled
			app := c.err.app
			c.err = c.out
			c.err.spelled = sp
			if zsim.GenBool(1, 3) && !c.out.nodir {
				c.err.spelled = pick(c.out.file, "./"+path.Base(c.out.file), path.Base(c.out.file))
			}
			if zsim.GenBool(1, 4) {
				c.err.app = app
			}
		}
		if c.out.kind == dWriter && c.err.kind == dWriter && zsim.GenBool(1, 2) {
			c.err.w = c.out.w
		}
		c.stdin = pick(0, 0, 1, 2, 3, 4)
		if w.yaml && c.stdin == 1 {
			c.stdin = 2
		}
		if c.stdin == 3 && (tame || !zsim.GenBool(1, 3)) {
			c.stdin = 0
		}
		if c.stdin == 4 && (n > 1 || c.parts > 1) {
			c.stdin = 0
		}
		switch c.stdin {
		case 1, 2:
			c.inData = strings.Repeat(fmt.Sprintf("input of %d\n", i), 1+zsim.Gen(3))
			if zsim.GenBool(1, 10) {
				c.inData = strings.Repeat(c.inData, 800)
			}
			if c.stdin == 2 {
				zsim.Disk.Put(w.ipath(c), c.inData)
			} else {
				c.inFail = zsim.GenBool(1, 8)
			}
		case 4:
			c.inData = w.stdin
		}
		c.absDir = "/proj"
		if w.yaml {
			c.absDir = path.Join("/proj", w.ydir)
		}
		switch zsim.Gen(6) {
		case 1:
			c.dir = "d1"
			if w.yaml {
				c.absDir = path.Join("/proj", w.ydir, "d1")
			} else {
				c.absDir = "/proj/d1"
			}
		case 2:
			c.dir, c.absDir = "/proj/d1", "/proj/d1"
		case 3:
			if !tame && zsim.GenBool(1, 3) {
				c.dir, c.noDir = "nosuchdir", true
			}
		}
		if c.stdin >= 2 && !c.noDir && zsim.GenBool(1, 2) { // another file of that name
			if f := path.Join(c.absDir, sname("i", c.id)); f != w.ipath(c) {
				zsim.Disk.Put(f, "not this\n")
			}
		}
		for k := zsim.Gen(3); k > 0; k-- {
			c.env = append(c.env, pick("A=first", "A=second", "C=new", "B="))
		}
	}
}

func (w *cworld) ipath(c *ccmd) string { return path.Join("/proj", w.ydir, sname("i", c.id)) }

func q(s string) string { return fmt.Sprintf("%q", s) }

func (w *cworld) dname(d cdest) string {
	switch d.kind {
	case dFile:
		s := d.spelled
		if d.app {
			s = ">>" + s
		}
		return s
	case dStdout:
		return "$stdout"
	case dStderr:
		return "$stderr"
	case dIndent:
		return "$indent"
	case dVerbose:
		return "$verbose"
	case dDiscard:
		return "$discard"
	}
	return ""
}

func (w *cworld) yamlText() string {
	var b strings.Builder
	if w.ydir != "" {
		fmt.Fprintf(&b, "_dir: %s\n", w.ydir)
	}
	list := func(name string, xs []string) {
		if len(xs) == 0 {
			return
		}
		fmt.Fprintf(&b, "  %s:\n", name)
		for _, x := range xs {
			fmt.Fprintf(&b, "    - %s\n", q(x))
		}
	}
	for _, c := range w.cmds {
		fmt.Fprintf(&b, "\n# Command %d\nC%d: !Command\n", c.id, c.id)
		if c.cmd != "" {
			fmt.Fprintf(&b, "  Cmd: %s\n", q(c.cmd))
			list("Args", append([]string{fmt.Sprintf("s%d.0", c.id)}, c.args...))
		} else if c.parts == 1 {
			fmt.Fprintf(&b, "  Shell: %s\n", q(fmt.Sprintf("s%d.0 'x y' | z", c.id)))
		} else {
			var xs []string
			for p := 0; p < c.parts; p++ {
				xs = append(xs, fmt.Sprintf("s%d.%d 'x y' | z", c.id, p))
			}
			list("Shell", xs)
		}
		if d := w.dname(c.out); d != "" {
			fmt.Fprintf(&b, "  Stdout: %s\n", q(d))
		}
		if d := w.dname(c.err); d != "" {
			fmt.Fprintf(&b, "  Stderr: %s\n", q(d))
		}
		switch c.stdin {
		case 2, 3:
			fmt.Fprintf(&b, "  Stdin: %s\n", sname("i", c.id))
		case 4:
			fmt.Fprintf(&b, "  Stdin: $stdin\n")
		}
		if c.dir != "" {
			fmt.Fprintf(&b, "  Dir: %s\n", c.dir)
		}
		list("Env", c.env)
	}
	return b.String()
}

type failReader struct {
	r    io.Reader
	fail bool
	hit  bool
}

var errReader = errors.New("the input is broken")

func (r *failReader) Read(p []byte) (int, error) {
	zsim.Yield(1102)
	n, err := r.r.Read(p)
	if err == io.EOF && r.fail {
		r.hit = true
		err = errReader
	}
	return n, err
}

func (w *cworld) goTarget(c *ccmd) fab.Target {
	t := &fab.Command{Dir: c.dir, Env: c.env}
	if c.cmd != "" {
		t.Cmd = c.cmd
		t.Args = append([]string{fmt.Sprintf("s%d.0", c.id)}, c.args...)
	} else {
		t.Shell = fmt.Sprintf("s%d.0 'x y' | z", c.id)
	}
	fn := func(d *cdest) func(context.Context, *fab.Controller) io.Writer {
		return func(context.Context, *fab.Controller) io.Writer {
			if d.kind == dFnNil {
				return nil
			}
			if d.closes {
				return cwriteCloser{d.w}
			}
			return d.w
		}
	}
	switch c.out.kind {
	case dFile:
		t.StdoutFile = w.dname(c.out)
	case dWriter:
		t.Stdout = c.out.w
	case dFn, dFnNil:
		t.StdoutFn = fn(&c.out)
	}
	switch c.err.kind {
	case dFile:
		t.StderrFile = w.dname(c.err)
	case dWriter:
		t.Stderr = c.err.w
	case dFn, dFnNil:
		t.StderrFn = fn(&c.err)
	}
	switch c.stdin {
	case 1:
		c.reader = &failReader{r: strings.NewReader(c.inData), fail: c.inFail}
		t.Stdin = c.reader
	case 2, 3:
		t.StdinFile = sname("i", c.id)
	case 4:
		t.Stdin = os.Stdin
	}
	return t
}

// program is the body of every executable of this world.
func (w *cworld) program(ch *zsim.Child) int {
	var id, part int
	text := strings.Join(ch.Args, " ")
	i := strings.IndexByte(text, 's')
	if strings.HasPrefix(text, "-c ") {
		i = 3
	}
	if _, err := fmt.Sscanf(text[i:], "s%d.%d", &id, &part); err != nil || id >= len(w.cmds) || part >= w.cmds[id].parts {
		viol("P15", "wrong-program", "a program was started with arguments %q", ch.Args)
		return 9
	}
	c := w.cmds[id]
	st := &cstart{args: ch.Args, cwd: ch.Proc.Cwd, env: ch.Proc.Env, at: zsim.Now(), proc: ch.Proc}
	c.starts = append(c.starts, st)
	if w.dry {
		viol("P14", "dry-run-executed", "a dry run executed command %d", id)
	}
	for _, op := range c.ops[part] {
		switch op.kind {
		case 0, 1:
			var err error
			if op.kind == 0 {
				err = ch.Out(op.data)
			} else {
				err = ch.Err(op.data)
			}
			if err != nil {
				st.short = true
				return 3
			}
			st.wrote[op.kind] += op.data
			st.both += op.data
		case 2:
			zsim.Sleep(op.n)
		case 4:
			if t := zsim.Now() + op.n; t > st.heldTo {
				st.heldTo = t
			}
			ch.Fork("grandchild", func(g *zsim.Child) { zsim.Sleep(op.n) })
		case 3:
			if !st.inRead {
				st.in, st.inErr = ch.ReadAllIn()
				st.inRead = true
			}
		}
	}
	st.exit = c.exit[part]
	st.ended = true
	if st.exit == 255 {
		ch.Proc.Kill("killed by somebody")
		zsim.Dead()
	}
	return st.exit
}

func (w *cworld) setup(faulty bool) (*zsim.Proc, func(func(ctx context.Context, con *fab.Controller))) {
	zsim.FindProgram = func(p string) (zsim.Program, bool) {
		switch p {
		case "/bin/prog", "/bin/sh", "/bin/zsh":
			return w.program, true
		}
		return nil, false
	}
	w.stdout, w.stderr = &zsim.Sink{}, &zsim.Sink{}
	p := zsim.NewProc("fab", nil)
	p.Cwd = "/proj"
	p.Env = w.env
	p.Stdin, p.Stdout, p.Stderr = &zsim.Sink{In: []byte(w.stdin)}, w.stdout, w.stderr
	p.Faulty = faulty
	return p, func(fn func(ctx context.Context, con *fab.Controller)) {
		resetFab()
		p.Start(func() {
			con := fab.NewController("/proj")
			if w.yaml {
				if err := con.ReadYAML(strings.NewReader(w.yamlText()), w.ydir); err != nil {
					zsim.Log("%s", w.yamlText())
					viol("P15 P14 P19", "yaml-refused", "a valid YAML file was refused: %v", err)
					return
				}
			}
			for _, c := range w.cmds {
				if w.yaml {
					c.target, _ = con.RegistryTarget(path.Join(w.ydir, sname("C", c.id)))
				} else {
					c.target = w.goTarget(c)
				}
			}
			ctx := context.Background()
			if w.verbose {
				ctx = fab.WithVerbose(ctx, true)
			}
			if w.dry {
				ctx = fab.WithDryRun(ctx, true)
			}
			fn(ctx, con)
		})
		p.Wait()
	}
}

// runAll runs the commands under the controller in some grouping.
func (w *cworld) runAll(ctx context.Context, con *fab.Controller) error {
	var ts []fab.Target
	for _, c := range w.cmds {
		c := c
		ts = append(ts, fab.F(func(ctx context.Context, con *fab.Controller) error {
			c.result = con.Run(ctx, c.target)
			c.ran = true
			return c.result
		}))
	}
	switch zsim.Gen(3) {
	case 1:
		return con.Run(ctx, fab.Seq(ts...))
	case 2:
		return con.Run(ctx, fab.Seq(fab.All(ts...)))
	}
	return con.Run(ctx, ts...)
}

// badConfig tells whether the command cannot be run as configured.
func (c *ccmd) badConfig() bool {
	return c.out.kind == dFile && c.err.kind == dFile && c.out.file == c.err.file && c.out.app != c.err.app && c.parts == 1 ||
		c.out.kind == dFile && c.err.kind == dFile && c.out.file == c.err.file && c.out.app != c.err.app ||
		c.missing || c.noDir || c.stdin == 3 || c.out.kind == dFile && c.out.nodir || c.err.kind == dFile && c.err.nodir
}

func (w *cworld) checkCommand(c *ccmd) {
	if !c.ran {
		return
	}
	faults := zsim.FaultsUsed()
	captured := func(d cdest) bool {
		return !w.verbose && (d.kind == dNone || d.kind == dFnNil || d.kind == dVerbose)
	}
	// how often it may and must have been started
	want := c.parts
	reason := ""
	switch {
	case c.badConfig():
		want, reason = 0, "its configuration is impossible"
	default:
		for p := 0; p < c.parts; p++ {
			if p < len(c.starts) {
				if st := c.starts[p]; st.exit != 0 || st.short || !st.ended {
					reason = "the program failed"
					want = p + 1
					break
				}
			}
		}
	}
	for s, d := range []cdest{c.out, c.err} {
		if d.w != nil && d.w.failed {
			reason = "a destination failed"
		}
		if d.closeErr && len(c.starts) > 0 && d.w.closed > 0 {
			reason = "a destination could not be closed"
		}
		if w.sinkBad[c.id] && (d.kind >= dStdout || w.verbose) {
			reason = "fab's own output failed"
		}
		_ = s
	}
	if c.reader != nil && c.reader.hit {
		reason = "its input failed"
	}
	if (faults > 0 || w.sinkMay) && reason == "" && c.result != nil {
		reason = "a fault"
	}
	if len(c.starts) > want {
		viol("P15", "started-too-often", "command %d was started %d times, not %d", c.id, len(c.starts), want)
	}
	if c.result == nil {
		if reason != "" {
			viol("P15", "failure-hidden", "command %d reports success although %s", c.id, reason)
		}
		if len(c.starts) != c.parts {
			viol("P15", "not-started", "command %d reports success but was started %d times, not %d", c.id, len(c.starts), c.parts)
		}
		if faults > 0 && len(w.cmds) == 1 {
			viol("P15", "fault-hidden", "command %d reports success although the system refused an operation it needed", c.id)
		}
	} else if reason == "" {
		viol("P15", "spurious-error", "command %d reports an error for no reason: %v", c.id, c.result)
	}
	if len(c.starts) == 0 {
		return
	}
	// what the program saw
	for p, st := range c.starts {
		var args []string
		if c.cmd != "" {
			args = append([]string{fmt.Sprintf("s%d.0", c.id)}, c.args...)
		} else {
			args = []string{"-c", fmt.Sprintf("s%d.%d 'x y' | z", c.id, p)}
		}
		if fmt.Sprintf("%q", args) != fmt.Sprintf("%q", st.args) {
			viol("P15", "wrong-args", "command %d was started with arguments %q, not %q", c.id, st.args, args)
		}
		if st.cwd != c.absDir {
			viol("P15", "wrong-dir", "command %d was started in %s, not %s", c.id, st.cwd, c.absDir)
		}
		env := map[string]string{}
		for _, e := range append(append([]string{}, w.env...), c.env...) {
			k, v, _ := strings.Cut(e, "=")
			env[k] = v
		}
		var ks []string
		for k := range env {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if got := envGet(st.env, k); got != env[k] {
				viol("P15", "wrong-env", "command %d has %s=%q in its environment, not %q", c.id, k, got, env[k])
			}
		}
		shell := w.shell
		if shell == "" {
			shell = "/bin/sh"
		}
		if exe := st.proc.Args[0]; c.cmd == "" && exe != shell || c.cmd != "" && exe != "/bin/prog" {
			viol("P15", "wrong-program", "command %d ran %s", c.id, exe)
		}
		if st.inRead && st.inErr == nil && !c.inFail && st.in != c.inData {
			viol("P15", "wrong-input", "command %d read %d bytes of standard input (%.40q), not %d (%.40q)", c.id, len(st.in), st.in, len(c.inData), c.inData)
		}
	}
	// where the output went
	var wrote [2]string
	both := ""
	anyShort := false
	for _, st := range c.starts {
		wrote[0] += st.wrote[0]
		wrote[1] += st.wrote[1]
		both += st.both
		anyShort = anyShort || st.short || !st.ended
	}
	var ce fab.CommandErr
	isCE := errors.As(c.result, &ce)
	sameFile := c.out.kind == dFile && c.err.kind == dFile && c.out.file == c.err.file
	for s, d := range []cdest{c.out, c.err} {
		other := []cdest{c.err, c.out}[s]
		if d.closes && d.w.closed != len(c.starts) {
			viol("P15", "not-closed", "the destination of command %d was closed %d times", c.id, d.w.closed)
		}
		if d.w != nil && d.w.late {
			viol("P15", "late-write", "command %d wrote to its destination after closing it", c.id)
		}
		if anyShort {
			continue
		}
		got, exact := "", ""
		switch {
		case captured(d):
			if c.result == nil {
				continue
			}
			last := c.starts[len(c.starts)-1].wrote[s]
			if last == "" {
				continue
			}
			if len(c.starts) > 1 {
				wrote[s] = last
			}
			if c.starts[len(c.starts)-1].exit == 0 {
				continue // failed otherwise
			}
			if !isCE {
				viol("P15", "output-lost", "command %d failed but its captured output is not in the error: %v", c.id, c.result)
				continue
			}
			got = string(ce.Output)
			if !captured(other) {
				exact = wrote[s]
			} else if b := c.starts[len(c.starts)-1].both; got != b {
				viol("P15", "wrong-order", "the captured output of command %d is %.80q, and %.80q was written", c.id, got, b)
			}
		case d.kind == dFile:
			got, _ = zsim.Disk.Get(d.file)
			if !sameFile {
				exact = wrote[s]
				if d.app && d.had {
					exact = d.prior + exact
				}
				if exact == "" && got != "" {
					viol("P15", "wrong-output", "%s should be empty", d.file)
				}
			} else {
				n := len(wrote[0]) + len(wrote[1])
				if d.app && d.had {
					n += len(d.prior)
				}
				if len(got) != n {
					viol("P15", "wrong-output", "%s has %d bytes, not %d", d.file, len(got), n)
				} else if !strings.HasSuffix(got, both) {
					viol("P15", "wrong-order", "both streams of command %d went to %s, but what is there is not in the order of the writes (%.80q, not %.80q)", c.id, d.file, got, both)
				}
			}
			if d.app && d.had && !strings.HasPrefix(got, d.prior) {
				viol("P15", "wrong-output", "the earlier content of %s was lost", d.file)
			}
		case d.w != nil:
			if d.w.failed {
				continue
			}
			got = string(d.w.data)
			if other.w != d.w {
				exact = wrote[s]
			} else if got != both {
				viol("P15", "wrong-order", "both streams of command %d went to one writer, but what arrived is not in the order of the writes (%.80q, not %.80q)", c.id, got, both)
			}
		case d.kind == dDiscard:
			continue
		case w.sinkMay:
			continue
		case d.kind == dStdout:
			got = string(w.stdout.Data)
		case d.kind == dStderr:
			got = string(w.stderr.Data)
		case s == 0:
			got = string(w.stdout.Data)
		default:
			got = string(w.stderr.Data)
		}
		if f := filterAlpha(got, c.id, s); f != filterAlpha(wrote[s], c.id, s) {
			viol("P15", "wrong-output", "stream %d of command %d: %d bytes arrived, %d bytes were written, or they are in another order", s+1, c.id, len(f), len(filterAlpha(wrote[s], c.id, s)))
		} else if exact != "" && got != exact {
			viol("P15", "wrong-output", "stream %d of command %d: %.60q arrived, %.60q was written", s+1, c.id, got, exact)
		}
	}
	// nothing may arrive where it was not sent
	for s := range wrote {
		d := []cdest{c.out, c.err}[s]
		o, e := filterAlpha(string(w.stdout.Data), c.id, s), filterAlpha(string(w.stderr.Data), c.id, s)
		toOut := d.kind == dStdout || s == 0 && !captured(d) && (d.kind == dNone || d.kind == dFnNil || d.kind == dIndent || d.kind == dVerbose)
		toErr := d.kind == dStderr || s == 1 && !captured(d) && (d.kind == dNone || d.kind == dFnNil || d.kind == dIndent || d.kind == dVerbose)
		if o != "" && !toOut || e != "" && !toErr {
			viol("P15", "stray-output", "output of stream %d of command %d appeared in fab's own output", s+1, c.id)
		}
	}
}

func envGet(env []string, k string) string {
	for i := len(env) - 1; i >= 0; i-- {
		if a, v, _ := strings.Cut(env[i], "="); a == k {
			return v
		}
	}
	return "(unset)"
}

type cmdOpt struct {
	max    int
	faults bool
	sink   bool
}

func commandRun(o cmdOpt) func() {
	return func() {
		w := &cworld{}
		w.generate(o.max, false)
		zsim.SetFaults(zsim.FaultPlan{Num: 1, Den: pick(2, 4, 10), Max: 1 + zsim.Gen(2), Kinds: map[string]bool{
			"open-eio": true, "open-eacces": true, "open-emfile": true, "open-enospc": true, "close-eio": true, "close-enospc": true,
			"exec-eagain": true, "exec-enomem": true,
		}}, o.faults)
		p, run := w.setup(o.faults)
		_ = p
		if o.sink && zsim.GenBool(1, 2) {
			at := zsim.Gen(60)
			bad := func(s *zsim.Sink) {
				s.Fail = func(b []byte) (int, error) {
					if len(s.Data)+len(b) > at {
						for _, c := range w.cmds {
							if filterAlpha(string(b), c.id, 0)+filterAlpha(string(b), c.id, 1) != "" {
								w.sinkBad[c.id] = true
							}
						}
						w.sinkMay = true
						zsim.CountFault("own-output-error")
						return 0, errors.New("input/output error")
					}
					return 0, nil
				}
			}
			w.sinkBad = map[int]bool{}
			bad(pick(w.stdout, w.stderr))
		}
		var err error
		done := false
		run(func(ctx context.Context, con *fab.Controller) {
			err = w.runAll(ctx, con)
			done = true
		})
		zsim.FaultsOn(false)
		if !done {
			return
		}
		anyErr := false
		for _, c := range w.cmds {
			w.checkCommand(c)
			if c.ran && c.result != nil {
				anyErr = true
			}
			for _, st := range c.starts {
				if !st.proc.Gone() {
					viol("P15 P19", "left-running", "Run returned while command %d was still running", c.id)
				}
			}
		}
		if anyErr && err == nil {
			viol("P15", "failure-hidden", "the run reports success although a command reported an error")
		}
	}
}

// dryCommandRun runs commands of all kinds in dry-run mode.
func dryCommandRun() {
	w := &cworld{dry: true}
	w.generate(4, false)
	_, run := w.setup(false)
	zsim.OnExec = func(p *zsim.Proc, path string, args []string) {
		viol("P14", "dry-run-executed", "a dry run started %s", path)
	}
	tree := zsim.Disk.Tree("/")
	var err error
	ran := false
	run(func(ctx context.Context, con *fab.Controller) {
		err = w.runAll(ctx, con)
		ran = true
	})
	if d := treeDiff(tree, zsim.Disk.Tree("/")); d != "" {
		viol("P14", "dry-run-wrote", "a dry run changed the file system: %s", d)
	}
	bad := false
	for _, c := range w.cmds {
		bad = bad || c.badConfig()
		if ran && !c.ran {
			viol("P14", "dry-run-visits", "a dry run did not visit command %d", c.id)
		}
		for _, d := range []cdest{c.out, c.err} {
			if d.w != nil && len(d.w.data) > 0 {
				viol("P14", "dry-run-wrote", "a dry run wrote to the destination of command %d", c.id)
			}
		}
	}
	if ran && err != nil && !bad {
		viol("P14", "dry-run-failed", "a dry run failed: %v", err)
	}
}

// wrapTarget puts a target into a built-in one that runs it (and nothing else).
func wrapTarget(id int, t fab.Target) fab.Target {
	out := sname("/proj/wrapped", id)
	switch zsim.Gen(12) {
	case 1:
		return fab.ArgTarget(t, "-x", "y")
	case 2:
		return fab.All(t)
	case 3:
		return fab.Deps(t, fab.Seq())
	case 4:
		return fab.Deps(fab.Seq(), t)
	case 5:
		return fab.Files(t, nil, []string{out})
	case 6:
		fab.Files(t, nil, []string{out})
		return fab.Files(fab.Seq(), []string{out}, []string{out + ".end"})
	case 7:
		return fab.Seq(fab.All(), wrapTarget(id, t))
	}
	return t
}

// cancelRun runs commands under one or two controllers and cancels the first one.
func cancelRun() {
	w := &cworld{}
	w.generate(4, true)
	zsim.FindProgram = nil
	two := zsim.GenBool(1, 2)
	side := make([]bool, len(w.cmds)) // with the second controller
	for i, c := range w.cmds {
		side[i] = two && zsim.GenBool(1, 2)
		c.traps = zsim.GenBool(1, 3)
		for p := range c.ops {
			for k := range c.ops[p] {
				if c.ops[p][k].kind == 2 && zsim.GenBool(1, 2) {
					c.ops[p][k].n = int64(1+zsim.Gen(20)) * 3600e9
				}
			}
			if zsim.GenBool(1, 3) {
				c.ops[p] = append(c.ops[p], cop{kind: 2, n: 100 * 3600e9})
			}
			if zsim.GenBool(1, 6) && !side[i] {
				c.ops[p] = append([]cop{{kind: 4, n: int64(1+zsim.Gen(20)) * 3600e9}}, c.ops[p]...)
			}
		}
		for _, d := range []*cdest{&c.out, &c.err} {
			if d.w != nil {
				d.w.failAt, d.closeErr, d.w.cErr = -1, false, nil
			}
			if d.nodir {
				d.kind, d.nodir = dNone, false
			}
		}
		c.inFail = false
		if c.out.kind == dFile && c.err.kind == dFile && c.out.file == c.err.file {
			c.err.app = c.out.app
		}
	}
	at := int64(zsim.Gen(400))
	how := zsim.Gen(4) // 0, 1: cancel after some steps; 2: after some time; 3: by a deadline
	if how >= 2 {
		at = int64(1+zsim.Gen(120)) * 1e6
		if zsim.GenBool(1, 3) {
			at *= 3600 * 1000
		}
	}
	again := zsim.GenBool(1, 4)
	p, run := w.setup(false)
	_ = p
	var cancelled, cancelling bool // after and before the call of cancel
	var cancelledAt int64
	known := map[*zsim.Proc]*ccmd{}
	zsim.OnExec = func(p *zsim.Proc, path string, args []string) {
		for _, c := range w.cmds {
			if strings.Contains(strings.Join(args, " "), fmt.Sprintf("s%d.", c.id)) {
				known[p] = c
				p.Traps = c.traps
				c.procs = append(c.procs, p)
				if c.sawCancel && !side[c.id] {
					viol("P19", "started-late", "command %d was started although its target began to run after the cancellation", c.id)
				}
			}
		}
	}
	var errs [2]error
	var doneAt [2]int64
	var done [2]bool
	run(func(ctx context.Context, con *fab.Controller) {
		group := func(s bool) (ts []fab.Target) {
			for _, c := range w.cmds {
				if side[c.id] != s {
					continue
				}
				c := c
				ts = append(ts, wrapTarget(c.id, fab.F(func(ctx context.Context, con *fab.Controller) error {
					c.sawCancel = cancelled && !s
					c.result = con.Run(ctx, c.target)
					c.ran = true
					return c.result
				})))
			}
			return
		}
		ctx1 := ctx
		var cancel func()
		if how == 3 {
			ctx1, cancel = context.WithTimeout(ctx, timeDuration(at))
			zsim.GoNamed("deadline", func() {
				zsim.Recv1(ctx1.Done())
				if !cancelled && !done[0] {
					cancelled, cancelling, cancelledAt = true, true, zsim.Now()
					zsim.CountFault("deadline")
				}
			}).Daemon()
		} else {
			ctx1, cancel = context.WithCancel(ctx)
			zsim.GoNamed("canceller", func() {
				if how < 2 {
					for i := int64(0); i < at && !done[0]; i++ {
						zsim.Yield(1103)
					}
				} else {
					zsim.Sleep(at)
				}
				if done[0] {
					return
				}
				zsim.CountFault("cancel")
				cancelling = true
				cancel()
				cancelled, cancelledAt = true, zsim.Now()
				if again {
					cancel()
				}
			}).Daemon()
		}
		var other *zsim.Task
		if two {
			other = zsim.GoNamed("second build", func() {
				con2 := fab.NewController("/proj")
				errs[1] = con2.Run(ctx, group(true)...)
				doneAt[1], done[1] = zsim.Now(), true
			})
		}
		ts := group(false)
		switch zsim.Gen(3) {
		case 1:
			ts = []fab.Target{fab.Seq(ts...)}
		case 2:
			ts = []fab.Target{fab.Deps(fab.Seq(), ts...)}
		}
		errs[0] = con.Run(ctx1, ts...)
		doneAt[0], done[0] = zsim.Now(), true
		if cancelled && doneAt[0]-cancelledAt > 30e9 {
			// A command that ended by itself (so was not killed) leaves fab waiting for whoever still holds
			// its output open (a known finding); any other delay is another matter.
			held := int64(-1)
			for _, c := range w.cmds {
				for _, st := range c.starts {
					if !side[c.id] && st.ended && st.heldTo > held {
						held = st.heldTo
					}
				}
			}
			if doneAt[0] <= held+30e9 {
				viol("P19", "slow-return-background", "Run returned %d s after the cancellation, waiting for a background process of a command that had ended by itself", (doneAt[0]-cancelledAt)/1e9)
			}
			viol("P19", "slow-return", "Run returned %d s after the cancellation", (doneAt[0]-cancelledAt)/1e9)
		}
		for _, pr := range zsimProcs(known) {
			if c := known[pr]; !side[c.id] && !pr.Gone() {
				viol("P19", "left-running", "Run returned while a process of command %d was still running", c.id)
			}
		}
		for _, c := range w.cmds {
			if side[c.id] || !c.ran {
				continue
			}
			short := len(c.starts) < c.parts
			for _, pr := range c.procs {
				if pr.Signal == "killed" { // fab killed it
					short = true
				}
			}
			if short && c.result == nil {
				viol("P19", "cut-short-hidden", "command %d was cut short or never started, and reports success", c.id)
			}
			if c.result != nil && errs[0] == nil {
				viol("P19", "error-lost", "command %d reports an error but the build succeeds", c.id)
			}
			if c.result != nil && !cancelling && !(how == 3 && zsim.Now() >= at) {
				ok := false
				for _, st := range c.starts {
					ok = ok || st.exit != 0 || !st.ended
				}
				if !ok {
					viol("P19", "spurious-error", "command %d fails although nothing was cancelled: %v", c.id, c.result)
				}
			}
		}
		if cancelled {
			for _, c := range w.cmds {
				if !side[c.id] && !c.ran && errs[0] == nil {
					viol("P19", "cut-short-hidden", "command %d never ran, and the build succeeds", c.id)
				}
			}
		}
		cancel()
		if other != nil {
			other.Join()
			for _, c := range w.cmds {
				if !side[c.id] {
					continue
				}
				bad := false
				for _, st := range c.starts {
					bad = bad || st.exit != 0 || st.short
				}
				if c.result != nil && !bad {
					viol("P19", "other-affected", "a build that was not cancelled failed: %v", c.result)
				}
				for _, st := range c.starts {
					if !st.ended && !bad {
						viol("P19", "other-affected", "a command of a build that was not cancelled did not end normally")
					}
				}
			}
		}
	})
}

func timeDuration(d int64) rtime.Duration { return rtime.Duration(d) }

func zsimProcs(m map[*zsim.Proc]*ccmd) (out []*zsim.Proc) {
	for p := range m {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return
}

var cmdReal = []string{"command.go, runner.go, yaml.go, seq.go, all.go: the code of /repo, compiled from the working tree"}
var cmdStub = []string{"os/exec, pipes, files, processes, scheduler, clock: simulated (pipes with short reads and writes, inherited file descriptors share one offset)", "the programs: scripts that write, sleep, read standard input and exit or die by a signal"}

func init() {
	c := func(id, name string, weight int, fn func(), classes ...string) scenario {
		return scenario{name: name, weight: weight, maxSteps: 400000, fn: forProp(id, fn), post: only(classes...)}
	}
	register(&check{id: "P15", scenarios: []scenario{
		c("P15", "one", 4, commandRun(cmdOpt{max: 1}), "deadlock"),
		c("P15", "several", 4, commandRun(cmdOpt{max: 4}), "deadlock"),
		c("P15", "faults", 3, commandRun(cmdOpt{max: 1, faults: true}), "deadlock"),
		c("P15", "faults-several", 2, commandRun(cmdOpt{max: 3, faults: true}), "deadlock"),
		c("P15", "own-output-fails", 2, commandRun(cmdOpt{max: 2, sink: true}), "deadlock"),
	}, real: cmdReal, stub: cmdStub, assume: []string{"programs do not leave children behind that hold their output open"},
		rule: "Each run draws one to four commands (every kind of destination, input, directory, environment, missing programs and files, output files given twice, destinations that fail or cannot be closed), from Go or YAML, runs them in sequence or at once under a drawn schedule and faults, and compares outcome, everything the programs saw, and every byte at every destination with a model."})
}
