//go:build go1.22

package main

import (
	"fmt"
	"github.com/bobg/fab/zsim/shim/context"
	"github.com/bobg/fab/zsim/shim/os"
	"io"
	"path"
	"regexp"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zsim"
)

// The definitions world (P30): a project is defined twice, in YAML files and with the Go constructors, and
// goes through the same history twice, once with each definition. Everything that can be observed of
// the two histories must be the same.

type ykind int

const (
	yCmd ykind = iota
	yShellList
	ySeq
	yAll
	yDeps
	yArg
	yFiles
	yClean
	yArgs // a custom type that shows the arguments it is run with
	yRef
)

// ylist is a list of strings in some notation.
type ylist struct {
	elems []string   // as they are
	lists [][]string // if not nil, elems[i] is a custom list of these instead
	glob  []string   // if not nil, elems[i] is a pattern if it has a '*'
	whole bool       // the custom list takes the place of the whole list
	bare  bool       // without quotes where possible
}

type ynode struct {
	kind  ykind
	id    int
	dir   string
	kids  []*ynode
	ref   *ynode
	spell int
	form  int

	// commands
	cmd, shell    string
	shells        []string
	args, env     *ylist
	stdin         string
	out, err, cwd string

	in, outs, files *ylist
	auto            bool
}

type yobs struct {
	readErr bool
	failed  bool
	execs   []string
	out     string
	errs    string
	disk    map[string]string
}

type yround struct {
	verbose, force, dry, nodb bool
	names                     []string
	edits                     []func()
	deny                      map[string]string
	env                       []string
	topdir, cwd               string
	killAt                    int // the process is killed in its k-th execution
}

type ygworld struct {
	conc  bool
	named []*ynode
	n     int
	bad   map[string]bool // labels of commands that fail

	errOnly map[string]bool // labels of commands that write to standard error

	proc   *zsim.Proc
	killAt int
	makes  map[string][]string // label -> files the command writes
	obs    *yobs
	fileT  []*ynode
}

const ytop = "/top"

var ygdirs = []string{"", "d", "d/e", "x y"}

func (w *ygworld) label() string {
	w.n++
	l := sname("c", w.n)
	w.errOnly[l] = zsim.GenBool(1, 2)
	return l
}

func (w *ygworld) list(max int, junk ...string) *ylist {
	l := &ylist{}
	for k := zsim.Gen(max + 1); k > 0; k-- {
		l.elems = append(l.elems, junk[zsim.Gen(len(junk))])
		var sub []string
		if zsim.GenBool(1, 5) {
			sub = []string{}
			for j := zsim.Gen(3); j > 0; j-- {
				sub = append(sub, junk[zsim.Gen(len(junk))])
			}
		}
		l.lists = append(l.lists, sub)
	}
	l.whole = zsim.GenBool(1, 8)
	l.bare = zsim.GenBool(1, 2)
	return l
}

// value is what the list stands for in a YAML file of directory dir.
func (l *ylist) value(dir string) (out []string) {
	if l == nil {
		return nil
	}
	for i, e := range l.elems {
		switch {
		case strings.Contains(e, "*") && l.glob != nil:
			for _, e := range strings.Split(e, ";") {
				var names []string
				for n := range zsim.Disk.Tree(path.Join(ytop, dir)) {
					n = strings.TrimSuffix(strings.TrimPrefix(n, path.Join(ytop, dir)+"/"), "/")
					if ok, _ := path.Match(e, n); ok {
						names = append(names, n)
					}
				}
				sort.Strings(names)
				out = append(out, names...)
			}
		case l.lists != nil && l.lists[i] != nil:
			for _, s := range l.lists[i] {
				out = append(out, simList(dir, s))
			}
		default:
			out = append(out, e)
		}
	}
	if l.whole {
		for i := range out {
			out[i] = simList(dir, out[i])
		}
	}
	return
}

func simList(dir, s string) string {
	if strings.HasPrefix(s, "in") || strings.HasPrefix(s, "junk") || strings.HasPrefix(s, "out") {
		return s
	}
	return "<" + s + "@" + dir + ">"
}

func (l *ylist) text() string {
	var xs []string
	for i, e := range l.elems {
		switch {
		case strings.Contains(e, "*") && l.glob != nil:
			xs = append(xs, "!Glob ["+quoteAll(strings.Split(e, ";"))+"]")
		case l.lists != nil && l.lists[i] != nil:
			xs = append(xs, "!SimList ["+quoteAll(l.lists[i])+"]")
		default:
			if plain.MatchString(e) && l.bare {
				xs = append(xs, e)
			} else {
				xs = append(xs, q(e))
			}
		}
	}
	s := "[" + strings.Join(xs, ", ") + "]"
	if l.whole {
		s = "!SimList " + s
	}
	return s
}

// plain matches scalars that need no quotes (and that may look like a number, for example).
var plain = regexp.MustCompile(`^[A-Za-z0-9.+][A-Za-z0-9.+_-]*$`)

func quoteAll(xs []string) string {
	var out []string
	for _, x := range xs {
		out = append(out, q(x))
	}
	return strings.Join(out, ", ")
}

func (w *ygworld) kid(dir string, depth int) *ynode {
	if len(w.named) > 0 && zsim.GenBool(1, 3) {
		return &ynode{kind: yRef, dir: dir, ref: w.named[zsim.Gen(len(w.named))], spell: zsim.Gen(3)}
	}
	return w.draw(dir, depth+1)
}

func (w *ygworld) command(dir string, n *ynode) {
	n.args = w.list(3, "a", "b c", "", "-x", "$HOME", "in0", "é", "true", "12", "~", pick("0644", "1.10", "1e3", "0x1F", "yes", "null", "1_000", "2001-01-01", ".5", "+1"))
	n.env = w.list(2, "SIMA=1", "SIMB=", "SIMA=2", "SIMC=x y")
	for i := range n.env.lists {
		n.env.lists[i] = nil
	}
	n.env.whole = false
	n.stdin = pick("", "", "", "in0", "in1", "$stdin", "/top/in0", "missing", "../in0")
	o := func(k string) string {
		f := fmt.Sprintf("%s%d", k, n.id)
		return pick("", "", "$stdout", "$stderr", "$discard", "$indent", "$verbose", f, ">>"+f, ">> "+f, "/top/"+f, ">>/top/"+f, "../"+f+".up", "nodir/"+f)
	}
	n.out, n.err = o("o"), o("e")
	if zsim.GenBool(1, 8) {
		n.out, n.err = pick("both", ">>both", ">> both"), pick("both", ">>both", "./both")
		n.out += fmt.Sprint(n.id)
		n.err += fmt.Sprint(n.id)
	}
	n.cwd = pick("", "", "", ".", "sub", "/top/d", "..", "missing")
}

func (w *ygworld) draw(dir string, depth int) *ynode {
	w.n++
	n := &ynode{id: w.n, dir: dir, form: zsim.Gen(4)}
	n.kind = []ykind{yCmd, yCmd, yCmd, yShellList, ySeq, yAll, yDeps, yArg, yFiles, yFiles, yClean, yArgs}[zsim.Gen(12)]
	if depth > 2 && n.kind >= ySeq && n.kind <= yFiles {
		n.kind = yCmd
	}
	kids := func(min, max int) {
		for k := min + zsim.Gen(max-min+1); k > 0; k-- {
			n.kids = append(n.kids, w.kid(dir, depth))
		}
	}
	most := 3
	if !w.conc {
		most = 1
	}
	switch n.kind {
	case yCmd:
		l := w.label()
		w.bad[l] = zsim.GenBool(1, 8)
		w.command(dir, n)
		if zsim.GenBool(1, 2) {
			n.cmd = pick("t", "/bin/t", "t", "nosuchprogram")
			n.args.elems = append([]string{l}, n.args.elems...)
			n.args.lists = append([][]string{nil}, n.args.lists...)
			n.args.whole = false
		} else {
			n.shell = l + " | x 'y'"
			n.args = nil
			if zsim.GenBool(1, 12) {
				n.cmd = "t"
			}
		}
	case yShellList:
		w.command(dir, n)
		n.args = nil
		for k := zsim.Gen(4); k > 0; k-- {
			l := w.label()
			w.bad[l] = zsim.GenBool(1, 12)
			n.shells = append(n.shells, l)
		}
	case ySeq:
		kids(0, 3)
	case yAll:
		kids(0, most)
	case yDeps:
		kids(1, 1+most)
	case yArg:
		kids(1, 1)
		n.args = w.list(3, "a", "b c", "", "-x")
		n.args.whole = false
	case yArgs:
	case yFiles:
		n.in = w.list(2, "in0", "in1", "../in0", "/top/in1", "missing", "sub")
		if zsim.GenBool(1, 3) {
			n.in.glob = []string{}
			n.in.elems = append(n.in.elems, pick("in*", "*.x", "sub/*", "in*;*.x", "sub/*;no*;in?;in*"))
			n.in.lists = append(n.in.lists, nil)
		}
		if len(w.fileT) > 0 && zsim.GenBool(1, 2) {
			f := w.fileT[zsim.Gen(len(w.fileT))]
			n.in.elems = append(n.in.elems, path.Join(ytop, f.dir, f.outs.elems[0]))
			n.in.lists = append(n.in.lists, nil)
		}
		n.outs = &ylist{elems: []string{fmt.Sprintf("out%d", n.id)}}
		if zsim.GenBool(1, 3) {
			n.outs.elems = append(n.outs.elems, fmt.Sprintf("outdir%d", n.id))
		}
		n.auto = !w.conc && zsim.GenBool(1, 2)
		c := &ynode{kind: yCmd, id: n.id, dir: dir, cmd: "t", args: &ylist{elems: []string{w.label()}}}
		c.args.elems = append(c.args.elems, fmt.Sprint(zsim.Gen(3)))
		l := c.args.elems[0]
		w.bad[l] = zsim.GenBool(1, 12)
		for _, o := range n.outs.elems {
			o = path.Join(ytop, dir, o)
			if strings.Contains(o, "outdir") {
				o += "/f"
			}
			w.makes[l] = append(w.makes[l], o)
		}
		n.kids = []*ynode{c}
		if zsim.GenBool(1, 4) {
			n.kids[0] = &ynode{kind: ySeq, dir: dir, kids: []*ynode{c, w.kid(dir, depth)}}
		}
		w.fileT = append(w.fileT, n)
	case yClean:
		n.files = w.list(3, sname("junk", n.id), sname("jk/junk", n.id), sname("/top/junk", n.id), sname("nodir/junk", n.id))
		n.auto = !w.conc && zsim.GenBool(1, 2)
		if n.form%2 == 1 && !n.auto {
			n.files.whole = false // (the tag is !Clean)
		}
	}
	return n
}

func (n *ynode) name() string  { return sname("T", n.id) }
func (n *ynode) qname() string { return path.Join(n.dir, n.name()) }

func (n *ynode) refText() string {
	r := n.ref
	if r.dir == "" && n.spell == 0 {
		return r.name()
	}
	if r.dir == n.dir && n.dir != "" {
		return "./" + r.name()
	}
	d, _ := relDir(n.dir, r.dir)
	if d == "" {
		return r.name()
	}
	return d + "/" + r.name()
}

// text gives the YAML form of the node, as a value.
func (n *ynode) text(ind string) string {
	var b strings.Builder
	in2 := ind + "  "
	list := func(kids []*ynode) string {
		if len(kids) == 0 {
			return " []\n"
		}
		s := "\n"
		for _, k := range kids {
			s += in2 + "- " + k.text(in2+"  ")
		}
		return s
	}
	field := func(name, val string) {
		if val != "" {
			fmt.Fprintf(&b, "%s%s: %s\n", in2, name, val)
		}
	}
	lfield := func(name string, l *ylist) {
		if l != nil && (len(l.elems) > 0 || n.form == 1) {
			field(name, l.text())
		}
	}
	qs := func(s string) string {
		if s == "" {
			return ""
		}
		return q(s)
	}
	switch n.kind {
	case yRef:
		return q(n.refText()) + "\n"
	case yCmd, yShellList:
		b.WriteString("!Command\n")
		lfield("Args", n.args)
		field("Cmd", qs(n.cmd))
		field("Shell", qs(n.shell))
		if n.kind == yShellList {
			field("Shell", "["+quoteAll(n.shells)+"]")
		}
		field("Stdout", qs(n.out))
		lfield("Env", n.env)
		field("Stdin", qs(n.stdin))
		field("Dir", qs(n.cwd))
		field("Stderr", qs(n.err))
	case ySeq:
		b.WriteString("!Seq" + list(n.kids))
	case yAll:
		b.WriteString("!All" + list(n.kids))
	case yDeps:
		if n.form%2 == 0 {
			b.WriteString("!Deps" + list(n.kids))
			break
		}
		b.WriteString("!Deps\n")
		post := in2 + "Post: " + n.kids[0].text(in2)
		if n.form == 1 {
			b.WriteString(post)
		}
		if len(n.kids) > 1 {
			b.WriteString(in2 + "Pre:\n")
			for _, k := range n.kids[1:] {
				b.WriteString(in2 + "  - " + k.text(in2+"    "))
			}
		}
		if n.form != 1 {
			b.WriteString(post)
		}
	case yArg:
		b.WriteString("!ArgTarget" + list(n.kids))
		for i, e := range n.args.elems {
			if l := n.args.lists[i]; l != nil {
				fmt.Fprintf(&b, "%s- !SimList [%s]\n", in2, quoteAll(l))
			} else {
				fmt.Fprintf(&b, "%s- %s\n", in2, q(e))
			}
		}
	case yFiles:
		b.WriteString("!Files\n")
		if n.form%2 == 0 {
			field("Out", n.outs.text())
		}
		b.WriteString(in2 + "Target: " + n.kids[0].text(in2))
		lfield("In", n.in)
		if n.form%2 == 1 {
			field("Out", n.outs.text())
		}
		if n.auto || n.form == 2 {
			field("Autoclean", fmt.Sprint(n.auto))
		}
	case yClean:
		if n.auto || n.form%2 == 0 {
			b.WriteString("!Clean\n")
			lfield("Files", n.files)
			field("Autoclean", fmt.Sprint(n.auto))
		} else {
			b.WriteString("!Clean " + n.files.text() + "\n")
		}
	case yArgs:
		fmt.Fprintf(&b, "!SimArgs %d\n", n.id)
	}
	return b.String()
}

// join is how file names in YAML are understood.
func (n *ynode) join(f string) string {
	if path.IsAbs(f) {
		return path.Clean(f)
	}
	return path.Join(ytop, n.dir, f)
}

// ygTop is the top directory as the process has it.
var ygTop string

func (n *ynode) gojoin(f string) string {
	if path.IsAbs(f) {
		return path.Clean(f)
	}
	return path.Join(ygTop, n.dir, f)
}

func (n *ynode) joinAll(l *ylist) (out []string) {
	for _, f := range l.value(n.dir) {
		out = append(out, n.gojoin(f))
	}
	return
}

// target makes the target with the Go constructors.
func (w *ygworld) target(n *ynode, made map[*ynode]fab.Target) fab.Target {
	if t := made[n]; t != nil {
		return t
	}
	var kids []fab.Target
	for _, k := range n.kids {
		kids = append(kids, w.target(k, made))
	}
	var t fab.Target
	switch n.kind {
	case yRef:
		return w.target(n.ref, made)
	case yCmd:
		t = n.goCommand(n.shell, false)
	case yShellList:
		var cs []fab.Target
		for i, s := range n.shells {
			cs = append(cs, n.goCommand(s, i > 0))
		}
		t = fab.Seq(cs...)
	case ySeq:
		t = fab.Seq(kids...)
	case yAll:
		t = fab.All(kids...)
	case yDeps:
		t = fab.Deps(kids[0], kids[1:]...)
	case yArg:
		t = fab.ArgTarget(kids[0], n.args.value(n.dir)...)
	case yFiles:
		t = fab.Files(kids[0], n.joinAll(n.in), n.joinAll(n.outs), fab.Autoclean(n.auto))
	case yClean:
		l := n.files
		t = &fab.Clean{Files: n.joinAll(l), Autoclean: n.auto}
	case yArgs:
		t = w.argsTarget(fmt.Sprint(n.id))
	}
	made[n] = t
	return t
}

type ygArgs struct {
	w  *ygworld
	id string
}

func (*ygArgs) Desc() string { return "SimArgs" }
func (a *ygArgs) Run(ctx context.Context, con *fab.Controller) error {
	args := fab.GetArgs(ctx)
	if a.w.conc {
		args = nil // who gets here first decides
	}
	a.w.obs.execs = append(a.w.obs.execs, fmt.Sprintf("SimArgs %s %q", a.id, args))
	return nil
}

func (w *ygworld) argsTarget(id string) fab.Target { return &ygArgs{w, id} }

func (n *ynode) goCommand(shell string, later bool) *fab.Command {
	c := &fab.Command{Shell: shell, Cmd: n.cmd, Args: n.args.value(n.dir), Env: n.env.value(n.dir), Dir: n.gojoin(n.cwd)}
	switch n.stdin {
	case "":
	case "$stdin":
		c.Stdin = os.Stdin
	default:
		c.StdinFile = n.gojoin(n.stdin)
	}
	indent := func(f *os.File, always bool) func(context.Context, *fab.Controller) io.Writer {
		return func(ctx context.Context, con *fab.Controller) io.Writer {
			if always || fab.GetVerbose(ctx) {
				return con.IndentingCopier(f, "    ")
			}
			return nil
		}
	}
	for i, o := range []string{n.out, n.err} {
		var wr io.Writer
		var fn func(context.Context, *fab.Controller) io.Writer
		file := ""
		own := []*os.File{os.Stdout, os.Stderr}[i]
		switch o {
		case "":
		case "$stdout":
			wr = os.Stdout
		case "$stderr":
			wr = os.Stderr
		case "$discard":
			wr = io.Discard
		case "$indent":
			fn = indent(own, true)
		case "$verbose":
			fn = indent(own, false)
		default:
			f, app := strings.CutPrefix(o, ">>")
			file = n.gojoin(strings.TrimLeft(f, " "))
			if app || later {
				file = ">>" + file
			}
		}
		if i == 0 {
			c.Stdout, c.StdoutFn, c.StdoutFile = wr, fn, file
		} else {
			c.Stderr, c.StderrFn, c.StderrFile = wr, fn, file
		}
	}
	return c
}

func (w *ygworld) program(ch *zsim.Child) int {
	l := strings.TrimPrefix(strings.Join(ch.Args, " "), "-c ")
	l = strings.Fields(l + " ?")[0]
	in, _ := ch.ReadAllIn()
	var env []string
	for _, e := range ch.Proc.Env {
		if strings.HasPrefix(e, "SIM") {
			env = append(env, e)
		}
	}
	w.obs.execs = append(w.obs.execs, fmt.Sprintf("%s %q in %s env %q stdin %q", ch.Path, ch.Args, ch.Proc.Cwd, env, in))
	if w.killAt > 0 && len(w.obs.execs) == w.killAt {
		zsim.CountFault("process-crash")
		w.proc.KillTree("crash")
		return 1
	}
	// One that writes to both may do so to one place, in any order.
	if !w.conc {
		if w.errOnly[l] {
			ch.Err("error output of " + l + "\n\nand more")
		} else {
			ch.Out("output of " + l + "\nand more")
		}
	} else {
		ch.Out("output of " + l + "\n")
		ch.Err(" error output of " + l + " ")
	}
	for _, f := range w.makes[l] {
		zsim.Disk.Put(f, strings.Join(ch.Args, " "))
	}
	if w.bad[l] {
		return 1
	}
	return 0
}

func (w *ygworld) yamlFiles() (files []string) {
	for _, d := range ygdirs {
		var b strings.Builder
		for _, n := range w.named {
			if n.dir == d {
				fmt.Fprintf(&b, "# Doc of %s.\n%s: %s\n", n.name(), n.name(), n.text(""))
			}
		}
		s := b.String()
		if s == "" && d != "" {
			continue
		}
		if d != "" {
			s = "_dir: " + d + "\n\n" + s
		}
		if s == "" {
			s = "{}\n"
		}
		f := path.Join(ytop, d, "fab.yaml")
		zsim.Disk.Put(f, s)
		files = append(files, f)
		if zsim.Tracing() {
			zsim.Log("%s:\n%s", f, s)
		}
	}
	return
}

// round runs one process of the history.
func (w *ygworld) round(i int, r *yround, viaYAML bool, db fab.HashDB) *yobs {
	w.obs = &yobs{}
	o := w.obs
	resetFab()
	out, errs := &zsim.Sink{}, &zsim.Sink{}
	p := zsim.NewProc(map[bool]string{true: sname("yaml", i), false: sname("go", i)}[viaYAML], nil)
	p.Cwd = r.cwd
	p.Env = append([]string{"PATH=/bin", "HOME=/root", "PWD=" + r.cwd}, r.env...)
	p.Stdin, p.Stdout, p.Stderr = &zsim.Sink{In: []byte("the input of fab\n")}, out, errs
	zsim.Disk.Deny = r.deny
	w.proc, w.killAt = p, r.killAt
	zsim.Disk.FaultPath = func(op, name string) bool { return false }
	if w.conc { // who reads it first would get it
		p.Stdin = &zsim.Sink{}
	}
	p.Faulty = len(r.deny) > 0
	p.Start(func() {
		con := fab.NewController(r.topdir)
		if viaYAML {
			fab.RegisterYAMLTarget("SimArgs", func(_ *fab.Controller, n *yaml.Node, _ string) (fab.Target, error) {
				return w.argsTarget(n.Value), nil
			})
			fab.RegisterYAMLStringList("SimList", func(con *fab.Controller, n *yaml.Node, dir string) ([]string, error) {
				xs, err := con.YAMLStringListFromNodes(n.Content, dir)
				for i := range xs {
					xs[i] = simList(dir, xs[i])
				}
				return xs, err
			})
			for _, d := range ygdirs {
				need := d == ""
				for _, n := range w.named {
					if t, _ := con.RegistryTarget(n.qname()); n.dir == d && t == nil {
						need = true
					}
				}
				if !need {
					continue
				}
				if err := con.ReadYAMLFile(d); err != nil {
					viol("P30", "refused", "a valid YAML file is refused: %v", err)
					return
				}
			}
		} else {
			made := map[*ynode]fab.Target{}
			for _, n := range w.named {
				if _, err := con.RegisterTarget(n.qname(), "Doc of "+n.name()+".", w.target(n, made)); err != nil {
					zsim.Bug("%v", err)
				}
			}
		}
		ctx := context.Background()
		ctx = fab.WithVerbose(ctx, r.verbose)
		ctx = fab.WithForce(ctx, r.force)
		ctx = fab.WithDryRun(ctx, r.dry)
		if !r.nodb {
			ctx = fab.WithHashDB(ctx, db)
		}
		ts, err := con.ParseArgs(r.names)
		if err != nil {
			viol("P30", "name-lost", "a target that is defined is not found: %v", err)
			return
		}
		con.ListTargets(os.Stdout)
		err = con.Run(ctx, ts...)
		o.failed = err != nil
		if zsim.Tracing() {
			zsim.Log("Run %q = %v", r.names, err)
		}
	})
	p.Wait()
	zsim.Disk.Deny = nil
	if p.Panic != "" {
		zsim.Fail("panic", "%s", p.Panic)
	}
	o.out, o.errs = string(out.Data), string(errs.Data)
	if w.conc {
		sort.Strings(o.execs)
		o.out, o.errs = unordered(o.out), unordered(o.errs)
	}
	o.disk = zsim.Disk.Tree(ytop)
	return o
}

// unordered forgets what depends on the schedule: the order and the indentation.
func unordered(s string) string {
	ls := strings.Split(strings.Join(strings.Fields(s), ""), "")
	sort.Strings(ls)
	return strings.Join(ls, "")
}

func defsRun() {
	w := &ygworld{conc: zsim.GenBool(1, 3), bad: map[string]bool{}, errOnly: map[string]bool{}, makes: map[string][]string{}}
	zsim.FindProgram = func(p string) (zsim.Program, bool) {
		return w.program, p == "/bin/t" || p == "/bin/sh" || p == "/bin/zsh"
	}
	for _, d := range ygdirs {
		zsim.Disk.MkDirs(path.Join(ytop, d, "sub"))
		zsim.Disk.MkDirs(path.Join(ytop, d, "jk"))
	}
	nt := 1 + zsim.Gen(5)
	for i := 0; i < nt; i++ {
		n := w.draw(ygdirs[zsim.Gen(len(ygdirs))], 0)
		w.named = append(w.named, n)
	}
	var inputs []string
	for _, d := range ygdirs {
		for _, f := range []string{"in0", "in1", "sub/s0", "a.x", "in2"} {
			if f != "in2" || zsim.GenBool(1, 3) {
				f = path.Join(ytop, d, f)
				zsim.Disk.Put(f, "content of "+f)
				inputs = append(inputs, f)
			}
		}
	}
	var junk []string
	for _, n := range w.all() {
		if n.kind == yClean {
			for _, f := range n.files.elems {
				f = n.join(f)
				if !strings.Contains(f, "nodir") && zsim.GenBool(3, 4) {
					junk = append(junk, f)
					zsim.Disk.Put(f, "junk")
				}
			}
		}
		if n.kind == yFiles && zsim.GenBool(1, 4) {
			zsim.Disk.Put(n.join(n.outs.elems[0]), "old")
		}
	}
	w.yamlFiles()
	var rounds []*yround
	at := [][2]string{{ytop, ytop}, {ytop, ytop}, {".", ytop}, {"", ytop}, {"..", "/top/d"}, {"../top", ytop}, {ytop, "/tmp"}}[zsim.Gen(7)]
	topdir, cwd := at[0], at[1]
	ygTop = topdir
	for k := 1 + zsim.Gen(4); k > 0; k-- {
		r := &yround{verbose: zsim.GenBool(1, 3), force: zsim.GenBool(1, 6), dry: zsim.GenBool(1, 8), nodb: zsim.GenBool(1, 8), topdir: topdir, cwd: cwd}
		nn := 1
		if w.conc {
			nn = 1 + zsim.Gen(3)
		}
		for ; nn > 0; nn-- {
			r.names = append(r.names, w.named[len(w.named)-1-zsim.Gen(min(3, len(w.named)))].qname())
		}
		if zsim.GenBool(1, 8) {
			r.names = append(r.names[:1], "-x", "an arg")
		}
		if !w.conc && zsim.GenBool(1, 5) {
			r.killAt = 1 + zsim.Gen(4)
		}
		if zsim.GenBool(1, 3) {
			r.env = append(r.env, pick("SHELL=/bin/zsh", "SHELL=/bin/t", "SIMA=0"))
		}
		if zsim.GenBool(1, 6) {
			r.deny = map[string]string{inputs[zsim.Gen(len(inputs))]: pick("deny-eacces", "deny-eio", zsim.BadSector)}
		}
		for e := zsim.Gen(3); e > 0; e-- {
			f, c := inputs[zsim.Gen(len(inputs))], sname("edited", zsim.Gen(3))
			switch zsim.Gen(6) {
			case 0:
				r.edits = append(r.edits, func() {
					if zsim.Disk.Exists(f) {
						zsim.Disk.Del(f)
					}
				})
			case 1:
				if len(w.fileT) > 0 {
					n := w.fileT[zsim.Gen(len(w.fileT))]
					g := n.join(n.outs.elems[0])
					r.edits = append(r.edits, func() {
						if zsim.Disk.Exists(g) {
							zsim.Disk.Del(g)
						}
					})
				}
			case 2:
				for _, g := range junk {
					r.edits = append(r.edits, func() { zsim.Disk.Put(g, "junk again") })
				}
			default:
				r.edits = append(r.edits, func() { zsim.Disk.Put(f, c) })
			}
		}
		rounds = append(rounds, r)
	}
	before := zsim.Disk.Tree(ytop)
	var all [2][]*yobs
	for m := 0; m < 2; m++ {
		db := newModelDB()
		for i, r := range rounds {
			for _, e := range r.edits {
				e()
			}
			all[m] = append(all[m], w.round(i, r, m == 0, db))
		}
		if m == 0 { // start again
			now := zsim.Disk.Tree(ytop)
			for _, f := range sortedKeys(now) {
				if _, ok := before[f]; !ok && zsim.Disk.Exists(strings.TrimSuffix(f, "/")) {
					zsim.Disk.Del(strings.TrimSuffix(f, "/"))
				}
			}
			for _, f := range sortedKeys(before) {
				if strings.HasSuffix(f, "/") {
					zsim.Disk.MkDirs(strings.TrimSuffix(f, "/"))
				} else if now[f] != before[f] || !zsim.Disk.Exists(f) {
					zsim.Disk.Put(f, before[f])
				}
			}
		}
	}
	for i, r := range rounds {
		y, g := all[0][i], all[1][i]
		where := fmt.Sprintf("in run %d (targets %q, verbose %v, force %v, dry run %v)", i+1, r.names, r.verbose, r.force, r.dry)
		switch {
		case y.failed != g.failed:
			viol("P30", "outcome", "%s the YAML definition has failed=%v, the Go definition failed=%v", where, y.failed, g.failed)
		case strings.Join(y.execs, "\n") != strings.Join(g.execs, "\n"):
			viol("P30", "executions", "%s the YAML definition executes %s, the Go definition %s", where, firstDiff(y.execs, g.execs), firstDiff(g.execs, y.execs))
		case y.out != g.out:
			viol("P30", "output", "%s standard output has %s with the YAML definition, %s with the Go definition", where, firstDiff(strings.Split(y.out, "\n"), strings.Split(g.out, "\n")), firstDiff(strings.Split(g.out, "\n"), strings.Split(y.out, "\n")))
		case y.errs != g.errs:
			viol("P30", "output", "%s standard error has %s with the YAML definition, %s with the Go definition", where, firstDiff(strings.Split(y.errs, "\n"), strings.Split(g.errs, "\n")), firstDiff(strings.Split(g.errs, "\n"), strings.Split(y.errs, "\n")))
		default:
			if d := treeDiff(y.disk, g.disk); d != "" {
				viol("P30", "files", "%s the files differ: %s", where, d)
			}
		}
		if len(y.execs) > 2 {
			zsim.Probe("more than two executions in a run")
		}
		if y.failed {
			zsim.Probe("a run failed with both definitions")
		}
	}
}

func firstDiff(a, b []string) string {
	for i, x := range a {
		if i >= len(b) || b[i] != x {
			return fmt.Sprintf("%.250q (as number %d of %d)", x, i+1, len(a))
		}
	}
	return fmt.Sprintf("nothing more after %d", len(a))
}

func (w *ygworld) all() (out []*ynode) {
	var visit func(n *ynode)
	visit = func(n *ynode) {
		out = append(out, n)
		for _, k := range n.kids {
			visit(k)
		}
	}
	for _, n := range w.named {
		visit(n)
	}
	return
}

// illFormedRun has an ill-formed definition somewhere in a file that is otherwise right.
func illFormedRun() {
	w := &ygworld{bad: map[string]bool{}, errOnly: map[string]bool{}, makes: map[string][]string{}}
	zsim.Disk.MkDirs(ytop)
	for i := zsim.Gen(3); i >= 0; i-- {
		w.named = append(w.named, w.draw("", 0))
	}
	form := illFormed[zsim.Gen(len(illFormed))]
	p := zsim.NewProc("fab", nil)
	p.Cwd = "/top"
	p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
	resetFab()
	p.Start(func() {
		fab.RegisterYAMLTarget("SimArgs", func(_ *fab.Controller, n *yaml.Node, _ string) (fab.Target, error) {
			return w.argsTarget(n.Value), nil
		})
		fab.RegisterYAMLStringList("SimList", func(con *fab.Controller, n *yaml.Node, dir string) ([]string, error) {
			return con.YAMLStringListFromNodes(n.Content, dir)
		})
		var b strings.Builder
		at := zsim.Gen(len(w.named) + 1)
		for i, n := range w.named {
			if i == at {
				b.WriteString(form)
			}
			fmt.Fprintf(&b, "%s: %s\n", n.name(), n.text(""))
		}
		if at == len(w.named) {
			b.WriteString(form)
		}
		con := fab.NewController(ytop)
		if err := con.ReadYAML(strings.NewReader(b.String()), ""); err == nil {
			viol("P30", "accepted", "a YAML file with the ill-formed definition %q is accepted", form)
		}
	})
	p.Wait()
	if p.Panic != "" {
		zsim.Fail("panic", "%s", p.Panic)
	}
}

func init() {
	register(&check{id: "P30", scenarios: []scenario{
		{name: "histories", weight: 8, maxSteps: 400000, fn: forProp("P30", defsRun)},
		{name: "ill-formed", weight: 1, maxSteps: 400000, fn: forProp("P30", illFormedRun)},
	}, real: []string{"yaml.go, command.go, seq.go, all.go, deps.go, argtarg.go, files.go, clean.go, controller.go, runner.go, register.go: the code of /repo, compiled from the working tree", "gopkg.in/yaml.v3"},
		stub:   []string{"file system, processes, scheduler: simulated", "the programs that commands execute", "hash database: a model kept across processes"},
		assume: []string{"commands that run at the same time do not depend on one another"},
		rule:   "Each run draws a project of targets of all the types of package fab in up to four directories, with references between them in several spellings, commands with every kind of destination, lists with custom types and patterns, and a history of up to four processes with edits in between, failing commands and unreadable files; the history is simulated with the project defined in YAML files, and again with it defined by the Go constructors; executions (program, arguments, directory, environment, standard input), outcome, standard output and error, and the files must be equal after every run. Ill-formed definitions among others must be rejected."})
}
