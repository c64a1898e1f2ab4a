//go:build go1.22

package main

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/context"
	"gopkg.in/yaml.v3"
)

// The build world: a project with source files and Files targets, a history of edits, spec changes
// and builds in separate processes sharing one hash database, with crashes, failing commands,
// cancellations, I/O errors and edits during builds. A reference model says what every output must
// contain, and which combinations of spec, inputs and outputs have been recorded.

const (
	sLeaf = iota // custom JSON-encodable target
	sCmd         // fab.Command running /bin/gen
	sSeq
	sAll
	sDeps
	sArg
	sName // reference by name
	sKinds
)

type bspec struct {
	kind  int
	leaf  int
	val   int
	alt   bool // leaf: another Go type with the same fields
	env   int  // command: 0 none
	dir   int  // command: 0 none
	in    int  // command: standard input file, 0 none
	out   bool // command: writes to standard output, which goes to the file
	kids  []*bspec
	chain bool // sName: the name is an alias of another name
}

type brule struct {
	id        int
	ins       []string
	outs      []string // as listed
	files     []string // leaf i writes files[i]
	inplace   bool
	tree      *bspec
	from      []int // producers of its inputs
	autoclean bool
	noOut     bool   // lists no outputs
	made      string // the specification target was made from

	// present build
	target   fab.Target
	execs    []int
	started  bool
	running  int
	okLeaves int
	failed   bool
	startKey string
	rebuilt  bool // started although recorded
}

type bworld struct {
	bulky   bool // edits make large files
	head    int  // so much before what changes
	tail    int  // and so much after it
	wide    bool // many inputs or outputs
	rules   []*brule
	db      buildDB
	rel     bool
	same    bool // all builds in one process
	mixed   bool
	sure    map[string]bool // recorded: a later build must skip
	maybe   map[string]bool // possibly recorded: a later build may skip
	lax     bool            // a record of unknown content may exist
	content int             // serial number of edits
	sources []string
	links   []string // files that are reached through symbolic links
	nbuild  int
	old     []map[string]string // earlier states of the sources, for reverts
	prop    string

	// present build
	mode      bmode
	proc      *zsim.Proc
	con       *fab.Controller
	stdout    *zsim.Sink
	err       error
	done      bool
	failLeaf  map[[2]int]bool
	edited    bool // sources changed while it ran
	cancelled bool
	cancelAt  int64
	doneAt    int64
	canceling bool
	procs     []*zsim.Proc
	killed    bool
	visited   map[[2]int]int
}

type bmode struct {
	force, dry, verbose bool
	crash               int // >0: kill the process after about that many steps
	orphans             bool
	fail                bool
	cancel              int64
	deadline            bool
	edits               int
	faults              bool
	deny                bool
	roots               []int
	nested              int
	quiet               bool
	lenient             bool // the subtargets are not affected by I/O trouble
}

// genA and genB are two target types with the same fields.
type genA struct {
	Rule, Leaf, Val int
	w               *bworld
}
type genB struct {
	Rule, Leaf, Val int
	w               *bworld
}

func (g *genA) Desc() string { return "genA" }
func (g *genB) Desc() string { return "genB" }
func (g *genA) Run(ctx context.Context, con *fab.Controller) error {
	return g.w.leafTarget(ctx, g.Rule, g.Leaf, g.Val, "A")
}
func (g *genB) Run(ctx context.Context, con *fab.Controller) error {
	return g.w.leafTarget(ctx, g.Rule, g.Leaf, g.Val, "B")
}

var errLeaf = errors.New("the generator failed")

func (w *bworld) leafTarget(ctx context.Context, rule, leaf, val int, typ string) error {
	w.visited[[2]int{rule, leaf}]++
	if fab.GetDryRun(ctx) {
		return nil
	}
	args := strings.Join(fab.GetArgs(ctx), ",")
	return w.leafRun(ctx, rule, leaf, fmt.Sprintf("%s%d(%s)", typ, val, args), nil)
}

// inProgram marks the context of a leaf executed by /bin/gen.
type inProgram struct{}

// genProgram is /bin/gen rule leaf val.
func (w *bworld) genProgram(c *zsim.Child) int {
	var rule, leaf, val int
	fmt.Sscan(strings.Join(c.Args, " "), &rule, &leaf, &val)
	recipe := fmt.Sprintf("C%d", val)
	if e, _ := c.Proc.Getenv("GENV"); e != "" {
		recipe += "e" + e
	}
	if d := strings.TrimPrefix(c.Proc.Cwd, "/proj/cwd"); d != c.Proc.Cwd {
		recipe += "d" + d
	}
	if c.Proc.Stdin != nil {
		in, _ := c.ReadAllIn()
		recipe += in
	}
	var write func(string) error
	if len(c.Args) > 3 {
		write = c.Out
	}
	if late := zsim.Now() - w.cancelAt; w.cancelled && !w.done && late > 1e9 {
		viol("P19", "started-late", "a command of Files target %d is started %d s after the cancellation", rule, late/1e9)
	}
	if err := w.leafRun(context.WithValue(context.Background(), inProgram{}, true), rule, leaf, recipe+"()", write); err != nil {
		if zsim.GenBool(1, 3) {
			zsim.CountFault("command-killed")
			if zsim.GenBool(1, 2) {
				c.Err(err.Error() + "\n")
			}
			c.Proc.Kill("killed by somebody")
			zsim.Dead()
		}
		c.Err(err.Error() + "\n")
		return 1
	}
	return 0
}

func (w *bworld) abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Clean("/proj/" + p)
}

// expand gives the files meant by a list of paths, as the Files documentation says.
func (w *bworld) expand(paths []string) map[string]string {
	m := map[string]string{}
	var rec func(p string)
	rec = func(p string) {
		if zsim.Disk.IsDirectory(p) {
			for f, c := range zsim.Disk.Tree(p) {
				switch {
				case strings.HasSuffix(f, "/"):
				case zsim.Disk.IsLink(f):
					rec(f)
				default:
					m[f] = "=" + c
				}
			}
		} else if c, ok := zsim.Disk.Get(p); ok {
			m[p] = "=" + c
		} else {
			m[p] = "missing"
		}
	}
	for _, p := range paths {
		rec(w.abs(p))
	}
	return m
}

func flat(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s%s\n", k, m[k])
	}
	return b.String()
}

func digest(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:10] }

// key is the combination of specification, inputs and outputs of a rule at this moment.
func (w *bworld) key(r *brule) string {
	return fmt.Sprintf("%d|%s|%s|%s", r.id, r.tree.String(), flat(w.expand(r.ins)), flat(w.expand(r.outs)))
}

func (s *bspec) String() string {
	switch s.kind {
	case sLeaf:
		return fmt.Sprintf("%s%d:%d", map[bool]string{false: "A", true: "B"}[s.alt], s.leaf, s.val)
	case sCmd:
		return fmt.Sprintf("C%d:%d,%d,%d,%d", s.leaf, s.val, s.env, s.dir, s.in)
	}
	b := fmt.Sprintf("%d(", s.kind)
	if s.kind == sArg {
		b += fmt.Sprintf("%d;", s.val)
	}
	for _, k := range s.kids {
		b += k.String() + " "
	}
	return b + ")"
}

func stripFmt(c string) string {
	for strings.HasPrefix(c, "fmt[") {
		_, c, _ = strings.Cut(c, "]")
	}
	return c
}

// want is the content leaf of rule r with the given recipe makes from the present inputs.
func (w *bworld) want(r *brule, leaf int, recipe string) string {
	own := map[string]bool{}
	for _, f := range r.files {
		own[f] = true
	}
	in := w.expand(r.ins)
	for f, c := range in {
		if own[f] || c == "missing" && strings.HasPrefix(r.files[0], f+"/") {
			delete(in, f)
		}
	}
	h := digest(flat(in))
	if r.inplace {
		c, _ := zsim.Disk.Get(r.files[leaf])
		return fmt.Sprintf("fmt[%s %s]%s", recipe, h, stripFmt(c))
	}
	return fmt.Sprintf("made by %d.%d %s from %s", r.id, leaf, recipe, h)
}

func (s *bspec) args() []string {
	switch s.val {
	case 2:
		return []string{"-a", "0"}
	case 3:
		return []string{"-a0", ""}
	}
	return []string{fmt.Sprintf("-a%d", s.val)}
}

// recipes lists the recipe of every leaf under the present specification.
func (r *brule) recipes() []string {
	out := make([]string, len(r.files))
	var rec func(s *bspec, args string)
	rec = func(s *bspec, args string) {
		switch s.kind {
		case sLeaf:
			t := "A"
			if s.alt {
				t = "B"
			}
			out[s.leaf] = fmt.Sprintf("%s%d(%s)", t, s.val, args)
		case sCmd:
			c := fmt.Sprintf("C%d", s.val)
			if s.env > 0 {
				c += fmt.Sprintf("e%d", s.env)
			}
			if s.dir > 0 {
				c += fmt.Sprintf("d%d", s.dir)
			}
			if s.in > 0 {
				c += fmt.Sprintf("i%d", s.in)
			}
			out[s.leaf] = c + "()"
		case sArg:
			rec(s.kids[0], strings.Join(s.args(), ","))
		default:
			for _, k := range s.kids {
				rec(k, args)
			}
		}
	}
	rec(r.tree, "")
	return out
}

// leafRun does the work of one leaf, in the fab process or in that of a command.
func (w *bworld) leafRun(ctx context.Context, rule, leaf int, recipe string, write func(string) error) error {
	r := w.rules[rule]
	if w.mode.dry {
		viol("P14", "dry-run-executed", "a dry run executed a command")
	}
	r.execs[leaf]++
	zsim.Log("rule %d leaf %d starts: %s", rule, leaf, recipe)
	if r.execs[leaf] > 1 {
		viol("P21 P01", "ran-twice", "the subtarget of a Files target was executed %d times in one build", r.execs[leaf])
	}
	if !r.started {
		r.started = true
		r.startKey = w.key(r)
		if w.sure[r.startKey] && !w.mode.force && !w.edited && !w.mode.deny && zsim.FaultsUsed() == 0 {
			r.rebuilt = true
			viol("P07", "rebuilt", "the subtarget of Files target %d was executed although the same specification, inputs and outputs had been built successfully before", rule)
		}
		if !w.edited {
			for _, p := range r.from {
				q := w.rules[p]
				if q.running > 0 {
					viol("P09", "producer-running", "Files target %d runs while its producer %d is still running", rule, p)
				}
				if q.failed {
					viol("P09", "producer-failed", "Files target %d runs although its producer %d failed", rule, p)
				}
				if bad := w.stale(q); bad != "" {
					viol("P09", "producer-late", "Files target %d runs before its producer %d has brought %s up to date", rule, p, bad)
				}
			}
		}
	}
	r.running++
	defer func() { r.running-- }()
	if zsim.GenBool(1, 4) {
		zsim.Sleep(int64(1+zsim.Gen(20)) * 1e6)
	}
	fail := w.failLeaf[[2]int{rule, leaf}]
	if fail && zsim.GenBool(1, 3) {
		r.failed = true
		return leafErr()
	}
	observes := zsim.GenBool(1, 2) // a target that stops when the build is cancelled
	if curProp == "P19" && zsim.GenBool(1, 4) {
		zsim.Sleep(int64(1+zsim.Gen(8)) * 1e9)
	}
	gone := func() error {
		if late := zsim.Now() - w.cancelAt; !w.cancelled || w.done || late <= 2e9 {
		} else if ctx.Value(inProgram{}) != nil {
			viol("P19", "left-running", "a command of Files target %d runs %d s after the cancellation", rule, late/1e9)
		} else if ctx.Err() == nil {
			viol("P19", "not-told", "the context of leaf %d of Files target %d is not cancelled %d s after that of the build", leaf, rule, late/1e9)
		}
		if observes && ctx.Err() != nil {
			r.failed = true
			return ctx.Err()
		}
		return nil
	}
	if err := gone(); err != nil {
		return err
	}
	// read the inputs one by one
	for _, p := range r.ins {
		if w.mode.lenient {
			zsim.Yield(1005)
			continue
		}
		if _, err := w.readInput(p); err != nil {
			r.failed = true
			return err
		}
	}
	want := w.want(r, leaf, recipe)
	if zsim.GenBool(1, 4) {
		zsim.Sleep(int64(1+zsim.Gen(20)) * 1e6)
	}
	if err := gone(); err != nil {
		return err
	}
	out := r.files[leaf]
	// written in two steps, so that a crash in between leaves a torn file
	cut := len(want) / 2
	if fail {
		cut = len(want) / 3
	}
	second := func() error { return nil }
	var err error
	switch {
	case write != nil:
		err = write(want[:cut])
		second = func() error { return write(want[cut:]) }
	case w.mode.lenient:
		zsim.Disk.Put(out, want[:cut])
		second = func() error { zsim.Disk.Put(out, want); return nil }
	default:
		err = zsim.Disk.MkdirAll(path.Dir(out), 0o755)
		if err == nil {
			err = zsim.Disk.WriteFile(out, []byte(want[:cut]), 0o644)
		}
		second = func() error { return zsim.Disk.WriteFile(out, []byte(want), 0o644) }
	}
	if err != nil {
		r.failed = true
		return err
	}
	zsim.Yield(1002)
	if fail {
		r.failed = true
		return leafErr()
	}
	if err := gone(); err != nil {
		return err
	}
	if err := second(); err != nil {
		r.failed = true
		return err
	}
	r.okLeaves++
	zsim.Log("rule %d leaf %d ends", rule, leaf)
	return nil
}

// leafErr is the error of a subtarget that fails for its own reasons.
func leafErr() error {
	switch zsim.Gen(5) {
	case 1:
		return fmt.Errorf("downloading: %w", context.Canceled)
	case 2:
		return fmt.Errorf("downloading: %w", context.DeadlineExceeded)
	case 3:
		return fmt.Errorf("looking for a tool: %w", errNotExist)
	}
	return errLeaf
}

func (w *bworld) readInput(p string) (string, error) {
	p = w.abs(p)
	info, err := zsim.Disk.Stat(p)
	if err != nil {
		if errors.Is(err, errNotExist) {
			return "", nil
		}
		return "", err
	}
	if info.IsDir() {
		es, err := zsim.Disk.ReadDir(p)
		if err != nil {
			return "", err
		}
		for _, e := range es {
			if _, err := w.readInput(p + "/" + e.Name()); err != nil {
				return "", err
			}
		}
		return "", nil
	}
	b, err := zsim.Disk.ReadFile(p)
	return string(b), err
}

// stale names an output of the rule that is not what the present specification makes from the present inputs.
func (w *bworld) stale(r *brule) string {
	if r.noOut && !r.started {
		return "" // fab does not know of its files
	}
	for leaf, rec := range r.recipes() {
		if c, ok := zsim.Disk.Get(r.files[leaf]); !ok || c != w.want(r, leaf, rec) {
			return r.files[leaf]
		}
	}
	return ""
}

// --- generation

type bopt struct {
	maxRules int
	cmds     bool
	named    bool
	inplace  bool
	simple   bool
	stdout   bool
}

func (w *bworld) generate(o bopt) {
	w.sure, w.maybe = map[string]bool{}, map[string]bool{}
	w.rel = zsim.GenBool(1, 4)
	w.mixed = zsim.GenBool(1, 4)
	pool := []string{"src/s0", "src/s1", "src/s2", "src/.dot", "src/a b", "src/é", "src/sub/s0", "other/s0", "src/#x#", "src/s0~", "src/s0.bak", "src/_u", "src/S0", "src/node_modules/m"}
	at := 0
	for i := 0; i < 3; i++ {
		w.sources = append(w.sources, "/proj/"+pool[at%len(pool)])
		at++
		if zsim.GenBool(1, 2) {
			at += zsim.Gen(4)
		}
	}
	w.sources = append(w.sources, "/proj/lib/"+pick("a", "a", ".a", "_a", "a.tmp"), "/proj/lib/"+pick("sub/b", "sub/b", ".sub/b", "sub/deep/er/b", "sub/.b", "vendor/b"))
	w.same = zsim.GenBool(1, 4)
	for i := 0; i < 3; i++ {
		zsim.Disk.MkDirs(sname("/proj/cwd", i+1))
		zsim.Disk.Put(sname("/proj/stdin", i+1), sname("i", i+1))
	}
	if zsim.GenBool(1, 6) {
		// one source is a symbolic link to a file, or there is one to a directory
		if zsim.GenBool(1, 2) {
			f, to := w.sources[zsim.Gen(4)], pick("/proj/other/t", "../other/t")
			if strings.Count(f, "/") != 3 {
				to = "/proj/other/t"
			}
			zsim.Disk.PutLink(to, f)
			w.links = append(w.links, "/proj/other/t")
		} else {
			zsim.Disk.PutLink(pick("/proj/other/d", "../other/d"), "/proj/lib/link")
			w.links = append(w.links, "/proj/other/d/x")
			w.sources = append(w.sources, "/proj/other/d/x")
		}
		zsim.Disk.MkDirs("/proj/other/d")
	}
	// Now and then there are many more inputs or outputs.
	many, manyAt, manyFiles := 0, 0, []string(nil)
	if zsim.GenBool(1, 50) {
		many, manyAt = 1+zsim.Gen(3), zsim.Gen(2)
		k := 60 + zsim.Gen(270)
		for i := 0; i < k; i++ {
			manyFiles = append(manyFiles, fmt.Sprintf("/proj/lib/%sw%d", pick("", "", "sub/"), i))
		}
		if many < 3 {
			w.sources = append(w.sources, manyFiles...)
		}
		zsim.AllowSteps(int64(k) * 20000)
		w.wide = true
		zsim.Probe("many inputs or outputs")
	}
	for _, s := range w.sources {
		w.edit(s)
	}
	n := 1 + zsim.Gen(o.maxRules)
	for i := 0; i < n; i++ {
		r := &brule{id: i}
		w.rules = append(w.rules, r)
		add := func(list *[]string, p string) {
			switch {
			case w.rel:
				p = strings.TrimPrefix(p, "/proj/")
			case w.mixed && zsim.GenBool(1, 2):
				p = pick("./", "src/../", "", "/proj/src/../", "/proj//") + strings.TrimPrefix(p, "/proj/")
			}
			*list = append(*list, p)
		}
		ni := 1 + zsim.Gen(2)
		for j := 0; j < ni; j++ {
			add(&r.ins, w.sources[zsim.Gen(3)])
		}
		if zsim.GenBool(1, 3) || many == 1 && i == manyAt {
			add(&r.ins, "/proj/lib")
		}
		if many == 2 && i == manyAt {
			for _, f := range manyFiles {
				add(&r.ins, f)
			}
		}
		if zsim.GenBool(1, 8) {
			add(&r.ins, "/proj/src/nosuch")
		}
		for j := 0; j < i; j++ {
			q := w.rules[j]
			if !zsim.GenBool(1, 2) || q.noOut {
				continue
			}
			r.from = append(r.from, j)
			p := q.files[zsim.Gen(len(q.files))]
			if len(q.outs) == 1 && !q.inplace && w.abs(q.outs[0]) != q.files[0] && zsim.GenBool(1, 2) {
				p = w.abs(q.outs[0]) // the whole output directory
				if zsim.GenBool(1, 3) {
					p = path.Dir(q.files[0]) // or one below it
				}
			}
			add(&r.ins, p)
		}
		nl := 1
		r.inplace = o.inplace && zsim.GenBool(1, 5)
		if !r.inplace {
			nl = 1 + zsim.Gen(3)
			if many == 3 && i == manyAt {
				nl = len(manyFiles)
			}
		}
		dir := fmt.Sprintf("/proj/out/r%d", i)
		inIn := !r.inplace && zsim.GenBool(1, 8) // output inside an input directory of its own
		if inIn {
			if w.mixed {
				r.ins = append(r.ins, strings.TrimPrefix(dir, "/proj/"))
			} else {
				add(&r.ins, dir)
			}
		}
		for l := 0; l < nl; l++ {
			r.files = append(r.files, fmt.Sprintf("%s/sub/%sf%d", dir, pick("", "", "x/", "x/y/", ".z/"), l))
			zsim.Disk.MkDirs(path.Dir(r.files[l]))
		}
		if !inIn && !r.inplace && len(r.from) == 0 && many == 0 && zsim.GenBool(1, 12) {
			r.ins = nil // it depends on what it is only
		}
		r.noOut = !inIn && !r.inplace && zsim.GenBool(1, 12)
		if r.noOut {
			// what it makes is not listed, as with a target that runs tests
		} else if nl > 1 && !inIn && zsim.GenBool(1, 2) {
			add(&r.outs, dir+pick("/sub", "/sub", ""))
		} else {
			for _, f := range r.files {
				add(&r.outs, f)
			}
		}
		if r.inplace {
			add(&r.ins, r.files[0])
			w.content++
			zsim.Disk.Put(r.files[0], fmt.Sprintf("unformatted %d", w.content))
		}
		next := 0
		r.tree = w.tree(o, nl, &next, 0)
	}
}

// tree makes a specification with n leaves.
func (w *bworld) tree(o bopt, n int, next *int, depth int) *bspec {
	leaf := func() *bspec {
		s := &bspec{kind: sLeaf, leaf: *next, val: zsim.Gen(3)}
		*next++
		if o.cmds && zsim.GenBool(1, 2) {
			s.kind = sCmd
			if zsim.GenBool(1, 3) {
				s.env, s.dir, s.in = zsim.Gen(3), zsim.Gen(3), zsim.Gen(3)
			}
			s.out = o.stdout && zsim.GenBool(1, 4)
		}
		return s
	}
	wrap := func(s *bspec) *bspec {
		if o.simple {
			return s
		}
		for d := depth; d < 3; d++ {
			switch zsim.Gen(8) {
			case 1:
				s = &bspec{kind: sSeq, kids: []*bspec{s}}
			case 2:
				s = &bspec{kind: sArg, val: zsim.Gen(3), kids: []*bspec{s}}
			case 3:
				if o.named {
					s = &bspec{kind: sName, kids: []*bspec{s}, chain: zsim.GenBool(1, 3)}
				}
			case 4:
				s = &bspec{kind: sAll, kids: []*bspec{s}}
			}
		}
		return s
	}
	if n == 1 {
		return wrap(leaf())
	}
	s := &bspec{kind: pick(sSeq, sAll, sDeps)}
	for n > 0 {
		k := 1 + zsim.Gen(n)
		if k == n && len(s.kids) == 0 && depth > 1 {
			k = 1
		}
		if depth > 2 {
			k = 1
		}
		s.kids = append(s.kids, w.tree(o, k, next, depth+1))
		n -= k
	}
	return wrap(s)
}

var bulk = strings.Repeat("bulk ", 450000)

func (w *bworld) edit(f string) {
	w.content++
	c := fmt.Sprintf("content %4d of %s", w.content, f)
	v := zsim.Gen(24)
	if w.wide && (v == 2 || v == 3) {
		v = 0
	}
	switch v {
	case 1:
		c = ""
	case 2:
		c += strings.Repeat("\n", 40000)
	case 3:
		c = strings.Repeat("x", 70000) + c
	case 4:
		c = "\x00\xff" + c
	case 5:
		c = "\n" + c + "\r\n"
	case 6:
		if !w.bulky && !w.wide && curProp == "P06" && zsim.GenBool(1, 20) {
			w.bulky = true
			w.head, w.tail = 1075000, 80000
			if zsim.GenBool(1, 3) {
				w.head, w.tail = pick(70000, 1100000, 2200000), pick(0, 70000, 1100000, 2200000)
			}
		}
	}
	if w.bulky { // versions of one size that differ in the middle only
		c = bulk[:w.head] + c + bulk[:w.tail]
	}
	if zsim.Disk.IsDirectory(f) {
		zsim.Disk.Del(f)
	}
	if zsim.GenBool(1, 2) {
		zsim.Disk.PutKeep(f, c)
	} else {
		zsim.Disk.Put(f, c)
	}
	if zsim.GenBool(1, 8) {
		zsim.Disk.Node(f).Mode = anyMode()
	}
	zsim.Log("edit %s", f)
}

func anyMode() fs.FileMode {
	return []fs.FileMode{0644, 0755, 0444, 0600, 0640, 0400, 0555, 0200}[zsim.Gen(8)]
}

// restore puts back a file or a symbolic link listed by state.
func restore(f, c string) {
	if to := strings.TrimPrefix(c, "-> "); to != c {
		if zsim.Disk.Tree(f)[f] != c || !zsim.Disk.IsLink(f) {
			zsim.Disk.PutLink(to, f)
		}
		return
	}
	if zsim.Disk.IsLink(f) || zsim.Disk.IsDirectory(f) {
		zsim.Disk.Del(f)
	}
	zsim.Disk.Put(f, c)
}

func (w *bworld) state() map[string]string {
	m := map[string]string{}
	for _, d := range []string{"/proj/src", "/proj/lib", "/proj/other"} {
		for f, c := range zsim.Disk.Tree(d) {
			if !strings.HasSuffix(f, "/") {
				m[f] = c
			}
		}
	}
	return m
}

func (w *bworld) specLeaves() (out []*bspec) {
	var rec func(s *bspec)
	rec = func(s *bspec) {
		out = append(out, s)
		for _, k := range s.kids {
			rec(k)
		}
	}
	for _, r := range w.rules {
		rec(r.tree)
	}
	return
}

// change makes one random change to the project, between builds.
func (w *bworld) change() {
	w.old = append(w.old, w.state())
	switch zsim.Gen(14) {
	case 12: // point a link elsewhere
		if len(w.links) > 0 {
			for _, f := range append([]string{"/proj/lib/link"}, w.sources...) {
				if zsim.Disk.IsLink(f) {
					to := pick("/proj/other/t", "/proj/other/d", "/proj/other/u", "/proj/nosuch")
					zsim.Disk.PutLink(to, f)
					zsim.Log("point %s to %s", f, to)
					return
				}
			}
		}
		w.edit(w.sources[zsim.Gen(len(w.sources))])
	case 13: // replace a file by a directory that has a file of the same content
		f := w.sources[zsim.Gen(len(w.sources))]
		if c, ok := zsim.Disk.Get(f); ok {
			zsim.Disk.Del(f)
			zsim.Disk.MkDirs(f)
			if zsim.GenBool(2, 3) {
				zsim.Disk.Put(f+"/"+path.Base(f), c)
			}
			zsim.Log("replace %s by a directory", f)
		}
	case 9: // nothing but the time and the mode
		f := w.sources[zsim.Gen(len(w.sources))]
		if zsim.GenBool(1, 4) {
			r := w.rules[zsim.Gen(len(w.rules))]
			f = r.files[zsim.Gen(len(r.files))]
		}
		if n := zsim.Disk.Node(f); n != nil {
			switch zsim.Gen(4) {
			case 0, 1:
				zsim.AdvanceWall(int64(1+zsim.Gen(100000)) * 1e9)
				n.Mtime = zsim.WallNow()
			case 2:
				n.Mtime = int64(zsim.Gen(2_000_000_000)) * 1e9
			case 3:
				if n2 := zsim.Disk.Node(w.sources[zsim.Gen(len(w.sources))]); n2 != nil {
					n.Mtime = n2.Mtime
				}
			}
			if !n.Dir && zsim.GenBool(1, 2) {
				n.Mode = anyMode()
			}
			zsim.Log("touch %s", f)
		}
	case 10: // rename
		a, b := w.sources[zsim.Gen(len(w.sources))], w.sources[zsim.Gen(len(w.sources))]
		if c, ok := zsim.Disk.Get(a); ok && a != b {
			zsim.Disk.Del(a)
			restore(b, c)
			zsim.Log("rename %s to %s", a, b)
		}
	case 11: // swap
		a, b := w.sources[zsim.Gen(len(w.sources))], w.sources[zsim.Gen(len(w.sources))]
		ca, ok1 := zsim.Disk.Get(a)
		cb, ok2 := zsim.Disk.Get(b)
		if ok1 && ok2 {
			zsim.Disk.PutKeep(a, cb)
			zsim.Disk.PutKeep(b, ca)
			zsim.Log("swap %s and %s", a, b)
		}
	case 0:
		w.edit(w.sources[zsim.Gen(len(w.sources))])
	case 1: // delete a source
		f := w.sources[zsim.Gen(len(w.sources))]
		zsim.Disk.Del(f)
		zsim.Log("delete %s", f)
	case 2: // revert all sources to an earlier state
		st := w.old[zsim.Gen(len(w.old))]
		for f := range w.state() {
			if _, ok := st[f]; !ok {
				zsim.Disk.Del(f)
			}
		}
		for f, c := range st {
			restore(f, c)
		}
		zsim.Log("revert the sources to an earlier state")
	case 3: // add a file to a listed directory
		w.content++
		w.edit(sname(pick("/proj/lib/sub/new", "/proj/lib/.new", "/proj/lib/d/e/new"), w.content))
	case 4: // delete an output
		r := w.rules[zsim.Gen(len(w.rules))]
		f := r.files[zsim.Gen(len(r.files))]
		zsim.Disk.Del(f)
		zsim.Log("delete %s", f)
	case 5: // tamper with an output
		r := w.rules[zsim.Gen(len(w.rules))]
		f := r.files[zsim.Gen(len(r.files))]
		w.content++
		zsim.Disk.Put(f, fmt.Sprintf("tampered %d", w.content))
		zsim.Log("tamper with %s", f)
	case 6, 7: // change the specification somewhere
		ls := w.specLeaves()
		s := ls[zsim.Gen(len(ls))]
		switch s.kind {
		case sLeaf:
			if zsim.GenBool(1, 3) {
				s.alt = !s.alt
			} else {
				s.val = (s.val + 1 + zsim.Gen(3)) % 4
			}
		case sCmd:
			d := 1 + zsim.Gen(3)
			switch zsim.Gen(5) {
			case 0, 1:
				s.val = (s.val + d) % 4
			case 2:
				s.env = (s.env + d) % 4
			case 3:
				s.dir = (s.dir + d) % 4
			case 4:
				s.in = (s.in + d) % 4
			}
		case sArg:
			s.val = (s.val + 1 + zsim.Gen(3)) % 4
		case sSeq, sAll:
			s.kind = sSeq + sAll - s.kind
		}
		zsim.Log("change the specification of a target")
	case 8: // swap two outputs' contents of a rule, or an output for an older correct one
		r := w.rules[zsim.Gen(len(w.rules))]
		a, b := r.files[0], r.files[len(r.files)-1]
		ca, ok1 := zsim.Disk.Get(a)
		cb, ok2 := zsim.Disk.Get(b)
		if ok1 && ok2 && a != b {
			zsim.Disk.Put(a, cb)
			zsim.Disk.Put(b, ca)
			zsim.Log("swap %s and %s", a, b)
		}
	}
}

// --- builds

// named tells whether the specification refers to a target by its name.
func (s *bspec) named() bool {
	for _, k := range s.kids {
		if k.named() {
			return true
		}
	}
	return s.kind == sName
}

func (w *bworld) makeTarget(con *fab.Controller, r *brule, s *bspec, n *int) fab.Target {
	kids := func() (ts []fab.Target) {
		for _, k := range s.kids {
			ts = append(ts, w.makeTarget(con, r, k, n))
		}
		return
	}
	switch s.kind {
	case sLeaf:
		if s.alt {
			return &genB{Rule: r.id, Leaf: s.leaf, Val: s.val, w: w}
		}
		return &genA{Rule: r.id, Leaf: s.leaf, Val: s.val, w: w}
	case sCmd:
		c := &fab.Command{Cmd: "/bin/gen", Args: []string{fmt.Sprint(r.id), fmt.Sprint(s.leaf), fmt.Sprint(s.val)}}
		if s.env > 0 {
			c.Env = []string{fmt.Sprintf("GENV=%d", s.env)}
		}
		if s.dir > 0 {
			c.Dir = sname("/proj/cwd", s.dir)
		}
		if s.in > 0 {
			c.StdinFile = sname("/proj/stdin", s.in)
		}
		if s.out {
			c.Args = append(c.Args, "-")
			c.StdoutFile = r.files[s.leaf]
		}
		return c
	case sSeq:
		return fab.Seq(kids()...)
	case sAll:
		return fab.All(kids()...)
	case sDeps:
		ts := kids()
		return fab.Deps(ts[0], ts[1:]...)
	case sArg:
		return fab.ArgTarget(kids()[0], s.args()...)
	case sName:
		t := kids()[0]
		*n++
		name := fmt.Sprintf("R%dn%d", r.id, *n)
		con.RegisterTarget(name, "", t)
		if s.chain {
			con.RegisterTarget(name+"x", "", refByName(con, name))
			name += "x"
		}
		return refByName(con, name)
	}
	panic("unreachable")
}

func refByName(con *fab.Controller, name string) fab.Target {
	t, err := con.YAMLTarget(&yaml.Node{Kind: yaml.ScalarNode, Value: name}, "")
	if err != nil {
		zsim.Bug("YAMLTarget(%q): %v", name, err)
	}
	return t
}

// reached gives the rules a request covers.
func (w *bworld) reached(roots []int) map[int]bool {
	m := map[int]bool{}
	var rec func(i int)
	rec = func(i int) {
		if m[i] {
			return
		}
		m[i] = true
		for _, p := range w.rules[i].from {
			rec(p)
		}
	}
	for _, i := range roots {
		rec(i)
	}
	return m
}

func resetFab() {
	zsim.NoYield(func() {
		for _, f := range fabResets {
			f()
		}
	})
}

func (w *bworld) startBuild(m bmode) {
	w.nbuild++
	w.mode = m
	// In a process that makes several builds, the next one may use the controller of the last one,
	// or another controller and the targets of the last one.
	reuse := 0
	if w.same && w.con != nil && !w.killed {
		reuse = zsim.Gen(3)
	}
	w.err, w.done, w.edited, w.cancelled, w.killed = nil, false, false, false, false
	w.failLeaf = map[[2]int]bool{}
	w.visited = map[[2]int]int{}
	w.procs = nil
	for _, r := range w.rules {
		r.execs = make([]int, len(r.files))
		r.started, r.running, r.okLeaves, r.failed, r.rebuilt = false, 0, 0, false, false
	}
	if m.fail {
		r := w.rules[zsim.Gen(len(w.rules))]
		w.failLeaf[[2]int{r.id, zsim.Gen(len(r.files))}] = true
	}
	if !w.same || w.nbuild == 1 {
		resetFab()
	}
	p := zsim.NewProc(sname("fab", w.nbuild), nil)
	w.proc = p
	p.Cwd = "/proj"
	w.stdout = &zsim.Sink{}
	p.Stdout, p.Stderr = w.stdout, &zsim.Sink{}
	p.Faulty = m.faults || m.deny
	zsim.FaultsOn(m.faults)
	zsim.Log("build %d %+v", w.nbuild, m)
	var tree map[string]string
	var hashes int
	if m.dry {
		tree = zsim.Disk.Tree("/")
		hashes = w.db.(*modelDB).size()
	}
	p.Start(func() {
		if reuse != 1 {
			w.con = fab.NewController("/proj")
		}
		con := w.con
		for _, r := range w.rules {
			n := 0
			spec := r.tree.String()
			if reuse != 2 || r.made != spec || r.tree.named() {
				r.made = spec
				r.target = fab.Files(w.makeTarget(con, r, r.tree, &n), append([]string(nil), r.ins...), append([]string(nil), r.outs...))
			}
			con.RegisterTarget(sname("R", r.id), "", r.target)
		}
		ctx := context.Background()
		ctx = fab.WithHashDB(ctx, w.db)
		if m.force {
			ctx = fab.WithForce(ctx, true)
		}
		if m.dry {
			ctx = fab.WithDryRun(ctx, true)
		}
		if m.verbose {
			ctx = fab.WithVerbose(ctx, true)
		}
		var cancel func()
		if m.cancel > 0 {
			ctx, cancel = context.WithCancel(ctx)
			zsim.GoNamed("canceller", func() {
				if m.cancel < 1000 {
					for i := int64(0); i < m.cancel && !w.done; i++ {
						zsim.Yield(1003)
					}
				} else {
					zsim.Sleep(m.cancel)
				}
				if !w.done {
					w.cancelled = true
					w.cancelAt = zsim.Now()
					zsim.CountFault("cancel")
					cancel()
				}
			}).Daemon()
		}
		var ts []fab.Target
		for _, i := range m.roots {
			switch m.nested {
			case 1:
				ts = append(ts, refByName(con, sname("R", i)))
			case 2:
				ts = append(ts, fab.All(w.rules[i].target))
			default:
				ts = append(ts, w.rules[i].target)
			}
		}
		if m.nested == 3 {
			ts = []fab.Target{fab.Seq(ts...)}
		}
		w.err = con.Run(ctx, ts...)
		w.done = true
		w.doneAt = zsim.Now()
		if cancel != nil {
			cancel()
		}
	})
	if m.crash > 0 {
		zsim.KillAfter(p, int64(m.crash), func(p *zsim.Proc) {
			if p.Dead {
				return
			}
			w.killed = true
			zsim.CountFault("process-crash")
			if m.orphans {
				p.Kill("killed")
			} else {
				p.KillTree("killed")
			}
		})
	}
	for i := 0; i < m.edits; i++ {
		w.midEdit()
	}
	p.Wait()
	zsim.CancelKill()
	zsim.FaultsOn(false)
	for _, q := range w.procs {
		q.Wait()
	}
	if m.dry {
		if d := treeDiff(tree, zsim.Disk.Tree("/")); d != "" {
			viol("P14", "dry-run-wrote", "a dry run changed the file system: %s", d)
		}
		if n := w.db.(*modelDB).size(); n != hashes {
			viol("P14", "dry-run-recorded", "a dry run recorded %d hashes", n-hashes)
		}
		if len(w.procs) > 0 {
			viol("P14", "dry-run-executed", "a dry run executed a command")
		}
		if w.done && w.err != nil && !m.faults && !m.deny && !w.cancelled {
			viol("P14", "dry-run-failed", "a dry run failed: %v", w.err)
		}
		if w.done && w.err == nil && !w.killed {
			for i := range w.rules {
				if !w.reached(m.roots)[i] {
					continue
				}
				for _, l := range w.rules[i].leaves() {
					if l.kind == sLeaf && w.visited[[2]int{i, l.leaf}] != 1 {
						viol("P14", "dry-run-visits", "a dry run visited leaf %d of Files target %d %d times", l.leaf, i, w.visited[[2]int{i, l.leaf}])
					}
				}
			}
		}
	}
}

// leaves lists the leaves of the present specification.
func (r *brule) leaves() (out []*bspec) {
	var rec func(s *bspec)
	rec = func(s *bspec) {
		if len(s.kids) == 0 {
			out = append(out, s)
		}
		for _, k := range s.kids {
			rec(k)
		}
	}
	rec(r.tree)
	return
}

func treeDiff(a, b map[string]string) string {
	var out []string
	for f, c := range a {
		if d, ok := b[f]; !ok {
			out = append(out, f+" was removed")
		} else if c != d {
			out = append(out, f+" was changed")
		}
	}
	for f := range b {
		if _, ok := a[f]; !ok {
			out = append(out, f+" was created")
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// midEdit changes a source file at some point while the build runs.
func (w *bworld) midEdit() {
	n := zsim.Gen(60)
	for i := 0; i < n && !w.done && !w.proc.Dead; i++ {
		zsim.Yield(1004)
	}
	if w.done || w.proc.Dead {
		return
	}
	w.edited = true
	w.lax = true
	zsim.CountFault("edit-during-build")
	f := w.sources[zsim.Gen(len(w.sources))]
	switch zsim.Gen(3) {
	case 0, 1:
		w.edit(f)
	default:
		w.content++
		w.edit(sname("/proj/lib/sub/new", w.content))
	}
}

// afterBuild checks what the build did and updates the record.
func (w *bworld) afterBuild() {
	m := w.mode
	faulty := m.faults || m.deny
	reached := w.reached(m.roots)
	if w.done && !w.killed && w.err == nil {
		for _, r := range w.rules {
			if !reached[r.id] || m.dry {
				continue
			}
			if w.edited {
				continue
			}
			if f := w.stale(r); f != "" {
				switch {
				case r.started:
					viol("P06 P08 P10 P21", "stale-output", "the build reported success but %s is not what Files target %d makes from the present inputs (its subtarget was executed)", f, r.id)
				case m.force:
					viol("P21", "force-skipped", "a forced build did not execute the subtarget of Files target %d, and %s is stale", r.id, f)
				default:
					viol("P06 P08 P09 P10", "stale-skipped", "the build reported success but skipped Files target %d, and %s is not what it makes from the present inputs", r.id, f)
				}
			}
			if !r.started && !m.force && !w.lax {
				if k := w.key(r); !w.sure[k] && !w.maybe[k] {
					viol("P06 P08 P10", "skipped-unrecorded", "Files target %d was skipped although no successful run had recorded this combination of specification, inputs and outputs", r.id)
				}
			}
			if m.force {
				for l, n := range r.execs {
					if n != 1 {
						viol("P21", "force-count", "a forced build executed leaf %d of Files target %d %d times", l, r.id, n)
					}
				}
			}
			if !r.started {
				continue
			}
			k := w.key(r)
			if faulty {
				w.maybe[k] = true
			} else {
				w.sure[k] = true
			}
		}
		if m.fail && !m.dry {
			for _, r := range w.rules {
				if r.failed {
					viol("P08 P09", "failure-hidden", "the build reported success although the subtarget of Files target %d failed", r.id)
				}
			}
		}
	} else {
		for _, r := range w.rules {
			if r.started && r.okLeaves == len(r.files) {
				w.maybe[w.key(r)] = true
			}
		}
		if w.done && w.err != nil && !faulty && !m.fail && !w.cancelled && !m.dry && !w.edited {
			viol("P06 P07 P08 P09 P10 P19 P21", "build-failed", "a build failed for no reason: %v", w.err)
		}
	}
	if w.done && !w.killed {
		w.checkMessages(reached)
	}
	for _, r := range w.rules {
		if r.started && !reached[r.id] {
			viol("P21 P09", "not-asked-for", "Files target %d was executed although it was not requested", r.id)
		}
		if r.started && r.running > 0 && w.done {
			viol("P19 P09", "still-running", "the build returned while the subtarget of Files target %d was still running", r.id)
		}
	}
}

// checkMessages compares what the build printed with what it did.
func (w *bworld) checkMessages(reached map[int]bool) {
	m := w.mode
	count := map[string]int{}
	for _, l := range strings.Split(string(w.stdout.Data), "\n") {
		count[strings.TrimLeft(l, " ")]++
	}
	for _, r := range w.rules {
		run, fresh := count["Running "+sname("R", r.id)], count[sname("R", r.id)+" is up to date"]
		switch {
		case !m.verbose && run+fresh > 0:
			viol("P24", "chatter", "a build that is not verbose reports on Files target %d", r.id)
		case !reached[r.id] && run+fresh > 0:
			viol("P24", "announced-not-run", "a Files target that nobody asked for is reported: %q", w.stdout.Data)
		case run > 1 || fresh > 1:
			viol("P24", "announced-twice", "Files target %d is announced %d times and reported as up to date %d times", r.id, run, fresh)
		case fresh > 0 && r.started:
			viol("P24", "not-up-to-date", "Files target %d is reported as up to date, and its subtarget was executed", r.id)
		case fresh > 0 && (m.force || m.dry):
			viol("P24", "not-up-to-date", "Files target %d is reported as up to date in a forced build or a dry run", r.id)
		case r.started && m.verbose && run == 0:
			viol("P24", "not-announced", "the subtarget of Files target %d was executed without the target being announced", r.id)
		case m.verbose && w.err == nil && reached[r.id] && run == 0:
			viol("P24", "not-announced", "Files target %d was not announced (%q)", r.id, w.stdout.Data)
		case m.verbose && w.err == nil && reached[r.id] && !r.started && !m.dry && fresh == 0:
			viol("P24", "silent-skip", "the subtarget of Files target %d was skipped, and the target is not reported as up to date (%q)", r.id, w.stdout.Data)
		}
		if fresh > 0 {
			zsim.Probe("reported as up to date")
		}
	}
}

func (w *bworld) allRoots() []int {
	var out []int
	for i := range w.rules {
		out = append(out, i)
	}
	return out
}

func (w *bworld) someRoots() []int {
	n := len(w.rules)
	var out []int
	for i := n - 1; i >= 0; i-- {
		if zsim.GenBool(1, 2) {
			out = append(out, i)
		}
	}
	if len(out) == 0 {
		out = []int{n - 1}
	}
	return out
}

// quiet builds without any disturbance. It must succeed, and a second one must do nothing.
func (w *bworld) quiet(roots []int) {
	m := bmode{roots: roots, verbose: zsim.GenBool(1, 4) || curProp == "P24", nested: zsim.Gen(4), quiet: true}
	w.startBuild(m)
	w.afterBuild()
}

// nothing checks that one more build executes nothing.
func (w *bworld) nothing(roots []int) {
	w.quiet(roots)
	for _, r := range w.rules {
		if r.started {
			viol("P07 P21", "rebuilt", "a second build right after a successful one executed the subtarget of Files target %d again", r.id)
		}
	}
}

type buildOpt struct {
	bopt
	prop                                                 string
	events                                               int
	force, dry, crash, fail, cancel, edits, faults, deny bool
}

func buildRun(o buildOpt) func() {
	return func() {
		w := &bworld{}
		zsim.FindProgram = func(p string) (zsim.Program, bool) {
			if p == "/bin/gen" {
				return w.genProgram, true
			}
			return nil, false
		}
		zsim.OnExec = func(p *zsim.Proc, path string, args []string) {
			w.procs = append(w.procs, p)
			p.Faulty = false
		}
		w.db = newModelDB()
		if o.maxRules == 0 {
			o.maxRules = 4
		}
		w.generate(o.bopt)
		zsim.SetFaults(zsim.FaultPlan{Num: 1, Den: pick(4, 12, 40), Max: 1 + zsim.Gen(3), Kinds: map[string]bool{
			"stat-eio": true, "stat-eacces": true, "open-eio": true, "open-eacces": true, "open-emfile": true, "open-enospc": true, "read-eio": true,
			"readdir-eio": true, "write-eio": true, "write-enospc": true, "close-eio": true, "mkdir-enospc": true, "read-short": true,
			"db-has-error": true, "db-add-error": true, "db-add-late-error": true,
		}}, false)
		var deny map[string]string
		ne := 2 + zsim.Gen(max(o.events, 5))
		for e := 0; e < ne; e++ {
			if e > 0 {
				for k := zsim.Gen(3); k > 0; k-- {
					w.change()
				}
			}
			m := bmode{roots: w.someRoots(), verbose: zsim.GenBool(1, 5) || o.prop == "P24" && zsim.GenBool(2, 3), nested: zsim.Gen(4)}
			switch k := zsim.Gen(10); {
			case k == 1 && o.force || k == 2 && o.force && o.prop == "P21":
				m.force = true
			case k == 2 && o.dry || k >= 3 && k < 6 && o.dry && o.prop == "P14":
				m.dry = true
				m.force = o.force && zsim.GenBool(1, 4)
			case (k == 3 || k == 4) && o.crash:
				m.crash = 1 + zsim.Gen(pick(50, 300, 1500, 5000))
				m.orphans = zsim.GenBool(1, 2)
			case k == 5 && o.fail || k == 4 && o.fail:
				m.fail = true
			case k == 6 && o.cancel || k == 3 && o.cancel && !o.crash || k > 6 && o.prop == "P19":
				m.cancel = int64(1 + zsim.Gen(100))
				if o.prop == "P19" && zsim.GenBool(1, 2) {
					m.cancel = int64(1+zsim.Gen(60)) * 1e8
				} else if zsim.GenBool(1, 2) {
					m.cancel = int64(1+zsim.Gen(40)) * 1e6
				}
				m.force = zsim.GenBool(1, 5) && o.force
			case (k == 7 || k == 8) && o.edits:
				m.edits = 1 + zsim.Gen(2)
				m.force = zsim.GenBool(1, 5) && o.force
			case (k >= 7) && o.faults:
				m.faults = true
				m.force = zsim.GenBool(1, 6) && o.force
			case k >= 5 && o.deny:
				m.deny = true
				m.lenient = zsim.GenBool(1, 2)
				if deny != nil && zsim.GenBool(2, 3) { // the same trouble again
					zsim.Disk.Deny = deny
					break
				}
				zsim.Disk.Deny = map[string]string{}
				if zsim.GenBool(1, 6) { // a new file, and a directory that cannot be read as far as that
					d := pick("/proj/lib", "/proj/lib/sub")
					w.content++
					w.edit(sname(d+"/late", w.content))
					zsim.Disk.Deny[d] = zsim.BadSector
				}
				if zsim.GenBool(1, 6) { // a file whose end has changed cannot be read to its end
					f := w.sources[zsim.Gen(len(w.sources))]
					if c, ok := zsim.Disk.Get(f); ok && len(c) > 1 && !zsim.Disk.IsLink(f) {
						w.content++
						zsim.Disk.Put(f, c[:len(c)-1]+string(rune('A'+w.content%50)))
						zsim.Log("edit the end of %s", f)
						zsim.Disk.Deny[f] = zsim.BadSector
					}
				}
				fs := append([]string{"/proj/lib", "/proj/lib/sub"}, w.sources...)
				for _, r := range w.rules {
					fs = append(fs, r.files...)
				}
				for x := 1 + zsim.Gen(2); x > 0; x-- {
					zsim.Disk.Deny[fs[zsim.Gen(len(fs))]] = pick("deny-eacces", "deny-eio", zsim.BadSector)
				}
				deny = zsim.Disk.Deny
			}
			w.startBuild(m)
			zsim.Disk.Deny = nil
			w.afterBuild()
			if zsim.Failed() {
				return
			}
			if m.quietMode() && zsim.GenBool(1, 3) {
				w.nothing(m.roots)
			}
		}
		all := w.allRoots()
		w.quiet(all)
		w.nothing(all)
	}
}

func (m bmode) quietMode() bool {
	return !m.dry && m.crash == 0 && !m.fail && m.cancel == 0 && m.edits == 0 && !m.faults && !m.deny
}

// --- hash databases

type buildDB = fab.HashDB

type modelDB struct {
	set      map[string]bool
	heedless bool // pays no attention to cancellation
}

func (d *modelDB) size() int { return len(d.set) }

func newModelDB() *modelDB { return &modelDB{set: map[string]bool{}, heedless: zsim.GenBool(1, 2)} }

var errDB = errors.New("the hash database failed")

func (d *modelDB) fault(kinds ...string) string {
	if p := zsim.CurProc(); p == nil || !p.Faulty {
		return ""
	}
	return zsim.FaultPoint(kinds...)
}

func (d *modelDB) Has(ctx context.Context, h []byte) (bool, error) {
	zsim.Yield(1010)
	if zsim.Dead() {
		return false, errDB
	}
	if err := ctx.Err(); err != nil && !d.heedless {
		return false, err
	}
	if d.fault("db-has-error") != "" {
		return false, errDB
	}
	ok := d.set[string(h)]
	zsim.Yield(1011)
	return ok, nil
}

func (d *modelDB) Add(ctx context.Context, h []byte) error {
	zsim.Yield(1012)
	if zsim.Dead() {
		return errDB
	}
	if err := ctx.Err(); err != nil && !d.heedless {
		return err
	}
	k := d.fault("db-add-error", "db-add-late-error")
	if k == "db-add-error" {
		return errDB
	}
	d.set[string(h)] = true
	if k != "" {
		return errDB
	}
	zsim.Yield(1013)
	return nil
}

var buildReal = []string{"files.go, hash handling, runner.go, controller.go, seq.go, all.go, deps.go, argtarg.go, command.go, yaml.go: the code of /repo, compiled from the working tree", "canonical JSON, SHA-224: real"}
var buildStub = []string{"file system, processes, clock, scheduler: simulated", "/bin/gen: a simulated program that reads the inputs and writes the outputs in two steps", "hash database: a model kept across processes (the real SQLite one is exercised in P11, P12 and in the sqlite scenarios)"}
var buildAssume = []string{"a subtarget's outputs depend only on its specification and its listed inputs", "nobody but the build writes outputs while a build is running", "a file that is edited during a build does not return to its former content during the same build"}

func init() {
	b := func(name string, weight int, o buildOpt, classes ...string) scenario {
		return scenario{name: name, weight: weight, maxSteps: 400000, fn: forProp(o.prop, buildRun(o)), post: only(classes...)}
	}
	full := bopt{cmds: true, named: true, inplace: true, stdout: true}
	register(&check{id: "P06", scenarios: []scenario{
		b("history", 5, buildOpt{bopt: full, prop: "P06", force: true, dry: true, crash: true, fail: true, cancel: true}),
		b("edits-during-build", 3, buildOpt{bopt: full, prop: "P06", edits: true, force: true}),
		b("simple", 3, buildOpt{bopt: bopt{maxRules: 2, simple: true, cmds: true}, prop: "P06", edits: true, force: true}),
		b("quiet", 3, buildOpt{bopt: full, prop: "P06"}),
		b("faults", 2, buildOpt{bopt: full, prop: "P06", faults: true, crash: true}),
	}, real: buildReal, stub: buildStub, assume: buildAssume,
		rule: "Each run draws a project of Files targets (chained through files and directories, composite and named subtargets, in-place updates) and a history of edits, reverts, tampering, spec changes and builds in separate processes with crashes, failures, cancellations, I/O errors and edits during builds; after every successful build each covered output is compared with a reference model, and every skip with the set of recorded combinations."})
	register(&check{id: "P07", scenarios: []scenario{
		b("quiet", 5, buildOpt{bopt: full, prop: "P07"}),
		b("history", 4, buildOpt{bopt: full, prop: "P07", force: true, dry: true, crash: true, fail: true, cancel: true}),
		b("faults", 1, buildOpt{bopt: full, prop: "P07", faults: true}),
		b("edits-during-build", 1, buildOpt{bopt: full, prop: "P07", edits: true}),
	}, real: buildReal, stub: buildStub, assume: buildAssume,
		rule: "As for P06; whenever a subtarget starts, the combination of specification, inputs and outputs at that moment must not be one that an earlier successful build had recorded, and a build right after a successful one must execute nothing."})
	register(&check{id: "P08", scenarios: []scenario{
		b("crash", 5, buildOpt{bopt: full, prop: "P08", crash: true}),
		b("crash-fail-cancel", 4, buildOpt{bopt: full, prop: "P08", crash: true, fail: true, cancel: true, force: true}),
		b("simple", 3, buildOpt{bopt: bopt{maxRules: 2, cmds: true}, prop: "P08", crash: true, fail: true, cancel: true}),
	}, real: buildReal, stub: buildStub, assume: buildAssume,
		rule: "As for P06, with the build process killed after a drawn number of scheduling points (its commands killed with it or left running), subtargets that fail before, during or after writing, and cancellations."})
	register(&check{id: "P09", scenarios: []scenario{
		b("chain", 5, buildOpt{bopt: bopt{maxRules: 6, cmds: true, named: true, inplace: true}, prop: "P09"}),
		b("chain-fail", 4, buildOpt{bopt: bopt{maxRules: 6, cmds: true, named: true, inplace: true}, prop: "P09", fail: true, force: true, crash: true}),
	}, real: buildReal, stub: buildStub, assume: buildAssume,
		rule: "Chains of up to six Files targets, requested in any order and grouping; whenever a subtarget starts, its producers' outputs must be what the model says, none of them may be running or failed."})
	register(&check{id: "P10", scenarios: []scenario{
		b("faults", 5, buildOpt{bopt: full, prop: "P10", faults: true, force: true}),
		b("unreadable", 4, buildOpt{bopt: full, prop: "P10", deny: true, force: true}),
		b("simple", 3, buildOpt{bopt: bopt{maxRules: 1, cmds: true}, prop: "P10", faults: true, deny: true}),
	}, real: buildReal, stub: buildStub, assume: buildAssume,
		rule: "Builds with random I/O errors (stat, open, read, readdir, write, close, short reads), files and directories that stay unreadable for a build, and hash database errors; a build that reports success must have produced the outputs the model predicts, a panic is a violation, and the first undisturbed build must succeed."})
	register(&check{id: "P14", scenarios: []scenario{
		b("builds", 4, buildOpt{bopt: full, prop: "P14", dry: true, force: true}),
		b("builds-history", 2, buildOpt{bopt: full, prop: "P14", dry: true, crash: true, fail: true, cancel: true}),
		{name: "commands", weight: 4, maxSteps: 400000, fn: forProp("P14", dryCommandRun), post: only()},
		{name: "clean", weight: 2, maxSteps: 400000, fn: forProp("P14", cleanRun(false, 3, true)), post: only()},
	}, real: append(append([]string{}, buildReal...), "clean.go"), stub: buildStub, assume: buildAssume,
		rule: "Dry runs among real builds in a drawn history of Files targets, dry runs of commands with every kind of destination and input, and of Clean targets; the complete file tree, the recorded hashes and the list of started processes must be as before, every target must be visited once without error, and later real builds must behave as if the dry run had not happened."})
	register(&check{id: "P19", scenarios: []scenario{
		{name: "commands", weight: 6, maxSteps: 400000, fn: forProp("P19", cancelRun), post: only("deadlock", "step-budget")},
		b("builds", 3, buildOpt{bopt: full, prop: "P19", cancel: true, force: true}, "deadlock"),
	}, real: append(append([]string{}, buildReal...), cmdReal...), stub: append(append([]string{}, buildStub...), cmdStub...),
		assume: []string{"SIGKILL ends a process; a process that is ended releases its end of a pipe"},
		rule:   "Each run draws commands that write, sleep for up to hours, ignore signals or leave children behind that hold their output open, under one or two controllers, cancels one of them (before, during or after any step, explicitly or by a deadline, several times) and checks that its processes die, that nothing it should start later starts, how long Run takes, what it returns, and that the other controller is not affected; histories of builds with cancellations check what is recorded."})
	msg := func(name string, weight int, o gopt) scenario {
		o.msgs = true
		return scenario{name: name, weight: weight, maxSteps: 200000, fn: forProp("P24", func() { graphRun(o) }), post: only()}
	}
	register(&check{id: "P24", scenarios: []scenario{
		msg("messages", 5, gopt{}),
		msg("messages-files", 3, gopt{files: true, probes: true}),
		msg("messages-yaml", 3, gopt{yaml: true, files: true}),
		msg("messages-small", 3, gopt{maxN: 5}),
		b("up-to-date", 3, buildOpt{bopt: full, prop: "P24", force: true, dry: true}),
		b("up-to-date-history", 2, buildOpt{bopt: full, prop: "P24", force: true, dry: true, fail: true, cancel: true, edits: true}),
	}, real: append(append([]string{}, graphReal...), buildReal...), stub: append(append([]string{}, graphStub...), "hash database: a model"), assume: graphAssume,
		rule: "Targets of random graphs print messages of many lengths while others do; everything on standard output must be one whole line per message, with at least the indentation of the nesting the harness knows, and the announcements must match the executions. Histories of verbose builds compare what is reported as up to date with what was skipped."})
	register(&check{id: "P21", scenarios: []scenario{
		b("force", 5, buildOpt{bopt: full, prop: "P21", force: true}),
		b("force-history", 3, buildOpt{bopt: full, prop: "P21", force: true, fail: true, crash: true, dry: true}),
	}, real: buildReal, stub: buildStub, assume: buildAssume,
		rule: "Histories with forced builds; a forced build must execute every subtarget it covers exactly once, and the next normal build must execute none of them."})
}
