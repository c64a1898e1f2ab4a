//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/context"
	"gopkg.in/yaml.v3"
)

// The target-graph world: a random acyclic graph of targets of all composite kinds, several client
// tasks requesting parts of it from one controller, and a model that says which leaves must run and
// what every requester must be told.

type nodeKind int

const (
	nLeaf nodeKind = iota
	nLeafF
	nAll
	nSeq
	nDeps
	nArg
	nNested
	nFiles
	nAlias
	nKinds
)

var kindNames = []string{"Leaf", "F", "All", "Seq", "Deps", "ArgTarget", "Nested", "Files", "Alias"}

type gnode struct {
	id      int
	kind    nodeKind
	kids    []int
	refs    []bool // kid i is referred to by name
	main    int    // Deps: the main target
	dir     string // YAML directory
	named   bool   // registered under its name
	fail    bool
	heeds   bool // stops when its context is cancelled
	sleep   int64
	inplace bool
	outDir  bool
	more    []string // Files: other outputs, which other targets may have too
	in      []int    // Files: producers it reads from
	err     error
	target  fab.Target

	execs   int
	running bool
	ended   bool

	verbose bool // executed in verbose mode

	memo *gresult
}

type gresult struct {
	errs   map[int]bool // nodes whose own error is in the outcome
	leaves map[int]bool // leaves that run
	ran    map[int]bool // all nodes that run
}

type gworld struct {
	nodes   []*gnode
	con     *fab.Controller
	yaml    bool
	barrier bool
	nprobe  int
	events  int
	msgs    *gmsgs // what is printed is checked
}

var dirs = []string{"", "a", "a/b", "c"}

type gopt struct {
	yaml    bool
	files   bool
	probes  bool
	barrier bool
	nofail  bool
	msgs    bool
	maxN    int
}

// leaf is the target type of the leaves.
type gleaf struct {
	N int
	w *gworld
}

func (l *gleaf) Desc() string {
	if l.w.msgs != nil {
		return sname("leaf", l.N)
	}
	return "leaf"
}
func (l *gleaf) Run(ctx context.Context, con *fab.Controller) error {
	return l.w.leafRun(ctx, con, l.w.nodes[l.N])
}

func (w *gworld) leafRun(ctx context.Context, con *fab.Controller, n *gnode) error {
	n.execs++
	w.msgs.enter(ctx, con, n)
	zsim.Log("leaf %d starts (execution %d)", n.id, n.execs)
	if n.execs > 1 {
		viol("P01", "ran-twice", "the work of target %d was executed %d times", n.id, n.execs)
	}
	n.running = true
	if n.sleep > 0 {
		zsim.Sleep(n.sleep)
	} else {
		zsim.Yield(1000)
		zsim.Yield(1000)
	}
	w.msgs.speak(ctx, con, n)
	n.running = false
	n.ended = true
	zsim.Log("leaf %d ends", n.id)
	if n.heeds && ctx.Err() != nil {
		return ctx.Err() // nobody cancels in such runs, so this counts as an invented failure
	}
	if n.fail {
		return n.err
	}
	return nil
}

// nested is a target whose Run calls the controller itself, in parallel or in sequence.
type gnested struct {
	N int
	w *gworld
}

func (l *gnested) Desc() string {
	if l.w.msgs != nil {
		return sname("nested", l.N)
	}
	if n := l.w.nodes[l.N]; len(n.kids) > 0 && l.w.con != nil && l.w.nodes[n.kids[0]].target != nil {
		// described by what it is for
		return "nested for " + l.w.con.Describe(l.w.nodes[n.kids[0]].target)
	}
	return "nested"
}
func (l *gnested) Run(ctx context.Context, con *fab.Controller) error {
	n := l.w.nodes[l.N]
	n.execs++
	if n.execs > 1 {
		viol("P01", "ran-twice", "the work of target %d (nested) was executed %d times", n.id, n.execs)
	}
	l.w.msgs.enter(ctx, con, n)
	var ts []fab.Target
	for i := range n.kids {
		ts = append(ts, l.w.kid(n, i))
	}
	err := con.Run(l.w.msgs.deeper(ctx), ts...)
	l.w.msgs.speak(ctx, con, n)
	l.w.checkOutcome(err, n.kids, "a nested Run")
	n.ended = true
	if err == nil && n.fail {
		return n.err
	}
	return err
}

// probe stands around one element of a composite target and observes when it starts and ends.
type gprobe struct {
	w       *gworld
	group   *pgroup
	idx     int
	kid     int
	t       fab.Target
	started bool
	done    bool
	failed  bool
}

type pgroup struct {
	seq     bool // elements are ordered
	depsLen int  // Deps: elements before this one are unordered, the rest comes after them
	probes  []*gprobe
	barrier bool
}

type allStarted struct{ g *pgroup }

func (a allStarted) Ready() bool {
	for _, p := range a.g.probes {
		if !p.started {
			return false
		}
	}
	return true
}

func (p *gprobe) Desc() string { return "probe" }
func (p *gprobe) Run(ctx context.Context, con *fab.Controller) error {
	if p.started {
		viol("P01", "ran-twice", "element %d of a composite target was run twice", p.idx)
	}
	p.started = true
	g := p.group
	for _, q := range g.probes {
		before := false
		if g.depsLen > 0 {
			before = p.idx >= g.depsLen && q.idx < g.depsLen
		} else if g.seq {
			before = q.idx < p.idx
		}
		if !before {
			continue
		}
		if !q.done {
			viol("P04", "order", "element %d of a %s started before element %d had finished", p.idx, g.name(), q.idx)
		} else if q.failed {
			viol("P04", "started-after-failure", "element %d of a %s started although element %d had failed", p.idx, g.name(), q.idx)
		}
	}
	if g.barrier {
		// every sibling is started whatever the others do: wait for that
		zsim.Block(allStarted{g}, -1)
	}
	err := con.Run(p.w.msgs.deeper(ctx), p.t)
	p.w.checkOutcome(err, []int{p.kid}, "an element of a composite target")
	p.done, p.failed = true, err != nil
	return err
}

func (g *pgroup) name() string {
	switch {
	case g.depsLen > 0:
		return "Deps"
	case g.seq:
		return "Seq"
	}
	return "All"
}

func (w *gworld) eval(id int) *gresult {
	n := w.nodes[id]
	if n.memo != nil {
		return n.memo
	}
	r := &gresult{errs: map[int]bool{}, leaves: map[int]bool{}, ran: map[int]bool{id: true}}
	n.memo = r
	add := func(k int) bool {
		x := w.eval(k)
		for e := range x.errs {
			r.errs[e] = true
		}
		for l := range x.leaves {
			r.leaves[l] = true
		}
		for l := range x.ran {
			r.ran[l] = true
		}
		return len(x.errs) == 0
	}
	switch n.kind {
	case nLeaf, nLeafF:
		r.leaves[id] = true
		if n.fail {
			r.errs[id] = true
		}
	case nAll, nArg, nAlias:
		for _, k := range n.kids {
			add(k)
		}
	case nNested:
		r.leaves[id] = true
		for _, k := range n.kids {
			add(k)
		}
		if len(r.errs) == 0 && n.fail {
			r.errs[id] = true
		}
	case nSeq:
		for _, k := range n.kids {
			if !add(k) {
				break
			}
		}
	case nDeps:
		ok := true
		for _, k := range n.kids[1:] {
			if !add(k) {
				ok = false
			}
		}
		if ok {
			add(n.kids[0])
		}
	case nFiles:
		ok := true
		for _, k := range n.in {
			if !add(k) {
				ok = false
			}
		}
		if ok {
			add(n.kids[0])
		}
	}
	return r
}

// failure makes the error of a failing target. A failure is a failure whatever it wraps: a target whose own
// request timed out is no more successful than any other.
func failure(name string) error {
	switch zsim.Gen(12) {
	case 11, 10:
		return errors.New("failure") // as many others
	case 9:
		return fmt.Errorf("failure: %w", fs.ErrNotExist)
	case 0:
		return fmt.Errorf("failure of %s: %w", name, context.DeadlineExceeded)
	case 1:
		return fmt.Errorf("failure of %s: %w", name, context.Canceled)
	case 2:
		return fmt.Errorf("failure of %s: %w", name, fs.ErrNotExist)
	case 3:
		return fmt.Errorf("failure of %s: %w", name, io.EOF)
	}
	return fmt.Errorf("failure of %s", name)
}

func (w *gworld) checkOutcome(err error, nodes []int, who string) {
	if zsim.Exiting() {
		return
	}
	want := map[int]bool{}
	for _, id := range nodes {
		r := w.eval(id)
		for e := range r.errs {
			want[e] = true
		}
		for l := range r.leaves {
			if n := w.nodes[l]; !n.ended {
				viol("P01 P03", "returned-early", "%s returned before target %d, which it had asked for, finished", who, l)
			}
		}
	}
	for _, n := range w.nodes {
		if n.err == nil {
			continue
		}
		got := errors.Is(err, n.err)
		if want[n.id] && !got {
			if err == nil {
				viol("P03", "error-lost", "%s returned success although target %d, which it had asked for, failed", who, n.id)
			} else {
				viol("P03", "error-lost", "the error returned by %s does not contain the failure of target %d", who, n.id)
			}
		}
		if !want[n.id] && got {
			viol("P03", "error-invented", "%s was given the failure of target %d, which it had not asked for", who, n.id)
		}
	}
	if len(want) == 0 && err != nil {
		viol("P03", "error-invented", "%s returned an error although all it had asked for succeeded: %v", who, err)
	}
}

func (n *gnode) qname() string {
	if n.dir == "" {
		return sname("N", n.id)
	}
	return n.dir + "/" + sname("N", n.id)
}

// kid gives the target by which n refers to its i-th kid.
func (w *gworld) kid(n *gnode, i int) fab.Target {
	k := w.nodes[n.kids[i]]
	if n.refs[i] {
		return w.byName(k.qname())
	}
	return k.target
}

func (w *gworld) byName(name string) fab.Target {
	t, err := w.con.YAMLTarget(&yaml.Node{Kind: yaml.ScalarNode, Value: name}, "")
	if err != nil {
		zsim.Bug("YAMLTarget(%q): %v", name, err)
	}
	return t
}

func (n *gnode) out() string {
	if n.outDir {
		return sname("/w/od", n.id)
	}
	return sname("/w/o", n.id)
}

func (n *gnode) outFile() string {
	if n.outDir {
		return n.out() + "/sub/x"
	}
	return n.out()
}

func (w *gworld) elements(n *gnode, g *pgroup, probes bool) []fab.Target {
	var out []fab.Target
	for i := range n.kids {
		t := w.kid(n, i)
		if probes {
			p := &gprobe{w: w, group: g, idx: len(g.probes), kid: n.kids[i], t: t}
			g.probes = append(g.probes, p)
			t = p
		}
		out = append(out, t)
	}
	return out
}

func (w *gworld) generate(o gopt) {
	n := 2 + zsim.Gen(o.maxN-1)
	for i := 0; i < n; i++ {
		nd := &gnode{id: i}
		w.nodes = append(w.nodes, nd)
		if i > 0 {
			nd.kind = nodeKind(zsim.Gen(int(nKinds)))
			if i < n/3 && nd.kind > nLeafF {
				nd.kind = nLeaf
			}
		}
		if nd.kind == nFiles && !o.files {
			nd.kind = nAll
		}
		if o.yaml {
			if nd.kind == nNested || nd.kind == nLeafF {
				nd.kind = nLeaf
			}
			nd.dir = dirs[zsim.Gen(len(dirs))]
			nd.named = true
		} else {
			if nd.kind == nAlias {
				nd.kind = nLeaf
			}
			nd.named = zsim.GenBool(1, 2)
		}
		nk := 0
		switch nd.kind {
		case nLeaf, nLeafF:
			if zsim.GenBool(1, 3) {
				nd.sleep = int64(1+zsim.Gen(5)) * 1e6
			}
		case nAll, nSeq:
			nk = zsim.Gen(5)
			if o.barrier && nd.kind == nAll && zsim.GenBool(1, 12) {
				nk = 6 + zsim.Gen(64) // any number of elements run together
			}
		case nDeps:
			nk = 1 + zsim.Gen(3)
		case nNested:
			nk = zsim.Gen(3)
		case nArg, nAlias:
			nk = 1
		case nFiles:
			nk = 1
			nd.inplace = zsim.GenBool(1, 3)
			nd.outDir = zsim.GenBool(1, 4)
			if zsim.GenBool(1, 6) {
				// outputs that other targets have too
				nd.more = [][]string{{"/w/p"}, {"/w/q"}, {"/w/p", "/w/q"}, {"/w/q", "/w/p"}}[zsim.Gen(4)]
			}
			for j := 0; j < i; j++ {
				if w.nodes[j].kind == nFiles && zsim.GenBool(1, 2) {
					nd.in = append(nd.in, j)
				}
			}
		}
		for j := 0; j < nk; j++ {
			// recent nodes are likelier, so that graphs get deep; sharing is frequent anyway
			k := i - 1 - zsim.Gen(min(i, 6))
			nd.kids = append(nd.kids, k)
			nd.refs = append(nd.refs, w.nodes[k].named && zsim.GenBool(1, 2))
		}
		switch nd.kind {
		case nLeaf, nLeafF, nNested:
			nd.err = failure(fmt.Sprint(i))
			nd.fail = !o.nofail && zsim.GenBool(1, 5)
		}
	}
	if zsim.GenBool(1, 40) {
		w.enlarge(o)
	}
}

// enlarge adds a part to the graph that is much wider or deeper than the rest: the guarantees have no
// limits.
func (w *gworld) enlarge(o gopt) {
	m := 60 + zsim.Gen(250)
	zsim.AllowSteps(int64(m) * 4000)
	first := len(w.nodes)
	chain := zsim.GenBool(1, 3)
	failing := 0
	if !o.nofail {
		failing = pick(0, 1, m/2)
	}
	if chain {
		m = m/3 + 1
	}
	for i := 0; i < m; i++ {
		n := &gnode{id: len(w.nodes), named: o.yaml || i%2 == 0}
		if o.yaml {
			n.dir = w.nodes[len(w.nodes)-1].dir
		}
		n.err = failure(fmt.Sprint(n.id))
		n.fail = zsim.Gen(m) < failing
		if chain {
			n.kind = []nodeKind{nSeq, nAll, nDeps}[zsim.Gen(3)]
			n.err, n.fail = nil, false
			n.kids = []int{n.id - 1}
			n.refs = []bool{false}
		}
		w.nodes = append(w.nodes, n)
	}
	for k := 1 + zsim.Gen(2); k > 0; k-- {
		n := &gnode{id: len(w.nodes), named: true, kind: []nodeKind{nSeq, nAll, nAll, nDeps}[zsim.Gen(4)]}
		n.dir = w.nodes[first].dir
		last := first + m
		if chain {
			first = last - 1
		}
		for i := first; i < last; i++ {
			n.kids = append(n.kids, i)
			n.refs = append(n.refs, w.nodes[i].named && i%3 == 0)
		}
		w.nodes = append(w.nodes, n)
	}
	zsim.Probe("a graph much larger than the others")
}

// build makes the targets with the Go constructors.
func (w *gworld) build(o gopt) {
	for _, n := range w.nodes {
		n := n
		g := &pgroup{barrier: o.barrier && n.kind == nAll}
		probes := o.probes && (n.kind == nSeq || n.kind == nAll || n.kind == nDeps)
		switch n.kind {
		case nLeaf:
			n.target = &gleaf{N: n.id, w: w}
		case nLeafF:
			n.target = fab.F(func(ctx context.Context, con *fab.Controller) error { return w.leafRun(ctx, con, n) })
		case nAll:
			n.target = fab.All(w.elements(n, g, probes)...)
		case nSeq:
			g.seq = true
			n.target = fab.Seq(w.elements(n, g, probes)...)
		case nDeps:
			// the probes of the dependencies come first
			g.seq = true
			var deps []fab.Target
			for i := 1; i < len(n.kids); i++ {
				t := w.kid(n, i)
				if probes {
					p := &gprobe{w: w, group: g, idx: len(g.probes), kid: n.kids[i], t: t}
					g.probes = append(g.probes, p)
					t = p
				}
				deps = append(deps, t)
			}
			g.depsLen = len(g.probes)
			m := w.kid(n, 0)
			if probes {
				p := &gprobe{w: w, group: g, idx: len(g.probes), kid: n.kids[0], t: m}
				g.probes = append(g.probes, p)
				m = p
			}
			n.target = fab.Deps(m, deps...)
		case nArg:
			n.target = fab.ArgTarget(w.kid(n, 0), "x", "y")
		case nNested:
			n.target = &gnested{N: n.id, w: w}
		case nFiles:
			n.target = fab.Files(w.kid(n, 0), w.ins(n), append([]string{n.out()}, n.more...))
		}
		if n.named {
			if _, err := w.con.RegisterTarget(n.qname(), "doc", n.target); err != nil {
				zsim.Bug("RegisterTarget: %v", err)
			}
		}
	}
}

func (w *gworld) ins(n *gnode) []string {
	var in []string
	for _, j := range n.in {
		in = append(in, w.nodes[j].outFile())
	}
	if n.inplace {
		in = append(in, n.out())
	}
	in = append(in, "/w/source")
	return in
}

// writeYAML writes the YAML files that define the graph.
func (w *gworld) writeYAML() {
	text := map[string]*strings.Builder{}
	ref := func(n *gnode, k int) string {
		kn := w.nodes[k]
		if kn.dir+n.dir != "" && zsim.GenBool(1, 6) {
			return path.Join("/top", kn.dir, sname("N", k)) // an absolute reference
		}
		if kn.dir == "" {
			if zsim.GenBool(1, 2) && n.dir != "" {
				up, _ := relDir(n.dir, "")
				return up + "/" + sname("N", k)
			}
			return sname("N", k)
		}
		if kn.dir == n.dir {
			return "./" + sname("N", k)
		}
		r, _ := relDir(n.dir, kn.dir)
		return r + "/" + sname("N", k)
	}
	fileOrder := zsim.Gen(2)
	for i := range w.nodes {
		n := w.nodes[i]
		if fileOrder == 1 {
			n = w.nodes[len(w.nodes)-1-i]
		}
		b := text[n.dir]
		if b == nil {
			b = &strings.Builder{}
			text[n.dir] = b
			if n.dir != "" {
				fmt.Fprintf(b, "_dir: %s\n\n", n.dir)
			}
		}
		fmt.Fprintf(b, "%s: ", sname("N", n.id))
		list := func(kids []int, indent string) {
			for _, k := range kids {
				fmt.Fprintf(b, "%s- %s\n", indent, ref(n, k))
			}
		}
		switch n.kind {
		case nLeaf:
			fmt.Fprintf(b, "!SimLeaf %d\n", n.id)
		case nAll, nSeq:
			if len(n.kids) == 0 {
				fmt.Fprintf(b, "!%s []\n", kindNames[n.kind])
				break
			}
			fmt.Fprintf(b, "!%s\n", kindNames[n.kind])
			list(n.kids, "  ")
		case nDeps:
			if n.id%2 == 0 {
				fmt.Fprintf(b, "!Deps\n")
				list(n.kids, "  ")
			} else {
				fmt.Fprintf(b, "!Deps\n  Post: %s\n", ref(n, n.kids[0]))
				if len(n.kids) > 1 {
					fmt.Fprintf(b, "  Pre:\n")
					list(n.kids[1:], "    ")
				}
			}
		case nArg:
			fmt.Fprintf(b, "!ArgTarget\n")
			list(n.kids, "  ")
			fmt.Fprintf(b, "  - -x\n")
		case nAlias:
			fmt.Fprintf(b, "%s\n", ref(n, n.kids[0]))
		case nFiles:
			fmt.Fprintf(b, "!Files\n  Target: %s\n  In:\n", ref(n, n.kids[0]))
			for _, f := range w.ins(n) {
				fmt.Fprintf(b, "    - %s\n", f)
			}
			fmt.Fprintf(b, "  Out:\n    - %s\n", n.out())
			for _, f := range n.more {
				fmt.Fprintf(b, "    - %s\n", f)
			}
		default:
			zsim.Bug("node kind %d in YAML", n.kind)
		}
		b.WriteString("\n")
	}
	if text[""] == nil {
		text[""] = &strings.Builder{}
		fmt.Fprintf(text[""], "Unused: !All []\n")
	}
	for _, d := range dirs {
		b := text[d]
		if b == nil {
			continue
		}
		name := "fab.yaml"
		if zsim.Gen(4) == 3 {
			name = "fab.yml"
		}
		zsim.Disk.Put(path.Join("/top", d, name), b.String())
		if zsim.Tracing() {
			zsim.Log("%s/%s:\n%s", d, name, b.String())
		}
	}
}

func relDir(from, to string) (string, error) {
	f, t := splitDir(from), splitDir(to)
	for len(f) > 0 && len(t) > 0 && f[0] == t[0] {
		f, t = f[1:], t[1:]
	}
	var out []string
	for range f {
		out = append(out, "..")
	}
	out = append(out, t...)
	return strings.Join(out, "/"), nil
}

func splitDir(d string) []string {
	if d == "" {
		return nil
	}
	return strings.Split(d, "/")
}

// graphRun is one run of the graph world.
func graphRun(o gopt) {
	w := &gworld{yaml: o.yaml}
	p := zsim.NewProc("fab", nil)
	p.Cwd = "/w"
	sink := &zsim.Sink{}
	p.Stdout, p.Stderr = sink, &zsim.Sink{}
	if o.msgs {
		w.msgs = &gmsgs{w: w, sink: sink, want: map[string]int{}}
	}
	zsim.Disk.Put("/w/source", "source")
	zsim.Disk.MkDirs("/top")
	if o.maxN == 0 {
		o.maxN = 14
	}
	main := p.Start(func() {
		w.con = fab.NewController("/top")
		w.generate(o)
		if o.yaml {
			fab.RegisterYAMLTarget("SimLeaf", func(_ *fab.Controller, n *yaml.Node, _ string) (fab.Target, error) {
				id := 0
				fmt.Sscan(n.Value, &id)
				return &gleaf{N: id, w: w}, nil
			})
			w.writeYAML()
			if err := w.con.ReadYAMLFile(""); err != nil {
				viol("P05 P03", "yaml-rejected", "YAML files whose targets refer to one another are rejected: %v", err)
				return
			}
			// files nobody referred to
			read := map[string]bool{}
			for _, n := range w.nodes {
				if t, _ := w.con.RegistryTarget(n.qname()); t == nil && !read[n.dir] {
					read[n.dir] = true
					if err := w.con.ReadYAMLFile(n.dir); err != nil {
						viol("P05 P03", "yaml-rejected", "YAML files whose targets refer to one another are rejected: %v", err)
						return
					}
				}
			}
			for _, n := range w.nodes {
				t, _ := w.con.RegistryTarget(n.qname())
				if t == nil {
					viol("P05 P03", "yaml-lost", "a target defined in a YAML file that was read is not in the registry")
					return
				}
				n.target = t
			}
		} else {
			w.build(o)
		}
		ctx := context.Context(context.Background())
		allVerbose := zsim.GenBool(1, 3) || o.msgs && zsim.GenBool(1, 2)
		if allVerbose {
			ctx = fab.WithVerbose(ctx, true)
		}
		// Either some clients' contexts are cancelled, and then the leaves finish their work all the
		// same; or none are, and then leaves may well heed their contexts.
		cancels := zsim.GenBool(1, 4)
		for _, n := range w.nodes {
			n.heeds = !cancels && n.id%2 == 0
		}
		requested := map[int]bool{}
		nc := 1 + zsim.Gen(4)
		type request struct {
			nodes []int
			named bool
		}
		plans := make([][]request, nc)
		for c := range plans {
			nr, most, from := 1+zsim.Gen(3), 3, 5
			if len(w.nodes) <= 50 && zsim.GenBool(1, 100) {
				nr = 20 + zsim.Gen(60)
				zsim.AllowSteps(200000)
			}
			if len(w.nodes) > 50 && zsim.GenBool(1, 3) {
				most, from = 300, len(w.nodes)
			}
			for r := nr; r > 0; r-- {
				q := request{named: zsim.GenBool(1, 4)}
				seen := map[int]bool{}
				for k := 1 + zsim.Gen(most); k > 0; k-- {
					id := len(w.nodes) - 1 - zsim.Gen(min(from, len(w.nodes)))
					if seen[id] || q.named && !w.nodes[id].named {
						continue
					}
					seen[id] = true
					q.nodes = append(q.nodes, id)
					requested[id] = true
				}
				plans[c] = append(plans[c], q)
			}
		}
		var tasks []*zsim.Task
		for c := range plans {
			c := c
			ctx := ctx
			if cancels && zsim.GenBool(2, 3) {
				ct, cancel := context.WithCancel(ctx)
				ctx = ct
				if d := zsim.Gen(20); d == 0 {
					cancel()
				} else {
					tasks = append(tasks, zsim.GoNamed(sname("canceller", c), func() {
						for k := zsim.Gen(pick(20, 400)); k > 0; k-- {
							zsim.Yield(1004)
						}
						if d > 10 {
							zsim.Sleep(int64(d-10) * 5e5)
						}
						zsim.Log("the context of client %d is cancelled", c)
						zsim.CountFault("cancel")
						cancel()
					}))
				}
			}
			if o.msgs {
				if zsim.GenBool(1, 3) {
					ctx = fab.WithVerbose(ctx, true)
				}
				ctx = w.msgs.deeper(ctx)
			}
			tasks = append(tasks, zsim.GoNamed(sname("client", c), func() {
				for _, q := range plans[c] {
					if nc == 1 {
						w.msgs.idle()
					}
					var ts []fab.Target
					if q.named {
						var names []string
						for _, id := range q.nodes {
							names = append(names, w.nodes[id].qname())
						}
						var err error
						ts, err = w.con.ParseArgs(names)
						if err != nil {
							viol("P03 P05", "name-lost", "registered targets are not found by name: %v", err)
							return
						}
					} else {
						for _, id := range q.nodes {
							ts = append(ts, w.nodes[id].target)
						}
					}
					zsim.Log("requests %v", q.nodes)
					err := w.con.Run(ctx, ts...)
					w.checkOutcome(err, q.nodes, "Run")
				}
			}))
		}
		if w.msgs == nil && zsim.GenBool(1, 4) {
			// Targets get further names (or the same once more) while they run or have run.
			type regn struct {
				id    int
				again bool
				wait  int
			}
			var regs []regn
			for k := 1 + zsim.Gen(8); k > 0; k-- {
				regs = append(regs, regn{zsim.Gen(len(w.nodes)), zsim.GenBool(1, 2), zsim.Gen(pick(3, 40))})
			}
			tasks = append(tasks, zsim.GoNamed("registrar", func() {
				for i, g := range regs {
					for k := 0; k < g.wait; k++ {
						zsim.Yield(1005)
					}
					n := w.nodes[g.id]
					name := n.qname()
					if !n.named || !g.again {
						name = sname("Another", i)
					}
					zsim.Log("target %d is registered as %s", n.id, name)
					if _, err := w.con.RegisterTarget(name, "doc", n.target); err != nil {
						viol("P01 P03", "not-registered", "a target that was registered before is rejected: %v", err)
					}
					if t, _ := w.con.RegistryTarget(name); t != n.target {
						viol("P01 P03", "not-registered", "a target that was just registered as %s is not in the registry under that name", name)
					}
				}
			}))
			zsim.Probe("targets registered while others run")
		}
		for _, t := range tasks {
			t.Join()
		}
		reached := map[int]bool{}
		for id := range requested {
			for l := range w.eval(id).leaves {
				reached[l] = true
			}
		}
		for _, n := range w.nodes {
			if n.kind != nLeaf && n.kind != nLeafF && n.kind != nNested {
				continue
			}
			switch {
			case reached[n.id] && n.execs != 1:
				viol("P01", "not-once", "target %d was requested and executed %d times", n.id, n.execs)
			case !reached[n.id] && n.execs > 0:
				viol("P01 P04", "not-asked-for", "target %d was executed although no request reaches it", n.id)
			}
		}
		if len(reached) > 3 {
			zsim.Probe("more than three leaves executed")
		}
		if w.msgs != nil {
			ran := map[int]bool{}
			for id := range requested {
				for l := range w.eval(id).ran {
					ran[l] = true
				}
			}
			w.msgs.idle()
			w.msgs.check(ran, allVerbose)
		}
	})
	main.Join()
	p.Wait()
}

// --- messages (P24)

// gmsgs checks what a run prints.
type gmsgs struct {
	w    *gworld
	sink *zsim.Sink
	want map[string]int // text of a message -> nesting of the target that printed it
	n    int
}

type depthKey struct{}

// deeper notes one more Run call around what gets the resulting context.
func (g *gmsgs) deeper(ctx context.Context) context.Context {
	if g == nil {
		return ctx
	}
	return context.WithValue(ctx, depthKey{}, nesting(ctx)+1)
}

func nesting(ctx context.Context) int {
	d, _ := ctx.Value(depthKey{}).(int)
	return d
}

// desc is how messages refer to a node, or "" if that does not identify it.
func (g *gmsgs) desc(n *gnode) string {
	switch {
	case n.kind == nAlias:
		return ""
	case n.named:
		return n.qname()
	case n.kind == nLeaf:
		return sname("unnamed leaf", n.id)
	case n.kind == nNested:
		return sname("unnamed nested", n.id)
	}
	return ""
}

// announcements counts the announcements of a node: by its name, or by that of an alias (which may be
// announced as a target of its own, too).
func (g *gmsgs) announcements(n *gnode, announced map[string]int) (c int, known, aliased bool) {
	d := g.desc(n)
	if d == "" {
		return 0, false, false
	}
	same := map[int]bool{n.id: true}
	c = announced[d]
	for _, a := range g.w.nodes {
		if a.kind == nAlias && same[a.kids[0]] {
			same[a.id] = true
			if k := announced[a.qname()]; c == 0 || k > 1 {
				c += k
			}
		}
	}
	return c, true, len(same) > 1
}

// enter is called when the work of a target begins.
func (g *gmsgs) enter(ctx context.Context, con *fab.Controller, n *gnode) {
	if g == nil {
		return
	}
	n.verbose = fab.GetVerbose(ctx)
	if c, known, _ := g.announcements(n, g.announced()); n.verbose && known && c != 1 {
		viol("P24", "not-announced", "in verbose mode the work of target %d begins, and it has been announced %d times (%q)", n.id, c, g.sink.Data)
	}
	g.speak(ctx, con, n)
}

// speak prints some messages.
func (g *gmsgs) speak(ctx context.Context, con *fab.Controller, n *gnode) {
	if g == nil {
		return
	}
	for k := zsim.Gen(3); k > 0; k-- {
		g.say(con, nesting(ctx), sname("of target ", n.id))
	}
}

func (g *gmsgs) say(con *fab.Controller, depth int, what string) {
	g.n++
	text := fmt.Sprintf("message %d %s %s|", g.n, what, strings.Repeat(pick("x", "\t", "%", "é"), pick(0, 1, 30, 300, 5000)))
	g.want[text] = depth
	switch zsim.Gen(3) {
	case 0:
		con.Indentf("%s", text)
	case 1:
		con.Indentf("%s\n", text)
	default:
		con.Indentf("message %d %s", g.n, strings.SplitN(text, " ", 3)[2])
	}
}

// idle prints a message while no Run is in progress.
func (g *gmsgs) idle() {
	if g != nil {
		g.say(g.w.con, -1, "outside")
	}
}

func (g *gmsgs) lines() []string {
	return strings.SplitAfter(string(g.sink.Data), "\n")
}

func (g *gmsgs) announced() map[string]int {
	out := map[string]int{}
	for _, l := range g.lines() {
		if text := strings.TrimLeft(l, " "); strings.HasPrefix(text, "Running ") && strings.HasSuffix(text, "\n") {
			out[text[8:len(text)-1]]++
		}
	}
	return out
}

// check looks at everything that was printed.
func (g *gmsgs) check(ran map[int]bool, allVerbose bool) {
	if zsim.Exiting() {
		return
	}
	seen := map[string]bool{}
	announced := g.announced()
	for _, l := range g.lines() {
		if l == "" {
			continue
		}
		text := strings.TrimLeft(l, " ")
		in := len(l) - len(text)
		if !strings.HasSuffix(text, "\n") {
			viol("P24", "no-line-end", "the output ends with an unfinished line: %q", l)
			return
		}
		text = text[:len(text)-1]
		if strings.HasPrefix(text, "Running ") {
			if in < 2 {
				viol("P24", "torn", "a message of a target in a Run call was printed without its indentation: %q", l)
			}
			continue
		}
		d, ok := g.want[text]
		switch {
		case !ok:
			viol("P24", "torn", "a line was printed that is no message: %q", l)
		case seen[text]:
			viol("P24", "message-twice", "a message was printed twice: %q", l)
		case d < 0 && in != 0:
			viol("P24", "indented-idle", "a message printed while no Run call is in progress is indented: %q", l)
		case in < 2*d:
			viol("P24", "torn", "a message of a target nested in %d Run calls was printed with less indentation: %q", d, l)
		case in%2 != 0:
			viol("P24", "odd-indent", "a message was indented by an odd number of spaces: %q", l)
		}
		seen[text] = true
	}
	if len(seen) != len(g.want) {
		viol("P24", "message-lost", "%d messages were printed, and %d arrived as whole lines", len(g.want), len(seen))
	}
	for _, n := range g.w.nodes {
		c, known, aliased := g.announcements(n, announced)
		if !known {
			continue
		}
		d := g.desc(n)
		switch {
		case c > 1:
			viol("P24", "announced-twice", "the execution of %s was announced %d times", d, c)
		case !ran[n.id] && c > 0:
			viol("P24", "announced-not-run", "the execution of %s was announced, and it was not executed", d)
		case n.kind == nLeaf || n.kind == nLeafF || n.kind == nNested:
			if n.execs > 0 && n.verbose != (c == 1) && !(aliased && !n.verbose) {
				viol("P24", "not-announced", "%s was executed (verbose mode: %v) and announced %d times", d, n.verbose, c)
			}
		case ran[n.id] && allVerbose && c != 1:
			viol("P24", "not-announced", "%s was executed in verbose mode and not announced", d)
		}
	}
	zsim.Probe("messages checked")
}

// --- distinct targets (P02)

type (
	zsA struct{}
	zsB struct{}
	zsC struct{}
	zsD struct{}
)

type idWorld struct {
	execs map[string]int
	errs  map[string]error
}

var idw *idWorld

func idRun(name string) error {
	idw.execs[name]++
	zsim.Yield(1001)
	return idw.errs[name]
}

func (*zsA) Run(context.Context, *fab.Controller) error { return idRun("zsA") }
func (*zsA) Desc() string                               { return "zsA" }
func (*zsB) Run(context.Context, *fab.Controller) error { return idRun("zsB") }
func (*zsB) Desc() string                               { return "zsB" }
func (*zsC) Run(context.Context, *fab.Controller) error { return idRun("zsC") }
func (*zsC) Desc() string                               { return "zsC" }
func (*zsD) Run(context.Context, *fab.Controller) error { return idRun("zsD") }
func (*zsD) Desc() string                               { return "zsD" }

type innerT struct{ name string }
type midT struct {
	innerT
	x int
}
type outerT struct {
	midT
	y [3]int
}

func (t *innerT) Run(context.Context, *fab.Controller) error { return idRun("inner " + t.name) }
func (t *innerT) Desc() string                               { return "inner" }
func (t *midT) Run(context.Context, *fab.Controller) error   { return idRun("mid " + t.name) }
func (t *midT) Desc() string                                 { return "mid" }
func (t *outerT) Run(context.Context, *fab.Controller) error { return idRun("outer " + t.name) }
func (t *outerT) Desc() string                               { return "outer" }

type shortT struct {
	name string
	pad  [4]int64
}

func (t *shortT) Run(context.Context, *fab.Controller) error { return idRun(t.name) }
func (t *shortT) Desc() string                               { return t.name }

func identityRun() {
	idw = &idWorld{execs: map[string]int{}, errs: map[string]error{}}
	w := idw
	p := zsim.NewProc("fab", nil)
	p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
	p.Start(func() {
		con := fab.NewController("/top")
		type item struct {
			name string
			t    fab.Target
		}
		var items []item
		a, b := &outerT{}, &midT{}
		a.name, b.name = "a", "b"
		all := []item{
			{"zsA", &zsA{}}, {"zsB", &zsB{}}, {"zsC", &zsC{}}, {"zsD", &zsD{}},
			{"outer a", a}, {"mid a", &a.midT}, {"inner a", &a.midT.innerT},
			{"mid b", b}, {"inner b", &b.innerT},
		}
		for i, it := range all {
			if zsim.GenBool(2, 3) {
				items = append(items, it)
			}
			if zsim.GenBool(1, 4) {
				w.errs[it.name] = failure(it.name)
			}
			if zsim.GenBool(1, 4) {
				con.RegisterTarget(sname("R", i), "", it.t)
				for j, other := range all {
					d := con.Describe(other.t)
					if j > i && d == sname("R", i) {
						viol("P02", "description-mixed-up", "the unregistered target %q is described by the name of another, %q", other.name, it.name)
					}
				}
				if d := con.Describe(it.t); d != sname("R", i) {
					viol("P02", "description-mixed-up", "the registered target %q is described as %q", it.name, d)
				}
			}
		}
		check := func(err error, its []item) {
			for _, it := range its {
				if w.execs[it.name] != 1 {
					viol("P02", "distinct-not-run", "target %q was requested and executed %d times", it.name, w.execs[it.name])
				}
				if e := w.errs[it.name]; e != nil && !errors.Is(err, e) {
					viol("P02", "outcome-mixed-up", "the requester of %q did not receive its failure", it.name)
				}
			}
			for n, e := range w.errs {
				asked := false
				for _, it := range its {
					asked = asked || it.name == n
				}
				if !asked && errors.Is(err, e) {
					viol("P02", "outcome-mixed-up", "a requester received the failure of %q, which it had not asked for", n)
				}
			}
		}
		ctx := context.Background()
		nc := 1 + zsim.Gen(3)
		var tasks []*zsim.Task
		for c := 0; c < nc; c++ {
			c := c
			tasks = append(tasks, zsim.GoNamed(sname("client", c), func() {
				rest := items
				for len(rest) > 0 {
					n := 1 + zsim.Gen(len(rest))
					part := rest[:n]
					rest = rest[n:]
					var ts []fab.Target
					for _, it := range part {
						ts = append(ts, it.t)
					}
					check(con.Run(ctx, ts...), part)
				}
			}))
		}
		for _, t := range tasks {
			t.Join()
		}
	})
	p.Wait()
}

// --- twins: targets that look alike (P02)

type twinCall struct {
	con  *fab.Controller
	name string
	args []string
}

var twinCalls []twinCall

// twinT records who ran it and with which arguments.
type twinT struct{ Name string }

func (t *twinT) Desc() string { return "twin" }
func (t *twinT) Run(ctx context.Context, con *fab.Controller) error {
	zsim.Yield(1005)
	twinCalls = append(twinCalls, twinCall{con, t.Name, fab.GetArgs(ctx)})
	zsim.Log("%s runs with arguments %q", t.Name, fab.GetArgs(ctx))
	return nil
}

func lastArgs(cs []twinCall) []string {
	if len(cs) == 0 {
		return nil
	}
	return cs[len(cs)-1].args
}

func sameArgs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var twinArgs = [][]string{nil, {""}, {"", ""}, {"a"}, {"a", ""}, {"", "a"}, {"a b"}, {"a", "b"}, {"a  b"}, {"a\nb"}, {"a,b"}, {"b", "a"}, {"[a b]"}, {"\"a\""}, {"a", "a"}, {"-a", "b"}, {"-a b"}, {"A"}}

var twinDirs = []string{"", "a", "a/b", "b", "ab"}

func twinsRun() {
	twinCalls = nil
	ran := map[string]int{}
	p := zsim.NewProc("fab", nil)
	p.Cwd = "/w"
	p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
	zsim.Disk.MkDirs("/w")
	zsim.FindProgram = func(name string) (zsim.Program, bool) {
		return func(c *zsim.Child) int {
			zsim.Yield(1006)
			ran["command"]++
			return 0
		}, name == "/bin/t"
	}
	ctx := context.Background()
	if zsim.GenBool(1, 4) {
		ctx = fab.WithVerbose(ctx, true)
	}
	together := func(fs []func()) {
		if zsim.GenBool(1, 2) {
			for _, f := range fs {
				f()
			}
			return
		}
		var ts []*zsim.Task
		for i, f := range fs {
			ts = append(ts, zsim.GoNamed(sname("client", i), f))
		}
		for _, t := range ts {
			t.Join()
		}
	}
	p.Start(func() {
		var jobs []func()
		switch zsim.Gen(3) {
		case 0: // the same target with different arguments, each on a controller of its own
			leaf := &twinT{Name: "leaf"}
			for n := 2 + zsim.Gen(4); n > 0; n-- {
				args := twinArgs[zsim.Gen(len(twinArgs))]
				t := fab.ArgTarget(leaf, args...)
				switch zsim.Gen(5) {
				case 0:
					t = fab.ArgTarget(t, twinArgs[zsim.Gen(len(twinArgs))]...)
				case 1:
					t = fab.Seq(t)
				}
				jobs = append(jobs, func() {
					con := fab.NewController("/top")
					err := con.Run(ctx, t)
					var got []twinCall
					for _, c := range twinCalls {
						if c.con == con {
							got = append(got, c)
						}
					}
					if err != nil || len(got) != 1 || !sameArgs(got[0].args, args) {
						viol("P02", "arguments-mixed-up", "an ArgTarget with arguments %q ran its target %d times, the last time with %q (%v)", args, len(got), lastArgs(got), err)
					}
				})
			}
			together(jobs)
		case 1: // targets that are equal in all but identity, on one controller
			con := fab.NewController("/top")
			want := map[string]int{}
			for n := 2 + zsim.Gen(5); n > 0; n-- {
				var t fab.Target
				name := ""
				switch zsim.Gen(3) {
				case 0:
					name = "function"
					t = fab.F(func(context.Context, *fab.Controller) error { ran[name]++; zsim.Yield(1007); return nil })
				case 1:
					name = "command"
					t = &fab.Command{Cmd: "/bin/t", Args: []string{"x"}}
				default:
					name = sname("function", n)
					n := n
					t = fab.F(func(context.Context, *fab.Controller) error {
						ran[sname("function", n)]++
						zsim.Yield(1007)
						return nil
					})
				}
				want[name]++
				if zsim.GenBool(1, 3) {
					t = fab.Seq(t)
				}
				if zsim.GenBool(1, 5) {
					con.RegisterTarget(pick(sname("R", n), "R"), "", t) // perhaps several of one name
				}
				jobs = append(jobs, func() {
					if err := con.Run(ctx, t); err != nil {
						viol("P02", "outcome-mixed-up", "%s failed: %v", name, err)
					}
				})
			}
			together(jobs)
			var names []string
			for n := range want {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				if ran[n] != want[n] {
					viol("P02", "distinct-not-run", "%d different targets %q were requested and %d ran", want[n], n, ran[n])
				}
			}
		default: // targets of the same name in different directories' YAML files
			fab.RegisterYAMLTarget("SimTwin", func(_ *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {
				return &twinT{Name: n.Value}, nil
			})
			refs := map[string]string{} // what a name refers to
			for _, d := range twinDirs {
				text := ""
				if d != "" {
					text = "_dir: " + d + "\n"
				}
				for _, n := range []string{"X", "Y"} {
					q := path.Join(d, n)
					if n == "X" || zsim.GenBool(1, 2) {
						text += n + ": !SimTwin " + q + "\n"
						refs[q] = q
						continue
					}
					to := twinDirs[zsim.Gen(len(twinDirs))]
					rel, err := relDir(d, to)
					if err != nil {
						panic(err)
					}
					if rel == "" {
						rel = "."
					}
					spelled := rel + "/X"
					switch {
					case to == "" && zsim.GenBool(1, 2):
						spelled = "X" // a bare name is one of the top directory
					case zsim.GenBool(1, 5):
						spelled = path.Join("/top", to, "X")
					case zsim.GenBool(1, 6):
						spelled = pick("./", "./././", "q/../") + spelled
					}
					if zsim.GenBool(1, 2) {
						text += n + ": " + spelled + "\n"
					} else {
						text += n + ": !Seq\n  - " + spelled + "\n"
					}
					refs[q] = path.Join(to, "X")
				}
				zsim.Disk.Put(path.Join("/top", d, "fab.yaml"), text)
			}
			for n := 1 + zsim.Gen(2); n > 0; n-- {
				con := fab.NewController("/top")
				first := zsim.Gen(len(twinDirs))
				for i := range twinDirs {
					if err := con.ReadYAMLFile(twinDirs[(first+i)%len(twinDirs)]); err != nil {
						viol("P02", "yaml-rejected", "%v", err)
						return
					}
				}
				want := map[string]bool{}
				for k := 1 + zsim.Gen(4); k > 0; k-- {
					q := path.Join(twinDirs[zsim.Gen(len(twinDirs))], pick("X", "Y"))
					want[refs[q]] = true
					jobs = append(jobs, func() {
						ts, err := con.ParseArgs([]string{q})
						if err == nil {
							err = con.Run(ctx, ts...)
						}
						if err != nil {
							viol("P02", "outcome-mixed-up", "%s failed: %v", q, err)
						}
						for _, c := range twinCalls {
							if c.con == con && c.name == refs[q] {
								return
							}
						}
						viol("P02", "distinct-not-run", "%s was requested, and %s never ran", q, refs[q])
					})
				}
				together(jobs)
				jobs = nil
				for _, c := range twinCalls {
					if c.con == con && !want[c.name] {
						viol("P02", "distinct-not-run", "%s ran although nobody had requested it", c.name)
					}
				}
			}
		}
	})
	p.Wait()
}

// churnRun creates, runs and drops many targets on one controller, with garbage collections in between.
func churnRun() {
	idw = &idWorld{execs: map[string]int{}, errs: map[string]error{}}
	w := idw
	p := zsim.NewProc("fab", nil)
	p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
	p.Start(func() {
		con := fab.NewController("/top")
		ctx := context.Background()
		rounds := 2 + zsim.Gen(3)
		per := 100 + zsim.Gen(200)
		kind := zsim.Gen(3)
		serial := 0
		for r := 0; r < rounds; r++ {
			for i := 0; i < per; i++ {
				name := sname("t", serial)
				serial++
				fails := serial%7 == 3
				if fails {
					w.errs[name] = failure(name)
				}
				var t fab.Target
				switch kind {
				case 0:
					t = &shortT{name: name}
				case 1:
					t = fab.F(func(context.Context, *fab.Controller) error { return idRun(name) })
				default:
					t = fab.Seq(&shortT{name: name})
				}
				err := con.Run(ctx, t)
				if w.execs[name] != 1 {
					viol("P02", "distinct-not-run", "a new target was requested and not executed: it was mistaken for an earlier one that had been dropped")
					return
				}
				if fails && !errors.Is(err, w.errs[name]) || !fails && err != nil {
					viol("P02", "outcome-mixed-up", "the requester of a new target received another outcome than its own")
					return
				}
				delete(w.execs, name)
				delete(w.errs, name)
			}
			collectGarbage()
		}
	})
	p.Wait()
}

// --- malformed requests

type valueTarget struct{ w *gworld }

func (valueTarget) Run(context.Context, *fab.Controller) error { return nil }
func (valueTarget) Desc() string                               { return "value" }

// badRequests mixes targets that cannot be run (wrong kind, unknown name) with good ones.
func badRequests() {
	w := &gworld{}
	p := zsim.NewProc("fab", nil)
	p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
	p.Start(func() {
		w.con = fab.NewController("/top")
		n := 1 + zsim.Gen(5)
		for i := 0; i < n; i++ {
			nd := &gnode{id: i, kind: nLeaf, err: failure(fmt.Sprint(i)), fail: zsim.GenBool(1, 3)}
			nd.target = &gleaf{N: i, w: w}
			w.nodes = append(w.nodes, nd)
		}
		var ts []fab.Target
		var ids []int
		bad := 0
		for i := 0; i < n; i++ {
			switch zsim.Gen(4) {
			case 1:
				ts = append(ts, valueTarget{w})
				bad++
			case 2:
				ts = append(ts, w.byName(sname("nosuch", i)))
				bad++
			}
			ts = append(ts, w.nodes[i].target)
			ids = append(ids, i)
		}
		wrap := zsim.Gen(3)
		var err error
		switch wrap {
		case 0:
			err = w.con.Run(context.Background(), ts...)
		case 1:
			err = w.con.Run(context.Background(), fab.All(ts...))
		default:
			err = w.con.Run(context.Background(), fab.Deps(fab.Seq(), ts...))
		}
		for _, i := range ids {
			nd := w.nodes[i]
			if nd.execs != 1 {
				viol("P03 P04", "sibling-skipped", "a target was executed %d times when a sibling could not be run", nd.execs)
			}
			if nd.fail && !errors.Is(err, nd.err) {
				viol("P03", "error-lost", "Run's error does not contain the failure of target %d", i)
			}
		}
		if bad > 0 && err == nil {
			viol("P03", "error-lost", "Run returned success although %d of its targets could not be run", bad)
		}
	})
	p.Wait()
}

func sortedKeys[K int | string, V any](m map[K]V) []K {
	var out []K
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

var graphReal = []string{"runner.go, controller.go, register.go, registry.go, gate.go, all.go, seq.go, deps.go, argtarg.go, f.go, files.go (without hash database), yaml.go, context.go: the code of /repo, compiled from the working tree",
	"gopkg.in/yaml.v3, github.com/bobg/errors, github.com/bobg/go-generics: real"}
var graphStub = []string{"goroutines are scheduled by the simulator (real goroutines, one at a time)", "sync, time, context, os, io/fs: simulated", "leaf targets: instrumented stand-ins that record their executions"}
var graphAssume = []string{"leaf targets return after a bounded number of steps", "the target graph is acyclic"}

func init() {
	g := func(id, name string, weight int, o gopt, classes ...string) scenario {
		return scenario{name: name, weight: weight, maxSteps: 200000, fn: forProp(id, func() { graphRun(o) }), post: only(classes...)}
	}
	register(&check{id: "P01", scenarios: []scenario{
		g("P01", "go-graph", 5, gopt{}),
		g("P01", "go-graph-files", 3, gopt{files: true}),
		g("P01", "yaml-graph", 3, gopt{yaml: true, files: true}),
		g("P01", "small", 2, gopt{maxN: 4}),
	}, real: graphReal, stub: graphStub, assume: graphAssume,
		rule: "Each run draws an acyclic target graph (All, Seq, Deps, ArgTarget, Files chained by file names, nested Run calls, references by name, YAML files) and up to four concurrent clients with several requests each; the oracle counts executions of every leaf against the set a reference evaluation says is reached."})
	register(&check{id: "P02", scenarios: []scenario{
		{name: "identity", weight: 60, fn: forProp("P02", identityRun), post: only()},
		{name: "twins", weight: 30, fn: forProp("P02", twinsRun), post: only()},
		{name: "churn", weight: 3, maxSteps: 2000000, fn: forProp("P02", churnRun), post: only()},
	}, real: graphReal, stub: graphStub, assume: append([]string{"two pointers to zero-size values of one and the same type are not considered distinct targets (Go cannot tell them apart)"}, graphAssume...),
		rule: "Runs with targets that look alike (one target with arguments that differ only in how they are divided, functions made from one literal, equal commands, names that several directories' YAML files define), zero-size targets of different types, targets that are the first field of another, and thousands of targets created, run, dropped and garbage-collected on one controller; every request must execute and report its own target."})
	register(&check{id: "P03", scenarios: []scenario{
		g("P03", "go-graph", 5, gopt{}),
		g("P03", "go-graph-files", 3, gopt{files: true, probes: true}),
		g("P03", "yaml-graph", 3, gopt{yaml: true, files: true}),
		g("P03", "small", 2, gopt{maxN: 4}),
		{name: "bad-requests", weight: 2, fn: forProp("P03", badRequests), post: only()},
	}, real: graphReal, stub: graphStub, assume: graphAssume,
		rule: "Every leaf has its own sentinel error; after every Run call, at the top and inside targets, errors.Is must find exactly the sentinels a reference evaluation predicts, and everything asked for must have ended."})
	register(&check{id: "P04", scenarios: []scenario{
		g("P04", "probed-graph", 5, gopt{probes: true, files: true}),
		g("P04", "probed-small", 3, gopt{probes: true, maxN: 5}),
		g("P04", "barrier", 3, gopt{probes: true, barrier: true, maxN: 8}, "deadlock", "step-budget"),
		{name: "bad-requests", weight: 1, fn: forProp("P04", badRequests), post: only()},
	}, real: graphReal, stub: graphStub, assume: graphAssume,
		rule: "Every element of every Seq, Deps and All is wrapped in a probe that records its start and end; in barrier runs each element of an All waits until all its siblings have started, so that a missing start is a deadlock."})
	all := []string{"deadlock", "step-budget", "task-limit"}
	register(&check{id: "P05", scenarios: []scenario{
		g("P05", "go-graph", 3, gopt{}, all...),
		g("P05", "go-graph-files", 4, gopt{files: true}, all...),
		g("P05", "yaml-graph", 4, gopt{yaml: true, files: true}, all...),
		g("P05", "barrier", 1, gopt{probes: true, barrier: true, maxN: 8}, all...),
	}, real: graphReal, stub: graphStub, assume: graphAssume,
		rule: "Progress: the run ends in a violation when no task can run (deadlock, lost wake-up) or when 200000 scheduling points pass (a run of this size needs a few thousand)."})
}
