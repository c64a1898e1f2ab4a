// Command instr rewrites a scratch copy of the repository so that it runs under the simulator:
// a scheduling point before every statement, goroutines, channels and selects through the
// simulator, imports of nondeterministic packages replaced by simulated ones, map iteration made
// deterministic, and package state made resettable.
//
//	instr -dir SCRATCH [-pkgs ./a,./b] [-sites start] ...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const zpath = "github.com/bobg/fab/zsim"

var remap = map[string]string{
	"os": "os", "os/exec": "exec", "sync": "sync", "sync/atomic": "atomic", "time": "time", "context": "context", "database/sql": "sql",
	"fmt": "fmt", "io": "io", "path/filepath": "filepath", "io/ioutil": "ioutil", "flag": "flag", "log": "log",
	"math/rand": "rand", "maps": "stdmaps", "os/signal": "signal", "syscall": "syscall", "go/parser": "parser",
	"runtime/debug": "debug", "golang.org/x/tools/go/packages": "packages",
	"github.com/benbjohnson/clock": "clock", "github.com/bobg/tsdecls": "tsdecls", "golang.org/x/sync/errgroup": "errgroup",
}

// notSimulated are packages that would take the code under test out of the simulation.
var notSimulated = map[string]bool{
	"net": true, "net/http": true, "crypto/rand": true, "math/rand/v2": true, "plugin": true, "golang.org/x/sys/unix": true,
}

type listPkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles, CgoFiles             []string
	ImportMap                     map[string]string
	Module                        *struct{ Path, Dir, GoVersion string }
	Standard                      bool
	Error                         *struct{ Err string }
	DepOnly                       bool
}

var (
	dir     = flag.String("dir", "", "scratch copy of the repository")
	driver  = flag.String("driver", "", "only instrument this package directory (relative), a generated driver, as package with func Main")
	siteOut = flag.String("sitefile", "sites.go", "file for the site table within zsim")
	start   = flag.Int("start", 0, "first site number")
	nopts   = flag.Bool("nopoints", false, "leave out the statement points")
)

var sites []string

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	pats := []string{"./..."}
	if *driver != "" {
		pats = []string{"./" + *driver}
	} else {
		pats = append(pats, "github.com/bobg/go-generics/v2/maps", "github.com/bobg/go-generics/v2/set", "github.com/bobg/go-generics/v2/slices")
	}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,ImportMap,Module,Standard,Error,DepOnly"}, pats...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	byPath := map[string]*listPkg{}
	var todo []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		byPath[p.ImportPath] = &p
		if p.Module == nil || p.Standard {
			continue
		}
		in := p.Module.Path == "github.com/bobg/fab" || p.Module.Path == "github.com/bobg/go-generics/v2"
		if p.ImportPath == zpath || strings.HasPrefix(p.ImportPath, zpath+"/") {
			in = false
		}
		if *driver != "" {
			in = filepath.Clean(p.Dir) == filepath.Clean(filepath.Join(*dir, *driver))
		}
		if in {
			todo = append(todo, &p)
		}
	}
	for _, p := range todo {
		instrument(p, byPath)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package zsim\n\nfunc init() {\n\tSites = append(Sites,\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&b, "\t)\n}\n")
	if *siteOut != "" {
		if err := os.WriteFile(filepath.Join(*dir, "zsim", *siteOut), b.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	fmt.Println(*start + len(sites))
}

type edit struct {
	from, to int
	text     string        // used when gen is nil
	gen      func() string // produces the replacement
	seq      int
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []*edit
	tf    *token.File
	used  bool
	tail  []string
	info  *types.Info
	pkg   *pkg
	nvar  int
	ninit int
}

type pkg struct {
	p     *listPkg
	fset  *token.FileSet
	files []*file
	info  *types.Info
	tpkg  *types.Package
	reset []string // calls in order
}

func instrument(p *listPkg, all map[string]*listPkg) {
	if len(p.CgoFiles) > 0 {
		die("package %s uses cgo", p.ImportPath)
	}
	pk := &pkg{p: p, fset: token.NewFileSet()}
	var asts []*ast.File
	for _, n := range p.GoFiles {
		full := filepath.Join(p.Dir, n)
		src, err := os.ReadFile(full)
		if err != nil {
			die("%v", err)
		}
		a, err := parser.ParseFile(pk.fset, full, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		pk.files = append(pk.files, &file{name: full, src: src, ast: a, tf: pk.fset.File(a.Pos()), pkg: pk})
		asts = append(asts, a)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := all[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(q.Export)
	}
	pk.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(pk.fset, "gc", lookup)}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tp, err := conf.Check(p.ImportPath, pk.fset, asts, pk.info)
	if err != nil {
		die("type checking %s: %v", p.ImportPath, err)
	}
	pk.tpkg = tp
	for _, f := range pk.files {
		f.info = pk.info
		f.walk()
	}
	isMain := tp.Name() == "main"
	pk.resets(isMain)
	for _, f := range pk.files {
		f.finish(isMain)
	}
}

func (f *file) off(p token.Pos) int { return f.tf.Offset(p) }

func (f *file) insert(p token.Pos, s string) {
	o := f.off(p)
	f.edits = append(f.edits, &edit{from: o, to: o, text: s, seq: len(f.edits)})
}
func (f *file) replace(a, b token.Pos, gen func() string) {
	f.edits = append(f.edits, &edit{from: f.off(a), to: f.off(b), gen: gen, seq: len(f.edits)})
}
func (f *file) replaceText(a, b token.Pos, s string) { f.replace(a, b, func() string { return s }) }

// render returns the text of a span with all edits inside applied.
func (f *file) render(a, b token.Pos) string { return f.span(f.off(a), f.off(b), nil) }

func (f *file) node(n ast.Node) string { return f.render(n.Pos(), n.End()) }

func (f *file) span(from, to int, skip *edit) string {
	var es []*edit
	for _, e := range f.edits {
		if e != skip && e.from >= from && e.to <= to {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.from != b.from {
			return a.from < b.from
		}
		ai, bi := a.from == a.to, b.from == b.to
		if ai != bi {
			return ai // insertions first
		}
		if a.to != b.to {
			return a.to > b.to // outer replacement first
		}
		return a.seq < b.seq
	})
	var out strings.Builder
	pos := from
	for _, e := range es {
		if e.from < pos {
			continue // inside a replaced span
		}
		out.Write(f.src[pos:e.from])
		if e.gen != nil {
			out.WriteString(e.gen())
		} else {
			out.WriteString(e.text)
		}
		pos = e.to
	}
	out.Write(f.src[pos:to])
	return out.String()
}

func (f *file) site(p token.Pos) int {
	pos := f.pkg.fset.Position(p)
	rel, err := filepath.Rel(*dir, pos.Filename)
	if err != nil {
		rel = filepath.Base(pos.Filename)
	}
	sites = append(sites, fmt.Sprintf("%s:%d", rel, pos.Line))
	return *start + len(sites) - 1
}

func (f *file) point(s ast.Stmt) {
	if *nopts {
		return
	}
	f.used = true
	f.insert(s.Pos(), fmt.Sprintf("zsim.P(%d); ", f.site(s.Pos())))
}

func (f *file) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		f.point(s)
	}
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		it, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var res types.Type
		for i := 0; i < it.NumEmbeddeds(); i++ {
			switch e := it.EmbeddedType(i).(type) {
			case *types.Union:
				if e.Len() == 1 {
					res = e.Term(0).Type().Underlying()
				}
			default:
				if _, ok := e.Underlying().(*types.Interface); !ok {
					res = e.Underlying()
				}
			}
		}
		return res
	}
	return t.Underlying()
}

func (f *file) typeOf(e ast.Expr) types.Type { return f.info.Types[e].Type }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (f *file) walk() {
	two := map[*ast.UnaryExpr]bool{}
	comm := map[ast.Node]bool{} // receive and send of select clauses: handled by the select
	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			f.stmts(n.List)
		case *ast.CaseClause:
			f.stmts(n.Body)
		case *ast.CommClause:
			f.stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 && !*nopts {
				f.used = true
				f.insert(n.Body.Lbrace+1, fmt.Sprintf("zsim.P(%d)", f.site(n.Pos())))
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := isRecv(n.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := isRecv(n.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !comm[n] {
				f.used = true
				fn := "zsim.Recv1("
				if two[n] {
					fn = "zsim.Recv2("
				}
				f.replaceText(n.OpPos, n.OpPos+2, fn)
				f.insert(n.End(), ")")
			}
		case *ast.SendStmt:
			if !comm[n] {
				f.used = true
				f.insert(n.Pos(), "zsim.To(")
				f.replaceText(n.Arrow, n.Arrow+2, ")(")
				f.insert(n.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := unparen(n.Fun).(*ast.Ident); ok {
				if b, ok := f.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
					f.used = true
					f.replaceText(id.Pos(), id.End(), "zsim.Close")
				}
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := f.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "os" && n.Sel.Name == "Args" {
					f.replaceText(n.Sel.Pos(), n.Sel.End(), "GetArgs()")
				}
			}
		case *ast.GoStmt:
			f.goStmt(n)
		case *ast.SelectStmt:
			f.selectStmt(n, comm)
		case *ast.RangeStmt:
			f.rangeStmt(n)
		case *ast.ImportSpec:
			path, _ := strconv.Unquote(n.Path.Value)
			if notSimulated[path] {
				die("%s: package %s is not simulated", f.pkg.fset.Position(n.Pos()), path)
			}
			if s, ok := remap[path]; ok {
				f.replaceText(n.Path.Pos(), n.Path.End(), strconv.Quote(zpath+"/shim/"+s))
			}
		}
		return true
	})
}

func (f *file) selectStmt(n *ast.SelectStmt, comm map[ast.Node]bool) {
	f.used = true
	type cl struct {
		c    *ast.CommClause
		recv *ast.UnaryExpr
		send *ast.SendStmt
		asg  *ast.AssignStmt
		name string
	}
	var cls []*cl
	hasDefault := false
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			hasDefault = true
			continue
		}
		k := &cl{c: c, name: fmt.Sprintf("zz%d", f.off(c.Pos()))}
		switch x := c.Comm.(type) {
		case *ast.SendStmt:
			k.send = x
			comm[x] = true
		case *ast.ExprStmt:
			k.recv = isRecv(x.X)
		case *ast.AssignStmt:
			k.asg = x
			k.recv = isRecv(x.Rhs[0])
		}
		if k.recv != nil {
			comm[k.recv] = true
		}
		cls = append(cls, k)
	}
	f.replace(n.Select, n.Body.Lbrace+1, func() string {
		var b strings.Builder
		b.WriteString("switch ")
		if len(cls) > 0 {
			for i, k := range cls {
				if i > 0 {
					b.WriteString(", ")
				}
				b.WriteString(k.name)
			}
			b.WriteString(" := ")
			for i, k := range cls {
				if i > 0 {
					b.WriteString(", ")
				}
				if k.send != nil {
					fmt.Fprintf(&b, "zsim.SendC(%s)(%s)", oneLine(f.node(k.send.Chan)), oneLine(f.node(k.send.Value)))
				} else {
					fmt.Fprintf(&b, "zsim.Recv(%s)", oneLine(f.node(k.recv.X)))
				}
			}
			b.WriteString("; ")
		}
		fmt.Fprintf(&b, "zsim.Select(%v", hasDefault)
		for _, k := range cls {
			b.WriteString(", " + k.name)
		}
		b.WriteString(") {")
		return b.String()
	})
	for i, k := range cls {
		i, k := i, k
		f.replace(k.c.Case, k.c.Colon+1, func() string {
			s := fmt.Sprintf("case %d: ", i)
			if k.asg != nil {
				var l []string
				for _, x := range k.asg.Lhs {
					l = append(l, f.node(x))
				}
				r := []string{k.name + ".Val"}
				if len(l) == 2 {
					r = append(r, k.name+".Ok")
				}
				s += fmt.Sprintf("%s %s %s; ", strings.Join(l, ", "), k.asg.Tok, strings.Join(r, ", "))
			}
			return s
		})
	}
	if !hasDefault {
		f.insert(n.Body.Rbrace, "default: panic(\"zsim: select\")\n")
	}
}

// oneLine keeps rendered expressions valid inside a header; function literals may span lines.
func oneLine(s string) string { return s }

func (f *file) rangeStmt(n *ast.RangeStmt) {
	t := core(f.typeOf(n.X))
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	o := f.off(n.Pos())
	switch t.(type) {
	case *types.Map:
		f.used = true
		f.replace(n.For, n.Body.Lbrace+1, func() string {
			x := f.node(n.X)
			it := fmt.Sprintf("zzi%d", o)
			names := []string{it}
			fn := "zsim.Map"
			ka, va := "nil", "nil"
			if !blank(n.Key) {
				k := f.node(n.Key)
				ka = "&" + k
				if n.Tok == token.DEFINE {
					names = append(names, k)
					fn += "K"
				}
			}
			if !blank(n.Value) {
				v := f.node(n.Value)
				va = "&" + v
				if n.Tok == token.DEFINE {
					names = append(names, v)
					fn += "V"
				}
			}
			if fn == "zsim.Map" {
				fn = "zsim.MapEntries"
			}
			return fmt.Sprintf("for %s := %s(%s); zsim.MapNext(%s, %s, %s); {", strings.Join(names, ", "), fn, x, it, ka, va)
		})
	case *types.Chan:
		f.used = true
		f.replace(n.For, n.Body.Lbrace+1, func() string {
			x := f.node(n.X)
			c, ok := fmt.Sprintf("zzc%d", o), fmt.Sprintf("zzok%d", o)
			if blank(n.Key) {
				return fmt.Sprintf("for %s := %s; ; { _, %s := zsim.Recv2(%s); if !%s { break }; ", c, x, ok, c, ok)
			}
			k := f.node(n.Key)
			if n.Tok == token.DEFINE {
				return fmt.Sprintf("for %s, %s := zsim.ChanRange(%s); ; { var %s bool; %s, %s = zsim.Recv2(%s); if !%s { break }; ", c, k, x, ok, k, ok, c, ok)
			}
			return fmt.Sprintf("for %s := %s; ; { var %s bool; %s, %s = zsim.Recv2(%s); if !%s { break }; ", c, x, ok, k, ok, c, ok)
		})
	}
}

func (f *file) goStmt(n *ast.GoStmt) {
	f.used = true
	o := f.off(n.Pos())
	call := n.Call
	f.replace(n.Pos(), n.End(), func() string {
		fun := unparen(call.Fun)
		direct := false
		builtin := false
		switch x := fun.(type) {
		case *ast.Ident:
			switch f.info.Uses[x].(type) {
			case *types.Func:
				direct = true
			case *types.Builtin:
				builtin = true
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if _, ok := f.info.Uses[id].(*types.PkgName); ok {
					direct = true
				}
			}
		}
		whole := builtin
		if len(call.Args) == 1 {
			if _, ok := f.typeOf(call.Args[0]).(*types.Tuple); ok {
				whole = true
			}
		}
		if whole {
			return "zsim.Go(func() { " + f.node(call) + " })"
		}
		var b strings.Builder
		b.WriteString("{ ")
		fn := f.node(call.Fun)
		if !direct {
			fmt.Fprintf(&b, "zzf%d := %s; ", o, fn)
			fn = fmt.Sprintf("zzf%d", o)
		}
		var args []string
		for i, a := range call.Args {
			tv := f.info.Types[a]
			s := f.node(a)
			if tv.Value == nil && !tv.IsNil() {
				v := fmt.Sprintf("zza%d_%d", o, i)
				fmt.Fprintf(&b, "%s := %s; ", v, s)
				s = v
			}
			args = append(args, s)
		}
		ell := ""
		if call.Ellipsis.IsValid() {
			ell = "..."
		}
		fmt.Fprintf(&b, "zsim.Go(func() { %s(%s%s) }) }", fn, strings.Join(args, ", "), ell)
		return b.String()
	})
}

// resets prepares functions that re-run the package's variable initialisers and init functions.
func (pk *pkg) resets(isMain bool) {
	fileOf := func(p token.Pos) *file {
		for _, f := range pk.files {
			if p >= f.ast.FileStart && p < f.ast.FileEnd {
				return f
			}
		}
		return nil
	}
	// variables without initialiser
	embedded := map[types.Object]bool{}
	var zero []string
	for _, f := range pk.files {
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				doc := vs.Doc
				if doc == nil {
					doc = g.Doc
				}
				emb := false
				if doc != nil {
					for _, c := range doc.List {
						if strings.HasPrefix(c.Text, "//go:embed") {
							emb = true
						}
					}
				}
				for _, nm := range vs.Names {
					if emb {
						embedded[pk.info.Defs[nm]] = true
					}
				}
				if emb || len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				f.nvar++
				fn := fmt.Sprintf("zzvar_%s_%d", ident(f.name), f.nvar)
				var names []string
				for _, nm := range vs.Names {
					if nm.Name != "_" {
						names = append(names, nm.Name)
					}
				}
				if len(names) == 0 {
					continue
				}
				body := ""
				for _, nm := range names {
					body += fmt.Sprintf("{ var zz %s; %s = zz }; ", f.node(vs.Type), nm)
				}
				f.tail = append(f.tail, fmt.Sprintf("func %s() { %s }", fn, body))
				zero = append(zero, fn)
			}
		}
	}
	pk.reset = append(pk.reset, zero...)
	// initialisers in dependency order
	info := pk.initOrder()
	for _, in := range info {
		f := fileOf(in.Rhs.Pos())
		if f == nil {
			continue
		}
		var names []string
		any := false
		for _, v := range in.Lhs {
			names = append(names, v.Name())
			if v.Name() != "_" {
				any = true
			}
			if embedded[v] {
				any = false
			}
		}
		if !any {
			continue
		}
		f.nvar++
		fn := fmt.Sprintf("zzvar_%s_%d", ident(f.name), f.nvar)
		rhs := in.Rhs
		ff := f
		names0 := strings.Join(names, ", ")
		ff.tail = append(ff.tail, "\x00"+fn+"\x00"+names0+"\x00"+strconv.Itoa(ff.off(rhs.Pos()))+"\x00"+strconv.Itoa(ff.off(rhs.End())))
		pk.reset = append(pk.reset, fn)
	}
	// init functions, in file order
	for _, f := range pk.files {
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				f.ninit++
				fn := fmt.Sprintf("zzinit_%s_%d", ident(f.name), f.ninit)
				f.replaceText(fd.Name.Pos(), fd.Name.End(), fn)
				f.tail = append(f.tail, fmt.Sprintf("func init() { %s() }", fn))
				pk.reset = append(pk.reset, fn)
			}
			if isMain && fd.Name.Name == "main" {
				f.replaceText(fd.Name.Pos(), fd.Name.End(), "Main")
			}
		}
	}
	if len(pk.files) > 0 {
		f := pk.files[0]
		s := "// ZZReset puts the package's variables back into their initial state.\nfunc ZZReset() {\n"
		for _, c := range pk.reset {
			s += "\t" + c + "()\n"
		}
		f.tail = append(f.tail, s+"}")
	}
}

func (pk *pkg) initOrder() []*types.Initializer { return pk.info.InitOrder }

func ident(name string) string {
	b := strings.TrimSuffix(filepath.Base(name), ".go")
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, b)
}

func (f *file) finish(isMain bool) {
	if isMain {
		f.replaceText(f.ast.Name.Pos(), f.ast.Name.End(), "fabmain")
	}
	if f.used {
		f.insert(f.ast.Name.End(), "; import zsim "+strconv.Quote(zpath))
	}
	out := f.span(0, len(f.src), nil)
	for _, t := range f.tail {
		if strings.HasPrefix(t, "\x00") {
			p := strings.Split(t, "\x00")
			a, _ := strconv.Atoi(p[3])
			b, _ := strconv.Atoi(p[4])
			t = fmt.Sprintf("func %s() { %s = %s }", p[1], p[2], f.span(a, b, nil))
		}
		out += "\n" + t + "\n"
	}
	if err := os.WriteFile(f.name, []byte(out), 0o644); err != nil {
		die("%v", err)
	}
}
