//go:build go1.22

// Package packages is a stand-in for golang.org/x/tools/go/packages: the real one runs "go list"
// on the real file system. The stand-in reads the simulated file system and reports packages,
// files and errors as the real one does for the cases the simulation uses.
package packages

import (
	"context"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/token"
	"go/types"
	"path"
	"reflect"
	"sort"
	"strings"

	real "golang.org/x/tools/go/packages"

	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/os"
	"github.com/bobg/fab/zsim/shim/parser"
)

type (
	Config      = real.Config
	Package     = real.Package
	Error       = real.Error
	ErrorKind   = real.ErrorKind
	LoadMode    = real.LoadMode
	Module      = real.Module
	ModuleError = real.ModuleError
)

const (
	NeedName            = real.NeedName
	NeedFiles           = real.NeedFiles
	NeedCompiledGoFiles = real.NeedCompiledGoFiles
	NeedImports         = real.NeedImports
	NeedDeps            = real.NeedDeps
	NeedExportFile      = real.NeedExportFile
	NeedTypes           = real.NeedTypes
	NeedSyntax          = real.NeedSyntax
	NeedTypesInfo       = real.NeedTypesInfo
	NeedTypesSizes      = real.NeedTypesSizes
	NeedModule          = real.NeedModule
	NeedEmbedFiles      = real.NeedEmbedFiles
	NeedEmbedPatterns   = real.NeedEmbedPatterns
	LoadFiles           = real.LoadFiles
	LoadImports         = real.LoadImports
	LoadTypes           = real.LoadTypes
	LoadSyntax          = real.LoadSyntax
	LoadAllSyntax       = real.LoadAllSyntax

	UnknownError = real.UnknownError
	ListError    = real.ListError
	ParseError   = real.ParseError
	TypeError    = real.TypeError
)

var (
	Visit       = real.Visit
	PrintErrors = real.PrintErrors
)

// TargetType is the reflection type of the Target interface; the harness sets it.
var TargetType reflect.Type

// OnLoad is told about each directory loaded.
var OnLoad func(dir string)

func init() { zsim.Resets = append(zsim.Resets, func() { OnLoad = nil }) }

func Load(cfg *Config, patterns ...string) ([]*Package, error) {
	if cfg == nil {
		cfg = &Config{}
	}
	ctx := cfg.Context
	if ctx == nil {
		ctx = context.Background()
	}
	if len(patterns) == 0 {
		patterns = []string{"."}
	}
	dir := cfg.Dir
	if dir == "" {
		dir, _ = os.Getwd()
	}
	dir = zsim.Abs(dir)
	if OnLoad != nil {
		OnLoad(dir)
	}
	zsim.Sleep(20e6) // "go list" takes a while
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if k := zsim.FaultPoint("golist-fail"); k != "" {
		return nil, fmt.Errorf("err: signal: killed: stderr: ")
	}
	if _, err := os.ReadDir(dir); err != nil {
		return nil, fmt.Errorf("err: chdir %s: %w: stderr: ", dir, err)
	}
	l := &loader{pkgs: map[string]*Package{}, tests: map[string][]*Package{}}
	l.findModule(dir)
	if l.modpath == "" {
		return nil, fmt.Errorf("err: exit status 1: stderr: go: go.mod file not found in current directory or any parent directory; see 'go help modules'")
	}
	var out []*Package
	for _, pat := range patterns {
		d := path.Join(dir, strings.TrimSuffix(pat, "..."))
		if strings.HasSuffix(pat, "...") {
			var dirs []string
			if err := l.subdirs(d, &dirs); err != nil {
				out = append(out, &Package{ID: pat, PkgPath: pat, Errors: []Error{{Msg: "pattern " + pat + ": " + err.Error(), Kind: ListError}}})
			}
			for _, d := range dirs {
				if p := l.load(d); p.ID != "." {
					out = append(out, p)
				}
			}
		} else {
			out = append(out, l.load(d))
		}
	}
	if cfg.Tests {
		for _, p := range out {
			for dir, q := range l.pkgs {
				if p == q {
					out = append(out, l.tests[dir]...)
				}
			}
		}
	}
	return out, nil
}

type loader struct {
	moddir, modpath string
	pkgs            map[string]*Package
	tests           map[string][]*Package // by directory
}

func (l *loader) findModule(dir string) {
	for d := dir; ; d = path.Dir(d) {
		b, err := os.ReadFile(path.Join(d, "go.mod"))
		if err == nil {
			for _, line := range strings.Split(string(b), "\n") {
				if s, ok := strings.CutPrefix(strings.TrimSpace(line), "module "); ok {
					l.moddir, l.modpath = d, strings.TrimSpace(s)
					return
				}
			}
			return
		}
		if d == "/" {
			return
		}
	}
}

func (l *loader) subdirs(d string, out *[]string) error {
	es, err := os.ReadDir(d)
	if err != nil {
		return err
	}
	*out = append(*out, d)
	for _, e := range es {
		if e.IsDir() && !strings.HasPrefix(e.Name(), "_") && !strings.HasPrefix(e.Name(), ".") && e.Name() != "testdata" {
			if err := l.subdirs(path.Join(d, e.Name()), out); err != nil {
				return err
			}
		}
	}
	return nil
}

func hidden(rel string) bool {
	for _, s := range strings.Split(rel, "/") {
		if s[0] == '.' || s[0] == '_' {
			return true
		}
	}
	return false
}

func ignored(src string) bool {
	for _, line := range strings.Split(src, "\n") {
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "package ") {
			return false
		}
		if constraint.IsGoBuild(line) {
			x, err := constraint.Parse(line)
			if err == nil && !x.Eval(func(tag string) bool { return tag == "linux" || tag == "amd64" || strings.HasPrefix(tag, "go1.") }) {
				return true
			}
		}
	}
	return false
}

func (l *loader) load(dir string) *Package {
	if p := l.pkgs[dir]; p != nil {
		return p
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(dir, l.moddir), "/")
	p := &Package{ID: path.Join(l.modpath, rel), PkgPath: path.Join(l.modpath, rel), Imports: map[string]*Package{},
		Module: &Module{Path: l.modpath, Dir: l.moddir, Main: true, GoMod: path.Join(l.moddir, "go.mod")}}
	l.pkgs[dir] = p
	es, err := os.ReadDir(dir)
	if err != nil {
		p.Module = nil
		p.Errors = append(p.Errors, Error{Msg: err.Error(), Kind: ListError})
		p.Types = types.NewPackage(p.PkgPath, "")
		return p
	}
	var names, tests []string
	unlisted := false
	srcs := map[string]string{}
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || strings.HasPrefix(n, "_") || strings.HasPrefix(n, ".") {
			continue
		}
		full := path.Join(dir, n)
		if !strings.HasSuffix(n, ".go") {
			if ext := path.Ext(n); ext == ".s" || ext == ".h" || ext == ".c" {
				p.OtherFiles = append(p.OtherFiles, full)
			}
			continue
		}
		b, err := os.ReadFile(full)
		if err != nil {
			p.Errors = append(p.Errors, Error{Msg: err.Error(), Kind: ListError})
			unlisted = unlisted || strings.HasSuffix(n, "_test.go")
			continue
		}
		if strings.HasSuffix(n, "_test.go") {
			tests = append(tests, full)
			continue
		}
		if ignored(string(b)) {
			p.IgnoredFiles = append(p.IgnoredFiles, full)
			continue
		}
		names = append(names, full)
		srcs[full] = string(b)
	}
	if len(names) == 0 {
		if len(p.Errors) == 0 {
			p.ID, p.PkgPath, p.Module = ".", ".", nil
			p.Errors = append(p.Errors, Error{Msg: "no Go files in " + dir, Kind: ListError})
		}
		p.Types = types.NewPackage(p.PkgPath, "")
		return p
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, srcs[n], parser.ParseComments)
		if err != nil {
			p.Errors = append(p.Errors, Error{Pos: n, Msg: err.Error(), Kind: ParseError})
		}
		if f == nil {
			continue
		}
		if p.Name == "" {
			p.Name = f.Name.Name
		} else if f.Name.Name != p.Name {
			p.Errors = append(p.Errors, Error{Msg: fmt.Sprintf("found packages %s and %s in %s", p.Name, f.Name.Name, dir), Kind: ListError})
		}
		files = append(files, f)
		for _, im := range f.Imports {
			ip := strings.Trim(im.Path.Value, `"`)
			if ip == l.modpath || strings.HasPrefix(ip, l.modpath+"/") {
				p.Imports[ip] = l.load(path.Join(l.moddir, strings.TrimPrefix(strings.TrimPrefix(ip, l.modpath), "/")))
			}
		}
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if s, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
					for _, pat := range strings.Fields(s) {
						p.EmbedPatterns = append(p.EmbedPatterns, path.Join(dir, pat))
						plain, all := strings.CutPrefix(pat, "all:")
						if d := path.Join(dir, plain); zsim.Disk.IsDirectory(d) {
							for n := range zsim.Disk.Tree(d) {
								if !strings.HasSuffix(n, "/") && (all || !hidden(strings.TrimPrefix(n, d+"/"))) {
									p.EmbedFiles = append(p.EmbedFiles, n)
								}
							}
							sort.Strings(p.EmbedFiles)
						}
						for _, e := range es {
							if ok, _ := path.Match(pat, e.Name()); ok && !e.IsDir() {
								p.EmbedFiles = append(p.EmbedFiles, path.Join(dir, e.Name()))
							}
						}
					}
				}
			}
		}
	}
	p.GoFiles = names
	p.CompiledGoFiles = append([]string(nil), names...)
	p.Types = types.NewPackage(p.PkgPath, p.Name)
	declare(p.Types, files)
	if len(tests) > 0 && !unlisted {
		l.addTests(dir, p, tests)
	}
	return p
}

// addTests makes the variants of the package that its tests are made of, and the test program.
func (l *loader) addTests(dir string, p *Package, tests []string) {
	in, ext := *p, Package{Name: p.Name + "_test", PkgPath: p.PkgPath + "_test", Module: p.Module, Imports: map[string]*Package{p.PkgPath: &*p}}
	in.ID = p.ID + " [" + p.ID + ".test]"
	ext.ID = p.ID + "_test [" + p.ID + ".test]"
	in.Imports = map[string]*Package{}
	for k, v := range p.Imports {
		in.Imports[k] = v
	}
	for _, full := range tests {
		b, err := os.ReadFile(full)
		f, err2 := parser.ParseFile(token.NewFileSet(), full, b, parser.ParseComments)
		to := &in
		if err == nil {
			err = err2
		}
		if err == nil && strings.HasSuffix(f.Name.Name, "_test") {
			to = &ext
		}
		to.GoFiles = append(to.GoFiles[:len(to.GoFiles):len(to.GoFiles)], full)
		if err != nil {
			to.Errors = append(to.Errors, Error{Msg: err.Error(), Kind: ListError})
			continue
		}
		for _, im := range f.Imports {
			ip := strings.Trim(im.Path.Value, `"`)
			if strings.HasPrefix(ip, l.modpath+"/") {
				to.Imports[ip] = l.load(path.Join(l.moddir, strings.TrimPrefix(strings.TrimPrefix(ip, l.modpath), "/")))
			}
		}
	}
	in.CompiledGoFiles, ext.CompiledGoFiles = in.GoFiles, ext.GoFiles
	main := &Package{ID: p.ID + ".test", Name: "main", PkgPath: p.PkgPath + ".test", Module: p.Module, Imports: map[string]*Package{},
		GoFiles: []string{"/root/.cache/go-build/te/test-d"}}
	for _, v := range []*Package{&in, &ext} {
		if len(v.GoFiles) > len(p.GoFiles) || v == &ext && len(v.GoFiles) > 0 {
			main.Imports[v.PkgPath] = v
			l.tests[dir] = append(l.tests[dir], v)
		}
	}
	l.tests[dir] = append(l.tests[dir], main)
}

// declare fills the package scope from the syntax. A variable initialised from the fab package or
// declared as fab.Target is a target; so is one of a type of the package that has methods Run and
// Desc. Variables and types that implement fab.Target get a type with its methods.
func declare(tp *types.Package, files []*ast.File) {
	var target types.Type
	targetType := func() types.Type {
		if target == nil {
			conv := &converter{seen: map[reflect.Type]types.Type{}, pkg: types.NewPackage("github.com/bobg/fab", "fab")}
			target = conv.conv(TargetType)
		}
		return target
	}
	// methods of the package's types: those with a value receiver and all
	vals, all := map[string]int{}, map[string]int{}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv == nil || len(fd.Recv.List) != 1 || fd.Name.Name != "Run" && fd.Name.Name != "Desc" {
				continue
			}
			t := fd.Recv.List[0].Type
			if p, ok := t.(*ast.StarExpr); ok {
				t = p.X
			} else if id, ok := t.(*ast.Ident); ok {
				vals[id.Name]++
			}
			if id, ok := t.(*ast.Ident); ok {
				all[id.Name]++
			}
		}
	}
	isTarget := func(t ast.Expr) bool {
		switch t := t.(type) {
		case *ast.SelectorExpr:
			return fabSel(t)
		case *ast.Ident:
			return vals[t.Name] == 2
		case *ast.StarExpr:
			id, ok := t.X.(*ast.Ident)
			return ok && all[id.Name] == 2
		}
		return false
	}
	insert := func(n *ast.Ident, typ bool, isT bool) {
		if n.Name == "_" {
			return
		}
		var t types.Type = types.Typ[types.Int]
		if isT && TargetType != nil {
			t = targetType()
		}
		if typ {
			tn := types.NewTypeName(n.Pos(), tp, n.Name, nil)
			types.NewNamed(tn, t.Underlying(), nil)
			tp.Scope().Insert(tn)
		} else {
			tp.Scope().Insert(types.NewVar(n.Pos(), tp, n.Name, t))
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name != "_" && fd.Name.Name != "init" {
				tp.Scope().Insert(types.NewFunc(fd.Pos(), tp, fd.Name.Name, types.NewSignatureType(nil, nil, nil, nil, nil, false)))
			}
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					insert(s.Name, true, vals[s.Name.Name] == 2)
				case *ast.ValueSpec:
					for i, n := range s.Names {
						isT := false
						if s.Type != nil {
							isT = isTarget(s.Type)
						} else if i < len(s.Values) {
							switch v := s.Values[i].(type) {
							case *ast.CallExpr:
								isT = fabSel(v.Fun)
							case *ast.CompositeLit:
								isT = isTarget(v.Type)
							case *ast.UnaryExpr:
								if c, ok := v.X.(*ast.CompositeLit); ok && v.Op == token.AND {
									isT = isTarget(&ast.StarExpr{X: c.Type})
								}
							}
						}
						insert(n, false, isT)
					}
				}
			}
		}
	}
	tp.MarkComplete()
}

func fabSel(e ast.Expr) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	x, ok := s.X.(*ast.Ident)
	return ok && x.Name == "fab"
}

// converter makes go/types types from reflection types.
type converter struct {
	seen map[reflect.Type]types.Type
	pkg  *types.Package
}

var basics = map[reflect.Kind]types.BasicKind{
	reflect.Bool: types.Bool, reflect.Int: types.Int, reflect.Int8: types.Int8, reflect.Int16: types.Int16,
	reflect.Int32: types.Int32, reflect.Int64: types.Int64, reflect.Uint: types.Uint, reflect.Uint8: types.Uint8,
	reflect.Uint16: types.Uint16, reflect.Uint32: types.Uint32, reflect.Uint64: types.Uint64, reflect.Uintptr: types.Uintptr,
	reflect.Float32: types.Float32, reflect.Float64: types.Float64, reflect.Complex64: types.Complex64,
	reflect.Complex128: types.Complex128, reflect.String: types.String, reflect.UnsafePointer: types.UnsafePointer,
}

func (c *converter) conv(r reflect.Type) types.Type {
	if t, ok := c.seen[r]; ok {
		return t
	}
	if r.Name() != "" && r.PkgPath() != "" || r.Name() == "error" {
		name := r.Name()
		if i := strings.IndexByte(name, '['); i > 0 {
			name = r.Name()
		}
		n := types.NewNamed(types.NewTypeName(token.NoPos, c.pkg, name, nil), nil, nil)
		c.seen[r] = n
		n.SetUnderlying(c.under(r))
		return n
	}
	return c.under(r)
}

func (c *converter) under(r reflect.Type) types.Type {
	if k, ok := basics[r.Kind()]; ok {
		return types.Typ[k]
	}
	switch r.Kind() {
	case reflect.Pointer:
		return types.NewPointer(c.conv(r.Elem()))
	case reflect.Slice:
		return types.NewSlice(c.conv(r.Elem()))
	case reflect.Array:
		return types.NewArray(c.conv(r.Elem()), int64(r.Len()))
	case reflect.Map:
		return types.NewMap(c.conv(r.Key()), c.conv(r.Elem()))
	case reflect.Chan:
		d := types.SendRecv
		if r.ChanDir() == reflect.SendDir {
			d = types.SendOnly
		} else if r.ChanDir() == reflect.RecvDir {
			d = types.RecvOnly
		}
		return types.NewChan(d, c.conv(r.Elem()))
	case reflect.Func:
		return c.sig(r)
	case reflect.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < r.NumField(); i++ {
			f := r.Field(i)
			fs = append(fs, types.NewField(token.NoPos, c.pkg, f.Name, c.conv(f.Type), f.Anonymous))
			tags = append(tags, string(f.Tag))
		}
		return types.NewStruct(fs, tags)
	case reflect.Interface:
		var ms []*types.Func
		var idx []int
		for i := 0; i < r.NumMethod(); i++ {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		for _, i := range idx {
			m := r.Method(i)
			ms = append(ms, types.NewFunc(token.NoPos, c.pkg, m.Name, c.sig(m.Type)))
		}
		it := types.NewInterfaceType(ms, nil)
		it.Complete()
		return it
	}
	return types.Typ[types.Int]
}

func (c *converter) sig(r reflect.Type) *types.Signature {
	var in, out []*types.Var
	for i := 0; i < r.NumIn(); i++ {
		in = append(in, types.NewParam(token.NoPos, c.pkg, "", c.conv(r.In(i))))
	}
	for i := 0; i < r.NumOut(); i++ {
		out = append(out, types.NewParam(token.NoPos, c.pkg, "", c.conv(r.Out(i))))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(in...), types.NewTuple(out...), r.IsVariadic())
}
