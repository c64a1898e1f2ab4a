//go:build go1.22

package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	fab "github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/proto"
	"github.com/bobg/fab/ts"
	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/context"
	"github.com/bobg/fab/zsim/shim/os"
)

// apiMain is a Go program that uses fab as a library: it makes the targets that are otherwise
// defined in YAML with fab's functions, and takes the same command line.
func (w *cfworld) apiMain() {
	os.Exit(w.apiRun())
}

func (w *cfworld) apiRun() int {
	fail := func(err error) int {
		fmt.Fprintf(stdoutOf(zsim.CurProc()), "%s\n", err)
		return 1
	}
	ctx := context.Background()
	list := false
	var args []string
	for _, a := range zsim.CurProc().Args[1:] {
		switch a {
		case "-v":
			ctx = fab.WithVerbose(ctx, true)
		case "-f":
			ctx = fab.WithForce(ctx, true)
		case "-n":
			ctx = fab.WithDryRun(ctx, true)
		case "-list":
			list = true
		default:
			args = append(args, a)
		}
	}
	db, err := fab.OpenHashDB("/root/.cache/fab")
	if err != nil {
		return fail(err)
	}
	defer db.Close()
	ctx = fab.WithHashDB(ctx, db)
	con := fab.NewController("/proj")
	targets := map[string]fab.Target{}
	var names []string
	reg := func(name string, t fab.Target) error {
		targets[name] = t
		names = append(names, name)
		_, err := con.RegisterTarget(name, "", t)
		return err
	}
	for _, f := range w.fs {
		t, err := w.apiTarget(f)
		if err != nil {
			return fail(err)
		}
		if err = reg(f.qname(), t); err != nil {
			return fail(err)
		}
	}
	var gs []string
	for g := range w.groups {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		var l []fab.Target
		for _, f := range w.groups[g] {
			l = append(l, targets[f.qname()])
		}
		var t fab.Target
		if g[0] == 'D' {
			t = fab.Deps(l[0], l[1:]...)
		} else {
			t = fab.All(l...)
		}
		if err = reg(g, t); err != nil {
			return fail(err)
		}
	}
	if err = reg("K", &fab.Clean{Files: append([]string(nil), w.clean...), Autoclean: w.cauto}); err != nil {
		return fail(err)
	}
	if list {
		con.ListTargets(stdoutOf(zsim.CurProc()))
		return 0
	}
	ts, err := con.ParseArgs(args)
	if err != nil {
		return fail(err)
	}
	if err = con.Run(ctx, ts...); err != nil {
		return fail(err)
	}
	return 0
}

type sinkWriter struct{ s *zsim.Sink }

func stdoutOf(p *zsim.Proc) sinkWriter { return sinkWriter{p.Stdout.(*zsim.Sink)} }

func (w sinkWriter) Write(b []byte) (int, error) {
	w.s.Data = append(w.s.Data, b...)
	return len(b), nil
}

func (w *cfworld) apiTarget(f *cfile) (fab.Target, error) {
	name := func(s string) string {
		if f.rel {
			return strings.TrimPrefix(s, "/proj/")
		}
		return s
	}
	list := func(l []string) []string {
		var out []string
		for _, s := range l {
			out = append(out, name(s))
		}
		return out
	}
	switch f.lang {
	case langGo:
		out := name(f.out)
		if f.noOut && f.rel && path.Dir(f.out) == "/proj" {
			out = ""
		}
		return golang.Binary(name(f.pkg.dir), out, goFlags(f.spec)...)
	case langProto:
		return proto.Proto(list(f.protos), list([]string{f.out}), list(f.incs), protoOpts(f.out, f.spec), fab.Autoclean(f.auto))
	case langTS:
		return ts.Decls(name(f.pkg.dir), sname("T", f.id), sname("/p", f.spec), name(f.out), fab.Autoclean(f.auto))
	}
	var t fab.Target = &fab.Command{Cmd: "t", Args: []string{"w", f.name(), fmt.Sprint(f.spec)}}
	if f.form == 1 {
		t = fab.Seq(t)
	}
	ins := f.srcs
	for _, p := range f.prods {
		ins = append(ins[:len(ins):len(ins)], p.out)
	}
	ins = list(ins)
	if f.godir != "" {
		deps, err := golang.Deps(name(f.godir), f.rec, f.tests)
		if err != nil {
			return nil, err
		}
		ins = append(ins, deps...)
	}
	if f.pdep != "" {
		deps, err := proto.Deps(name(f.pdep), list(f.incs))
		if err != nil {
			return nil, err
		}
		ins = append(ins, deps...)
	}
	if f.glob != "" {
		ents, err := os.ReadDir(path.Join("/proj", f.dir))
		if err != nil {
			return nil, err
		}
		for _, e := range ents {
			if ok, _ := path.Match(f.glob, e.Name()); ok {
				ins = append(ins, name(path.Join("/proj", f.dir, e.Name())))
			}
		}
	}
	return fab.Files(t, ins, list([]string{f.out}), fab.Autoclean(f.auto)), nil
}
