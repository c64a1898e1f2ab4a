//go:build go1.22

package zsim

import (
	"io"
	"strings"
	"syscall"
)

// Child is what a simulated program sees.
type Child struct {
	Proc *Proc
	Path string
	Args []string // without argv[0]
}

// Program is the body of a simulated executable; it runs as the main task of its process.
type Program func(c *Child) int

// FindProgram maps an executable path to a program; the harness provides it.
// The second result is false if there is no such executable.
var FindProgram func(path string) (Program, bool)

func init() {
	Resets = append(Resets, func() {
		FindProgram = func(string) (Program, bool) { return nil, false }
		OnExec = nil
	})
}

// OnExec is told about every process started with the given arguments.
var OnExec func(p *Proc, path string, args []string)

// ProgramExists is used by LookPath.
func ProgramExists(path string) bool {
	_, ok := FindProgram(path)
	return ok
}

// Out writes to the program's standard output; a broken pipe ends the program.
func (c *Child) Out(s string) error { return c.write(c.Proc.Stdout, s) }
func (c *Child) Err(s string) error { return c.write(c.Proc.Stderr, s) }

func (c *Child) write(st Stream, s string) error {
	if st == nil {
		return nil
	}
	_, err := st.Write([]byte(s))
	if err != nil && strings.Contains(err.Error(), syscall.EPIPE.Error()) {
		c.Proc.Kill("broken pipe")
		Dead()
	}
	return err
}

// Fork starts another process that inherits the program's standard streams.
func (c *Child) Fork(name string, fn func(c *Child)) *Proc {
	CoreEnter()
	p := NewProc(name, c.Proc)
	p.Faulty = false
	p.Traps = c.Proc.Traps
	var held []*Pipe
	for _, st := range []Stream{p.Stdout, p.Stderr} {
		if w, ok := st.(*writeEnd); ok {
			w.p.Hold()
			held = append(held, w.p)
		}
	}
	p.OnEnd = append(p.OnEnd, func() {
		for _, x := range held {
			x.Release()
		}
	})
	CoreExit()
	p.Start(func() { fn(&Child{Proc: p, Path: c.Path}) })
	return p
}

// ReadAllIn reads standard input to its end.
func (c *Child) ReadAllIn() (string, error) {
	if c.Proc.Stdin == nil {
		return "", nil
	}
	b, err := io.ReadAll(readerOnly{c.Proc.Stdin})
	return string(b), err
}

type readerOnly struct{ s Stream }

func (r readerOnly) Read(p []byte) (int, error) { return r.s.Read(p) }

// StartProgram creates a child process of the current one running prog.
func StartProgram(prog Program, path string, args []string, dir string, env []string, in, out, errw Stream) *Proc {
	CoreEnter()
	name := path
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	p := NewProc(name, CurProc())
	p.Faulty = false
	p.Cwd = dir
	p.Env = env
	p.Args = append([]string{path}, args...)
	p.Stdin, p.Stdout, p.Stderr = in, out, errw
	if OnExec != nil {
		OnExec(p, path, args)
	}
	if tracing {
		Log("exec #%d %s %q in %s", p.ID, path, args, dir)
	}
	CoreExit()
	spawn(p.Name, p, func() {
		Yield(30)
		code := prog(&Child{Proc: p, Path: path, Args: args})
		if !p.Dead {
			p.exit(code)
		}
	})
	return p
}
