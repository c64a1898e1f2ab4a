//go:build go1.22

// Package exec replaces os/exec inside the simulation: commands are simulated programs.
package exec

import (
	"bytes"
	rctx "context"
	"errors"
	"io"
	"path"
	"strings"
	"syscall"
	"time"

	rexec "os/exec"

	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/os"
)

var (
	ErrNotFound  = rexec.ErrNotFound
	ErrDot       = rexec.ErrDot
	ErrWaitDelay = rexec.ErrWaitDelay
)

type Error = rexec.Error

type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx       rctx.Context
	copiers   []*copier
	closeWait []io.Closer
	waited    bool
	ctxErr    error
	watchDone *zsim.Task
	giveUp    int64 // when to stop waiting for the process and the pipes (0: never)
	pipes     []*zsim.Pipe
}

type copier struct {
	t   *zsim.Task
	err error
}

func LookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		if zsim.ProgramExists(zsim.Abs(file)) {
			return file, nil
		}
		return "", &Error{Name: file, Err: syscall.ENOENT}
	}
	if file != "" {
		for _, d := range []string{"/bin", "/usr/bin"} {
			if zsim.ProgramExists(d + "/" + file) {
				return d + "/" + file, nil
			}
		}
	}
	return "", &Error{Name: file, Err: ErrNotFound}
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if path.Base(name) == name {
		lp, err := LookPath(name)
		if lp != "" {
			c.Path = lp
		}
		if err != nil {
			c.Err = err
		}
	}
	return c
}

func CommandContext(ctx rctx.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	c.Cancel = func() error { return c.Process.Kill() }
	return c
}

func (c *Cmd) String() string {
	if c.Err != nil {
		return strings.Join(c.Args, " ")
	}
	b := new(strings.Builder)
	b.WriteString(c.Path)
	for _, a := range c.Args[1:] {
		b.WriteByte(' ')
		b.WriteString(a)
	}
	return b.String()
}

func (c *Cmd) Environ() []string {
	if c.Env == nil {
		return os.Environ()
	}
	return append([]string(nil), c.Env...)
}

func sameWriter(a, b io.Writer) (eq bool) {
	defer func() { recover() }()
	return a == b
}

func (c *Cmd) writer(w io.Writer) (zsim.Stream, *zsim.Pipe) {
	if w == nil {
		return nil, nil
	}
	if f, ok := w.(*os.File); ok {
		return f.Stream(), nil
	}
	p := zsim.NewPipe()
	r := p.ReadEnd()
	cp := &copier{}
	cp.t = zsim.GoNamed(zsim.Cur().Name+"/copy", func() {
		_, err := io.Copy(w, reader{r})
		p.CloseRead()
		zsim.CoreEnter()
		cp.err = err
		zsim.CoreExit()
	})
	c.copiers = append(c.copiers, cp)
	c.pipes = append(c.pipes, p)
	return p.WriteEnd(), p
}

type reader struct{ s zsim.Stream }

func (r reader) Read(p []byte) (int, error) { return r.s.Read(p) }

func (c *Cmd) Start() error {
	if zsim.Dead() {
		return errors.New("exec: process is gone")
	}
	if c.Path == "" && c.Err == nil {
		c.Err = errors.New("exec: no command")
	}
	if c.Err != nil {
		c.abandon()
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil {
		select {
		case <-c.ctx.Done():
			c.abandon()
			return c.ctx.Err()
		default:
		}
	}
	zsim.Yield(40)
	dir := c.Dir
	if dir == "" {
		dir, _ = os.Getwd()
	} else {
		dir = zsim.Abs(dir)
	}
	env := dedup(c.Environ())
	if c.Dir != "" {
		env = dedup(append(env, "PWD="+dir))
	}
	cp := zsim.CurProc()
	if cp != nil && cp.Faulty {
		if k := zsim.FaultPoint("exec-eagain", "exec-enomem"); k != "" {
			c.abandon()
			e := syscall.EAGAIN
			if k == "exec-enomem" {
				e = syscall.ENOMEM
			}
			return &os.PathError{Op: "fork/exec", Path: c.Path, Err: e}
		}
	}
	full := c.Path
	if strings.Contains(full, "/") && !path.IsAbs(full) {
		full = path.Join(dir, full)
	}
	prog, ok := zsim.FindProgram(full)
	if !ok {
		c.abandon()
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.ENOENT}
	}
	if !zsim.Disk.IsDirectory(dir) {
		c.abandon()
		return &os.PathError{Op: "chdir", Path: c.Dir, Err: syscall.ENOENT}
	}
	var in zsim.Stream
	var inPipe *zsim.Pipe
	if c.Stdin != nil {
		if f, ok := c.Stdin.(*os.File); ok {
			in = f.Stream()
		} else {
			inPipe = zsim.NewPipe()
			in = inPipe.ReadEnd()
			w := inPipe.WriteEnd()
			cpp := &copier{}
			src := c.Stdin
			cpp.t = zsim.GoNamed(zsim.Cur().Name+"/stdin", func() {
				_, err := io.Copy(streamWriter{w}, src)
				var pe *os.PathError
				if errors.As(err, &pe) && errors.Is(pe.Err, syscall.EPIPE) {
					err = nil // as in os/exec: the program need not read everything
				}
				inPipe.CloseWrite()
				zsim.CoreEnter()
				cpp.err = err
				zsim.CoreExit()
			})
			c.copiers = append(c.copiers, cpp)
		}
	}
	outS, outP := c.writer(c.Stdout)
	var errS zsim.Stream
	var errP *zsim.Pipe
	if c.Stderr != nil && sameWriter(c.Stdout, c.Stderr) {
		errS = outS
	} else {
		errS, errP = c.writer(c.Stderr)
	}
	for _, x := range []*zsim.Pipe{outP, errP} {
		if x != nil {
			x.Hold()
		}
	}
	p := zsim.StartProgram(prog, full, c.Args[1:], dir, env, in, outS, errS)
	p.OnEnd = append(p.OnEnd, func() {
		for _, x := range []*zsim.Pipe{outP, errP} {
			if x != nil {
				x.Release()
			}
		}
		if inPipe != nil {
			inPipe.CloseRead()
		}
	})
	for _, cl := range c.closeWait {
		if ec, ok := cl.(interface{ onEnd(*zsim.Proc) }); ok {
			ec.onEnd(p)
		}
	}
	c.Process = &os.Process{Pid: 5000000 + p.ID, P: p}
	if c.ctx != nil && c.ctx.Done() != nil {
		done := c.ctx.Done()
		c.watchDone = zsim.GoNamed(zsim.Cur().Name+"/watch", func() {
			zsim.WaitEither(done, p)
			if !p.Gone() && c.ctx.Err() != nil {
				err := c.ctx.Err()
				if c.Cancel != nil {
					if ie := c.Cancel(); ie == nil {
						c.ctxErr = err
					} else if !errors.Is(ie, os.ErrProcessDone) {
						c.ctxErr = ie
					}
				}
				if c.WaitDelay > 0 {
					c.giveUp = zsim.Now() + int64(c.WaitDelay)
					if !p.WaitGone(c.giveUp) {
						c.Process.Kill()
						c.closePipes()
					}
				}
			}
		})
		c.watchDone.Daemon()
	}
	return nil
}

type streamWriter struct{ s zsim.Stream }

func (w streamWriter) Write(p []byte) (int, error) { return w.s.Write(p) }

func (c *Cmd) abandon() {
	for _, cl := range c.closeWait {
		cl.Close()
	}
}

func dedup(env []string) []string {
	seen := map[string]int{}
	var out []string
	for _, e := range env {
		k, _, _ := strings.Cut(e, "=")
		if i, ok := seen[k]; ok {
			out[i] = e
			continue
		}
		seen[k] = len(out)
		out = append(out, e)
	}
	return out
}

func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	c.Process.P.Wait()
	if zsim.Exiting() {
		return errors.New("exec: process is gone")
	}
	st := &os.ProcessState{P: c.Process.P}
	c.ProcessState = st
	var err error
	if !st.Success() {
		err = &ExitError{ProcessState: st}
	}
	if c.watchDone != nil {
		c.watchDone.Join()
		if err == nil && c.ctxErr != nil {
			err = c.ctxErr
		}
	}
	if c.giveUp == 0 && c.WaitDelay > 0 {
		c.giveUp = zsim.Now() + int64(c.WaitDelay)
	}
	late := false
	for _, cp := range c.copiers {
		if c.giveUp > 0 && !late && !cp.t.JoinUntil(c.giveUp) {
			late = true
			c.closePipes()
		}
		cp.t.Join()
		if late {
			continue
		}
		zsim.CoreEnter()
		e := cp.err
		zsim.CoreExit()
		if err == nil {
			err = e
		}
	}
	if late && err == nil {
		err = ErrWaitDelay
	}
	for _, cl := range c.closeWait {
		cl.Close()
	}
	return err
}

func (c *Cmd) closePipes() {
	for _, p := range c.pipes {
		p.CloseRead()
	}
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, eb bytes.Buffer
	c.Stdout = &out
	captured := c.Stderr == nil
	if captured {
		c.Stderr = &eb
	}
	err := c.Run()
	if err != nil && captured {
		if ee, ok := err.(*ExitError); ok {
			ee.Stderr = eb.Bytes()
		}
	}
	return out.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

type pipeEnd struct {
	*os.File
	p     *zsim.Pipe
	write bool
}

func (e *pipeEnd) onEnd(p *zsim.Proc) {
	p.OnEnd = append(p.OnEnd, func() {
		if e.write {
			e.p.CloseRead()
		} else {
			e.p.CloseWrite()
		}
	})
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	p := zsim.NewPipe()
	c.Stdout = os.StreamFile(p.WriteEnd(), "|1")
	e := &pipeEnd{os.StreamFile(p.ReadEnd(), "|0"), p, false}
	c.closeWait = append(c.closeWait, e)
	return e, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	p := zsim.NewPipe()
	c.Stderr = os.StreamFile(p.WriteEnd(), "|1")
	e := &pipeEnd{os.StreamFile(p.ReadEnd(), "|0"), p, false}
	c.closeWait = append(c.closeWait, e)
	return e, nil
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	p := zsim.NewPipe()
	c.Stdin = os.StreamFile(p.ReadEnd(), "|0")
	e := &pipeEnd{os.StreamFile(p.WriteEnd(), "|1"), p, true}
	c.closeWait = append(c.closeWait, e)
	return e, nil
}
