//go:build go1.22

package zsim

import (
	"fmt"
	"sort"
	"syscall"
)

// Proc is a simulated operating-system process.
type Proc struct {
	ID       int
	Name     string
	Parent   *Proc
	Env      []string
	Cwd      string
	Args     []string
	Stdin    Stream
	Stdout   Stream
	Stderr   Stream
	Dead     bool // no longer executing
	Killed   bool // ended by a signal or crash
	ExitCode int
	Panic    string
	Signal   string
	Locals   map[string]any
	OnEnd    []func() // run when the last task has ended or the process was killed
	live     int
	endDone  bool
	Faulty   bool // file-system faults may strike this process
	Traps    bool // survives every signal except SIGKILL
}

// Stream is the end of a byte stream a process holds.
type Stream interface {
	Write(p []byte) (int, error)
	Read(p []byte) (int, error)
}

var (
	procs    []*Proc
	killAt   int64
	killProc *Proc
	onKill   = func(p *Proc) { p.Kill("killed") }
)

func init() {
	Resets = append(Resets, func() { procs = nil })
}

// NewProc creates a process without tasks.
func NewProc(name string, parent *Proc) *Proc {
	p := &Proc{ID: len(procs) + 1, Name: name, Parent: parent, Cwd: "/", Locals: map[string]any{}}
	if parent != nil {
		p.Cwd = parent.Cwd
		p.Env = append([]string(nil), parent.Env...)
		p.Stdin, p.Stdout, p.Stderr = parent.Stdin, parent.Stdout, parent.Stderr
		p.Faulty = parent.Faulty
	}
	procs = append(procs, p)
	return p
}

// Start runs fn as the main task of the process. Returning from fn is exit status 0.
func (p *Proc) Start(fn func()) *Task {
	t := spawn(p.Name, p, func() {
		fn()
		if !p.Dead {
			p.exit(0)
		}
	})
	return t
}

// CurProc returns the process of the current task (nil for harness tasks).
//
//go:norace
func CurProc() *Proc {
	if cur == nil {
		return nil
	}
	return cur.Proc
}

// Exit ends the current process.
func Exit(code int) {
	p := CurProc()
	if p == nil {
		Bug("os.Exit(%d) outside a simulated process", code)
	}
	if cur.killed {
		return
	}
	p.exit(code)
	Dead()
}

// exit marks the process as ended; its tasks are unwound.
//
//go:norace
func (p *Proc) exit(code int) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.ExitCode = code
	if tracing {
		Log("process %s exits with status %d", p.Name, code)
	}
	p.killTasks()
}

// Kill ends the process as if by SIGKILL: nothing of it runs any more.
//
//go:norace
func (p *Proc) Kill(signal string) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.Killed = true
	p.Signal = signal
	p.ExitCode = -1
	if tracing {
		Log("process %s is killed (%s)", p.Name, signal)
	}
	p.killTasks()
}

// KillTree kills a process and all its descendants.
func (p *Proc) KillTree(signal string) {
	for _, q := range procs {
		for a := q; a != nil; a = a.Parent {
			if a == p {
				q.Kill(signal)
				break
			}
		}
	}
}

//go:norace
func (p *Proc) killTasks() {
	for i := lowID; i < ntasks; i++ {
		if tasks[i].Proc == p && tasks[i].state != stDone {
			tasks[i].killed = true
		}
	}
	nextEvent = steps // let the unwinding happen soon
	if p.live == 0 {
		p.ended()
	}
}

//go:norace
func (p *Proc) ended() {
	if p.endDone {
		return
	}
	p.Dead = true
	p.endDone = true
	for _, f := range p.OnEnd {
		f()
	}
}

type procDone struct{ p *Proc }

//go:norace
func (w procDone) Ready() bool { return w.p.endDone }

// Wait waits for the process to be gone.
func (p *Proc) Wait() {
	for !p.endDone {
		Block(procDone{p}, -1)
	}
}

//go:norace
func (p *Proc) Gone() bool { return p.endDone }

// KillAfter arranges for onKill(p) to be called after n more steps.
func KillAfter(p *Proc, n int64, f func(*Proc)) {
	killAt = steps + n
	killProc = p
	onKill = f
	if killAt < nextEvent {
		nextEvent = killAt
	}
}

func CancelKill() { killAt, killProc = 0, nil }

// Live lists the names of the processes still executing.
func Live() []string {
	var out []string
	for _, p := range procs {
		if !p.Dead {
			out = append(out, fmt.Sprintf("%s#%d", p.Name, p.ID))
		}
	}
	sort.Strings(out)
	return out
}

func (p *Proc) Getenv(k string) (string, bool) {
	for i := len(p.Env) - 1; i >= 0; i-- {
		e := p.Env[i]
		if len(e) > len(k) && e[len(k)] == '=' && e[:len(k)] == k {
			return e[len(k)+1:], true
		}
	}
	return "", false
}

func (p *Proc) Setenv(k, v string) {
	var out []string
	for _, e := range p.Env {
		if len(e) > len(k) && e[len(k)] == '=' && e[:len(k)] == k {
			continue
		}
		out = append(out, e)
	}
	p.Env = append(out, k+"="+v)
}

func (p *Proc) Unsetenv(k string) {
	var out []string
	for _, e := range p.Env {
		if len(e) > len(k) && e[len(k)] == '=' && e[:len(k)] == k {
			continue
		}
		out = append(out, e)
	}
	p.Env = out
}

type ctxOrProc struct {
	done <-chan struct{}
	p    *Proc
}

func (w ctxOrProc) Complex() {}
func (w ctxOrProc) Ready() bool {
	if w.p.endDone {
		return true
	}
	select {
	case <-w.done:
		return true
	default:
		return false
	}
}

// WaitGone waits for the process to be gone, until the deadline.
func (p *Proc) WaitGone(deadline int64) bool {
	for !p.endDone && Now() < deadline {
		if !Block(procDone{p}, deadline) && Dead() {
			break
		}
	}
	return p.endDone
}

// WaitEither waits for the channel to be closed or the process to be gone.
func WaitEither(done <-chan struct{}, p *Proc) {
	Block(ctxOrProc{done, p}, -1)
}

type chanOr struct {
	c <-chan struct{}
	w Waiter
}

func (x chanOr) Complex() {}
func (x chanOr) Ready() bool {
	select {
	case <-x.c:
		return true
	default:
		return x.w.Ready()
	}
}

// BlockOr waits for the condition or for the channel to be closed.
func BlockOr(w Waiter, done <-chan struct{}) { Block(chanOr{done, w}, -1) }

// PidBase keeps simulated process ids out of the range of real ones.
const PidBase = 5000000

// SignalPid delivers a signal to a simulated process (or, with group, to it and its descendants).
func SignalPid(pid, sig int, group bool) error {
	if Dead() {
		return nil
	}
	Yield(31)
	for _, p := range procs {
		if p.ID+PidBase != pid {
			continue
		}
		if p.Dead {
			return syscall.ESRCH
		}
		if group {
			for _, q := range procs {
				for a := q; a != nil; a = a.Parent {
					if a == p {
						q.signal(sig)
						break
					}
				}
			}
			return nil
		}
		p.signal(sig)
		return nil
	}
	return syscall.ESRCH
}

// Signal delivers a signal to the process.
func (p *Proc) SignalNum(sig int) { p.signal(sig) }

func (p *Proc) signal(sig int) {
	switch syscall.Signal(sig) {
	case 0, syscall.SIGCHLD, syscall.SIGCONT, syscall.SIGSTOP, syscall.SIGTSTP, syscall.SIGWINCH, syscall.SIGURG:
		return
	case syscall.SIGKILL:
	default:
		if p.Traps {
			return
		}
	}
	p.Kill(syscall.Signal(sig).String())
}
