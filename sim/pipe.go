//go:build go1.22

package zsim

import (
	"io"
	"io/fs"
	"syscall"
)

// Pipe is a simulated byte pipe.
type Pipe struct {
	buf     []byte
	wclosed bool
	rclosed bool
	// Refs counts the processes holding the write end open.
	Refs int
}

const pipeCap = 4096

func NewPipe() *Pipe { return &Pipe{} }

type (
	readEnd  struct{ p *Pipe }
	writeEnd struct{ p *Pipe }
)

func (p *Pipe) ReadEnd() Stream  { return &readEnd{p} }
func (p *Pipe) WriteEnd() Stream { return &writeEnd{p} }

type pipeReadable struct{ p *Pipe }

func (w pipeReadable) Complex()    {}
func (w pipeReadable) Ready() bool { return len(w.p.buf) > 0 || w.p.wclosed || w.p.rclosed }

type pipeWritable struct{ p *Pipe }

func (w pipeWritable) Complex()    {}
func (w pipeWritable) Ready() bool { return len(w.p.buf) < pipeCap || w.p.rclosed }

func (r *readEnd) Read(b []byte) (int, error) {
	if Dead() {
		return 0, io.EOF
	}
	Yield(20)
	for {
		CoreEnter()
		if r.p.rclosed {
			CoreExit()
			return 0, fs.ErrClosed
		}
		if len(r.p.buf) > 0 {
			n := copy(b, r.p.buf)
			if n > 1 && Chance(1, 3) {
				n -= Env(n)
			}
			r.p.buf = append([]byte(nil), r.p.buf[n:]...)
			CoreExit()
			return n, nil
		}
		cl := r.p.wclosed
		CoreExit()
		if cl {
			return 0, io.EOF
		}
		Block(pipeReadable{r.p}, -1)
		if Dead() {
			return 0, io.EOF
		}
	}
}

func (r *readEnd) Write([]byte) (int, error) { return 0, syscall.EBADF }
func (r *readEnd) Close() error {
	CoreEnter()
	r.p.rclosed = true
	CoreExit()
	return nil
}

func (w *writeEnd) Write(b []byte) (int, error) {
	if Dead() {
		return len(b), nil
	}
	total := 0
	for {
		Yield(21)
		if Dead() {
			return len(b), nil
		}
		CoreEnter()
		if w.p.rclosed {
			CoreExit()
			return total, &fs.PathError{Op: "write", Path: "|1", Err: syscall.EPIPE}
		}
		if len(b) == 0 {
			CoreExit()
			return total, nil
		}
		if room := pipeCap - len(w.p.buf); room > 0 {
			n := len(b)
			if n > room {
				n = room
			}
			if n > 1 && Chance(1, 4) {
				n -= Env(n)
			}
			w.p.buf = append(w.p.buf, b[:n]...)
			b = b[n:]
			total += n
			CoreExit()
			if len(b) == 0 {
				return total, nil
			}
			continue
		}
		CoreExit()
		Block(pipeWritable{w.p}, -1)
	}
}

func (w *writeEnd) Read([]byte) (int, error) { return 0, syscall.EBADF }
func (w *writeEnd) Close() error {
	CoreEnter()
	w.p.wclosed = true
	CoreExit()
	return nil
}

// Hold and Release count the processes that have the write end open; it is closed with the last.
func (p *Pipe) Hold() {
	CoreEnter()
	defer CoreExit()
	p.Refs++
}
func (p *Pipe) Release() {
	CoreEnter()
	defer CoreExit()
	if p.Refs--; p.Refs <= 0 {
		p.wclosed = true
	}
}

// CloseWrite closes the write end (when the last process holding it is gone).
func (p *Pipe) CloseWrite() {
	CoreEnter()
	p.wclosed = true
	CoreExit()
}
func (p *Pipe) CloseRead() {
	CoreEnter()
	p.rclosed = true
	CoreExit()
}

// Sink is a stream that records what is written to it (a terminal or a log).
type Sink struct {
	Data []byte
	Who  []int // process id per write
	In   []byte
	Fail func(p []byte) (int, error) // nil: accept everything
}

func (s *Sink) Write(p []byte) (int, error) {
	if Exiting() {
		return len(p), nil
	}
	Yield(22)
	if Exiting() {
		return len(p), nil
	}
	CoreEnter()
	defer CoreExit()
	if s.Fail != nil {
		if n, err := s.Fail(p); err != nil {
			s.Data = append(s.Data, p[:n]...)
			return n, err
		}
	}
	s.Data = append(s.Data, p...)
	return len(p), nil
}

func (s *Sink) Read(b []byte) (int, error) {
	if Exiting() {
		return 0, io.EOF
	}
	Yield(23)
	CoreEnter()
	defer CoreExit()
	if len(s.In) == 0 {
		return 0, io.EOF
	}
	n := copy(b, s.In)
	s.In = s.In[n:]
	return n, nil
}
