//go:build go1.22

// Package io is the standard package with a simulated Pipe.
package io

import (
	real "io"

	"github.com/bobg/fab/zsim/shim/sync"
)

type pipe struct {
	mu         sync.Mutex
	cond       *sync.Cond
	buf        []byte
	full       bool
	rerr, werr error
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = sync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rerr != nil {
			return 0, real.ErrClosedPipe
		}
		if p.full {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			if len(p.buf) == 0 {
				p.full = false
				p.cond.Broadcast()
			}
			return n, nil
		}
		if p.werr != nil {
			return 0, p.werr
		}
		p.cond.Wait()
	}
}
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = real.ErrClosedPipe
	}
	r.p.mu.Lock()
	defer r.p.mu.Unlock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for p.full && p.rerr == nil && p.werr == nil {
		p.cond.Wait()
	}
	if p.werr != nil {
		return 0, real.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.buf = append([]byte(nil), b...)
	p.full = true
	p.cond.Broadcast()
	for p.full && p.rerr == nil {
		p.cond.Wait()
	}
	if p.full {
		return len(b) - len(p.buf), p.rerr
	}
	return len(b), nil
}
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = real.EOF
	}
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.cond.Broadcast()
	return nil
}
