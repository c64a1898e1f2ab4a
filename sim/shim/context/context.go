//go:build go1.22

// Package context replaces the standard package: cancellation without hidden goroutines or real timers.
package context

import (
	rc "context"
	"time"

	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/sync"
)

type (
	Context         = rc.Context
	CancelFunc      = rc.CancelFunc
	CancelCauseFunc = rc.CancelCauseFunc
)

var (
	Canceled         = rc.Canceled
	DeadlineExceeded = rc.DeadlineExceeded
)

func Background() Context                   { return rc.Background() }
func TODO() Context                         { return rc.TODO() }
func WithValue(p Context, k, v any) Context { return rc.WithValue(p, k, v) }

type cancelKey struct{}

type cctx struct {
	Context
	mu    sync.Mutex
	done  chan struct{}
	err   error
	cause error
	kids  []*cctx
	dl    time.Time
	hasDl bool
	after func()
}

func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *cctx) Value(k any) any {
	if _, ok := k.(cancelKey); ok {
		return c
	}
	return c.Context.Value(k)
}
func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.Context.Deadline()
}

func (c *cctx) cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	kids := c.kids
	c.kids = nil
	after := c.after
	c.mu.Unlock()
	zsim.Close(c.done)
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if after != nil {
		zsim.Go(after)
	}
}

func newCtx(parent Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(cancelKey{}).(*cctx); ok {
		p.mu.Lock()
		if p.err != nil {
			e, ca := p.err, p.cause
			p.mu.Unlock()
			c.cancel(e, ca)
		} else {
			p.kids = append(p.kids, c)
			p.mu.Unlock()
		}
	} else if d := parent.Done(); d != nil {
		zsim.GoNamed("ctx", func() {
			if zsim.Select(false, zsim.Recv(d), zsim.Recv((<-chan struct{})(c.done))) == 0 {
				c.cancel(parent.Err(), rc.Cause(parent))
			}
		}).Daemon()
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); !ok || d.Before(pd) {
		c.dl, c.hasDl = d, true
		left := d.UnixNano() - zsim.WallNow()
		if left <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			zsim.GoNamed("ctx-timer", func() {
				zsim.Sleep(left)
				c.cancel(DeadlineExceeded, cause)
			}).Daemon()
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Unix(0, zsim.WallNow()+int64(d)))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, zsim.WallNow()+int64(d)), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(cancelKey{}).(*cctx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return rc.Cause(c)
}

type withoutCancel struct{ Context }

func (withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}            { return nil }
func (withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k any) any {
	if _, ok := k.(cancelKey); ok {
		return nil
	}
	return w.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCtx(ctx)
	ran := false
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		ran = true
		zsim.Go(f)
	} else {
		c.after = func() { ran = true; f() }
		c.mu.Unlock()
	}
	return func() bool {
		if ran || c.Err() != nil {
			return false
		}
		c.mu.Lock()
		c.after = nil
		c.mu.Unlock()
		c.cancel(Canceled, nil)
		return true
	}
}
