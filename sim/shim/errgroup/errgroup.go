//go:build go1.22

// Package errgroup is golang.org/x/sync/errgroup under the simulator.
package errgroup

import (
	"context"
	"fmt"

	"github.com/bobg/fab/zsim"
	scontext "github.com/bobg/fab/zsim/shim/context"
	"github.com/bobg/fab/zsim/shim/sync"
)

type token struct{}

type Group struct {
	cancel  func(error)
	wg      sync.WaitGroup
	sem     chan token
	errOnce sync.Once
	err     error
}

func (g *Group) done() {
	if g.sem != nil {
		zsim.Recv1(g.sem)
	}
	g.wg.Done()
}

func WithContext(ctx context.Context) (*Group, context.Context) {
	ctx, cancel := scontext.WithCancelCause(ctx)
	return &Group{cancel: cancel}, ctx
}

func (g *Group) Wait() error {
	g.wg.Wait()
	if g.cancel != nil {
		g.cancel(g.err)
	}
	return g.err
}

func (g *Group) Go(f func() error) {
	if g.sem != nil {
		zsim.Send1(g.sem, token{})
	}
	g.wg.Add(1)
	g.run(f)
}

func (g *Group) run(f func() error) {
	zsim.Go(func() {
		defer g.done()
		if err := f(); err != nil {
			g.errOnce.Do(func() {
				g.err = err
				if g.cancel != nil {
					g.cancel(g.err)
				}
			})
		}
	})
}

func (g *Group) TryGo(f func() error) bool {
	if g.sem != nil {
		s := zsim.Send(g.sem, token{})
		if zsim.Select(true, s) < 0 {
			return false
		}
	}
	g.wg.Add(1)
	g.run(f)
	return true
}

func (g *Group) SetLimit(n int) {
	if n < 0 {
		g.sem = nil
		return
	}
	if len(g.sem) != 0 {
		panic(fmt.Errorf("errgroup: modify limit while %v goroutines in the group are still active", len(g.sem)))
	}
	g.sem = make(chan token, n)
}
