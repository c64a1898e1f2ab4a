//go:build go1.22

// Package signal is a stand-in for os/signal: signals are delivered by the simulator only.
package signal

import (
	"context"
	"os"

	scontext "github.com/bobg/fab/zsim/shim/context"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                     {}
func Ignore(sig ...os.Signal)                     {}
func Ignored(sig os.Signal) bool                  { return false }
func Reset(sig ...os.Signal)                      {}
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	return scontext.WithCancel(parent)
}
