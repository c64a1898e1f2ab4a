//go:build go1.22

// Package flag is the standard package with one default flag set per simulated process.
package flag

import (
	real "flag"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/bobg/fab/zsim"
	sos "github.com/bobg/fab/zsim/shim/os"
)

type (
	Flag          = real.Flag
	FlagSet       = real.FlagSet
	Value         = real.Value
	Getter        = real.Getter
	ErrorHandling = real.ErrorHandling
)

const (
	ContinueOnError = real.ContinueOnError
	ExitOnError     = real.ExitOnError
	PanicOnError    = real.PanicOnError
)

var ErrHelp = real.ErrHelp

var fallback = real.NewFlagSet("sim", real.ContinueOnError)

// Usage is called when parsing fails.
var Usage = func() {
	fmt.Fprintf(sos.Stderr, "Usage of %s:\n", args0())
	PrintDefaults()
}

func args0() string {
	if p := zsim.CurProc(); p != nil && len(p.Args) > 0 {
		return p.Args[0]
	}
	return os.Args[0]
}

func cl() *FlagSet {
	p := zsim.CurProc()
	if p == nil {
		return fallback
	}
	if f, ok := p.Locals["flag"].(*FlagSet); ok {
		return f
	}
	f := real.NewFlagSet(args0(), real.ContinueOnError)
	f.SetOutput(io.Discard)
	p.Locals["flag"] = f
	return f
}

func NewFlagSet(name string, h ErrorHandling) *FlagSet {
	f := real.NewFlagSet(name, h)
	f.SetOutput(sos.Stderr)
	return f
}

func Parse() {
	f := cl()
	f.SetOutput(sos.Stderr)
	f.Usage = func() { Usage() }
	var args []string
	if p := zsim.CurProc(); p != nil && len(p.Args) > 0 {
		args = p.Args[1:]
	}
	if err := f.Parse(args); err != nil {
		if err == ErrHelp {
			sos.Exit(0)
		}
		sos.Exit(2)
	}
}

func StringVar(p *string, name, value, usage string)            { cl().StringVar(p, name, value, usage) }
func BoolVar(p *bool, name string, value bool, usage string)    { cl().BoolVar(p, name, value, usage) }
func IntVar(p *int, name string, value int, usage string)       { cl().IntVar(p, name, value, usage) }
func Int64Var(p *int64, name string, value int64, usage string) { cl().Int64Var(p, name, value, usage) }
func UintVar(p *uint, name string, value uint, usage string)    { cl().UintVar(p, name, value, usage) }
func Float64Var(p *float64, name string, value float64, usage string) {
	cl().Float64Var(p, name, value, usage)
}
func DurationVar(p *time.Duration, name string, value time.Duration, usage string) {
	cl().DurationVar(p, name, value, usage)
}
func String(name, value, usage string) *string         { return cl().String(name, value, usage) }
func Bool(name string, value bool, usage string) *bool { return cl().Bool(name, value, usage) }
func Int(name string, value int, usage string) *int    { return cl().Int(name, value, usage) }
func Duration(name string, value time.Duration, usage string) *time.Duration {
	return cl().Duration(name, value, usage)
}
func Var(v Value, name, usage string)                    { cl().Var(v, name, usage) }
func Func(name, usage string, fn func(string) error)     { cl().Func(name, usage, fn) }
func BoolFunc(name, usage string, fn func(string) error) { cl().BoolFunc(name, usage, fn) }
func Args() []string                                     { return cl().Args() }
func Arg(i int) string                                   { return cl().Arg(i) }
func NArg() int                                          { return cl().NArg() }
func NFlag() int                                         { return cl().NFlag() }
func Parsed() bool                                       { return cl().Parsed() }
func Lookup(name string) *Flag                           { return cl().Lookup(name) }
func Set(name, value string) error                       { return cl().Set(name, value) }
func Visit(fn func(*Flag))                               { cl().Visit(fn) }
func VisitAll(fn func(*Flag))                            { cl().VisitAll(fn) }
func PrintDefaults()                                     { cl().PrintDefaults() }
