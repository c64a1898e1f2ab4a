//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/proto"
	"github.com/bobg/fab/sqlite"
	"github.com/bobg/fab/ts"
	"github.com/bobg/fab/zsim"
)

// fabResets put the package variables of the code under test into their initial state: the
// beginning of a process.
var fabResets = []func(){fab.ZZReset, golang.ZZReset, proto.ZZReset, ts.ZZReset, sqlite.ZZReset}

func init() {
	zsim.Resets = append(zsim.Resets, func() {
		for _, f := range fabResets {
			f()
		}
	})
}

// curProp is the property the present run decides. Oracles that belong to other properties stay
// quiet in it.
var curProp string

func forProp(id string, f func()) func() {
	return func() {
		curProp = id
		f()
	}
}

func owns(props string) bool {
	for _, p := range strings.Fields(props) {
		if p == curProp {
			return true
		}
	}
	return false
}

// viol reports a violation if the run decides one of the given properties.
func viol(props, class, format string, args ...any) {
	if !owns(props) {
		zsim.Probe("(an oracle of another property objected: " + class + ")")
		return
	}
	zsim.Fail(class, format, args...)
}

// only keeps the violation classes that count for a check; "panic" always does.
func only(classes ...string) func(*zsim.Result) {
	return func(r *zsim.Result) {
		switch r.Class {
		case "", "panic":
			return
		case "deadlock", "step-budget", "task-limit":
			for _, c := range classes {
				if c == r.Class {
					return
				}
			}
			r.Class, r.Msg = "", ""
		}
	}
}

func pick[T any](xs ...T) T { return xs[zsim.Gen(len(xs))] }

func sname(prefix string, i int) string { return fmt.Sprintf("%s%d", prefix, i) }
