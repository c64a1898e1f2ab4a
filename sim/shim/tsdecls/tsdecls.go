//go:build go1.22

// Package tsdecls is a stand-in: the real package loads and type-checks a Go package tree from
// the real file system and build cache. The stand-in's output is a function of the sources it
// reads from the simulated file system.
package tsdecls

import (
	"fmt"
	"io"
	"path/filepath"
	"strings"

	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/os"
)

// OnWrite does the work if it is set.
var OnWrite func(w io.Writer, dir, typename, prefix string) error

func init() { zsim.Resets = append(zsim.Resets, func() { OnWrite = nil }) }

func Write(w io.Writer, dir, typename, prefix string) error {
	if OnWrite != nil {
		return OnWrite(w, dir, typename, prefix)
	}
	es, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	if _, err := fmt.Fprintf(w, "// %s %s\n", typename, prefix); err != nil {
		return err
	}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return err
		}
		if _, err := fmt.Fprintf(w, "// %s: %q\n", e.Name(), b); err != nil {
			return err
		}
	}
	return nil
}
