//go:build go1.22

// Package fmt replaces the functions of the standard package that use the process's streams.
package fmt

import (
	real "fmt"

	"github.com/bobg/fab/zsim/shim/os"
)

func Print(a ...any) (int, error)                 { return real.Fprint(os.Stdout, a...) }
func Println(a ...any) (int, error)               { return real.Fprintln(os.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return real.Fprintf(os.Stdout, format, a...) }
func Scan(a ...any) (int, error)                  { return real.Fscan(os.Stdin, a...) }
func Scanln(a ...any) (int, error)                { return real.Fscanln(os.Stdin, a...) }
func Scanf(format string, a ...any) (int, error)  { return real.Fscanf(os.Stdin, format, a...) }
