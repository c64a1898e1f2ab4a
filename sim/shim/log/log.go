//go:build go1.22

// Package log is the standard package writing to the simulated standard error.
package log

import (
	"io"
	real "log"

	"github.com/bobg/fab/zsim/shim/os"
)

type Logger = real.Logger

const (
	Ldate         = real.Ldate
	Ltime         = real.Ltime
	Lmicroseconds = real.Lmicroseconds
	Llongfile     = real.Llongfile
	Lshortfile    = real.Lshortfile
	LUTC          = real.LUTC
	Lmsgprefix    = real.Lmsgprefix
	LstdFlags     = 0 // no time stamps: they are not simulated
)

var std = real.New(os.Stderr, "", 0)

func New(w io.Writer, prefix string, flag int) *Logger {
	return real.New(w, prefix, flag&^(Ldate|Ltime|Lmicroseconds))
}
func Default() *Logger             { return std }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func SetPrefix(p string)           { std.SetPrefix(p) }
func SetFlags(f int)               { std.SetFlags(f &^ (Ldate | Ltime | Lmicroseconds)) }
func Flags() int                   { return std.Flags() }
func Prefix() string               { return std.Prefix() }
func Writer() io.Writer            { return std.Writer() }
func Print(v ...any)               { std.Print(v...) }
func Println(v ...any)             { std.Println(v...) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Fatal(v ...any)               { std.Print(v...); os.Exit(1) }
func Fatalln(v ...any)             { std.Println(v...); os.Exit(1) }
func Fatalf(f string, v ...any)    { std.Printf(f, v...); os.Exit(1) }
func Panic(v ...any)               { std.Panic(v...) }
func Panicf(f string, v ...any)    { std.Panicf(f, v...) }
func Panicln(v ...any)             { std.Panicln(v...) }
func Output(d int, s string) error { return std.Output(d+1, s) }
