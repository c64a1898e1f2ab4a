//go:build go1.22

// Package syscall is the standard package without its direct system calls, except the few that
// are simulated. Code that uses another one does not build under the simulator.
package syscall

import (
	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/os"
)

func Kill(pid int, sig Signal) error {
	group := pid < 0
	if group {
		pid = -pid
	}
	return zsim.SignalPid(pid, int(sig), group)
}
func Exit(code int)                  { os.Exit(code) }
func Getpid() int                    { return os.Getpid() }
func Getwd() (string, error)         { return os.Getwd() }
func Environ() []string              { return os.Environ() }
func Getenv(k string) (string, bool) { return os.LookupEnv(k) }
func Setenv(k, v string) error       { return os.Setenv(k, v) }
func Unsetenv(k string) error        { return os.Unsetenv(k) }
func Unlink(p string) error          { return os.Remove(p) }
func Rmdir(p string) error           { return os.Remove(p) }
func Mkdir(p string, m uint32) error { return os.Mkdir(p, 0755) }
func Rename(a, b string) error       { return os.Rename(a, b) }
func Chdir(d string) error           { return os.Chdir(d) }
func Sync()                          {}
