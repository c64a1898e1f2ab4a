//go:build go1.22

// Package os replaces the standard package of that name inside the simulation.
package os

import (
	"errors"
	"io"
	"io/fs"
	ros "os"
	"path"
	"strings"
	"syscall"
	"time"

	"github.com/bobg/fab/zsim"
)

const (
	O_RDONLY = ros.O_RDONLY
	O_WRONLY = ros.O_WRONLY
	O_RDWR   = ros.O_RDWR
	O_APPEND = ros.O_APPEND
	O_CREATE = ros.O_CREATE
	O_EXCL   = ros.O_EXCL
	O_SYNC   = ros.O_SYNC
	O_TRUNC  = ros.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = ros.PathSeparator
	PathListSeparator = ros.PathListSeparator
	DevNull           = ros.DevNull

	ModeDir        = ros.ModeDir
	ModeAppend     = ros.ModeAppend
	ModeExclusive  = ros.ModeExclusive
	ModeTemporary  = ros.ModeTemporary
	ModeSymlink    = ros.ModeSymlink
	ModeDevice     = ros.ModeDevice
	ModeNamedPipe  = ros.ModeNamedPipe
	ModeSocket     = ros.ModeSocket
	ModeSetuid     = ros.ModeSetuid
	ModeSetgid     = ros.ModeSetgid
	ModeCharDevice = ros.ModeCharDevice
	ModeSticky     = ros.ModeSticky
	ModeIrregular  = ros.ModeIrregular
	ModeType       = ros.ModeType
	ModePerm       = ros.ModePerm
)

type (
	FileMode     = fs.FileMode
	FileInfo     = fs.FileInfo
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = ros.LinkError
	SyscallError = ros.SyscallError
	Signal       = ros.Signal
)

// GetArgs is what the instrumented form of os.Args calls.
func GetArgs() []string { return proc().Args }

var (
	ErrInvalid          = ros.ErrInvalid
	ErrPermission       = ros.ErrPermission
	ErrExist            = ros.ErrExist
	ErrNotExist         = ros.ErrNotExist
	ErrClosed           = ros.ErrClosed
	ErrNoDeadline       = ros.ErrNoDeadline
	ErrDeadlineExceeded = ros.ErrDeadlineExceeded
	ErrProcessDone      = ros.ErrProcessDone

	Interrupt Signal = ros.Interrupt
	Kill      Signal = ros.Kill

	Args []string
)

// File is a simulated file or standard stream.
type File struct {
	h    *zsim.Handle
	s    zsim.Stream // pipe or fixed stream
	std  int         // 1, 2, 3: stdin, stdout, stderr of the current process
	name string
}

var (
	Stdin  = &File{std: 1, name: "/dev/stdin"}
	Stdout = &File{std: 2, name: "/dev/stdout"}
	Stderr = &File{std: 3, name: "/dev/stderr"}
)

// StreamFile wraps a stream end.
func StreamFile(s zsim.Stream, name string) *File { return &File{s: s, name: name} }

// Stream returns what a child process inherits when given this file.
func (f *File) Stream() zsim.Stream {
	if f == nil {
		return nil
	}
	if f.std > 0 {
		p := zsim.CurProc()
		if p == nil {
			return nil
		}
		return stdOf(p, f.std)
	}
	if f.s != nil {
		return f.s
	}
	return f.h
}

func stdOf(p *zsim.Proc, n int) zsim.Stream {
	switch n {
	case 1:
		return p.Stdin
	case 2:
		return p.Stdout
	}
	return p.Stderr
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return 9
}

func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.h != nil {
		return f.h.Read(p)
	}
	s := f.Stream()
	if s == nil {
		return 0, io.EOF
	}
	return s.Read(p)
}

func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.h != nil {
		return f.h.Write(p)
	}
	if zsim.Active() && zsim.Dead() {
		return len(p), nil
	}
	s := f.Stream()
	if s == nil {
		return len(p), nil
	}
	return s.Write(p)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.h != nil {
		return f.h.Close()
	}
	if c, ok := f.s.(io.Closer); ok {
		return c.Close()
	}
	return nil
}
func (f *File) ReadAt(p []byte, off int64) (int, error)  { return f.h.ReadAt(p, off) }
func (f *File) WriteAt(p []byte, off int64) (int, error) { return f.h.WriteAt(p, off) }
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.h == nil {
		return 0, &PathError{Op: "seek", Path: f.name, Err: syscall.ESPIPE}
	}
	return f.h.Seek(off, whence)
}
func (f *File) Sync() error {
	if f.h == nil {
		return nil
	}
	return f.h.Sync()
}
func (f *File) Truncate(n int64) error { return f.h.Truncate(n) }
func (f *File) Chmod(FileMode) error   { return nil }
func (f *File) Stat() (FileInfo, error) {
	if f.h == nil {
		return nil, &PathError{Op: "stat", Path: f.name, Err: syscall.EINVAL}
	}
	return f.h.Stat()
}
func (f *File) ReadDir(n int) ([]DirEntry, error) { return f.h.ReadDir(n) }
func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.h.ReadDir(n)
	var out []FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.h.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}
func (f *File) SetDeadline(time.Time) error      { return nil }
func (f *File) SetReadDeadline(time.Time) error  { return nil }
func (f *File) SetWriteDeadline(time.Time) error { return nil }

// ReadFrom keeps io.Copy on the plain Write path.
type onlyWriter struct{ io.Writer }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }

func wrap(h *zsim.Handle, name string, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{h: h, name: name}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if name == DevNull {
		return &File{s: nullStream{}, name: name}, nil
	}
	h, err := zsim.Disk.OpenFile(name, flag, perm)
	return wrap(h, name, err)
}

type nullStream struct{}

func (nullStream) Read([]byte) (int, error)    { return 0, io.EOF }
func (nullStream) Write(p []byte) (int, error) { return len(p), nil }

func linkErr(err error) error {
	var le *zsim.LinkError
	if errors.As(err, &le) {
		return &LinkError{Op: le.Op, Old: le.Old, New: le.New, Err: le.Err}
	}
	return err
}

func Stat(name string) (FileInfo, error)                { return zsim.Disk.Stat(name) }
func Lstat(name string) (FileInfo, error)               { return zsim.Disk.Lstat(name) }
func ReadDir(name string) ([]DirEntry, error)           { return zsim.Disk.ReadDir(name) }
func ReadFile(name string) ([]byte, error)              { return zsim.Disk.ReadFile(name) }
func WriteFile(name string, b []byte, m FileMode) error { return zsim.Disk.WriteFile(name, b, m) }
func Mkdir(name string, perm FileMode) error            { return zsim.Disk.Mkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error         { return zsim.Disk.MkdirAll(name, perm) }
func Remove(name string) error                          { return zsim.Disk.Remove(name) }
func RemoveAll(name string) error                       { return zsim.Disk.RemoveAll(name) }
func Rename(a, b string) error                          { return linkErr(zsim.Disk.Rename(a, b)) }
func Symlink(a, b string) error                         { return linkErr(zsim.Disk.Symlink(a, b)) }
func Link(a, b string) error                            { return linkErr(zsim.Disk.Link(a, b)) }
func Readlink(a string) (string, error)                 { return zsim.Disk.Readlink(a) }
func Chmod(a string, m FileMode) error                  { return zsim.Disk.Chmod(a, m) }
func Chown(string, int, int) error                      { return nil }
func Chtimes(a string, _, m time.Time) error            { return zsim.Disk.Chtimes(a, m) }
func Truncate(a string, n int64) error                  { return zsim.Disk.TruncatePath(a, n) }

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*zsim.FileInfo)
	y, ok2 := b.(*zsim.FileInfo)
	return ok1 && ok2 && x.Node == y.Node
}

func IsNotExist(err error) bool               { return ros.IsNotExist(err) }
func IsExist(err error) bool                  { return ros.IsExist(err) }
func IsPermission(err error) bool             { return ros.IsPermission(err) }
func IsTimeout(err error) bool                { return ros.IsTimeout(err) }
func IsPathSeparator(c uint8) bool            { return ros.IsPathSeparator(c) }
func NewSyscallError(s string, e error) error { return ros.NewSyscallError(s, e) }

func proc() *zsim.Proc {
	p := zsim.CurProc()
	if p == nil {
		p = &zsim.Proc{Cwd: "/"}
	}
	return p
}

func Getenv(k string) string                        { v, _ := proc().Getenv(k); return v }
func LookupEnv(k string) (string, bool)             { return proc().Getenv(k) }
func Setenv(k, v string) error                      { proc().Setenv(k, v); return nil }
func Unsetenv(k string) error                       { proc().Unsetenv(k); return nil }
func Clearenv()                                     { proc().Env = nil }
func Environ() []string                             { return append([]string(nil), proc().Env...) }
func Expand(s string, m func(string) string) string { return ros.Expand(s, m) }
func ExpandEnv(s string) string                     { return ros.Expand(s, Getenv) }
func Getwd() (string, error)                        { return proc().Cwd, nil }
func Chdir(d string) error {
	i, err := zsim.Disk.Stat(d)
	if err != nil {
		return &PathError{Op: "chdir", Path: d, Err: syscall.ENOENT}
	}
	if !i.IsDir() {
		return &PathError{Op: "chdir", Path: d, Err: syscall.ENOTDIR}
	}
	proc().Cwd = zsim.Abs(d)
	return nil
}
func Getpid() int               { return 5000000 + proc().ID }
func Getppid() int              { return 1 }
func Getuid() int               { return 0 }
func Geteuid() int              { return 0 }
func Getgid() int               { return 0 }
func Getegid() int              { return 0 }
func Getpagesize() int          { return 4096 }
func Hostname() (string, error) { return "sim", nil }
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}
func Executable() (string, error) {
	if len(proc().Args) > 0 {
		return proc().Args[0], nil
	}
	return "", errors.New("no executable")
}
func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}
func UserCacheDir() (string, error) {
	if d := Getenv("XDG_CACHE_HOME"); d != "" {
		return d, nil
	}
	h := Getenv("HOME")
	if h == "" {
		return "", errors.New("neither $XDG_CACHE_HOME nor $HOME are defined")
	}
	return h + "/.cache", nil
}
func UserConfigDir() (string, error) {
	h, err := UserHomeDir()
	return h + "/.config", err
}
func Exit(code int) { zsim.Exit(code) }

var tmpSeq int

func init() { zsim.Resets = append(zsim.Resets, func() { tmpSeq = 0 }) }

func tmpName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		tmpSeq++
		n := path.Join(dir, pre+itoa(100000+tmpSeq)+suf)
		if !zsim.Disk.Exists(zsim.Abs(n)) {
			return n
		}
	}
}

func itoa(n int) string {
	var b []byte
	for ; n > 0; n /= 10 {
		b = append([]byte{byte('0' + n%10)}, b...)
	}
	return string(b)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tmpName(dir, pattern)
	return n, Mkdir(n, 0700)
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tmpName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

// Pipe returns a connected pair of files.
func Pipe() (*File, *File, error) {
	p := zsim.NewPipe()
	return StreamFile(p.ReadEnd(), "|0"), StreamFile(p.WriteEnd(), "|1"), nil
}

// DirFS returns a file system for the tree rooted at dir.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) join(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", &PathError{Op: op, Path: name, Err: ErrInvalid}
	}
	return string(d) + "/" + name, nil
}

func fixErr(err error, name string) error {
	var pe *PathError
	if errors.As(err, &pe) {
		return &PathError{Op: pe.Op, Path: name, Err: pe.Err}
	}
	return err
}

func (d dirFS) Open(name string) (fs.File, error) {
	full, err := d.join("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(full)
	if err != nil {
		return nil, fixErr(err, name)
	}
	return f, nil
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	full, err := d.join("open", name)
	if err != nil {
		return nil, err
	}
	b, err := ReadFile(full)
	return b, fixErr(err, name)
}

func (d dirFS) ReadDir(name string) ([]DirEntry, error) {
	full, err := d.join("open", name)
	if err != nil {
		return nil, err
	}
	b, err := ReadDir(full)
	return b, fixErr(err, name)
}

func (d dirFS) Stat(name string) (FileInfo, error) {
	full, err := d.join("stat", name)
	if err != nil {
		return nil, err
	}
	b, err := Stat(full)
	return b, fixErr(err, name)
}

func CopyFS(dir string, fsys fs.FS) error { zsim.Bug("os.CopyFS is not simulated"); return nil }

// --- processes

type ProcAttr = ros.ProcAttr

type Process struct {
	Pid int
	P   *zsim.Proc
}

func (p *Process) Kill() error { return p.Signal(Kill) }
func (p *Process) Signal(s Signal) error {
	if zsim.Dead() {
		return nil
	}
	if p.P.Dead {
		return ErrProcessDone
	}
	if n, ok := s.(syscall.Signal); ok {
		p.P.SignalNum(int(n))
		return nil
	}
	p.P.Kill(sigName(s))
	return nil
}
func sigName(s Signal) string {
	if s == nil {
		return "killed"
	}
	return s.String()
}
func (p *Process) Release() error { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	p.P.Wait()
	return &ProcessState{p.P}, nil
}

type ProcessState struct{ P *zsim.Proc }

func (s *ProcessState) ExitCode() int {
	if s == nil || s.P.Killed {
		return -1
	}
	return s.P.ExitCode
}
func (s *ProcessState) Success() bool             { return !s.P.Killed && s.P.ExitCode == 0 }
func (s *ProcessState) Exited() bool              { return !s.P.Killed }
func (s *ProcessState) Pid() int                  { return 5000000 + s.P.ID }
func (s *ProcessState) Sys() any                  { return nil }
func (s *ProcessState) SysUsage() any             { return nil }
func (s *ProcessState) UserTime() time.Duration   { return 0 }
func (s *ProcessState) SystemTime() time.Duration { return 0 }
func (s *ProcessState) String() string {
	if s == nil {
		return "<nil>"
	}
	if s.P.Killed {
		return "signal: " + s.P.Signal
	}
	return "exit status " + itoa0(s.P.ExitCode)
}

func itoa0(n int) string {
	if n == 0 {
		return "0"
	}
	if n < 0 {
		return "-" + itoa(-n)
	}
	return itoa(n)
}
