//go:build go1.22

package zsim

import (
	"bytes"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// The simulated file system. Nothing here touches the real one.

type Inode struct {
	ID     int
	Dir    bool
	Link   string // symlink target
	Data   []byte
	Kids   map[string]*Inode
	Mode   fs.FileMode
	Mtime  int64
	Nlink  int
	Locked any // advisory data of the SQLite VFS
}

type FS struct {
	Root   *Inode
	nextID int
	// OnMut is called for every mutation that is about to take effect.
	OnMut func(op, path string, p *Proc)
	// FaultPath limits fault injection to some paths (nil: all).
	FaultPath func(op, path string) bool
	// CloseLoses makes a file that cannot be closed lose what was written last.
	CloseLoses bool
	// Deny makes operations on some paths fail for as long as the entry exists.
	Deny map[string]string
	// Capacity > 0 limits the total number of bytes.
	Capacity int64
	used     int64
}

// Disk is the file system of the current run.
var Disk *FS

func init() { Resets = append(Resets, func() { Disk = NewFS() }) }

func NewFS() *FS {
	f := &FS{}
	f.Root = f.newDir()
	for _, d := range []string{"/tmp", "/bin", "/usr/bin", "/root", "/dev"} {
		f.mkdirAll(d)
	}
	return f
}

func (f *FS) newDir() *Inode {
	f.nextID++
	return &Inode{ID: f.nextID, Dir: true, Kids: map[string]*Inode{}, Mode: fs.ModeDir | 0755, Mtime: WallNow(), Nlink: 1}
}

func (f *FS) newFile(mode fs.FileMode) *Inode {
	f.nextID++
	return &Inode{ID: f.nextID, Mode: mode.Perm(), Mtime: WallNow(), Nlink: 1}
}

// Abs makes a path absolute with respect to the current process.
func Abs(name string) string {
	if name == "" {
		return ""
	}
	if !strings.HasPrefix(name, "/") {
		cwd := "/"
		if p := CurProc(); p != nil {
			cwd = p.Cwd
		}
		name = cwd + "/" + name
	}
	return path.Clean(name)
}

func split(abs string) []string {
	if abs == "/" {
		return nil
	}
	return strings.Split(abs[1:], "/")
}

// walk finds the parent directory and final node of a path. follow: resolve a final symlink.
func (f *FS) walk(name string, follow bool) (dir *Inode, base string, node *Inode, err error) {
	if name == "" {
		return nil, "", nil, syscall.ENOENT
	}
	return f.walkAbs(Abs(name), follow, 0)
}

func (f *FS) walkAbs(abs string, follow bool, depth int) (dir *Inode, base string, node *Inode, err error) {
	if depth > 20 {
		return nil, "", nil, syscall.ELOOP
	}
	parts := split(abs)
	n := f.Root
	if len(parts) == 0 {
		return nil, "/", n, nil
	}
	for i, p := range parts {
		if !n.Dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		kid := n.Kids[p]
		last := i == len(parts)-1
		if kid != nil && kid.Link != "" && (!last || follow) {
			t := kid.Link
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(parts[:i], "/") + "/" + t
			}
			t = path.Clean(t + "/" + strings.Join(parts[i+1:], "/"))
			return f.walkAbs(t, follow, depth+1)
		}
		if last {
			return n, p, kid, nil
		}
		if kid == nil {
			return nil, "", nil, syscall.ENOENT
		}
		n = kid
	}
	panic("unreachable")
}

func perr(op, name string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

// enter is the common prologue of all operations: scheduling point, death, faults.
func (f *FS) enter(op, name string, kinds ...string) (fault string, dead bool) {
	if active {
		if Dead() {
			return "", true
		}
		Yield(10)
		if Dead() {
			return "", true
		}
	}
	CoreEnter()
	if len(kinds) > 0 && active {
		p := CurProc()
		if p != nil && p.Faulty && (f.FaultPath == nil || f.FaultPath(op, Abs(name))) {
			fault = FaultPoint(kinds...)
		}
		if fault == "" && p != nil && p.Faulty && len(f.Deny) > 0 {
			if k := f.Deny[Abs(name)]; k != "" && k != BadSector {
				fault = k
				CountFault(k)
			}
		}
	}
	return fault, false
}

func (f *FS) leave() { CoreExit() }

func (f *FS) mut(op, abs string) {
	if f.OnMut != nil {
		f.OnMut(op, abs, CurProc())
	}
	if tracing {
		Log("fs %s %s", op, abs)
	}
}

func faultErr(k string) error {
	switch {
	case strings.HasSuffix(k, "-eio"):
		return syscall.EIO
	case strings.HasSuffix(k, "-eacces"):
		return syscall.EACCES
	case strings.HasSuffix(k, "-enospc"):
		return syscall.ENOSPC
	case strings.HasSuffix(k, "-emfile"):
		return syscall.EMFILE
	case strings.HasSuffix(k, "-eperm"):
		return syscall.EPERM
	}
	return syscall.EIO
}

var ErrDead = syscall.EINTR

type FileInfo struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	Node  *Inode
}

func (i *FileInfo) Name() string               { return i.name }
func (i *FileInfo) Size() int64                { return i.size }
func (i *FileInfo) Mode() fs.FileMode          { return i.mode }
func (i *FileInfo) ModTime() time.Time         { return time.Unix(0, i.mtime) }
func (i *FileInfo) IsDir() bool                { return i.mode.IsDir() }
func (i *FileInfo) Sys() any                   { return i.Node }
func (i *FileInfo) Type() fs.FileMode          { return i.mode.Type() }
func (i *FileInfo) Info() (fs.FileInfo, error) { return i, nil }
func (i *FileInfo) String() string             { return fs.FormatFileInfo(i) }

func infoOf(name string, n *Inode) *FileInfo {
	m := n.Mode
	if n.Link != "" {
		m = fs.ModeSymlink | 0777
	}
	return &FileInfo{name: name, size: int64(len(n.Data)), mode: m, mtime: n.Mtime, Node: n}
}

func (f *FS) Stat(name string) (fs.FileInfo, error)  { return f.stat("stat", name, true) }
func (f *FS) Lstat(name string) (fs.FileInfo, error) { return f.stat("lstat", name, false) }

func (f *FS) stat(op, name string, follow bool) (fs.FileInfo, error) {
	k, dead := f.enter(op, name, "stat-eio", "stat-eacces")
	defer f.leave()
	if dead {
		return nil, perr(op, name, ErrDead)
	}
	if k != "" {
		return nil, perr(op, name, faultErr(k))
	}
	_, base, n, err := f.walk(name, follow)
	if err != nil {
		return nil, perr(op, name, err)
	}
	if n == nil {
		return nil, perr(op, name, syscall.ENOENT)
	}
	return infoOf(path.Base(base), n), nil
}

// Handle is an open file.
type Handle struct {
	f      *FS
	node   *Inode
	name   string
	abs    string
	pos    int64
	flag   int
	closed bool
	dirPos int
	dirEnt []fs.DirEntry
}

func (f *FS) OpenFile(name string, flag int, perm fs.FileMode) (*Handle, error) {
	kinds := []string{"open-eio", "open-eacces", "open-emfile"}
	if flag&(syscall.O_CREAT) != 0 {
		kinds = append(kinds, "open-enospc")
	}
	k, dead := f.enter("open", name, kinds...)
	defer f.leave()
	if dead {
		return nil, perr("open", name, ErrDead)
	}
	if k != "" {
		return nil, perr("open", name, faultErr(k))
	}
	h, err := f.open(name, flag, perm)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return h, nil
}

func (f *FS) open(name string, flag int, perm fs.FileMode) (*Handle, error) {
	abs := Abs(name)
	dir, base, n, err := f.walk(name, flag&syscall.O_EXCL == 0)
	if err != nil {
		return nil, err
	}
	wr := flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if n == nil {
		if flag&syscall.O_CREAT == 0 {
			return nil, syscall.ENOENT
		}
		if strings.HasSuffix(name, "/") {
			return nil, syscall.EISDIR
		}
		if dir.Nlink == 0 {
			return nil, syscall.ENOENT
		}
		f.mut("create", abs)
		n = f.newFile(perm)
		dir.Kids[base] = n
		dir.Mtime = WallNow()
	} else {
		if flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0 {
			return nil, syscall.EEXIST
		}
		if n.Dir && wr {
			return nil, syscall.EISDIR
		}
		if !n.Dir && strings.HasSuffix(name, "/") {
			return nil, syscall.ENOTDIR
		}
		if flag&syscall.O_TRUNC != 0 && !n.Dir && wr {
			f.mut("truncate", abs)
			f.used -= int64(len(n.Data))
			n.Data = nil
			n.Mtime = WallNow()
		}
	}
	return &Handle{f: f, node: n, name: name, abs: abs, flag: flag}, nil
}

func (h *Handle) Name() string { return h.name }
func (h *Handle) Node() *Inode { return h.node }

// BadSector as a Deny value makes the second half of a file, or the end of a directory, unreadable.
const BadSector = "bad-sector-eio"

func (h *Handle) Read(p []byte) (int, error) {
	k, dead := h.f.enter("read", h.abs, "read-eio")
	defer h.f.leave()
	if dead {
		return 0, perr("read", h.name, ErrDead)
	}
	if h.closed {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	if k != "" {
		return 0, perr("read", h.name, faultErr(k))
	}
	if h.node.Dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.flag&syscall.O_WRONLY != 0 {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.pos >= int64(len(h.node.Data)) {
		return 0, io.EOF
	}
	n := len(h.node.Data) - int(h.pos)
	if q := CurProc(); active && q != nil && q.Faulty && h.f.Deny[h.abs] == BadSector {
		n -= len(h.node.Data) - len(h.node.Data)/2
		if n <= 0 {
			CountFault(BadSector)
			return 0, perr("read", h.name, syscall.EIO)
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > 1 && Chance(1, 6) { // short reads are legal
		n = n - Env(n)
	}
	copy(p, h.node.Data[h.pos:int(h.pos)+n])
	h.pos += int64(n)
	return n, nil
}

func (h *Handle) ReadAt(p []byte, off int64) (int, error) {
	k, dead := h.f.enter("read", h.abs, "read-eio")
	defer h.f.leave()
	if dead {
		return 0, perr("read", h.name, ErrDead)
	}
	if k != "" {
		return 0, perr("read", h.name, faultErr(k))
	}
	if off >= int64(len(h.node.Data)) {
		return 0, io.EOF
	}
	n := copy(p, h.node.Data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (h *Handle) Write(p []byte) (int, error) {
	k, dead := h.f.enter("write", h.abs, "write-eio", "write-enospc", "write-torn")
	defer h.f.leave()
	if dead {
		return 0, perr("write", h.name, ErrDead)
	}
	if h.closed {
		return 0, perr("write", h.name, fs.ErrClosed)
	}
	if h.flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	err := error(nil)
	q := p
	switch k {
	case "":
	case "write-torn":
		q = p[:Env(len(p)+1)]
		err = syscall.ENOSPC
		if len(q) == len(p) {
			q = p[:len(p)/2]
		}
	default:
		q, err = nil, faultErr(k)
	}
	if h.f.Capacity > 0 && h.f.used+int64(len(q)) > h.f.Capacity {
		n := h.f.Capacity - h.f.used
		if n < 0 {
			n = 0
		}
		q, err = q[:n], syscall.ENOSPC
	}
	if len(q) > 0 {
		h.f.mut("write", h.abs)
		if h.flag&syscall.O_APPEND != 0 {
			h.pos = int64(len(h.node.Data))
		}
		h.f.writeAt(h.node, q, h.pos)
		h.pos += int64(len(q))
	}
	return len(q), perr("write", h.name, err)
}

func (f *FS) writeAt(n *Inode, p []byte, off int64) {
	end := off + int64(len(p))
	if end > int64(len(n.Data)) {
		f.used += end - int64(len(n.Data))
		if end <= int64(cap(n.Data)) {
			n.Data = n.Data[:end]
		} else {
			nd := make([]byte, end, end+end/4+16)
			copy(nd, n.Data)
			n.Data = nd
		}
	}
	copy(n.Data[off:], p)
	n.Mtime = WallNow()
}

func (h *Handle) WriteAt(p []byte, off int64) (int, error) {
	old, fl := h.pos, h.flag
	h.pos, h.flag = off, h.flag&^syscall.O_APPEND
	n, err := h.Write(p)
	h.pos, h.flag = old, fl
	return n, err
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += h.pos
	case io.SeekEnd:
		off += int64(len(h.node.Data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.pos = off
	if h.node.Dir {
		h.dirPos, h.dirEnt = 0, nil
	}
	return off, nil
}

func (h *Handle) Close() error {
	var kinds []string
	if h.flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		kinds = []string{"close-eio", "close-enospc"}
	}
	k, dead := h.f.enter("close", h.abs, kinds...)
	defer h.f.leave()
	if dead {
		return nil
	}
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	h.closed = true
	if k != "" {
		// what was written last is lost, as when a write is delayed until the file is closed
		if n := len(h.node.Data); h.f.CloseLoses && n > 0 && !h.node.Dir {
			keep := n / 2
			if i := bytes.LastIndex(h.node.Data, []byte("\n\n")); i >= 0 && Env(2) == 1 {
				keep = i + 1
			}
			h.f.used -= int64(n - keep)
			h.node.Data = h.node.Data[:keep]
			h.f.mut("lose the end of", h.abs)
		}
		return perr("close", h.name, faultErr(k))
	}
	return nil
}

func (h *Handle) Sync() error {
	k, dead := h.f.enter("sync", h.abs, "sync-eio")
	defer h.f.leave()
	if dead {
		return ErrDead
	}
	if k != "" {
		return perr("sync", h.name, faultErr(k))
	}
	return nil
}

func (h *Handle) Truncate(size int64) error {
	_, dead := h.f.enter("truncate", h.abs)
	defer h.f.leave()
	if dead {
		return ErrDead
	}
	if size < 0 || h.node.Dir {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	h.f.mut("truncate", h.abs)
	h.f.truncate(h.node, size)
	return nil
}

func (f *FS) truncate(n *Inode, size int64) {
	if size <= int64(len(n.Data)) {
		f.used -= int64(len(n.Data)) - size
		n.Data = n.Data[:size:size]
	} else {
		f.writeAt(n, make([]byte, size-int64(len(n.Data))), int64(len(n.Data)))
	}
	n.Mtime = WallNow()
}

func (h *Handle) Stat() (fs.FileInfo, error) {
	k, dead := h.f.enter("stat", h.abs, "stat-eio")
	defer h.f.leave()
	if dead {
		return nil, ErrDead
	}
	if k != "" {
		return nil, perr("stat", h.name, faultErr(k))
	}
	return infoOf(path.Base(h.abs), h.node), nil
}

func (h *Handle) ReadDir(n int) ([]fs.DirEntry, error) {
	k, dead := h.f.enter("readdir", h.abs, "readdir-eio")
	defer h.f.leave()
	if dead {
		return nil, ErrDead
	}
	if k != "" {
		return nil, perr("readdirent", h.name, faultErr(k))
	}
	if !h.node.Dir {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	if h.dirEnt == nil {
		h.dirEnt = entries(h.node)
	}
	rest := h.dirEnt[h.dirPos:]
	if n <= 0 {
		h.dirPos = len(h.dirEnt)
		return rest, nil
	}
	if len(rest) == 0 {
		return nil, io.EOF
	}
	if len(rest) > n {
		rest = rest[:n]
	}
	h.dirPos += len(rest)
	return rest, nil
}

func entries(n *Inode) []fs.DirEntry {
	out := make([]fs.DirEntry, 0, len(n.Kids))
	names := make([]string, 0, len(n.Kids))
	for k := range n.Kids {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		out = append(out, infoOf(k, n.Kids[k]))
	}
	return out
}

// ReadDir is os.ReadDir: opens the directory, then reads it.
func (f *FS) ReadDir(name string) ([]fs.DirEntry, error) {
	k, dead := f.enter("readdir", name, "readdir-eio", "open-eacces")
	defer f.leave()
	if dead {
		return nil, perr("open", name, ErrDead)
	}
	if k != "" && k != "readdir-eio" {
		return nil, perr("open", name, faultErr(k))
	}
	_, _, n, err := f.walk(name, true)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	if !n.Dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	es := entries(n)
	if k != "" {
		// what could be read comes with the error
		return es[:Env(len(es)+1)], perr("readdirent", name, faultErr(k))
	}
	if p := CurProc(); active && p != nil && p.Faulty && f.Deny[Abs(name)] == BadSector && len(es) > 0 {
		// the end of the directory, which is where the newest entries are
		CountFault("bad-directory-eio")
		for k := 1 + Env(min(2, len(es))); k > 0; k-- {
			newest := 0
			for i, e := range es {
				if n.Kids[e.Name()].ID > n.Kids[es[newest].Name()].ID {
					newest = i
				}
			}
			es = append(es[:newest:newest], es[newest+1:]...)
		}
		return es, perr("readdirent", name, syscall.EIO)
	}
	return es, nil
}

func (f *FS) Mkdir(name string, perm fs.FileMode) error {
	k, dead := f.enter("mkdir", name, "mkdir-eio", "mkdir-enospc")
	defer f.leave()
	if dead {
		return perr("mkdir", name, ErrDead)
	}
	if k != "" {
		return perr("mkdir", name, faultErr(k))
	}
	return perr("mkdir", name, f.mkdir(name))
}

func (f *FS) mkdir(name string) error {
	dir, base, n, err := f.walk(name, false)
	if err != nil {
		return err
	}
	if n != nil {
		return syscall.EEXIST
	}
	f.mut("mkdir", Abs(name))
	dir.Kids[base] = f.newDir()
	return nil
}

func (f *FS) MkdirAll(name string, perm fs.FileMode) error {
	k, dead := f.enter("mkdir", name, "mkdir-eio", "mkdir-enospc")
	defer f.leave()
	if dead {
		return perr("mkdir", name, ErrDead)
	}
	if k != "" {
		return perr("mkdir", name, faultErr(k))
	}
	return perr("mkdir", name, f.mkdirAll(name))
}

func (f *FS) mkdirAll(name string) error {
	abs := Abs(name)
	parts := split(abs)
	for i := range parts {
		sub := "/" + strings.Join(parts[:i+1], "/")
		_, _, n, err := f.walk(sub, true)
		if err != nil {
			return err
		}
		if n == nil {
			if err := f.mkdir(sub); err != nil {
				return err
			}
		} else if !n.Dir {
			return syscall.ENOTDIR
		}
	}
	return nil
}

func (f *FS) Remove(name string) error {
	k, dead := f.enter("remove", name, "remove-eio", "remove-eperm")
	defer f.leave()
	if dead {
		return perr("remove", name, ErrDead)
	}
	if k != "" {
		return perr("remove", name, faultErr(k))
	}
	dir, base, n, err := f.walk(name, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr("remove", name, err)
	}
	if dir == nil {
		return perr("remove", name, syscall.EBUSY)
	}
	if n.Dir && len(n.Kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	f.mut("remove", Abs(name))
	f.unlink(dir, base, n)
	return nil
}

func (f *FS) unlink(dir *Inode, base string, n *Inode) {
	delete(dir.Kids, base)
	n.Nlink--
	if n.Nlink == 0 {
		f.used -= int64(len(n.Data))
	}
	dir.Mtime = WallNow()
}

func (f *FS) RemoveAll(name string) error {
	k, dead := f.enter("remove", name, "remove-eio")
	defer f.leave()
	if dead {
		return perr("unlinkat", name, ErrDead)
	}
	if k != "" {
		return perr("unlinkat", name, faultErr(k))
	}
	if name == "" {
		return nil
	}
	dir, base, n, err := f.walk(name, false)
	if err != nil || n == nil {
		if err == syscall.ENOENT || err == nil {
			return nil
		}
		return perr("unlinkat", name, err)
	}
	if dir == nil {
		return perr("unlinkat", name, syscall.EBUSY)
	}
	f.mut("removeall", Abs(name))
	f.unlink(dir, base, n)
	return nil
}

func (f *FS) Rename(from, to string) error {
	k, dead := f.enter("rename", to, "rename-eio", "rename-enospc")
	defer f.leave()
	lerr := func(e error) error {
		return &LinkError{"rename", from, to, e}
	}
	if dead {
		return lerr(ErrDead)
	}
	if k != "" {
		return lerr(faultErr(k))
	}
	d1, b1, n1, err := f.walk(from, false)
	if err == nil && n1 == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return lerr(err)
	}
	d2, b2, n2, err := f.walk(to, false)
	if err != nil {
		return lerr(err)
	}
	if d1 == nil || d2 == nil {
		return lerr(syscall.EBUSY)
	}
	if n1 == n2 {
		return nil
	}
	if n2 != nil {
		if n2.Dir && !n1.Dir {
			return lerr(syscall.EEXIST)
		}
		if !n2.Dir && n1.Dir {
			return lerr(syscall.ENOTDIR)
		}
		if n2.Dir && len(n2.Kids) > 0 {
			return lerr(syscall.ENOTEMPTY)
		}
	}
	f.mut("rename-from", Abs(from))
	f.mut("rename", Abs(to))
	if n2 != nil {
		f.unlink(d2, b2, n2)
	}
	delete(d1.Kids, b1)
	d2.Kids[b2] = n1
	return nil
}

// LinkError mirrors os.LinkError.
type LinkError struct {
	Op  string
	Old string
	New string
	Err error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

func (f *FS) Symlink(target, name string) error {
	_, dead := f.enter("symlink", name)
	defer f.leave()
	if dead {
		return ErrDead
	}
	dir, base, n, err := f.walk(name, false)
	if err != nil {
		return &LinkError{"symlink", target, name, err}
	}
	if n != nil {
		return &LinkError{"symlink", target, name, syscall.EEXIST}
	}
	f.mut("symlink", Abs(name))
	x := f.newFile(0777)
	x.Link = target
	dir.Kids[base] = x
	return nil
}

func (f *FS) Link(old, name string) error {
	_, dead := f.enter("link", name)
	defer f.leave()
	if dead {
		return ErrDead
	}
	_, _, n1, err := f.walk(old, false)
	if err == nil && n1 == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return &LinkError{"link", old, name, err}
	}
	dir, base, n, err := f.walk(name, false)
	if err != nil {
		return &LinkError{"link", old, name, err}
	}
	if n != nil {
		return &LinkError{"link", old, name, syscall.EEXIST}
	}
	f.mut("link", Abs(name))
	n1.Nlink++
	dir.Kids[base] = n1
	return nil
}

func (f *FS) Readlink(name string) (string, error) {
	_, dead := f.enter("readlink", name)
	defer f.leave()
	if dead {
		return "", ErrDead
	}
	_, _, n, err := f.walk(name, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && n.Link == "" {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", name, err)
	}
	return n.Link, nil
}

func (f *FS) Chmod(name string, mode fs.FileMode) error {
	_, dead := f.enter("chmod", name)
	defer f.leave()
	if dead {
		return ErrDead
	}
	_, _, n, err := f.walk(name, true)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr("chmod", name, err)
	}
	f.mut("chmod", Abs(name))
	n.Mode = n.Mode&^fs.ModePerm | mode.Perm()
	return nil
}

func (f *FS) Chtimes(name string, m time.Time) error {
	_, dead := f.enter("chtimes", name)
	defer f.leave()
	if dead {
		return ErrDead
	}
	_, _, n, err := f.walk(name, true)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr("chtimes", name, err)
	}
	f.mut("chtimes", Abs(name))
	n.Mtime = m.UnixNano()
	return nil
}

func (f *FS) TruncatePath(name string, size int64) error {
	h, err := f.OpenFile(name, syscall.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer h.Close()
	return h.Truncate(size)
}

func (f *FS) ReadFile(name string) ([]byte, error) {
	h, err := f.OpenFile(name, syscall.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return io.ReadAll(h)
}

func (f *FS) WriteFile(name string, data []byte, perm fs.FileMode) error {
	h, err := f.OpenFile(name, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if err1 := h.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// --- direct access for the harness: no scheduling, no faults, no observation

func (f *FS) Get(name string) (string, bool) {
	_, _, n, err := f.walkAbs(path.Clean(name), true, 0)
	if err != nil || n == nil || n.Dir {
		return "", false
	}
	return string(n.Data), true
}

func (f *FS) Exists(name string) bool {
	_, _, n, err := f.walkAbs(path.Clean(name), true, 0)
	return err == nil && n != nil
}

func (f *FS) IsDirectory(name string) bool {
	_, _, n, err := f.walkAbs(path.Clean(name), true, 0)
	return err == nil && n != nil && n.Dir
}

func (f *FS) Put(name, data string) {
	CoreEnter()
	defer CoreExit()
	f.MkDirs(path.Dir(name))
	dir, base, n, err := f.walkAbs(path.Clean(name), true, 0)
	if err != nil {
		Bug("put %s: %v", name, err)
	}
	if n == nil {
		n = f.newFile(0644)
		dir.Kids[base] = n
	}
	f.used += int64(len(data)) - int64(len(n.Data))
	n.Data = []byte(data)
	n.Mtime = WallNow()
}

// PutLink makes name a symbolic link.
func (f *FS) PutLink(target, name string) {
	CoreEnter()
	defer CoreExit()
	f.MkDirs(path.Dir(name))
	dir, base, n, err := f.walkAbs(path.Clean(name), false, 0)
	if err != nil {
		Bug("putlink %s: %v", name, err)
	}
	if n != nil {
		f.unlink(dir, base, n)
	}
	x := f.newFile(0777)
	x.Link = target
	dir.Kids[base] = x
}

// IsLink tells whether name is a symbolic link.
func (f *FS) IsLink(name string) bool {
	_, _, n, err := f.walkAbs(path.Clean(name), false, 0)
	return err == nil && n != nil && n.Link != ""
}

// PutKeep is Put without a change of the modification time.
func (f *FS) PutKeep(name, data string) {
	n := f.Node(name)
	if n == nil {
		f.Put(name, data)
		return
	}
	m := n.Mtime
	f.Put(name, data)
	n.Mtime = m
}

func (f *FS) MkDirs(name string) {
	CoreEnter()
	defer CoreExit()
	save := f.OnMut
	f.OnMut = nil
	if err := f.mkdirAll(name); err != nil {
		Bug("mkdirs %s: %v", name, err)
	}
	f.OnMut = save
}

func (f *FS) Del(name string) {
	dir, base, n, err := f.walkAbs(path.Clean(name), false, 0)
	if err == nil && n != nil && dir != nil {
		f.unlink(dir, base, n)
	}
}

// Tree lists all regular files below a directory with their contents.
func (f *FS) Tree(root string) map[string]string {
	out := map[string]string{}
	_, _, n, err := f.walkAbs(path.Clean(root), true, 0)
	if err != nil || n == nil {
		return out
	}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		if n.Link != "" {
			out[p] = "-> " + n.Link
		} else if n.Dir {
			out[p+"/"] = ""
			for k, c := range n.Kids {
				rec(strings.TrimSuffix(p, "/")+"/"+k, c)
			}
		} else {
			out[p] = string(n.Data)
		}
	}
	rec(path.Clean(root), n)
	return out
}

func (f *FS) Used() int64 { return f.used }
func (f *FS) Node(name string) *Inode {
	_, _, n, err := f.walkAbs(path.Clean(name), true, 0)
	if err != nil {
		return nil
	}
	return n
}

// DirOf returns parent directory and final node without following a final symlink (for the VFS).
func (f *FS) Raw(name string) (dir *Inode, base string, node *Inode, err error) {
	return f.walkAbs(path.Clean(name), true, 0)
}

func (f *FS) CreateRaw(dir *Inode, base string) *Inode {
	n := f.newFile(0644)
	dir.Kids[base] = n
	return n
}

func (f *FS) UnlinkRaw(dir *Inode, base string, n *Inode) { f.unlink(dir, base, n) }
func (f *FS) WriteRaw(n *Inode, p []byte, off int64)      { f.writeAt(n, p, off) }
func (f *FS) TruncateRaw(n *Inode, size int64)            { f.truncate(n, size) }

// EvalSymlinks resolves all symbolic links in a path.
func (f *FS) EvalSymlinks(name string) (string, error) {
	if _, err := f.Stat(name); err != nil {
		return "", err
	}
	for depth := 0; depth < 40; depth++ {
		parts := split(Abs(name))
		cur := ""
		changed := false
		for i, p := range parts {
			_, _, n, err := f.walkAbs(cur+"/"+p, false, 0)
			if err != nil || n == nil {
				return "", perr("lstat", name, syscall.ENOENT)
			}
			if n.Link != "" {
				t := n.Link
				if !strings.HasPrefix(t, "/") {
					t = cur + "/" + t
				}
				name = path.Clean(t + "/" + strings.Join(parts[i+1:], "/"))
				changed = true
				break
			}
			cur += "/" + p
		}
		if !changed {
			if cur == "" {
				cur = "/"
			}
			return cur, nil
		}
	}
	return "", perr("lstat", name, syscall.ELOOP)
}
