//go:build go1.22

// Package vfs puts SQLite (the real library that fab links) on the simulated file system: its
// file operations, locks, sleeps, clock and randomness are scheduling and fault points of the
// simulator, and a power failure keeps only what had been synced.
package vfs

/*
#cgo LDFLAGS: -Wl,--unresolved-symbols=ignore-in-object-files
#include <stdlib.h>
#include <string.h>
int zvRegister(void);
void zvReseed(void);
*/
import "C"

import (
	"io/fs"
	"path"
	"sort"
	"strings"
	"unsafe"

	"github.com/bobg/fab/zsim"
)

const (
	ok         = 0
	errBusy    = 5
	errIO      = 10
	errFull    = 13
	errCant    = 14
	notFound   = 12
	ioRead     = errIO | 1<<8
	ioShort    = errIO | 2<<8
	ioWrite    = errIO | 3<<8
	ioFsync    = errIO | 4<<8
	ioTruncate = errIO | 6<<8
	ioUnlock   = errIO | 8<<8
	ioDelete   = errIO | 10<<8
	ioDelNoent = errIO | 23<<8
	ioAccess   = errIO | 13<<8
	ioLock     = errIO | 15<<8
	ioNomem    = errIO | 12<<8

	oReadonly  = 1
	oRW        = 2
	oCreate    = 4
	oDelOnClos = 8
	oExclusive = 16
	oMainDB    = 0x100
	oMainJrnl  = 0x800
	oSuperJrnl = 0x4000
	oWAL       = 0x80000
)

// vnode is what the VFS knows about one file.
type vnode struct {
	n       *zsim.Inode
	durable []byte // contents that survive a power failure
	pending []wop  // writes since the last sync
	shared  map[*vfile]bool
	reserve *vfile
	pend    *vfile
	excl    *vfile
	shm     *shm
}

type wop struct {
	off   int64
	data  []byte
	trunc int64 // -1: a write
}

// dirop is a directory change that has not been synced.
type dirop struct {
	path   string
	create bool
	v      *vnode
}

type shm struct {
	regions []unsafe.Pointer
	users   map[*vfile]bool
	sh      [8]map[*vfile]bool
	ex      [8]*vfile
}

type vfile struct {
	id      int
	name    string
	v       *vnode
	proc    *zsim.Proc
	level   int
	isDB    bool
	dirsync bool
	delete  bool
	closed  bool
}

var (
	files  = map[int]*vfile{}
	nextID int
	vnodes = map[*zsim.Inode]*vnode{}
	dirs   = map[string][]dirop{} // unsynced changes by directory
	rnd    uint64
	shms   []*shm
	gen    int
	// Syncs counts fsync calls (a probe).
	Syncs int
)

func init() {
	if rc := C.zvRegister(); rc != 0 {
		panic("vfs: cannot register")
	}
	zsim.Resets = append(zsim.Resets, Reset)
}

// CloseAll closes all connections of the previous run.
var (
	CloseAll = func() {}
	closing  bool
)

// Reset closes what the previous run left open, without any effect on files, and forgets everything.
func Reset() {
	closing = true
	CloseAll()
	closing = false
	files, vnodes, dirs = map[int]*vfile{}, map[*zsim.Inode]*vnode{}, map[string][]dirop{}
	for _, s := range shms {
		s.free()
	}
	shms = nil
	rnd = 0x1234567
	nextID = 0
	Syncs = 0
	C.zvReseed()
}

func (s *shm) free() {
	for _, r := range s.regions {
		C.free(r)
	}
	s.regions = nil
}

// enter is a scheduling point; it reports whether the calling process is dead.
func enter(site int) bool {
	if !zsim.Active() {
		return closing
	}
	return zsim.InC(site)
}

func fault(op, name string, kinds ...string) string {
	p := zsim.CurProc()
	if !zsim.Active() || p == nil || !p.Faulty || zsim.Disk.FaultPath != nil && !zsim.Disk.FaultPath(op, name) {
		return ""
	}
	if k := zsim.FaultPoint(kinds...); k != "" {
		return k
	}
	if k := zsim.Disk.Deny[name]; k != "" {
		zsim.CountFault(k)
		return k
	}
	return ""
}

func nodeOf(n *zsim.Inode, fresh bool) *vnode {
	v := vnodes[n]
	if v == nil {
		v = &vnode{n: n, shared: map[*vfile]bool{}}
		if !fresh {
			v.durable = append([]byte(nil), n.Data...)
		}
		vnodes[n] = v
	}
	return v
}

//export zvOpen
func zvOpen(cname *C.char, flags C.int, id, out *C.int) C.int {
	if enter(60) {
		return errCant
	}
	name := ""
	if cname == nil {
		nextID++
		name = "/tmp/sqlite-" + string(rune('a'+nextID%26))
		flags |= oDelOnClos | oCreate
	} else {
		name = C.GoString(cname)
	}
	if k := fault("open", name, "open-eio", "open-emfile"); k != "" {
		return errCant
	}
	dir, base, n, err := zsim.Disk.Raw(name)
	if err != nil || dir == nil || n != nil && n.Dir {
		return errCant
	}
	created := false
	if n == nil {
		if flags&oCreate == 0 {
			return errCant
		}
		if dir.Mode&0222 == 0 {
			return errCant
		}
		if k := fault("create", name, "create-enospc"); k != "" {
			return errCant
		}
		mut("create", name)
		n = zsim.Disk.CreateRaw(dir, base)
		created = true
	} else if flags&oExclusive != 0 && flags&oCreate != 0 {
		return errCant
	}
	v := nodeOf(n, created)
	if created {
		d := path.Dir(name)
		dirs[d] = append(dirs[d], dirop{path: name, create: true, v: v})
	}
	nextID++
	f := &vfile{id: nextID, name: name, v: v, proc: zsim.CurProc(), isDB: flags&oMainDB != 0, delete: flags&oDelOnClos != 0}
	f.dirsync = flags&oCreate != 0 && flags&(oMainJrnl|oSuperJrnl|oWAL) != 0
	files[f.id] = f
	if f.proc != nil {
		g := gen
		f.proc.OnEnd = append(f.proc.OnEnd, func() {
			if g == gen {
				f.release()
			}
		})
	}
	*id = C.int(f.id)
	*out = flags
	return ok
}

func mut(op, name string) {
	if zsim.Disk.OnMut != nil {
		zsim.Disk.OnMut(op, name, zsim.CurProc())
	}
	if zsim.Tracing() {
		zsim.Log("sqlite %s %s", op, name)
	}
}

// release drops all locks of a handle (its process has ended or it is closed).
func (f *vfile) release() {
	v := f.v
	delete(v.shared, f)
	if v.reserve == f {
		v.reserve = nil
	}
	if v.pend == f {
		v.pend = nil
	}
	if v.excl == f {
		v.excl = nil
	}
	f.level = 0
	f.shmRelease()
}

func (f *vfile) shmRelease() {
	s := f.v.shm
	if s == nil || !s.users[f] {
		return
	}
	for i := range s.ex {
		if s.ex[i] == f {
			s.ex[i] = nil
		}
		delete(s.sh[i], f)
	}
	delete(s.users, f)
	if len(s.users) == 0 {
		f.v.shm = nil // the memory is freed at the end of the run
	}
}

func get(id C.int) *vfile { return files[int(id)] }

//export zvClose
func zvClose(id C.int) C.int {
	f := get(id)
	if f == nil {
		return ok
	}
	dead := enter(61)
	f.release()
	f.closed = true
	delete(files, int(id))
	if f.delete && !dead {
		if dir, base, n, err := zsim.Disk.Raw(f.name); err == nil && n == f.v.n {
			zsim.Disk.UnlinkRaw(dir, base, n)
		}
	}
	return ok
}

//export zvRead
func zvRead(id C.int, p unsafe.Pointer, n C.int, off C.longlong) C.int {
	f := get(id)
	if f == nil || enter(62) {
		return ioRead
	}
	if k := fault("read", f.name, "read-eio"); k != "" {
		return ioRead
	}
	buf := unsafe.Slice((*byte)(p), int(n))
	data := f.v.n.Data
	got := 0
	if int64(off) < int64(len(data)) {
		got = copy(buf, data[off:])
	}
	if got < len(buf) {
		for i := got; i < len(buf); i++ {
			buf[i] = 0
		}
		return ioShort
	}
	return ok
}

//export zvWrite
func zvWrite(id C.int, p unsafe.Pointer, n C.int, off C.longlong) C.int {
	f := get(id)
	if f == nil || enter(63) {
		return ioWrite
	}
	data := append([]byte(nil), unsafe.Slice((*byte)(p), int(n))...)
	k := fault("write", f.name, "write-eio", "write-enospc", "write-short")
	grow := int64(off) + int64(n) - int64(len(f.v.n.Data))
	if k == "" && zsim.Disk.Capacity > 0 && grow > 0 && zsim.Disk.Used()+grow > zsim.Disk.Capacity {
		k = "write-enospc"
		zsim.CountFault("disk-full")
	}
	switch {
	case k == "write-short": // part of it gets there
		data = data[:len(data)/2]
	case k == "write-enospc":
		return errFull
	case k != "":
		return ioWrite
	}
	mut("write", f.name)
	zsim.Disk.WriteRaw(f.v.n, data, int64(off))
	f.v.pending = append(f.v.pending, wop{off: int64(off), data: data, trunc: -1})
	if k != "" {
		return ioWrite
	}
	return ok
}

//export zvTruncate
func zvTruncate(id C.int, n C.longlong) C.int {
	f := get(id)
	if f == nil || enter(64) {
		return ioTruncate
	}
	if k := fault("truncate", f.name, "truncate-eio"); k != "" {
		return ioTruncate
	}
	mut("truncate", f.name)
	zsim.Disk.TruncateRaw(f.v.n, int64(n))
	f.v.pending = append(f.v.pending, wop{trunc: int64(n)})
	return ok
}

func apply(d []byte, o wop) []byte {
	if o.trunc >= 0 {
		if int64(len(d)) > o.trunc {
			return d[:o.trunc]
		}
		return append(d, make([]byte, o.trunc-int64(len(d)))...)
	}
	if end := o.off + int64(len(o.data)); end > int64(len(d)) {
		d = append(d, make([]byte, end-int64(len(d)))...)
	}
	copy(d[o.off:], o.data)
	return d
}

//export zvSync
func zvSync(id C.int, flags C.int) C.int {
	f := get(id)
	if f == nil || enter(65) {
		return ioFsync
	}
	switch k := fault("sync", f.name, "sync-eio", "slow-disk"); k {
	case "":
	case "slow-disk": // much longer than others are willing to wait
		zsim.SleepInC(12e9)
		if enter(65) {
			return ioFsync
		}
	default:
		return ioFsync
	}
	Syncs++
	if zsim.Tracing() {
		zsim.Log("sqlite sync %s", f.name)
	}
	for _, o := range f.v.pending {
		f.v.durable = apply(f.v.durable, o)
	}
	f.v.pending = nil
	if f.dirsync {
		f.dirsync = false
		delete(dirs, path.Dir(f.name))
	}
	return ok
}

//export zvSize
func zvSize(id C.int, out *C.longlong) C.int {
	f := get(id)
	if f == nil || enter(66) {
		return errIO
	}
	*out = C.longlong(len(f.v.n.Data))
	return ok
}

// The lock states of SQLite's unix VFS: 1 shared, 2 reserved, 3 pending, 4 exclusive.
//
//export zvLock
func zvLock(id C.int, l C.int) C.int {
	f := get(id)
	if f == nil || enter(67) {
		return ioLock
	}
	if k := fault("lock", f.name, "lock-eio"); k != "" {
		return ioLock
	}
	v := f.v
	want := int(l)
	if f.level >= want {
		return ok
	}
	if zsim.Tracing() {
		defer func() { zsim.Log("sqlite lock %d -> level %d", want, f.level) }()
	}
	switch want {
	case 1:
		if v.pend != nil || v.excl != nil {
			return errBusy
		}
		v.shared[f] = true
		f.level = 1
	case 2:
		if v.reserve != nil && v.reserve != f {
			return errBusy
		}
		v.reserve = f
		f.level = 2
	default:
		if v.pend != nil && v.pend != f || v.reserve != nil && v.reserve != f {
			return errBusy
		}
		v.pend = f
		if f.level < 3 {
			f.level = 3
		}
		for o := range v.shared {
			if o != f {
				return errBusy
			}
		}
		v.excl = f
		f.level = 4
	}
	return ok
}

//export zvUnlock
func zvUnlock(id C.int, l C.int) C.int {
	f := get(id)
	if f == nil {
		return ioUnlock
	}
	enter(68) // a dead process has lost its locks anyway
	v := f.v
	if int(l) >= f.level {
		return ok
	}
	if v.excl == f {
		v.excl = nil
	}
	if v.pend == f {
		v.pend = nil
	}
	if v.reserve == f {
		v.reserve = nil
	}
	if int(l) == 0 {
		delete(v.shared, f)
	}
	f.level = int(l)
	return ok
}

//export zvCheckReserved
func zvCheckReserved(id C.int, out *C.int) C.int {
	f := get(id)
	*out = 0
	if f == nil || enter(69) {
		return ioLock
	}
	if f.v.reserve != nil {
		*out = 1
	}
	return ok
}

//export zvShmMap
func zvShmMap(id C.int, pg, sz, ext C.int, out *unsafe.Pointer) C.int {
	f := get(id)
	*out = nil
	if f == nil || enter(70) {
		return errIO
	}
	s := f.v.shm
	if s == nil {
		s = &shm{users: map[*vfile]bool{}}
		for i := range s.sh {
			s.sh[i] = map[*vfile]bool{}
		}
		shms = append(shms, s)
		f.v.shm = s
	}
	s.users[f] = true
	for len(s.regions) <= int(pg) {
		if ext == 0 {
			return ok
		}
		p := C.malloc(C.size_t(sz))
		C.memset(p, 0, C.size_t(sz))
		s.regions = append(s.regions, p)
	}
	*out = s.regions[pg]
	return ok
}

//export zvShmLock
func zvShmLock(id C.int, off, n, flags C.int) C.int {
	f := get(id)
	if f == nil {
		return errIO
	}
	dead := enter(71)
	s := f.v.shm
	if s == nil {
		return ok
	}
	const unlock, shared = 1, 4
	for i := int(off); i < int(off+n); i++ {
		if flags&unlock != 0 {
			delete(s.sh[i], f)
			if s.ex[i] == f {
				s.ex[i] = nil
			}
			continue
		}
		if dead {
			return errIO
		}
		if s.ex[i] != nil && s.ex[i] != f {
			return errBusy
		}
		if flags&shared == 0 {
			for o := range s.sh[i] {
				if o != f {
					return errBusy
				}
			}
		}
	}
	if flags&unlock == 0 {
		for i := int(off); i < int(off+n); i++ {
			if flags&shared != 0 {
				s.sh[i][f] = true
			} else {
				s.ex[i] = f
			}
		}
	}
	return ok
}

//export zvShmBarrier
func zvShmBarrier(id C.int) {}

//export zvShmUnmap
func zvShmUnmap(id C.int, del C.int) C.int {
	if f := get(id); f != nil {
		f.shmRelease()
	}
	return ok
}

//export zvDelete
func zvDelete(cname *C.char, dirsync C.int) C.int {
	if enter(72) {
		return ioDelete
	}
	name := C.GoString(cname)
	if k := fault("remove", name, "remove-eio"); k != "" {
		return ioDelete
	}
	dir, base, n, err := zsim.Disk.Raw(name)
	if err != nil || n == nil {
		return ioDelNoent
	}
	mut("remove", name)
	zsim.Disk.UnlinkRaw(dir, base, n)
	d := path.Dir(name)
	dirs[d] = append(dirs[d], dirop{path: name, v: nodeOf(n, false)})
	if dirsync != 0 {
		delete(dirs, d)
	}
	return ok
}

//export zvAccess
func zvAccess(cname *C.char, flags C.int, out *C.int) C.int {
	*out = 0
	if enter(73) {
		return ioAccess
	}
	_, _, n, err := zsim.Disk.Raw(C.GoString(cname))
	if err != nil || n == nil {
		return ok
	}
	if flags == 0 && !n.Dir && len(n.Data) == 0 {
		return ok // as in SQLite's unix VFS: an empty file does not exist
	}
	*out = 1
	return ok
}

//export zvFull
func zvFull(cname *C.char, n C.int, out *C.char) C.int {
	name := zsim.Abs(C.GoString(cname))
	if len(name) >= int(n) {
		return errCant
	}
	b := unsafe.Slice((*byte)(unsafe.Pointer(out)), int(n))
	copy(b, name)
	b[len(name)] = 0
	return ok
}

//export zvRandom
func zvRandom(n C.int, out *C.char) {
	b := unsafe.Slice((*byte)(unsafe.Pointer(out)), int(n))
	for i := range b {
		rnd = rnd*6364136223846793005 + 1442695040888963407
		b[i] = byte(rnd >> 33)
	}
}

//export zvSleep
func zvSleep(us C.int) {
	if zsim.Active() {
		zsim.SleepInC(int64(us) * 1000)
	}
}

//export zvTime
func zvTime() C.longlong {
	return C.longlong(zsim.WallNow()/1e6 + 210866760000000)
}

// PowerLoss puts the files of the databases into a state that a power failure may leave: for each
// file the synced contents plus some of the unsynced writes (possibly torn at sector boundaries),
// and of the unsynced directory changes some first ones. All processes must be dead.
func PowerLoss() {
	gen++
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		ops := dirs[d]
		keep := zsim.Env(len(ops) + 1)
		if zsim.Tracing() {
			zsim.Log("power failure: %d of %d directory changes in %s survive", keep, len(ops), d)
		}
		for i := len(ops) - 1; i >= keep; i-- {
			o := ops[i]
			dir, base, n, err := zsim.Disk.Raw(o.path)
			if err != nil || dir == nil {
				continue
			}
			if o.create {
				if n != nil {
					zsim.Disk.UnlinkRaw(dir, base, n)
				}
			} else {
				if n != nil {
					zsim.Disk.UnlinkRaw(dir, base, n)
				}
				dir.Kids[base] = o.v.n
				o.v.n.Nlink++
			}
		}
	}
	dirs = map[string][]dirop{}
	var vs []*vnode
	for _, v := range vnodes {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].n.ID < vs[j].n.ID })
	for _, v := range vs {
		d := append([]byte(nil), v.durable...)
		lost := 0
		mode := 0
		if len(v.pending) > 0 {
			mode = zsim.Env(4) // 0 nothing, 1 a prefix, 2 any, 3 all
		}
		cut := 0
		if mode == 1 {
			cut = zsim.Env(len(v.pending) + 1)
		}
		for i, o := range v.pending {
			keep := mode == 3 || mode == 1 && i < cut || mode == 2 && zsim.Env(2) == 1
			if !keep {
				lost++
				if mode == 2 && o.trunc < 0 && len(o.data) > 512 && zsim.Env(3) == 1 { // torn
					n := 512 * (1 + zsim.Env(len(o.data)/512))
					if n < len(o.data) {
						d = apply(d, wop{off: o.off, data: o.data[:n], trunc: -1})
					}
				}
				continue
			}
			d = apply(d, o)
		}
		if zsim.Tracing() && len(v.pending) > 0 {
			zsim.Log("power failure: %d of %d writes to file %d are lost", lost, len(v.pending), v.n.ID)
		}
		zsim.Disk.TruncateRaw(v.n, 0)
		zsim.Disk.WriteRaw(v.n, d, 0)
		v.durable, v.pending = d, nil
		v.shared, v.reserve, v.pend, v.excl, v.shm = map[*vfile]bool{}, nil, nil, nil, nil
	}
	for _, f := range files {
		f.level = 0
	}
}

// Files lists the database-related files below a directory (for the oracles).
func Files(dir string) (out []string) {
	for name := range zsim.Disk.Tree(dir) {
		if strings.Contains(path.Base(name), "hash.db") {
			out = append(out, name)
		}
	}
	sort.Strings(out)
	return
}

var _ = fs.ModeDir
