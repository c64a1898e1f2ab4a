// A SQLite VFS whose files live in the simulated file system; every method calls into Go.
#include "sqlite3-binding.h"
#include <string.h>
#include "_cgo_export.h"

typedef struct { sqlite3_file base; int id; } sf;

static int fClose(sqlite3_file *f) { return zvClose(((sf*)f)->id); }
static int fRead(sqlite3_file *f, void *p, int n, sqlite3_int64 off) { return zvRead(((sf*)f)->id, p, n, off); }
static int fWrite(sqlite3_file *f, const void *p, int n, sqlite3_int64 off) { return zvWrite(((sf*)f)->id, (void*)p, n, off); }
static int fTruncate(sqlite3_file *f, sqlite3_int64 n) { return zvTruncate(((sf*)f)->id, n); }
static int fSync(sqlite3_file *f, int flags) { return zvSync(((sf*)f)->id, flags); }
static int fSize(sqlite3_file *f, sqlite3_int64 *n) { long long v = 0; int rc = zvSize(((sf*)f)->id, &v); *n = v; return rc; }
static int fLock(sqlite3_file *f, int l) { return zvLock(((sf*)f)->id, l); }
static int fUnlock(sqlite3_file *f, int l) { return zvUnlock(((sf*)f)->id, l); }
static int fCheck(sqlite3_file *f, int *r) { return zvCheckReserved(((sf*)f)->id, r); }
static int fControl(sqlite3_file *f, int op, void *p) {
	if (op == SQLITE_FCNTL_LOCKSTATE) { *(int*)p = 0; return SQLITE_OK; }
	return SQLITE_NOTFOUND;
}
static int fSector(sqlite3_file *f) { return 512; }
static int fChar(sqlite3_file *f) { return SQLITE_IOCAP_POWERSAFE_OVERWRITE; }
static int fShmMap(sqlite3_file *f, int pg, int sz, int ext, void volatile **pp) {
	void *p = 0; int rc = zvShmMap(((sf*)f)->id, pg, sz, ext, &p); *pp = p; return rc;
}
static int fShmLock(sqlite3_file *f, int off, int n, int flags) { return zvShmLock(((sf*)f)->id, off, n, flags); }
static void fShmBarrier(sqlite3_file *f) { zvShmBarrier(((sf*)f)->id); }
static int fShmUnmap(sqlite3_file *f, int del) { return zvShmUnmap(((sf*)f)->id, del); }

static const sqlite3_io_methods methods = {
	2, fClose, fRead, fWrite, fTruncate, fSync, fSize, fLock, fUnlock, fCheck, fControl, fSector, fChar,
	fShmMap, fShmLock, fShmBarrier, fShmUnmap
};

static int vOpen(sqlite3_vfs *v, const char *name, sqlite3_file *f, int flags, int *out) {
	int id = 0, o = flags;
	f->pMethods = 0;
	int rc = zvOpen((char*)name, flags, &id, &o);
	if (rc == SQLITE_OK) {
		((sf*)f)->id = id;
		f->pMethods = &methods;
		if (out) *out = o;
	}
	return rc;
}
static int vDelete(sqlite3_vfs *v, const char *name, int dirsync) { return zvDelete((char*)name, dirsync); }
static int vAccess(sqlite3_vfs *v, const char *name, int flags, int *out) { return zvAccess((char*)name, flags, out); }
static int vFull(sqlite3_vfs *v, const char *name, int n, char *out) { return zvFull((char*)name, n, out); }
static int vRandom(sqlite3_vfs *v, int n, char *out) { zvRandom(n, out); return n; }
static int vSleep(sqlite3_vfs *v, int us) { zvSleep(us); return us; }
static int vTime(sqlite3_vfs *v, double *t) { long long ms = zvTime(); *t = ms / 86400000.0; return SQLITE_OK; }
static int vTime64(sqlite3_vfs *v, sqlite3_int64 *t) { *t = zvTime(); return SQLITE_OK; }
static int vErr(sqlite3_vfs *v, int n, char *out) { return 0; }

static sqlite3_vfs vfs = {
	2, sizeof(sf), 1024, 0, "zsim", 0, vOpen, vDelete, vAccess, vFull, 0, 0, 0, 0, vRandom, vSleep, vTime, vErr, vTime64
};

int zvRegister(void) {
	int rc = sqlite3_initialize();
	if (rc != SQLITE_OK) return rc;
	return sqlite3_vfs_register(&vfs, 1);
}
void zvReseed(void) { sqlite3_randomness(0, 0); }
