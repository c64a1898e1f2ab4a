//go:build go1.22

package main

import (
	"context"
	"fmt"
	"path"
	rtime "time"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
	"github.com/bobg/fab/zsim"
	zcontext "github.com/bobg/fab/zsim/shim/context"
	"github.com/bobg/fab/zsim/vfs"
)

// The hash-database world: the real database package over the real SQLite, whose files, locks,
// sleeps and clock are simulated.

type dbop struct {
	add    bool
	key    int
	start  int64 // step order
	end    int64 // 1<<62 while unfinished
	w0, w1 int64 // wall clock at start and end (lowest and highest reading in between)
	ok     bool
	res    bool
}

type dbworld struct {
	file    string
	keep    int64 // ns; 0: no retention
	refresh bool
	viaFab  bool
	keys    [][]byte
	ops     []*dbop
	seq     int64
	faulty  bool
	wide    bool // many keys
}

const never = int64(1) << 62

func (w *dbworld) tick() int64 { w.seq++; return w.seq }

func (w *dbworld) open() (*sqlite.DB, error) {
	if w.viaFab {
		return fab.OpenHashDB(path.Dir(w.file))
	}
	var o []sqlite.Option
	if w.keep > 0 {
		o = append(o, sqlite.Keep(rtime.Duration(w.keep)))
	}
	if !w.refresh || zsim.GenBool(1, 2) {
		o = append(o, sqlite.UpdateOnAccess(w.refresh))
	}
	return sqlite.Open(w.file, o...)
}

func (w *dbworld) touchesBefore(key int, x *dbop) (ts []*dbop) {
	for _, o := range w.ops {
		if o == x || o.key != key {
			continue
		}
		// a Has that failed or was cut short may have refreshed the entry as well
		if o.add || w.refresh && (o.res || !o.ok) {
			ts = append(ts, o)
		}
	}
	return
}

// judge decides whether the answer of a completed Has is one that a set with last-access expiry may give.
func (w *dbworld) judge(x *dbop) {
	ts := w.touchesBefore(x.key, x)
	if x.res {
		ever := false
		for _, o := range w.ops {
			if o.add && o.key == x.key && o.start < x.end {
				ever = true
			}
		}
		if !ever {
			viol("P11 P12", "phantom", "Has reports hash %d, which was never added", x.key)
		}
		if w.keep == 0 {
			return
		}
		last, lastEnd := int64(-1), int64(-1)
		for _, o := range ts {
			if o.start >= x.end {
				continue
			}
			if o.w1 > last {
				last = o.w1
			}
			if o.end > lastEnd {
				lastEnd = o.end
			}
		}
		for _, e := range w.ops {
			if e.add && e.ok && e.key != x.key && e.start > lastEnd && e.end < x.start && e.w0 > last+w.keep+1e9 {
				viol("P11", "not-expired", "hash %d is still there although it was last touched at most at %s and an Add ran at %s (retention %s)",
					x.key, clockStr(last), clockStr(e.w0), rtime.Duration(w.keep))
			}
		}
		return
	}
	// the answer is no
	var done []*dbop
	for _, o := range ts {
		if o.ok && (o.add || o.res) && o.end < x.start {
			done = append(done, o)
		}
	}
	if len(done) == 0 {
		return
	}
	lower, from := int64(1)<<62, int64(1)<<62
	for _, o := range ts {
		before := false
		for _, c := range done {
			before = before || c.start > o.end
		}
		if before || o.start > x.end {
			continue
		}
		if o.w0 < lower {
			lower = o.w0
		}
		if o.start < from {
			from = o.start
		}
	}
	if w.keep > 0 {
		for _, e := range w.ops {
			if e.add && e.end > from && e.start < x.end && e.w1-lower >= w.keep {
				return // that Add may have evicted it
			}
		}
	}
	viol("P11 P12", "lost", "Has does not find hash %d, which was added or refreshed at %s or later; it is %s now (retention %s, %d power failures or crashes so far)",
		x.key, clockStr(lower), clockStr(x.w0), rtime.Duration(w.keep), crashes)
}

var crashes int

func clockStr(t int64) string {
	return fmt.Sprintf("+%.3fs", float64(t-zsim.Epoch)/1e9)
}

func (w *dbworld) do(ctx context.Context, db *sqlite.DB, add bool, key int) {
	o := &dbop{add: add, key: key, start: w.tick(), end: never, w0: zsim.WallNow(), w1: never}
	w.ops = append(w.ops, o)
	f0 := zsim.FaultsUsed()
	var err error
	if add {
		err = db.Add(ctx, w.keys[key])
	} else {
		o.res, err = db.Has(ctx, w.keys[key])
	}
	o.end, o.w1 = w.tick(), zsim.WallNow()
	o.ok = err == nil
	if zsim.Tracing() {
		zsim.Log("%s(%d) = %v, %v", map[bool]string{true: "Add", false: "Has"}[add], key, o.res, err)
	}
	if err != nil {
		o.res = false
		if ctx.Err() == nil && f0 == zsim.FaultsUsed() && !w.faulty {
			viol("P11 P12", "error", "the database reports an error although nothing went wrong: %v", err)
		}
		return
	}
	if !add {
		w.judge(o)
	}
}

// drop marks the unfinished operations of a dead process as over.
func (w *dbworld) drop() {
	s := w.tick()
	for _, o := range w.ops {
		if o.end == never {
			o.end, o.w1 = s, zsim.WallNow()
			o.ok, o.res = false, false
		}
	}
}

type dbopt struct {
	crash, power, faults, clock, cancel, slow bool
}

func dbRun(opt dbopt) func() {
	return func() {
		w := &dbworld{file: "/root/.cache/fab/hash.db", refresh: zsim.GenBool(1, 2)}
		crashes = 0
		switch zsim.Gen(4) {
		case 1:
			w.keep = int64(1+zsim.Gen(60)) * 1e9
		case 2:
			w.keep = int64(1+zsim.Gen(60)) * 3600e9
		case 3:
			w.viaFab, w.keep, w.refresh = true, 30*24*3600e9, true
		}
		if !w.viaFab {
			zsim.Disk.MkDirs(path.Dir(w.file))
		}
		nk := 1 + zsim.Gen(5)
		if zsim.GenBool(1, 60) { // more than fits one page of the file
			nk = 100 + zsim.Gen(250)
			w.wide = true
			zsim.AllowSteps(int64(nk) * 4000)
			zsim.Probe("many hashes")
		}
		for i := 0; i < nk; i++ {
			n := pick(28, 28, 1, 4, 64)
			b := make([]byte, n)
			for j := range b {
				b[j] = byte(zsim.Gen(256))
			}
			b[0] = byte(i * 7) // distinct, and text-like or not
			if zsim.GenBool(1, 4) {
				b = []byte(fmt.Sprintf("%d", i*100))
			}
			if i > 0 && zsim.GenBool(1, 5) { // one that begins like another
				b = append(append([]byte(nil), w.keys[i-1]...), byte(i))
			}
			for _, k := range w.keys {
				if string(k) == string(b) {
					b = append(b, byte(200+i), byte(i>>8))
				}
			}
			w.keys = append(w.keys, b)
		}
		rounds := 1 + zsim.Gen(4)
		if opt.crash || opt.power {
			rounds++
		}
		zsim.SetFaults(zsim.FaultPlan{Num: 1, Den: pick(20, 60, 200, 1000), Max: 1 + zsim.Gen(4), Kinds: map[string]bool{
			"open-eio": true, "open-emfile": true, "create-enospc": true, "read-eio": true, "write-eio": true, "write-enospc": true,
			"write-short": true, "slow-disk": true, "truncate-eio": true, "sync-eio": true, "lock-eio": true, "remove-eio": true}}, false)
		if opt.slow {
			zsim.SetFaults(zsim.FaultPlan{Num: 1, Den: pick(2, 4, 10), Max: 1 + zsim.Gen(4), Kinds: map[string]bool{"slow-disk": true}}, false)
		}
		zsim.Disk.FaultPath = func(op, name string) bool { return path.Dir(name) == path.Dir(w.file) }
		for r := 0; r < rounds; r++ {
			nproc := 1
			if zsim.GenBool(1, 2) {
				nproc = 2 + zsim.Gen(2)
			}
			w.faulty = opt.faults && zsim.GenBool(2, 3)
			zsim.FaultsOn(w.faulty)
			var ps []*zsim.Proc
			var db2 *zsim.Task
			over := false
			for i := 0; i < nproc; i++ {
				p := zsim.NewProc(sname("p", i), nil)
				p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
				p.Faulty = w.faulty
				ps = append(ps, p)
				plan := w.plan(opt)
				p.Start(func() { w.process(plan, opt) })
			}
			if opt.clock {
				db2 = zsim.GoNamed("clock", func() {
					for n := zsim.Gen(4); n > 0 && !over; n-- {
						for k := zsim.Gen(200); k > 0 && !over; k-- {
							zsim.Yield(1201)
						}
						w.shift(opt)
					}
				})
			}
			crash := (opt.crash || opt.power) && zsim.GenBool(4, 5)
			if crash {
				at := int64(1 + zsim.Gen(pick(60, 300, 900)))
				victim := ps[zsim.Gen(len(ps))]
				power := opt.power && (!opt.crash || zsim.GenBool(1, 2))
				zsim.KillAfter(victim, at, func(*zsim.Proc) {
					if power {
						for _, p := range ps {
							p.Kill("power failure")
						}
						zsim.CountFault("power-failure")
					} else {
						victim.Kill("crash")
						zsim.CountFault("crash")
					}
					crashes++
				})
				for _, p := range ps {
					p.Wait()
				}
				zsim.CancelKill()
				if power && crashes > 0 && victim.Killed {
					vfs.PowerLoss()
				}
			}
			for _, p := range ps {
				p.Wait()
				if p.Panic != "" {
					zsim.Fail("panic", "%s", p.Panic)
				}
			}
			over = true
			if db2 != nil {
				db2.Join()
			}
			w.drop()
			if opt.clock && zsim.GenBool(1, 2) {
				w.shift(opt)
			}
		}
		// in the end everything is undisturbed
		zsim.FaultsOn(false)
		w.faulty = false
		p := zsim.NewProc("last", nil)
		p.Stdout, p.Stderr = &zsim.Sink{}, &zsim.Sink{}
		p.Start(func() {
			ctx := context.Background()
			db, err := w.open()
			if err != nil {
				viol("P11 P12", "unusable", "the database cannot be opened: %v", err)
				return
			}
			for k := range w.keys {
				w.do(ctx, db, false, k)
			}
			k := zsim.Gen(len(w.keys))
			w.do(ctx, db, true, k)
			for k := range w.keys {
				w.do(ctx, db, false, k)
			}
			if err := db.Close(); err != nil {
				viol("P11 P12", "error", "closing the database: %v", err)
			}
		})
		p.Wait()
		if p.Panic != "" {
			zsim.Fail("panic", "%s", p.Panic)
		}
	}
}

func (w *dbworld) shift(opt dbopt) {
	d := w.keep
	if d == 0 {
		d = 3600e9
	}
	switch zsim.Gen(6) {
	case 4: // a small part of the retention
		d = d * int64(1+zsim.Gen(29)) / int64(pick(30, 100, 1000))
	case 5: // most of it
		d -= d * int64(1+zsim.Gen(20)) / int64(pick(100, 500, 5000))
	case 0:
		d = d/2 + int64(zsim.Gen(3))*1e9
	case 1:
		d = d + int64(zsim.Gen(5))*1e9
	case 2:
		d = int64(zsim.Gen(5000)) * 1e6
	case 3:
		d = d * int64(1+zsim.Gen(4))
	}
	zsim.AdvanceWall(d)
	zsim.CountFault("clock-jump")
}

type dbplan struct {
	tasks [][][2]int // operation (0 Has, 1 Add, 2 sleep), argument
	close bool
}

func (w *dbworld) plan(opt dbopt) (pl dbplan) {
	for t := 1 + zsim.Gen(3); t > 0; t-- {
		var ops [][2]int
		if w.wide && zsim.GenBool(1, 3) {
			k, what := zsim.Gen(len(w.keys)), zsim.Gen(3)/2
			for n := zsim.Gen(len(w.keys)); n > 0; n-- {
				ops = append(ops, [2]int{1 - what, (k + n) % len(w.keys)})
			}
		}
		for n := 1 + zsim.Gen(5); n > 0; n-- {
			switch k := zsim.Gen(7); {
			case k < 3:
				ops = append(ops, [2]int{1, zsim.Gen(len(w.keys))})
			case k < 6:
				ops = append(ops, [2]int{0, zsim.Gen(len(w.keys))})
			default:
				ops = append(ops, [2]int{2, zsim.Gen(4000)})
			}
		}
		pl.tasks = append(pl.tasks, ops)
	}
	pl.close = zsim.GenBool(3, 4)
	return
}

func (w *dbworld) process(pl dbplan, opt dbopt) {
	ctx := context.Background()
	f0 := zsim.FaultsUsed()
	db, err := w.open()
	if err != nil {
		if !w.faulty && f0 == zsim.FaultsUsed() {
			viol("P11 P12", "unusable", "the database cannot be opened: %v", err)
		}
		return
	}
	var ts []*zsim.Task
	for i, ops := range pl.tasks {
		ops := ops
		ctx1 := ctx
		if opt.cancel && i == 0 {
			c, cancel := zcontext.WithCancel(ctx)
			ctx1 = c
			n := zsim.Gen(120)
			zsim.GoNamed("canceller", func() {
				for ; n > 0; n-- {
					zsim.Yield(1202)
				}
				cancel()
			}).Daemon()
		}
		ts = append(ts, zsim.GoNamed(sname("t", i), func() {
			for _, op := range ops {
				if op[0] == 2 {
					zsim.Sleep(int64(op[1]) * 1e6)
					continue
				}
				w.do(ctx1, db, op[0] == 1, op[1])
			}
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	if pl.close {
		if err := db.Close(); err != nil && !w.faulty {
			viol("P11 P12", "error", "closing the database: %v", err)
		}
	}
}

var dbReal = []string{"sqlite/db.go and schema.sql: the code of /repo, compiled from the working tree", "database/sql, github.com/mattn/go-sqlite3 and the SQLite library it contains: the real ones, unmodified"}
var dbStub = []string{"SQLite's operating-system layer (files, locks, shared memory, sleep, clock, randomness): a VFS on the simulated file system", "scheduler, processes, clock, power failures: simulated", "cancellation of a database call and limits on the number of connections: modelled in the database/sql wrapper"}

func init() {
	d := func(id, name string, weight int, o dbopt) scenario {
		return scenario{name: name, weight: weight, maxSteps: 400000, fn: forProp(id, dbRun(o)), post: only("deadlock", "step-budget")}
	}
	register(&check{id: "P11", scenarios: []scenario{
		d("P11", "concurrent", 4, dbopt{}),
		d("P11", "clock", 5, dbopt{clock: true}),
		d("P11", "cancel", 1, dbopt{clock: true, cancel: true}),
		d("P11", "crash", 1, dbopt{clock: true, crash: true}),
		d("P11", "faults", 1, dbopt{clock: true, faults: true}),
		d("P11", "slow", 2, dbopt{faults: true, slow: true}),
	}, real: dbReal, stub: dbStub, assume: []string{"the wall clock does not run backwards", "processes sharing a database use the same retention options"},
		rule: "Each run draws retention, refresh and keys (also ones that begin alike), and rounds of up to three processes with up to three goroutines each doing Has, Add and sleeps on one database file under a drawn schedule of SQLite's file operations and locks, with clock jumps around the retention time; every answer of Has is compared with the history of the run: what must be there, what must not."})
	register(&check{id: "P12", scenarios: []scenario{
		d("P12", "crash", 3, dbopt{crash: true}),
		d("P12", "power", 4, dbopt{power: true}),
		d("P12", "mixed", 3, dbopt{crash: true, power: true, clock: true}),
		d("P12", "slow", 1, dbopt{crash: true, faults: true, slow: true}),
		d("P12", "faults", 2, dbopt{crash: true, power: true, faults: true}),
	}, real: dbReal, stub: dbStub, assume: []string{"a power failure keeps what fsync has confirmed, loses or keeps each later write (torn at 512-byte sectors), and keeps some first part of the later directory changes", "an overwrite of a sector does not damage its neighbours (SQLite's powersafe-overwrite assumption, its default on Unix)"},
		rule: "As for P11, with processes killed, and power failures, at a drawn step, I/O errors during some rounds, and a reopening after each; every acknowledged Add must be found, nothing that was never added may be, and the database must open and work."})
}
