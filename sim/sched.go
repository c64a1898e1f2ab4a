//go:build go1.22

// Package zsim is a deterministic simulator for instrumented Go code: real goroutines of which
// exactly one runs at any time, chosen by a seeded scheduler; a simulated clock, file system and
// process table; and seeded fault injection. One seed is one exactly repeatable execution.
package zsim

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

var endAddr byte

const maxTasks = 16384

const (
	stReady = iota
	stBlocked
	stDone
)

// A Waiter is the condition a blocked task waits for. Ready is evaluated by other tasks
// and must not have side effects.
type Waiter interface{ Ready() bool }

type Task struct {
	ID        int
	Name      string
	Proc      *Proc
	wake      chan struct{}
	state     int
	w         Waiter
	deadline  int64 // simulated ns; <0: none
	timedOut  bool
	killed    bool
	unwinding bool
	noYield   int
	inC       int // inside foreign (C) frames: must not be unwound there
	prio      uint64
	daemon    bool
	locals    any
}

// Strategy of the scheduler for one run.
type Strategy struct {
	Kind     int `json:"kind"`      // 0 default order only, 1 random gaps, 2 priorities with change points, 3 hot sites
	Gap      int `json:"gap"`       // mean number of steps between preemptions
	Changes  int `json:"changes"`   // priority change points
	Horizon  int `json:"horizon"`   // assumed run length for change points
	HotSites int `json:"hot_sites"` // number of hot sites
}

type Config struct {
	Seed     uint64
	Strategy Strategy
	MaxSteps int64
	Trace    bool

	Replay bool
	Gen    []int64
	Sched  []Dev
	Fault  []Dev
	Env    []Dev
}

type Result struct {
	Class    string // "" = no violation
	Msg      string
	Steps    int64
	Switches int64
	Hash     uint64 // hash of the interleaving (task, site) at each switch
	SimNanos int64
	Gen      []int64
	Sched    []Dev
	Fault    []Dev
	Env      []Dev
	Log      []string
	Over     bool
	Faults   map[string]int
	Probes   map[string]int
	Tasks    int
}

var (
	active bool
	cur    *Task
	tasks  [maxTasks]*Task
	ntasks int
	lowID  int // all tasks below are done

	steps     int64
	maxSteps  int64
	nextEvent int64
	switches  int64
	trhash    uint64
	lastSite  int
	now       int64 // simulated monotonic ns
	wallSkew  int64 // wall clock = base + now + wallSkew

	strat     Strategy
	hot       [1 << 16]bool
	nhot      int
	changeAt  [16]int64
	nchange   int
	schedS    devStream
	faultS    devStream
	envS      devStream
	genRng    Rng
	genIn     []int64
	genOut    []int64
	genPos    int
	replaying bool
	faultIdx  int64
	envIdx    int64

	readyBuf [maxTasks]*Task
	nready   int

	vClass, vMsg string
	aborting     bool
	tracing      bool
	logLines     []string
	faultCount   map[string]int
	probeCount   map[string]int
	rootDone     chan struct{}
	runSerial    int64

	// SiteCount is the number of instrumented sites; SiteHit records which were reached (over all runs).
	SiteHit [1 << 16]bool
)

// Epoch is the simulated wall-clock time at the start of each run (2024-01-01T00:00:00Z).
const Epoch = 1704067200 * int64(1e9)

//go:norace
func Active() bool { return active }

// P is a scheduling point. The instrumenter inserts a call before every statement.
//
//go:norace
func P(site int) {
	if !active {
		return
	}
	t := cur
	if t.killed {
		if !t.unwinding && t.inC == 0 {
			t.unwinding = true
			runtime.Goexit()
		}
		return
	}
	steps++
	lastSite = site
	SiteHit[site&0xffff] = true
	if steps < nextEvent && !(nhot > 0 && hot[site&0xffff]) {
		return
	}
	if t.noYield > 0 {
		return
	}
	point(t)
}

// Yield is a scheduling point in the simulator's own shims (locks, files, processes),
// taken with more weight than a plain statement.
//
//go:norace
func Yield(site int) {
	if !active {
		return
	}
	t := cur
	if t.killed {
		if !t.unwinding && t.inC == 0 {
			t.unwinding = true
			runtime.Goexit()
		}
		return
	}
	steps++
	lastSite = -site
	if t.noYield > 0 {
		return
	}
	if strat.Kind == 1 && !replaying && nextEvent-steps > 4 && schedS.rng.N(4) == 0 {
		nextEvent = steps
	}
	if steps < nextEvent {
		return
	}
	point(t)
}

// Exiting reports whether the current task is being unwound; shims then do nothing.
//
//go:norace
func Exiting() bool { return active && cur.killed }

// Dead makes the current task unwind if it has been killed and reports whether it is unwinding already.
//
//go:norace
func Dead() bool {
	if !active {
		return false
	}
	if cur.killed {
		if !cur.unwinding && cur.inC == 0 {
			cur.unwinding = true
			runtime.Goexit()
		}
		return true
	}
	return false
}

//go:norace
func planNext() {
	if replaying {
		// find the next recorded step
		if schedS.pos < len(schedS.in) {
			for schedS.pos < len(schedS.in) && schedS.in[schedS.pos].I <= steps {
				schedS.pos++
			}
		}
		if schedS.pos < len(schedS.in) {
			nextEvent = schedS.in[schedS.pos].I
		} else {
			nextEvent = maxSteps
		}
		if nextEvent > maxSteps {
			nextEvent = maxSteps
		}
		if killAt > steps && killAt < nextEvent {
			nextEvent = killAt
		}
		return
	}
	next := maxSteps
	switch strat.Kind {
	case 1:
		g := strat.Gap
		if g < 1 {
			g = 1
		}
		d := int64(1)
		if g > 1 {
			d = 1 + int64(schedS.rng.N(2*g-1))
		}
		next = steps + d
	case 2:
		for i := 0; i < nchange; i++ {
			if changeAt[i] > steps && changeAt[i] < next {
				next = changeAt[i]
			}
		}
	case 3:
		next = steps + 1 + int64(schedS.rng.N(400))
	}
	if next > maxSteps {
		next = maxSteps
	}
	if killAt > steps && killAt < next {
		next = killAt
	}
	nextEvent = next
}

//go:norace
func point(t *Task) {
	if steps >= maxSteps {
		overBudget()
		return
	}
	if killAt > 0 && steps >= killAt {
		killAt = 0
		if killProc != nil && !killProc.Dead {
			p := killProc
			killProc = nil
			onKill(p)
			if t.killed {
				planNext()
				if !t.unwinding && t.inC == 0 {
					t.unwinding = true
					runtime.Goexit()
				}
				return
			}
		}
	}
	collect()
	n := choose(t)
	planNext()
	if n != t {
		switchTo(t, n)
	}
}

//go:norace
func collect() {
	nready = 0
	for lowID < ntasks && tasks[lowID].state == stDone {
		lowID++
	}
	for i := lowID; i < ntasks; i++ {
		t := tasks[i]
		if isReady(t) {
			readyBuf[nready] = t
			nready++
		}
	}
}

//go:norace
func isReady(t *Task) bool {
	switch t.state {
	case stReady:
		return true
	case stBlocked:
		if t.killed {
			return true
		}
		if t.deadline >= 0 && t.deadline <= now {
			return true
		}
		return waiterReady(t.w)
	}
	return false
}

// Complex waiters read simulator state that is not race-annotated.
type Complex interface{ Complex() }

//go:norace
func waiterReady(w Waiter) bool {
	if w == nil {
		return false
	}
	if RaceBuild {
		if _, ok := w.(Complex); ok {
			CoreEnter()
			r := w.Ready()
			CoreExit()
			return r
		}
	}
	return w.Ready()
}

// choose picks the next task among readyBuf. The default is the current task if it is ready,
// otherwise the ready task with the lowest id.
//
//go:norace
func choose(t *Task) *Task {
	if nready == 0 {
		return nil
	}
	// Tasks being unwound run first so that a crash is atomic for everybody else.
	for i := 0; i < nready; i++ {
		if readyBuf[i].killed {
			return readyBuf[i]
		}
	}
	def := readyBuf[0]
	for i := 0; i < nready; i++ {
		if readyBuf[i] == t {
			def = t
		}
	}
	pick := def
	if replaying {
		if v := schedS.lookup(steps); v != 0 {
			for i := 0; i < nready; i++ {
				if int64(readyBuf[i].ID)+1 == v {
					pick = readyBuf[i]
				}
			}
		}
	} else if nready > 1 {
		switch strat.Kind {
		case 1:
			pick = readyBuf[schedS.rng.N(nready)]
		case 2:
			for i := 0; i < nchange; i++ {
				if changeAt[i] > 0 && changeAt[i] <= steps {
					changeAt[i] = -1
					t.prio = uint64(i) // below all initial priorities
				}
			}
			pick = readyBuf[0]
			for i := 1; i < nready; i++ {
				if readyBuf[i].prio > pick.prio {
					pick = readyBuf[i]
				}
			}
		case 3:
			if t.state != stReady || lastSite >= 0 && hot[lastSite&0xffff] && schedS.rng.N(2) == 0 || schedS.rng.N(8) == 0 {
				pick = readyBuf[schedS.rng.N(nready)]
			}
		}
	}
	if pick != def {
		schedS.record(steps, int64(pick.ID)+1)
	}
	return pick
}

//go:norace
func switchTo(from, to *Task) {
	switches++
	trhash = (trhash ^ uint64(to.ID)<<20 ^ uint64(lastSite)) * 0x100000001b3
	if tracing {
		traceSwitch(from, to)
	}
	handTo(to)
	raceDisable()
	<-from.wake
	raceEnable()
	resumed(from)
}

//go:norace
func handTo(to *Task) {
	if to.state == stBlocked {
		to.timedOut = !waiterReady(to.w) && !to.killed
		to.state = stReady
		to.w = nil
		to.deadline = -1
	}
	cur = to
	raceDisable()
	to.wake <- struct{}{}
	raceEnable()
}

//go:norace
func resumed(t *Task) {
	if t.killed && !t.unwinding && t.inC == 0 {
		t.unwinding = true
		runtime.Goexit()
	}
}

// Block suspends the current task until w is ready or the deadline (simulated ns, <0 for none)
// has passed; it reports whether w was ready.
//
//go:norace
func Block(w Waiter, deadline int64) bool {
	t := cur
	if t.killed {
		if t.inC > 0 { // inside foreign (C) frames: do not wait
			return false
		}
		t.unwinding = true
		runtime.Goexit()
	}
	steps++
	if steps >= maxSteps {
		overBudget()
		if t.killed {
			return false
		}
	}
	t.state = stBlocked
	t.w = w
	t.deadline = deadline
	t.timedOut = false
	n := pickOther(t)
	if n == nil {
		return false // aborting
	}
	planNext()
	if n == t {
		t.timedOut = !waiterReady(t.w)
		t.state = stReady
		t.w = nil
		t.deadline = -1
		resumed(t)
		return !t.timedOut
	}
	switchTo(t, n)
	return !t.timedOut
}

// pickOther chooses a ready task, advancing the clock when none is ready.
//
//go:norace
func pickOther(t *Task) *Task {
	for {
		collect()
		if nready > 0 {
			return choose(t)
		}
		var min int64 = -1
		for i := lowID; i < ntasks; i++ {
			x := tasks[i]
			if x.state == stBlocked && x.deadline >= 0 && (min < 0 || x.deadline < min) {
				min = x.deadline
			}
		}
		if min < 0 {
			deadlock()
			continue
		}
		if min > now {
			now = min
		}
	}
}

// deadlock: nobody can run and no timer is pending.
//
//go:norace
func deadlock() {
	if !aborting {
		failNow("deadlock", "no task can run: "+describeBlocked())
	}
	abortAll()
}

//go:norace
// AllowSteps lets this run take n more steps.
func AllowSteps(n int64) { maxSteps += n }

func overBudget() {
	if !aborting {
		failNow("step-budget", fmt.Sprintf("no end after %d steps (livelock or endless recursion): %s", steps, describeBlocked()))
	}
	abortAll()
	resumed(cur)
}

func describeBlocked() string {
	var b strings.Builder
	for i := lowID; i < ntasks; i++ {
		t := tasks[i]
		if t.state == stDone || t.daemon {
			continue
		}
		w := ""
		if t.w != nil {
			w = fmt.Sprintf(" waiting for %T", t.w)
		}
		fmt.Fprintf(&b, "[%s%s]", t.Name, w)
		if b.Len() > 600 {
			b.WriteString("...")
			break
		}
	}
	return b.String()
}

// abortAll kills every task; they unwind one after another and the run ends.
//
//go:norace
func abortAll() {
	aborting = true
	maxSteps = 1 << 62
	nextEvent = 1 << 62
	for i := lowID; i < ntasks; i++ {
		tasks[i].killed = true
	}
}

//go:norace
func failNow(class, msg string) {
	if vClass == "" {
		vClass, vMsg = class, msg
		if tracing {
			Log("VIOLATION %s: %s", class, msg)
		}
	}
}

// Fail records a violation and ends the run.
func Fail(class, format string, args ...any) {
	if !active || cur.killed {
		return
	}
	failNow(class, fmt.Sprintf(format, args...))
	abortAll()
	cur.unwinding = true
	runtime.Goexit()
}

// Failed reports whether a violation has been recorded.
func Failed() bool { return vClass != "" }

// spawn creates a task; the caller continues to hold the token.
//
//go:norace
func spawn(name string, p *Proc, fn func()) *Task {
	if ntasks >= maxTasks {
		if !aborting {
			failNow("task-limit", "too many tasks")
		}
		abortAll()
		cur.unwinding = true
		runtime.Goexit()
	}
	t := &Task{ID: ntasks, Name: name, Proc: p, wake: make(chan struct{}, 1), deadline: -1}
	if !replaying {
		t.prio = 1000 + schedS.rng.Next()%(1<<40)
	}
	tasks[ntasks] = t
	ntasks++
	if p != nil {
		p.live++
	}
	go taskMain(t, fn)
	return t
}

//go:norace
func taskMain(t *Task, fn func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer taskEnd(t)
	if t.killed {
		t.unwinding = true
		return
	}
	fn()
}

//go:norace
func taskEnd(t *Task) {
	if r := recover(); r != nil {
		if !t.killed {
			taskPanic(t, r)
		}
	}
	t.unwinding = true
	t.state = stDone
	Release(unsafe.Pointer(&endAddr))
	if t.Proc != nil {
		t.Proc.live--
		if t.Proc.live == 0 {
			t.Proc.ended()
		}
	}
	// pass the token on
	steps++
	if t.ID == 0 {
		// root finished: unwind everybody else, then stop
		abortAll()
		t.killed = true
	}
	for {
		collect()
		if nready > 0 {
			n := choose(t)
			planNext()
			if tracing {
				traceSwitch(t, n)
			}
			trhash = (trhash ^ uint64(n.ID)<<20 ^ uint64(lastSite)) * 0x100000001b3
			handTo(n)
			return
		}
		alive := false
		var min int64 = -1
		for i := lowID; i < ntasks; i++ {
			x := tasks[i]
			if x.state != stDone {
				alive = true
			}
			if x.state == stBlocked && x.deadline >= 0 && (min < 0 || x.deadline < min) {
				min = x.deadline
			}
		}
		if !alive {
			raceDisable()
			close(rootDone)
			raceEnable()
			return
		}
		if min >= 0 {
			if min > now {
				now = min
			}
			continue
		}
		deadlock()
	}
}

func taskPanic(t *Task, r any) {
	msg := fmt.Sprint(r)
	if x, ok := r.(ToolError); ok {
		fmt.Fprintf(os.Stderr, "simulator: %s\n%s\n", string(x), debug.Stack())
		os.Exit(2)
	}
	st := panicSite(string(debug.Stack()))
	if t.Proc != nil {
		// an unrecovered panic ends the simulated process
		t.Proc.Panic = msg + " at " + st
		if tracing {
			Log("panic in %s: %s at %s", t.Name, msg, st)
		}
		t.Proc.exit(2)
		return
	}
	failNow("panic", msg+" at "+st)
	abortAll()
}

// ToolError is a panic value for trouble in the simulator or harness itself: the worker then
// exits with status 2, never with a violation.
type ToolError string

func Bug(format string, args ...any) { panic(ToolError(fmt.Sprintf(format, args...))) }

// panicSite extracts the first function of the code under test from a stack trace.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/bobg/fab") && !strings.HasPrefix(l, "github.com/bobg/fab/zsim") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/bobg/")
		}
	}
	return "?"
}

// Go starts a task in the current process (the instrumented form of the go statement).
func Go(fn func()) {
	if !active {
		go fn()
		return
	}
	if Dead() {
		return
	}
	GoNamed("", fn)
	Yield(1)
}

//go:norace
func GoNamed(name string, fn func()) *Task {
	t := spawn(name, cur.Proc, fn)
	if name == "" {
		t.Name = fmt.Sprintf("g%d", t.ID)
		if t.Proc != nil {
			t.Name = t.Proc.Name + "/" + t.Name
		}
	}
	return t
}

// Daemon marks a task that does not keep anything waiting.
func (t *Task) Daemon() { t.daemon = true }

type taskDone struct{ t *Task }

//go:norace
func (w taskDone) Ready() bool { return w.t.state == stDone }

// Join waits for a task to end.
func (t *Task) Join() {
	for t.state != stDone {
		Block(taskDone{t}, -1)
	}
}

// JoinUntil is Join with a deadline; it tells whether the task has ended.
func (t *Task) JoinUntil(deadline int64) bool {
	for t.state != stDone && now < deadline {
		if !Block(taskDone{t}, deadline) && cur.killed {
			break
		}
	}
	return t.state == stDone
}

//go:norace
func (t *Task) Done() bool { return t.state == stDone }

//go:norace
func Cur() *Task { return cur }

// NoYield brackets code in which the current task must not be switched away from.
//
//go:norace
func NoYield(f func()) {
	t := cur
	t.noYield++
	f()
	t.noYield--
}

// Sleep suspends the current task for d simulated nanoseconds.
func Sleep(d int64) {
	if !active || Dead() {
		return
	}
	if d <= 0 {
		Yield(2)
		return
	}
	Block(nil, now+d)
}

//go:norace
func Now() int64 { return now }

// WallNow is the simulated wall clock in ns since 1970.
//
//go:norace
func WallNow() int64 {
	if active {
		now += 50 // time passes between any two readings
	}
	return Epoch + now + wallSkew
}

// AdvanceWall moves the wall clock (a jump), Advance lets simulated time pass.
func AdvanceWall(d int64) { wallSkew += d }
func Advance(d int64)     { now += d }

//go:norace
func Steps() int64 { return steps }

// Gen draws a workload choice in [0,n); 0 is the simplest. Only harness code draws from it.
func Gen(n int) int {
	if n <= 1 {
		return 0
	}
	var v int64
	if replaying {
		if genPos < len(genIn) {
			v = genIn[genPos]
			if v >= int64(n) || v < 0 {
				v = int64(n) - 1
			}
		}
	} else {
		v = int64(genRng.N(n))
	}
	genPos++
	genOut = append(genOut, v)
	return int(v)
}

func GenBool(num, den int) bool { // true with probability num/den; false is simplest
	return Gen(den) >= den-num
}

// Env draws an environment choice in [0,n) that is legal at any time (chunk sizes, iteration
// orders, short reads). 0 is the plain behaviour.
//
//go:norace
func Env(n int) int {
	if n <= 1 || !active {
		return 0
	}
	envIdx++
	var v int64
	if replaying {
		v = envS.lookup(envIdx)
		if v >= int64(n) {
			v = int64(n) - 1
		}
	} else {
		v = int64(envS.rng.N(n))
	}
	envS.record(envIdx, v)
	return int(v)
}

// Chance draws an environment choice that is true with probability num/den.
//
//go:norace
func Chance(num, den int) bool {
	if !active {
		return false
	}
	envIdx++
	var v int64
	if replaying {
		v = envS.lookup(envIdx)
	} else if envS.rng.N(den) < num {
		v = 1
	}
	envS.record(envIdx, v)
	return v != 0
}

// FaultPlan says with which probability faults are injected in a run.
type FaultPlan struct {
	Num, Den int // per fault point
	Max      int
	Kinds    map[string]bool // nil: none
}

var (
	plan       FaultPlan
	faultsOn   bool
	faultsUsed int
)

// Faults switches fault injection on or off.
func SetFaults(p FaultPlan, on bool) { plan, faultsOn = p, on }

// FaultsOn enables or disables the current plan.
func FaultsOn(on bool) { faultsOn = on }

func FaultsUsed() int { return faultsUsed }

// FaultPoint asks whether a fault of one of the given kinds strikes here; it returns the kind or "".
//
//go:norace
func FaultPoint(kinds ...string) string {
	if !active || !faultsOn || len(kinds) == 0 {
		return ""
	}
	faultIdx++
	var v int64
	if replaying {
		v = faultS.lookup(faultIdx)
		if v > int64(len(kinds)) {
			v = int64(len(kinds))
		}
		if v > 0 && faultsUsed >= plan.Max {
			v = 0
		}
	} else if faultsUsed < plan.Max && plan.Den > 0 && faultS.rng.N(plan.Den) < plan.Num {
		v = 1 + int64(faultS.rng.N(len(kinds)))
		if !plan.Kinds[kinds[v-1]] {
			v = 0
		}
	}
	faultS.record(faultIdx, v)
	if v == 0 {
		return ""
	}
	faultsUsed++
	k := kinds[v-1]
	faultCount[k]++
	if tracing {
		Log("FAULT %s in %s", k, cur.Name)
	}
	return k
}

// CountFault counts a fault that the harness itself injected (crash, power loss, clock jump...).
//
//go:norace
func CountFault(kind string) {
	if RaceBuild {
		return
	}
	faultCount[kind]++
	if tracing {
		Log("FAULT %s", kind)
	}
}

// Probe counts that a rare condition of interest was reached.
//
//go:norace
func FaultCount(kind string) int { return faultCount[kind] }

func Probe(name string) {
	if active && !RaceBuild {
		probeCount[name]++
	}
}

//
//go:norace
func Log(format string, args ...any) {
	if tracing && !RaceBuild {
		name := "-"
		if cur != nil {
			name = cur.Name
		}
		logLines = append(logLines, fmt.Sprintf("%6d %9dus %-12s ", steps, now/1000, name)+fmt.Sprintf(format, args...))
	}
}

func Tracing() bool { return tracing }

func siteName(i int) string {
	if i >= 0 && i < len(Sites) {
		return Sites[i]
	}
	return fmt.Sprintf("shim%d", -i)
}

//go:norace
func traceSwitch(from, to *Task) {
	if len(logLines) > 20000 || RaceBuild {
		return
	}
	s := siteName(lastSite)
	what := "preempted"
	if from.state == stDone {
		what = "ended"
	} else if from.state == stBlocked {
		what = fmt.Sprintf("blocked(%T)", from.w)
	}
	logLines = append(logLines, fmt.Sprintf("%6d %9dus %-12s %s at %s -> %s", steps, now/1000, from.Name, what, s, to.Name))
}

// Resets are run at the start of every simulation run.
var Resets []func()

// Run executes root under the simulator and returns the outcome.
func Run(cfg Config, root func()) *Result {
	if active {
		Bug("nested Run")
	}
	runSerial++
	for i := 0; i < ntasks; i++ {
		tasks[i] = nil
	}
	ntasks, lowID = 0, 0
	steps, switches, trhash, lastSite = 0, 0, 0xcbf29ce484222325, 0
	maxSteps = cfg.MaxSteps
	if maxSteps == 0 {
		maxSteps = 300000
	}
	now, wallSkew = 0, 0
	strat = cfg.Strategy
	replaying = cfg.Replay
	schedS.reset(Mix(cfg.Seed, 1), cfg.Replay, cfg.Sched)
	faultS.reset(Mix(cfg.Seed, 2), cfg.Replay, cfg.Fault)
	envS.reset(Mix(cfg.Seed, 3), cfg.Replay, cfg.Env)
	genRng = NewRng(Mix(cfg.Seed, 4))
	genIn, genOut, genPos = cfg.Gen, nil, 0
	faultIdx, envIdx = 0, 0
	vClass, vMsg, aborting = "", "", false
	tracing, logLines = cfg.Trace, nil
	faultCount, probeCount = map[string]int{}, map[string]int{}
	plan, faultsOn, faultsUsed = FaultPlan{}, false, 0
	killAt, killProc = 0, nil
	rootDone = make(chan struct{})
	nchange = 0
	if nhot > 0 {
		hot = [1 << 16]bool{}
		nhot = 0
	}
	if !replaying {
		switch strat.Kind {
		case 2:
			for i := 0; i < strat.Changes && i < len(changeAt); i++ {
				changeAt[i] = 1 + int64(schedS.rng.N(strat.Horizon+1))
				nchange++
			}
		case 3:
			pickHot()
		}
	}
	for _, f := range Resets {
		f()
	}
	active = true
	t := spawn("root", nil, root)
	cur = t
	planNext()
	raceDisable()
	t.wake <- struct{}{}
	<-rootDone
	raceEnable()
	Acquire(unsafe.Pointer(&endAddr)) // a run comes after all of the one before
	active = false
	cur = nil
	r := &Result{Class: vClass, Msg: vMsg, Steps: steps, Switches: switches, Hash: trhash, SimNanos: now,
		Gen: genOut, Sched: schedS.devs(), Fault: faultS.devs(), Env: envS.devs(), Log: logLines,
		Over: schedS.over || faultS.over || envS.over, Faults: faultCount, Probes: probeCount, Tasks: ntasks}
	return r
}

// Sites names the instrumented sites ("runner.go:84"); filled in by generated code.
var Sites []string

// HotCandidates are the sites among which the hot-site strategy chooses; set once per process.
var HotCandidates []int

func pickHot() {
	if len(HotCandidates) == 0 {
		for i := range Sites {
			HotCandidates = append(HotCandidates, i)
		}
	}
	if len(HotCandidates) == 0 {
		return
	}
	for i := 0; i < strat.HotSites; i++ {
		hot[HotCandidates[schedS.rng.N(len(HotCandidates))]&0xffff] = true
		nhot++
	}
}

// Progress changes while a run makes progress (for a watchdog outside the simulation).
//
//go:norace
func Progress() int64 { return steps + runSerial<<32 }

// InC is a scheduling point inside foreign (C) frames, where a task must not be unwound; it reports
// whether the task has been killed.
//
//go:norace
func InC(site int) bool {
	t := cur
	if t.killed {
		return true
	}
	t.inC++
	Yield(site)
	t.inC--
	return t.killed
}

// SleepInC is Sleep inside foreign frames.
//
//go:norace
func SleepInC(d int64) {
	t := cur
	if t.killed {
		return
	}
	t.inC++
	Sleep(d)
	t.inC--
}
