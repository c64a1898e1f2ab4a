//go:build go1.22

// Command harness runs the simulation checks: it explores seeds in worker processes, minimises
// and replays violations, and writes the evidence files.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/bobg/fab/zsim"
)

// A scenario is one kind of simulated world for a property.
type scenario struct {
	name     string
	weight   int
	maxSteps int64
	fn       func()
	// post is called after the run, outside the simulation, and may add a violation.
	post func(r *zsim.Result)
}

type check struct {
	id        string
	scenarios []scenario
	real      []string // components that run real code
	stub      []string // components that are stand-ins
	rule      string
	assume    []string
}

var checks = map[string]*check{}

// late are registrations that come after all others.
var late []func()

func register(c *check) { checks[c.id] = c }

// runSpec identifies one run completely.
type runSpec struct {
	Check    string        `json:"check"`
	Scenario string        `json:"scenario"`
	Seed     uint64        `json:"seed"`
	Strategy zsim.Strategy `json:"strategy"`
	MaxSteps int64         `json:"max_steps"`
	Replay   bool          `json:"replay"`
	Gen      []int64       `json:"gen,omitempty"`
	Sched    []zsim.Dev    `json:"sched,omitempty"`
	Fault    []zsim.Dev    `json:"fault,omitempty"`
	Env      []zsim.Dev    `json:"env,omitempty"`
}

type replayFile struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Msg      string   `json:"message"`
	Seed     uint64   `json:"found_with_seed"`
	Spec     runSpec  `json:"run"`
	Original []int    `json:"original_sizes"` // gen, sched, fault, env before minimisation
	Reduced  []int    `json:"reduced_sizes"`
	Trace    []string `json:"trace"`
}

func specFor(c *check, seed uint64) runSpec {
	h := zsim.NewRng(zsim.Mix(seed, 77))
	total := 0
	for _, s := range c.scenarios {
		total += s.weight
	}
	x := h.N(total)
	var sc scenario
	for _, s := range c.scenarios {
		if x < s.weight {
			sc = s
			break
		}
		x -= s.weight
	}
	var st zsim.Strategy
	switch k := h.N(100); {
	case k < 6:
		st.Kind = 0
	case k < 45:
		st.Kind = 1
		st.Gap = []int{1, 2, 4, 10, 40, 200}[h.N(6)]
	case k < 75:
		st.Kind = 2
		st.Changes = 1 + h.N(5)
		st.Horizon = []int{100, 300, 1000, 5000}[h.N(4)]
	default:
		st.Kind = 3
		st.HotSites = 1 + h.N(12)
	}
	ms := sc.maxSteps
	if ms == 0 {
		ms = 300000
	}
	return runSpec{Check: c.id, Scenario: sc.name, Seed: seed, Strategy: st, MaxSteps: ms}
}

func findScenario(c *check, name string) *scenario {
	for i := range c.scenarios {
		if c.scenarios[i].name == name {
			return &c.scenarios[i]
		}
	}
	return nil
}

func execute(sp runSpec, trace bool) *zsim.Result {
	c := checks[sp.Check]
	sc := findScenario(c, sp.Scenario)
	if sc == nil {
		fmt.Fprintf(os.Stderr, "unknown scenario %s of %s\n", sp.Scenario, sp.Check)
		os.Exit(2)
	}
	r := zsim.Run(zsim.Config{Seed: sp.Seed, Strategy: sp.Strategy, MaxSteps: sp.MaxSteps, Trace: trace,
		Replay: sp.Replay, Gen: sp.Gen, Sched: sp.Sched, Fault: sp.Fault, Env: sp.Env}, sc.fn)
	if sc.post != nil {
		sc.post(r)
	}
	raceCheck(r)
	return r
}

// again is execute, for a run that is expected to fail. What the race detector reports depends on
// whether caches inside of libraries (yaml's, reflect's) have been filled, which orders tasks, so
// there such a run is repeated in this process.
func again(sp runSpec, trace bool) (r *zsim.Result) {
	for i := 0; i < 10; i++ {
		r = execute(sp, trace)
		if r.Class != "" || !zsim.RaceBuild {
			break
		}
	}
	return r
}

// stats of one worker, written as JSON at its end.
type stats struct {
	Runs      int            `json:"runs"`
	Steps     int64          `json:"steps"`
	Switches  int64          `json:"switches"`
	SimNanos  int64          `json:"sim_nanos"`
	Faults    map[string]int `json:"faults"`
	FaultRuns int            `json:"fault_runs"`
	Probes    map[string]int `json:"probes"`
	Scen      map[string]int `json:"scenarios"`
	Strat     map[string]int `json:"strategies"`
	Hashes    []uint64       `json:"hashes"`
	Trivial   int            `json:"trivial"` // runs without any preemptive switch and any fault
	Sites     []int          `json:"sites"`
	Samples   []string       `json:"samples"`
	Recheck   int            `json:"recheck"`
	Mismatch  []string       `json:"mismatch"`
	Over      int            `json:"over"`
	Viol      *found         `json:"viol,omitempty"`
	Known     map[string]int `json:"known,omitempty"`
}

type found struct {
	Spec  runSpec `json:"spec"`
	Class string  `json:"class"`
	Msg   string  `json:"msg"`
}

var (
	fCheck   = flag.String("check", "", "property to check")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "base seed")
	fWorker  = flag.Int("worker", -1, "worker index")
	fWorkers = flag.Int("workers", 8, "number of workers")
	fSecs    = flag.Float64("secs", 0, "exploration time")
	fOut     = flag.String("out", "", "worker output file")
	fRoot    = flag.String("root", "/verif", "where evidence and replays go")
	fReplay  = flag.String("replay", "", "replay file")
	fMin     = flag.String("minimize", "", "file with a failing run; result goes to -out")
	fOne     = flag.String("one", "", "run the single seed given (decimal) with a trace")
	fScen    = flag.String("scenario", "", "restrict to one scenario")
	fMaxRuns = flag.Int("maxruns", 0, "stop each worker after that many runs")
	fRepeat  = flag.Int("repeat", 0, "run this many seeds twice and compare (determinism test)")
	fBuildS  = flag.Float64("build-secs", 0, "time the build took (for the evidence)")
	fGenDrv  = flag.String("gendriver", "", "write the driver source that fab generates to this file")
	fKnown   = flag.String("known", "", "known-findings file")
)

func main() {
	for _, f := range late {
		f()
	}
	flag.Parse()
	raceSetup()
	debug.SetGCPercent(200)
	if driverMain != nil {
		findGolden()
	}
	switch {
	case *fGenDrv != "":
		generateDriver(*fGenDrv)
	case *fReplay != "":
		doReplay(*fReplay)
	case *fMin != "":
		doMinimize(*fMin, *fOut)
	case *fOne != "":
		doOne()
	case *fWorker >= 0:
		doWorker()
	case *fRepeat > 0:
		doRepeat()
	default:
		os.Exit(doParent())
	}
}

func theCheck() *check {
	c := checks[*fCheck]
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check for property %q in this build\n", *fCheck)
		os.Exit(2)
	}
	if *fScen != "" {
		var keep []scenario
		for _, s := range c.scenarios {
			if s.name == *fScen {
				keep = append(keep, s)
			}
		}
		c.scenarios = keep
	}
	return c
}

func seedOf(base uint64, worker, i int) uint64 {
	return zsim.Mix(zsim.Mix(base, uint64(worker)+1000), uint64(i)) >> 1
}

func watchdog() {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if s := zsim.Progress(); s != last {
				last, since = s, time.Now()
				continue
			}
			if zsim.Active() && time.Since(since) > time.Duration(stuckSecs)*time.Second {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "worker stuck outside the simulator (seed %d)\n", curSeed)
				out := 0
				for _, g := range strings.Split(string(buf[:n]), "\n\n") { // those not parked by the simulator
					if !strings.Contains(g, "zsim.switchTo") && !strings.Contains(g, "main.watchdog") && out < 6000 {
						fmt.Fprintf(os.Stderr, "%.3000s\n\n", g)
						out += len(g)
					}
				}
				os.Exit(2)
			}
		}
	}()
}

var curSeed uint64
var stuckSecs = 60

func doWorker() {
	c := theCheck()
	watchdog()
	runtime.GOMAXPROCS(2)
	st := stats{Faults: map[string]int{}, Probes: map[string]int{}, Scen: map[string]int{}, Strat: map[string]int{}, Known: map[string]int{}}
	end := time.Now().Add(time.Duration(*fSecs * float64(time.Second)))
	seen := map[uint64]bool{}
	known := loadKnown(*fKnown, c.id)
	for i := 0; ; i++ {
		if time.Now().After(end) || *fMaxRuns > 0 && i >= *fMaxRuns {
			break
		}
		seed := seedOf(*fSeed, *fWorker, i)
		curSeed = seed
		sp := specFor(c, seed)
		r := execute(sp, false)
		st.Runs++
		st.Steps += r.Steps
		st.Switches += r.Switches
		st.SimNanos += r.SimNanos
		st.Scen[sp.Scenario]++
		st.Strat[[]string{"run-to-block", "random-gaps", "priorities", "hot-sites"}[sp.Strategy.Kind]]++
		for k, n := range r.Faults {
			st.Faults[k] += n
		}
		if len(r.Faults) > 0 {
			st.FaultRuns++
		}
		for k, n := range r.Probes {
			st.Probes[k] += n
		}
		if len(r.Sched) == 0 && len(r.Faults) == 0 {
			st.Trivial++
		}
		if r.Over {
			st.Over++
		}
		h := r.Hash ^ zsim.Mix(hashGen(r.Gen), 5) ^ zsim.Mix(hashDevs(r.Fault), 6)
		if !seen[h] && len(seen) < 400000 {
			seen[h] = true
			if len(r.Sched) > 0 || len(r.Faults) > 0 {
				st.Hashes = append(st.Hashes, h)
			}
		}
		if len(st.Samples) < 2 && i%17 == 3 {
			st.Samples = append(st.Samples, fmt.Sprintf("seed %d scenario %s strategy %+v: %d steps, %d switches (%d not by default order), %d tasks, %.6f simulated s, %d workload draws, faults %v, interleaving hash %016x",
				seed, sp.Scenario, sp.Strategy, r.Steps, r.Switches, len(r.Sched), r.Tasks, float64(r.SimNanos)/1e9, len(r.Gen), r.Faults, r.Hash))
		}
		// every 50th run is repeated and must be identical
		if i%50 == 7 && r.Class == "" {
			q := execute(sp, false)
			st.Recheck++
			if d := differs(r, q); d != "" {
				st.Mismatch = append(st.Mismatch, fmt.Sprintf("seed %d: %s", seed, d))
			}
		}
		if r.Class != "" {
			if k := known.match(r.Class, r.Msg); k != "" {
				st.Known[k]++
				continue
			}
			st.Viol = &found{Spec: sp, Class: r.Class, Msg: r.Msg}
			break
		}
	}
	for i, h := range zsim.SiteHit {
		if h {
			st.Sites = append(st.Sites, i)
		}
	}
	b, _ := json.Marshal(&st)
	if err := os.WriteFile(*fOut, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func hashGen(g []int64) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range g {
		h = (h ^ uint64(v)) * 0x100000001b3
	}
	return h
}

func hashDevs(d []zsim.Dev) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range d {
		h = (h ^ uint64(v.I)) * 0x100000001b3
		h = (h ^ uint64(v.V)) * 0x100000001b3
	}
	return h
}

func differs(a, b *zsim.Result) string {
	switch {
	case a.Class != b.Class:
		return fmt.Sprintf("class %q/%q", a.Class, b.Class)
	case a.Steps != b.Steps:
		return fmt.Sprintf("steps %d/%d", a.Steps, b.Steps)
	case a.Hash != b.Hash:
		return "interleaving"
	case a.SimNanos != b.SimNanos:
		return "time"
	case len(a.Sched) != len(b.Sched) || len(a.Fault) != len(b.Fault) || len(a.Env) != len(b.Env) || len(a.Gen) != len(b.Gen):
		return "choices"
	}
	return ""
}

func doRepeat() {
	c := theCheck()
	bad := 0
	for i := 0; i < *fRepeat; i++ {
		sp := specFor(c, seedOf(*fSeed, 0, i))
		a := execute(sp, false)
		b := execute(sp, false)
		if d := differs(a, b); d != "" {
			bad++
			fmt.Printf("seed %d %s: %s\n", sp.Seed, sp.Scenario, d)
		}
		rp := sp
		rp.Replay, rp.Gen, rp.Sched, rp.Fault, rp.Env = true, a.Gen, a.Sched, a.Fault, a.Env
		q := execute(rp, false)
		if d := differs(a, q); d != "" && !a.Over {
			bad++
			fmt.Printf("seed %d %s: replay differs: %s\n", sp.Seed, sp.Scenario, d)
		}
		fmt.Fprintf(os.Stderr, "%d %s %d %016x %d %q\n", sp.Seed, sp.Scenario, a.Steps, a.Hash, a.SimNanos, a.Class)
	}
	fmt.Printf("%d runs repeated, %d differ\n", *fRepeat, bad)
}

func doOne() {
	c := theCheck()
	seed, err := strconv.ParseUint(*fOne, 10, 64)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	watchdog()
	sp := specFor(c, seed)
	r := execute(sp, true)
	for _, l := range r.Log {
		fmt.Println(l)
	}
	fmt.Printf("scenario %s strategy %+v steps %d switches %d class %q: %s\n", sp.Scenario, sp.Strategy, r.Steps, r.Switches, r.Class, r.Msg)
	fmt.Println("gen", len(r.Gen), "sched", len(r.Sched), "fault", r.Faults, "env", len(r.Env), "probes", r.Probes)
}

func loadReplay(name string) *replayFile {
	b, err := os.ReadFile(name)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &rf
}

// doReplay re-executes a replay file: exit 1 if the violation recurs, 0 if not.
func doReplay(name string) {
	rf := loadReplay(name)
	watchdog()
	r := again(rf.Spec, true)
	for _, l := range r.Log {
		fmt.Println(l)
	}
	if r.Class == "" {
		fmt.Printf("replay of %s: no violation\n", name)
		os.Exit(0)
	}
	fmt.Printf("replay of %s: %s: %s\n", name, r.Class, r.Msg)
	same := "same class and message as recorded"
	if r.Class != rf.Class || r.Msg != rf.Msg {
		same = fmt.Sprintf("recorded was %s: %s", rf.Class, rf.Msg)
	}
	fmt.Println(same)
	if r.Class == rf.Class {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, name)
		os.Exit(1)
	}
	os.Exit(1)
}

func doMinimize(in, out string) {
	b, err := os.ReadFile(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f found
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	watchdog()
	deadline := time.Now().Add(20 * time.Second)
	r := again(f.Spec, false)
	if r.Class == "" {
		fmt.Fprintf(os.Stderr, "seed %d does not reproduce %s: %s\n", f.Spec.Seed, f.Class, f.Msg)
		os.Exit(2)
	}
	best := f.Spec
	rf := replayFile{Property: f.Spec.Check, Class: r.Class, Msg: r.Msg, Seed: f.Spec.Seed,
		Original: []int{len(r.Gen), len(r.Sched), len(r.Fault), len(r.Env)}}
	if !r.Over {
		cand := f.Spec
		cand.Replay, cand.Gen, cand.Sched, cand.Fault, cand.Env = true, r.Gen, r.Sched, r.Fault, r.Env
		q := execute(cand, false)
		if q.Class == r.Class {
			best = minimize(cand, r.Class, deadline)
		}
	}
	fin := again(best, true)
	if fin.Class != r.Class {
		best = f.Spec
		fin = again(best, true)
	}
	rf.Spec, rf.Msg, rf.Class, rf.Trace = best, fin.Msg, fin.Class, fin.Log
	if len(rf.Trace) > 3000 {
		rf.Trace = append([]string{"..."}, rf.Trace[len(rf.Trace)-3000:]...)
	}
	rf.Reduced = []int{len(best.Gen), len(best.Sched), len(best.Fault), len(best.Env)}
	j, _ := json.MarshalIndent(&rf, "", " ")
	if err := os.WriteFile(out, j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func minimize(sp runSpec, class string, deadline time.Time) runSpec {
	try := func(c runSpec) bool {
		if time.Now().After(deadline) {
			return false
		}
		return execute(c, false).Class == class
	}
	devs := func(get func(*runSpec) *[]zsim.Dev) {
		for n := len(*get(&sp)); n >= 1; n /= 2 {
			for i := 0; i < len(*get(&sp)) && time.Now().Before(deadline); {
				cur := *get(&sp)
				j := min(i+n, len(cur))
				c := sp
				*get(&c) = append(append([]zsim.Dev(nil), cur[:i]...), cur[j:]...)
				if try(c) {
					sp = c
				} else {
					i = j
				}
			}
		}
	}
	for pass := 0; pass < 3; pass++ {
		before := len(sp.Sched) + len(sp.Fault) + len(sp.Env) + nonzero(sp.Gen)
		devs(func(s *runSpec) *[]zsim.Dev { return &s.Sched })
		devs(func(s *runSpec) *[]zsim.Dev { return &s.Env })
		devs(func(s *runSpec) *[]zsim.Dev { return &s.Fault })
		// workload: cut the tail, then chunks to zero, then single values down
		for n := len(sp.Gen); n >= 1; n /= 2 {
			for i := 0; i < len(sp.Gen) && time.Now().Before(deadline); i += n {
				j := min(i+n, len(sp.Gen))
				c := sp
				c.Gen = append([]int64(nil), sp.Gen...)
				ch := false
				for k := i; k < j; k++ {
					if c.Gen[k] != 0 {
						c.Gen[k], ch = 0, true
					}
				}
				if ch && try(c) {
					sp = c
				}
			}
		}
		for i := range sp.Gen {
			for sp.Gen[i] > 1 && time.Now().Before(deadline) {
				c := sp
				c.Gen = append([]int64(nil), sp.Gen...)
				c.Gen[i] /= 2
				if !try(c) {
					break
				}
				sp = c
			}
		}
		for len(sp.Gen) > 0 && sp.Gen[len(sp.Gen)-1] == 0 {
			sp.Gen = sp.Gen[:len(sp.Gen)-1]
		}
		if len(sp.Sched)+len(sp.Fault)+len(sp.Env)+nonzero(sp.Gen) == before {
			break
		}
	}
	return sp
}

func nonzero(g []int64) int {
	n := 0
	for _, v := range g {
		if v != 0 {
			n++
		}
	}
	return n
}

// --- known findings

type knownSet []knownFinding
type knownFinding struct{ class, sub, text string }

func (k knownSet) match(class, msg string) string {
	for _, f := range k {
		if f.class == class && strings.Contains(msg, f.sub) {
			return f.text
		}
	}
	return ""
}

// loadKnown reads lines "known: property=<id> class=<class> match=<quoted substring> <text>".
func loadKnown(name, id string) (out knownSet) {
	if name == "" {
		return
	}
	f, err := os.Open(name)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		rest, ok := strings.CutPrefix(l, "known: property="+id+" class=")
		if !ok {
			continue
		}
		class, rest, _ := strings.Cut(rest, " match=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		sub, _ := strconv.Unquote(q)
		out = append(out, knownFinding{class, sub, strings.TrimSpace(rest[len(q):])})
	}
	return
}

// --- parent

func doParent() int {
	c := theCheck()
	t0 := time.Now()
	secs := *fSecs
	if secs == 0 {
		secs = 15
		if *fTier == "thorough" {
			secs = 420
		}
	}
	tmp, err := os.MkdirTemp("", "fabsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	outs := make([]stats, *fWorkers)
	errs := make([]error, *fWorkers)
	var wg sync.WaitGroup
	for w := 0; w < *fWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("w%d", w))
			args := []string{"-check", c.id, "-worker", strconv.Itoa(w), "-secs", fmt.Sprint(secs), "-seed", fmt.Sprint(*fSeed), "-out", out, "-known", *fKnown}
			if *fScen != "" {
				args = append(args, "-scenario", *fScen)
			}
			if *fMaxRuns > 0 {
				args = append(args, "-maxruns", strconv.Itoa(*fMaxRuns))
			}
			cmd := exec.Command(self, args...)
			cmd.Stderr = os.Stderr
			if zsim.RaceBuild {
				log := filepath.Join(tmp, fmt.Sprintf("race%d", w))
				cmd.Env = append(os.Environ(), "FABSIM_RACELOG="+log, raceEnv(log))
			}
			timer := time.AfterFunc(time.Duration((secs+120)*float64(time.Second)), func() {
				if cmd.Process != nil {
					cmd.Process.Kill()
				}
			})
			errs[w] = cmd.Run()
			timer.Stop()
			if errs[w] == nil {
				b, err := os.ReadFile(out)
				if err == nil {
					err = json.Unmarshal(b, &outs[w])
				}
				errs[w] = err
			}
		}(w)
	}
	wg.Wait()
	var all stats
	all.Faults, all.Probes, all.Scen, all.Strat, all.Known = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	hashes := map[uint64]bool{}
	sites := map[int]bool{}
	var viol *found
	var viols []*found
	failed := false
	for w := range outs {
		if errs[w] != nil {
			fmt.Fprintf(os.Stderr, "worker %d: %v\n", w, errs[w])
			failed = true
			continue
		}
		o := &outs[w]
		all.Runs += o.Runs
		all.Steps += o.Steps
		all.Switches += o.Switches
		all.SimNanos += o.SimNanos
		all.FaultRuns += o.FaultRuns
		all.Trivial += o.Trivial
		all.Recheck += o.Recheck
		all.Over += o.Over
		all.Mismatch = append(all.Mismatch, o.Mismatch...)
		if len(all.Samples) < 6 {
			all.Samples = append(all.Samples, o.Samples...)
		}
		for k, n := range o.Faults {
			all.Faults[k] += n
		}
		for k, n := range o.Probes {
			all.Probes[k] += n
		}
		for k, n := range o.Scen {
			all.Scen[k] += n
		}
		for k, n := range o.Strat {
			all.Strat[k] += n
		}
		for k, n := range o.Known {
			all.Known[k] += n
		}
		for _, h := range o.Hashes {
			hashes[h] = true
		}
		for _, s := range o.Sites {
			sites[s] = true
		}
		if o.Viol != nil {
			viols = append(viols, o.Viol)
		}
	}
	explored := time.Since(t0).Seconds()
	if len(all.Mismatch) > 0 {
		fmt.Fprintf(os.Stderr, "warning: %d of %d repeated runs differed: %v\n", len(all.Mismatch), all.Recheck, all.Mismatch[:min(3, len(all.Mismatch))])
	}
	code := 0
	sort.Slice(viols, func(i, j int) bool { return viols[i].Spec.Seed < viols[j].Spec.Seed })
	if len(viols) > 0 {
		for _, viol = range viols {
			if code = reportViolation(c, viol, self, tmp); code == 1 {
				break
			}
		}
	} else if failed || all.Runs == 0 {
		code = 2
	}
	if code != 2 {
		for k := range all.Known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
		}
		writeEvidence(c, &all, hashes, sites, explored, time.Since(t0).Seconds(), viol)
	}
	if code == 0 {
		fmt.Printf("%s: held on %d simulated runs (%d distinct interleavings, %.0f runs/hour, %.1f simulated hours, faults %v)\n",
			c.id, all.Runs, len(hashes), float64(all.Runs)/explored*3600, float64(all.SimNanos)/3.6e12, all.Faults)
	}
	return code
}

func reportViolation(c *check, v *found, self, tmp string) int {
	in := filepath.Join(tmp, "viol.json")
	b, _ := json.Marshal(v)
	os.WriteFile(in, b, 0o644)
	dir := filepath.Join(*fRoot, "replays")
	os.MkdirAll(dir, 0o755)
	out := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.id, v.Spec.Seed))
	var env []string
	if zsim.RaceBuild {
		log := filepath.Join(tmp, "race")
		env = append(os.Environ(), "FABSIM_RACELOG="+log, raceEnv(log))
	}
	m := exec.Command(self, "-minimize", in, "-out", out)
	m.Stderr = os.Stderr
	m.Env = env
	if err := m.Run(); err != nil {
		fmt.Fprintf(os.Stderr, "the violation of seed %d (%s: %s) could not be reproduced: %v\n", v.Spec.Seed, v.Class, v.Msg, err)
		return 2
	}
	rf := loadReplay(out)
	// the replay file must reproduce the violation in a fresh process
	p := exec.Command(self, "-replay", out)
	p.Env = env
	ob, _ := p.Output()
	if p.ProcessState == nil || p.ProcessState.ExitCode() != 1 || !strings.Contains(string(ob), "VIOLATION property=") {
		fmt.Fprintf(os.Stderr, "the replay file %s did not reproduce %s: %s\n", out, rf.Class, rf.Msg)
		return 2
	}
	fmt.Printf("%s: %s: %s\n", c.id, rf.Class, rf.Msg)
	fmt.Printf("found with seed %d, scenario %s; reduced (workload draws, schedule, faults, environment) from %v to %v\n", rf.Seed, rf.Spec.Scenario, rf.Original, rf.Reduced)
	tr := rf.Trace
	if len(tr) > 40 {
		tr = tr[len(tr)-40:]
	}
	for _, l := range tr {
		fmt.Println("  " + l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, out)
	return 1
}

func writeEvidence(c *check, s *stats, hashes map[uint64]bool, sites map[int]bool, explored, wall float64, viol *found) {
	files := map[string][2]int{}
	for i, n := range zsim.Sites {
		f, _, _ := strings.Cut(n, ":")
		x := files[f]
		x[1]++
		if sites[i] {
			x[0]++
		}
		files[f] = x
	}
	var cov []string
	for f, x := range files {
		if x[0] > 0 {
			cov = append(cov, fmt.Sprintf("%s %d/%d", f, x[0], x[1]))
		}
	}
	sort.Strings(cov)
	hours := explored / 3600
	ev := map[string]any{
		"property": c.id, "tier": *fTier, "seed": *fSeed, "level": "exploration", "wall_s": wall + *fBuildS,
		"violations": map[bool]int{true: 1, false: 0}[viol != nil],
		"coverage": map[string]any{
			"evaluations":         s.Runs,
			"distinct_nontrivial": len(hashes),
			"rule": c.rule + " A run is one seed; it is non-trivial if at least one scheduling decision departed from the default order or at least one fault was injected; " +
				"runs are distinct if the hash over (task, code site) at every switch, the workload draws and the faults differs.",
			"samples":                          s.Samples,
			"simulated_runs_per_hour":          int(float64(s.Runs) / hours), // one run is one seed
			"simulated_seconds":                float64(s.SimNanos) / 1e9,
			"scheduling_points":                s.Steps,
			"task_switches":                    s.Switches,
			"faults_injected":                  s.Faults,
			"runs_with_faults":                 s.FaultRuns,
			"conditions_reached":               s.Probes,
			"scenarios":                        s.Scen,
			"strategies":                       s.Strat,
			"runs_without_preemption_or_fault": s.Trivial,
			"sites_reached":                    len(sites),
			"sites_total":                      len(zsim.Sites),
			"sites_reached_by_file":            cov,
			"runs_repeated_for_determinism":    s.Recheck,
			"repeated_runs_that_differed":      len(s.Mismatch),
			"real_components":                  c.real,
			"stub_components":                  c.stub,
			"explored_s":                       explored,
			"build_s":                          *fBuildS,
		},
		"assumptions": c.assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*fRoot, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
