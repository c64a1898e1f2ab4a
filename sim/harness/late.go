//go:build go1.22

package main

import (
	"errors"
	"path"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/context"
)

// Files targets declared at any time: in rounds within one process, each with a controller of its own,
// and while others run. Whoever runs must find the producers of its inputs, among all those declared so far, finished.

type lateTarget struct {
	id       int
	ins      []string // absolute
	outs     []string
	t        fab.Target
	fail     bool
	state    int // in this round: 0 not started, 1 running, 2 finished, 3 failed
	starts   int
	required bool
}

func lateRun() {
	p := zsim.NewProc("fab", nil)
	p.Cwd = "/proj"
	out := &zsim.Sink{}
	p.Stdout, p.Stderr = out, &zsim.Sink{}
	zsim.Disk.MkDirs("/proj/d/e")
	// Outputs are drawn from this list in order, inputs from what comes earlier in it, so there are no cycles.
	names := []string{"/proj/a", "/proj/d", "/proj/d2/x", "/proj/d2/e/f/y", "/proj/b", "/proj/.h", "/proj/g/g", "/other/z", "/proj/c", "/proj/d3", "/proj/k"}
	below := []string{"", "", "", "/x", "/e/y"}
	spell := func(f string) string {
		if strings.HasPrefix(f, "/proj/") && zsim.GenBool(1, 3) {
			return pick("", "./", "d/../", "/proj/d/../", "/proj//") + strings.TrimPrefix(f, "/proj/")
		}
		return f
	}
	resetFab()
	var all []*lateTarget
	producer := map[string]*lateTarget{}
	var order []int // indexes of names, in the order in which they become outputs
	for i := range names {
		order = append(order, i)
	}
	// later declarations may be producers for earlier ones
	rank := map[*lateTarget]int{}
	find := func(f string) *lateTarget {
		for {
			if t := producer[f]; t != nil {
				return t
			}
			if f == "/" || f == "." {
				return nil
			}
			f = path.Dir(f)
		}
	}
	var snapshot map[*lateTarget][]*lateTarget // producers of each target at the beginning of the round
	errBad := errors.New("bad")
	declare := func() {
		if len(order) == 0 {
			return
		}
		k := zsim.Gen(len(order))
		at := order[k]
		order = append(order[:k], order[k+1:]...)
		lt := &lateTarget{id: len(all), outs: []string{names[at]}}
		rank[lt] = at
		if zsim.GenBool(1, 4) {
			lt.outs = append(lt.outs, sname("/proj/extra", lt.id))
		}
		for n := zsim.Gen(4); n > 0; n-- {
			f := "/proj/src"
			if at > 0 && zsim.GenBool(4, 5) {
				f = names[zsim.Gen(at)] + pick(below...)
			}
			lt.ins = append(lt.ins, f)
		}
		var ins, outs []string
		for _, f := range lt.ins {
			ins = append(ins, spell(f))
		}
		for _, f := range lt.outs {
			outs = append(outs, spell(f))
		}
		sub := fab.F(func(ctx context.Context, con *fab.Controller) error {
			lt.starts++
			if lt.starts > 1 {
				viol("P09 P01", "ran-twice", "the subtarget of Files target %d was executed twice by one controller", lt.id)
			}
			for _, q := range snapshot[lt] {
				switch q.state {
				case 0:
					viol("P09", "producer-late", "Files target %d (inputs %v) runs before Files target %d (outputs %v) has", lt.id, lt.ins, q.id, q.outs)
				case 1:
					viol("P09", "producer-running", "Files target %d runs while its producer %d is running", lt.id, q.id)
				case 3:
					viol("P09", "producer-failed", "Files target %d runs although its producer %d failed", lt.id, q.id)
				}
			}
			lt.state = 1
			for n := zsim.Gen(4); n > 0; n-- {
				zsim.Yield(1601)
			}
			if zsim.GenBool(1, 4) {
				zsim.Sleep(int64(1+zsim.Gen(20)) * 1e6)
			}
			if lt.fail {
				lt.state = 3
				return errBad
			}
			lt.state = 2
			return nil
		})
		all = append(all, lt)
		for _, f := range lt.outs {
			producer[path.Clean(f)] = lt
		}
		lt.t = fab.Files(sub, ins, outs)
	}
	rounds := 2 + zsim.Gen(3)
	busy := zsim.GenBool(1, 3) // unrelated targets are declared all the time
	p.Start(func() {
		for r := 0; r < rounds; r++ {
			for n := 1 + zsim.Gen(4); n > 0; n-- {
				declare()
			}
			con := fab.NewController("/proj")
			snapshot = map[*lateTarget][]*lateTarget{}
			for _, lt := range all {
				lt.state, lt.starts, lt.required = 0, 0, false
				lt.fail = zsim.GenBool(1, 15)
				for _, f := range lt.ins {
					if q := find(path.Clean(f)); q != nil && q != lt {
						snapshot[lt] = append(snapshot[lt], q)
					}
				}
			}
			var roots []*lateTarget
			for n := 1 + zsim.Gen(3); n > 0; n-- {
				roots = append(roots, all[zsim.Gen(len(all))])
			}
			var need func(lt *lateTarget)
			need = func(lt *lateTarget) {
				if !lt.required {
					lt.required = true
					for _, q := range snapshot[lt] {
						need(q)
					}
				}
			}
			var ts []fab.Target
			for _, lt := range roots {
				need(lt)
				ts = append(ts, lt.t)
			}
			stop := false
			var noise *zsim.Task
			if busy {
				noise = zsim.GoNamed("declarations", func() {
					for k := 0; k < 12 && !stop; k++ {
						fab.Files(fab.Seq(), []string{names[zsim.Gen(len(names))]}, []string{sname(sname("/elsewhere/r", r)+".", k)})
						zsim.Yield(1602)
					}
				})
			}
			err := con.Run(context.Background(), ts...)
			stop = true
			if noise != nil {
				noise.Join()
			}
			anyFailed := false
			sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
			for _, lt := range all {
				anyFailed = anyFailed || lt.state == 3
			}
			if anyFailed != (err != nil) {
				viol("P09 P03", "wrong-result", "Run returned %v although the failures of the subtargets are otherwise", err)
			}
			for _, lt := range all {
				if !lt.required && lt.starts > 0 {
					viol("P09", "not-asked-for", "Files target %d was executed although nothing asks for it", lt.id)
				}
				if lt.required && lt.starts == 0 && !anyFailed {
					viol("P09", "not-run", "Files target %d was not executed and the build succeeds", lt.id)
				}
				if lt.state == 1 {
					viol("P09", "still-running", "Run returned while Files target %d was running", lt.id)
				}
			}
			zsim.Probe(sname("round ", r))
		}
	})
	p.Wait()
}

func init() {
	c := checks["P09"]
	c.scenarios = append(c.scenarios, scenario{name: "declared", weight: 2, maxSteps: 200000, fn: forProp("P09", lateRun), post: only("deadlock", "step-budget")})
	c.rule += " The scenario declared makes Files targets in rounds within one process, and while others run; a target must find the producers declared so far, at its inputs or above them, finished."
}
