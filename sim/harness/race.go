//go:build go1.22

package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/bobg/fab/zsim"
)

// In a build with the race detector the scheduler's own hand-offs create no happens-before edges
// (zsim.raceDisable), so the detector sees only those of the code under test: two accesses that
// are ordered merely by the schedule of the run are reported.

var (
	raceLog   string
	raceSeen  int
	raceOff   int64
	raceOther = map[string]int{} // reports that concern only the simulator or harness
)

// raceSetup makes sure that the process runs with a log for the race detector's reports.
func raceSetup() {
	if !zsim.RaceBuild {
		return
	}
	raceLog = os.Getenv("FABSIM_RACELOG")
	if raceLog != "" {
		raceLog += fmt.Sprintf(".%d", os.Getpid())
		return
	}
	dir, err := os.MkdirTemp("", "fabsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	log := filepath.Join(dir, "race")
	cmd.Env = append(os.Environ(), "FABSIM_RACELOG="+log, raceEnv(log))
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	err = cmd.Run()
	os.RemoveAll(dir)
	if cmd.ProcessState == nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := cmd.ProcessState.ExitCode()
	if code < 0 {
		code = 2
	}
	os.Exit(code)
}

func raceEnv(log string) string {
	return "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5 log_path=" + log
}

// raceCheck looks at what the race detector reported during the run.
func raceCheck(r *zsim.Result) {
	if !zsim.RaceBuild {
		return
	}
	n := zsim.RaceErrors()
	if n == raceSeen {
		return
	}
	raceSeen = n
	f, err := os.Open(raceLog)
	if err != nil {
		fmt.Fprintf(os.Stderr, "no report of the race detector: %v\n", err)
		os.Exit(2)
	}
	defer f.Close()
	fi, _ := f.Stat()
	b := make([]byte, fi.Size()-raceOff)
	f.ReadAt(b, raceOff)
	raceOff = fi.Size()
	if os.Getenv("FABSIM_RACEDUMP") != "" {
		os.Stderr.Write(b)
	}
	var msgs []string
	for _, rep := range strings.Split(string(b), "WARNING: DATA RACE") {
		if m := raceMessage(rep); m != "" {
			msgs = append(msgs, m)
		}
	}
	if len(msgs) == 0 || r.Class != "" {
		return
	}
	sort.Strings(msgs)
	r.Class, r.Msg = "data-race", msgs[0]
}

var raceAccess = regexp.MustCompile(`(?m)^(Previous )?(read|write|atomic read|atomic write|Read|Write|Atomic read|Atomic write) at 0x[0-9a-f]+ by .*:$`)

// raceMessage describes a report, or is empty if an access is the simulator's or the harness's own.
func raceMessage(rep string) string {
	rep, _, _ = strings.Cut(rep, "\n==================")
	idx := raceAccess.FindAllStringIndex(rep, -1)
	var acc []string
	for _, ix := range idx {
		kind := "read"
		if strings.Contains(strings.ToLower(rep[ix[0]:ix[1]]), "write") {
			kind = "write"
		}
		stack, _, _ := strings.Cut(strings.TrimPrefix(rep[ix[1]:], "\n"), "\n\n")
		if strings.Contains(stack, "runtime.Goexit()") {
			return "" // a task being unwound by the simulator
		}
		where := accessSite(stack)
		if where == "" {
			return ""
		}
		acc = append(acc, kind+" in "+where)
	}
	if len(acc) != 2 {
		return ""
	}
	sort.Strings(acc)
	return fmt.Sprintf("unsynchronised accesses: %s; %s", acc[0], acc[1])
}

var raceFrame = regexp.MustCompile(`^  (\S+)\(.*\)$`)
var raceFile = regexp.MustCompile(`^      (\S+):(\d+) `)

// accessSite is the function of the code under test that made the access at the top of a stack.
// Helpers of the runtime, of the standard library and of the instrumentation are looked through.
func accessSite(stack string) string {
	lines := strings.Split(strings.TrimPrefix(stack, "\n"), "\n")
	for i := 0; i+1 < len(lines); i += 2 {
		m := raceFrame.FindStringSubmatch(lines[i])
		f := raceFile.FindStringSubmatch(lines[i+1])
		if m == nil || f == nil {
			return ""
		}
		fn := m[1]
		const fab = "github.com/bobg/fab"
		switch {
		case strings.HasPrefix(fn, fab+"/zsim.Map"), strings.HasPrefix(fn, fab+"/zsim.(*MapIter"):
			continue
		case strings.HasPrefix(fn, fab+"/zsim/harness"), strings.HasPrefix(fn, "main."), strings.HasPrefix(fn, fab+"/zsim"):
			return ""
		case strings.HasPrefix(fn, fab):
			return strings.TrimPrefix(fn, "github.com/bobg/") + " (" + filepath.Base(f[1]) + ")"
		case strings.HasPrefix(fn, "github.com/bobg/go-generics"), strings.Contains(strings.SplitN(fn, "/", 2)[0], ".") && strings.Contains(fn, "/"):
			return fn
		}
	}
	return ""
}
