//go:build race && go1.22

package zsim

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// Acquire and Release create happens-before edges in a race-detector build, where the
// scheduler's own hand-offs deliberately create none.
//
//go:norace
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func RaceErrors() int { return runtime.RaceErrors() }

var coreAddr byte

// CoreEnter and CoreExit order the simulator's own bookkeeping (file system, processes, channels)
// for the race detector.
//
//go:norace
func CoreEnter() { runtime.RaceAcquire(unsafe.Pointer(&coreAddr)) }

//go:norace
func CoreExit() { runtime.RaceReleaseMerge(unsafe.Pointer(&coreAddr)) }
