//go:build !race && go1.22

package zsim

import "unsafe"

const RaceBuild = false

func raceDisable()             {}
func raceEnable()              {}
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}
func RaceErrors() int          { return 0 }
func CoreEnter()               {}
func CoreExit()                {}
