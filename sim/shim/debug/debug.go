//go:build go1.22

// Package debug is runtime/debug with a simulated build-info record.
package debug

import (
	real "runtime/debug"

	"github.com/bobg/fab/zsim"
)

// ReadBuildInfo returns the build information of the simulated process.
func ReadBuildInfo() (*real.BuildInfo, bool) {
	if !zsim.Active() {
		return real.ReadBuildInfo()
	}
	zsim.Yield(40)
	if p := zsim.CurProc(); p != nil {
		if v, ok := p.Locals["buildinfo"].(*real.BuildInfo); ok {
			c := *v
			c.Settings = append([]real.BuildSetting(nil), v.Settings...)
			return &c, true
		}
	}
	return nil, false
}
