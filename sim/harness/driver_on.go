//go:build go1.22 && clidriver

package main

import (
	_ "embed"

	fabcmd "github.com/bobg/fab/cmd/fab"
	zdriver "github.com/bobg/fab/zdriver"
)

//go:embed driver.txt
var driverTxt string

func init() {
	driverMain, fabMain, driverText = zdriver.Main, fabcmd.Main, driverTxt
	fabResets = append(fabResets, fabcmd.ZZReset, zdriver.ZZReset)
	registerCLI()
	registerInvoke()
	late = append(late, registerFiles)
}
