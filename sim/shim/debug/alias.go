//go:build go1.22

// Code generated by tools/genalias; DO NOT EDIT.

package debug

import real "runtime/debug"

type BuildInfo = real.BuildInfo
type BuildSetting = real.BuildSetting
type CrashOptions = real.CrashOptions

var FreeOSMemory = real.FreeOSMemory

type GCStats = real.GCStats
type Module = real.Module

var ParseBuildInfo = real.ParseBuildInfo
var PrintStack = real.PrintStack
var ReadGCStats = real.ReadGCStats
var SetCrashOutput = real.SetCrashOutput
var SetGCPercent = real.SetGCPercent
var SetMaxStack = real.SetMaxStack
var SetMaxThreads = real.SetMaxThreads
var SetMemoryLimit = real.SetMemoryLimit
var SetPanicOnFault = real.SetPanicOnFault
var SetTraceback = real.SetTraceback
var Stack = real.Stack
var WriteHeapDump = real.WriteHeapDump
