//go:build go1.22

package main

import "runtime"

func collectGarbage() { runtime.GC() }
