//go:build go1.22

// Package zrules stands for the user's build package in a simulated driver.
package zrules

import "github.com/bobg/fab"

// GetFn gives the target of the given name as the running driver binary defines it.
var GetFn func(name string) fab.Target

func Get(name string) fab.Target { return GetFn(name) }
