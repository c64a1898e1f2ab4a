//go:build go1.22

package main

import (
	"io/fs"
	"path"
)

var errNotExist = fs.ErrNotExist

func pathClean(p string) string { return path.Clean(p) }
