//go:build go1.22

// Package ioutil is the standard package on the simulated file system.
package ioutil

import (
	"io/fs"

	"github.com/bobg/fab/zsim/shim/os"
)

func ReadFile(name string) ([]byte, error)                    { return os.ReadFile(name) }
func WriteFile(name string, b []byte, perm fs.FileMode) error { return os.WriteFile(name, b, perm) }
func TempDir(dir, pattern string) (string, error)             { return os.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*os.File, error)          { return os.CreateTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}
