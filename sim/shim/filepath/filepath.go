//go:build go1.22

// Package filepath is the standard package with the functions that touch the file system simulated.
package filepath

import (
	"errors"
	"io/fs"
	real "path/filepath"

	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/shim/os"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return real.Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) { return zsim.Disk.EvalSymlinks(p) }

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := os.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(real.Join(path, d1.Name()), d1, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn real.WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn real.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	entries, err := os.ReadDir(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range entries {
		name := real.Join(path, e.Name())
		fi, err := os.Lstat(name)
		if err != nil {
			if err := fn(name, fi, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err := walk(name, fi, fn); err != nil {
			if !fi.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	abs, err := Abs(pattern)
	if err != nil {
		return nil, err
	}
	var out []string
	for p := range zsim.Disk.Tree("/") {
		if ok, _ := real.Match(abs, p); ok {
			if real.IsAbs(pattern) {
				out = append(out, p)
			} else {
				wd, _ := os.Getwd()
				r, err := real.Rel(wd, p)
				if err != nil {
					return nil, errors.New("glob")
				}
				out = append(out, r)
			}
		}
	}
	sortStrings(out)
	return out, nil
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
