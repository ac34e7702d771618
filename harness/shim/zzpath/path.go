// Package zzpath replaces path/filepath for the code under check: what looks at files looks at the table of zzos.
package zzpath

import (
	"io/fs"
	real "path/filepath"

	"github.com/CAU-CPSS/logument/internal/zzos"
)

func Walk(root string, fn real.WalkFunc) error {
	info, err := zzos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn real.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	entries, err := zzos.ReadDir(path)
	if err1 := fn(path, info, err); err != nil || err1 != nil {
		return err1
	}
	for _, e := range entries {
		name := real.Join(path, e.Name())
		info, err := zzos.Lstat(name)
		if err != nil {
			if err := fn(name, info, err); err != nil && err != real.SkipDir {
				return err
			}
			continue
		}
		if err := walk(name, info, fn); err != nil {
			if !info.IsDir() || err != real.SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := zzos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == real.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	entries, err := zzos.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == real.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range entries {
		if err := walkDir(real.Join(path, e.Name()), e, fn); err != nil {
			if err == real.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Glob matches names level by level.
func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	var r []string
	for _, n := range zzos.Nodes {
		if ok, _ := real.Match(pattern, n.Name); ok {
			r = append(r, n.Name)
		}
	}
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r, nil
}

func Abs(path string) (string, error) {
	if real.IsAbs(path) {
		return real.Clean(path), nil
	}
	return real.Join("/work", path), nil
}

func EvalSymlinks(path string) (string, error) { return real.Clean(path), nil }
