// Package simfilepath is the part of path/filepath that looks at files.
package simfilepath

import (
	"io/fs"
	"path/filepath"
	"sort"
	"strings"

	"recengine/internal/zzsim/simos"
)

// Abs is filepath.Abs.
func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := simos.Getwd()
	return filepath.Join(wd, p), err
}

// EvalSymlinks is filepath.EvalSymlinks (the simulated disk has none).
func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Lstat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

// Glob is filepath.Glob.
func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := simos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	dirs := []string{filepath.Clean(dir)}
	if dir == "" {
		dirs[0] = "."
	}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(filepath.Clean(dir)); err != nil {
			return nil, err
		}
	}
	var r []string
	for _, d := range dirs {
		es, err := simos.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := filepath.Match(file, e.Name()); ok {
				r = append(r, filepath.Join(d, e.Name()))
			}
		}
	}
	return r, nil
}

// WalkDir is filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == filepath.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk is filepath.Walk.
func Walk(root string, fn filepath.WalkFunc) error {
	info, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	es, err := simos.ReadDir(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	names := make([]string, 0, len(es))
	for _, e := range es {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	for _, n := range names {
		f := filepath.Join(p, n)
		fi, err := simos.Lstat(f)
		if err != nil {
			if err := fn(f, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err := walk(f, fi, fn); err != nil {
			if !fi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}
