// Package filepath works on the simulated file system. Glob and Walk follow the standard library.
package filepath

import (
	"errors"
	"io/fs"
	stdfp "path/filepath"
	"sort"
	"strings"

	"vsim/shimsrc/shim/os"
)

const (
	Separator     = stdfp.Separator
	ListSeparator = stdfp.ListSeparator
)

type WalkFunc = stdfp.WalkFunc

var (
	ErrBadPattern = stdfp.ErrBadPattern
	SkipDir       = stdfp.SkipDir
	SkipAll       = stdfp.SkipAll
)

func Base(p string) string            { return stdfp.Base(p) }
func Clean(p string) string           { return stdfp.Clean(p) }
func Dir(p string) string             { return stdfp.Dir(p) }
func Ext(p string) string             { return stdfp.Ext(p) }
func FromSlash(p string) string       { return stdfp.FromSlash(p) }
func ToSlash(p string) string         { return stdfp.ToSlash(p) }
func IsAbs(p string) bool             { return stdfp.IsAbs(p) }
func IsLocal(p string) bool           { return stdfp.IsLocal(p) }
func Join(e ...string) string         { return stdfp.Join(e...) }
func Match(p, n string) (bool, error) { return stdfp.Match(p, n) }
func Rel(a, b string) (string, error) { return stdfp.Rel(a, b) }
func Split(p string) (string, string) { return stdfp.Split(p) }
func SplitList(p string) []string     { return stdfp.SplitList(p) }
func VolumeName(p string) string      { return stdfp.VolumeName(p) }
func EvalSymlinks(p string) (string, error) {
	if _, err := os.Lstat(p); err != nil {
		return "", err
	}
	return Clean(p), nil
}
func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := os.Getwd()
	return Join(wd, p), err
}

func hasMeta(p string) bool { return strings.ContainsAny(p, `*?[\`) }

func Glob(pattern string) (matches []string, err error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	if !hasMeta(pattern) {
		if _, err = os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	if !hasMeta(dir) {
		return glob(dir, file, nil)
	}
	if dir == pattern {
		return nil, ErrBadPattern
	}
	var m []string
	m, err = Glob(dir)
	if err != nil {
		return
	}
	for _, d := range m {
		matches, err = glob(d, file, matches)
		if err != nil {
			return
		}
	}
	return
}

func glob(dir, pattern string, matches []string) (m []string, e error) {
	m = matches
	fi, err := os.Stat(dir)
	if err != nil || !fi.IsDir() {
		return
	}
	d, err := os.Open(dir)
	if err != nil {
		return
	}
	defer d.Close()
	names, _ := d.Readdirnames(-1)
	sort.Strings(names)
	for _, n := range names {
		matched, err := Match(pattern, n)
		if err != nil {
			return m, err
		}
		if matched {
			m = append(m, Join(dir, n))
		}
	}
	return
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if errors.Is(err, SkipDir) || errors.Is(err, SkipAll) {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := os.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(Join(path, d1.Name()), d1, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		var info fs.FileInfo
		if d != nil {
			info, _ = d.Info()
		}
		return fn(path, info, err)
	})
}
