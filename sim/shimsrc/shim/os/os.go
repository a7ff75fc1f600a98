// Package os is the simulated operating system.
package os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	stdtime "time"

	"vsim/shimsrc/rt"
	"vsim/simrt"
)

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone
	Interrupt           = os.Interrupt
	Kill                = os.Kill

	Stdin, Stdout, Stderr *File
	Args                  []string
)

func IsNotExist(err error) bool                 { return os.IsNotExist(err) }
func IsExist(err error) bool                    { return os.IsExist(err) }
func IsPermission(err error) bool               { return os.IsPermission(err) }
func IsTimeout(err error) bool                  { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool              { return c == '/' }
func NewSyscallError(s string, err error) error { return os.NewSyscallError(s, err) }

func SimReset() {
	Stdin = &File{rt.P.Std(0), "/dev/stdin"}
	Stdout = &File{rt.P.Std(1), "/dev/stdout"}
	Stderr = &File{rt.P.Std(2), "/dev/stderr"}
	Args = append([]string{}, rt.P.Cmd.Args...)
}

func p() *simrt.Proc {
	if rt.P == nil {
		panic("os call outside of a simulated process")
	}
	return rt.P
}

func Exit(code int) { p().Exit(code) }

func Getenv(k string) string {
	if rt.P == nil {
		return ""
	}
	v, _ := rt.P.Getenv(k)
	return v
}

func LookupEnv(k string) (string, bool) {
	if rt.P == nil {
		return "", false
	}
	return rt.P.Getenv(k)
}
func Setenv(k, v string) error {
	m := map[string]string{k: v}
	for a, b := range p().Cmd.Env {
		if a != k {
			m[a] = b
		}
	}
	p().Cmd.Env = m
	return nil
}
func Unsetenv(k string) error {
	m := map[string]string{}
	for a, b := range p().Cmd.Env {
		if a != k {
			m[a] = b
		}
	}
	p().Cmd.Env = m
	return nil
}
func Clearenv() { p().Cmd.Env = nil }
func Environ() (out []string) {
	if rt.P == nil {
		return nil
	}
	for k, v := range rt.P.Cmd.Env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return
}
func Expand(s string, f func(string) string) string { return os.Expand(s, f) }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }

func Getwd() (string, error)         { return p().W.Cwd, nil }
func Chdir(d string) error           { p().W.Cwd = p().Abs(d); return nil }
func Hostname() (string, error)      { return "sim", nil }
func Getpid() int                    { return 1000 + p().ID }
func Getppid() int                   { return 1 }
func Getuid() int                    { return 1000 }
func Geteuid() int                   { return 1000 }
func Getgid() int                    { return 1000 }
func Getegid() int                   { return 1000 }
func Getpagesize() int               { return 4096 }
func TempDir() string                { return "/tmp" }
func UserHomeDir() (string, error)   { return "/home/sim", nil }
func UserConfigDir() (string, error) { return "/home/sim/.config", nil }
func UserCacheDir() (string, error)  { return "/home/sim/.cache", nil }
func Executable() (string, error)    { return "/bin/" + p().Cmd.Args[0], nil }

func perr(op, name string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return &PathError{Op: op, Path: name, Err: err}
}

// File is an open file.
type File struct {
	d    *simrt.FD
	name string
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	d, err := p().Open(name, flag, perm)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return &File{d, name}, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func tempName(dir, pattern string) (string, string, error) {
	if dir == "" {
		dir = TempDir()
	}
	if strings.Contains(pattern, "/") {
		return "", "", &PathError{Op: "createtemp", Path: pattern, Err: errors.New("pattern contains path separator")}
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	if dir != "" && !strings.HasSuffix(dir, "/") {
		dir += "/"
	}
	return dir + pre, suf, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	pre, suf, err := tempName(dir, pattern)
	if err != nil {
		return nil, err
	}
	for try := 0; ; try++ {
		name := pre + p().TempSuffix() + suf
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0o600)
		if IsExist(err) && try < 1000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	pre, suf, err := tempName(dir, pattern)
	if err != nil {
		return "", err
	}
	for try := 0; ; try++ {
		name := pre + p().TempSuffix() + suf
		err := Mkdir(name, 0o700)
		if IsExist(err) && try < 1000 {
			continue
		}
		return name, err
	}
}

func (f *File) ck(op string) error {
	if f == nil {
		return ErrInvalid
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }
func (f *File) Read(b []byte) (int, error) {
	if err := f.ck("read"); err != nil {
		return 0, err
	}
	n, err := f.d.Read(b)
	return n, perr("read", f.name, err)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ck("read"); err != nil {
		return 0, err
	}
	n, err := f.d.ReadAt(b, off)
	return n, perr("read", f.name, err)
}
func (f *File) Write(b []byte) (int, error) {
	if err := f.ck("write"); err != nil {
		return 0, err
	}
	n, err := f.d.Write(b)
	return n, perr("write", f.name, err)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	cur, err := f.d.Seek(0, 1)
	if err != nil {
		return 0, perr("write", f.name, err)
	}
	if _, err := f.d.Seek(off, 0); err != nil {
		return 0, perr("write", f.name, err)
	}
	n, err := f.Write(b)
	f.d.Seek(cur, 0)
	return n, err
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Seek(o int64, w int) (int64, error) {
	if err := f.ck("seek"); err != nil {
		return 0, err
	}
	n, err := f.d.Seek(o, w)
	return n, perr("seek", f.name, err)
}
func (f *File) Close() error {
	if err := f.ck("close"); err != nil {
		return err
	}
	return perr("close", f.name, f.d.Close())
}
func (f *File) Sync() error {
	if err := f.ck("sync"); err != nil {
		return err
	}
	return perr("sync", f.name, f.d.Sync())
}
func (f *File) Truncate(n int64) error              { return perr("truncate", f.name, f.d.Truncate(n)) }
func (f *File) Chmod(m FileMode) error              { return perr("chmod", f.name, f.d.Chmod(m)) }
func (f *File) Chown(uid, gid int) error            { return nil }
func (f *File) Chdir() error                        { return Chdir(f.name) }
func (f *File) SetDeadline(stdtime.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(stdtime.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(stdtime.Time) error { return ErrNoDeadline }
func (f *File) Stat() (FileInfo, error) {
	if err := f.ck("stat"); err != nil {
		return nil, err
	}
	fi, err := f.d.Stat()
	return fi, perr("stat", f.name, err)
}
func (f *File) Readdirnames(n int) ([]string, error) {
	if err := f.ck("readdir"); err != nil {
		return nil, err
	}
	names, _, err := f.d.ReadNames(n)
	return names, perr("readdirent", f.name, err)
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	if err := f.ck("readdir"); err != nil {
		return nil, err
	}
	_, infos, err := f.d.ReadNames(n)
	return infos, perr("readdirent", f.name, err)
}
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	infos, err := f.Readdir(n)
	var out []DirEntry
	for _, i := range infos {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, err
}

func Stat(name string) (FileInfo, error) {
	fi, err := p().Stat(name)
	return fi, perr("stat", name, err)
}
func Lstat(name string) (FileInfo, error) {
	fi, err := p().Stat(name)
	return fi, perr("lstat", name, err)
}
func SameFile(a, b FileInfo) bool { return simrt.SameNode(a, b) }
func Remove(name string) error    { return perr("remove", name, p().Remove(name)) }
func RemoveAll(name string) error {
	fi, err := Lstat(name)
	if IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	if fi.IsDir() {
		es, err := ReadDir(name)
		if err != nil {
			return err
		}
		for _, e := range es {
			if err := RemoveAll(name + "/" + e.Name()); err != nil {
				return err
			}
		}
	}
	return Remove(name)
}
func Rename(a, b string) error {
	if err := p().Rename(a, b); err != nil {
		return &LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	return nil
}
func Link(a, b string) error {
	if err := p().Link(a, b); err != nil {
		return &LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	return nil
}
func Symlink(a, b string) error {
	return &LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Readlink(name string) (string, error) { return "", perr("readlink", name, syscall.EINVAL) }
func Mkdir(name string, m FileMode) error  { return perr("mkdir", name, p().Mkdir(name, m)) }
func MkdirAll(name string, m FileMode) error {
	if fi, err := Stat(name); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(path.Clean(name)); d != "." && d != "/" {
		if err := MkdirAll(d, m); err != nil {
			return err
		}
	}
	err := Mkdir(name, m)
	if IsExist(err) {
		return nil
	}
	return err
}
func Truncate(name string, n int64) error    { return perr("truncate", name, p().Truncate(name, n)) }
func Chmod(name string, m FileMode) error    { return perr("chmod", name, p().Chmod(name, m)) }
func Chown(name string, uid, gid int) error  { return nil }
func Lchown(name string, uid, gid int) error { return nil }
func Chtimes(name string, a, m stdtime.Time) error {
	return perr("chtimes", name, p().Chtimes(name, m))
}
func Pipe() (*File, *File, error) { panic(simrt.Unsupported("os.Pipe")) }

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 4096)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }
func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) { return ReadDir(string(d) + "/" + name) }
func (d dirFS) ReadFile(name string) ([]byte, error)       { return ReadFile(string(d) + "/" + name) }
func (d dirFS) Stat(name string) (fs.FileInfo, error)      { return Stat(string(d) + "/" + name) }
