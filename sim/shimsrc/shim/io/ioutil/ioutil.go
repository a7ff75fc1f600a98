package ioutil

import (
	"io"
	"io/fs"

	"vsim/shimsrc/shim/os"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, b []byte, p fs.FileMode) error { return os.WriteFile(n, b, p) }
func TempFile(d, p string) (*os.File, error)            { return os.CreateTemp(d, p) }
func TempDir(d, p string) (string, error)               { return os.MkdirTemp(d, p) }
func ReadDir(n string) (out []fs.FileInfo, err error) {
	es, err := os.ReadDir(n)
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
