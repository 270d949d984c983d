// Package ioutil stands in for the standard package.
package ioutil

import (
	"io"
	rioutil "io/ioutil"

	"MODULE/verifos/os"
)

var Discard = rioutil.Discard

func ReadAll(r io.Reader) ([]byte, error)                             { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                             { return io.NopCloser(r) }
func ReadFile(path string) ([]byte, error)                            { return os.ReadFile(path) }
func WriteFile(path string, data []byte, perm os.FileMode) error      { return os.WriteFile(path, data, perm) }
func TempFile(dir, pattern string) (*os.File, error)                  { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)                     { return os.MkdirTemp(dir, pattern) }
func ReadDir(path string) ([]os.FileInfo, error) {
	l, err := os.ReadDir(path)
	if err != nil {
		return nil, err
	}
	var out []os.FileInfo
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}
