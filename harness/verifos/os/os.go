// Package os stands in for the standard package: files below /verifmem are kept in memory.
package os

import (
	"io"
	iofs "io/fs"
	ros "os"
	"path/filepath"
	"syscall"
	"time"

	"MODULE/verifos/fs"
)

type (
	FileInfo     = ros.FileInfo
	FileMode     = ros.FileMode
	DirEntry     = ros.DirEntry
	PathError    = ros.PathError
	LinkError    = ros.LinkError
	SyscallError = ros.SyscallError
	Signal       = ros.Signal
	Process      = ros.Process
)

const (
	O_RDONLY = ros.O_RDONLY
	O_WRONLY = ros.O_WRONLY
	O_RDWR   = ros.O_RDWR
	O_APPEND = ros.O_APPEND
	O_CREATE = ros.O_CREATE
	O_EXCL   = ros.O_EXCL
	O_SYNC   = ros.O_SYNC
	O_TRUNC  = ros.O_TRUNC

	ModePerm          = ros.ModePerm
	ModeDir           = ros.ModeDir
	PathSeparator     = ros.PathSeparator
	PathListSeparator = ros.PathListSeparator
	DevNull           = ros.DevNull
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
)

var (
	Stdin, Stdout, Stderr = ros.Stdin, ros.Stdout, ros.Stderr
	Args                  = ros.Args
	Interrupt             = ros.Interrupt
	Kill                  = ros.Kill

	ErrInvalid, ErrPermission, ErrExist, ErrNotExist, ErrClosed = ros.ErrInvalid, ros.ErrPermission, ros.ErrExist, ros.ErrNotExist, ros.ErrClosed
)

func IsNotExist(err error) bool                      { return ros.IsNotExist(err) }
func IsExist(err error) bool                         { return ros.IsExist(err) }
func IsPermission(err error) bool                    { return ros.IsPermission(err) }
func IsTimeout(err error) bool                       { return ros.IsTimeout(err) }
func IsPathSeparator(c uint8) bool                   { return ros.IsPathSeparator(c) }
func Getenv(k string) string                         { return ros.Getenv(k) }
func LookupEnv(k string) (string, bool)              { return ros.LookupEnv(k) }
func Setenv(k, v string) error                       { return ros.Setenv(k, v) }
func Unsetenv(k string) error                        { return ros.Unsetenv(k) }
func Environ() []string                              { return ros.Environ() }
func ExpandEnv(s string) string                      { return ros.ExpandEnv(s) }
func Expand(s string, f func(string) string) string  { return ros.Expand(s, f) }
func Exit(code int)                                  { ros.Exit(code) }
func Getpid() int                                    { return ros.Getpid() }
func Getuid() int                                    { return ros.Getuid() }
func Getwd() (string, error)                         { return ros.Getwd() }
func Hostname() (string, error)                      { return ros.Hostname() }
func TempDir() string                                { return ros.TempDir() }
func UserHomeDir() (string, error)                   { return ros.UserHomeDir() }
func Executable() (string, error)                    { return ros.Executable() }
func FindProcess(pid int) (*Process, error)          { return ros.FindProcess(pid) }
func NewSyscallError(s string, err error) error      { return ros.NewSyscallError(s, err) }
func Chown(string, int, int) error                   { return nil }
func Chmod(path string, m FileMode) error            { _, err := Stat(path); return err }
func Chtimes(path string, _, _ time.Time) error      { _, err := Stat(path); return err }
func SameFile(a, b FileInfo) bool                    { return ros.SameFile(a, b) }
func Readlink(path string) (string, error)           { return ros.Readlink(path) }

// File is a real file or one in memory.
type File struct {
	r *ros.File
	m *fs.Handle
}

func wrap(f *ros.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{r: f}, nil
}

func OpenFile(path string, flag int, perm FileMode) (*File, error) {
	if f := fs.For(path); f != nil {
		h, err := f.Open(path, flag)
		if err != nil {
			return nil, err
		}
		return &File{m: h}, nil
	}
	return wrap(ros.OpenFile(path, flag, perm))
}

func Open(path string) (*File, error)   { return OpenFile(path, O_RDONLY, 0) }
func Create(path string) (*File, error) { return OpenFile(path, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func (f *File) Name() string {
	if f.m != nil {
		return f.m.Name()
	}
	return f.r.Name()
}

func (f *File) Read(p []byte) (int, error) {
	if f.m == nil {
		return f.r.Read(p)
	}
	n, eof, err := f.m.ReadAt(p, -1)
	if err == nil && eof {
		err = io.EOF
	}
	return n, err
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if f.m == nil {
		return f.r.ReadAt(p, off)
	}
	n, _, err := f.m.ReadAt(p, off)
	if err == nil && n < len(p) {
		err = io.EOF
	}
	return n, err
}

func (f *File) Write(p []byte) (int, error) {
	if f.m == nil {
		return f.r.Write(p)
	}
	return f.m.WriteAt(p, -1)
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if f.m == nil {
		return f.r.WriteAt(p, off)
	}
	return f.m.WriteAt(p, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.m == nil {
		return f.r.Seek(off, whence)
	}
	return f.m.Seek(off, whence)
}

func (f *File) Sync() error {
	if f.m == nil {
		return f.r.Sync()
	}
	return f.m.Sync()
}

func (f *File) Truncate(n int64) error {
	if f.m == nil {
		return f.r.Truncate(n)
	}
	return f.m.Truncate(n)
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.m == nil {
		return f.r.Close()
	}
	return f.m.Close()
}

func (f *File) Stat() (FileInfo, error) {
	if f.m == nil {
		return f.r.Stat()
	}
	return f.m.Stat(), nil
}

func (f *File) Chmod(m FileMode) error {
	if f.m == nil {
		return f.r.Chmod(m)
	}
	return nil
}

func (f *File) Fd() uintptr {
	if f.m == nil {
		return f.r.Fd()
	}
	return ^uintptr(0)
}

func Stat(path string) (FileInfo, error) {
	if f := fs.For(path); f != nil {
		return f.Stat(path)
	}
	return ros.Stat(path)
}

func Lstat(path string) (FileInfo, error) {
	if f := fs.For(path); f != nil {
		return f.Stat(path)
	}
	return ros.Lstat(path)
}

func Rename(a, b string) error {
	if f := fs.For(a); f != nil {
		return f.Rename(a, b)
	}
	return ros.Rename(a, b)
}

func Remove(path string) error {
	if f := fs.For(path); f != nil {
		return f.Remove(path)
	}
	return ros.Remove(path)
}

func RemoveAll(path string) error {
	if f := fs.For(path); f != nil {
		for _, i := range f.ReadDir(path) {
			if err := RemoveAll(filepath.Join(path, i.Name())); err != nil {
				return err
			}
		}
		err := f.Remove(path)
		if IsNotExist(err) {
			err = nil
		}
		return err
	}
	return ros.RemoveAll(path)
}

func Link(a, b string) error {
	if fs.For(a) != nil {
		return &LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOTSUP}
	}
	return ros.Link(a, b)
}

func Symlink(a, b string) error {
	if fs.For(b) != nil {
		return &LinkError{Op: "symlink", Old: a, New: b, Err: syscall.ENOTSUP}
	}
	return ros.Symlink(a, b)
}

func Truncate(path string, n int64) error {
	if fs.For(path) == nil {
		return ros.Truncate(path, n)
	}
	f, err := OpenFile(path, O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func Mkdir(path string, perm FileMode) error {
	if f := fs.For(path); f != nil {
		return f.Mkdir(path)
	}
	return ros.Mkdir(path, perm)
}

func MkdirAll(path string, perm FileMode) error {
	f := fs.For(path)
	if f == nil {
		return ros.MkdirAll(path, perm)
	}
	if i, err := f.Stat(path); err == nil && i.IsDir() {
		return nil
	}
	if err := MkdirAll(filepath.Dir(path), perm); err != nil {
		return err
	}
	return f.Mkdir(path)
}

func ReadFile(path string) ([]byte, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(path string, data []byte, perm FileMode) error {
	f, err := OpenFile(path, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func ReadDir(path string) ([]DirEntry, error) {
	f := fs.For(path)
	if f == nil {
		return ros.ReadDir(path)
	}
	var l []DirEntry
	for _, i := range f.ReadDir(path) {
		l = append(l, iofs.FileInfoToDirEntry(i))
	}
	return l, nil
}

var tempCounter int

func CreateTemp(dir, pattern string) (*File, error) {
	if fs.For(dir) == nil {
		return wrap(ros.CreateTemp(dir, pattern))
	}
	for {
		tempCounter++
		name := pattern
		n := itoa(tempCounter)
		if i := lastStar(pattern); i >= 0 {
			name = pattern[:i] + n + pattern[i+1:]
		} else {
			name += n
		}
		f, err := OpenFile(filepath.Join(dir, name), O_RDWR|O_CREATE|O_EXCL, 0o600)
		if !IsExist(err) {
			return f, err
		}
	}
}

func itoa(n int) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func lastStar(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '*' {
			return i
		}
	}
	return -1
}

func MkdirTemp(dir, pattern string) (string, error) { return ros.MkdirTemp(dir, pattern) }
