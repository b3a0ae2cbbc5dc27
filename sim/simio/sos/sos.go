// Package sos replaces the parts of package os that touch files.
package sos

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"

	"zkverif/simio"
)

// File is an open simulated file.
type File struct {
	name  string
	ino   *simio.Inode
	off   int64
	flag  int
	dirty int64 // bytes appended since the last sync
	base  int64 // length that is certainly on disk
	shut  bool
	null  bool
}

var (
	Stdout = &File{name: "/dev/stdout", null: true}
	Stderr = &File{name: "/dev/stderr", null: true}
)

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	w := simio.W
	if f := w.Op("open", name); f != nil {
		return nil, simio.Errno("open", name, f.Kind)
	}
	ino := w.Files[name]
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		ino = &simio.Inode{}
		w.Files[name] = ino
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EEXIST}
	}
	if flag&os.O_TRUNC != 0 {
		ino.Data = nil
	}
	return &File{name: name, ino: ino, flag: flag, base: int64(len(ino.Data))}, nil
}

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) closed(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.shut {
		return &fs.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return nil
}

func (f *File) put(b []byte, at int64) {
	if at > int64(len(f.ino.Data)) {
		f.ino.Data = append(f.ino.Data, make([]byte, at-int64(len(f.ino.Data)))...)
	}
	n := copy(f.ino.Data[at:], b)
	f.ino.Data = append(f.ino.Data, b[n:]...)
	if at < f.base {
		f.base = at
	}
	f.dirty += int64(len(b))
}

func (f *File) write(b []byte, at int64) (int, error) {
	if err := f.closed("write"); err != nil {
		return 0, err
	}
	if f.null {
		simio.Say(string(b), f == Stderr)
		return len(b), nil
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
	}
	if len(b) == 0 {
		return 0, nil
	}
	w := simio.W
	ft := w.Op("write", fmt.Sprintf("%s %d bytes at %d", f.name, len(b), at))
	if w.Full {
		return 0, simio.Errno("write", f.name, "enospc")
	}
	if ft != nil {
		n := 0
		if ft.Kind == "crash" {
			// torn, or complete with the process gone before it learns so
			f.put(b[:uint64(ft.Arg)%uint64(len(b)+1)], at)
			w.Die()
		}
		if ft.Kind == "short" {
			n = int(uint64(ft.Arg) % uint64(len(b)))
			f.put(b[:n], at)
			w.Full = ft.Arg&1 == 0
		}
		return n, simio.Errno("write", f.name, ft.Kind)
	}
	f.put(b, at)
	return len(b), nil
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && !f.null && f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.ino.Data))
	}
	if f == nil {
		return 0, os.ErrInvalid
	}
	n, err := f.write(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) { return f.write(b, off) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}

func (f *File) Read(b []byte) (int, error) {
	n, err := f.ReadAt(b, f.off)
	f.off += int64(n)
	if n > 0 {
		err = nil
	}
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.closed("read"); err != nil {
		return 0, err
	}
	if ft := simio.W.Op("read", f.name); ft != nil {
		return 0, simio.Errno("read", f.name, ft.Kind)
	}
	if off >= int64(len(f.ino.Data)) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.closed("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.off = off
	case io.SeekCurrent:
		f.off += off
	default:
		f.off = int64(len(f.ino.Data)) + off
	}
	return f.off, nil
}

func (f *File) Truncate(n int64) error {
	if err := f.closed("truncate"); err != nil {
		return err
	}
	return truncIno(f.name, f.ino, n)
}

func truncIno(name string, ino *simio.Inode, n int64) error {
	if ft := simio.W.Op("truncate", name); ft != nil {
		return simio.Errno("truncate", name, ft.Kind)
	}
	if n < int64(len(ino.Data)) {
		ino.Data = ino.Data[:n]
	} else {
		ino.Data = append(ino.Data, make([]byte, n-int64(len(ino.Data)))...)
	}
	return nil
}

// lose drops part of what was written since the last sync.
func (f *File) lose(arg int64) {
	if f.dirty > 0 && int64(len(f.ino.Data)) > f.base {
		k := 1 + int64(uint64(arg)%uint64(int64(len(f.ino.Data))-f.base))
		f.ino.Data = f.ino.Data[:int64(len(f.ino.Data))-k]
	}
}

func (f *File) Sync() error {
	if err := f.closed("sync"); err != nil {
		return err
	}
	if ft := simio.W.Op("sync", f.name); ft != nil {
		f.lose(ft.Arg)
		return simio.Errno("sync", f.name, ft.Kind)
	}
	f.dirty, f.base = 0, int64(len(f.ino.Data))
	return nil
}

func (f *File) Close() error {
	if err := f.closed("close"); err != nil {
		return err
	}
	if f.null {
		return nil
	}
	f.shut = true
	if ft := simio.W.Op("close", f.name); ft != nil {
		f.lose(ft.Arg)
		return simio.Errno("close", f.name, ft.Kind)
	}
	return nil
}

func (f *File) Chmod(os.FileMode) error { return nil }

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() os.FileMode  { return 0644 }
func (i info) ModTime() time.Time { return time.UnixMicro(simio.W.NowUs) }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.closed("stat"); err != nil {
		return nil, err
	}
	return statIno(f.name, f.ino)
}

func statIno(name string, ino *simio.Inode) (os.FileInfo, error) {
	if ft := simio.W.Op("stat", name); ft != nil {
		return nil, simio.Errno("stat", name, ft.Kind)
	}
	return info{name[strings.LastIndex(name, "/")+1:], int64(len(ino.Data))}, nil
}

func Stat(name string) (os.FileInfo, error) {
	ino := simio.W.Files[name]
	if ino == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return statIno(name, ino)
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Truncate(name string, n int64) error {
	ino := simio.W.Files[name]
	if ino == nil {
		return &fs.PathError{Op: "truncate", Path: name, Err: syscall.ENOENT}
	}
	return truncIno(name, ino, n)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Remove(name string) error {
	if ft := simio.W.Op("remove", name); ft != nil {
		return simio.Errno("remove", name, ft.Kind)
	}
	if simio.W.Files[name] == nil {
		return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
	}
	delete(simio.W.Files, name)
	return nil
}

func Rename(a, b string) error {
	if ft := simio.W.Op("rename", a+" to "+b); ft != nil {
		return simio.Errno("rename", a, ft.Kind)
	}
	ino := simio.W.Files[a]
	if ino == nil {
		return &fs.PathError{Op: "rename", Path: a, Err: syscall.ENOENT}
	}
	delete(simio.W.Files, a)
	simio.W.Files[b] = ino
	return nil
}

func Mkdir(string, os.FileMode) error    { return nil }
func MkdirAll(string, os.FileMode) error { return nil }
func Chmod(string, os.FileMode) error    { return nil }

func CreateTemp(dir, pattern string) (*File, error) {
	for i := 0; ; i++ {
		n := fmt.Sprintf("%s/%s%d", dir, strings.ReplaceAll(pattern, "*", ""), i)
		if simio.W.Files[n] == nil {
			return OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		}
	}
}

func Exit(code int) { panic(fmt.Sprintf("exit status %d", code)) }
