// Package mf is a file system in memory that stands in for package os in the in-memory engine.
// Harnesses choose where operations fail and where the process ends.
package mf

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/hyperonym/ratus/internal/zzverif/rt"
)

type inode struct {
	data []byte
	dir  bool
	mode fs.FileMode
}

var (
	files  = map[string]*inode{}
	serial int

	// Faults is how many operations may still fail, Crash whether the process may end.
	Faults  int
	Crash   bool
	Crashed bool
	// Failed tells whether an operation failed.
	Failed bool
	// Gates makes every operation but a write a place where other threads may go on.
	Gates bool
	// ReadFaults lets opening and reading a file fail too.
	ReadFaults bool
	// Reads counts files opened for reading.
	Reads int
)

var (
	ErrFault   = errors.New("input/output error")
	errCrashed = errors.New("the process ended")
)

// Reset empties the file system.
func Reset() {
	files = map[string]*inode{}
	Faults, Crash, Crashed, Failed, Gates, ReadFaults = 0, false, false, false, false, false
}

// Restart ends the faults and brings the process back.
func Restart() { Faults, Crash, Crashed, ReadFaults = 0, false, false, false }

// Names lists the files.
func Names() []string {
	var r []string
	for n := range files {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// point is a place where the process may end or an operation may fail.
func point(op, name string) error {
	if Gates && op != "write" {
		rt.Gate(nil)
	}
	if Crashed {
		return &fs.PathError{Op: op, Path: name, Err: errCrashed}
	}
	n := 1
	if Faults > 0 {
		n = 2
	}
	if Crash {
		n++
	}
	if n == 1 {
		return nil
	}
	k := rt.Choose("fs."+op, n)
	if k == 0 {
		return nil
	}
	if k == 1 && Faults > 0 {
		Faults--
		Failed = true
		return &fs.PathError{Op: op, Path: name, Err: ErrFault}
	}
	Crashed = true
	return &fs.PathError{Op: op, Path: name, Err: errCrashed}
}

func notExist(op, name string) error { return &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist} }

// File is an open file.
type File struct {
	name   string
	n      *inode
	off    int
	read   bool
	write  bool
	app    bool
	closed bool
	bad    int // where reading fails, or -1
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if flag != os.O_RDONLY || ReadFaults {
		if err := point("open", name); err != nil {
			return nil, err
		}
	} else if Crashed {
		return nil, &fs.PathError{Op: "open", Path: name, Err: errCrashed}
	}
	n := files[name]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, notExist("open", name)
		}
		n = &inode{mode: perm}
		files[name] = n
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrExist}
	}
	f := &File{name: name, n: n, app: flag&os.O_APPEND != 0, bad: -1}
	switch flag & (os.O_WRONLY | os.O_RDWR) {
	case os.O_WRONLY:
		f.write = true
	case os.O_RDWR:
		f.read, f.write = true, true
	default:
		f.read = true
		Reads++
		if ReadFaults && Faults > 0 {
			if k := rt.Choose("fs.read", 4); k > 0 {
				Faults--
				f.bad = len(n.data) * (k - 1) / 2
			}
		}
	}
	if flag&os.O_TRUNC != 0 && f.write {
		n.data = nil
	}
	return f, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	serial++
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return OpenFile(dir+"/"+pre+strconv.Itoa(serial)+suf, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func (f *File) Name() string { return f.name }

func (f *File) Write(b []byte) (int, error) {
	if f.closed || !f.write {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: fs.ErrClosed}
	}
	done, before := len(b), Crashed
	err := point("write", f.name)
	if err != nil {
		if before {
			return 0, err
		}
		done = 0 // or a part of it
		if len(b) > 1 && rt.Choose("fs.part", 2) == 1 {
			done = len(b) / 2
		}
	}
	if f.app {
		f.off = len(f.n.data)
	}
	for len(f.n.data) < f.off {
		f.n.data = append(f.n.data, 0)
	}
	d := append([]byte{}, f.n.data[:f.off]...)
	d = append(d, b[:done]...)
	if f.off+done < len(f.n.data) {
		d = append(d, f.n.data[f.off+done:]...)
	}
	f.n.data = d
	f.off += done
	return done, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if f.closed || !f.read {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: fs.ErrClosed}
	}
	if f.bad >= 0 && f.off >= f.bad {
		Failed = true
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: ErrFault}
	}
	if f.off >= len(f.n.data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	d := f.n.data[f.off:]
	if f.bad >= 0 {
		d = f.n.data[f.off:f.bad]
	}
	k := copy(b, d)
	f.off += k
	return k, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.off = int(off)
	case io.SeekCurrent:
		f.off += int(off)
	case io.SeekEnd:
		f.off = len(f.n.data) + int(off)
	}
	return int64(f.off), nil
}

func (f *File) Truncate(size int64) error {
	if err := point("truncate", f.name); err != nil {
		return err
	}
	for int64(len(f.n.data)) < size {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:size]
	return nil
}

func (f *File) Sync() error {
	if f.closed {
		return &fs.PathError{Op: "sync", Path: f.name, Err: fs.ErrClosed}
	}
	return point("sync", f.name)
}

func (f *File) Close() error {
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: fs.ErrClosed}
	}
	f.closed = true
	if !f.write {
		return nil
	}
	return point("close", f.name)
}

func (f *File) Chmod(mode fs.FileMode) error {
	if err := point("chmod", f.name); err != nil {
		return err
	}
	f.n.mode = mode
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) { return info{f.name, f.n}, nil }

type info struct {
	name string
	n    *inode
}

func (i info) Name() string       { return i.name[strings.LastIndexByte(i.name, '/')+1:] }
func (i info) Size() int64        { return int64(len(i.n.data)) }
func (i info) Mode() fs.FileMode  { return i.n.mode }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }

func Rename(from, to string) error {
	if err := point("rename", from); err != nil {
		return err
	}
	n := files[from]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	delete(files, from)
	files[to] = n
	return nil
}

func Remove(name string) error {
	if err := point("remove", name); err != nil {
		return err
	}
	if files[name] == nil {
		return notExist("remove", name)
	}
	delete(files, name)
	return nil
}

func RemoveAll(name string) error {
	if err := point("remove", name); err != nil {
		return err
	}
	delete(files, name)
	return nil
}

func Stat(name string) (fs.FileInfo, error) {
	if err := point("stat", name); err != nil {
		return nil, err
	}
	n := files[name]
	if n == nil {
		return nil, notExist("stat", name)
	}
	return info{name, n}, nil
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, b []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Chmod(name string, mode fs.FileMode) error {
	if err := point("chmod", name); err != nil {
		return err
	}
	if files[name] == nil {
		return notExist("chmod", name)
	}
	files[name].mode = mode
	return nil
}

func Link(from, to string) error {
	if err := point("link", from); err != nil {
		return err
	}
	if files[from] == nil {
		return notExist("link", from)
	}
	if files[to] != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: fs.ErrExist}
	}
	files[to] = files[from]
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error { return point("mkdir", name) }
func Mkdir(name string, perm fs.FileMode) error    { return point("mkdir", name) }
