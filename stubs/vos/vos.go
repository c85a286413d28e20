// Package vos models the parts of package os used by the code with a
// filesystem in memory that can fail and lose power.
//
// Model: a change to a directory is durable after the directory was synced,
// and changes to one directory become durable in the order in which they were
// made; contents are durable after the file was synced, until then a crash
// leaves anything. Renaming is atomic.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"path/filepath"
	"time"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	PathError = fs.PathError
	DirEntry  = fs.DirEntry
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir

	PathSeparator = '/'
	SEEK_SET      = 0
	SEEK_CUR      = 1
	SEEK_END      = 2
	DevNull       = "/dev/null"
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrClosed     = fs.ErrClosed
	ErrInvalid    = fs.ErrInvalid
	ErrInjected   = errors.New("input/output error")
)

// An Inode is a file.
type Inode struct {
	Data  []byte
	Dur   []byte // what was synced last
	Dirty bool   // Data differs from Dur
	Torn  bool   // something else may be on the disk
	Maps  []*Mapping
	mem   []byte // what the mappings show
}

// A Mapping is a part of a file in memory.
type Mapping struct {
	Ino  *Inode
	Off  int
	Buf  []byte
}

type name struct {
	path string
	ino  *Inode
}

type dirOp struct {
	dir string
	add string
	ino *Inode
	del string
}

var (
	names   []name // current
	durable []name // on the disk
	pending []dirOp
	open    int

	// Fault is asked before every operation: 0 goes on, 1 fails, 2 fails
	// after having taken effect.
	Fault func(op, path string) int

	PageSize = 4096
	MaxMem   = 1 << 16 // largest part of a file that can be mapped
	Pid      = 1000
)

// Init empties the filesystem.
func Init() {
	names, durable, pending, open = nil, nil, nil, 0
	Fault = nil
}

func fault(op, path string) int {
	if Fault == nil {
		return 0
	}
	return Fault(op, path)
}

func find(l []name, p string) int {
	for i := range l {
		if l[i].path == p {
			return i
		}
	}
	return -1
}

func apply(l []name, o dirOp) []name {
	var r []name
	done := false
	for _, n := range l {
		switch {
		case n.path == o.add:
			r = append(r, name{o.add, o.ino})
			done = true
		case n.path == o.del:
		default:
			r = append(r, n)
		}
	}
	if !done && o.add != "" {
		r = append(r, name{o.add, o.ino})
	}
	return r
}

func dirOps(o dirOp) {
	names = apply(names, o)
	pending = append(pending, o)
}

// Lookup returns the file at path (or nil).
func Lookup(path string) *Inode {
	if i := find(names, path); i >= 0 {
		return names[i].ino
	}
	return nil
}

// Put stores a file durably.
func Put(path string, data []byte) *Inode {
	ino := &Inode{Data: data, Dur: append([]byte(nil), data...)}
	o := dirOp{add: path, ino: ino}
	names = apply(names, o)
	durable = apply(durable, o)
	return ino
}

// Forget removes a file durably.
func Forget(path string) {
	o := dirOp{del: path}
	names = apply(names, o)
	durable = apply(durable, o)
}

// OpenFiles returns the number of open files.
func OpenFiles() int { return open }

// flush brings the file in step with its mappings.
func (ino *Inode) flush() {
	for _, m := range ino.Maps {
		if m.Off < len(ino.Data) {
			copy(ino.Data[m.Off:], m.Buf)
		}
		ino.Dirty = true
	}
}

// spread brings the mappings in step with the file.
func (ino *Inode) spread() {
	for _, m := range ino.Maps {
		if m.Off < len(ino.Data) {
			copy(m.Buf, ino.Data[m.Off:])
		}
	}
}

// Map maps part of a file.
func (f *File) Map(off, n int) (*Mapping, error) {
	if f.closed {
		return nil, ErrClosed
	}
	if k := fault("mmap", f.name); k != 0 {
		return nil, ErrInjected
	}
	// touching a page beyond the end of the file ends the process
	max := (len(f.ino.Data)+PageSize-1)/PageSize*PageSize - off
	if max < 0 {
		max = 0
	}
	if n > max {
		n = max
	}
	if off+n > MaxMem {
		panic("vos: cannot map that much")
	}
	if f.ino.mem == nil {
		f.ino.mem = make([]byte, MaxMem)
	}
	m := &Mapping{Ino: f.ino, Off: off, Buf: f.ino.mem[off : off+n : off+n]}
	f.ino.flush()
	if off < len(f.ino.Data) {
		k := copy(m.Buf, f.ino.Data[off:])
		for ; k < n; k++ {
			m.Buf[k] = 0
		}
	}
	f.ino.Maps = append(f.ino.Maps, m)
	f.ino.Dirty = true
	return m, nil
}

// Drop unmaps a mapping; what still uses the memory finds garbage.
func (m *Mapping) Drop() {
	m.Ino.flush()
	var r []*Mapping
	for _, x := range m.Ino.Maps {
		if x != m {
			r = append(r, x)
		}
	}
	m.Ino.Maps = r
	for k := range m.Buf {
		m.Buf[k] = 0xdd
	}
	m.Ino.spread()
}

// Flush makes the mapped part of the file durable.
func (m *Mapping) Flush() {
	m.Ino.flush()
	d := m.Ino.Data
	for len(m.Ino.Dur) < len(d) && len(m.Ino.Dur) < m.Off+len(m.Buf) {
		m.Ino.Dur = append(m.Ino.Dur, 0)
	}
	for k := m.Off; k < m.Off+len(m.Buf) && k < len(d) && k < len(m.Ino.Dur); k++ {
		m.Ino.Dur[k] = d[k]
	}
}

// Crash loses power: kept chooses how many of the directory changes that were
// not synced are kept, torn gives the contents of a file that was not synced.
func Crash(kept func(n int) int, torn func(path string, ino *Inode) []byte) {
	for _, n := range names {
		n.ino.flush()
	}
	for _, n := range durable {
		n.ino.flush()
	}
	k := 0
	if len(pending) > 0 {
		k = kept(len(pending))
	}
	for i := 0; i < k; i++ {
		durable = apply(durable, pending[i])
	}
	pending = nil
	names = append([]name(nil), durable...)
	seen := []*Inode{}
	for _, n := range names {
		old := false
		for _, s := range seen {
			old = old || s == n.ino
		}
		if old {
			continue
		}
		seen = append(seen, n.ino)
		n.ino.Maps = nil
		if n.ino.Dirty {
			n.ino.Data = torn(n.path, n.ino)
			n.ino.Dirty = false
		}
		n.ino.Dur = append([]byte(nil), n.ino.Data...)
	}
	open = 0
	Fault = nil
}

type File struct {
	name   string
	ino    *Inode
	pos    int
	closed bool
	dir    bool
	flag   int
}

func perr(op, path string, err error) error { return &PathError{Op: op, Path: path, Err: err} }

func OpenFile(path string, flag int, perm FileMode) (*File, error) {
	path = filepath.Clean(path)
	op := "open"
	ino := Lookup(path)
	if flag&(O_CREATE|O_TRUNC) != 0 {
		op = "create"
	}
	k := fault(op, path)
	if k == 1 {
		return nil, perr("open", path, ErrInjected)
	}
	if ino == nil && isDir(path) {
		if flag&3 != O_RDONLY {
			return nil, perr("open", path, errors.New("is a directory"))
		}
		open++
		return &File{name: path, dir: true}, nil
	}
	if ino == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", path, ErrNotExist)
		}
		ino = &Inode{Dirty: false}
		dirOps(dirOp{dir: filepath.Dir(path), add: path, ino: ino})
	} else {
		if flag&O_EXCL != 0 {
			return nil, perr("open", path, ErrExist)
		}
		if flag&O_TRUNC != 0 && len(ino.Data) > 0 {
			ino.Data = nil
			ino.Dirty = true
		}
	}
	if k == 2 {
		return nil, perr("open", path, ErrInjected)
	}
	open++
	return &File{name: path, ino: ino, flag: flag}, nil
}

func isDir(path string) bool {
	if path == "/" || path == "." {
		return true
	}
	for _, n := range names {
		if filepath.Dir(n.path) == path {
			return true
		}
	}
	return path == "/v"
}

func Open(path string) (*File, error) { return OpenFile(path, O_RDONLY, 0) }
func Create(path string) (*File, error) {
	return OpenFile(path, O_RDWR|O_CREATE|O_TRUNC, 0666)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, ErrClosed)
	}
	k := fault("close", f.name)
	f.closed = true
	open--
	if k != 0 {
		return perr("close", f.name, ErrInjected)
	}
	return nil
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	if f.dir {
		return perr(op, f.name, errors.New("is a directory"))
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	n, err := f.readAt(b, f.pos)
	f.pos += n
	return n, err
}

func (f *File) readAt(b []byte, pos int) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.flag&3 == O_WRONLY {
		return 0, perr("read", f.name, ErrPermission)
	}
	if fault("read", f.name) != 0 {
		return 0, perr("read", f.name, ErrInjected)
	}
	f.ino.flush()
	if len(b) == 0 {
		return 0, nil
	}
	if pos >= len(f.ino.Data) {
		return 0, io.EOF
	}
	return copy(b, f.ino.Data[pos:]), nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	n, err := f.readAt(b, int(off))
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.flag&O_APPEND != 0 {
		f.pos = len(f.ino.Data)
	}
	n, err := f.writeAt(b, f.pos)
	f.pos += n
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) { return f.writeAt(b, int(off)) }

func (f *File) writeAt(b []byte, pos int) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&3 == O_RDONLY {
		return 0, perr("write", f.name, ErrPermission)
	}
	k := fault("write", f.name)
	if k == 1 {
		return 0, perr("write", f.name, ErrInjected)
	}
	n := len(b)
	if k == 2 {
		n /= 2
	}
	f.ino.flush()
	d := f.ino.Data
	for len(d) < pos {
		d = append(d, 0)
	}
	if len(d) >= pos+n {
		copy(d[pos:], b[:n])
	} else {
		d = append(d[:pos:pos], b[:n]...)
	}
	f.ino.Data = d
	f.ino.Dirty = true
	f.ino.spread()
	if k == 2 {
		return n, perr("write", f.name, ErrInjected)
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if fault("seek", f.name) != 0 {
		return 0, perr("seek", f.name, ErrInjected)
	}
	switch whence {
	case 1:
		off += int64(f.pos)
	case 2:
		off += int64(len(f.ino.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, ErrInvalid)
	}
	f.pos = int(off)
	return off, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if size < 0 {
		return perr("truncate", f.name, ErrInvalid)
	}
	k := fault("truncate", f.name)
	if k == 1 {
		return perr("truncate", f.name, ErrInjected)
	}
	f.ino.flush()
	d := make([]byte, size)
	copy(d, f.ino.Data)
	f.ino.Data = d
	f.ino.Dirty = true
	if k == 2 {
		return perr("truncate", f.name, ErrInjected)
	}
	return nil
}

func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr("sync", f.name, ErrClosed)
	}
	if f.dir {
		k := fault("syncdir", f.name)
		if k == 1 {
			return perr("sync", f.name, ErrInjected)
		}
		var rest []dirOp
		for _, o := range pending {
			if o.dir == f.name {
				durable = apply(durable, o)
			} else {
				rest = append(rest, o)
			}
		}
		pending = rest
		if k == 2 {
			return perr("sync", f.name, ErrInjected)
		}
		return nil
	}
	k := fault("sync", f.name)
	if k == 1 {
		return perr("sync", f.name, ErrInjected)
	}
	f.ino.flush()
	f.ino.Dur = append([]byte(nil), f.ino.Data...)
	f.ino.Dirty = false
	if k == 2 {
		return perr("sync", f.name, ErrInjected)
	}
	return nil
}

type info struct {
	name string
	size int64
	dir  bool
	ino  *Inode
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() FileMode {
	if i.dir {
		return ModeDir | 0700
	}
	return 0600
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() interface{}   { return nil }

func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	if f.closed {
		return nil, perr("stat", f.name, ErrClosed)
	}
	if fault("stat", f.name) != 0 {
		return nil, perr("stat", f.name, ErrInjected)
	}
	if f.dir {
		return info{filepath.Base(f.name), 0, true, nil}, nil
	}
	f.ino.flush()
	return info{filepath.Base(f.name), int64(len(f.ino.Data)), false, f.ino}, nil
}

func (f *File) Chmod(m FileMode) error { return nil }

func Stat(path string) (FileInfo, error) {
	path = filepath.Clean(path)
	if fault("stat", path) != 0 {
		return nil, perr("stat", path, ErrInjected)
	}
	ino := Lookup(path)
	if ino == nil {
		if isDir(path) {
			return info{filepath.Base(path), 0, true, nil}, nil
		}
		return nil, perr("stat", path, ErrNotExist)
	}
	ino.flush()
	return info{filepath.Base(path), int64(len(ino.Data)), false, ino}, nil
}

func Lstat(path string) (FileInfo, error) { return Stat(path) }

func SameFile(a, b FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && x.ino == y.ino
}

func Remove(path string) error {
	path = filepath.Clean(path)
	k := fault("remove", path)
	if k == 1 {
		return perr("remove", path, ErrInjected)
	}
	if Lookup(path) == nil {
		return perr("remove", path, ErrNotExist)
	}
	dirOps(dirOp{dir: filepath.Dir(path), del: path})
	if k == 2 {
		return perr("remove", path, ErrInjected)
	}
	return nil
}

func RemoveAll(path string) error {
	err := Remove(path)
	if IsNotExist(err) {
		return nil
	}
	return err
}

func Rename(a, b string) error {
	a, b = filepath.Clean(a), filepath.Clean(b)
	k := fault("rename", b)
	if k == 1 {
		return perr("rename", a, ErrInjected)
	}
	ino := Lookup(a)
	if ino == nil {
		return perr("rename", a, ErrNotExist)
	}
	dirOps(dirOp{dir: filepath.Dir(b), add: b, ino: ino, del: a})
	if k == 2 {
		return perr("rename", a, ErrInjected)
	}
	return nil
}

func Link(a, b string) error {
	a, b = filepath.Clean(a), filepath.Clean(b)
	k := fault("link", b)
	if k == 1 {
		return perr("link", a, ErrInjected)
	}
	ino := Lookup(a)
	if ino == nil {
		return perr("link", a, ErrNotExist)
	}
	if Lookup(b) != nil {
		return perr("link", a, ErrExist)
	}
	dirOps(dirOp{dir: filepath.Dir(b), add: b, ino: ino})
	if k == 2 {
		return perr("link", a, ErrInjected)
	}
	return nil
}

func Truncate(path string, size int64) error {
	f, err := OpenFile(path, O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func ReadFile(path string) ([]byte, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.check("read"); err != nil {
		return nil, err
	}
	if fault("read", path) != 0 {
		return nil, perr("read", path, ErrInjected)
	}
	f.ino.flush()
	return append([]byte{}, f.ino.Data...), nil
}

func WriteFile(path string, data []byte, perm FileMode) error {
	f, err := OpenFile(path, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err2 := f.Close(); err == nil {
		err = err2
	}
	return err
}

func Mkdir(path string, perm FileMode) error    { return nil }
func MkdirAll(path string, perm FileMode) error { return nil }
func Chmod(path string, perm FileMode) error    { return nil }
func Getpagesize() int                          { return PageSize }
func Getpid() int                               { return Pid }
func Getwd() (string, error)                    { return "/v", nil }
func TempDir() string                           { return "/v" }
func Getenv(string) string                      { return "" }

func under(err error) error {
	if e, ok := err.(*PathError); ok {
		return e.Err
	}
	return err
}

func IsNotExist(err error) bool   { return under(err) == ErrNotExist }
func IsExist(err error) bool      { return under(err) == ErrExist }
func IsPermission(err error) bool { return under(err) == ErrPermission }
