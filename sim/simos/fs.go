// Package simos is the simulated operating system: an in-memory file system
// with a global operation order, per-operation faults and process crashes, the
// environment and process exit. Instrumented code is redirected to it wherever
// it names an identifier of package os that this package exports.
//
// Durability model: a completed write is durable (a process crash does not lose
// the page cache), a write in flight when its process dies leaves an arbitrary
// prefix of its bytes, rename is atomic.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"recengine/internal/zzsim/rt"
)

// Op is one file system operation, as shown to the hook, which decides its fate.
type Op struct {
	Kind  string // open create read write seek truncate close rename remove sync stat
	Path  string
	Off   int64
	N     int
	Data  []byte // of a write
	Proc  *rt.Proc
	Seq   int
	Flag  int
	Err   error         // set by the hook: the operation fails
	Part  int           // bytes transferred although it fails or crashes (-1: all)
	Crash bool          // the process dies here, after Part bytes
	Delay time.Duration // the device is slow
	Chunk int           // read at most this many bytes (0: no limit)
	Lose  bool          // a failing close loses the end of the last write, if it is the end of the file
}

// Inode is one file.
type Inode struct {
	Data []byte
	Prov []int32 // for each byte the Seq of the write that put it there, if tracked
	dir  bool
}

// FS is a file system.
type FS struct {
	names         map[string]*Inode
	Seq           int
	Track         bool // keep provenance
	Hook          func(*Op)
	After         func(*Op) // called after a successful mutating operation
	open          map[*File]bool
	tmp           int
	Env           map[string]string
	Cwd           string // /work if empty
	Reads, Writes int
}

// NewFS makes an empty file system with a root directory.
func NewFS() *FS {
	return &FS{names: map[string]*Inode{"/": {dir: true}, "/tmp": {dir: true}}, open: map[*File]bool{}, Env: map[string]string{}}
}

func cwd() string {
	if Cur != nil && Cur.Cwd != "" {
		return Cur.Cwd
	}
	return "/work"
}

// Cur is the file system of the current run.
var Cur *FS

func norm(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = cwd() + "/" + p
	}
	return path.Clean(p)
}

// Mkdir makes a directory without involving the hook.
func (f *FS) Mkdir(p string) { f.names[norm(p)] = &Inode{dir: true} }

// Put stores a file without involving the hook.
func (f *FS) Put(p string, data []byte) {
	f.names[norm(p)] = &Inode{Data: append([]byte(nil), data...), Prov: make([]int32, len(data))}
}

// Peek returns a copy of a file's bytes without involving the hook.
func (f *FS) Peek(p string) ([]byte, bool) {
	i := f.names[norm(p)]
	if i == nil || i.dir {
		return nil, false
	}
	return append([]byte(nil), i.Data...), true
}

// Inode returns the file itself.
func (f *FS) Inode(p string) *Inode { return f.names[norm(p)] }

// Delete removes a file without involving the hook.
func (f *FS) Delete(p string) { delete(f.names, norm(p)) }

// List names all files, sorted.
func (f *FS) List() []string {
	var r []string
	for n, i := range f.names {
		if !i.dir {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

// Snapshot copies all files.
func (f *FS) Snapshot() map[string][]byte {
	m := map[string][]byte{}
	for n, i := range f.names {
		if !i.dir {
			m[n] = append([]byte(nil), i.Data...)
		}
	}
	return m
}

// OpenHandles names the files the process has open.
func (f *FS) OpenHandles(p *rt.Proc) []string {
	var r []string
	for h := range f.open {
		if h.proc == p {
			r = append(r, h.name)
		}
	}
	sort.Strings(r)
	return r
}

// DropProc closes all handles of a dead process.
func (f *FS) DropProc(p *rt.Proc) {
	for h := range f.open {
		if h.proc == p {
			h.closed = true
			delete(f.open, h)
		}
	}
}

var errDead = errors.New("process is dead")

// begin runs the hook; it does not return when the process crashed before
// anything happened to the file (writes crash through part instead).
func (f *FS) begin(op *Op) error {
	if rt.Killed() {
		return errDead
	}
	rt.Yield(7)
	if rt.Killed() {
		return errDead
	}
	f.Seq++
	op.Seq = f.Seq
	op.Proc = rt.CurProc()
	if f.Hook != nil {
		f.Hook(op)
	}
	if rt.S != nil {
		if op.Delay > 0 {
			rt.S.Stat("fault.slow-io")
			rt.Sleep(op.Delay)
			if rt.Killed() {
				return errDead
			}
		}
		rt.S.Ev(op.Kind, op.Path, op.Off, op.N, op.Err, op.Crash)
		if op.Err != nil {
			rt.S.Stat("fault.io." + op.Kind)
			if op.Part > 0 && !op.Lose {
				rt.S.Stat("fault.io.partial-" + op.Kind)
			}
		}
	}
	if op.Crash && op.Kind != "write" {
		f.crash(op)
	}
	return op.Err
}

func (f *FS) crash(op *Op) {
	p := op.Proc
	rt.S.Stat("fault.crash")
	f.DropProc(p)
	rt.S.Kill(p)
}

func (f *FS) after(op *Op) {
	if f.After != nil {
		f.After(op)
	}
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// File stands for *os.File.
type File struct {
	fs     *FS
	name   string
	ino    *Inode
	off    int64
	flag   int
	closed bool
	proc   *rt.Proc
	dirpos int
	last   int64 // where the last write began and ended
	end    int64
}

func need() *FS {
	if Cur == nil {
		panic("simos: file operation outside a simulated run")
	}
	return Cur
}

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	f := need()
	p := norm(name)
	kind := "open"
	if f.names[p] == nil && flag&os.O_CREATE != 0 {
		kind = "create"
	}
	op := &Op{Kind: kind, Path: p, Flag: flag}
	if err := f.begin(op); err != nil {
		return nil, perr("open", name, err)
	}
	ino := f.names[p]
	if ino == nil {
		if flag&os.O_CREATE == 0 || name == "" {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if d := f.names[path.Dir(p)]; d == nil || !d.dir {
			return nil, perr("open", name, syscall.ENOENT)
		}
		ino = &Inode{}
		f.names[p] = ino
		f.after(op)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if ino.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			ino.Data, ino.Prov = nil, nil
			f.after(op)
		}
	}
	h := &File{fs: f, name: name, ino: ino, flag: flag, proc: rt.CurProc()}
	f.open[h] = true
	return h, nil
}

// Open is os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create is os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	f := need()
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		f.tmp++
		name := path.Join(dir, pre+itoa(f.tmp)+suf)
		h, err := OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return h, err
	}
}

func itoa(n int) string {
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

func (h *File) check(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if rt.Killed() {
		return perr(op, h.name, errDead)
	}
	if h.closed {
		return perr(op, h.name, os.ErrClosed)
	}
	return nil
}

func (h *File) Name() string { return h.name }
func (h *File) Fd() uintptr  { return 99 }

func (h *File) readAt(b []byte, off int64, kind string) (int, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	if h.flag&os.O_WRONLY != 0 {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if h.ino.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	op := &Op{Kind: "read", Path: norm(h.name), Off: off, N: len(b)}
	h.fs.Reads++
	err := h.fs.begin(op)
	if err != nil {
		n := 0
		if op.Part > 0 && off < int64(len(h.ino.Data)) {
			n = op.Part
			if n > len(b) {
				n = len(b)
			}
			n = copy(b[:n], h.ino.Data[off:])
			rt.LibWrite(b[:n])
		}
		return n, perr("read", h.name, err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(h.ino.Data)) {
		return 0, io.EOF
	}
	if op.Chunk > 0 && op.Chunk < len(b) {
		b = b[:op.Chunk]
	}
	n := copy(b, h.ino.Data[off:])
	rt.LibWrite(b[:n])
	return n, nil
}

// Read is (*os.File).Read.
func (h *File) Read(b []byte) (int, error) {
	if h == nil {
		return 0, os.ErrInvalid
	}
	n, err := h.readAt(b, h.off, "read")
	h.off += int64(n)
	return n, err
}

// ReadAt is (*os.File).ReadAt.
func (h *File) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, perr("readat", h.name, errors.New("negative offset"))
	}
	total := 0
	for len(b) > 0 {
		n, err := h.readAt(b, off, "read")
		total += n
		if err != nil {
			return total, err
		}
		b = b[n:]
		off += int64(n)
	}
	return total, nil
}

func (h *File) writeAt(b []byte, off int64) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	rt.LibRead(b)
	op := &Op{Kind: "write", Path: norm(h.name), Off: off, N: len(b), Data: b}
	h.fs.Writes++
	err := h.fs.begin(op)
	if rt.Killed() {
		return 0, errDead
	}
	n := len(b)
	if err != nil || op.Crash {
		n = op.Part
		if n < 0 || n > len(b) {
			n = len(b)
		}
	}
	h.ino.put(b[:n], off, int32(op.Seq), h.fs.Track)
	if n > 0 {
		h.last, h.end = off, off+int64(n)
		op.N = n
		h.fs.after(op)
	}
	if op.Crash {
		if n > 0 && n < len(b) {
			rt.S.Stat("fault.torn-write")
		}
		h.fs.crash(op)
		return n, errDead
	}
	if err != nil {
		return n, perr("write", h.name, err)
	}
	return n, nil
}

func (i *Inode) put(b []byte, off int64, seq int32, track bool) {
	end := off + int64(len(b))
	if len(b) == 0 {
		return
	}
	i.grow(end)
	copy(i.Data[off:], b)
	if track {
		for len(i.Prov) < len(i.Data) {
			i.Prov = append(i.Prov, 0)
		}
		for k := off; k < end; k++ {
			i.Prov[k] = seq
		}
	}
}

func (i *Inode) grow(end int64) {
	if int64(len(i.Data)) < end {
		if int64(cap(i.Data)) < end {
			nd := make([]byte, len(i.Data), end+end/2)
			copy(nd, i.Data)
			i.Data = nd
		}
		for int64(len(i.Data)) < end {
			i.Data = append(i.Data, 0)
		}
	}
}

// Write is (*os.File).Write.
func (h *File) Write(b []byte) (int, error) {
	if h == nil {
		return 0, os.ErrInvalid
	}
	if h.flag&os.O_APPEND != 0 && h.ino != nil {
		h.off = int64(len(h.ino.Data))
	}
	n, err := h.writeAt(b, h.off)
	h.off += int64(n)
	return n, err
}

// WriteAt is (*os.File).WriteAt.
func (h *File) WriteAt(b []byte, off int64) (int, error) { return h.writeAt(b, off) }

// WriteString is (*os.File).WriteString.
func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

// Seek is (*os.File).Seek.
func (h *File) Seek(offset int64, whence int) (int64, error) {
	if err := h.check("seek"); err != nil {
		return 0, err
	}
	op := &Op{Kind: "seek", Path: norm(h.name), Off: offset, N: whence}
	if err := h.fs.begin(op); err != nil {
		return 0, perr("seek", h.name, err)
	}
	n := offset
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		n += h.off
	case io.SeekEnd:
		n += int64(len(h.ino.Data))
	default:
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	if n < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = n
	return n, nil
}

// Truncate is (*os.File).Truncate.
func (h *File) Truncate(size int64) error {
	if err := h.check("truncate"); err != nil {
		return err
	}
	op := &Op{Kind: "truncate", Path: norm(h.name), Off: size}
	if err := h.fs.begin(op); err != nil {
		return perr("truncate", h.name, err)
	}
	if size < 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	h.ino.truncate(size)
	h.fs.after(op)
	return nil
}

func (i *Inode) truncate(size int64) {
	if size < int64(len(i.Data)) {
		i.Data = i.Data[:size:size]
		if int64(len(i.Prov)) > size {
			i.Prov = i.Prov[:size:size]
		}
	} else {
		i.grow(size)
	}
}

// Sync is (*os.File).Sync.
func (h *File) Sync() error {
	if err := h.check("sync"); err != nil {
		return err
	}
	if err := h.fs.begin(&Op{Kind: "sync", Path: norm(h.name)}); err != nil {
		return perr("sync", h.name, err)
	}
	return nil
}

// Close is (*os.File).Close.
func (h *File) Close() error {
	if h == nil {
		return os.ErrInvalid
	}
	if err := h.check("close"); err != nil {
		return err
	}
	op := &Op{Kind: "close", Path: norm(h.name), N: int(h.end - h.last)}
	err := h.fs.begin(op)
	h.closed = true
	delete(h.fs.open, h)
	if err != nil {
		if op.Lose && op.N > 0 && op.Part >= 0 && op.Part < op.N && int64(len(h.ino.Data)) == h.end {
			rt.S.Stat("fault.io.lost-at-close")
			h.ino.Data = h.ino.Data[:h.last+int64(op.Part)]
			if len(h.ino.Prov) > len(h.ino.Data) {
				h.ino.Prov = h.ino.Prov[:len(h.ino.Data)]
			}
		}
		return perr("close", h.name, err)
	}
	return nil
}

// Stat is (*os.File).Stat.
func (h *File) Stat() (os.FileInfo, error) {
	if err := h.check("stat"); err != nil {
		return nil, err
	}
	if err := h.fs.begin(&Op{Kind: "stat", Path: norm(h.name)}); err != nil {
		return nil, perr("stat", h.name, err)
	}
	return &info{path.Base(norm(h.name)), h.ino}, nil
}

func (h *File) Chmod(os.FileMode) error          { return h.check("chmod") }
func (h *File) Chown(int, int) error             { return h.check("chown") }
func (h *File) SetDeadline(time.Time) error      { return nil }
func (h *File) SetReadDeadline(time.Time) error  { return nil }
func (h *File) SetWriteDeadline(time.Time) error { return nil }

// ReadDir is (*os.File).ReadDir.
func (h *File) ReadDir(n int) ([]os.DirEntry, error) {
	if err := h.check("readdir"); err != nil {
		return nil, err
	}
	es, err := ReadDir(h.name)
	if err != nil {
		return nil, err
	}
	if h.off > int64(len(es)) {
		h.off = int64(len(es))
	}
	es = es[h.off:]
	if n > 0 {
		if len(es) == 0 {
			return nil, io.EOF
		}
		if n < len(es) {
			es = es[:n]
		}
	}
	h.off += int64(len(es))
	return es, nil
}

// Readdir is (*os.File).Readdir.
func (h *File) Readdir(n int) ([]os.FileInfo, error) {
	es, err := h.ReadDir(n)
	var r []os.FileInfo
	for _, e := range es {
		r = append(r, e.(*info))
	}
	return r, err
}

// Readdirnames is (*os.File).Readdirnames.
func (h *File) Readdirnames(n int) ([]string, error) {
	es, err := h.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

// ReadFrom is (*os.File).ReadFrom.
func (h *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{h}, r) }

// WriteTo is (*os.File).WriteTo.
func (h *File) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, onlyReader{h}) }

type info struct {
	name string
	ino  *Inode
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return int64(len(i.ino.Data)) }
func (i *info) Mode() os.FileMode {
	if i.ino.dir {
		return os.ModeDir | 0755
	}
	return 0644
}
func (i *info) ModTime() time.Time         { return time.Unix(0, 0) }
func (i *info) IsDir() bool                { return i.ino.dir }
func (i *info) Sys() interface{}           { return nil }
func (i *info) Type() fs.FileMode          { return i.Mode().Type() }
func (i *info) Info() (fs.FileInfo, error) { return i, nil }

// Stat is os.Stat.
func Stat(name string) (os.FileInfo, error) {
	f := need()
	if err := f.begin(&Op{Kind: "stat", Path: norm(name)}); err != nil {
		return nil, perr("stat", name, err)
	}
	i := f.names[norm(name)]
	if i == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return &info{path.Base(norm(name)), i}, nil
}

// Lstat is os.Lstat.
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	buf := make([]byte, 0, 512)
	for {
		if len(buf) == cap(buf) {
			buf = append(buf, 0)[:len(buf)]
		}
		n, err := h.Read(buf[len(buf):cap(buf)])
		buf = buf[:len(buf)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return buf, err
		}
	}
}

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	h, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if err1 := h.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Rename is os.Rename.
func Rename(from, to string) error {
	f := need()
	op := &Op{Kind: "rename", Path: norm(to), Data: []byte(norm(from))}
	if err := f.begin(op); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	i := f.names[norm(from)]
	if i == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	delete(f.names, norm(from))
	f.names[norm(to)] = i
	f.after(op)
	return nil
}

// Link is os.Link.
func Link(from, to string) error {
	f := need()
	op := &Op{Kind: "link", Path: norm(to)}
	if err := f.begin(op); err != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	i := f.names[norm(from)]
	if i == nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
	}
	if f.names[norm(to)] != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.EEXIST}
	}
	f.names[norm(to)] = i
	f.after(op)
	return nil
}

// Remove is os.Remove.
func Remove(name string) error {
	f := need()
	op := &Op{Kind: "remove", Path: norm(name)}
	if err := f.begin(op); err != nil {
		return perr("remove", name, err)
	}
	if f.names[norm(name)] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(f.names, norm(name))
	f.after(op)
	return nil
}

// RemoveAll is os.RemoveAll.
func RemoveAll(name string) error {
	f := need()
	op := &Op{Kind: "remove", Path: norm(name)}
	if err := f.begin(op); err != nil {
		return perr("unlinkat", name, err)
	}
	for n := range f.names {
		if n == norm(name) || strings.HasPrefix(n, norm(name)+"/") {
			delete(f.names, n)
		}
	}
	f.after(op)
	return nil
}

// Truncate is os.Truncate.
func Truncate(name string, size int64) error {
	h, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer h.Close()
	return h.Truncate(size)
}

// Mkdir is os.Mkdir.
func Mkdir(name string, perm os.FileMode) error {
	f := need()
	op := &Op{Kind: "mkdir", Path: norm(name)}
	if err := f.begin(op); err != nil {
		return perr("mkdir", name, err)
	}
	if f.names[norm(name)] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d := f.names[path.Dir(norm(name))]; d == nil || !d.dir {
		return perr("mkdir", name, syscall.ENOENT)
	}
	f.names[norm(name)] = &Inode{dir: true}
	return nil
}

// MkdirAll is os.MkdirAll.
func MkdirAll(name string, perm os.FileMode) error {
	f := need()
	if err := f.begin(&Op{Kind: "mkdir", Path: norm(name)}); err != nil {
		return perr("mkdir", name, err)
	}
	for p := norm(name); p != "/" && p != "."; p = path.Dir(p) {
		if i := f.names[p]; i != nil && !i.dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
		if f.names[p] == nil {
			f.names[p] = &Inode{dir: true}
		}
	}
	return nil
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	f := need()
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for i := 0; ; i++ {
		name := path.Join(dir, pre+itoa(i)+suf)
		if f.names[norm(name)] == nil {
			return name, Mkdir(name, 0700)
		}
	}
}

func exists(op, name string) error {
	f := need()
	if err := f.begin(&Op{Kind: "stat", Path: norm(name)}); err != nil {
		return perr(op, name, err)
	}
	if f.names[norm(name)] == nil {
		return perr(op, name, syscall.ENOENT)
	}
	return nil
}

// Chmod is os.Chmod.
func Chmod(name string, _ os.FileMode) error { return exists("chmod", name) }

// Chown is os.Chown.
func Chown(name string, _, _ int) error { return exists("chown", name) }

// Chtimes is os.Chtimes.
func Chtimes(name string, _, _ time.Time) error { return exists("chtimes", name) }

// Symlink is os.Symlink: the simulated disk has no symbolic links.
func Symlink(from, to string) error {
	return &os.LinkError{Op: "symlink", Old: from, New: to, Err: syscall.EPERM}
}

// Readlink is os.Readlink.
func Readlink(name string) (string, error) { return "", perr("readlink", name, syscall.EINVAL) }

// SameFile is os.SameFile.
func SameFile(a, b os.FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.ino == y.ino
}

// Executable is os.Executable.
func Executable() (string, error) { return "/work/recengine", nil }

// Chdir is os.Chdir.
func Chdir(name string) error { return perr("chdir", name, syscall.EPERM) }

// Hostname is os.Hostname.
func Hostname() (string, error) { return "sim", nil }

// Getpid is os.Getpid.
func Getpid() int { return 4242 }

// DirFS is os.DirFS.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	h, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return h, nil
}

// Clearenv is os.Clearenv.
func Clearenv() {
	for k := range env() {
		delete(env(), k)
	}
}

// ReadDir is os.ReadDir.
func ReadDir(name string) ([]os.DirEntry, error) {
	f := need()
	if err := f.begin(&Op{Kind: "readdir", Path: norm(name)}); err != nil {
		return nil, perr("open", name, err)
	}
	if d := f.names[norm(name)]; d == nil || !d.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var r []os.DirEntry
	for n, i := range f.names {
		if path.Dir(n) == norm(name) && n != norm(name) {
			r = append(r, &info{path.Base(n), i})
		}
	}
	sort.Slice(r, func(a, b int) bool { return r[a].Name() < r[b].Name() })
	return r, nil
}

func env() map[string]string {
	if p := rt.CurProc(); p != nil && p.Env != nil {
		return p.Env
	}
	if Cur != nil {
		return Cur.Env
	}
	return nil
}

// Getenv is os.Getenv.
func Getenv(k string) string { return env()[k] }

// LookupEnv is os.LookupEnv.
func LookupEnv(k string) (string, bool) { v, ok := env()[k]; return v, ok }

// Setenv is os.Setenv.
func Setenv(k, v string) error { env()[k] = v; return nil }

// Unsetenv is os.Unsetenv.
func Unsetenv(k string) error { delete(env(), k); return nil }

// ExpandEnv is os.ExpandEnv.
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

// Environ is os.Environ.
func Environ() []string {
	var r []string
	for k, v := range env() {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return r
}

// Exit is os.Exit.
func Exit(code int) { rt.Exit(code) }

// TempDir is os.TempDir.
func TempDir() string { return "/tmp" }

// Getwd is os.Getwd.
func Getwd() (string, error) { return cwd(), nil }
