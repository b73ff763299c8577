// Package vos replaces the file operations of os by an in-memory file system:
// every system call is a scheduling point, writes are torn into two halves,
// and a process crash can be injected in front of every modifying call. The
// process runs as an unprivileged user that owns every file (permission bits
// of the owner apply). All paths that calls touched are recorded.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/vsched"
)

type inode struct {
	dir  bool
	mode fs.FileMode
	data []byte
	ents map[string]*inode
	mt   int64
}

// FS is an in-memory file system.
type FS struct {
	o       vsched.Obj
	root    *inode
	epoch   int  // incarnation of the process
	armed   bool // crashes are explored
	Crashed bool
	Touched []Access
	tmp     int
	newFrom int

	// Faults is the number of file creations and writes that may fail
	// because the disk is full
	Faults int

	// Errors is the number of calls of any kind that may fail with an
	// input/output error, without effect
	Errors int
}

// Access is one recorded use of a path.
type Access struct {
	Op   string
	Path string
}

// Cwd is the working directory of the virtual process.
var Cwd = "/work"

var seqFS *FS

// Current is the file system in use.
func Current() *FS {
	if vsched.R == nil {
		if seqFS == nil {
			seqFS = New()
		}
		return seqFS
	}
	if f, ok := vsched.R.Locals["fs"].(*FS); ok {
		return f
	}
	f := New()
	vsched.R.Locals["fs"] = f
	return f
}

// Reset installs an empty file system.
func Reset() *FS {
	f := New()
	if vsched.R == nil {
		seqFS = f
	} else {
		vsched.R.Locals["fs"] = f
	}
	return f
}

// New creates a file system containing the working directory, the directory of
// the executable and /tmp.
func New() *FS {
	f := &FS{root: newDir(0o755)}
	f.o.Name = "fs"
	f.mkAll(Cwd)
	f.mkAll("/tmp")
	if d, err := filepath.Abs(filepath.Dir(os.Args[0])); err == nil {
		f.mkAll(d)
	}
	return f
}

func newDir(m fs.FileMode) *inode {
	return &inode{dir: true, mode: m | fs.ModeDir, ents: map[string]*inode{}}
}

func (f *FS) mkAll(p string) {
	n := f.root
	for _, c := range split(p) {
		if n.ents[c] == nil {
			n.ents[c] = newDir(0o755)
		}
		n = n.ents[c]
	}
}

func split(p string) []string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c != "" {
			out = append(out, c)
		}
	}
	return out
}

// Arm makes crashes part of the exploration (or stops that).
func (f *FS) Arm(on bool) { f.armed = on }

// Restart starts a new incarnation of the process, to which the running thread
// and all threads created later belong: calls of threads of earlier
// incarnations never take effect again.
func (f *FS) Restart() {
	f.epoch++
	f.newFrom = vsched.NumThreads()
	f.Crashed = false
	f.armed = false
	vsched.R.Locals["epoch"+strconv.Itoa(vsched.ThreadID())] = f.epoch
}

// Adopt makes the running thread part of the current incarnation.
func (f *FS) Adopt() { vsched.R.Locals["epoch"+strconv.Itoa(vsched.ThreadID())] = f.epoch }

func (f *FS) alive() bool {
	if f.epoch == 0 && !f.Crashed {
		return true
	}
	if f.Crashed {
		return false
	}
	if vsched.ThreadID() >= f.newFrom {
		return true
	}
	e, _ := vsched.R.Locals["epoch"+strconv.Itoa(vsched.ThreadID())].(int)
	return e == f.epoch
}

// WaitCrashOr blocks until the process crashed or cond holds; it tells whether
// it crashed.
func (f *FS) WaitCrashOr(cond func() bool) bool {
	crashed := false
	vsched.Op("waitcrash", &f.o, func() bool { return f.Crashed || cond() }, func() { crashed = f.Crashed })
	return crashed
}

// step performs one system call.
func (f *FS) step(op, path string, write bool, eff func()) {
	if vsched.R == nil {
		f.Touched = append(f.Touched, Access{op, path})
		eff()
		return
	}
	if vsched.Dead() {
		vsched.AtomicOp("dead", nil, false, func() {})
	}
	if write && f.armed && f.alive() {
		if vsched.Choose(2) == 1 {
			vsched.Op("crash", &f.o, nil, func() { f.Crashed = true })
		}
	}
	if !f.alive() {
		for {
			vsched.Op("halted", &f.o, func() bool { return false }, nil)
		}
	}
	ran := false
	vsched.AtomicOp("fs."+op, &f.o, write, func() {
		if f.alive() {
			ran = true
			f.Touched = append(f.Touched, Access{op, path})
			eff()
		}
	})
	if !ran {
		vsched.Op("halted", &f.o, func() bool { return false }, nil)
	}
}

// fault tells whether a call fails because the disk is full.
func (f *FS) fault() bool {
	if f.Faults < 1 || vsched.R == nil || vsched.Dead() || !f.alive() || vsched.Choose(2) == 0 {
		return false
	}
	f.Faults--
	return true
}

// eio tells whether a call fails because of the device.
func (f *FS) eio() error {
	if f.Errors < 1 || vsched.R == nil || vsched.Dead() || !f.alive() || vsched.Choose(2) == 0 {
		return nil
	}
	f.Errors--
	return syscall.EIO
}

func perr(op, path string, e error) error {
	if e == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: path, Err: e}
}

// walk resolves a path to its parent directory, last name and inode.
func (f *FS) walk(p string) (parent *inode, name string, n *inode, err error) {
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if len(p) > 4095 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	full := p
	if !strings.HasPrefix(p, "/") {
		full = Cwd + "/" + p
	}
	stack := []*inode{f.root}
	comps := split(full)
	if len(comps) == 0 {
		return nil, "", f.root, nil
	}
	for i, c := range comps {
		cur := stack[len(stack)-1]
		if !cur.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if cur.mode&0o100 == 0 {
			return nil, "", nil, syscall.EACCES
		}
		last := i == len(comps)-1
		switch c {
		case ".":
			if last {
				return nil, "", cur, nil
			}
			continue
		case "..":
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			if last {
				return nil, "", stack[len(stack)-1], nil
			}
			continue
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		ch := cur.ents[c]
		if last {
			if strings.HasSuffix(full, "/") && ch != nil && !ch.dir {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, c, ch, nil
		}
		if ch == nil {
			return nil, "", nil, syscall.ENOENT
		}
		stack = append(stack, ch)
	}
	return nil, "", nil, syscall.ENOENT
}

type info struct {
	name string
	size int64
	mode fs.FileMode
	mt   int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(0, i.mt) }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

func infoOf(n *inode, p string) info {
	return info{filepath.Base(p), int64(len(n.data)), n.mode, n.mt}
}

// Stat is os.Stat.
func Stat(p string) (fi fs.FileInfo, err error) {
	f := Current()
	if e := f.eio(); e != nil {
		return nil, perr("stat", p, e)
	}
	f.step("stat", p, false, func() {
		_, _, n, e := f.walk(p)
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e != nil {
			err = perr("stat", p, e)
			return
		}
		fi = infoOf(n, p)
	})
	return
}

// Lstat is os.Lstat.
func Lstat(p string) (fs.FileInfo, error) { return Stat(p) }

func (f *FS) mkdir(p string, m fs.FileMode) error {
	par, name, n, e := f.walk(p)
	switch {
	case e != nil:
		return e
	case n != nil:
		return syscall.EEXIST
	case par.mode&0o200 == 0:
		return syscall.EACCES
	}
	par.ents[name] = newDir(m & 0o777 &^ 0o022)
	return nil
}

// Mkdir is os.Mkdir.
func Mkdir(p string, m fs.FileMode) (err error) {
	f := Current()
	if e := f.eio(); e != nil {
		return perr("mkdir", p, e)
	}
	f.step("mkdir", p, true, func() { err = perr("mkdir", p, f.mkdir(p, m)) })
	return
}

// MkdirAll is os.MkdirAll.
func MkdirAll(p string, m fs.FileMode) error {
	fi, err := Stat(p)
	if err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	c := filepath.Clean(p)
	if d := filepath.Dir(c); d != c {
		if err := MkdirAll(d, m); err != nil {
			return err
		}
	}
	err = Mkdir(c, m)
	if err != nil {
		if fi, e := Stat(c); e == nil && fi.IsDir() {
			return nil
		}
	}
	return err
}

// Remove is os.Remove.
func Remove(p string) (err error) {
	f := Current()
	if e := f.eio(); e != nil {
		return perr("remove", p, e)
	}
	f.step("remove", p, true, func() {
		par, name, n, e := f.walk(p)
		switch {
		case e != nil:
		case n == nil:
			e = syscall.ENOENT
		case par == nil:
			e = syscall.EINVAL
		case par.mode&0o200 == 0:
			e = syscall.EACCES
		case n.dir && len(n.ents) > 0:
			e = syscall.ENOTEMPTY
		default:
			delete(par.ents, name)
		}
		err = perr("remove", p, e)
	})
	return
}

// RemoveAll is os.RemoveAll.
func RemoveAll(p string) (err error) {
	f := Current()
	f.step("removeall", p, true, func() {
		par, name, n, e := f.walk(p)
		if e == nil && n != nil && par != nil {
			delete(par.ents, name)
		}
	})
	return
}

// Rename is os.Rename.
func Rename(a, b string) (err error) {
	f := Current()
	if e := f.eio(); e != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	f.step("rename", a+" -> "+b, true, func() {
		f.Touched = append(f.Touched[:len(f.Touched)-1], Access{"rename", a}, Access{"rename", b})
		pa, na, n, e := f.walk(a)
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e == nil {
			var pb, t *inode
			var nb string
			pb, nb, t, e = f.walk(b)
			switch {
			case e != nil:
			case pa == nil || pb == nil:
				e = syscall.EBUSY
			case t == n:
			case t != nil && t.dir != n.dir:
				e = syscall.EEXIST
			case t != nil && t.dir && len(t.ents) > 0:
				e = syscall.ENOTEMPTY
			case pa.mode&0o200 == 0 || pb.mode&0o200 == 0:
				e = syscall.EACCES
			default:
				delete(pa.ents, na)
				pb.ents[nb] = n
			}
		}
		if e != nil {
			err = &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
		}
	})
	return
}

// Link is os.Link.
func Link(a, b string) (err error) {
	f := Current()
	if e := f.eio(); e != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: e}
	}
	f.step("link", b, true, func() {
		_, _, n, e := f.walk(a)
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e == nil {
			var pb, t *inode
			var nb string
			pb, nb, t, e = f.walk(b)
			if e == nil {
				if t != nil {
					e = syscall.EEXIST
				} else {
					pb.ents[nb] = n
				}
			}
		}
		if e != nil {
			err = &os.LinkError{Op: "link", Old: a, New: b, Err: e}
		}
	})
	return
}

// File is os.File.
type File struct {
	f      *FS
	n      *inode
	name   string
	flag   int
	off    int64
	closed bool
	listed int
}

// OpenFile is os.OpenFile.
func OpenFile(p string, flag int, m fs.FileMode) (file *File, err error) {
	f := Current()
	if e := f.eio(); e != nil {
		return nil, perr("open", p, e)
	}
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	op := "open"
	if wr {
		op = "openw"
	}
	full := flag&os.O_CREATE != 0 && f.fault()
	f.step(op, p, flag&(os.O_CREATE|os.O_TRUNC) != 0, func() {
		par, name, n, e := f.walk(p)
		switch {
		case e != nil:
		case n == nil && flag&os.O_CREATE == 0:
			e = syscall.ENOENT
		case n == nil && par.mode&0o200 == 0:
			e = syscall.EACCES
		case n == nil && full:
			e = syscall.ENOSPC
		case n == nil:
			n = &inode{mode: m & 0o777 &^ 0o022}
			par.ents[name] = n
		case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
			e = syscall.EEXIST
		case n.dir && wr:
			e = syscall.EISDIR
		case wr && n.mode&0o200 == 0, flag&os.O_WRONLY == 0 && n.mode&0o400 == 0:
			e = syscall.EACCES
		case flag&os.O_TRUNC != 0:
			n.data = nil
		}
		if e != nil {
			err = perr("open", p, e)
			return
		}
		file = &File{f: f, n: n, name: p, flag: flag}
	})
	return
}

// Open is os.Open.
func Open(p string) (*File, error) { return OpenFile(p, os.O_RDONLY, 0) }

// Create is os.Create.
func Create(p string) (*File, error) {
	return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// TempDir is os.TempDir.
func TempDir() string { return "/tmp" }

// Getwd is os.Getwd.
func Getwd() (string, error) { return Cwd, nil }

func (f *FS) tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	id := 0
	if vsched.R == nil {
		f.tmp++
		id = f.tmp
	} else {
		vsched.Op("tempname", &f.o, nil, func() { f.tmp++; id = f.tmp })
	}
	return filepath.Join(dir, pre+strconv.Itoa(100000+id)+suf)
}

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	if strings.Contains(pattern, "/") {
		return nil, perr("createtemp", pattern, errors.New("pattern contains path separator"))
	}
	return OpenFile(Current().tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	p := Current().tempName(dir, pattern)
	return p, Mkdir(p, 0o700)
}

// ReadFile is os.ReadFile.
func ReadFile(p string) ([]byte, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile is os.WriteFile.
func WriteFile(p string, data []byte, m fs.FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

type dirent struct{ info }

func (d dirent) Type() fs.FileMode          { return d.mode.Type() }
func (d dirent) Info() (fs.FileInfo, error) { return d.info, nil }
func (d dirent) String() string             { return d.name }

// ReadDir is os.ReadDir.
func ReadDir(p string) (out []fs.DirEntry, err error) {
	f := Current()
	if e := f.eio(); e != nil {
		return nil, perr("open", p, e)
	}
	f.step("readdir", p, false, func() {
		_, _, n, e := f.walk(p)
		switch {
		case e != nil:
		case n == nil:
			e = syscall.ENOENT
		case !n.dir:
			e = syscall.ENOTDIR
		default:
			out = f.list(n)
		}
		err = perr("open", p, e)
	})
	return
}

func (f *FS) list(n *inode) []fs.DirEntry {
	var out []fs.DirEntry
	for k, c := range n.ents {
		out = append(out, dirent{infoOf(c, k)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// Chmod is os.Chmod.
func Chmod(p string, m fs.FileMode) (err error) {
	f := Current()
	if e := f.eio(); e != nil {
		return perr("chmod", p, e)
	}
	f.step("chmod", p, true, func() {
		_, _, n, e := f.walk(p)
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e == nil {
			n.mode = n.mode&fs.ModeDir | m&0o777
		}
		err = perr("chmod", p, e)
	})
	return
}

// Chtimes is os.Chtimes.
func Chtimes(p string, a, m time.Time) (err error) {
	f := Current()
	f.step("chtimes", p, true, func() {
		_, _, n, e := f.walk(p)
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e == nil {
			n.mt = m.UnixNano()
		}
		err = perr("chtimes", p, e)
	})
	return
}

// Truncate is os.Truncate.
func Truncate(p string, size int64) error {
	f, err := OpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

// Name is the file's path.
func (f *File) Name() string { return f.name }

// Read is os.File.Read.
func (f *File) Read(b []byte) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if e := f.f.eio(); e != nil {
		return 0, perr("read", f.name, e)
	}
	f.f.step("read", f.name, false, func() {
		switch {
		case f.n.dir:
			err = perr("read", f.name, syscall.EISDIR)
		case f.flag&os.O_WRONLY != 0:
			err = perr("read", f.name, syscall.EBADF)
		case len(b) == 0:
		case f.off >= int64(len(f.n.data)):
			err = io.EOF
		default:
			n = copy(b, f.n.data[f.off:])
			f.off += int64(n)
		}
	})
	return
}

// ReadAt is os.File.ReadAt.
func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if e := f.f.eio(); e != nil {
		return 0, perr("read", f.name, e)
	}
	f.f.step("read", f.name, false, func() {
		if off < int64(len(f.n.data)) {
			n = copy(b, f.n.data[off:])
		}
		if n < len(b) {
			err = io.EOF
		}
	})
	return
}

func (f *File) put(b []byte, off int64) {
	need := int(off) + len(b)
	d := append([]byte{}, f.n.data...)
	for len(d) < need {
		d = append(d, 0)
	}
	copy(d[off:], b)
	f.n.data = d
}

// Write is os.File.Write; the data arrives in two halves.
func (f *File) Write(b []byte) (n int, err error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	for _, part := range [][]byte{b[:len(b)/2], b[len(b)/2:]} {
		if len(part) == 0 {
			continue
		}
		if f.f.fault() {
			return n, perr("write", f.name, syscall.ENOSPC)
		}
		if e := f.f.eio(); e != nil {
			return n, perr("write", f.name, e)
		}
		n += len(part)
		f.f.step("write", f.name, true, func() {
			if f.flag&os.O_APPEND != 0 {
				f.off = int64(len(f.n.data))
			}
			f.put(part, f.off)
			f.off += int64(len(part))
		})
	}
	return len(b), nil
}

// WriteString is os.File.WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt is os.File.WriteAt.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if e := f.f.eio(); e != nil {
		return 0, perr("write", f.name, e)
	}
	f.f.step("write", f.name, true, func() { f.put(b, off) })
	return len(b), nil
}

// Seek is os.File.Seek.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		f.f.step("seek", f.name, false, func() { off += int64(len(f.n.data)) })
	}
	f.off = off
	return off, nil
}

// Truncate is os.File.Truncate.
func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if e := f.f.eio(); e != nil {
		return perr("truncate", f.name, e)
	}
	f.f.step("truncate", f.name, true, func() {
		d := append([]byte{}, f.n.data...)
		for int64(len(d)) < size {
			d = append(d, 0)
		}
		f.n.data = d[:size]
	})
	return nil
}

// Sync is os.File.Sync.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	return perr("sync", f.name, f.f.eio())
}

// Chmod is os.File.Chmod.
func (f *File) Chmod(m fs.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	if e := f.f.eio(); e != nil {
		return perr("chmod", f.name, e)
	}
	f.f.step("chmod", f.name, true, func() { f.n.mode = f.n.mode&fs.ModeDir | m&0o777 })
	return nil
}

// Stat is os.File.Stat.
func (f *File) Stat() (fi fs.FileInfo, err error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if e := f.f.eio(); e != nil {
		return nil, perr("stat", f.name, e)
	}
	f.f.step("stat", f.name, false, func() { fi = infoOf(f.n, f.name) })
	return
}

// ReadDir is os.File.ReadDir (all entries).
func (f *File) ReadDir(n int) (out []fs.DirEntry, err error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	f.f.step("readdir", f.name, false, func() { out = f.f.list(f.n) })
	if n > 0 {
		out = out[f.listed:]
		if len(out) > n {
			out = out[:n]
		}
		f.listed += len(out)
		if len(out) == 0 {
			err = io.EOF
		}
	}
	return
}

// Fd exists for completeness.
func (f *File) Fd() uintptr { return 3 }

// Close is os.File.Close.
func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	return perr("close", f.name, f.f.eio())
}

// ---- harness access without scheduling

// Files returns all files with their contents.
func (f *FS) Files() map[string]string {
	out := map[string]string{}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		for k, c := range n.ents {
			if c.dir {
				rec(p+"/"+k, c)
			} else {
				out[p+"/"+k] = string(c.data)
			}
		}
	}
	rec("", f.root)
	return out
}

// Put creates a file and its parent directories.
func (f *FS) Put(p, data string) {
	f.mkAll(filepath.Dir(p))
	par, name, _, err := f.walk(p)
	if err != nil {
		panic(err)
	}
	par.ents[name] = &inode{mode: 0o640, data: []byte(data)}
}

// PutDir creates a directory.
func (f *FS) PutDir(p string) { f.mkAll(p) }
