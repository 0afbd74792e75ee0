package rt

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Simulated disk. One FS per host; it survives the host's process. A write is
// applied in pieces with scheduling points in between, so that another task can
// see (and a crash can leave) a part of it, unless the code prevents it.

type inode struct {
	dir   bool
	data  []byte
	kids  map[string]*inode
	mode  os.FileMode
	mtime int64
	links int
}

// FSFault is what a fault injector makes of one disk operation.
type FSFault struct {
	Err  error // the operation fails with this
	Part int   // bytes transferred before it fails (read/write), or short read length if Err is nil
	Kill bool  // the process dies here (after Part bytes for a write)
}

// FSOp describes a disk operation to the injector and observers.
type FSOp struct {
	Op   string // open openw create trunc read write stat mkdir rename remove close sync seek
	Path string
	N    int   // transfer size
	Off  int64 // for read/write
}

type FS struct {
	h    *Host
	root *inode
	// Inject, if set, decides a fault for each operation of the host under test.
	Inject func(op FSOp) FSFault
	// Observe, if set, is told of every operation that took effect (or was tried).
	Observe func(op FSOp, e error)
	// Capacity in bytes (0: unlimited), MaxFDs open descriptors (0: unlimited).
	Capacity int64
	MaxFDs   int
	// SplitIO: transfers larger than this are applied in pieces with scheduling points between (0: never).
	SplitIO int
	// Latency per operation, ns (0: none).
	LatMax int64
	open   map[*File]struct{}
	Opened int64
	cwd    string
}

func NewFS(h *Host) *FS {
	return &FS{h: h, root: newDir(), open: map[*File]struct{}{}, cwd: "/"}
}

func newDir() *inode { return &inode{dir: true, kids: map[string]*inode{}, mode: 0755 | os.ModeDir} }

func (f *FS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.cwd + "/" + p
	}
	return path.Clean(p)
}

func split(p string) []string {
	p = strings.Trim(p, "/")
	if p == "" {
		return nil
	}
	return strings.Split(p, "/")
}

func (f *FS) lookup(p string) (*inode, error) {
	n := f.root
	for _, c := range split(f.abs(p)) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		k := n.kids[c]
		if k == nil {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, nil
}

func checkPath(p string) error {
	if p == "" {
		return syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return syscall.EINVAL
	}
	if len(p) > 4095 {
		return syscall.ENAMETOOLONG
	}
	return nil
}

func (f *FS) parent(p string) (*inode, string, error) {
	a := f.abs(p)
	d, b := path.Split(a)
	n, e := f.lookup(d)
	if e != nil {
		return nil, "", e
	}
	if !n.dir {
		return nil, "", syscall.ENOTDIR
	}
	if len(b) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	return n, b, nil
}

func (f *FS) used() int64 {
	var t int64
	var w func(n *inode)
	w = func(n *inode) {
		t += int64(len(n.data))
		for _, k := range n.kids {
			w(k)
		}
	}
	w(f.root)
	return t
}

// --- harness access (no faults, no scheduling)

// Put writes a file as test setup, making its directories.
func (f *FS) Put(p string, b []byte) {
	f.PutDir(path.Dir(f.abs(p)))
	d, name, _ := f.parent(p)
	d.kids[name] = &inode{data: append([]byte(nil), b...), mode: 0644}
}

// Patch changes the content of an existing file, whoever has it open.
func (f *FS) Patch(p string, b []byte) {
	if n, e := f.lookup(p); e == nil && !n.dir {
		n.data = append([]byte(nil), b...)
	}
}

func (f *FS) PutDir(p string) {
	n := f.root
	for _, c := range split(f.abs(p)) {
		k := n.kids[c]
		if k == nil {
			k = newDir()
			n.kids[c] = k
		}
		n = k
	}
}

func (f *FS) Get(p string) ([]byte, bool) {
	n, e := f.lookup(p)
	if e != nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// Peek returns the live bytes of a file (not a copy).
func (f *FS) Peek(p string) ([]byte, bool) {
	n, e := f.lookup(p)
	if e != nil || n.dir {
		return nil, false
	}
	return n.data, true
}

func (f *FS) Del(p string) {
	d, b, e := f.parent(p)
	if e == nil {
		delete(d.kids, b)
	}
}

// Tree lists every path, directories with a trailing slash.
func (f *FS) Tree() []string {
	var out []string
	var w func(p string, n *inode)
	w = func(p string, n *inode) {
		ks := make([]string, 0, len(n.kids))
		for k := range n.kids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c := n.kids[k]
			if c.dir {
				out = append(out, p+k+"/")
				w(p+k+"/", c)
			} else {
				out = append(out, p+k)
			}
		}
	}
	w("/", f.root)
	return out
}

// Snapshot copies all file contents.
func (f *FS) Snapshot() map[string]string {
	m := map[string]string{}
	for _, p := range f.Tree() {
		if strings.HasSuffix(p, "/") {
			m[p] = ""
			continue
		}
		b, _ := f.Peek(p)
		m[p] = string(b)
	}
	return m
}

// OpenFiles lists descriptors the process holds.
func (f *FS) OpenFiles() []string {
	var out []string
	for x := range f.open {
		out = append(out, x.name)
	}
	sort.Strings(out)
	return out
}

func (f *FS) dropHandles() {
	for x := range f.open {
		x.closed = true
	}
	f.open = map[*File]struct{}{}
}

// --- operations of the code under test

func curFS() *FS {
	if S == nil || S.cur == nil {
		panic("file operation outside simulation")
	}
	return S.cur.Host.FS
}

// step runs the common part of each operation; done reports the fault to apply.
func (f *FS) step(op FSOp) FSFault {
	s := f.h.Sim
	s.progress()
	s.Event("%s fs %s %s n=%d off=%d", f.h.Name, op.Op, op.Path, op.N, op.Off)
	if f.LatMax > 0 {
		d := int64(s.Net.N(int(f.LatMax/1000)+1)) * 1000
		if d > 0 {
			s.sleep(d, "disk")
		}
	}
	if f.Inject == nil || s.cur.Host != f.h {
		return FSFault{}
	}
	ft := f.Inject(op)
	if ft.Err != nil {
		s.Stats["fault.fs_"+op.Op+"_error"]++
		s.Event("%s fs fault %v on %s %s part=%d", f.h.Name, ft.Err, op.Op, op.Path, ft.Part)
	} else if ft.Kill {
		if op.Op != "write" {
			f.kill(op)
		}
	} else if ft.Part > 0 {
		s.Stats["fault.fs_short_"+op.Op]++
	}
	return ft
}

func (f *FS) kill(op FSOp) {
	s := f.h.Sim
	s.Stats["fault.crash_in_fs"]++
	s.Event("%s killed during %s %s", f.h.Name, op.Op, op.Path)
	g := s.cur
	f.h.die(g, false, "killed during "+op.Op, "", -9)
	s.progress() // unwinds
}

func (f *FS) obs(op FSOp, e error) error {
	if f.Observe != nil {
		f.Observe(op, e)
	}
	return e
}

// File is the simulated os.File.
type File struct {
	fs     *FS
	ino    *inode
	name   string
	apath  string
	pos    int64
	flag   int
	closed bool
	std    bool
}

var (
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
	Stdin  = &File{name: "/dev/stdin", std: true}
)

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func OsOpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	f := curFS()
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	opn := "open"
	if wr {
		opn = "openw"
	}
	op := FSOp{Op: opn, Path: f.abs(name)}
	fail := func(e error) (*File, error) {
		f.obs(op, e)
		return nil, perr("open", name, e)
	}
	if e := checkPath(name); e != nil {
		return fail(e)
	}
	if ft := f.step(op); ft.Err != nil {
		return fail(ft.Err)
	}
	if f.MaxFDs > 0 && len(f.open) >= f.MaxFDs {
		f.h.Sim.Stats["fault.emfile"]++
		return fail(syscall.EMFILE)
	}
	n, e := f.lookup(name)
	if e == syscall.ENOENT && flag&os.O_CREATE != 0 {
		d, b, pe := f.parent(name)
		if pe != nil {
			return fail(pe)
		}
		if strings.HasSuffix(name, "/") {
			return fail(syscall.EISDIR)
		}
		n = &inode{mode: perm & 0777, mtime: f.h.Sim.now}
		d.kids[b] = n
		op.Op = "create"
	} else if e != nil {
		return fail(e)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return fail(syscall.EEXIST)
	}
	if n.dir && (wr || flag&os.O_CREATE != 0) {
		return fail(syscall.EISDIR)
	}
	f.obs(op, nil)
	if flag&os.O_TRUNC != 0 && !n.dir && len(n.data) > 0 {
		n.data = nil
		f.obs(FSOp{Op: "trunc", Path: f.abs(name)}, nil)
	}
	fl := &File{fs: f, ino: n, name: name, apath: f.abs(name), flag: flag}
	f.open[fl] = struct{}{}
	f.Opened++
	return fl, nil
}

func OsOpen(name string) (*File, error) { return OsOpenFile(name, os.O_RDONLY, 0) }
func OsCreate(name string) (*File, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (fl *File) chk(op string) error {
	if fl == nil {
		return os.ErrInvalid
	}
	if fl.closed {
		return perr(op, fl.name, os.ErrClosed)
	}
	return nil
}

func (fl *File) Name() string { return fl.name }
func (fl *File) Fd() uintptr  { return 3 }

// readAt transfers once, like one read system call.
func (fl *File) readAt(b []byte, off int64) (int, error) {
	f := fl.fs
	op := FSOp{Op: "read", Path: fl.apath, N: len(b), Off: off}
	if fl.flag&os.O_WRONLY != 0 {
		return 0, syscall.EBADF
	}
	if fl.ino.dir {
		return 0, syscall.EISDIR
	}
	ft := f.step(op)
	if fl.closed { // closed meanwhile: descriptor kept alive by the runtime until the call is over
		_ = 0
	}
	want := len(b)
	if ft.Part > 0 && ft.Part < want {
		want = ft.Part
	}
	if ft.Err != nil && ft.Part == 0 {
		want = 0
	}
	n := 0
	for n < want {
		avail := int64(len(fl.ino.data)) - (off + int64(n))
		if avail <= 0 {
			break
		}
		k := want - n
		if int64(k) > avail {
			k = int(avail)
		}
		if f.SplitIO > 0 && k > f.SplitIO {
			k = f.SplitIO
		}
		copy(b[n:n+k], fl.ino.data[off+int64(n):])
		n += k
		if n < want && f.SplitIO > 0 {
			f.h.Sim.yield()
		}
	}
	f.obs(op, ft.Err)
	return n, ft.Err
}

func (fl *File) Read(b []byte) (int, error) {
	if fl.std_() {
		return 0, io.EOF
	}
	if e := fl.chk("read"); e != nil {
		return 0, e
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, e := fl.readAt(b, fl.pos)
	fl.pos += int64(n)
	if e != nil {
		if n > 0 {
			return n, nil // the kernel reports what it transferred; the error would come next time
		}
		return 0, perr("read", fl.name, e)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (fl *File) ReadAt(b []byte, off int64) (int, error) {
	if e := fl.chk("read"); e != nil {
		return 0, e
	}
	if off < 0 {
		return 0, perr("readat", fl.name, errors.New("negative offset"))
	}
	done := 0
	for done < len(b) {
		n, e := fl.readAt(b[done:], off+int64(done))
		done += n
		if e != nil {
			return done, perr("read", fl.name, e)
		}
		if n == 0 {
			return done, io.EOF
		}
	}
	return done, nil
}

func (fl *File) writeAt(b []byte, off int64) (int, error) {
	f := fl.fs
	s := f.h.Sim
	op := FSOp{Op: "write", Path: fl.apath, N: len(b), Off: off}
	if fl.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		f.obs(op, syscall.EBADF)
		return 0, syscall.EBADF
	}
	ft := f.step(op)
	want := len(b)
	if (ft.Err != nil || ft.Kill) && ft.Part < want {
		want = ft.Part
	}
	n := 0
	var err error
	for n < want {
		k := want - n
		if f.SplitIO > 0 && k > f.SplitIO {
			k = f.SplitIO
		}
		end := off + int64(n+k)
		if grow := end - int64(len(fl.ino.data)); grow > 0 {
			if f.Capacity > 0 {
				room := f.Capacity - f.used()
				if room < grow {
					s.Stats["fault.enospc"]++
					k -= int(grow - max(room, 0))
					if k < 0 {
						k = 0
					}
					err = syscall.ENOSPC
					end = off + int64(n+k)
					grow = end - int64(len(fl.ino.data))
				}
			}
			if grow > 0 {
				fl.ino.data = append(fl.ino.data, make([]byte, grow)...)
			}
		}
		copy(fl.ino.data[off+int64(n):], b[n:n+k])
		n += k
		if err != nil {
			break
		}
		if n < want && f.SplitIO > 0 {
			s.yield()
		}
	}
	fl.ino.mtime = s.now
	if ft.Kill {
		f.kill(op)
	}
	if err == nil {
		err = ft.Err
	}
	f.obs(op, err)
	return n, err
}

func (fl *File) std_() bool { return fl != nil && fl.std }

func (fl *File) Write(b []byte) (int, error) {
	if fl.std_() {
		print_(string(b))
		return len(b), nil
	}
	if e := fl.chk("write"); e != nil {
		return 0, e
	}
	off := fl.pos
	if fl.flag&os.O_APPEND != 0 {
		off = int64(len(fl.ino.data))
	}
	n, e := fl.writeAt(b, off)
	fl.pos = off + int64(n)
	if e != nil {
		return n, perr("write", fl.name, e)
	}
	return n, nil
}

func (fl *File) WriteString(s string) (int, error) { return fl.Write([]byte(s)) }

func (fl *File) WriteAt(b []byte, off int64) (int, error) {
	if e := fl.chk("write"); e != nil {
		return 0, e
	}
	if off < 0 {
		return 0, perr("writeat", fl.name, errors.New("negative offset"))
	}
	n, e := fl.writeAt(b, off)
	if e != nil {
		return n, perr("write", fl.name, e)
	}
	return n, nil
}

func (fl *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{fl}, r)
}

func (fl *File) Seek(off int64, wh int) (int64, error) {
	if e := fl.chk("seek"); e != nil {
		return 0, e
	}
	op := FSOp{Op: "seek", Path: fl.apath}
	if ft := fl.fs.step(op); ft.Err != nil {
		return 0, perr("seek", fl.name, ft.Err)
	}
	switch wh {
	case io.SeekStart:
	case io.SeekCurrent:
		off += fl.pos
	case io.SeekEnd:
		off += int64(len(fl.ino.data))
	default:
		return 0, perr("seek", fl.name, syscall.EINVAL)
	}
	if off < 0 {
		return 0, perr("seek", fl.name, syscall.EINVAL)
	}
	fl.pos = off
	return off, nil
}

func (fl *File) Close() error {
	if fl.std_() {
		return nil
	}
	if e := fl.chk("close"); e != nil {
		return e
	}
	op := FSOp{Op: "close", Path: fl.apath}
	fl.closed = true // as on Linux: the descriptor is gone even if close reports an error
	delete(fl.fs.open, fl)
	if ft := fl.fs.step(op); ft.Err != nil {
		fl.fs.obs(op, ft.Err)
		return perr("close", fl.name, ft.Err)
	}
	fl.fs.obs(op, nil)
	return nil
}

func (fl *File) Sync() error {
	if e := fl.chk("sync"); e != nil {
		return e
	}
	if ft := fl.fs.step(FSOp{Op: "sync", Path: fl.apath}); ft.Err != nil {
		return perr("sync", fl.name, ft.Err)
	}
	return nil
}

func (fl *File) Truncate(n int64) error {
	if e := fl.chk("truncate"); e != nil {
		return e
	}
	op := FSOp{Op: "trunc", Path: fl.apath, Off: n}
	if ft := fl.fs.step(op); ft.Err != nil {
		fl.fs.obs(op, ft.Err)
		return perr("truncate", fl.name, ft.Err)
	}
	if e := fl.ino.trunc(fl.fs, n); e != nil {
		return perr("truncate", fl.name, e)
	}
	fl.fs.obs(op, nil)
	return nil
}

func (n *inode) trunc(f *FS, l int64) error {
	if l < 0 {
		return syscall.EINVAL
	}
	if l <= int64(len(n.data)) {
		n.data = n.data[:l:l]
		return nil
	}
	if f.Capacity > 0 && l > f.Capacity*16 || l > 1<<32 {
		return syscall.EFBIG
	}
	n.data = append(n.data, make([]byte, l-int64(len(n.data)))...)
	return nil
}

func (fl *File) Chmod(os.FileMode) error     { return fl.chk("chmod") }
func (fl *File) SetDeadline(time.Time) error { return os.ErrNoDeadline }
func (fl *File) Readdirnames(int) ([]string, error) {
	var out []string
	if e := fl.chk("readdir"); e != nil {
		return nil, e
	}
	for k := range fl.ino.kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out, nil
}
func (fl *File) Readdir(int) ([]os.FileInfo, error) {
	ns, e := fl.Readdirnames(-1)
	var out []os.FileInfo
	for _, n := range ns {
		out = append(out, fi(n, fl.ino.kids[n]))
	}
	return out, e
}
func (fl *File) ReadDir(int) ([]os.DirEntry, error) {
	is, e := fl.Readdir(-1)
	var out []os.DirEntry
	for _, i := range is {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, e
}

type finfo struct {
	name string
	size int64
	mode os.FileMode
	mt   int64
	ino  *inode
}

func (f finfo) Name() string       { return f.name }
func (f finfo) Size() int64        { return f.size }
func (f finfo) Mode() os.FileMode  { return f.mode }
func (f finfo) ModTime() time.Time { return wall(f.mt) }
func (f finfo) IsDir() bool        { return f.mode.IsDir() }
func (f finfo) Sys() any           { return f.ino }

func fi(name string, n *inode) os.FileInfo {
	size := int64(len(n.data))
	if n.mode.IsDir() {
		size = 4096
	}
	return finfo{path.Base(name), size, n.mode, n.mtime, n}
}

func OsSameFile(a, b os.FileInfo) bool { return a.Sys() == b.Sys() }

func (fl *File) Stat() (os.FileInfo, error) {
	if e := fl.chk("stat"); e != nil {
		return nil, e
	}
	op := FSOp{Op: "stat", Path: fl.apath}
	if ft := fl.fs.step(op); ft.Err != nil {
		fl.fs.obs(op, ft.Err)
		return nil, perr("stat", fl.name, ft.Err)
	}
	return fi(fl.name, fl.ino), nil
}

func OsStat(name string) (os.FileInfo, error) {
	f := curFS()
	op := FSOp{Op: "stat", Path: f.abs(name)}
	if e := checkPath(name); e != nil {
		return nil, perr("stat", name, e)
	}
	if ft := f.step(op); ft.Err != nil {
		f.obs(op, ft.Err)
		return nil, perr("stat", name, ft.Err)
	}
	n, e := f.lookup(name)
	if e != nil {
		return nil, perr("stat", name, e)
	}
	return fi(name, n), nil
}

func OsTruncate(name string, l int64) error {
	f := curFS()
	op := FSOp{Op: "trunc", Path: f.abs(name), Off: l}
	if ft := f.step(op); ft.Err != nil {
		f.obs(op, ft.Err)
		return perr("truncate", name, ft.Err)
	}
	n, e := f.lookup(name)
	if e == nil {
		e = n.trunc(f, l)
	}
	f.obs(op, e)
	if e != nil {
		return perr("truncate", name, e)
	}
	return nil
}

func OsMkdir(name string, perm os.FileMode) error {
	f := curFS()
	if e := checkPath(name); e != nil {
		return perr("mkdir", name, e)
	}
	op := FSOp{Op: "mkdir", Path: f.abs(name)}
	if ft := f.step(op); ft.Err != nil {
		f.obs(op, ft.Err)
		return perr("mkdir", name, ft.Err)
	}
	d, b, e := f.parent(name)
	if e == nil && (d.kids[b] != nil || f.abs(name) == "/") {
		e = syscall.EEXIST
	}
	if e == nil {
		d.kids[b] = newDir()
	}
	f.obs(op, e)
	if e != nil {
		return perr("mkdir", name, e)
	}
	return nil
}

func OsMkdirAll(name string, perm os.FileMode) error {
	f := curFS()
	if e := checkPath(name); e != nil {
		return perr("mkdir", name, e)
	}
	if n, e := f.lookup(name); e == nil {
		f.h.Sim.progress()
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	parts := split(f.abs(name))
	p := ""
	for _, c := range parts {
		p += "/" + c
		if n, e := f.lookup(p); e == nil && n.dir {
			continue
		} else if e == nil {
			return perr("mkdir", p, syscall.ENOTDIR)
		}
		if e := OsMkdir(p, perm); e != nil {
			return e
		}
	}
	return nil
}

func OsRename(a, b string) error {
	f := curFS()
	lerr := func(e error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: e} }
	op := FSOp{Op: "rename", Path: f.abs(b)}
	op2 := FSOp{Op: "rename", Path: f.abs(a)}
	if e := checkPath(a); e != nil {
		return lerr(e)
	}
	if e := checkPath(b); e != nil {
		return lerr(e)
	}
	if ft := f.step(op); ft.Err != nil {
		f.obs(op, ft.Err)
		return lerr(ft.Err)
	}
	da, ba, e := f.parent(a)
	if e == nil && da.kids[ba] == nil {
		e = syscall.ENOENT
	}
	if e != nil {
		return lerr(e)
	}
	db, bb, e := f.parent(b)
	if e != nil {
		return lerr(e)
	}
	src, dst := da.kids[ba], db.kids[bb]
	if dst != nil && dst.dir {
		return lerr(syscall.EEXIST)
	}
	if dst != nil && src.dir {
		return lerr(syscall.ENOTDIR)
	}
	if src == dst {
		return nil
	}
	delete(da.kids, ba)
	db.kids[bb] = src
	f.obs(op, nil)
	f.obs(op2, nil)
	return nil
}

func OsLink(a, b string) error {
	f := curFS()
	lerr := func(e error) error { return &os.LinkError{Op: "link", Old: a, New: b, Err: e} }
	op := FSOp{Op: "create", Path: f.abs(b)}
	if e := checkPath(a); e != nil {
		return lerr(e)
	}
	if e := checkPath(b); e != nil {
		return lerr(e)
	}
	if ft := f.step(op); ft.Err != nil {
		f.obs(op, ft.Err)
		return lerr(ft.Err)
	}
	da, ba, e := f.parent(a)
	if e == nil && da.kids[ba] == nil {
		e = syscall.ENOENT
	}
	if e != nil {
		return lerr(e)
	}
	db, bb, e := f.parent(b)
	if e != nil {
		return lerr(e)
	}
	if db.kids[bb] != nil {
		return lerr(syscall.EEXIST)
	}
	if da.kids[ba].dir {
		return lerr(syscall.EPERM)
	}
	db.kids[bb] = da.kids[ba]
	f.obs(op, nil)
	return nil
}

func OsRemove(name string) error {
	f := curFS()
	op := FSOp{Op: "remove", Path: f.abs(name)}
	if ft := f.step(op); ft.Err != nil {
		f.obs(op, ft.Err)
		return perr("remove", name, ft.Err)
	}
	d, b, e := f.parent(name)
	if e == nil && d.kids[b] == nil {
		e = syscall.ENOENT
	}
	if e == nil && d.kids[b].dir && len(d.kids[b].kids) > 0 {
		e = syscall.ENOTEMPTY
	}
	if e == nil {
		delete(d.kids, b)
	}
	f.obs(op, e)
	if e != nil {
		return perr("remove", name, e)
	}
	return nil
}

func OsRemoveAll(name string) error {
	f := curFS()
	op := FSOp{Op: "remove", Path: f.abs(name)}
	if ft := f.step(op); ft.Err != nil {
		f.obs(op, ft.Err)
		return perr("unlinkat", name, ft.Err)
	}
	d, b, e := f.parent(name)
	if e == nil && d.kids[b] != nil {
		delete(d.kids, b)
		f.obs(op, nil)
	}
	return nil
}

func OsReadFile(name string) ([]byte, error) {
	fl, e := OsOpen(name)
	if e != nil {
		return nil, e
	}
	defer fl.Close()
	return readAll(fl)
}

func readAll(fl *File) ([]byte, error) {
	var out []byte
	buf := make([]byte, 8192)
	for {
		n, e := fl.Read(buf)
		out = append(out, buf[:n]...)
		if e == io.EOF {
			return out, nil
		}
		if e != nil {
			return out, e
		}
	}
}

func OsWriteFile(name string, b []byte, perm os.FileMode) error {
	fl, e := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if e != nil {
		return e
	}
	_, e = fl.Write(b)
	if e2 := fl.Close(); e == nil {
		e = e2
	}
	return e
}

func OsReadDir(name string) ([]os.DirEntry, error) {
	fl, e := OsOpen(name)
	if e != nil {
		return nil, e
	}
	defer fl.Close()
	return fl.ReadDir(-1)
}

func IoutilReadDir(name string) ([]os.FileInfo, error) {
	fl, e := OsOpen(name)
	if e != nil {
		return nil, e
	}
	defer fl.Close()
	return fl.Readdir(-1)
}

func OsGetwd() (string, error) { return curFS().cwd, nil }
func OsChdir(d string) error {
	f := curFS()
	n, e := f.lookup(d)
	if e == nil && !n.dir {
		e = syscall.ENOTDIR
	}
	if e != nil {
		return perr("chdir", d, e)
	}
	f.cwd = f.abs(d)
	return nil
}
func OsExit(code int)                             { Exit(code, "os.Exit") }
func OsGetenv(string) string                      { return "" }
func OsLookupEnv(string) (string, bool)           { return "", false }
func OsSetenv(string, string) error               { return nil }
func OsGetpid() int                               { return 4242 }
func OsHostname() (string, error)                 { return S.cur.Host.Name, nil }
func OsTempDir() string                           { return "/tmp" }
func OsChmod(name string, m os.FileMode) error    { _, e := OsStat(name); return e }
func OsChtimes(name string, a, b time.Time) error { _, e := OsStat(name); return e }
func OsArgs() []string                            { return S.cur.Host.Args }
func OsUserHomeDir() (string, error)              { return "/root", nil }

func OsCreateTemp(dir, pat string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	S.nextTmp++
	return OsOpenFile(dir+"/"+strings.Replace(pat, "*", "", 1)+itoa(S.nextTmp), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func OsMkdirTemp(dir, pat string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	S.nextTmp++
	p := dir + "/" + strings.Replace(pat, "*", "", 1) + itoa(S.nextTmp)
	return p, OsMkdir(p, 0700)
}

// filepath functions that look at the disk or the working directory.
func FilepathAbs(p string) (string, error) { return curFS().abs(p), nil }
func FilepathEvalSymlinks(p string) (string, error) {
	if _, e := OsStat(p); e != nil {
		return "", e
	}
	return path.Clean(p), nil
}
func FilepathWalk(root string, fn func(p string, i os.FileInfo, e error) error) error {
	i, e := OsStat(root)
	if e != nil {
		return fn(root, nil, e)
	}
	e = walk(root, i, fn)
	if e == fs.SkipDir || e == fs.SkipAll {
		return nil
	}
	return e
}
func walk(p string, i os.FileInfo, fn func(p string, i os.FileInfo, e error) error) error {
	if e := fn(p, i, nil); e != nil || !i.IsDir() {
		if e == fs.SkipDir && i.IsDir() {
			return nil
		}
		return e
	}
	l, e := IoutilReadDir(p)
	if e != nil {
		return fn(p, i, e)
	}
	for _, c := range l {
		if e := walk(path.Join(p, c.Name()), c, fn); e != nil {
			if e == fs.SkipDir {
				return nil
			}
			return e
		}
	}
	return nil
}
func FilepathWalkDir(root string, fn fs.WalkDirFunc) error {
	return FilepathWalk(root, func(p string, i os.FileInfo, e error) error {
		if i == nil {
			return fn(p, nil, e)
		}
		return fn(p, fs.FileInfoToDirEntry(i), e)
	})
}
