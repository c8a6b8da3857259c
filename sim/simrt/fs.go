package zzrt

import (
	"fmt"
	"io"
	"io/fs"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// FSConfig is the fault plan of the simulated file system.
type FSConfig struct {
	Rate     int    // probability of a fault per operation, out of 1000
	Kinds    uint32 // which kinds of faults may occur
	Capacity int64  // bytes on the device, 0: unlimited
	MaxFDs   int    // open files, 0: unlimited
	Latency  int64  // largest latency of an operation in ns, 0: none
	OneShot  bool   // at most one fault in the run
}

// Kinds of injected file system faults.
const (
	FaultOpen       = 1 << iota // open fails (EACCES, EMFILE, EIO)
	FaultVanish                 // the file disappears before it is opened
	FaultCreate                 // create fails (EACCES, EROFS, ENOSPC, EMFILE)
	FaultRead                   // read fails (EIO)
	FaultShortRead              // read returns fewer bytes (legal)
	FaultEINTR                  // read or write is interrupted (legal)
	FaultWrite                  // write fails (EIO)
	FaultShortWrite             // write stores a part and fails (ENOSPC)
	FaultClose                  // close fails (EIO); data of the last writes may be lost
	FaultStat                   // stat fails (EIO)
)

// FaultHard are the kinds that must surface as an error.
const FaultHard = FaultOpen | FaultVanish | FaultCreate | FaultRead | FaultWrite | FaultShortWrite | FaultClose | FaultStat

type inode struct {
	dir  bool
	data []byte
	mode fs.FileMode
	ino  int
}

type handle struct {
	node   *inode
	path   string
	off    int64
	flags  int
	closed bool
	group  int
	wrote  int64 // size of the last write
}

// FS is the simulated file system.  It is only accessed by the kernel, except
// between runs.
type FS struct {
	k       *kernel
	nodes   map[string]*inode
	fds     map[int]*handle
	nextFD  int
	nextIno int
	used    int64
	open    int
	maxOpen int
	hard    int // hard faults fired
	tmp     int
}

type fsOp int

const (
	fsOpen fsOp = iota
	fsRead
	fsWrite
	fsSeek
	fsClose
	fsStat
	fsFstat
	fsTruncate
	fsRemove
	fsRename
	fsMkdir
	fsReaddir
	fsSync
	fsPut    // harness: install a file
	fsGet    // harness: contents of a file
	fsHard   // harness: number of hard faults so far
	fsOpened // harness: number of open files
	fsCfg    // harness: change the fault plan
	fsMax    // harness: largest number of open files; resets it
	fsList   // harness: names of all files
)

var fsOpNames = []string{"open", "read", "write", "seek", "close", "stat", "fstat", "truncate", "remove", "rename", "mkdir", "readdir", "sync", "put", "get", "hard", "opened", "cfg", "max", "list"}

type fsReq struct {
	op    fsOp
	path  string
	path2 string
	flags int
	perm  fs.FileMode
	fd    int
	off   int64 // -1: use the handle's offset
	buf   []byte
	want  int
	cfg   FSConfig
	group int

	n     int
	errno syscall.Errno
	names []string
	dir   bool
	mode  fs.FileMode
	size  int64
	fault string
}

//go:norace
func (r *fsReq) describe() string {
	s := "fs." + fsOpNames[r.op] + " " + r.path
	if r.op == fsRead || r.op == fsWrite {
		s += fmt.Sprintf(" n=%d", r.n)
	}
	if r.errno != 0 {
		s += fmt.Sprintf(" errno=%d (%s)", int(r.errno), r.errno.Error())
	}
	if r.fault != "" {
		s += " INJECTED " + r.fault
	}
	return s
}

func newFS(k *kernel) *FS {
	f := &FS{k: k, nodes: map[string]*inode{}, fds: map[int]*handle{}, nextFD: 3}
	for _, d := range []string{"/", "/sim", "/tmp"} {
		f.nodes[d] = &inode{dir: true, mode: fs.ModeDir | 0755}
	}
	return f
}

//go:norace
func (f *FS) closeGroup(g int) {
	for _, h := range f.fds {
		if h.group == g && !h.closed {
			h.closed = true
			f.open--
		}
	}
}

// inject decides whether this operation fails.
//
//go:norace
func (f *FS) inject(r *fsReq, kinds ...uint32) uint32 {
	cfg := &f.k.cfg.FS
	var able []uint32
	for _, kd := range kinds {
		if cfg.Kinds&kd != 0 {
			able = append(able, kd)
		}
	}
	if cfg.Rate == 0 || len(able) == 0 {
		return 0
	}
	if cfg.OneShot && f.hard > 0 {
		hardOnly := able[:0]
		for _, kd := range able {
			if kd&FaultHard == 0 {
				hardOnly = append(hardOnly, kd)
			}
		}
		able = hardOnly
		if len(able) == 0 {
			return 0
		}
	}
	v := f.k.src.S[StreamFault].next(uint32(len(able)+1), func(p *PRNG) uint32 {
		if p.Intn(1000) < cfg.Rate {
			return uint32(1 + p.Intn(len(able)))
		}
		return 0
	})
	if v == 0 {
		return 0
	}
	kd := able[v-1]
	return kd
}

//go:norace
func (f *FS) fired(r *fsReq, name string, hard bool) {
	r.fault = name
	f.k.out.Faults["fs."+name]++
	if hard {
		f.hard++
	}
}

//go:norace
func (f *FS) pickErr(errs ...syscall.Errno) syscall.Errno {
	return errs[f.k.src.S[StreamFault].next(uint32(len(errs)), nil)]
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/sim/" + p
	}
	return filepath.Clean(p)
}

// serve performs a request; it returns the latency of the operation.
//
//go:norace
func (f *FS) serve(r *fsReq) int64 {
	r.errno, r.n, r.fault = 0, 0, ""
	f.do(r)
	if l := f.k.cfg.FS.Latency; l > 0 && r.op < fsPut {
		v := f.k.src.S[StreamFault].next(1000, func(p *PRNG) uint32 {
			if p.Intn(3) > 0 {
				return 0
			}
			return uint32(p.Intn(1000))
		})
		if v > 0 {
			f.k.out.Faults["fs.latency"]++
			return 1 + l*int64(v)/1000
		}
	}
	return 0
}

//go:norace
func (f *FS) handle(r *fsReq) *handle {
	h := f.fds[r.fd]
	if h == nil || h.closed {
		r.errno = syscall.EBADF
		return nil
	}
	r.path = h.path
	return h
}

//go:norace
func (f *FS) do(r *fsReq) {
	cfg := &f.k.cfg.FS
	switch r.op {
	case fsOpen:
		p := clean(r.path)
		node := f.nodes[p]
		parent := f.nodes[filepath.Dir(p)]
		if r.path == "" || parent == nil {
			r.errno = syscall.ENOENT
			return
		}
		if !parent.dir {
			r.errno = syscall.ENOTDIR
			return
		}
		writing := r.flags&(os.O_WRONLY|os.O_RDWR) != 0
		if node == nil && r.flags&os.O_CREATE == 0 {
			r.errno = syscall.ENOENT
			return
		}
		if node != nil && r.flags&os.O_CREATE != 0 && r.flags&os.O_EXCL != 0 {
			r.errno = syscall.EEXIST
			return
		}
		if node != nil && node.dir && writing {
			r.errno = syscall.EISDIR
			return
		}
		if writing {
			if f.inject(r, FaultCreate) != 0 {
				r.errno = f.pickErr(syscall.EACCES, syscall.EROFS, syscall.ENOSPC, syscall.EMFILE)
				f.fired(r, "create-error", true)
				return
			}
		} else {
			vanish := uint32(FaultVanish)
			if node.dir {
				vanish = 0
			}
			switch f.inject(r, FaultOpen, vanish) {
			case FaultOpen:
				r.errno = f.pickErr(syscall.EACCES, syscall.EMFILE, syscall.EIO)
				f.fired(r, "open-error", true)
				return
			case FaultVanish:
				delete(f.nodes, p)
				r.errno = syscall.ENOENT
				f.fired(r, "file-vanished", true)
				return
			}
		}
		if cfg.MaxFDs > 0 && f.open >= cfg.MaxFDs {
			r.errno = syscall.EMFILE
			f.fired(r, "fd-limit", true)
			return
		}
		if node == nil {
			f.nextIno++
			node = &inode{mode: r.perm.Perm(), ino: f.nextIno}
			f.nodes[p] = node
		}
		if r.flags&os.O_TRUNC != 0 && writing && !node.dir {
			f.used -= int64(len(node.data))
			node.data = nil
		}
		h := &handle{node: node, path: p, flags: r.flags, group: r.group}
		r.fd = f.nextFD
		f.nextFD++
		f.fds[r.fd] = h
		f.open++
		if f.open > f.maxOpen {
			f.maxOpen = f.open
		}
	case fsRead:
		h := f.handle(r)
		if h == nil {
			return
		}
		if h.node.dir {
			r.errno = syscall.EISDIR
			return
		}
		if h.flags&os.O_WRONLY != 0 {
			r.errno = syscall.EBADF
			return
		}
		off := h.off
		if r.off >= 0 {
			off = r.off
		}
		n := r.want
		if rest := int64(len(h.node.data)) - off; int64(n) > rest {
			n = int(rest)
			if n < 0 {
				n = 0
			}
		}
		switch f.inject(r, FaultRead, FaultShortRead, FaultEINTR) {
		case FaultRead:
			r.errno = syscall.EIO
			f.fired(r, "read-error", true)
			return
		case FaultShortRead:
			if n > 1 {
				n = 1 + f.k.src.S[StreamFault].next(uint32(n), nil)
				f.fired(r, "short-read", false)
			}
		case FaultEINTR:
			r.errno = syscall.EINTR
			f.fired(r, "eintr", false)
			return
		}
		r.buf = append([]byte(nil), h.node.data[off:off+int64(n)]...)
		r.n = n
		if r.off < 0 {
			h.off += int64(n)
		}
	case fsWrite:
		h := f.handle(r)
		if h == nil {
			return
		}
		if h.flags&(os.O_WRONLY|os.O_RDWR) == 0 {
			r.errno = syscall.EBADF
			return
		}
		data := r.buf
		switch f.inject(r, FaultWrite, FaultShortWrite, FaultEINTR) {
		case FaultWrite:
			r.errno = syscall.EIO
			f.fired(r, "write-error", true)
			return
		case FaultShortWrite:
			if len(data) > 0 {
				data = data[:f.k.src.S[StreamFault].next(uint32(len(data)), nil)]
				r.errno = syscall.ENOSPC
				f.fired(r, "torn-write", true)
			}
		case FaultEINTR:
			r.errno = syscall.EINTR
			f.fired(r, "eintr", false)
			return
		}
		off := h.off
		if r.off >= 0 {
			off = r.off
		}
		if h.flags&os.O_APPEND != 0 {
			off = int64(len(h.node.data))
		}
		grow := off + int64(len(data)) - int64(len(h.node.data))
		if cfg.Capacity > 0 && grow > 0 && f.used+grow > cfg.Capacity {
			room := cfg.Capacity - f.used - off + int64(len(h.node.data))
			if room < 0 {
				room = 0
			}
			if room < int64(len(data)) {
				data = data[:room]
				if r.errno == 0 {
					r.errno = syscall.ENOSPC
					f.fired(r, "disk-full", true)
				}
			}
		}
		if need := off + int64(len(data)); need > int64(len(h.node.data)) {
			f.used += need - int64(len(h.node.data))
			h.node.data = append(h.node.data, make([]byte, need-int64(len(h.node.data)))...)
		}
		copy(h.node.data[off:], data)
		r.n = len(data)
		h.wrote = int64(r.n)
		if r.off < 0 {
			h.off = off + int64(r.n)
		}
	case fsSeek:
		h := f.handle(r)
		if h == nil {
			return
		}
		switch r.flags {
		case io.SeekStart:
			h.off = r.off
		case io.SeekCurrent:
			h.off += r.off
		case io.SeekEnd:
			h.off = int64(len(h.node.data)) + r.off
		}
		r.size = h.off
	case fsClose:
		h := f.handle(r)
		if h == nil {
			return
		}
		h.closed = true
		f.open--
		if h.flags&(os.O_WRONLY|os.O_RDWR) != 0 && f.inject(r, FaultClose) != 0 {
			r.errno = f.pickErr(syscall.EIO, syscall.ENOSPC)
			// delayed allocation: what the last write stored is lost
			if n := int64(len(h.node.data)); h.wrote > 0 && h.wrote <= n {
				h.node.data = h.node.data[:n-h.wrote]
				f.used -= h.wrote
			}
			f.fired(r, "close-error", true)
		}
	case fsStat:
		p := clean(r.path)
		node := f.nodes[p]
		if node == nil {
			r.errno = syscall.ENOENT
			return
		}
		if f.inject(r, FaultStat) != 0 {
			r.errno = syscall.EIO
			f.fired(r, "stat-error", true)
			return
		}
		r.dir, r.mode, r.size = node.dir, node.mode, int64(len(node.data))
	case fsFstat:
		h := f.handle(r)
		if h == nil {
			return
		}
		r.dir, r.mode, r.size = h.node.dir, h.node.mode, int64(len(h.node.data))
	case fsTruncate:
		var node *inode
		if r.fd > 0 {
			if h := f.handle(r); h != nil {
				node = h.node
			}
		} else if node = f.nodes[clean(r.path)]; node == nil {
			r.errno = syscall.ENOENT
		}
		if node == nil {
			return
		}
		f.used += r.off - int64(len(node.data))
		for int64(len(node.data)) < r.off {
			node.data = append(node.data, 0)
		}
		node.data = node.data[:r.off:r.off]
	case fsRemove:
		p := clean(r.path)
		node := f.nodes[p]
		if node == nil {
			r.errno = syscall.ENOENT
			return
		}
		if node.dir && len(f.children(p)) > 0 {
			r.errno = syscall.ENOTEMPTY
			return
		}
		delete(f.nodes, p)
		f.used -= int64(len(node.data))
	case fsRename:
		p, q := clean(r.path), clean(r.path2)
		node := f.nodes[p]
		if node == nil || f.nodes[filepath.Dir(q)] == nil {
			r.errno = syscall.ENOENT
			return
		}
		if old := f.nodes[q]; old != nil {
			if old.dir {
				r.errno = syscall.EEXIST
				return
			}
			f.used -= int64(len(old.data))
		}
		delete(f.nodes, p)
		f.nodes[q] = node
	case fsMkdir:
		p := clean(r.path)
		if f.nodes[p] != nil {
			r.errno = syscall.EEXIST
			return
		}
		if parent := f.nodes[filepath.Dir(p)]; parent == nil || !parent.dir {
			r.errno = syscall.ENOENT
			return
		}
		f.nodes[p] = &inode{dir: true, mode: fs.ModeDir | r.perm.Perm()}
	case fsReaddir:
		p := clean(r.path)
		node := f.nodes[p]
		if node == nil {
			r.errno = syscall.ENOENT
			return
		}
		if !node.dir {
			r.errno = syscall.ENOTDIR
			return
		}
		r.names = f.children(p)
	case fsSync:
		f.handle(r)
	case fsPut:
		p := clean(r.path)
		f.nextIno++
		if r.dir {
			f.nodes[p] = &inode{dir: true, mode: fs.ModeDir | 0755, ino: f.nextIno}
		} else {
			if old := f.nodes[p]; old != nil {
				f.used -= int64(len(old.data))
			}
			f.nodes[p] = &inode{data: append([]byte(nil), r.buf...), mode: r.mode | 0644, ino: f.nextIno}
			f.used += int64(len(r.buf))
		}
	case fsGet:
		node := f.nodes[clean(r.path)]
		if node == nil || node.dir {
			r.errno = syscall.ENOENT
			return
		}
		r.buf = append([]byte(nil), node.data...)
		r.n = len(r.buf)
	case fsHard:
		r.n = f.hard
	case fsOpened:
		r.n = f.open
	case fsMax:
		r.n = f.maxOpen
		f.maxOpen = f.open
	case fsCfg:
		f.k.cfg.FS = r.cfg
		f.hard = 0
	case fsList:
		r.names = nil
		for p, n := range f.nodes {
			if !n.dir {
				r.names = append(r.names, p)
			}
		}
		sort.Strings(r.names)
	}
}

//go:norace
func (f *FS) children(dir string) []string {
	var l []string
	for p := range f.nodes {
		if p != "/" && filepath.Dir(p) == dir {
			l = append(l, filepath.Base(p))
		}
	}
	sort.Strings(l)
	return l
}

// ------------------------------------------------------------ client side

//go:norace
func cloneBytes(p []byte) []byte {
	b := make([]byte, len(p))
	for i := 0; i < len(p); i++ {
		b[i] = p[i]
	}
	return b
}

//go:norace
func fsCall(r *fsReq) {
	if cur == nil {
		panic(HarnessError("file system used outside of a simulation"))
	}
	r.path, r.path2 = cloneString(r.path), cloneString(r.path2)
	r.buf = cloneBytes(r.buf)
	r.group = cur.group
	cur.fs = r
	sys(opFS)
}

// newReq hides the request from the race detector: it is written by the task
// and by the kernel.
//
//go:norace
func newReq(op fsOp) *fsReq { r := new(fsReq); r.op = op; return r }

//go:norace
func fsPath(op fsOp, path string, flags int, perm fs.FileMode) (int, syscall.Errno) {
	r := newReq(op)
	r.path, r.flags, r.perm = path, flags, perm
	fsCall(r)
	return r.fd, r.errno
}

//go:norace
func fsRW(op fsOp, fd int, off int64, p []byte) (int, syscall.Errno) {
	r := newReq(op)
	r.fd, r.off = fd, off
	if op == fsWrite {
		raceReadRange(unsafe.Pointer(unsafe.SliceData(p)), len(p))
		r.buf = p
	} else {
		r.want = len(p)
	}
	fsCall(r)
	if op == fsRead && r.n > 0 {
		for i := 0; i < r.n; i++ {
			p[i] = r.buf[i]
		}
		raceWriteRange(unsafe.Pointer(unsafe.SliceData(p)), r.n)
	}
	return r.n, r.errno
}

//go:norace
func fsSimple(op fsOp, fd int, off int64, flags int) (int64, syscall.Errno) {
	r := newReq(op)
	r.fd, r.off, r.flags = fd, off, flags
	fsCall(r)
	return r.size, r.errno
}

//go:norace
func fsStatReq(op fsOp, path string, fd int) (info, syscall.Errno) {
	r := newReq(op)
	r.path, r.fd = path, fd
	fsCall(r)
	return info{name: path, size: r.size, mode: r.mode}, r.errno
}

//go:norace
func fsTwo(op fsOp, a, b string) syscall.Errno {
	r := newReq(op)
	r.path, r.path2 = a, b
	fsCall(r)
	return r.errno
}

//go:norace
func fsNames(op fsOp, path string) ([]string, syscall.Errno) {
	r := newReq(op)
	r.path = path
	fsCall(r)
	if r.names == nil {
		return nil, r.errno
	}
	l := make([]string, len(r.names))
	for i := 0; i < len(l); i++ {
		l[i] = cloneString(r.names[i])
	}
	return l, r.errno
}

//go:norace
func fsNum(op fsOp) int { r := newReq(op); fsCall(r); return r.n }

// PutFile installs a file (harness).
//
//go:norace
func PutFile(path string, data []byte) {
	r := newReq(fsPut)
	r.path, r.buf = path, data
	fsCall(r)
}

// PutSpecial installs a non-regular file (harness).
//
//go:norace
func PutSpecial(path string, mode fs.FileMode) {
	r := newReq(fsPut)
	r.path, r.mode = path, mode
	fsCall(r)
}

// PutDir installs a directory (harness).
//
//go:norace
func PutDir(path string) {
	r := newReq(fsPut)
	r.path, r.dir = path, true
	fsCall(r)
}

// GetFile returns the contents of a file (harness).
//
//go:norace
func GetFile(path string) ([]byte, bool) {
	r := newReq(fsGet)
	r.path = path
	fsCall(r)
	if r.errno != 0 {
		return nil, false
	}
	return cloneBytes(r.buf), true
}

// ListFiles returns the paths of all files (harness).
func ListFiles() []string { l, _ := fsNames(fsList, "/"); return l }

// HardFaults returns the number of injected faults that must surface as an
// error since the fault plan was set (harness).
func HardFaults() int { return fsNum(fsHard) }

// OpenFiles returns the number of open files (harness).
func OpenFiles() int { return fsNum(fsOpened) }

// MaxOpenFiles returns the largest number of simultaneously open files since
// the last call (harness).
func MaxOpenFiles() int { return fsNum(fsMax) }

// SetFS changes the fault plan (harness).
//
//go:norace
func SetFS(cfg FSConfig) {
	r := newReq(fsCfg)
	r.cfg = cfg
	fsCall(r)
}

// --------------------------------------------------------------- package os

type info struct {
	name string
	size int64
	mode fs.FileMode
}

func (i info) Name() string       { return filepath.Base(i.name) }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return baseTime }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() interface{}   { return nil }

func pathErr(op, path string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return &fs.PathError{Op: op, Path: path, Err: e}
}

// File replaces os.File.
type File struct {
	name   string
	fd     int
	closed bool
	rdDone bool
}

// OsOpenFile replaces os.OpenFile.
func OsOpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	fd, e := fsPath(fsOpen, name, flag, perm)
	if e != 0 {
		return nil, pathErr("open", name, e)
	}
	return &File{name: name, fd: fd}, nil
}

func OsOpen(name string) (*File, error) { return OsOpenFile(name, os.O_RDONLY, 0) }
func OsCreate(name string) (*File, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) read(p []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	for {
		n, e := fsRW(fsRead, f.fd, off, p)
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			return 0, pathErr("read", f.name, e)
		}
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
}

func (f *File) Read(p []byte) (int, error) { return f.read(p, -1) }
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	tot := 0
	for tot < len(p) {
		n, err := f.read(p[tot:], off+int64(tot))
		tot += n
		if err != nil {
			return tot, err
		}
	}
	return tot, nil
}

func (f *File) write(p []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	for {
		n, e := fsRW(fsWrite, f.fd, off, p)
		if e == syscall.EINTR {
			continue
		}
		return n, pathErr("write", f.name, e)
	}
}

func (f *File) Write(p []byte) (int, error)              { return f.write(p, -1) }
func (f *File) WriteString(s string) (int, error)        { return f.write([]byte(s), -1) }
func (f *File) WriteAt(p []byte, off int64) (int, error) { return f.write(p, off) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	n, e := fsSimple(fsSeek, f.fd, off, whence)
	return n, pathErr("seek", f.name, e)
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	f.closed = true
	_, e := fsSimple(fsClose, f.fd, 0, 0)
	return pathErr("close", f.name, e)
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	_, e := fsSimple(fsSync, f.fd, 0, 0)
	return pathErr("sync", f.name, e)
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	_, e := fsSimple(fsTruncate, f.fd, size, 0)
	return pathErr("truncate", f.name, e)
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	i, e := fsStatReq(fsFstat, f.name, f.fd)
	if e != 0 {
		return nil, pathErr("stat", f.name, e)
	}
	i.name = f.name
	return i, nil
}

func (f *File) Fd() uintptr               { return uintptr(f.fd) }
func (f *File) Chmod(m fs.FileMode) error { return nil }

func (f *File) Readdirnames(n int) ([]string, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if f.rdDone && n > 0 {
		return nil, io.EOF
	}
	f.rdDone = true
	l, e := fsNames(fsReaddir, f.name)
	return l, pathErr("readdirent", f.name, e)
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	names, err := f.Readdirnames(n)
	var l []fs.FileInfo
	for _, name := range names {
		if i, err := OsStat(filepath.Join(f.name, name)); err == nil {
			l = append(l, i)
		}
	}
	return l, err
}

func OsStat(name string) (fs.FileInfo, error) {
	i, e := fsStatReq(fsStat, name, 0)
	if e != 0 {
		return nil, pathErr("stat", name, e)
	}
	i.name = name
	return i, nil
}

func OsLstat(name string) (fs.FileInfo, error) { return OsStat(name) }
func OsRemove(name string) error {
	_, e := fsPath(fsRemove, name, 0, 0)
	return pathErr("remove", name, e)
}
func OsRemoveAll(name string) error {
	for _, c := range listDir(name) {
		OsRemoveAll(filepath.Join(name, c))
	}
	_, e := fsPath(fsRemove, name, 0, 0)
	if e == syscall.ENOENT {
		return nil
	}
	return pathErr("unlinkat", name, e)
}
func OsRename(a, b string) error {
	if e := fsTwo(fsRename, a, b); e != 0 {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	return nil
}
func OsMkdir(name string, perm fs.FileMode) error {
	_, e := fsPath(fsMkdir, name, 0, perm)
	return pathErr("mkdir", name, e)
}
func OsMkdirAll(name string, perm fs.FileMode) error {
	if i, err := OsStat(name); err == nil {
		if i.IsDir() {
			return nil
		}
		return pathErr("mkdir", name, syscall.ENOTDIR)
	}
	if d := filepath.Dir(name); d != name && d != "." && d != "/" {
		if err := OsMkdirAll(d, perm); err != nil {
			return err
		}
	}
	return OsMkdir(name, perm)
}
func OsTruncate(name string, size int64) error {
	r := newReq(fsTruncate)
	setTrunc(r, name, size)
	fsCall(r)
	return pathErr("truncate", name, errOf(r))
}

//go:norace
func setTrunc(r *fsReq, name string, size int64) { r.path, r.off = name, size }

//go:norace
func errOf(r *fsReq) syscall.Errno { return r.errno }

func listDir(name string) []string { l, _ := fsNames(fsReaddir, name); return l }

type dirEntry struct{ info }

func (d dirEntry) Type() fs.FileMode          { return d.mode.Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return d.info, nil }

func OsReadDir(name string) ([]fs.DirEntry, error) {
	names, e := fsNames(fsReaddir, name)
	if e != 0 {
		return nil, pathErr("open", name, e)
	}
	var l []fs.DirEntry
	for _, n := range names {
		i, e := fsStatReq(fsStat, filepath.Join(name, n), 0)
		if e == 0 {
			i.name = n
			l = append(l, dirEntry{i})
		}
	}
	return l, nil
}

func OsReadFile(name string) ([]byte, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func OsWriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func OsCreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	i := strings.LastIndex(pattern, "*")
	pre, suf := pattern, ""
	if i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for n := 0; n < 10000; n++ {
		f, err := OsOpenFile(filepath.Join(dir, fmt.Sprintf("%s%d%s", pre, RandUint32(), suf)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
	return nil, os.ErrExist
}

func OsMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	i := strings.LastIndex(pattern, "*")
	pre, suf := pattern, ""
	if i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for n := 0; n < 10000; n++ {
		name := filepath.Join(dir, fmt.Sprintf("%s%d%s", pre, RandUint32(), suf))
		err := OsMkdir(name, 0700)
		if os.IsExist(err) {
			continue
		}
		return name, err
	}
	return "", os.ErrExist
}

func OsTempDir() string { return "/tmp" }

// OsChmod replaces os.Chmod: permissions are not simulated.
func OsChmod(name string, m fs.FileMode) error {
	_, err := OsStat(name)
	return err
}

func OsChtimes(name string, a, m time.Time) error {
	_, err := OsStat(name)
	return err
}

func OsGetpid() int { return 4242 }

func OsGetwd() (string, error) { return "/sim", nil }

// ------------------------------------------------------------- io/ioutil

func IoutilReadFile(name string) ([]byte, error) { return OsReadFile(name) }
func IoutilWriteFile(name string, data []byte, perm fs.FileMode) error {
	return OsWriteFile(name, data, perm)
}
func IoutilTempFile(dir, pattern string) (*File, error) { return OsCreateTemp(dir, pattern) }
func IoutilTempDir(dir, pattern string) (string, error) { return OsMkdirTemp(dir, pattern) }
func IoutilReadDir(name string) ([]fs.FileInfo, error) {
	l, err := OsReadDir(name)
	var r []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

var _ = ioutil.Discard

// ---------------------------------------------------------- path/filepath

// FilepathGlob follows the implementation of filepath.Glob.
func FilepathGlob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, e := fsStatReq(fsStat, pattern, 0); e != 0 {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		if dir == pattern {
			return nil, filepath.ErrBadPattern
		}
		var err error
		if dirs, err = FilepathGlob(dir); err != nil {
			return nil, err
		}
	}
	var matches []string
	for _, d := range dirs {
		for _, n := range listDir(d) {
			ok, err := filepath.Match(file, n)
			if err != nil {
				return matches, err
			}
			if ok {
				matches = append(matches, filepath.Join(d, n))
			}
		}
	}
	return matches, nil
}

// FilepathWalk replaces filepath.Walk.
func FilepathWalk(root string, fn filepath.WalkFunc) error {
	i, err := OsLstat(root)
	if err != nil {
		return fn(root, nil, err)
	}
	err = fn(root, i, nil)
	if err != nil {
		if i.IsDir() && err == filepath.SkipDir {
			return nil
		}
		return err
	}
	if i.IsDir() {
		for _, n := range listDir(root) {
			if err := FilepathWalk(filepath.Join(root, n), fn); err != nil && err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

// FilepathWalkDir replaces filepath.WalkDir.
func FilepathWalkDir(root string, fn fs.WalkDirFunc) error {
	return FilepathWalk(root, func(path string, i fs.FileInfo, err error) error {
		if i == nil {
			return fn(path, nil, err)
		}
		return fn(path, fs.FileInfoToDirEntry(i), err)
	})
}
