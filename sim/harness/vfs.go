package main

// The simulated disk of one host. A killed process leaves what it wrote; a
// power loss leaves what was synced, plus whatever part of the rest the disk
// happened to have written.

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

type inode struct {
	data   []byte // as the process sees it
	synced []byte // on the platter
	isLog  bool
	dir    bool
}

type vfs struct {
	h       *host
	files   map[string]*inode // current directory tree
	durable map[string]*inode // tree that survives power loss
	open    map[*vfile]bool
	faults  []diskFault
	writes  []stateWrite
}

type diskFault struct {
	what  string
	until time.Duration
	arg   int
}

type stateWrite struct {
	path string
}

func newVFS(h *host) *vfs {
	return &vfs{h: h, files: map[string]*inode{}, durable: map[string]*inode{}, open: map[*vfile]bool{}}
}

type vfile struct {
	fs     *vfs
	name   string
	in     *inode
	off    int64
	flag   int
	closed bool
}

func clean(name string) string { return strings.TrimPrefix(filepath.Clean(name), "./") }

// mine reports whether the calling goroutine's file goes to a simulated disk.
func mine(name string) (*proc, bool) {
	p := curProc()
	return p, p != nil
}

func (v *vfs) fault(what string, until time.Duration, arg int) {
	v.faults = append(v.faults, diskFault{what, until, arg})
}

func (v *vfs) hit(what string) bool {
	for _, f := range v.faults {
		if f.what == what && eng.now() < f.until {
			if f.arg != 0 && int(hash(eng.plan.Seed, 17, uint64(v.h.id), v.h.fsOps)%100) >= f.arg {
				continue
			}
			eng.count("disk fault hit: " + what)
			return true
		}
	}
	return false
}

func isLog(name string) bool { return strings.HasPrefix(clean(name), LogsFolder) }

// mut is called before every change to the disk.
func (v *vfs) mut(p *proc, kind, name string) {
	v.h.fsOps++
	eng.seam(p, kind, name)
	for i := range eng.plan.Acts {
		a := &eng.plan.Acts[i]
		if a.Node == v.h.id && a.FsOp != 0 && a.FsOp == v.h.fsOps {
			eng.act(a)
		}
	}
	if p.dead {
		freeze()
	}
	if !isLog(name) {
		// A slow disk: other goroutines run between two file operations.
		d := time.Duration(hash(eng.plan.Seed, 23, v.h.fsOps)%3_000_000) + 1
		if v.hit("slow") {
			d += time.Duration(hash(eng.plan.Seed, 24, v.h.fsOps) % 3_000_000_000)
		}
		time.Sleep(d)
		if p.dead {
			freeze()
		}
	}
}

func perr(op, name string, e error) error { return &os.PathError{Op: op, Path: name, Err: e} }

func (simFS) OpenFile(name string, flag int, perm os.FileMode) (os.SimHandle, error, bool) {
	p, ok := mine(name)
	if !ok {
		return nil, nil, false
	}
	v := p.h.fs
	key := clean(name)
	in := v.files[key]
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if in == nil && !wr && filepath.IsAbs(name) {
		return nil, nil, false // the machine's own read-only files
	}
	if isLog(name) {
		if p.dead {
			freeze()
		}
	} else if wr {
		v.mut(p, "fs.open", fmt.Sprintf("%s %x", key, flag))
	} else {
		eng.seam(p, "fs.openr", key)
	}
	if !isLog(name) {
		if wr && v.hit("open") {
			return nil, perr("open", name, syscall.EMFILE), true
		}
		if !wr && v.hit("openr") {
			return nil, perr("open", name, syscall.EMFILE), true
		}
	}
	if in == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT), true
		}
		if d := filepath.Dir(key); d != "." && (v.files[d] == nil || !v.files[d].dir) {
			return nil, perr("open", name, syscall.ENOENT), true
		}
		if wr && v.hit("full") && !isLog(name) {
			return nil, perr("open", name, syscall.ENOSPC), true
		}
		in = &inode{isLog: isLog(name)}
		v.files[key] = in
		v.durable[key] = in
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST), true
	}
	if in.dir && wr {
		return nil, perr("open", name, syscall.EISDIR), true
	}
	if flag&os.O_TRUNC != 0 && wr {
		in.data = nil
	}
	f := &vfile{fs: v, name: key, in: in, flag: flag}
	v.open[f] = true
	return f, nil, true
}

func (f *vfile) Read(b []byte) (int, error) {
	p := curProc()
	if p != nil {
		eng.seam(p, "fs.read", f.name)
	}
	if f.fs.hit("read") {
		return 0, perr("read", f.name, syscall.EIO)
	}
	if f.off >= int64(len(f.in.data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, f.in.data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *vfile) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(len(f.in.data)) {
		return 0, io.EOF
	}
	return copy(b, f.in.data[off:]), nil
}

func (f *vfile) Write(b []byte) (int, error) {
	if f.in.isLog {
		return len(b), nil // same lines as on the standard output
	}
	p := curProc()
	if f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.in.data))
	}
	n, err := f.wr(p, b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *vfile) WriteAt(b []byte, off int64) (int, error) { return f.wr(curProc(), b, off) }

func (f *vfile) put(b []byte, off int64) {
	if need := off + int64(len(b)); need > int64(len(f.in.data)) {
		nd := make([]byte, need)
		copy(nd, f.in.data)
		f.in.data = nd
	} else {
		f.in.data = append([]byte(nil), f.in.data...)
	}
	copy(f.in.data[off:], b)
}

// wr applies a write in pieces, so that a crash may fall between them.
func (f *vfile) wr(p *proc, b []byte, off int64) (int, error) {
	v := f.fs
	x := hash(eng.plan.Seed, 29, uint64(v.h.id), v.h.fsOps)
	if p != nil {
		v.mut(p, "fs.write", fmt.Sprint(f.name, " ", len(b)))
	}
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	if v.hit("write") {
		n := int(x % uint64(len(b)+1))
		f.put(b[:n], off)
		return n, perr("write", f.name, syscall.EIO)
	}
	if v.hit("full") {
		n := int(x % uint64(len(b)+1))
		f.put(b[:n], off)
		return n, perr("write", f.name, syscall.ENOSPC)
	}
	if len(b) > 1 && p != nil {
		n := int(x % uint64(len(b)))
		f.put(b[:n], off)
		v.mut(p, "fs.write2", fmt.Sprint(f.name, " ", n))
		f.put(b[n:], off+int64(n))
	} else {
		f.put(b, off)
	}
	return len(b), nil
}

func (f *vfile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		f.off = off
	case 1:
		f.off += off
	case 2:
		f.off = int64(len(f.in.data)) + off
	}
	return f.off, nil
}

func (f *vfile) Close() error {
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	delete(f.fs.open, f)
	return nil
}

func (f *vfile) Sync() error {
	if p := curProc(); p != nil && !f.in.isLog {
		f.fs.mut(p, "fs.sync", f.name)
	}
	if f.in.dir {
		return nil
	}
	if f.fs.hit("sync") {
		return syscall.EIO
	}
	f.in.synced = append([]byte{}, f.in.data...)
	return nil
}

func (f *vfile) Truncate(n int64) error {
	if p := curProc(); p != nil {
		f.fs.mut(p, "fs.trunc", f.name)
	}
	if n <= int64(len(f.in.data)) {
		f.in.data = append([]byte(nil), f.in.data[:n]...)
	} else {
		f.in.data = append(append([]byte(nil), f.in.data...), make([]byte, n-int64(len(f.in.data)))...)
	}
	return nil
}

type vinfo struct {
	name string
	in   *inode
}

func (i vinfo) Name() string { return filepath.Base(i.name) }
func (i vinfo) Size() int64  { return int64(len(i.in.data)) }
func (i vinfo) Mode() fs.FileMode {
	if i.in.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i vinfo) ModTime() time.Time { return time.Now() }
func (i vinfo) IsDir() bool        { return i.in.dir }
func (i vinfo) Sys() any           { return nil }

func (f *vfile) Stat() (os.FileInfo, error) { return vinfo{f.name, f.in}, nil }

func (f *vfile) List() ([]os.FileInfo, error) {
	var names []string
	for k := range f.fs.files {
		if filepath.Dir(k) == f.name || (f.name == "." && !strings.Contains(k, "/")) {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	var l []os.FileInfo
	for _, n := range names {
		l = append(l, vinfo{n, f.fs.files[n]})
	}
	return l, nil
}

func (simFS) Remove(name string, all bool) (error, bool) {
	p, ok := mine(name)
	if !ok {
		return nil, false
	}
	key := clean(name)
	p.h.fs.mut(p, "fs.remove", key)
	if p.h.fs.files[key] == nil {
		if all {
			return nil, true
		}
		return perr("remove", name, syscall.ENOENT), true
	}
	delete(p.h.fs.files, key)
	delete(p.h.fs.durable, key)
	if all {
		for k := range p.h.fs.files {
			if strings.HasPrefix(k, key+"/") {
				delete(p.h.fs.files, k)
				delete(p.h.fs.durable, k)
			}
		}
	}
	return nil, true
}

func (simFS) Rename(a, b string) (error, bool) {
	p, ok := mine(a)
	if !ok {
		return nil, false
	}
	v := p.h.fs
	a, b = clean(a), clean(b)
	v.mut(p, "fs.rename", a+" "+b)
	in := v.files[a]
	if in == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}, true
	}
	if v.hit("rename") {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EIO}, true
	}
	delete(v.files, a)
	v.files[b] = in
	// The journal makes the rename itself atomic; whether it is on the
	// platter yet is decided by chance at a power loss.
	delete(v.durable, a)
	v.durable[b] = in
	return nil, true
}

func (simFS) Mkdir(name string, perm os.FileMode) (error, bool) {
	p, ok := mine(name)
	if !ok {
		return nil, false
	}
	v := p.h.fs
	key := clean(name)
	eng.seam(p, "fs.mkdir", key)
	if v.files[key] != nil {
		return perr("mkdir", name, syscall.EEXIST), true
	}
	in := &inode{dir: true}
	v.files[key] = in
	v.durable[key] = in
	return nil, true
}

func (simFS) Stat(name string) (os.FileInfo, error, bool) {
	p, ok := mine(name)
	if !ok {
		return nil, nil, false
	}
	if p.dead {
		freeze()
	}
	key := clean(name)
	in := p.h.fs.files[key]
	if in == nil {
		if filepath.IsAbs(name) {
			return nil, nil, false
		}
		if key == "." {
			return vinfo{".", &inode{dir: true}}, nil, true
		}
		return nil, perr("stat", name, syscall.ENOENT), true
	}
	return vinfo{key, in}, nil, true
}

func (simFS) Truncate(name string, n int64) (error, bool) {
	p, ok := mine(name)
	if !ok {
		return nil, false
	}
	in := p.h.fs.files[clean(name)]
	if in == nil {
		return perr("truncate", name, syscall.ENOENT), true
	}
	return (&vfile{fs: p.h.fs, name: clean(name), in: in}).Truncate(n), true
}

func (simFS) Chmod(name string) (error, bool) {
	_, ok := mine(name)
	return nil, ok
}

func (v *vfs) closeAll() {
	for f := range v.open {
		f.closed = true
	}
	v.open = map[*vfile]bool{}
}

// powerLoss keeps what was synced; of everything else, chance decides how
// much had reached the disk.
func (v *vfs) powerLoss(h uint64) {
	var names []string
	for k := range v.files {
		names = append(names, k)
	}
	sort.Strings(names)
	for i, k := range names {
		in := v.files[k]
		if in.dir || in.isLog || string(in.data) == string(in.synced) {
			continue
		}
		x := hash(h, uint64(i))
		eng.count("power loss with unsynced file")
		switch x % 4 {
		case 0: // nothing of it
			in.data = append([]byte{}, in.synced...)
		case 1: // length but no data
			in.data = make([]byte, len(in.data))
		case 2: // a prefix
			in.data = append([]byte{}, in.data[:int((x>>8)%uint64(len(in.data)+1))]...)
		case 3: // all of it
		}
		in.synced = append([]byte{}, in.data...)
	}
}
