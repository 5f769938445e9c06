package main

// Patches to Go's standard library, applied through `go build -overlay`:
// nothing on disk under GOROOT changes. Each one puts a source of
// nondeterminism (randomness, scheduling, locks, files, HTTP, signals,
// process exit) behind a hook the simulator sets. With no hook set, and
// outside a synctest bubble, the patched functions do what the originals do.

type patch struct {
	file string // below GOROOT/src
	old  string // must occur exactly once
	new  string
}

func hdr(file, header, body string) patch {
	return patch{file, header + "\n", header + "\n" + body + "\n"}
}

var stdPatches = []patch{
	// ---- runtime: deterministic randomness, no time-driven preemption
	hdr("runtime/rand.go", "func rand() uint64 {", "\tif simOn && getg().bubble != nil {\n\t\treturn simNext(&simRandState)\n\t}"),
	hdr("runtime/rand.go", "func cheaprand() uint32 {", "\tif simOn && getg().bubble != nil {\n\t\treturn uint32(simNext(&simCheapState))\n\t}"),
	{"runtime/rand.go", "	globalRand.state.Init(*seed)\n", "	for i := range seed {\n\t\tseed[i] = byte(i*37 + 11)\n\t}\n	globalRand.state.Init(*seed)\n"},
	hdr("runtime/proc.go", "func retake(now int64) uint32 {", "\tif simOn {\n\t\treturn 0\n\t}"),
	// A goroutine waiting for a sync.Mutex or RWMutex counts as durably
	// blocked, so that simulated time runs on while another goroutine sleeps
	// holding the lock (and a deadlock shows as requests never answered).
	{"runtime/runtime2.go", "	waitReasonSynctestSelect:        true,\n", "	waitReasonSynctestSelect:        true,\n	waitReasonSyncMutexLock: true,\n	waitReasonSyncRWMutexRLock: true,\n	waitReasonSyncRWMutexLock: true,\n"},
	hdr("runtime/sema.go", "func internal_sync_nanotime() int64 {", "\tif b := getg().bubble; b != nil {\n\t\treturn b.now\n\t}"),
	// ---- time.AfterFunc callbacks belong to the node that armed them
	hdr("time/sleep.go", "func AfterFunc(d Duration, f func()) *Timer {", "\tf = simWrap(f)"),
	// A time that SimWall moved keeps its monotonic reading.
	{"time/time.go", "	if t.wall&hasMonotonic != 0 && !runtimeIsBubbled() {\n		// Common case optimization: if t has monotonic time, then Sub will use only it.\n		return subMono(runtimeNano", "	if t.wall&hasMonotonic != 0 {\n		// Common case optimization: if t has monotonic time, then Sub will use only it.\n		return subMono(runtimeNano"},
	{"time/time.go", "	if t.wall&hasMonotonic != 0 && !runtimeIsBubbled() {\n		// Common case optimization: if t has monotonic time, then Sub will use only it.\n		return subMono(t.ext", "	if t.wall&hasMonotonic != 0 {\n		// Common case optimization: if t has monotonic time, then Sub will use only it.\n		return subMono(t.ext"},
	// ---- crypto/rand
	hdr("crypto/internal/sysrand/rand.go", "func Read(b []byte) {", "\tif simRandFill(b) {\n\t\treturn\n\t}"),
	// ---- net/http: every client request and every listener
	{"net/http/roundtrip.go", "	return t.roundTrip(req)\n", "	if SimRoundTrip != nil {\n\t\tif resp, err, ok := SimRoundTrip(req); ok {\n\t\t\treturn resp, err\n\t\t}\n\t}\n	return t.roundTrip(req)\n"},
	{"net/http/server.go", "	addr := s.Addr\n	if addr == \"\" {\n		addr = \":http\"\n	}\n	ln, err := net.Listen", "	if SimListen != nil {\n\t\tif err, ok := SimListen(s); ok {\n\t\t\treturn err\n\t\t}\n\t}\n	addr := s.Addr\n	if addr == \"\" {\n		addr = \":http\"\n	}\n	ln, err := net.Listen"},
	// ---- os/signal
	{"os/signal/signal.go", "		panic(\"os/signal: Notify using nil channel\")\n	}\n", "		panic(\"os/signal: Notify using nil channel\")\n	}\n\tif SimNotify != nil && SimNotify(c, sig) {\n\t\treturn\n\t}\n"},
	// ---- os: files and process exit
	hdr("os/proc.go", "func Exit(code int) {", "\tif SimOS != nil {\n\t\tSimOS.Exit(code)\n\t}"),
	{"os/file_unix.go", "	inRoot      bool                    // whether file is opened in a Root\n", "	inRoot      bool                    // whether file is opened in a Root\n	sim SimHandle\n"},
	hdr("os/file_unix.go", "func openFileNolog(name string, flag int, perm FileMode) (*File, error) {", "\tif SimOS != nil {\n\t\tif h, err, ok := SimOS.OpenFile(name, flag, perm); ok {\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t\treturn &File{&file{name: name, sim: h}}, nil\n\t\t}\n\t}"),
	hdr("os/file_unix.go", "func openDirNolog(name string) (*File, error) {", "\tif SimOS != nil {\n\t\tif h, err, ok := SimOS.OpenFile(name, O_RDONLY, 0); ok {\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t\treturn &File{&file{name: name, sim: h}}, nil\n\t\t}\n\t}"),
	hdr("os/file_unix.go", "func (f *File) seek(offset int64, whence int) (ret int64, err error) {", "\tif f.sim != nil {\n\t\treturn f.sim.Seek(offset, whence)\n\t}"),
	hdr("os/file_unix.go", "func Remove(name string) error {", "\tif SimOS != nil {\n\t\tif err, ok := SimOS.Remove(name, false); ok {\n\t\t\treturn err\n\t\t}\n\t}"),
	{"os/file_unix.go", "		return syscall.EINVAL\n	}\n	if info := file.dirinfo.Swap(nil); info != nil {", "		return syscall.EINVAL\n	}\n	if file.sim != nil {\n\t\treturn file.sim.Close()\n\t}\n	if info := file.dirinfo.Swap(nil); info != nil {"},
	hdr("os/file_unix.go", "func Truncate(name string, size int64) error {", "\tif SimOS != nil {\n\t\tif err, ok := SimOS.Truncate(name, size); ok {\n\t\t\treturn err\n\t\t}\n\t}"),
	hdr("os/file_unix.go", "func (f *File) fd() uintptr {", "\tif f != nil && f.sim != nil {\n\t\treturn ^(uintptr(0))\n\t}"),
	hdr("os/file_posix.go", "func (f *File) read(b []byte) (n int, err error) {", "\tif f.sim != nil {\n\t\treturn f.sim.Read(b)\n\t}"),
	hdr("os/file_posix.go", "func (f *File) pread(b []byte, off int64) (n int, err error) {", "\tif f.sim != nil {\n\t\treturn f.sim.ReadAt(b, off)\n\t}"),
	hdr("os/file_posix.go", "func (f *File) write(b []byte) (n int, err error) {", "\tif f.sim != nil {\n\t\treturn f.sim.Write(b)\n\t}\n\tif SimOS != nil && f.stdoutOrErr && SimOS.Std(f, b) {\n\t\treturn len(b), nil\n\t}"),
	hdr("os/file_posix.go", "func (f *File) pwrite(b []byte, off int64) (n int, err error) {", "\tif f.sim != nil {\n\t\treturn f.sim.WriteAt(b, off)\n\t}"),
	{"os/file_posix.go", "	if err := f.checkValid(\"truncate\"); err != nil {\n		return err\n	}\n", "	if err := f.checkValid(\"truncate\"); err != nil {\n		return err\n	}\n	if f.sim != nil {\n\t\treturn f.sim.Truncate(size)\n\t}\n"},
	{"os/file_posix.go", "	if err := f.checkValid(\"sync\"); err != nil {\n		return err\n	}\n", "	if err := f.checkValid(\"sync\"); err != nil {\n		return err\n	}\n	if f.sim != nil {\n\t\treturn f.wrapErr(\"sync\", f.sim.Sync())\n\t}\n"},
	hdr("os/file_posix.go", "func chmod(name string, mode FileMode) error {", "\tif SimOS != nil {\n\t\tif err, ok := SimOS.Chmod(name); ok {\n\t\t\treturn err\n\t\t}\n\t}"),
	{"os/file_posix.go", "func (f *File) chmod(mode FileMode) error {\n", "func (f *File) chmod(mode FileMode) error {\n\tif f != nil && f.sim != nil {\n\t\treturn nil\n\t}\n"},
	hdr("os/zero_copy_linux.go", "func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {", "\tif f.sim != nil {\n\t\treturn 0, false, nil\n\t}"),
	hdr("os/zero_copy_linux.go", "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {", "\tif f.sim != nil {\n\t\treturn 0, false, nil\n\t}"),
	hdr("os/dir_unix.go", "func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {", "\tif f.sim != nil {\n\t\treturn simReaddir(f, n, mode)\n\t}"),
	{"os/stat_unix.go", "		return nil, ErrInvalid\n	}\n", "		return nil, ErrInvalid\n	}\n	if f.sim != nil {\n\t\treturn f.sim.Stat()\n\t}\n"},
	hdr("os/stat_unix.go", "func statNolog(name string) (FileInfo, error) {", "\tif SimOS != nil {\n\t\tif fi, err, ok := SimOS.Stat(name); ok {\n\t\t\treturn fi, err\n\t\t}\n\t}"),
	hdr("os/stat_unix.go", "func lstatNolog(name string) (FileInfo, error) {", "\tif SimOS != nil {\n\t\tif fi, err, ok := SimOS.Stat(name); ok {\n\t\t\treturn fi, err\n\t\t}\n\t}"),
	hdr("os/file.go", "func Mkdir(name string, perm FileMode) error {", "\tif SimOS != nil {\n\t\tif err, ok := SimOS.Mkdir(name, perm); ok {\n\t\t\treturn err\n\t\t}\n\t}"),
	hdr("os/file.go", "func Rename(oldpath, newpath string) error {", "\tif SimOS != nil {\n\t\tif err, ok := SimOS.Rename(oldpath, newpath); ok {\n\t\t\treturn err\n\t\t}\n\t}"),
	hdr("os/path.go", "func RemoveAll(path string) error {", "\tif SimOS != nil {\n\t\tif err, ok := SimOS.Remove(path, true); ok {\n\t\t\treturn err\n\t\t}\n\t}"),
}

// Files added to standard-library packages.
var stdFiles = map[string]string{
	"runtime/zz_sim.go": `package runtime

import "unsafe"

var (
	simOn         bool
	simRandState  uint64
	simCheapState uint64
	// SimCur is the tag of the node whose package variables are in place.
	SimCur unsafe.Pointer
	// SimBudget counts statements of instrumented code down to the next
	// preemption point.
	SimBudget int64 = 1 << 62
	// SimSites marks the statements that call SimSlow every time.
	SimSites [1 << 14]uint8
	// SimSkew gives the wall-clock offset of the calling node.
	SimSkew func() int64
	// SimGlobals lists the package-level variables of instrumented packages.
	SimGlobals []SimGlobal
	// SimAlias gives the address a signer stands for.
	SimAlias func(a [20]byte) [20]byte
	// SimSlow is called at a preemption point or on a change of node.
	SimSlow func(site int)
)

// SimGlobal saves (Save returns the function that restores) or resets one
// package-level variable.
type SimGlobal struct {
	Name  string
	Save  func() func()
	Reset func()
}

// SimSeed switches to simulated randomness for goroutines inside a bubble.
func SimSeed(s uint64) {
	simRandState = s
	simCheapState = s ^ 0x5851f42d4c957f2d
	simOn = true
}

// SimState identifies how much randomness was used.
func SimState() (uint64, uint64) { return simRandState, simCheapState }

//go:nosplit
func simNext(p *uint64) uint64 {
	*p += 0x9e3779b97f4a7c15
	z := *p
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimTag and SimSetTag read and set the node a goroutine runs for; goroutines
// it starts inherit it.
func SimTag() unsafe.Pointer { return getg().labels }

func SimSetTag(p unsafe.Pointer) { getg().labels = p }

// SimY is called before every statement of instrumented code.
func SimY(site int) {
	if getg().labels == SimCur && SimSites[site&(1<<14-1)] == 0 {
		SimBudget--
		if SimBudget > 0 {
			return
		}
	}
	if SimSlow != nil {
		SimSlow(site)
	}
}

//go:linkname simSysrandFill crypto/internal/sysrand.simRandFill
func simSysrandFill(b []byte) bool {
	if !simOn || getg().bubble == nil {
		return false
	}
	for i := range b {
		b[i] = byte(simNext(&simRandState))
	}
	return true
}

//go:linkname simTimeTag time.simTag
func simTimeTag() unsafe.Pointer { return getg().labels }

//go:linkname simTimeSetTag time.simSetTag
func simTimeSetTag(p unsafe.Pointer) { getg().labels = p }
`,
	"time/zz_sim.go": `package time

import "unsafe"

//go:linkname simTag
func simTag() unsafe.Pointer

//go:linkname simSetTag
func simSetTag(p unsafe.Pointer)

// SimWall moves the wall clock reading of t and leaves its monotonic one.
func SimWall(t Time, d Duration) Time {
	if d == 0 {
		return t
	}
	u := t.Add(d)
	if t.wall&hasMonotonic != 0 {
		if u.wall&hasMonotonic != 0 {
			u.ext = t.ext
		}
		return u
	}
	// Simulated time comes without a monotonic reading: attach it.
	n := uint64(u.nsec())
	u.wall = hasMonotonic | uint64(u.sec()-wallToInternal)<<nsecShift | n
	u.ext = runtimeNano() - startNano
	return u
}

func simWrap(f func()) func() {
	t := simTag()
	if t == nil {
		return f
	}
	return func() {
		simSetTag(t)
		f()
	}
}
`,
	"crypto/internal/sysrand/zz_sim.go": `package sysrand

import _ "unsafe" // for linkname

//go:linkname simRandFill
func simRandFill(b []byte) bool
`,
	"net/http/zz_sim.go": `package http

// SimRoundTrip, when set, answers client requests.
var SimRoundTrip func(*Request) (*Response, error, bool)

// SimListen, when set, takes over ListenAndServe.
var SimListen func(*Server) (error, bool)
`,
	"os/signal/zz_sim.go": `package signal

import "os"

// SimNotify, when set, records a Notify registration.
var SimNotify func(c chan<- os.Signal, sig []os.Signal) bool
`,
	"os/zz_sim.go": `package os

// SimHandle is an open simulated file.
type SimHandle interface {
	Read(b []byte) (int, error)
	ReadAt(b []byte, off int64) (int, error)
	Write(b []byte) (int, error)
	WriteAt(b []byte, off int64) (int, error)
	Seek(off int64, whence int) (int64, error)
	Close() error
	Sync() error
	Truncate(n int64) error
	Stat() (FileInfo, error)
	List() ([]FileInfo, error)
}

// SimFS is a simulated file system and process. A final bool result of false
// means "not mine": the real call is made.
type SimFS interface {
	OpenFile(name string, flag int, perm FileMode) (SimHandle, error, bool)
	Remove(name string, all bool) (error, bool)
	Rename(a, b string) (error, bool)
	Mkdir(name string, perm FileMode) (error, bool)
	Stat(name string) (FileInfo, error, bool)
	Truncate(name string, n int64) (error, bool)
	Chmod(name string) (error, bool)
	Std(f *File, b []byte) bool
	Exit(code int)
}

var SimOS SimFS

type simDirEntry struct{ FileInfo }

func (d simDirEntry) Type() FileMode             { return d.Mode().Type() }
func (d simDirEntry) Info() (FileInfo, error)    { return d.FileInfo, nil }
func (d simDirEntry) String() string             { return d.Name() }

func simReaddir(f *File, n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {
	l, err := f.sim.List()
	for _, fi := range l {
		switch mode {
		case readdirName:
			names = append(names, fi.Name())
		case readdirDirEntry:
			dirents = append(dirents, simDirEntry{fi})
		default:
			infos = append(infos, fi)
		}
	}
	return
}
`,
}
