package main

// The simulator: simulated processes ("procs") running the real main(), the
// seams they reach the outside through, the scheduler's preemption points,
// crashes and restarts, the event log.

import (
	"bytes"
	"flag"
	"fmt"
	"github.com/ethereum/go-ethereum/crypto"
	"io"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
	"syscall"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/sirupsen/logrus"
)

// ---- randomness of the harness: stateless hashes of the seed

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hash(xs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range xs {
		h = mix(h ^ x)
	}
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type rng struct{ s uint64 }

func (r *rng) u() uint64          { r.s++; return mix(r.s * 0xd1342543de82ef95) }
func (r *rng) n(n int) int        { return int(r.u() % uint64(n)) }
func (r *rng) p(x float64) bool   { return float64(r.u()>>11)/(1<<53) < x }
func (r *rng) rg(a, b int) int    { return a + r.n(b-a+1) }
func pick[T any](r *rng, l []T) T { return l[r.n(len(l))] }

// ---- processes

// host is a machine an oracle runs on: its disk and its clock survive.
type host struct {
	id        int
	name      string
	cfg       NodePlan
	fs        *vfs
	skew      int64
	proc      *proc
	incs      int
	stopped   bool // not started again, with the race detector
	quick     int  // exits right after start in a row
	keyFile   []byte
	hitStates map[int]bool // faults that hit requests made with the state locked
	ops       uint64       // seam operations so far
	fsOps     uint64       // file operations that change the disk, logs excluded
	netOps    uint64
	downTill  time.Duration
	held      bool // operator keeps it stopped
	exits     []exitRec
	outage    []span
	maxReq    uint64
	tampered  bool
	tamper    string
	lastState *stState
	saved     map[string][]byte
}

type span struct {
	a, b time.Duration
	disk bool
}

type exitRec struct {
	at   time.Duration
	code int
	why  string // "fatal", "killed", "signal", "return", ...
	msg  string
	inc  int
	up   time.Duration
	cold bool // before its main loop asked for a block
}

// proc is one run of the program on a host; the goroutine tag points to it.
type proc struct {
	h            *host
	inc          int
	dead         bool
	started      time.Duration
	fresh        bool
	saved        []func()
	notify       []sigReg
	servers      map[string]http.Handler
	stall        time.Duration // frozen until
	preSum       time.Duration // suspended by preemptions
	slot         uint64        // being worked on
	sinceSlot    int           // statements around locks since then
	logs         []string
	fatal        string
	up           bool // serves its API
	looped       bool // its main loop has started asking for duties
	maxReq       uint64
	lastState    *stState
	lastStateAt  time.Duration
	exited       bool
	netUsed      bool
	netInc       int
	maxFin       uint64 // latest finalized slot its beacon node reported
	elBad, clBad bool   // what its nodes last said about being in sync
	badFetch     int
	signalled    bool
	loadedBad    bool
	hung         bool
	pend         int
	valSnaps     []valSnap
	firstReq     uint64
	nreq         int // slots it asked for
	polledReq    int
	polledAt     time.Duration
	lastBody     string
}

type sigReg struct {
	c   chan<- os.Signal
	sig []os.Signal
}

type engine struct {
	plan     *Plan
	t0       time.Time
	hosts    []*host
	procs    []*proc // keeps tags reachable
	log      uint64
	nlog     uint64
	trace    []string
	traceOn  bool
	pre      uint64 // preemptions so far
	preSum   time.Duration
	ending   bool // the final checks are being made
	syncSite map[int]bool
	syncN    uint64
	syncPre  int
	checks   int
	static   map[string][]byte // served to oracles that sync from a URL
	views    int
	siteHits [1 << 14]int
	budget   rng
	viol     []violation
	counts   *table[string, int]
	trigs    map[uint64][]Trig
	moment   *Moment // waits for the statement budget to run out
	kinds    *table[uint64, bool]
	last     uint64
	quiet    bool
	live     bool
}

type violation struct {
	Mon, Msg string
	At       time.Duration
}

var eng *engine

func (e *engine) now() time.Duration { return time.Since(e.t0) }

// ev records one event in the run's log; what runs with the same plan must
// give the same log.
func (e *engine) ev(p *proc, kind, detail string) {
	h := uint64(99)
	inc := uint64(0)
	if p != nil {
		h, inc = uint64(p.h.id), uint64(p.inc)
	}
	x := hash(uint64(e.now()), h, inc, hashStr(kind), hashStr(detail))
	e.log = mix(e.log ^ x)
	e.nlog++
	k := hash(h, hashStr(kind))
	if e.kinds != nil {
		*e.kinds.at(hash(e.last, k)) = true
		e.last = k
	}
	if e.traceOn {
		line := fmt.Sprintf("%12.6f n%d.%d %-8s %s", e.now().Seconds(), h, inc, kind, detail)
		if len(line) > 400 {
			line = line[:400]
		}
		e.trace = append(e.trace, line)
		if e.live {
			a, b := runtime.SimState()
			println(line, a, b)
		}
	}
}

func (e *engine) count(k string) { *e.counts.at(k)++ }

func (e *engine) violate(mon, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	if len(m) > 3000 && os.Getenv("VSIM_FULL") == "" {
		m = m[:3000] + "..."
	}
	e.ev(nil, "VIOLATE", mon+": "+m)
	if len(e.viol) < 50 {
		e.viol = append(e.viol, violation{mon, m, e.now()})
	}
}

func curProc() *proc { return (*proc)(runtime.SimTag()) }

func freeze() {
	select {}
}

// slow runs at preemption points and when another process's goroutine gets
// the processor.
func slow(site int) {
	p := curProc()
	if p == nil {
		if runtime.SimBudget <= 0 {
			runtime.SimBudget = 1 << 40
		}
		return
	}
	e := eng
	pre := false
	sited := runtime.SimSites[site&(1<<14-1)] != 0
	if runtime.SimBudget <= 0 {
		runtime.SimBudget = e.nextBudget()
		pre = p.netUsed && (e.plan.PreMean > 0 || e.moment == nil)
		if m := e.moment; m != nil {
			e.moment = nil
			e.atMoment(p, m)
		}
	}
	if sited && p.netUsed {
		e.siteHits[site&(1<<14-1)]++
		k := e.siteHits[site&(1<<14-1)]
		sp := e.sitePlan(site)
		if sp != nil && k >= sp.First && (k-sp.First)%sp.Every == 0 && (k-sp.First)/sp.Every < sp.Max {
			pre = true
		}
		if e.syncSite[site] && e.syncPre < 200 && int(hash(e.plan.Seed, 91, e.syncN)%100) < e.plan.SyncP {
			e.syncPre++
			e.count("preemption around a lock")
			pre = true
		}
		e.syncN++
	}
	if e.syncSite[site] && p.slot != 0 && len(e.plan.Moments) > 0 {
		p.sinceSlot++
		for i := range e.plan.Moments {
			m := &e.plan.Moments[i]
			if !m.Fine && !m.done && m.Node == p.h.id && m.N == p.sinceSlot && e.plan.Deploy+uint64(m.S) == p.slot {
				e.atMoment(p, m)
			}
		}
	}
	for {
		if p.dead {
			freeze()
		}
		if p.stall > e.now() {
			time.Sleep(p.stall - e.now())
			continue
		}
		if pre {
			pre = false
			e.preempt(p, site)
			continue
		}
		break
	}
	if runtime.SimCur != unsafe.Pointer(p) {
		if len(e.hosts) > 1 || p.fresh {
			e.swapTo(p)
		}
		runtime.SimCur = unsafe.Pointer(p)
	}
}

var globalsOf *proc

// swapTo puts p's package-level variables in place.
func (e *engine) swapTo(p *proc) {
	if globalsOf == p && !p.fresh {
		return
	}
	if globalsOf != nil && !globalsOf.dead && globalsOf != p {
		globalsOf.saved = globalsOf.saved[:0]
		for _, g := range runtime.SimGlobals {
			globalsOf.saved = append(globalsOf.saved, g.Save())
		}
	}
	if p.fresh {
		p.fresh = false
		for _, g := range runtime.SimGlobals {
			if !strings.HasPrefix(g.Name, "metrics.") {
				g.Reset()
			}
		}
	} else {
		for _, f := range p.saved {
			f()
		}
	}
	globalsOf = p
}

func (e *engine) nextBudget() int64 {
	m := e.plan.PreMean
	if m <= 0 {
		return 1 << 40
	}
	return 1 + int64(e.budget.u()%uint64(2*m))
}

func (e *engine) sitePlan(site int) *SitePlan {
	for i := range e.plan.Sites {
		if e.plan.Sites[i].Site == site {
			return &e.plan.Sites[i]
		}
	}
	return nil
}

// preempt suspends the calling goroutine at an instrumented statement.
func (e *engine) preempt(p *proc, site int) {
	e.pre++
	n := e.pre
	e.count("preemption")
	d := time.Duration(0)
	h := hash(e.plan.Seed, 77, n)
	switch h % 8 {
	case 0, 1, 2:
		d = time.Duration(1 + (h>>8)%1000)
	case 3, 4:
		d = time.Duration((h>>8)%2_000_000) + 1
	case 5, 6:
		d = time.Duration((h>>8)%200_000_000) + 1
	default:
		d = time.Duration((h>>8)%5_000_000_000) + 1
	}
	e.ev(p, "preempt", fmt.Sprint(site, " ", d))
	tr := e.trigs[n]
	for _, t := range tr {
		e.trigger(p, t)
		if t.Path != "" && d < 50*time.Millisecond {
			d = 50 * time.Millisecond
		}
	}
	if p.dead {
		freeze()
	}
	e.preSum += d
	p.preSum += d
	time.Sleep(d)
}

// onSlot: the process begins to work on a slot.
func (e *engine) onSlot(p *proc, slot uint64) {
	if slot == p.slot {
		return
	}
	p.slot, p.sinceSlot = slot, 0
	for i := range e.plan.Moments {
		m := &e.plan.Moments[i]
		if m.Fine && !m.done && m.Node == p.h.id && e.plan.Deploy+uint64(m.S) == slot && e.moment == nil {
			e.moment = m
			runtime.SimBudget = int64(m.N)
		}
	}
}

func (e *engine) atMoment(p *proc, m *Moment) {
	if m.done || p.dead || e.ending {
		return
	}
	m.done = true
	e.count("aimed preemption")
	e.ev(p, "moment", fmt.Sprint(m.S, " ", m.N, m.Fine, " ", m.Kind, m.Path))
	if m.Kind != "" {
		e.act(&Act{Node: p.h.id, Kind: m.Kind})
	} else if p.servers[":7300"] != nil {
		go probe(p.h, m.Path)
	}
	if p.dead {
		freeze()
	}
	d := time.Duration(m.Ms) * time.Millisecond
	e.preSum += d
	p.preSum += d
	time.Sleep(d)
}

// seam runs at every operation that leaves the process; it is where planned
// crashes strike.
func (e *engine) seam(p *proc, kind, detail string) {
	if p.dead {
		freeze()
	}
	for p.stall > e.now() {
		time.Sleep(p.stall - e.now())
		if p.dead {
			freeze()
		}
	}
	h := p.h
	h.ops++
	e.ev(p, kind, detail)
	for i := range e.plan.Acts {
		a := &e.plan.Acts[i]
		if a.Node == h.id && a.Op != 0 && a.Op == h.ops {
			e.act(a)
		}
	}
	if p.dead {
		freeze()
	}
}

// ---- life cycle

func (e *engine) start(h *host) {
	if h.proc != nil && !h.proc.dead || h.held {
		return
	}
	if r := theRef; r.halt >= 0 && w().headSlot()+5 >= e.plan.Deploy+uint64(r.halt) && len(h.fs.files[statePath].bytes()) == 0 {
		// It would take the changed contract settings for the right ones.
		h.held = true
		return
	}
	if raceBuild && h.incs > 0 {
		h.stopped = true
		return
	}
	h.incs++
	if c := w().ctr; h.incs > 1 && !h.cfg.DryRun {
		if v, ok := c.voted[w().addr(acctOracle0+h.id)]; ok && c.votes[v] > 0 {
			e.count("restart of an oracle whose vote is pending")
			if c.votes[v] >= c.quorumN {
				e.count("restart of an oracle whose vote is pending with enough votes")
			}
		}
	}
	p := &proc{h: h, inc: h.incs, started: e.now(), fresh: true, servers: map[string]http.Handler{}}
	e.procs = append(e.procs, p)
	h.proc = p
	e.ev(p, "start", "")
	e.count("process start")
	go func() {
		runtime.SimSetTag(unsafe.Pointer(p))
		runtime.SimCur = nil
		slow(0)
		os.Args = append([]string{"mev-sp-oracle"}, e.args(h)...)
		flag.CommandLine = flag.NewFlagSet("mev-sp-oracle", flag.ExitOnError)
		main()
		e.exit(p, 0, "return")
		freeze()
	}()
}

// exit marks the calling process as ended.
func (e *engine) exit(p *proc, code int, why string) {
	if p.dead {
		return
	}
	e.ev(p, "exit", fmt.Sprint(code, why, p.fatal))
	p.exited = true
	e.end(p, exitRec{at: e.now(), code: code, why: why, msg: p.fatal, inc: p.inc, up: e.now() - p.started, cold: !p.looped})
}

func (e *engine) end(p *proc, r exitRec) {
	p.dead = true
	runtime.SimCur = nil
	p.servers = nil
	p.h.exits = append(p.h.exits, r)
	p.h.fs.closeAll()
	if r.why == "fatal" {
		e.count("process exit on its own")
	}
	onExit(p.h, r)
	// The supervisor restarts it, as the deployment's restart policy does.
	h := p.h
	d := time.Duration(2+hash(e.plan.Seed, 5, uint64(h.id), uint64(p.inc))%20) * time.Second
	// It backs off when the process keeps ending right away.
	if r.why == "fatal" && r.up < time.Minute {
		h.quick++
		if h.quick > 6 {
			d += time.Duration(h.quick*10) * time.Second
		}
		if d > 5*time.Minute {
			d = 5 * time.Minute
		}
	} else {
		h.quick = 0
	}
	until := e.now() + d
	if h.downTill > until {
		until = h.downTill
	}
	go func() {
		time.Sleep(until - e.now())
		for h.downTill > e.now() {
			time.Sleep(h.downTill - e.now())
		}
		if h.held || h.proc != p {
			return
		}
		e.start(h)
	}()
}

// kill ends a process from outside. power also loses what was not synced.
func (e *engine) kill(h *host, down time.Duration, power bool) {
	if t := e.now() + down; t > h.downTill {
		h.downTill = t
	}
	why := "killed"
	if power {
		why = "power"
	}
	p := h.proc
	if p != nil && !p.dead {
		e.ev(p, why, "")
		e.count("crash: " + why)
		e.end(p, exitRec{at: e.now(), why: why, inc: p.inc, up: e.now() - p.started, cold: !p.looped})
	}
	if power {
		h.fs.powerLoss(hash(e.plan.Seed, 11, uint64(h.id), uint64(h.incs)))
	}
}

func (e *engine) signal(h *host, s os.Signal, down time.Duration) {
	p := h.proc
	if p == nil || p.dead {
		return
	}
	if t := e.now() + down; t > h.downTill {
		h.downTill = t
	}
	e.ev(p, "signal", s.String())
	e.count("signal " + s.String())
	p.signalled = true
	got := false
	for _, r := range p.notify {
		for _, x := range r.sig {
			if x == s {
				got = true
				select {
				case r.c <- s:
				default:
				}
				break
			}
		}
	}
	if !got {
		e.end(p, exitRec{at: e.now(), why: "signal", inc: p.inc, up: e.now() - p.started, cold: !p.looped})
		return
	}
	// A supervisor that sent SIGTERM kills after its grace period.
	go func() {
		time.Sleep(30 * time.Second)
		if !p.dead {
			e.count("kill after grace period")
			lateStop(p)
			e.kill(h, 0, false)
		}
	}()
}

func (e *engine) act(a *Act) {
	h := e.hosts[a.Node]
	d := time.Duration(a.Dur) * time.Millisecond
	switch a.Kind {
	case "kill":
		e.kill(h, d, false)
	case "power":
		e.kill(h, d, true)
	case "term":
		e.signal(h, syscall.SIGTERM, d)
	case "int":
		e.signal(h, os.Interrupt, d)
	case "stall":
		if h.proc != nil && !h.proc.dead {
			e.count("stall of a whole process")
			h.proc.stall = e.now() + d
			runtime.SimCur = nil
			h.outage = append(h.outage, span{e.now(), e.now() + d, false})
		}
	case "skew":
		e.count("wall clock jump")
		h.skew += int64(a.Arg) * int64(time.Millisecond)
	case "hold":
		h.held = true
		e.kill(h, d, a.Arg == 1)
		if a.What == "wipe" {
			e.count("disk lost")
			for k := range h.fs.files {
				if strings.HasPrefix(k, "oracle-data") {
					delete(h.fs.files, k)
				}
			}
		}
	case "release":
		h.held = false
		e.start(h)
	case "tamper":
		e.tamper(h, a.What, a.Arg, d)
	case "publish":
		go e.publish(h, e.hosts[a.Arg%1000], a.What, a.Arg/1000, d)
	case "disk":
		e.count("disk fault: " + a.What)
		h.fs.fault(a.What, e.now()+d, a.Arg)
		h.outage = append(h.outage, span{e.now(), e.now() + d, true})
	}
	if a.Kind == "kill" || a.Kind == "power" || a.Kind == "term" || a.Kind == "int" || a.Kind == "hold" || a.Kind == "release" {
		h.outage = append(h.outage, span{e.now(), e.now() + d + 20*time.Second, false})
	}
}

func (e *engine) trigger(p *proc, t Trig) {
	if e.ending {
		return
	}
	if t.Kind != "" {
		if p.looped || t.Cold {
			e.act(&Act{Node: p.h.id, Kind: t.Kind, Dur: t.Dur, Arg: t.Arg, What: t.What})
		}
		return
	}
	if t.Path != "" && p.servers[":7300"] != nil {
		e.count("api request at a preemption point")
		go probe(p.h, t.Path)
	}
}

// ---- seams

type simFS struct{}

func (simFS) proc() *proc {
	p := curProc()
	return p
}

func (s simFS) Exit(code int) {
	p := curProc()
	if p == nil {
		return
	}
	if p.dead {
		freeze()
	}
	why := "exit"
	if code != 0 {
		why = "fatal"
		if p.h.fs.hit("slowlog") {
			// The line that says why takes its time to be written.
			time.Sleep(time.Duration(hash(eng.plan.Seed, 29, uint64(p.inc)) % 3_000_000_000))
			if p.dead {
				freeze()
			}
		}
	}
	eng.exit(p, code, why)
	freeze()
}

func (s simFS) Std(f *os.File, b []byte) bool {
	p := curProc()
	if p == nil {
		return false
	}
	p.line(b)
	return true
}

func (p *proc) line(b []byte) {
	l := string(bytes.TrimRight(b, "\n"))
	if strings.Contains(l, "level=fatal") || strings.Contains(l, "level=panic") {
		p.fatal = l
	}
	if len(p.logs) < 200 {
		p.logs = append(p.logs, l)
	} else {
		copy(p.logs, p.logs[1:])
		p.logs[len(p.logs)-1] = l
	}
	if eng.traceOn && !eng.quiet {
		eng.trace = append(eng.trace, fmt.Sprintf("%12.6f n%d.%d log      %s", eng.now().Seconds(), p.h.id, p.inc, l))
	}
}

func (e *engine) install() {
	eng = e
	os.SimOS = simFS{}
	runtime.SimSlow = slow
	listed := crypto.PubkeyToAddress(theWorld.key(acctListed).PublicKey)
	runtime.SimAlias = func(a [20]byte) [20]byte {
		if a == listed {
			return listedBuilder
		}
		return a
	}
	runtime.SimSkew = func() int64 {
		if p := curProc(); p != nil {
			return p.h.skew
		}
		return 0
	}
	http.SimRoundTrip = func(r *http.Request) (*http.Response, error, bool) {
		p := curProc()
		if p == nil {
			return nil, nil, false
		}
		resp, err := e.roundTrip(p, r)
		return resp, err, true
	}
	http.SimListen = func(s *http.Server) (error, bool) {
		p := curProc()
		if p == nil {
			return nil, false
		}
		e.seam(p, "listen", s.Addr)
		if strings.HasSuffix(s.Addr, ":7300") {
			p.up = true
		}
		hd := s.Handler
		if hd == nil {
			hd = http.DefaultServeMux
		}
		// A connection is accepted after the server was set up.
		started := make(chan struct{})
		p.servers[s.Addr[strings.LastIndex(s.Addr, ":"):]] = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			<-started
			hd.ServeHTTP(rw, r)
		})
		close(started)
		freeze()
		return nil, true
	}
	signal.SimNotify = func(c chan<- os.Signal, sig []os.Signal) bool {
		p := curProc()
		if p == nil {
			return false
		}
		p.notify = append(p.notify, sigReg{c, sig})
		return true
	}
	for _, s := range e.plan.Sites {
		runtime.SimSites[s.Site&(1<<14-1)] = 1
	}
	e.syncSite = map[int]bool{}
	if e.plan.SyncP > 0 || len(e.plan.Moments) > 0 {
		for _, s := range zzSimSync {
			e.syncSite[s] = true
			runtime.SimSites[s&(1<<14-1)] = 1
		}
	}
	e.budget = rng{hash(e.plan.Seed, 3)}
	runtime.SimBudget = e.nextBudget()
	// Standard-library variables that belong to a process.
	runtime.SimGlobals = append(runtime.SimGlobals,
		runtime.SimGlobal{Name: "http.DefaultServeMux",
			Save: func() func() {
				m := http.DefaultServeMux
				return func() { http.DefaultServeMux = m }
			},
			Reset: func() { http.DefaultServeMux = http.NewServeMux() }},
		runtime.SimGlobal{Name: "flag.CommandLine",
			Save: func() func() {
				c, a := flag.CommandLine, os.Args
				return func() { flag.CommandLine, os.Args = c, a }
			},
			Reset: func() {}},
	)
	logrus.StandardLogger().ExitFunc = os.Exit
}

// janitor collects garbage only when every other goroutine rests, so that the
// collector's own timing cannot influence the run.
func (e *engine) janitor() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	next := uint64(400 << 20)
	for {
		time.Sleep(20*time.Second + 1)
		metrics.Read(s)
		if s[0].Value.Uint64() > next {
			synctest.Wait()
			runtime.GC()
			metrics.Read(s)
			next = s[0].Value.Uint64() + 400<<20
		}
	}
}

type bodyReader struct {
	b   []byte
	err error
}

func (b *bodyReader) Read(p []byte) (int, error) {
	if len(b.b) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := copy(p, b.b)
	b.b = b.b[n:]
	return n, nil
}

func (b *bodyReader) Close() error { return nil }

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
