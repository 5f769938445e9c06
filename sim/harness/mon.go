package main

// The checks: what every run must satisfy while it proceeds and at its end.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"runtime"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/ethereum/go-ethereum/common"
)

var (
	theWorld *world
	theRef   *ref
)

func w() *world { return theWorld }

// ---- network observations

func noteBeacon(p *proc, what string) {
	i := strings.Index(what, "/eth/v2/beacon/blocks/")
	if i < 0 {
		return
	}
	n, err := strconv.ParseUint(what[i+len("/eth/v2/beacon/blocks/"):], 10, 64)
	if err != nil {
		return
	}
	if p.maxFin == 0 {
		return // looking for the deployment slot at startup
	}
	eng.onSlot(p, n)
	p.looped = true
	if p.firstReq == 0 {
		p.firstReq = n
	}
	if n > p.maxFin {
		eng.violate("finality", "node %d fetched the block of slot %d to process it, but the latest finalized slot its beacon node reported is %d", p.h.id, n, p.maxFin)
	}
	if p.maxReq != 0 && n != p.maxReq && n != p.maxReq+1 {
		eng.violate("order", "node %d fetched the block of slot %d after that of slot %d", p.h.id, n, p.maxReq)
	}
	if (p.elBad || p.clBad) && n > p.maxReq {
		p.badFetch++
		if p.badFetch >= 2 { // one may have been decided on before
			eng.violate("syncing", "node %d goes on to the block of slot %d although a node says it is syncing", p.h.id, n)
		}
	} else if !p.elBad && !p.clBad {
		p.badFetch = 0
	}
	p.nreq++
	if n >= p.maxReq {
		p.maxReq = n
	}
	if n > p.h.maxReq {
		p.h.maxReq = n
	}
}

func noteFinalized(p *proc, f uint64) {
	if f > p.maxFin {
		p.maxFin = f
	}
}

// noteAttempt sees a report before the contract accepts or rejects it.
func noteAttempt(p *proc, from common.Address, slot uint64) {
	c := w().ctr
	id := p.h.id
	if from != w().addr(acctOracle0+id) {
		return
	}
	// What may have delayed it since it looked at the contract.
	slack := 20*time.Second + p.preSum
	for _, f := range eng.plan.Faults {
		if f.Node == id {
			slack += 2*time.Duration(f.Dur)*time.Millisecond + 5*time.Minute
		}
	}
	for _, o := range p.h.outage {
		slack += o.b - o.a
	}
	for _, h := range c.hist {
		if h.slot == slot && eng.now()-h.at > slack {
			eng.violate("submission", "node %d prepared a report for slot %d, which was consolidated %v before", id, slot, eng.now()-h.at)
		}
	}
	for _, o := range c.subs {
		if o.from == from && o.slot == slot && o.mined && o.ok && o.minedAt < p.started {
			eng.violate("submission", "node %d prepared another report for slot %d, which it voted %v before", id, slot, eng.now()-o.minedAt)
		}
	}
}

func noteSubmission(p *proc, s *submission, ok bool) {
	c := w().ctr
	id := p.h.id
	if p.h.cfg.DryRun {
		eng.violate("submission", "dry-run node %d sent a transaction", id)
	}
	if s.to != poolAddr || s.value.Sign() != 0 || !ok {
		eng.violate("submission", "node %d sent a transaction that is no plain report to the pool: to %s value %v", id, s.to.Hex(), s.value)
		return
	}
	if s.from != w().addr(acctOracle0+id) {
		eng.violate("submission", "node %d sent from %s", id, s.from.Hex())
	}
	if s.slot > p.maxFin {
		eng.violate("submission", "node %d reported slot %d, finalized is %d", id, s.slot, p.maxFin)
	}
	want := theRef.committed(s.slot)
	if want == nil {
		eng.violate("submission", "node %d reported slot %d, which is not a checkpoint with something to pay", id, s.slot)
	} else if common.HexToHash(want.Root) != s.root {
		eng.violate("submission", "node %d reported root %s for slot %d, the rules give %s", id, s.root.Hex(), s.slot, want.Root)
	}
	if s.slot != c.last+w().plan.CP {
		// Another oracle may have consolidated it while the report was on its way.
		late := false
		for _, h := range c.hist {
			if h.slot == s.slot && eng.now()-h.at < 10*time.Minute {
				late = true
			}
		}
		if !late {
			eng.violate("submission", "node %d reported slot %d, the contract is at %d", id, s.slot, c.last)
		}
	}
	for _, o := range c.subs {
		if o != s && o.from == s.from && o.slot == s.slot && o.mined && o.ok {
			eng.violate("submission", "node %d reported slot %d twice", id, s.slot)
		}
		if o != s && o.from == s.from && o.slot == s.slot && !o.mined && !o.dropped && eng.now()-o.at < 50*time.Minute && o.inc == s.inc {
			eng.violate("submission", "node %d reported slot %d again while its first report is pending", id, s.slot)
		}
	}
}

// ---- exits

// lastTrouble is when the last planned disturbance of a host ends.
func (e *engine) lastTrouble(h *host) time.Duration {
	t := time.Duration(0)
	for _, f := range e.plan.Faults {
		if f.Node == h.id {
			if x := time.Duration(f.From+f.Dur) * time.Millisecond; x > t {
				t = x
			}
		}
	}
	for _, o := range h.outage {
		if o.b > t {
			t = o.b
		}
	}
	return t
}

func (e *engine) troubleAt(h *host, at time.Duration) bool {
	for _, f := range e.plan.Faults {
		a, b := time.Duration(f.From)*time.Millisecond, time.Duration(f.From+f.Dur)*time.Millisecond
		if f.Node == h.id && at >= a && at <= b+2*time.Minute {
			return true
		}
	}
	for _, o := range h.outage {
		if o.disk && at >= o.a && at <= o.b+2*time.Minute {
			return true
		}
	}
	return false
}

// halted: the contract's settings changed in a way that must stop the oracle,
// and this host has come to the change.
func (e *engine) halted(h *host) bool {
	r := theRef
	if r.halt < 0 {
		return false
	}
	s := e.plan.Deploy + uint64(r.halt)
	return h.maxReq >= s || w().headSlot() >= s
}

func onExit(h *host, r exitRec) {
	e := eng
	p := h.proc
	if p != nil && p.loadedBad {
		return
	}
	switch r.why {
	case "killed", "power", "signal":
		return
	case "return", "exit":
		if !p.signalled {
			e.violate("exit", "node %d ended by itself: %s", h.id, tail(p))
		}
		return
	}
	// Ended by itself with an error.
	if h.tampered || h.cfg.Expect == "refuse" || e.halted(h) {
		return
	}
	if strings.Contains(h.cfg.Sync, "oracle-") && !p.up {
		// Nobody to sync from?
		src := e.hosts[0]
		if src.proc == nil || src.proc.dead || !src.proc.up || e.troubled(src, r.at-2*time.Minute, r.at) {
			e.count("exit, nobody to sync from")
			h.outage = append(h.outage, span{r.at - r.up, r.at + 30*time.Second, false})
			return
		}
	}
	if e.troubleAt(h, r.at) {
		disk := false
		for _, o := range h.outage {
			disk = disk || o.disk && r.at >= o.a && r.at <= o.b+2*time.Minute
		}
		if p != nil && p.looped && h.cfg.Retries == 0 && !disk && !strings.Contains(r.msg, "Could not update contract merkle root") {
			// Told to retry forever: no failing request ends it once it follows the chain.
			e.violate("exit", "node %d, which retries without limit, ended although only requests to its nodes failed: %s", h.id, tail(p))
		}
		e.count("exit during trouble")
		return
	}
	if strings.Contains(r.msg, "Could not update contract merkle root") {
		c := w().ctr
		if len(e.plan.TxFates) > 0 {
			e.count("exit after a transaction fault")
			return
		}
		for _, x := range c.hist {
			if e.now()-x.at < 70*time.Minute && len(c.members) > 1 {
				e.count("exit after losing a race for a report")
				return
			}
		}
	}
	e.violate("exit", "node %d ended with an error although nothing failed around it: %s", h.id, tail(p))
}

func tail(p *proc) string {
	if p.fatal != "" {
		return p.fatal
	}
	if n := len(p.logs); n > 0 {
		return p.logs[n-1]
	}
	return "(no output)"
}

func lateStop(p *proc) {}

// ---- API client

type answer struct {
	code  int // -1: no answer, -2: handler panicked
	body  []byte
	took  time.Duration
	panic string
}

// get asks the API of a host as a client would.
func get(h *host, path string) answer { return request(h, http.MethodGet, path) }

func request(h *host, method, path string) answer {
	p := h.proc
	if p == nil || p.dead || p.servers[":7300"] == nil {
		return answer{code: -3}
	}
	hd := p.servers[":7300"]
	req, err := http.NewRequest(method, "http://oracle-"+strconv.Itoa(h.id)+":7300"+path, nil)
	if err != nil {
		return answer{code: -4}
	}
	req.RequestURI = path
	req.RemoteAddr = "10.0.0.7:55555"
	done := make(chan answer, 1)
	at := eng.now()
	eng.ev(p, "request", path)
	eng.count("api request")
	p.pend++
	go func() {
		runtime.SimSetTag(unsafe.Pointer(p))
		rec := httptest.NewRecorder()
		a := answer{}
		func() {
			defer func() {
				if x := recover(); x != nil {
					a.code, a.panic = -2, fmt.Sprint(x, "\n", string(debug.Stack()))
				}
			}()
			slow(0)
			hd.ServeHTTP(rec, req)
			a.code, a.body = rec.Code, rec.Body.Bytes()
		}()
		done <- a
	}()
	for i := 0; ; i++ {
		t := time.NewTimer(20 * time.Second)
		select {
		case a := <-done:
			t.Stop()
			p.pend--
			a.took = eng.now() - at
			eng.ev(p, "answer", fmt.Sprint(path, a.code, len(a.body), hashStr(string(a.body))))
			if a.code == -2 {
				eng.violate("api panic", "node %d: the handler of %s panicked: %s", h.id, path, a.panic)
			}
			if a.took > e15(h) && !eng.tardy(h, at, eng.now()) {
				eng.violate("api time", "node %d answered %s after %v although its nodes answered, if only with errors", h.id, path, a.took)
			}
			return a
		case <-t.C:
			if p.dead {
				return answer{code: -3}
			}
			if d := eng.now() - at; d > 40*time.Minute && !eng.tardy(h, at, eng.now()) {
				if !p.hung {
					p.hung = true
					eng.violate("api time", "node %d has not answered %s for %v although its nodes answered, if only with errors", h.id, path, d)
				}
				return answer{code: -1}
			} else if d > 5*time.Hour {
				return answer{code: -1}
			}
		}
	}
}

// e15 bounds how long an answer may take.
func e15(h *host) time.Duration { return 10 * time.Minute }

// troubled: a planned disturbance touches the period, or its aftermath does.
func (e *engine) troubled(h *host, a, b time.Duration) bool {
	return e.disturbed(h, a, b, func(int, *Fault) bool { return true })
}

// tardy: like troubled, for the time a request may take. A node that answers
// at once, if only with an error, is no excuse, as requests are to fail fast;
// unless a cleanup, which keeps the state locked, had to be repeated for it.
func (e *engine) tardy(h *host, a, b time.Duration) bool {
	return e.disturbed(h, a, b, func(i int, f *Fault) bool {
		return !slices.Contains(failFast, f.Kind) || h.hitStates[i]
	})
}

func (e *engine) disturbed(h *host, a, b time.Duration, counts func(int, *Fault) bool) bool {
	for i := range e.plan.Faults {
		f := &e.plan.Faults[i]
		if !counts(i, f) {
			continue
		}
		x, y := time.Duration(f.From)*time.Millisecond, time.Duration(f.From+2*f.Dur)*time.Millisecond+10*time.Minute
		if f.Node == h.id && a <= y && b >= x {
			return true
		}
	}
	for _, o := range h.outage {
		if a <= o.b+10*time.Minute && b >= o.a {
			return true
		}
	}
	return false
}

// ---- states

func parseState(b []byte) (*stState, error) {
	st := &stState{}
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(st); err != nil {
		return nil, err
	}
	return st, nil
}

// bodyHash recomputes the hash a state carries: over its indented JSON with
// the hash itself left empty.
func bodyHash(b []byte, hash string) string {
	var c bytes.Buffer
	if json.Compact(&c, b) != nil {
		return "not JSON"
	}
	x := strings.Replace(c.String(), `"state_hash":"`+hash+`"`, `"state_hash":""`, 1)
	var in bytes.Buffer
	if json.Indent(&in, []byte(x), "", " ") != nil {
		return "not JSON"
	}
	return sha(in.Bytes())
}

// checkState compares a state seen somewhere with the reference.
func checkState(h *host, src string, b []byte) *stState {
	st, err := parseState(b)
	if err != nil {
		eng.violate("state", "node %d, %s: not a state: %v", h.id, src, err)
		return nil
	}
	if x := bodyHash(b, st.Hash); x != st.Hash {
		eng.violate("hash", "node %d, %s at slot %d: state_hash is %s but the content's hash is %s", h.id, src, st.Slot, st.Hash, x)
	}
	total := new(big.Int)
	if st.Fees == nil {
		eng.violate("state", "node %d, %s: no fees", h.id, src)
		return nil
	}
	total.Add(total, st.Fees)
	for i, v := range st.Vals {
		if v == nil || v.Acc == nil || v.Pend == nil || v.Coll == nil {
			eng.violate("state", "node %d, %s: validator %d incomplete", h.id, src, i)
			return nil
		}
		if v.Acc.Sign() < 0 || v.Pend.Sign() < 0 || v.Coll.Sign() < 0 {
			eng.violate("conservation", "node %d, %s at slot %d: negative balance of validator %d", h.id, src, st.Slot, i)
		}
		total.Add(total, v.Acc)
		total.Add(total, v.Pend)
	}
	s := theRef.at(st.Slot)
	if s == nil {
		eng.violate("state", "node %d, %s: has processed slot %d, which no oracle may process (%s)", h.id, src, st.Slot, theRef.why)
		return st
	}
	eng.kindsSeen(h, st.Slot)
	if s.in.Cmp(total) != 0 {
		eng.violate("conservation", "node %d, %s at slot %d: owes %v, was credited with %v", h.id, src, st.Slot, total, s.in)
	}
	if d := st.diff(theRef.full(s)); len(d) > 0 {
		n := len(d)
		if n > 6 {
			d = d[:6]
		}
		eng.violate("state", "node %d, %s at slot %d (deployment slot %d + %d): %d differences: %s", h.id, src, st.Slot, eng.plan.Deploy, st.Slot-eng.plan.Deploy, n, strings.Join(d, "; "))
	}
	// What a checkpoint lets be claimed is what was owed.
	for slot, c := range st.Commits {
		if c == nil {
			continue
		}
		if s := theRef.at(slot); s != nil {
			owed, can := new(big.Int).Set(s.fees), new(big.Int)
			for _, v := range c.Vals {
				if v != nil && v.Acc != nil {
					owed.Add(owed, v.Acc)
				}
			}
			for _, l := range c.Leafs {
				if l.Bal != nil {
					can.Add(can, l.Bal)
				}
			}
			if owed.Cmp(can) != 0 {
				eng.violate("claimable", "node %d, %s: checkpoint %d owes %v but lets %v be claimed", h.id, src, slot, owed, can)
				break
			}
		}
	}
	eng.checks++
	return st
}

func (e *engine) kindsSeen(h *host, slot uint64) {}

// poll takes a node's whole state over its API.
func poll(h *host) *stState {
	p := h.proc
	before := p.lastState
	a := get(h, "/state")
	if a.code != 200 {
		if a.code > 0 {
			eng.violate("state", "node %d: /state answers %d: %s", h.id, a.code, a.body)
		}
		return nil
	}
	if before != nil && before == p.lastState && string(a.body) == p.lastBody {
		p.lastStateAt = eng.now()
		return p.lastState
	}
	p.lastBody = string(a.body)
	st := checkState(h, "/state", a.body)
	if st == nil {
		return nil
	}
	if before != nil && st.Slot < before.Slot {
		eng.violate("order", "node %d: the state went back from slot %d to %d", h.id, before.Slot, st.Slot)
	}
	if p.lastState == nil || p.lastState.Slot <= st.Slot {
		p.lastState, p.lastStateAt = st, eng.now()
		h.lastState = st
	}
	if st.Slot >= w().plan.Deploy && !p.h.tampered && st.Slot > p.maxFin && p.maxFin != 0 && st.Slot > w().finalized() {
		eng.violate("finality", "node %d: has processed slot %d, finalized is %d", h.id, st.Slot, w().finalized())
	}
	return st
}

// probe is a request at an awkward moment.
func probe(h *host, path string) {
	if path == "/state" {
		poll(h)
		return
	}
	if n, err := strconv.ParseUint(strings.TrimPrefix(path, "?"), 10, 64); err == nil {
		path = viewPath(1<<40 + n)
	}
	checkView(h, path)
}

// ---- the end

// due is when a checkpoint must have been consolidated at the latest.
func (e *engine) dues() map[uint64]time.Duration {
	m := map[uint64]time.Duration{}
	trouble, span := time.Duration(0), time.Duration(0)
	for _, f := range e.plan.Faults {
		b := time.Duration(f.From+f.Dur) * time.Millisecond
		if b > trouble {
			trouble = b
		}
		span += time.Duration(f.Dur) * time.Millisecond
	}
	for _, h := range e.hosts {
		for _, o := range h.outage {
			if o.b > trouble {
				trouble = o.b
			}
			span += o.b - o.a
		}
		if x := time.Duration(h.cfg.Start) * time.Millisecond; x > trouble {
			trouble = x
		}
	}
	after := trouble + e.preSum
	if span > 0 {
		after += 2*span + 15*time.Minute
	}
	t := after
	per := 22*time.Minute + time.Duration(e.maxPeer())*time.Second
	for _, f := range e.plan.TxFates {
		t += 75 * time.Minute
		if f.Kind == "delay" {
			t += time.Duration(f.Arg) * 12 * time.Second
		}
	}
	for _, c := range theRef.commits {
		f := e.finTime(c.Slot)
		if f < 0 {
			break
		}
		if f > t {
			t = f
		}
		t += per
		m[c.Slot] = t
	}
	return m
}

func (e *engine) maxPeer() int {
	d := 0
	for _, p := range e.plan.Peers {
		if p.Delay > d && p.Kind == "honest" {
			d = p.Delay
		}
	}
	return d
}

// finTime is when a slot becomes finalized, or -1 if not in this run.
func (e *engine) finTime(slot uint64) time.Duration {
	wd := w()
	end := uint64(e.plan.Deploy) + uint64(e.plan.Len+e.plan.Settle)
	lo := slot
	if h := e.plan.Deploy + uint64(e.plan.Start); h > lo {
		lo = h
	}
	for h := lo; h <= end; h++ {
		if wd.finalizedAt(h) >= slot {
			t := wd.slotTime(h).Sub(e.t0)
			if t < 0 {
				t = 0
			}
			return t
		}
	}
	return -1
}

func (e *engine) finalChecks() {
	e.ending = true
	wd := w()
	r := theRef
	end := e.now()
	dues := e.dues()
	last := uint64(0)
	for _, c := range r.commits {
		if d, ok := dues[c.Slot]; ok && d+10*time.Minute <= end {
			last = c.Slot
		}
	}
	submitters := 0
	for _, h := range e.hosts {
		if !h.cfg.DryRun && h.cfg.Expect == "" {
			submitters++
		}
	}
	haltSlot := uint64(1) << 62
	if r.halt >= 0 {
		haltSlot = e.plan.Deploy + uint64(r.halt)
	}
	if last != 0 && wd.ctr.last < last && r.halt < 0 && e.canConsolidate() {
		e.violate("vote", "checkpoint %d should have been consolidated %v ago, the contract is still at %d", last, end-dues[last], wd.ctr.last)
	}
	if last != 0 && r.halt < 0 && !e.outOfStep() {
		for _, h := range e.hosts {
			if h.cfg.DryRun || h.cfg.Expect != "" {
				continue
			}
			for _, c := range r.commits {
				if c.Slot > last || c.Slot <= wd.ctr.init {
					continue
				}
				voted := false
				for _, s := range wd.ctr.subs {
					if s.node == h.id && s.slot == c.Slot {
						voted = true
					}
				}
				if !voted && wd.ctr.last < c.Slot {
					e.violate("vote", "node %d never reported checkpoint %d, due %v ago, and the contract is at %d", h.id, c.Slot, end-dues[c.Slot], wd.ctr.last)
				}
			}
		}
	}
	// Progress.
	trouble := time.Duration(0)
	_ = submitters
	for _, h := range e.hosts {
		if h.held || h.cfg.Expect == "refuse" || h.tampered {
			if h.cfg.Expect == "refuse" || h.tampered {
				if h.proc != nil && h.proc.looped {
					e.violate("refusal", "node %d started from a state it must refuse (%s)", h.id, h.tamper)
				}
			}
			continue
		}
		if r.halt >= 0 && wd.finalized() >= haltSlot {
			if h.maxReq > haltSlot {
				e.violate("drift", "node %d went on to slot %d past the unexpected contract setting (%s) at slot %d", h.id, h.maxReq, r.why, haltSlot)
			}
			if st := h.lastState; st != nil && st.Slot >= haltSlot {
				e.violate("drift", "node %d processed slot %d past the unexpected contract setting (%s) at slot %d", h.id, st.Slot, r.why, haltSlot)
			}
			continue
		}
		span := time.Duration(0)
		for _, f := range e.plan.Faults {
			if f.Node == h.id {
				span += time.Duration(f.Dur) * time.Millisecond
			}
		}
		for _, o := range h.outage {
			span += o.b - o.a
		}
		trouble = e.lastTrouble(h)
		if x := time.Duration(h.cfg.Start) * time.Millisecond; x > trouble {
			trouble = x
		}
		ok := trouble + 2*span + e.preSum + 15*time.Minute
		if ok > end {
			continue
		}
		if h.proc == nil || h.proc.dead {
			n := len(h.exits)
			last := ""
			if n > 0 {
				last = h.exits[n-1].msg
			}
			if h.downTill > end-time.Minute {
				continue
			}
			if n > 0 && h.exits[n-1].at > end-time.Minute && h.exits[n-1].why != "fatal" {
				continue
			}
			e.violate("stranded", "node %d does not run at the end (%d exits): %s", h.id, n, last)
			continue
		}
		loop := 0
		for _, x := range h.exits {
			if x.at > ok && x.why == "fatal" {
				loop++
			}
		}
		if loop >= 3 && len(e.plan.TxFates) == 0 {
			e.violate("stranded", "node %d ended by itself %d times after everything was fine again: %s", h.id, loop, h.exits[len(h.exits)-1].msg)
		}
		// Where it must be by now: past every checkpoint that is due, and if
		// nothing keeps it waiting at one, near the finalized slot.
		p := h.proc
		st := poll(h)
		if st == nil {
			if h.proc == p && !p.dead {
				e.violate("stranded", "node %d does not answer at the end", h.id)
			}
			continue
		}
		if e.plan.Sweep {
			sweep(h)
		}
		if !h.cfg.DryRun && e.outvoted() {
			continue
		}
		need := last
		if h.cfg.DryRun || e.quiet15(h, end, dues) {
			f := wd.finalizedAt(wd.headSlot() - 75)
			if f > need {
				need = f
			}
		}
		for _, c := range r.commits { // may be waiting at a checkpoint
			if d, ok := dues[c.Slot]; (!ok || d+10*time.Minute > end) && !h.cfg.DryRun && c.Slot > wd.ctr.init {
				if c.Slot < need {
					need = c.Slot
				}
				break
			}
		}
		if need >= e.plan.Deploy && st.Slot < need {
			e.violate("progress", "node %d is at slot %d, should have come to %d by now (finalized %d)", h.id, st.Slot, need, wd.finalized())
		}
	}
}

func (e *engine) quiet15(h *host, end time.Duration, dues map[uint64]time.Duration) bool { return true }

// canConsolidate: the oracles of this run and the honest peers can reach the
// quorum.
// outOfStep: the contract was set up with a slot no checkpoint follows, so
// nobody may ever report, or its oracles vote for something else.
func (e *engine) outOfStep() bool {
	return e.plan.Off != 0 && e.plan.Off != int(e.plan.CP) || e.outvoted()
}

func (e *engine) outvoted() bool {
	wrong := 0
	for _, p := range e.plan.Peers {
		if p.Kind == "wrong" {
			wrong++
		}
	}
	for _, q := range e.plan.quorums() {
		if wrong >= q {
			return true
		}
	}
	return false
}

func (e *engine) canConsolidate() bool {
	if e.outOfStep() {
		return false
	}
	n := 0
	for _, h := range e.hosts {
		if !h.cfg.DryRun && h.cfg.Expect == "" && !h.held && !h.tampered {
			n++
		}
	}
	for _, p := range e.plan.Peers {
		if p.Kind == "honest" {
			n++
		}
	}
	for _, q := range e.plan.quorums() {
		if n < q {
			return false
		}
	}
	return true
}
