package main

// What the API's endpoints report, compared with the reference: a response
// must be what the state right after some one slot gives, for a slot the node
// was at while it was answering.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
)

// valSnap is a validator set its beacon node gave to a process.
type valSnap struct {
	s   int    // of the state at this slot offset
	req uint64 // the block it had asked for last, by then
}

// cacheSlots are the slot offsets the validators a process knows may be from.
func (p *proc) cacheSlots(lo uint64) []int {
	k := (lo - 1) / 1200 * 1200
	var r []int
	for i, v := range p.valSnaps {
		if p.firstReq != 0 && p.firstReq < k && v.req < k && k+1 < lo {
			continue // it has had to renew them since
		}
		if i+3 >= len(p.valSnaps) || v.req >= k {
			r = append(r, v.s)
		}
	}
	if len(r) > 6 {
		r = r[len(r)-6:]
	}
	return r
}

type viewWindow struct {
	lo, hi uint64 // slots the state may have been at
	t0, t1 time.Duration
}

// heads between the beginning and the end of a request.
func (v viewWindow) heads() []uint64 {
	a := uint64((eng.t0.Add(v.t0).Sub(w().genesis)) / (slotSec * time.Second))
	b := uint64((eng.t0.Add(v.t1).Sub(w().genesis)) / (slotSec * time.Second))
	var l []uint64
	for ; a <= b; a++ {
		l = append(l, a)
	}
	if len(l) > 12 {
		l = append(l[:4], l[len(l)-8:]...)
	}
	return l
}

func (v viewWindow) finals(h *host) []uint64 {
	var l []uint64
	for _, x := range v.heads() {
		l = append(l, w().finalizedAt(x))
		if eng.nodeFaultIn(h, "oldfinal", v.t0, v.t1) {
			l = append(l, w().finalizedAt(x-96))
		}
	}
	return uniq(l)
}

func (e *engine) nodeFaultIn(h *host, kind string, a, b time.Duration) bool {
	for _, f := range e.plan.Faults {
		x, y := time.Duration(f.From)*time.Millisecond, time.Duration(f.From+f.Dur)*time.Millisecond
		if f.Node == h.id && f.Kind == kind && a <= y && b >= x {
			return true
		}
	}
	return false
}

// nodeFaultAll: one fault of this kind lasts through all of the time.
func (e *engine) nodeFaultAll(h *host, kind string, a, b time.Duration) bool {
	for _, f := range e.plan.Faults {
		x, y := time.Duration(f.From)*time.Millisecond, time.Duration(f.From+f.Dur)*time.Millisecond
		if f.Node == h.id && f.Kind == kind && a > x && b < y {
			return true
		}
	}
	return false
}

// consolidated: what the contract said at some time of the window.
func (v viewWindow) consolidated() []consolidation {
	c := w().ctr
	cur := consolidation{slot: c.init}
	var l []consolidation
	for _, x := range c.hist {
		if x.at <= v.t0 {
			cur = x
		} else if x.at <= v.t1 {
			l = append(l, x)
		}
	}
	return append([]consolidation{cur}, l...)
}

func uniq(l []uint64) []uint64 {
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	var r []uint64
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			r = append(r, x)
		}
	}
	return r
}

type obj = map[string]any

// same compares an expected value with decoded JSON: every field expected
// must be there; further fields may be.
func same(want, got any) (string, bool) {
	switch x := want.(type) {
	case obj:
		g, ok := got.(obj)
		if !ok {
			return fmt.Sprintf("%v is no object", got), false
		}
		for _, k := range sortedKeys(x) {
			if d, ok := same(x[k], g[k]); !ok {
				return k + ": " + d, false
			}
		}
		return "", true
	case []obj:
		l := []any{}
		for _, y := range x {
			if y != nil {
				l = append(l, y)
			}
		}
		return same(l, got)
	case []any:
		g, ok := got.([]any)
		if !ok && !(got == nil && len(x) == 0) {
			return fmt.Sprintf("%v is no list", got), false
		}
		if len(g) != len(x) {
			return fmt.Sprintf("%d entries, expected %d", len(g), len(x)), false
		}
		for i := range x {
			if d, ok := same(x[i], g[i]); !ok {
				return fmt.Sprint("[", i, "] ", d), false
			}
		}
		return "", true
	}
	a, b := fmt.Sprint(want), fmt.Sprint(got)
	if n, ok := got.(json.Number); ok {
		b = n.String()
	}
	if a != b {
		return fmt.Sprintf("got %v, expected %v", clip40(b), clip40(a)), false
	}
	return "", true
}

func clip40(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

func decode(b []byte) (any, error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err
}

// checkView compares what one API endpoint reports with the reference.
func checkView(h *host, path string) {
	p := h.proc
	if p == nil || p.dead {
		return
	}
	method := "GET"
	if i := strings.IndexByte(path, ' '); i > 0 {
		method, path = path[:i], path[i+1:]
	}
	win := viewWindow{t0: eng.now()}
	win.lo = w().plan.Deploy - 1
	if p.lastState != nil && p.lastState.Slot > win.lo {
		win.lo = p.lastState.Slot
	}
	if p.maxReq > win.lo+2 {
		win.lo = p.maxReq - 2
	}
	untold := p.lastState == nil && p.maxReq == 0 // it may have started from a state it has not told us about
	a := request(h, method, path)
	win.t1 = eng.now()
	win.hi = win.lo
	if p.maxReq > win.hi {
		win.hi = p.maxReq
	}
	if p.lastState != nil && p.lastState.Slot > win.hi {
		win.hi = p.lastState.Slot
	}
	if untold && h.maxReq > win.hi {
		win.hi = h.maxReq
	}
	if a.code < 0 || p.dead || p.h.tampered {
		return
	}
	eng.views++
	if method != "GET" {
		if a.code < 400 && method != "OPTIONS" {
			eng.violate("view", "node %d answers %s %s with %d", h.id, method, path, a.code)
		}
		return
	}
	want, known := viewOf(path)
	if !known {
		if path != "/" && a.code < 300 {
			eng.violate("view", "node %d answers the unknown path %s with %d", h.id, path, a.code)
		}
		return
	}
	var v any
	if a.code == 200 {
		x, err := decode(a.body)
		if err != nil {
			eng.violate("view", "node %d: %s is not JSON: %v: %s", h.id, path, err, clip40(string(a.body)))
			return
		}
		v = x
	}
	if win.hi-win.lo > 400 {
		win.lo = win.hi - 400
	}
	why := ""
	for s := win.lo; s <= win.hi; s++ {
		sn := theRef.at(s)
		if s == w().plan.Deploy-1 {
			sn = theRef.snaps[0]
		}
		if sn == nil {
			continue
		}
		d := want(h, p, sn, win, a.code, v)
		if d == "" {
			eng.count("view of " + viewName(path))
			return
		}
		why = fmt.Sprintf("at slot %d: %s", s, d)
	}
	if a.code >= 500 && eng.troubled(h, win.t0, win.t1) {
		eng.count("api error during trouble")
		return
	}
	if why == "" {
		return
	}
	eng.violate("view", "node %d: %s answers %d %s, which no state from slot %d to %d gives; %s", h.id, path, a.code, clip40(string(a.body)), win.lo, win.hi, why)
}

func viewName(path string) string {
	l := strings.SplitN(path[1:]+"/", "/", 3)
	if l[0] == "registeredrelays" {
		return l[0]
	}
	return strings.TrimSuffix(l[0]+"/"+strings.Trim(l[1], "/"), "/")
}

type viewFn func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string

// ready: the nodes' finalized slot is at most 64 slots ahead.
func needReady(f viewFn) viewFn {
	return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
		d := "it should serve this request"
		for _, x := range v.finals(h) {
			late := x > s.slot+64
			if late && code == 503 {
				return ""
			}
			if !late && code != 503 {
				return f(h, p, s, v, code, got)
			}
			if late {
				d = fmt.Sprintf("it is at %d and the finalized slot %d, so it should refuse", s.slot, x)
			}
		}
		return d
	}
}

func plain(f func(h *host, p *proc, s *snap) any) viewFn {
	return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
		if code != 200 {
			return fmt.Sprint("status ", code)
		}
		d, _ := same(f(h, p, s), got)
		return d
	}
}

func isErr(code int) string {
	if code >= 400 && code < 600 {
		return ""
	}
	return fmt.Sprint("an invalid request is answered with ", code)
}

func blockObj(b *stBlock) obj {
	return obj{"slot": b.Slot, "block": b.Block, "validator_index": b.Idx, "validator_key": b.Key, "block_type": b.Type, "reward_wei": b.Reward.String(), "reward_type": b.RType, "withdrawal_address": b.WD}
}

func blockObjs(ls ...[]*stBlock) []obj {
	r := []obj{}
	for _, l := range ls {
		for _, b := range l {
			r = append(r, blockObj(b))
		}
	}
	return r
}

// valObj is nil if the validator set of slot s does not know the validator:
// lists leave it out.
func valObj(v *stVal, s int) obj {
	wv := w().vals[v.Idx]
	if !wv.known(s) {
		return nil
	}
	x, bal := w().validator(wv, s)
	return obj{"status": v.Status, "beacon_status": wv.status(s), "beacon_balance_gwei": fmt.Sprint(uint64(bal)), "beacon_effective_balance_gwei": fmt.Sprint(uint64(x.EffectiveBalance)),
		"accumulated_rewards_wei": v.Acc.String(), "pending_rewards_wei": v.Pend.String(), "collateral_wei": v.Coll.String(), "withdrawal_address": v.WD, "validator_index": v.Idx, "validator_key": v.Key, "subscription_type": v.Sub}
}

func sortedVals(m map[uint64]*stVal) []*stVal {
	var l []*stVal
	for _, v := range m {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Idx < l[j].Idx })
	return l
}

// anyCache tries the validator sets the process may know.
func anyCache(f func(h *host, p *proc, s *snap, c int) any) viewFn {
	return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
		if code != 200 {
			return fmt.Sprint("status ", code)
		}
		d := "no validators known"
		var all []any
		for _, c := range p.cacheSlots(v.lo) {
			want := f(h, p, s, c)
			x, ok := same(want, got)
			if ok {
				return ""
			}
			d = x
			all = append(all, want)
		}
		if mixed(all, got) {
			return ""
		}
		return d
	}
}

// mixed reports whether got can be put together from the expectations: the
// validator set may be renewed while a request is answered, and one answer
// may then show some of the old one and some of the new one.
func mixed(want []any, got any) bool {
	if len(want) < 2 {
		return false
	}
	for _, x := range want {
		if _, ok := same(x, got); ok {
			return true
		}
	}
	if l, ok := want[0].([]obj); ok {
		g, ok := got.([]any)
		if !ok {
			return false
		}
		for i := range l {
			var e []any
			skip := false
			for _, x := range want {
				if y := x.([]obj); len(y) != len(l) {
					continue
				} else if y[i] == nil {
					skip = true
				} else {
					e = append(e, y[i])
				}
			}
			if len(g) > 0 && len(e) > 0 && (mixed(e, g[0]) || len(e) == 1 && isSame(e[0], g[0])) {
				g = g[1:]
			} else if !skip {
				return false
			}
		}
		return len(g) == 0
	}
	if l, ok := want[0].(obj); ok {
		g, ok := got.(obj)
		if !ok {
			return false
		}
		for k := range l {
			var e []any
			for _, x := range want {
				e = append(e, x.(obj)[k])
			}
			if !mixed(e, g[k]) {
				return false
			}
		}
		return true
	}
	return false
}

func isSame(want, got any) bool {
	_, ok := same(want, got)
	return ok
}

func viewOf(path string) (viewFn, bool) {
	r := theRef
	plan := w().plan
	part := strings.Split(strings.TrimPrefix(path, "/"), "/")
	switch {
	case path == "/status":
		return viewStatus, true
	case path == "/config":
		return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
			if code != 200 {
				return fmt.Sprint("status ", code)
			}
			d := ""
			for _, x := range []uint64{s.slot, s.slot + 1} { // a planned fee change is applied while its slot is processed
				y := r.at(x)
				if y == nil {
					continue
				}
				var ok bool
				if d, ok = same(obj{"network": plan.Net, "pool_address": poolAddr.Hex(), "deployed_slot": plan.Deploy, "checkpoint_size": plan.CP, "pool_fees_percent": y.fee, "pool_fees_address": w().feeAddr.Hex(), "dry_run": h.cfg.DryRun, "collateral_in_wei": w().collat.String()}, got); ok {
					return ""
				}
			}
			return d
		}, true
	case path == "/state":
		return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string { return "" }, true
	case path == "/memory/feesinfo":
		return plain(func(h *host, p *proc, s *snap) any {
			return obj{"pool_fee_percent": s.fee, "pool_fee_address": w().feeAddr.Hex(), "pool_accumulated_fees": s.fees.String()}
		}), true
	case path == "/memory/allblocks":
		return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
			if code != 200 {
				return fmt.Sprint("status ", code)
			}
			l, ok := got.([]any)
			if !ok {
				return "no list"
			}
			// The order is not promised.
			key := func(x any) string {
				o, _ := x.(obj)
				return fmt.Sprint(o["slot"], o["block_type"])
			}
			l = append([]any{}, l...)
			sort.SliceStable(l, func(i, j int) bool { return key(l[i]) < key(l[j]) })
			e := blockObjs(r.prop[:s.nProp], r.miss[:s.nMiss], r.wrong[:s.nWrong])
			sort.SliceStable(e, func(i, j int) bool { return key(e[i]) < key(e[j]) })
			d, _ := same(e, l)
			return d
		}, true
	case path == "/memory/proposedblocks":
		return plain(func(h *host, p *proc, s *snap) any { return blockObjs(r.prop[:s.nProp]) }), true
	case path == "/memory/missedblocks":
		return plain(func(h *host, p *proc, s *snap) any { return blockObjs(r.miss[:s.nMiss]) }), true
	case path == "/memory/wrongfeeblocks":
		return plain(func(h *host, p *proc, s *snap) any { return blockObjs(r.wrong[:s.nWrong]) }), true
	case path == "/memory/donations":
		return plain(func(h *host, p *proc, s *snap) any {
			l := []obj{}
			for _, d := range r.dons[:s.nDon] {
				l = append(l, obj{"amount_wei": d.DonationAmount.String(), "block_number": d.Raw.BlockNumber, "tx_hash": d.Raw.TxHash.String(), "sender": d.Sender.String()})
			}
			return l
		}), true
	case path == "/memory/statistics":
		return needReady(viewStatistics), true
	case path == "/memory/validators":
		return needReady(anyCache(func(h *host, p *proc, s *snap, c int) any {
			l := []obj{}
			for _, v := range sortedVals(s.vals) {
				l = append(l, valObj(v, c))
			}
			return l
		})), true
	case len(part) > 1 && part[len(part)-1] == "":
		return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string { return isErr(code) }, true
	case len(part) == 3 && part[0] == "memory" && part[1] == "validator":
		return needReady(func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
			i, err := strconv.ParseUint(part[2], 10, 64)
			x := s.vals[i]
			if err != nil || x == nil {
				return isErr(code)
			}
			if code != 200 {
				return fmt.Sprint("status ", code)
			}
			d, _ := same(obj{"status": x.Status, "accumulated_rewards_wei": x.Acc.String(), "pending_rewards_wei": x.Pend.String(), "collateral_wei": x.Coll.String(), "withdrawal_address": x.WD, "validator_index": x.Idx, "validator_key": x.Key, "subscription_type": x.Sub}, got)
			return d
		}), true
	case len(part) == 3 && part[0] == "memory" && part[1] == "validatorsbyindex":
		return viewByIndex(part[2]), true
	case len(part) == 3 && part[0] == "memory" && part[1] == "validators":
		return needReady(viewByWithdrawal(part[2])), true
	case len(part) == 3 && part[0] == "onchain" && part[1] == "proof":
		return needReady(viewProof(part[2])), true
	case len(part) == 2 && part[0] == "registeredrelays":
		return viewRelays(part[1]), true
	}
	return nil, false
}

func validAddr(s string) bool {
	if len(s) != 42 || s[:2] != "0x" {
		return false
	}
	return isHex(s[2:])
}

func isHex(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune("0123456789abcdefABCDEF", c) {
			return false
		}
	}
	return true
}

func viewStatus(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
	if code != 200 {
		return fmt.Sprint("status ", code)
	}
	plan := w().plan
	g, _ := got.(obj)
	d := ""
	for _, f := range v.finals(h) {
		for _, c := range v.consolidated() {
			rem := int64(c.slot+plan.CP) - int64(f)
			if rem < 0 {
				rem = 0
			}
			dist, age := int64(f)-int64(s.slot), int64(f)-int64(c.slot)
			if dist < 0 {
				dist = 0
			}
			if age < 0 {
				age = 0
			}
			e := obj{"is_oracle_in_sync": f <= s.slot, "latest_processed_slot": s.slot, "latest_processed_block": s.block, "latest_finalized_epoch": f / 32, "latest_finalized_slot": f,
				"oracle_sync_distance_slots": dist, "next_checkpoint_slot": c.slot + plan.CP, "next_checkpoint_remaining_unix": rem * 12, "previous_checkpoint_slot": c.slot, "previous_checkpoint_age_unix": age * 12,
				"consensus_chainid": w().net.chain, "execution_chainid": w().net.chain, "depositcontract": "0x00000000219ab540356cbb839cbe05303d7705fa"}
			if f < s.slot {
				delete(e, "is_oracle_in_sync")
			}
			if in, all := eng.nodeFaultIn(h, "elsyncing", v.t0, v.t1), eng.nodeFaultAll(h, "elsyncing", v.t0, v.t1); !in || all {
				e["is_execution_in_sync"] = !in
			}
			if in, all := eng.nodeFaultIn(h, "syncing", v.t0, v.t1), eng.nodeFaultAll(h, "syncing", v.t0, v.t1); all || !in && !eng.nodeFaultIn(h, "near", v.t0, v.t1) {
				e["is_consensus_in_sync"] = !in
			}
			var ok bool
			if d, ok = same(e, g); ok {
				return ""
			}
		}
	}
	return d
}

func viewStatistics(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
	if code == 500 && (s.block < zzSimMonth || s.slot < zzSimMonth) {
		return "" // no block seen yet, or the network is younger than the thirty days
	}
	if code != 200 {
		return fmt.Sprint("status ", code)
	}
	r := theRef
	n := map[string]int64{}
	acc, pend := new(big.Int), new(big.Int)
	for _, x := range s.vals {
		n[x.Status]++
		acc.Add(acc, x.Acc)
		pend.Add(pend, x.Pend)
	}
	subs := n["active"] + n["yellowcard"] + n["redcard"]
	sent, don, recent := new(big.Int), new(big.Int), new(big.Int)
	ok := int64(0)
	for _, b := range r.prop[:s.nProp] {
		if b.Type == "okpoolproposal" {
			ok++
			sent.Add(sent, b.Reward)
			if b.Slot+zzSimMonth > s.slot {
				recent.Add(recent, b.Reward)
			}
		}
	}
	for _, d := range r.dons[:s.nDon] {
		don.Add(don, d.DonationAmount)
		if d.Raw.BlockNumber+zzSimMonth > s.block {
			recent.Add(recent, d.DonationAmount)
		}
	}
	sent.Add(sent, don)
	div := func(a *big.Int, n int64) string {
		if n == 0 {
			return "0"
		}
		return new(big.Int).Div(a, big.NewInt(n)).String()
	}
	e := obj{"total_subscribed_validators": subs, "total_active_validators": n["active"], "total_yellowcard_validators": n["yellowcard"], "total_redcard_validators": n["redcard"], "total_banned_validators": n["banned"], "total_notsubscribed_validators": n["notsubscribed"],
		"latest_checkpoint_slot": s.slot, "next_checkpoint_slot": s.slot + w().plan.CP, "total_accumulated_rewards_wei": acc.String(), "total_pending_rewards_wei": pend.String(),
		"total_rewards_sent_wei": sent.String(), "total_rewards_sent_30days_wei": recent.String(), "rewards_per_validator_per_30days_wei": div(recent, n["active"]+n["yellowcard"]), "total_donations_wei": don.String(), "avg_block_reward_wei": div(sent, ok),
		"total_proposed_blocks": s.nProp, "total_missed_blocks": s.nMiss, "total_wrongfee_blocks": s.nWrong}
	return anyCache(func(h *host, p *proc, s *snap, c int) any {
		t := uint64(0)
		for _, x := range s.vals {
			if subscribed(x.Status) {
				if !w().vals[x.Idx].known(c) {
					r.seen("statistics without a validator not yet loaded")
					continue
				}
				y, _ := w().validator(w().vals[x.Idx], c)
				t += uint64(y.EffectiveBalance)
			}
		}
		e["total_effective_balance_gwei"] = fmt.Sprint(t)
		e["avg_effective_balance_gwei"] = "0"
		if subs > 0 {
			e["avg_effective_balance_gwei"] = fmt.Sprint(t / uint64(subs))
		}
		return e
	})(h, p, s, v, code, got)
}

func viewByIndex(list string) viewFn {
	l := strings.Split(list, ",")
	bad := list == "" || len(l) > 100
	var idx []uint64
	for _, x := range l {
		i, err := strconv.ParseUint(x, 10, 64)
		bad = bad || err != nil
		idx = append(idx, i)
	}
	if bad {
		return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string { return isErr(code) }
	}
	return anyCache(func(h *host, p *proc, s *snap, c int) any {
		found, not := []obj{}, []any{}
		for _, i := range idx {
			if x := s.vals[i]; x != nil {
				found = append(found, valObj(x, c))
			} else {
				not = append(not, i)
			}
		}
		return obj{"found_validators": found, "not_found_validators": not}
	})
}

// viewByWithdrawal: the address's validators as they will be once everything
// on chain up to the head is finalized, as far as subscriptions go.
func viewByWithdrawal(addr string) viewFn {
	if !validAddr(addr) {
		return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string { return isErr(code) }
	}
	addr = strings.ToLower(addr)
	return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
		r := theRef
		wd := w()
		d := "no validators known"
		caches := p.cacheSlots(v.lo)
		for n := range len(caches) * len(caches) {
			// Those it lists, and those it goes by for the events.
			c, ce := caches[n%len(caches)], caches[n/len(caches)]
			vals := map[uint64]*stVal{}
			for i, x := range wd.vals {
				if a, ok := r.compat(uint64(i), c); ok && a == addr {
					vals[uint64(i)] = &stVal{Status: "untracked", Acc: new(big.Int), Pend: new(big.Int), Coll: new(big.Int), WD: a, Idx: uint64(x.idx), Key: r.key(uint64(i)), Sub: ""}
				}
			}
			for i, x := range s.vals {
				if strings.EqualFold(x.WD, addr) {
					y := *x
					y.Pend = new(big.Int).Set(x.Pend)
					vals[i] = &y
				}
			}
			if len(vals) > 0 && s.block == 0 {
				if code == 500 {
					return "" // no block seen yet
				}
			}
			if code != 200 {
				return fmt.Sprint("status ", code)
			}
			heads := v.heads()
			for i, hs := range heads {
				for j, hu := range heads {
					if j < i {
						continue // subscriptions are asked for first
					}
					m := map[uint64]*stVal{}
					for k, x := range vals {
						y := *x
						y.Pend = new(big.Int).Set(x.Pend)
						m[k] = &y
					}
					for n := s.slot + 1; n <= hu && len(m) > 0; n++ {
						if n < wd.plan.Deploy {
							continue
						}
						b := wd.slot(n).blk
						if b == nil || b.num <= s.block {
							continue
						}
						for _, e := range b.events {
							if e.kind != "sub" || n > hs {
								continue
							}
							x := m[e.val]
							if x == nil || !strings.EqualFold(e.sender.Hex(), x.WD) || e.amount.Cmp(wd.collat) < 0 || !wd.vals[e.val].known(ce) || !goodStatus(wd.vals[e.val].status(ce)) {
								continue
							}
							if x.Status == "untracked" || x.Status == "notsubscribed" {
								x.Status = "active"
								x.Pend.Add(x.Pend, e.amount)
								r.seen("subscription shown before it is final")
							}
						}
						for _, e := range b.events {
							if e.kind != "unsub" {
								continue
							}
							if x := m[e.val]; x != nil && subscribed(x.Status) && strings.EqualFold(e.sender.Hex(), x.WD) {
								x.Status = "notsubscribed"
								x.Pend = new(big.Int)
								r.seen("unsubscription shown before it is final")
							}
						}
					}
					var all []any
					for _, cv := range caches {
						l := []obj{}
						for _, x := range sortedVals(m) {
							o := valObj(x, cv)
							delete(o, "subscription_type")
							l = append(l, o)
						}
						x, ok := same(l, got)
						if ok {
							return ""
						}
						if cv == c && d == "no validators known" {
							d = x
						}
						all = append(all, l)
					}
					if mixed(all, got) {
						return ""
					}
				}
			}
		}
		return d
	}
}

func viewProof(addr string) viewFn {
	if !validAddr(addr) {
		return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string { return isErr(code) }
	}
	key := strings.ToLower(addr)
	return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
		d := ""
		cs := v.consolidated()
		for _, c := range cs {
			var cm *stCommit
			for _, x := range theRef.commits[:s.nCommit] {
				if x.Slot == c.slot {
					cm = x
				}
			}
			if cm == nil || common.HexToHash(cm.Root) != c.root || len(cs) > 1 && code >= 400 {
				if code >= 400 {
					return ""
				}
				d = fmt.Sprintf("serves a proof although the consolidated slot %d is none it has committed", c.slot)
				continue
			}
			l, ok := cm.Leafs[key]
			if !ok {
				if code >= 400 {
					return ""
				}
				d = "serves a proof for an address without rewards"
				continue
			}
			if code != 200 {
				d = fmt.Sprintf("status %d although slot %d is consolidated and pays %v", code, c.slot, l.Bal)
				continue
			}
			g, _ := got.(obj)
			var proof []string
			if pl, ok := g["merkle_proofs"].([]any); ok {
				for _, x := range pl {
					proof = append(proof, fmt.Sprint(x))
				}
			}
			if !verifyProof(c.root, leafHash(l.WD, l.Bal), proof) {
				d = fmt.Sprintf("the proof does not verify against the consolidated root %s of slot %d", c.root.Hex(), c.slot)
				continue
			}
			var reg []uint64
			pend := new(big.Int)
			for i, x := range cm.Vals {
				if strings.EqualFold(x.WD, key) {
					reg = append(reg, i)
					pend.Add(pend, x.Pend)
				}
			}
			var have []uint64
			if rl, ok := g["registered_validators"].([]any); ok {
				for _, x := range rl {
					n, _ := strconv.ParseUint(fmt.Sprint(x), 10, 64)
					have = append(have, n)
				}
			}
			if fmt.Sprint(uniq(reg)) != fmt.Sprint(uniq(have)) || len(have) != len(reg) {
				d = fmt.Sprintf("registered validators %v, expected %v", have, reg)
				continue
			}
			for _, hd := range v.heads() {
				cl := w().ctr.claimedAt(common.HexToAddress(addr), w().slot(hd).blkNum)
				x, ok := same(obj{"leaf_withdrawal_address": l.WD, "leaf_accumulated_balance": l.Bal.String(), "merkleroot": cm.Root, "checkpoint_slot": cm.Slot, "total_accumulated_rewards_wei": l.Bal.String(),
					"already_claimed_rewards_wei": cl.String(), "claimable_rewards_wei": new(big.Int).Sub(l.Bal, cl).String(), "pending_rewards_wei": pend.String()}, got)
				if ok {
					theRef.seen("proof served")
					if cl.Sign() > 0 {
						theRef.seen("proof served after a claim")
					}
					return ""
				}
				d = x
			}
		}
		return d
	}
}

func viewRelays(pub string) viewFn {
	return func(h *host, p *proc, s *snap, v viewWindow, code int, got any) string {
		if len(pub) != 98 || pub[:2] != "0x" {
			return isErr(code)
		}
		if !isHex(pub[2:]) {
			return "" // not promised either way
		}
		if eng.troubled(h, v.t0, v.t1) {
			return "" // a relay's failed answer may show
		}
		if code != 200 {
			return fmt.Sprint("status ", code)
		}
		good, bad, not := []obj{}, []obj{}, []obj{}
		for _, u := range []string{"relay-1.sim", "relay-2.sim"} {
			c, b := w().relay(pub, u)
			a := "https://" + u
			if c != 200 {
				not = append(not, obj{"relay_address": a})
			} else if strings.Contains(string(b), strings.ToLower(poolAddr.Hex())) {
				good = append(good, obj{"relay_address": a, "fee_recipient": poolAddr.Hex()})
			} else {
				bad = append(bad, obj{"relay_address": a, "fee_recipient": w().addr(90).Hex()})
			}
		}
		d, _ := same(obj{"correct_fee_recipients": len(good) > 0 && len(bad) == 0, "correct_fee_relayers": good, "wrong_fee_relayers": bad, "unregistered_relayers": not}, got)
		return d
	}
}

// viewPath picks an endpoint to ask.
func viewPath(n uint64) string {
	wd := w()
	x := hash(eng.plan.Seed, 91, n)
	acct := func() string {
		a := wd.addr(wd.vals[x>>8%uint64(len(wd.vals))].plan.Acct).Hex()
		if x>>20%2 == 0 {
			a = strings.ToLower(a)
		}
		switch x >> 24 % 16 {
		case 0:
			a = wd.feeAddr.Hex()
		case 1:
			a = wd.addr(200).Hex()
		}
		return a
	}
	val := x >> 8 % uint64(len(wd.vals)+3)
	switch x % 24 {
	case 0:
		return "/status"
	case 1:
		return "/config"
	case 2, 3:
		return "/memory/validators"
	case 4:
		return fmt.Sprint("/memory/validator/", val)
	case 5:
		l := []string{}
		for i := uint64(0); i <= x>>30%7; i++ {
			l = append(l, fmt.Sprint(hash(x, i)%uint64(len(wd.vals)+3)))
		}
		return "/memory/validatorsbyindex/" + strings.Join(l, ",")
	case 6, 7, 8, 9:
		return "/memory/validators/" + acct()
	case 10:
		return "/memory/feesinfo"
	case 11:
		return "/memory/allblocks"
	case 12:
		return "/memory/proposedblocks"
	case 13:
		return "/memory/missedblocks"
	case 14:
		return "/memory/wrongfeeblocks"
	case 15:
		return "/memory/donations"
	case 16, 17, 18:
		return "/memory/statistics"
	case 19, 20, 21:
		return "/onchain/proof/" + acct()
	case 22:
		return fmt.Sprintf("/registeredrelays/0x%x", wd.vals[x>>8%uint64(len(wd.vals))].pub)
	}
	return pick(&rng{x}, oddPaths)
}

var oddPaths = []string{"/", "/memory/validator/-1", "/memory/validator/99999999999999999999999", "/memory/validator/0x1", "/memory/validatorsbyindex/1,", "/memory/validatorsbyindex/,1", "/memory/validatorsbyindex/1,a",
	"/memory/validatorsbyindex/" + strings.Repeat("1,", 100) + "1", "/memory/validatorsbyindex/" + strings.Repeat("1,", 99) + "1", "/memory/validators/0x", "/memory/validators/0x00000000000000000000000000000000000000zz", "/memory/validators/" + strings.Repeat("0", 42),
	"/memory/validators/0xABCDEFabcdef00000000000000000000000000001", "/onchain/proof/x", "/onchain/proof/0x0000000000000000000000000000000000000000", "/onchain/proof/0x" + strings.Repeat("F", 40), "/registeredrelays/0x12", "/registeredrelays/" + strings.Repeat("a", 98), "/registeredrelays/0x" + strings.Repeat("G", 96), "/registeredrelays/0x" + strings.Repeat("`", 96),
	"/nothing", "/memory", "/memory/", "/memory/validators/", "/state/", "//state", "POST /state", "PUT /memory/validators", "DELETE /memory/validator/1", "OPTIONS /config", "HEAD /status"}

// sweep asks all endpoints once.
func sweep(h *host) {
	wd := w()
	l := []string{"/status", "/config", "/memory/validators", "/memory/feesinfo", "/memory/allblocks", "/memory/proposedblocks", "/memory/missedblocks", "/memory/wrongfeeblocks", "/memory/donations", "/memory/statistics"}
	seen := map[string]bool{}
	for i, v := range wd.vals {
		if i >= len(wd.plan.Vals) {
			break
		}
		a := strings.ToLower(wd.addr(v.plan.Acct).Hex())
		if !seen[a] {
			seen[a] = true
			l = append(l, "/memory/validators/"+a, "/onchain/proof/"+wd.addr(v.plan.Acct).Hex())
		}
		l = append(l, fmt.Sprint("/memory/validator/", i))
	}
	l = append(l, "/onchain/proof/"+wd.feeAddr.Hex(), "/memory/validatorsbyindex/0,1,2,3,4,5,6,7,8,9")
	for _, x := range l {
		checkView(h, x)
	}
}
