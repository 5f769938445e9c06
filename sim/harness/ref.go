package main

// The reference model: the pool's rules applied to the simulated chain,
// written from the rules and not from the oracle's code. One slot at a time,
// with a snapshot after each.

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

type stVal struct {
	Status string   `json:"status"`
	Acc    *big.Int `json:"accumulated_rewards_wei"`
	Pend   *big.Int `json:"pending_rewards_wei"`
	Coll   *big.Int `json:"collateral_wei"`
	WD     string   `json:"withdrawal_address"`
	Idx    uint64   `json:"validator_index"`
	Key    string   `json:"validator_key"`
	Sub    string   `json:"subscription_type"`
}

type stBlock struct {
	Slot   uint64   `json:"slot"`
	Block  uint64   `json:"block"`
	Idx    uint64   `json:"validator_index"`
	Key    string   `json:"validator_key"`
	Type   string   `json:"block_type"`
	Reward *big.Int `json:"reward_wei"`
	RType  string   `json:"reward_type"`
	WD     string   `json:"withdrawal_address"`
}

type stEther struct {
	Sender         common.Address
	DonationAmount *big.Int
	Raw            types.Log
}

type stSub struct {
	Sender                 common.Address
	SubscriptionCollateral *big.Int
	ValidatorID            uint64
	Raw                    types.Log
}

type stUnsub struct {
	Sender      common.Address
	ValidatorID uint64
	Raw         types.Log
}

type stLeaf struct {
	WD  string   `json:"withdrawal_address"`
	Bal *big.Int `json:"accumulated_balance_wei"`
}

type stCommit struct {
	Slot   uint64              `json:"slot"`
	TxHash string              `json:"tx_hash"`
	Root   string              `json:"merkle_root"`
	Vals   map[uint64]*stVal   `json:"validators"`
	Leafs  map[string]stLeaf   `json:"leafs"`
	Proofs map[string][]string `json:"proofs"`
}

type stState struct {
	Hash      string               `json:"state_hash"`
	Slot      uint64               `json:"latest_processed_slot"`
	Block     uint64               `json:"latest_processed_block"`
	Next      uint64               `json:"next_slot_to_process"`
	Fees      *big.Int             `json:"pool_accumulated_fees"`
	Vals      map[uint64]*stVal    `json:"validators"`
	Commits   map[uint64]*stCommit `json:"commited_states"`
	Subs      []*stSub             `json:"subscriptions_events"`
	Unsubs    []*stUnsub           `json:"unsubscriptions_events"`
	Ethers    []*stEther           `json:"ether_received_events"`
	Donations []*stEther           `json:"donations"`
	Proposed  []*stBlock           `json:"proposed_blocks"`
	Missed    []*stBlock           `json:"missed_blocks"`
	Wrong     []*stBlock           `json:"wrong_fee_blocks"`
	Fee       int                  `json:"pool_fees_percent_over_10000"`
	Pool      string               `json:"pool_address"`
	Network   string               `json:"network"`
	FeeAddr   string               `json:"pool_fees_address"`
	CP        uint64               `json:"check_point_size_in_slots"`
	DepBlock  uint64               `json:"deployed_block"`
	DepSlot   uint64               `json:"deployed_slot"`
	Collat    *big.Int             `json:"collateral_in_wei"`
}

// snap is the state after one slot.
type snap struct {
	slot, block                                  uint64
	fees                                         *big.Int
	vals                                         map[uint64]*stVal
	nCommit                                      int
	nSub, nUns, nEth, nDon, nProp, nMiss, nWrong int
	fee                                          int
	in                                           *big.Int // everything the pool has been credited with
}

type ref struct {
	w       *world
	snaps   []*snap // [0] is before the deployment slot
	cur     *snap
	commits []*stCommit
	subs    []*stSub
	unsubs  []*stUnsub
	ethers  []*stEther
	dons    []*stEther
	prop    []*stBlock
	miss    []*stBlock
	wrong   []*stBlock
	// The pool's first rule can take more than all of a tiny reward away from
	// the validators. See the known findings.
	negative bool
	halt     int // offset of the first slot no oracle may process, or -1
	why      string
	odd      map[string]int // what the run's chain made happen
	flows    map[string]struct{}
}

func newRef(w *world) *ref {
	r := &ref{w: w, halt: -1, odd: map[string]int{}, flows: map[string]struct{}{}}
	s := &snap{slot: w.plan.Deploy - 1, fees: new(big.Int), vals: map[uint64]*stVal{}, fee: w.plan.Fee, in: new(big.Int)}
	// latest_processed_block of a fresh state is 0
	r.snaps = []*snap{s}
	r.cur = s
	return r
}

// at gives the state after a slot, or nil if no oracle may have processed it.
func (r *ref) at(slot uint64) *snap {
	for r.cur.slot < slot && r.halt < 0 {
		r.step()
	}
	i := int(int64(slot) - int64(r.w.plan.Deploy) + 1)
	if i < 0 || i >= len(r.snaps) {
		return nil
	}
	return r.snaps[i]
}

func (r *ref) seen(k string) { r.odd[k]++ }

func subscribed(s string) bool { return s == "active" || s == "yellowcard" || s == "redcard" }

var machine = map[string]map[string]string{
	"active":        {"ok": "active", "wrong": "banned", "missed": "yellowcard", "unsub": "notsubscribed", "ban": "banned"},
	"yellowcard":    {"ok": "active", "wrong": "banned", "missed": "redcard", "unsub": "notsubscribed", "ban": "banned"},
	"redcard":       {"ok": "yellowcard", "wrong": "banned", "missed": "redcard", "unsub": "notsubscribed", "ban": "banned"},
	"notsubscribed": {"manual": "active", "auto": "active"},
	"banned":        {"unban": "active"},
}

func (r *ref) fire(v *stVal, ev string) {
	if n, ok := machine[v.Status][ev]; ok {
		r.flows[v.Status+"/"+ev] = struct{}{}
		r.seen("transition " + v.Status + " by " + ev)
		v.Status = n
	} else {
		r.seen("event without effect: " + v.Status + " by " + ev)
	}
}

func (r *ref) sorted() []*stVal {
	var l []*stVal
	for _, v := range r.cur.vals {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Idx < l[j].Idx })
	return l
}

// share splits a reward among those eligible at this moment.
func (r *ref) share(reward *big.Int, s int) {
	c := r.cur
	if reward.Sign() == 0 {
		return
	}
	slot := r.w.plan.Deploy + uint64(s)
	var el []*stVal
	for _, v := range r.sorted() {
		if v.Status == "active" || v.Status == "yellowcard" {
			el = append(el, v)
		}
	}
	if len(el) == 0 {
		c.fees.Add(c.fees, reward)
		r.seen("reward nobody is eligible for")
		return
	}
	if r.w.net.electra != never && slot >= r.w.net.electra && r.w.net.electra != 0 {
		sum := new(big.Int)
		for _, v := range el {
			sum.Add(sum, new(big.Int).SetUint64(r.w.vals[v.Idx].effBal(s)))
		}
		if sum.Sign() == 0 {
			c.fees.Add(c.fees, reward)
			r.seen("reward with no effective balance")
			return
		}
		cut := new(big.Int).Div(new(big.Int).Mul(reward, big.NewInt(int64(c.fee))), big.NewInt(10000))
		rest := new(big.Int).Sub(reward, cut)
		left := new(big.Int).Set(rest)
		for _, v := range el {
			x := new(big.Int).Mul(rest, new(big.Int).SetUint64(r.w.vals[v.Idx].effBal(s)))
			x.Div(x, sum)
			v.Pend.Add(v.Pend, x)
			left.Sub(left, x)
		}
		c.fees.Add(c.fees, cut)
		c.fees.Add(c.fees, left)
		r.seen("reward shared by effective balance")
		return
	}
	cut := new(big.Int).Mul(reward, big.NewInt(int64(c.fee)))
	cut, rem := cut.DivMod(cut, big.NewInt(10000), new(big.Int))
	rest := new(big.Int).Sub(reward, cut)
	if slot < r.w.net.fork1 {
		rest.Sub(rest, rem)
		c.fees.Add(c.fees, rem)
		r.seen("reward shared by the first rule")
		if rest.Sign() < 0 {
			r.negative = true
		}
	} else {
		r.seen("reward shared equally")
	}
	each, dust := new(big.Int).DivMod(rest, big.NewInt(int64(len(el))), new(big.Int))
	for _, v := range el {
		v.Pend.Add(v.Pend, each)
	}
	c.fees.Add(c.fees, cut)
	c.fees.Add(c.fees, dust)
}

// compat gives the execution-layer withdrawal address of a validator.
func (r *ref) compat(i uint64, s int) (string, bool) {
	if !r.w.knows(i, s) {
		return "", false
	}
	v := r.w.vals[i]
	c := r.w.creds(v, s)
	if c[0] != 1 && c[0] != 2 {
		return "", false
	}
	for _, b := range c[1:12] {
		if b != 0 {
			return "", false
		}
	}
	return "0x" + hex.EncodeToString(c[12:]), true
}

func (r *ref) key(i uint64) string { return "0x" + hex.EncodeToString(r.w.vals[i].pub) }

func goodStatus(st string) bool {
	switch st {
	case "active_ongoing", "pending_initialized", "pending_queued":
		return true
	}
	return false
}

// summary classifies the slot's proposal.
func (r *ref) summary(sd *slotData, s int, pre bool) *stBlock {
	w := r.w
	v := w.vals[sd.prop]
	c := w.creds(v, s)
	b := &stBlock{Slot: sd.n, Idx: uint64(sd.prop), Key: r.key(uint64(sd.prop)), Reward: new(big.Int), RType: "unknownrewardtype"}
	bls := false
	if wd, ok := r.compat(uint64(sd.prop), s); ok {
		b.WD = wd
	} else if c[0] == 0 {
		b.WD = "0x" + hex.EncodeToString(c[1:])
		bls = true
	} else {
		bls = true
	}
	if sd.blk == nil {
		b.Type = "missedproposal"
		return b
	}
	blk := sd.blk
	b.Block = blk.num
	to := blk.feeRec
	var amount *big.Int
	mev := false
	if n := len(blk.txs); n > 0 {
		t := blk.txs[n-1]
		builder := t.from == blk.feeRec
		if w.net.name == "mainnet" && t.from == listedBuilder {
			r.seen("last transaction by the whitelisted builder")
			builder = true
		}
		if t.to != nil && builder {
			paid := false
			for _, e := range blk.events {
				paid = paid || e.kind == "ether" && e.amount.Cmp(t.value) == 0
			}
			if *t.to != poolAddr || paid {
				mev = true
				amount = new(big.Int).Set(t.value)
				to = *t.to
				if paid {
					to = poolAddr
				}
			} else {
				r.seen("last transaction to the pool that pays nothing")
			}
		}
	}
	if w.net.name == "mainnet" && sd.n == 10400574 {
		mev, to, amount = true, poolAddr, big10("177043568463114308")
	}
	if to == poolAddr {
		b.Type = "okpoolproposal"
		if bls {
			b.Type = "okpoolproposalblskeys"
		}
	} else {
		b.Type = "wrongfeerecipient"
	}
	switch {
	case mev:
		b.Reward, b.RType = amount, "mev"
	case to == poolAddr || pre:
		b.Reward, b.RType = blk.vanilla(), "vanila"
	}
	return b
}

func (r *ref) step() {
	w := r.w
	s := len(r.snaps) - 1
	sd := w.slot(w.plan.Deploy + uint64(s))
	old := r.cur
	c := &snap{slot: sd.n, block: old.block, fees: new(big.Int).Set(old.fees), vals: map[uint64]*stVal{}, fee: old.fee, in: new(big.Int).Set(old.in)}
	for k, v := range old.vals {
		x := *v
		x.Acc, x.Pend, x.Coll = new(big.Int).Set(v.Acc), new(big.Int).Set(v.Pend), new(big.Int).Set(v.Coll)
		c.vals[k] = &x
	}
	var evs []*event
	if sd.blk != nil {
		evs = sd.blk.events
		c.block = sd.blk.num
	}
	if sd.n == 10400574 && w.net.name == "mainnet" && sd.blk != nil {
		r.seen("exception slot")
	}
	// Settings the oracle runs with.
	n := map[string]int{}
	for _, e := range evs {
		n[e.kind]++
		stop := ""
		switch e.kind {
		case "fee":
			x, planned := w.net.sched[sd.n]
			if !planned || int64(x) != e.amount.Int64() {
				stop = "fee"
			} else {
				c.fee = x
				r.seen("planned fee change")
			}
		case "recipient":
			if e.addr != w.feeAddr {
				stop = "recipient"
			}
		case "cp":
			if e.val != w.plan.CP {
				stop = "checkpoint size"
			}
		case "collateral":
			if e.amount.Cmp(w.collat) != 0 {
				stop = "collateral"
			}
		}
		if stop == "" && n[e.kind] > 1 && (e.kind == "fee" || e.kind == "recipient" || e.kind == "cp" || e.kind == "collateral") {
			stop = "two changes in one block"
		}
		if stop != "" {
			r.halt, r.why = s, stop
			r.seen("unexpected contract setting: " + stop)
			return
		}
	}
	r.cur = c
	pv, tracked := c.vals[uint64(sd.prop)]
	pre := tracked && subscribed(pv.Status)
	sum := r.summary(sd, s, pre)

	// What was received and is not the block's payment is a donation.
	var donations []*event
	var payment *event // made by the last transaction
	if sum.RType == "mev" && strings.HasPrefix(sum.Type, "okpool") && sd.n != 10400574 {
		for _, e := range evs {
			if e.kind == "ether" && e.amount.Cmp(sum.Reward) == 0 {
				payment = e
			}
		}
	}
	for _, e := range evs {
		if e.kind == "ether" && e != payment {
			donations = append(donations, e)
		}
	}
	for _, e := range evs {
		switch e.kind {
		case "ether":
			r.ethers = append(r.ethers, &stEther{e.sender, e.amount, *e.log})
			c.in.Add(c.in, e.amount)
		case "sub":
			r.subs = append(r.subs, &stSub{e.sender, e.amount, e.val, *e.log})
			c.in.Add(c.in, e.amount)
		case "unsub":
			r.unsubs = append(r.unsubs, &stUnsub{e.sender, e.val, *e.log})
		}
	}
	if sd.n == 10400574 && w.net.name == "mainnet" && sd.blk != nil {
		r.ethers = append(r.ethers, &stEther{DonationAmount: big10("177043568463114308"), Raw: types.Log{Topics: []common.Hash{}, Data: []byte{}}})
		c.in.Add(c.in, big10("177043568463114308"))
	}
	for _, e := range evs {
		if e.kind == "sub" {
			r.subscribe(e, s)
		}
	}
	pv, tracked = c.vals[uint64(sd.prop)]
	isSub := tracked && subscribed(pv.Status)
	switch sum.Type {
	case "missedproposal":
		if isSub {
			r.fire(pv, "missed")
			r.miss = append(r.miss, sum)
		}
	case "okpoolproposalblskeys":
		c.fees.Add(c.fees, sum.Reward)
		r.prop = append(r.prop, sum)
		r.seen("proposal with BLS credentials pays the pool")
	case "okpoolproposal":
		if !tracked {
			pv = &stVal{Status: "notsubscribed", Acc: new(big.Int), Pend: new(big.Int), Coll: new(big.Int), WD: sum.WD, Idx: sum.Idx, Key: sum.Key}
			c.vals[sum.Idx] = pv
			r.seen("automatic subscription of an untracked validator")
		}
		if !subscribed(pv.Status) {
			if pv.Status != "banned" {
				pv.Sub = "auto"
			} else {
				r.seen("banned validator pays the pool")
			}
			r.fire(pv, "auto")
		}
		r.fire(pv, "ok")
		r.share(sum.Reward, s)
		pv.Acc.Add(pv.Acc, pv.Pend)
		pv.Pend = new(big.Int)
		r.prop = append(r.prop, sum)
		if sum.RType == "vanila" {
			r.seen("vanilla block to the pool")
		} else {
			r.seen("MEV block to the pool")
		}
	case "wrongfeerecipient":
		if isSub {
			r.fire(pv, "wrong")
			x := pv.Pend
			pv.Pend = new(big.Int)
			r.share(x, s)
			r.wrong = append(r.wrong, sum)
			r.seen("ban for a " + sum.RType + " block")
		} else {
			r.seen("block of somebody else")
		}
	}
	if sum.RType == "vanila" && strings.HasPrefix(sum.Type, "okpool") {
		c.in.Add(c.in, sum.Reward)
	}
	for _, e := range evs {
		if e.kind == "unsub" {
			r.unsubscribe(e, s)
		}
	}
	for _, e := range donations {
		r.share(e.amount, s)
		r.dons = append(r.dons, &stEther{e.sender, e.amount, *e.log})
		r.seen("donation")
	}
	total := new(big.Int)
	for _, e := range evs {
		if e.kind == "ban" {
			v := c.vals[e.val]
			if v == nil || !subscribed(v.Status) {
				r.seen("ban without effect")
				continue
			}
			r.fire(v, "ban")
			total.Add(total, v.Pend)
			v.Pend = new(big.Int)
		}
	}
	r.share(total, s)
	for _, e := range evs {
		if e.kind == "unban" {
			if v := c.vals[e.val]; v != nil && v.Status == "banned" {
				r.fire(v, "unban")
			} else {
				r.seen("unban without effect")
			}
		}
	}
	if sd.n%1200 == 0 {
		r.cleanup(sd.n, s)
	}
	c.nSub, c.nUns, c.nEth, c.nDon, c.nProp, c.nMiss, c.nWrong = len(r.subs), len(r.unsubs), len(r.ethers), len(r.dons), len(r.prop), len(r.miss), len(r.wrong)
	if (sd.n-w.plan.Deploy)%w.plan.CP == 0 {
		r.commit()
	}
	c.nCommit = len(r.commits)
	r.snaps = append(r.snaps, c)
	// The model itself must conserve.
	t := new(big.Int).Set(c.fees)
	for _, v := range c.vals {
		t.Add(t, v.Acc)
		t.Add(t, v.Pend)
	}
	if t.Cmp(c.in) != 0 {
		panic(fmt.Sprintf("reference model does not conserve at slot %d: %v credited %v", sd.n, t, c.in))
	}
}

func (r *ref) subscribe(e *event, s int) {
	c := r.cur
	w := r.w
	reject := func(why string) {
		r.seen("subscription refused: " + why)
		c.fees.Add(c.fees, e.amount)
	}
	if !w.knows(e.val, s) {
		reject("no such validator")
		return
	}
	if !goodStatus(w.vals[e.val].status(s)) {
		reject("status")
		return
	}
	wd, ok := r.compat(e.val, s)
	if !ok {
		reject("credentials")
		return
	}
	if !strings.EqualFold(wd, e.sender.Hex()) {
		reject("sender")
		return
	}
	v := c.vals[e.val]
	if v != nil && (v.Status == "banned" || subscribed(v.Status)) {
		v.Acc.Add(v.Acc, e.amount)
		r.seen("subscription of a " + v.Status + " validator")
		return
	}
	if e.amount.Cmp(w.collat) < 0 {
		reject("collateral")
		return
	}
	if v == nil {
		v = &stVal{Status: "notsubscribed", Acc: new(big.Int), Pend: new(big.Int), Coll: new(big.Int).Set(e.amount), WD: wd, Idx: e.val, Key: r.key(e.val)}
		c.vals[e.val] = v
	}
	v.Sub = "manual"
	r.fire(v, "manual")
	v.Pend.Add(v.Pend, e.amount)
	r.seen("subscription accepted")
}

func (r *ref) unsubscribe(e *event, s int) {
	c := r.cur
	w := r.w
	if !w.knows(e.val, s) {
		r.seen("unsubscription refused")
		return
	}
	wd, ok := r.compat(e.val, s)
	v := c.vals[e.val]
	if !ok || !strings.EqualFold(wd, e.sender.Hex()) || v == nil || !subscribed(v.Status) {
		r.seen("unsubscription refused")
		return
	}
	r.fire(v, "unsub")
	x := v.Pend
	v.Pend = new(big.Int)
	r.share(x, s)
	r.seen("unsubscription accepted")
}

func (r *ref) cleanup(slot uint64, s int) {
	w := r.w
	if slot < w.net.fork1 {
		return
	}
	c := r.cur
	target := map[uint64]uint64{}
	for _, x := range w.consolidations(s) {
		if w.net.electra != never && slot < w.net.electra {
			break // nothing can consolidate before Electra
		}
		target[uint64(x[0])] = uint64(x[1])
	}
	total := new(big.Int)
	for _, v := range r.sorted() {
		st := w.vals[v.Idx].status(s)
		if strings.HasPrefix(st, "active") || v.Pend.Sign() == 0 {
			continue
		}
		r.fire(v, "unsub")
		pend := v.Pend
		v.Pend = new(big.Int)
		t, ok := target[v.Idx]
		if !ok {
			r.seen("exit settled")
			total.Add(total, pend)
			continue
		}
		tv := c.vals[t]
		switch {
		case tv == nil:
			wd, _ := r.compat(t, s)
			c.vals[t] = &stVal{Status: "notsubscribed", Acc: new(big.Int), Pend: pend, Coll: new(big.Int), WD: wd, Idx: t, Key: r.key(t), Sub: "manual"}
			r.seen("consolidation into an untracked validator")
		case tv.Status == "banned":
			total.Add(total, pend)
			r.seen("consolidation into a banned validator")
		default:
			tv.Pend.Add(tv.Pend, pend)
			r.seen("consolidation into a tracked validator")
		}
	}
	r.share(total, s)
	r.seen("cleanup slot")
}

// ---- checkpoints

func leafHash(addr string, bal *big.Int) []byte {
	return crypto.Keccak256(common.FromHex(addr), common.LeftPadBytes(bal.Bytes(), 32))
}

func pairHash(a, b []byte) []byte {
	if string(a) > string(b) {
		a, b = b, a
	}
	return crypto.Keccak256(a, b)
}

// verifyProof is the contract's check of a claim.
func verifyProof(root common.Hash, leaf []byte, proof []string) bool {
	h := leaf
	for _, p := range proof {
		h = pairHash(h, common.FromHex(p))
	}
	return common.BytesToHash(h) == root
}

func (r *ref) commit() {
	c := r.cur
	sums := map[string]*big.Int{}
	for _, v := range c.vals {
		a := strings.ToLower(v.WD)
		if sums[a] == nil {
			sums[a] = new(big.Int)
		}
		sums[a].Add(sums[a], v.Acc)
	}
	addrs := sortedKeys(sums)
	leafs := []stLeaf{{strings.ToLower(r.w.feeAddr.Hex()), new(big.Int).Set(c.fees)}}
	for _, a := range addrs {
		leafs = append(leafs, stLeaf{a, sums[a]})
	}
	if len(leafs) < 2 {
		r.seen("checkpoint with nothing to commit")
		return
	}
	x := &stCommit{Slot: c.slot, Vals: map[uint64]*stVal{}, Leafs: map[string]stLeaf{}, Proofs: map[string][]string{}}
	for k, v := range c.vals {
		y := *v
		y.Acc, y.Pend, y.Coll = new(big.Int).Set(v.Acc), new(big.Int).Set(v.Pend), new(big.Int).Set(v.Coll)
		x.Vals[k] = &y
	}
	var level [][]byte
	pos := make([]int, len(leafs))
	proofs := make([][]string, len(leafs))
	for i, l := range leafs {
		level = append(level, leafHash(l.WD, l.Bal))
		pos[i] = i
	}
	for len(level) > 1 {
		if len(level)%2 == 1 {
			level = append(level, level[len(level)-1])
		}
		for i := range leafs {
			proofs[i] = append(proofs[i], "0x"+hex.EncodeToString(level[pos[i]^1]))
			pos[i] /= 2
		}
		var up [][]byte
		for i := 0; i < len(level); i += 2 {
			up = append(up, pairHash(level[i], level[i+1]))
		}
		level = up
	}
	x.Root = "0x" + hex.EncodeToString(level[0])
	for i, l := range leafs {
		x.Leafs[l.WD] = l
		x.Proofs[l.WD] = proofs[i]
	}
	r.commits = append(r.commits, x)
	r.seen("checkpoint")
}

// committed gives the commit of a checkpoint slot.
func (r *ref) committed(slot uint64) *stCommit {
	if r.at(slot) == nil {
		return nil
	}
	for _, c := range r.commits {
		if c.Slot == slot {
			return c
		}
	}
	return nil
}

// full builds the complete state after a slot.
func (r *ref) full(s *snap) *stState {
	w := r.w
	st := &stState{Slot: s.slot, Block: s.block, Next: s.slot + 1, Fees: s.fees, Vals: s.vals, Commits: map[uint64]*stCommit{},
		Subs: r.subs[:s.nSub], Unsubs: r.unsubs[:s.nUns], Ethers: r.ethers[:s.nEth], Donations: r.dons[:s.nDon], Proposed: r.prop[:s.nProp], Missed: r.miss[:s.nMiss], Wrong: r.wrong[:s.nWrong],
		Fee: s.fee, Pool: poolAddr.Hex(), Network: w.net.name, FeeAddr: w.feeAddr.Hex(), CP: w.plan.CP, DepBlock: w.block0, DepSlot: w.plan.Deploy, Collat: w.collat}
	for _, c := range r.commits[:s.nCommit] {
		st.Commits[c.Slot] = c
	}
	return st
}

// section is a canonical text of one part of a state.
func section(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	s := string(b)
	if s == "null" {
		return "[]"
	}
	return s
}

// diff lists what differs between a state an oracle has and the reference.
func (got *stState) diff(want *stState) []string {
	var d []string
	cmp := func(name string, a, b any) {
		x, y := section(a), section(b)
		if x != y {
			d = append(d, fmt.Sprintf("%s: oracle %s, reference %s", name, clip(x, y), clip(y, x)))
		}
	}
	cmp("next_slot_to_process", got.Next, want.Next)
	cmp("latest_processed_block", got.Block, want.Block)
	cmp("pool_accumulated_fees", got.Fees, want.Fees)
	cmp("pool_fees_percent", got.Fee, want.Fee)
	cmp("pool_address", strings.ToLower(got.Pool), strings.ToLower(want.Pool))
	cmp("network", got.Network, want.Network)
	cmp("pool_fees_address", strings.ToLower(got.FeeAddr), strings.ToLower(want.FeeAddr))
	cmp("check_point_size", got.CP, want.CP)
	cmp("deployed_block", got.DepBlock, want.DepBlock)
	cmp("deployed_slot", got.DepSlot, want.DepSlot)
	cmp("collateral", got.Collat, want.Collat)
	keys := map[uint64]bool{}
	for k := range got.Vals {
		keys[k] = true
	}
	for k := range want.Vals {
		keys[k] = true
	}
	var ks []uint64
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		cmp(fmt.Sprint("validator ", k), got.Vals[k], want.Vals[k])
	}
	cmp("subscription events", got.Subs, want.Subs)
	cmp("unsubscription events", got.Unsubs, want.Unsubs)
	cmp("ether received events", got.Ethers, want.Ethers)
	cmp("donations", got.Donations, want.Donations)
	cmp("proposed blocks", got.Proposed, want.Proposed)
	cmp("missed blocks", got.Missed, want.Missed)
	cmp("wrong fee blocks", got.Wrong, want.Wrong)
	for k, c := range want.Commits {
		g := got.Commits[k]
		if g == nil {
			if !((k-want.DepSlot)%want.CP == 0 && k == want.Slot) {
				d = append(d, fmt.Sprintf("commit %d: missing", k))
			}
			continue
		}
		x := *g
		x.TxHash = ""
		cmp(fmt.Sprint("commit ", k), &x, c)
	}
	for k := range got.Commits {
		if want.Commits[k] == nil {
			d = append(d, fmt.Sprintf("commit %d: should not exist", k))
		}
	}
	sort.Strings(d)
	return d
}

// clip shows the neighbourhood of the first difference.
func clip(a, b string) string {
	if os.Getenv("VSIM_FULL") != "" {
		return a + " \nvs\n " + b
	}
	if len(a) < 300 {
		return a
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-120, i+180
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return "..." + a[lo:hi] + "..."
}

func sha(b []byte) string {
	h := sha256.Sum256(b)
	return "0x" + hex.EncodeToString(h[:])
}
