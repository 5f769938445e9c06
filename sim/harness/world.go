package main

// The chain the oracles follow: validators, blocks, contract events. Built
// only from the plan, with go-ethereum's and go-eth2-client's types; nothing
// of the repository's own code is used.

import (
	"crypto/ecdsa"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/attestantio/go-eth2-client/spec/altair"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/deneb"
	"github.com/attestantio/go-eth2-client/spec/electra"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"github.com/prysmaticlabs/go-bitfield"
)

const slotSec = 12

var listedBuilder = common.HexToAddress("0xae0A3D884E746599BD6C893a674E556C36a47f1e")

var poolAddr = common.HexToAddress("0xAdFb8D27671F14f297eE94135e266aAFf8752e35")

// Account codes: 0..99 have keys; 1000+ are contracts; the rest is named.
const (
	acctPool    = -2
	acctFee     = -3
	acctNone    = -100 // contract creation
	acctOracle0 = 50
	acctBuilder = 40
	acctListed  = 45 // stands for the builder whitelisted on mainnet
)

type val struct {
	idx    int
	pub    []byte
	plan   ValPlan
	stat   []timed // status changes
	eff    []timed
	cred   []timed
	consol []consol
}

type timed struct {
	s int
	t string
	x int
}

type consol struct {
	from, to int // slots during which it is pending
	target   int
}

type txn struct {
	tx      *types.Transaction
	from    common.Address
	to      *common.Address
	value   *big.Int
	gasUsed uint64
	tip     *big.Int // per gas to the fee recipient
	status  uint64
	logs    []*types.Log
}

type event struct {
	kind   string
	sender common.Address
	val    uint64
	amount *big.Int
	addr   common.Address
	log    *types.Log
}

type block struct {
	num     uint64
	slot    uint64
	time    uint64
	version string
	feeRec  common.Address
	baseFee *big.Int
	txs     []*txn
	events  []*event
	header  *types.Header
	gasUsed uint64
	poolIn  *big.Int // ether the pool's balance gained
	json    []byte
}

type slotData struct {
	n      uint64
	prop   int
	blk    *block // nil: missed
	blkNum uint64 // of the latest block at or before this slot
	ops    []Op
}

type world struct {
	plan    *Plan
	net     netInfo
	genesis time.Time
	vals    []*val
	slots   []*slotData // from Deploy on
	byNum   map[uint64]*slotData
	byTx    map[common.Hash]txAt
	keys    map[int]*ecdsa.PrivateKey
	addrs   map[int]common.Address
	opsAt   map[int][]Op
	nonce   map[int]uint64
	block0  uint64
	poolIn  []*big.Int // by slot offset: cumulative ether received
	feeAddr common.Address
	collat  *big.Int
	pabi    abi.ABI
	ctr     *contractSim
}

type txAt struct {
	s *slotData
	i int
}

type netInfo struct {
	name     string
	chain    uint64
	fork1    uint64
	electra  uint64 // oracle's rule for effective-balance sharing; 0: never
	capella  uint64
	deneb    uint64
	electraB uint64 // block format
	fulu     uint64
	sched    map[uint64]int
	defFee   int
}

const never = uint64(1) << 62

var nets = map[string]netInfo{
	"mainnet": {"mainnet", 1, 10188220, 11649024, 6209536, 8626176, 11649024, 13164544, map[uint64]int{14082460: 500}, 700},
	"holesky": {"holesky", 17000, 2720632, never, 256 * 32, 29696 * 32, 115968 * 32, 165120 * 32, nil, 0},
	"hoodi":   {"hoodi", 560048, 1, 65536, 0, 0, 2048 * 32, 50688 * 32, map[uint64]int{2801050: 500}, 1000},
}

const poolABI = `[
{"type":"event","name":"EtherReceived","inputs":[{"name":"sender","type":"address"},{"name":"donationAmount","type":"uint256"}]},
{"type":"event","name":"SubscribeValidator","inputs":[{"name":"sender","type":"address"},{"name":"subscriptionCollateral","type":"uint256"},{"name":"validatorID","type":"uint64"}]},
{"type":"event","name":"UnsubscribeValidator","inputs":[{"name":"sender","type":"address"},{"name":"validatorID","type":"uint64"}]},
{"type":"event","name":"BanValidator","inputs":[{"name":"validatorID","type":"uint64"}]},
{"type":"event","name":"UnbanValidator","inputs":[{"name":"validatorID","type":"uint64"}]},
{"type":"event","name":"UpdatePoolFee","inputs":[{"name":"newPoolFee","type":"uint256"}]},
{"type":"event","name":"UpdatePoolFeeRecipient","inputs":[{"name":"newPoolFeeRecipient","type":"address"}]},
{"type":"event","name":"UpdateCheckpointSlotSize","inputs":[{"name":"newCheckpointSlotSize","type":"uint64"}]},
{"type":"event","name":"UpdateSubscriptionCollateral","inputs":[{"name":"newSubscriptionCollateral","type":"uint256"}]},
{"type":"event","name":"ClaimRewards","inputs":[{"name":"withdrawalAddress","type":"address"},{"name":"rewardAddress","type":"address"},{"name":"claimableBalance","type":"uint256"}]},
{"type":"event","name":"UpdateQuorum","inputs":[{"name":"newQuorum","type":"uint64"}]},
{"type":"function","name":"initialize","inputs":[{"name":"a","type":"address"},{"name":"b","type":"uint256"},{"name":"c","type":"uint256"},{"name":"d","type":"address"},{"name":"e","type":"uint64"},{"name":"f","type":"uint64"}],"outputs":[]},
{"type":"function","name":"addressToVotedReportHash","inputs":[{"name":"a","type":"address"}],"outputs":[{"name":"","type":"bytes32"}]},
{"type":"function","name":"reportHashToReport","inputs":[{"name":"a","type":"bytes32"}],"outputs":[{"name":"slot","type":"uint64"},{"name":"votes","type":"uint64"}]},
{"type":"function","name":"getAllOracleMembers","inputs":[],"outputs":[{"name":"","type":"address[]"}]},
{"type":"function","name":"checkpointSlotSize","inputs":[],"outputs":[{"name":"","type":"uint64"}]},
{"type":"function","name":"lastConsolidatedSlot","inputs":[],"outputs":[{"name":"","type":"uint64"}]},
{"type":"function","name":"quorum","inputs":[],"outputs":[{"name":"","type":"uint64"}]},
{"type":"function","name":"deploymentBlockNumber","inputs":[],"outputs":[{"name":"","type":"uint256"}]},
{"type":"function","name":"poolFee","inputs":[],"outputs":[{"name":"","type":"uint256"}]},
{"type":"function","name":"poolFeeRecipient","inputs":[],"outputs":[{"name":"","type":"address"}]},
{"type":"function","name":"rewardsRoot","inputs":[],"outputs":[{"name":"","type":"bytes32"}]},
{"type":"function","name":"subscriptionCollateral","inputs":[],"outputs":[{"name":"","type":"uint256"}]},
{"type":"function","name":"claimedBalance","inputs":[{"name":"a","type":"address"}],"outputs":[{"name":"","type":"uint256"}]},
{"type":"function","name":"submitReport","inputs":[{"name":"slotNumber","type":"uint64"},{"name":"proposedRewardsRoot","type":"bytes32"}],"outputs":[]}
]`

func big10(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return new(big.Int)
	}
	return b
}

func newWorld(p *Plan) *world {
	w := &world{plan: p, net: nets[p.Net], byNum: map[uint64]*slotData{}, byTx: map[common.Hash]txAt{}, keys: map[int]*ecdsa.PrivateKey{}, addrs: map[int]common.Address{}, opsAt: map[int][]Op{}, nonce: map[int]uint64{}}
	var err error
	w.pabi, err = abi.JSON(strings.NewReader(poolABI))
	if err != nil {
		panic(err)
	}
	head := p.Deploy + uint64(p.Start)
	w.genesis = eng.t0.Add(-time.Duration(head*slotSec) * time.Second)
	w.block0 = 1_000_000 + p.Deploy
	w.collat = big10(p.Collat)
	w.feeAddr = w.addr(p.FeeAcct)
	for i := 0; i < len(p.Vals)+p.Outs+len(p.News); i++ {
		v := &val{idx: i}
		if i < len(p.Vals) {
			v.plan = p.Vals[i]
		} else if k := i - len(p.Vals) - p.Outs; k >= 0 {
			v.plan = p.News[k]
		} else {
			v.plan = ValPlan{Cred: 1, Acct: 80 + i%10, Eff: 32}
		}
		v.pub = make([]byte, 48)
		for j := 0; j < 6; j++ {
			binary.BigEndian.PutUint64(v.pub[j*8:], hash(p.Seed, 1001, uint64(i), uint64(j)))
		}
		w.vals = append(w.vals, v)
	}
	for _, o := range p.Ops {
		switch o.K {
		case "stat":
			if o.V < len(w.vals) {
				w.vals[o.V].stat = append(w.vals[o.V].stat, timed{s: o.S, t: o.T})
			}
		case "eff":
			if o.V < len(w.vals) {
				w.vals[o.V].eff = append(w.vals[o.V].eff, timed{s: o.S, x: o.X})
			}
		case "cred":
			if o.V < len(w.vals) {
				w.vals[o.V].cred = append(w.vals[o.V].cred, timed{s: o.S, x: o.X})
			}
		case "cons":
			if o.V < len(w.vals) && o.A < len(w.vals) {
				w.vals[o.V].consol = append(w.vals[o.V].consol, consol{o.S, o.S + o.X, o.A})
			}
		default:
			w.opsAt[o.S] = append(w.opsAt[o.S], o)
		}
	}
	for _, v := range w.vals {
		sort.SliceStable(v.stat, func(i, j int) bool { return v.stat[i].s < v.stat[j].s })
		sort.SliceStable(v.eff, func(i, j int) bool { return v.eff[i].s < v.eff[j].s })
		sort.SliceStable(v.cred, func(i, j int) bool { return v.cred[i].s < v.cred[j].s })
	}
	return w
}

func (w *world) key(i int) *ecdsa.PrivateKey {
	if k := w.keys[i]; k != nil {
		return k
	}
	var b [32]byte
	for j := 0; j < 4; j++ {
		binary.BigEndian.PutUint64(b[j*8:], hash(4242, uint64(i), uint64(j)))
	}
	b[0] &= 0x7f
	k, err := crypto.ToECDSA(b[:])
	if err != nil {
		panic(err)
	}
	w.keys[i] = k
	return k
}

func (w *world) addr(i int) common.Address {
	if a, ok := w.addrs[i]; ok {
		return a
	}
	var a common.Address
	switch {
	case i == acctPool:
		a = poolAddr
	case i == acctListed && zzSimSenders > 0:
		a = listedBuilder
	case i == acctFee:
		a = w.addr(w.plan.FeeAcct)
	case i >= 0 && i < 100:
		a = crypto.PubkeyToAddress(w.key(i).PublicKey)
	default:
		h := crypto.Keccak256([]byte(fmt.Sprint("contract ", i)))
		copy(a[:], h[:20])
	}
	w.addrs[i] = a
	return a
}

// ---- validators at a slot (offset from Deploy)

// known says whether the state of a slot has the validator.
func (v *val) known(s int) bool { return v.plan.Born == 0 || v.plan.Born <= s }

func (w *world) knows(i uint64, s int) bool { return i < uint64(len(w.vals)) && w.vals[i].known(s) }

func (v *val) status(s int) string {
	st := v.plan.Status
	if st == "" {
		st = "active_ongoing"
	}
	for _, t := range v.stat {
		if t.s <= s {
			st = t.t
		}
	}
	return st
}

func (v *val) effBal(s int) uint64 {
	e := v.plan.Eff
	for _, t := range v.eff {
		if t.s <= s {
			e = t.x
		}
	}
	return uint64(e) * 1_000_000_000
}

func (v *val) credType(s int) int {
	c := v.plan.Cred
	for _, t := range v.cred {
		if t.s <= s {
			c = t.x
		}
	}
	return c
}

func (w *world) creds(v *val, s int) []byte {
	b := make([]byte, 32)
	a := w.addr(v.plan.Acct)
	switch v.credType(s) {
	case 0:
		for j := 0; j < 4; j++ {
			binary.BigEndian.PutUint64(b[j*8:], hash(7, uint64(v.idx), uint64(j)))
		}
		b[0] = 0
	case 1:
		b[0] = 1
		copy(b[12:], a[:])
	case 2:
		b[0] = 2
		copy(b[12:], a[:])
	case 3:
		b[0] = 1
		b[5] = 0xaa
		copy(b[12:], a[:])
	}
	return b
}

func (w *world) off(slot uint64) int { return int(int64(slot) - int64(w.plan.Deploy)) }

// validator gives a validator's record in the beacon state of a slot.
func (w *world) validator(v *val, s int) (*phase0.Validator, phase0.Gwei) {
	const far = phase0.Epoch(18446744073709551615)
	st := v.status(s)
	ep := phase0.Epoch((int64(w.plan.Deploy) + int64(s)) / 32)
	x := &phase0.Validator{WithdrawalCredentials: w.creds(v, s), EffectiveBalance: phase0.Gwei(v.effBal(s)), Slashed: strings.HasSuffix(st, "_slashed"), ActivationEligibilityEpoch: 90, ActivationEpoch: 100, ExitEpoch: far, WithdrawableEpoch: far}
	copy(x.PublicKey[:], v.pub)
	bal := phase0.Gwei(v.effBal(s) + 12345)
	switch st {
	case "pending_initialized":
		x.ActivationEpoch, x.ActivationEligibilityEpoch = far, far
	case "pending_queued":
		x.ActivationEpoch = far
	case "active_exiting", "active_slashed":
		x.ExitEpoch, x.WithdrawableEpoch = ep+10, ep+266
	case "exited_unslashed", "exited_slashed":
		x.ExitEpoch, x.WithdrawableEpoch = ep-10, ep+246
	case "withdrawal_possible":
		x.ExitEpoch, x.WithdrawableEpoch = ep-300, ep-44
	case "withdrawal_done":
		x.ExitEpoch, x.WithdrawableEpoch = ep-300, ep-44
		bal = 0
	}
	return x, bal
}

func (w *world) validatorJSON(v *val, s int) map[string]any {
	x, bal := w.validator(v, s)
	return map[string]any{"index": fmt.Sprint(v.idx), "balance": fmt.Sprint(uint64(bal)), "status": v.status(s), "validator": x}
}

// debugState is the beacon state as the debug endpoint serves it, in the
// oldest format there is.
func (w *world) debugState(s int) []byte {
	z := phase0.Root{}
	st := &phase0.BeaconState{GenesisTime: uint64(w.genesis.Unix()), Slot: phase0.Slot(int64(w.plan.Deploy) + int64(s)), Fork: &phase0.Fork{}, LatestBlockHeader: &phase0.BeaconBlockHeader{},
		BlockRoots: []phase0.Root{z}, StateRoots: []phase0.Root{z}, HistoricalRoots: []phase0.Root{}, ETH1Data: &phase0.ETH1Data{BlockHash: make([]byte, 32)}, ETH1DataVotes: []*phase0.ETH1Data{},
		RANDAOMixes: []phase0.Root{z}, Slashings: []phase0.Gwei{0}, PreviousEpochAttestations: []*phase0.PendingAttestation{}, CurrentEpochAttestations: []*phase0.PendingAttestation{}, JustificationBits: bitfield.NewBitvector4(),
		PreviousJustifiedCheckpoint: &phase0.Checkpoint{}, CurrentJustifiedCheckpoint: &phase0.Checkpoint{}, FinalizedCheckpoint: &phase0.Checkpoint{}}
	for _, v := range w.vals {
		if !v.known(s) {
			break
		}
		x, bal := w.validator(v, s)
		st.Validators = append(st.Validators, x)
		st.Balances = append(st.Balances, bal)
	}
	b, err := json.Marshal(st)
	if err != nil {
		panic(err)
	}
	return []byte(fmt.Sprintf(`{"version":"phase0","execution_optimistic":false,"finalized":true,"data":%s}`, b))
}

// ---- time

func (w *world) headSlot() uint64 {
	return uint64(time.Since(w.genesis) / (slotSec * time.Second))
}

func (w *world) slotTime(slot uint64) time.Time {
	return w.genesis.Add(time.Duration(slot*slotSec) * time.Second)
}

// finalized gives the slot of the block the finalized checkpoint points to
// when the head is at the given slot.
func (w *world) finalizedAt(head uint64) uint64 {
	h := w.off(head)
	for _, f := range w.plan.Fin {
		if h >= f.From && h < f.To {
			h = f.From
		}
	}
	s := uint64(int64(w.plan.Deploy) + int64(h))
	ep := s / 32
	if ep < 2 {
		return 0
	}
	b := (ep - 2) * 32
	for {
		if b < w.plan.Deploy {
			return b
		}
		if w.slot(b).blk != nil {
			return b
		}
		b--
	}
}

func (w *world) finalized() uint64 { return w.finalizedAt(w.headSlot()) }

// headBlock is the number of the latest block.
func (w *world) headBlock() uint64 { return w.slot(w.headSlot()).blkNum }

// ---- slots

func (w *world) slot(n uint64) *slotData {
	for uint64(len(w.slots))+w.plan.Deploy <= n {
		w.build()
	}
	return w.slots[n-w.plan.Deploy]
}

func (w *world) version(slot uint64) string {
	switch n := w.net; {
	case slot >= n.fulu:
		return "fulu"
	case slot >= n.electraB:
		return "electra"
	case slot >= n.deneb:
		return "deneb"
	case slot >= n.capella:
		return "capella"
	}
	return "bellatrix"
}

func gwei(n uint64) *big.Int {
	return new(big.Int).Mul(big.NewInt(int64(n)), big.NewInt(1_000_000_000))
}

func (w *world) outsider(h uint64) int {
	return len(w.plan.Vals) + int(h%uint64(w.plan.Outs))
}

func (w *world) build() {
	i := len(w.slots)
	n := w.plan.Deploy + uint64(i)
	h := hash(w.plan.Seed, 2002, uint64(i))
	sd := &slotData{n: n, prop: w.outsider(h >> 8), ops: w.opsAt[i]}
	prev := w.block0 - 1
	prevHash := common.Hash{1}
	if i > 0 {
		prev = w.slots[i-1].blkNum
		for j := i - 1; j >= 0; j-- {
			if w.slots[j].blk != nil {
				prevHash = w.slots[j].blk.header.Hash()
				break
			}
		}
	}
	missed := i > 0 && h%29 == 0
	kind := "outside"
	var pop Op
	for _, o := range sd.ops {
		if o.K == "prop" {
			pop = o
			kind = o.T
			if w.knows(uint64(o.V), i) {
				sd.prop = o.V
			}
			missed = o.T == "missed"
		}
	}
	if w.net.name == "mainnet" && n == 10400574 {
		missed, kind = false, "exception"
	}
	if missed && i == 0 {
		missed, kind = false, "outside"
	}
	in := new(big.Int)
	if i > 0 {
		in.Set(w.poolIn[i-1])
	}
	if missed {
		sd.blkNum = prev
		w.slots = append(w.slots, sd)
		w.poolIn = append(w.poolIn, in)
		return
	}
	b := &block{num: prev + 1, slot: n, time: uint64(w.slotTime(n).Unix()), version: w.version(n), poolIn: new(big.Int)}
	sd.blk, sd.blkNum = b, b.num
	w.fill(sd, i, h, kind, pop)
	w.finish(b, prevHash)
	if n == 10400574 && w.net.name == "mainnet" {
		in.Add(in, big10("177043568463114308"))
	}
	in.Add(in, b.poolIn)
	w.slots = append(w.slots, sd)
	w.poolIn = append(w.poolIn, in)
	w.byNum[b.num] = sd
	for j, t := range b.txs {
		w.byTx[t.tx.Hash()] = txAt{sd, j}
	}
}

// fill puts the transactions of the slot's plan into the block.
func (w *world) fill(sd *slotData, i int, h uint64, kind string, pop Op) {
	b := sd.blk
	b.baseFee = new(big.Int).Add(gwei((h>>16)%60), big.NewInt(int64((h>>24)%1_000_000_007)))
	if (h>>9)%11 == 0 {
		b.baseFee = big.NewInt(int64(7 + (h>>16)%100))
	}
	own := w.addr(90 + sd.prop%8)
	builder := acctBuilder + int((h>>40)%4)
	b.feeRec = w.addr(builder)
	if i == 0 {
		w.deployTx(b, h)
	}
	nf := int((h >> 44) % 3)
	if kind == "outside" && len(sd.ops) == 0 {
		nf = int((h >> 44) % 2)
	}
	seq := uint64(0)
	filler := func(k int) {
		for j := 0; j < k; j++ {
			seq++
			w.randTx(b, hash(h, 31, seq), nil)
		}
	}
	filler(nf)
	for _, o := range sd.ops {
		switch o.K {
		case "don", "sub", "unsub", "ban", "unban", "cfg":
			w.poolTx(b, i, o, hash(h, 37, seq))
			seq++
			if hash(h, 41, seq)%3 == 0 {
				filler(1)
			}
		case "fill":
			for j := 0; j < o.X; j++ {
				seq++
				w.randTx(b, hash(h, 43, seq), &o)
			}
		}
	}
	amount := big10(pop.W)
	pay := func(to common.Address, logs []*types.Log) {
		w.addTx(b, 2, builder, &to, amount, nil, hash(h, 47), new(big.Int), logs)
	}
	switch kind {
	case "outside":
		if h%3 == 0 { // the builder pays the proposer
			amount = gwei(1 + (h>>20)%90_000_000)
			pay(own, nil)
		}
	case "ok": // vanilla block to the pool
		b.feeRec = poolAddr
	case "okmev": // payment straight to the pool
		w.receive(b, w.addr(builder), amount)
		pay(poolAddr, nil)
		w.attach(b)
	case "okmevvia": // payment through a contract
		w.receive(b, w.addr(1001), amount)
		pay(w.addr(1001), nil)
		w.attach(b)
	case "okmevpool": // payment to the pool in a block whose fee recipient is the pool too
		b.feeRec = poolAddr
	case "wlmev", "wlmevvia", "wlwrong": // somebody else's transaction comes last: the whitelisted builder's, on mainnet
		to := own
		if kind == "wlmev" {
			to = poolAddr
			w.receive(b, w.addr(acctListed), amount)
		} else if kind == "wlmevvia" {
			to = w.addr(1001)
			w.receive(b, w.addr(1001), amount)
		}
		w.addTx(b, 2, acctListed, &to, amount, nil, hash(h, 47), new(big.Int), nil)
		w.attach(b)
	case "exception": // a payment the pool contract emits no event for
		w.addTx(b, 2, builder, &[]common.Address{w.addr(1003)}[0], amount, nil, hash(h, 47), new(big.Int), nil)
	case "wrong": // vanilla block to somebody else
		b.feeRec = own
		if pop.X == 1 {
			b.feeRec = w.addr(w.vals[sd.prop].plan.Acct)
		}
	case "wrongmev":
		pay(own, nil)
	case "wrongmevfee": // pool is not paid although the proposer set it as fee recipient elsewhere
		to := w.addr(w.plan.FeeAcct)
		pay(to, nil)
	case "revmev": // a payment to the pool that was reverted
		pay(poolAddr, nil)
		b.txs[len(b.txs)-1].status = 0
	case "selfsub": // the proposer's own subscription or unsubscription comes last
		b.feeRec = w.addr(w.vals[sd.prop].plan.Acct)
	case "wrongcreate": // last transaction of the fee recipient creates a contract
		w.addTx(b, 2, builder, nil, new(big.Int), nil, hash(h, 53), new(big.Int), nil)
	}
}

// deployTx puts the pool's initialize() call into the deployment block.
func (w *world) deployTx(b *block, h uint64) {
	data, err := w.pabi.Pack("initialize", w.addr(60), w.collat, big.NewInt(int64(w.plan.Fee)), w.feeAddr, w.plan.CP, uint64(w.plan.Quorum))
	if err != nil {
		panic(err)
	}
	pool := poolAddr
	switch w.plan.Init {
	case 0:
		w.addTxData(b, 2, 60, &pool, new(big.Int), nil, h, new(big.Int), nil, data)
	case 1:
		pre := make([]byte, 37+h%100)
		for i := range pre {
			pre[i] = byte(hash(h, uint64(i)))
		}
		w.addTxData(b, 2, 60, nil, new(big.Int), nil, h, new(big.Int), nil, append(pre, data...))
	}
}

var eventOf = map[string]string{"don": "EtherReceived", "sub": "SubscribeValidator", "unsub": "UnsubscribeValidator", "ban": "BanValidator", "unban": "UnbanValidator"}

func (w *world) emit(b *block, name string, kind string, e *event, args ...any) {
	ev := w.pabi.Events[name]
	data, err := ev.Inputs.Pack(args...)
	if err != nil {
		panic(err)
	}
	e.kind = kind
	e.log = &types.Log{Address: poolAddr, Topics: []common.Hash{ev.ID}, Data: data, BlockNumber: b.num, Index: uint(len(b.events))}
	b.events = append(b.events, e)
}

func (w *world) receive(b *block, from common.Address, amount *big.Int) {
	w.emit(b, "EtherReceived", "ether", &event{sender: from, amount: new(big.Int).Set(amount)}, from, amount)
	b.poolIn.Add(b.poolIn, amount)
}

// attach gives the events that have no transaction yet to the latest one.
func (w *world) attach(b *block) {
	t := b.txs[len(b.txs)-1]
	for _, e := range b.events {
		if e.log.TxHash == (common.Hash{}) {
			e.log.TxHash = t.tx.Hash()
			e.log.TxIndex = uint(len(b.txs) - 1)
			t.logs = append(t.logs, e.log)
		}
	}
}

// poolTx is a transaction to the pool contract.
func (w *world) poolTx(b *block, i int, o Op, h uint64) {
	amount := big10(o.W)
	from := o.A
	pool := poolAddr
	value := new(big.Int)
	switch o.K {
	case "don":
		a := w.addr(from)
		if o.X == 1 { // through a contract: the transaction itself carries no plain transfer
			a = w.addr(1002)
			pool = a
		}
		w.receive(b, a, amount)
		value = amount
	case "sub":
		s := w.sender(o)
		w.emit(b, "SubscribeValidator", "sub", &event{sender: s, val: uint64(o.V), amount: amount}, s, amount, uint64(o.V))
		b.poolIn.Add(b.poolIn, amount)
		value = amount
	case "unsub":
		s := w.sender(o)
		w.emit(b, "UnsubscribeValidator", "unsub", &event{sender: s, val: uint64(o.V)}, s, uint64(o.V))
	case "ban":
		w.emit(b, "BanValidator", "ban", &event{val: uint64(o.V)}, uint64(o.V))
		from = 60
	case "unban":
		w.emit(b, "UnbanValidator", "unban", &event{val: uint64(o.V)}, uint64(o.V))
		from = 60
	case "cfg":
		from = 60
		switch o.T {
		case "fee":
			w.emit(b, "UpdatePoolFee", "fee", &event{amount: big.NewInt(int64(o.X))}, big.NewInt(int64(o.X)))
		case "recipient":
			w.emit(b, "UpdatePoolFeeRecipient", "recipient", &event{addr: w.addr(o.X)}, w.addr(o.X))
		case "cp":
			w.emit(b, "UpdateCheckpointSlotSize", "cp", &event{val: uint64(o.X)}, uint64(o.X))
		case "collateral":
			w.emit(b, "UpdateSubscriptionCollateral", "collateral", &event{amount: amount}, amount)
		case "quorum":
			w.emit(b, "UpdateQuorum", "quorum", &event{}, uint64(o.X))
		}
	}
	if from == -1 && (o.K == "sub" || o.K == "unsub") && o.V < len(w.vals) && h%2 == 0 {
		from = w.vals[o.V].plan.Acct
	}
	if from < 0 || from >= 100 {
		from = 70
	}
	tip := gwei(h % 4)
	w.addTx(b, 2, from, &pool, value, nil, h, tip, nil)
	w.attach(b)
}

// sender of a (un)subscription: -1 stands for the validator's own withdrawal
// account.
func (w *world) sender(o Op) common.Address {
	if o.A == -1 {
		if o.V < len(w.vals) {
			return w.addr(w.vals[o.V].plan.Acct)
		}
		return w.addr(0)
	}
	return w.addr(o.A)
}

// randTx is a transaction that has nothing to do with the pool.
func (w *world) randTx(b *block, h uint64, o *Op) {
	typ := uint8(h % 5)
	if b.version == "bellatrix" || b.version == "capella" {
		typ = uint8(h % 3)
	} else if b.version == "deneb" {
		typ = uint8(h % 4)
	}
	if typ == 4 && h>>60 != 0 {
		typ = 2
	}
	from := 70 + int((h>>8)%10)
	var to *common.Address
	if (h>>12)%9 != 0 || typ >= 3 {
		a := w.addr(80 + int((h>>16)%10))
		to = &a
	}
	tip := gwei((h >> 20) % 5)
	tip.Add(tip, big.NewInt(int64((h>>30)%1_000_000_007)))
	if (h>>24)%4 == 0 {
		tip = new(big.Int)
	}
	w.addTx(b, typ, from, to, gwei((h>>33)%1000), nil, h, tip, nil)
}

func (w *world) addTx(b *block, typ uint8, from int, to *common.Address, value, _ *big.Int, h uint64, tip *big.Int, logs []*types.Log) {
	w.addTxData(b, typ, from, to, value, nil, h, tip, logs, nil)
}

// addTxData appends a signed transaction. tip is the priority fee per gas the
// fee recipient gets.
func (w *world) addTxData(b *block, typ uint8, from int, to *common.Address, value, _ *big.Int, h uint64, tip *big.Int, logs []*types.Log, data []byte) {
	nonce := w.nonce[from]
	w.nonce[from]++
	gas := 21000 + (h>>5)%400_000
	price := new(big.Int).Add(b.baseFee, tip)
	// The fee fields are chosen so that the effective tip is sometimes the
	// priority fee and sometimes what the fee cap leaves.
	feeCap, tipCap := new(big.Int).Set(price), new(big.Int).Set(tip)
	switch (h >> 50) % 3 {
	case 0: // cap binds
		tipCap.Add(tipCap, big.NewInt(int64((h>>40)%1000)*1_000_003))
		if tipCap.Cmp(feeCap) > 0 {
			tipCap.Set(feeCap)
		}
	case 1: // tip binds
		feeCap.Add(feeCap, big.NewInt(int64((h>>40)%100_000)*1_000_003))
	}
	cid := new(big.Int).SetUint64(w.net.chain)
	var inner types.TxData
	switch typ {
	case 0:
		inner = &types.LegacyTx{Nonce: nonce, GasPrice: price, Gas: gas + 1000, To: to, Value: value, Data: data}
	case 1:
		inner = &types.AccessListTx{ChainID: cid, Nonce: nonce, GasPrice: price, Gas: gas + 1000, To: to, Value: value, Data: data}
	case 3:
		inner = &types.BlobTx{ChainID: uint256.MustFromBig(cid), Nonce: nonce, GasTipCap: uint256.MustFromBig(tipCap), GasFeeCap: uint256.MustFromBig(feeCap), Gas: gas + 1000, To: *to, Value: uint256.MustFromBig(value), Data: data, BlobFeeCap: uint256.NewInt(1 + h%1000), BlobHashes: []common.Hash{{1}}}
	case 4:
		auth, err := types.SignSetCode(w.key(71), types.SetCodeAuthorization{ChainID: *uint256.MustFromBig(cid), Address: *to, Nonce: 1})
		if err != nil {
			panic(err)
		}
		inner = &types.SetCodeTx{ChainID: uint256.MustFromBig(cid), Nonce: nonce, GasTipCap: uint256.MustFromBig(tipCap), GasFeeCap: uint256.MustFromBig(feeCap), Gas: gas + 1000, To: *to, Value: uint256.MustFromBig(value), Data: data, AuthList: []types.SetCodeAuthorization{auth}}
	default:
		inner = &types.DynamicFeeTx{ChainID: cid, Nonce: nonce, GasTipCap: tipCap, GasFeeCap: feeCap, Gas: gas + 1000, To: to, Value: value, Data: data}
	}
	tx, err := types.SignNewTx(w.key(from), types.LatestSignerForChainID(cid), inner)
	if err != nil {
		panic(err)
	}
	st := uint64(1)
	b.txs = append(b.txs, &txn{tx: tx, from: w.addr(from), to: to, value: value, gasUsed: gas, tip: tip, status: st, logs: logs})
	b.gasUsed += gas
}

func (w *world) finish(b *block, parent common.Hash) {
	txHash := types.EmptyTxsHash
	if len(b.txs) > 0 {
		txHash = crypto.Keccak256Hash([]byte(fmt.Sprint("txs", b.num)))
	}
	if b.feeRec == poolAddr {
		for _, t := range b.txs {
			b.poolIn.Add(b.poolIn, new(big.Int).Mul(t.tip, new(big.Int).SetUint64(t.gasUsed)))
		}
	}
	b.header = &types.Header{ParentHash: parent, UncleHash: types.EmptyUncleHash, Coinbase: b.feeRec, Root: common.Hash{2}, TxHash: txHash, ReceiptHash: common.Hash{3}, Difficulty: new(big.Int), Number: new(big.Int).SetUint64(b.num), GasLimit: 30_000_000, GasUsed: b.gasUsed, Time: b.time, Extra: []byte("sim"), BaseFee: b.baseFee}
	hh := b.header.Hash()
	for _, e := range b.events {
		e.log.BlockHash = hh
	}
}

// vanilla is the sum of all priority fees of the block.
func (b *block) vanilla() *big.Int {
	s := new(big.Int)
	for _, t := range b.txs {
		s.Add(s, new(big.Int).Mul(t.tip, new(big.Int).SetUint64(t.gasUsed)))
	}
	return s
}

// consensusJSON is the signed beacon block as a beacon node serves it.
func (w *world) consensusJSON(sd *slotData) []byte {
	b := sd.blk
	if b.json != nil {
		return b.json
	}
	var raw []bellatrix.Transaction
	for _, t := range b.txs {
		x, err := t.tx.MarshalBinary()
		if err != nil {
			panic(err)
		}
		raw = append(raw, x)
	}
	if raw == nil {
		raw = []bellatrix.Transaction{}
	}
	eth1 := &phase0.ETH1Data{BlockHash: make([]byte, 32)}
	agg := &altair.SyncAggregate{SyncCommitteeBits: bitfield.NewBitvector512()}
	var baseLE [32]byte
	be := b.baseFee.FillBytes(make([]byte, 32))
	for i := range be {
		baseLE[31-i] = be[i]
	}
	bf := uint256.MustFromBig(b.baseFee)
	hh := phase0.Hash32(b.header.Hash())
	ph := phase0.Hash32(b.header.ParentHash)
	extra := []byte("sim")
	var blk any
	pi := phase0.ValidatorIndex(sd.prop)
	sl := phase0.Slot(sd.n)
	wd := []*capella.Withdrawal{{Index: 1, ValidatorIndex: 2, Amount: 3}}
	fee := bellatrix.ExecutionAddress(b.feeRec)
	switch b.version {
	case "bellatrix":
		blk = &bellatrix.SignedBeaconBlock{Message: &bellatrix.BeaconBlock{Slot: sl, ProposerIndex: pi, Body: &bellatrix.BeaconBlockBody{ETH1Data: eth1, ProposerSlashings: []*phase0.ProposerSlashing{}, AttesterSlashings: []*phase0.AttesterSlashing{}, Attestations: []*phase0.Attestation{}, Deposits: []*phase0.Deposit{}, VoluntaryExits: []*phase0.SignedVoluntaryExit{}, SyncAggregate: agg,
			ExecutionPayload: &bellatrix.ExecutionPayload{ParentHash: ph, FeeRecipient: fee, BlockNumber: b.num, GasLimit: 30_000_000, GasUsed: b.gasUsed, Timestamp: b.time, ExtraData: extra, BaseFeePerGas: baseLE, BlockHash: hh, Transactions: raw}}}}
	case "capella":
		blk = &capella.SignedBeaconBlock{Message: &capella.BeaconBlock{Slot: sl, ProposerIndex: pi, Body: &capella.BeaconBlockBody{ETH1Data: eth1, ProposerSlashings: []*phase0.ProposerSlashing{}, AttesterSlashings: []*phase0.AttesterSlashing{}, Attestations: []*phase0.Attestation{}, Deposits: []*phase0.Deposit{}, VoluntaryExits: []*phase0.SignedVoluntaryExit{}, SyncAggregate: agg, BLSToExecutionChanges: []*capella.SignedBLSToExecutionChange{},
			ExecutionPayload: &capella.ExecutionPayload{ParentHash: ph, FeeRecipient: fee, BlockNumber: b.num, GasLimit: 30_000_000, GasUsed: b.gasUsed, Timestamp: b.time, ExtraData: extra, BaseFeePerGas: baseLE, BlockHash: hh, Transactions: raw, Withdrawals: wd}}}}
	case "deneb":
		blk = &deneb.SignedBeaconBlock{Message: &deneb.BeaconBlock{Slot: sl, ProposerIndex: pi, Body: &deneb.BeaconBlockBody{ETH1Data: eth1, ProposerSlashings: []*phase0.ProposerSlashing{}, AttesterSlashings: []*phase0.AttesterSlashing{}, Attestations: []*phase0.Attestation{}, Deposits: []*phase0.Deposit{}, VoluntaryExits: []*phase0.SignedVoluntaryExit{}, SyncAggregate: agg, BLSToExecutionChanges: []*capella.SignedBLSToExecutionChange{}, BlobKZGCommitments: []deneb.KZGCommitment{},
			ExecutionPayload: &deneb.ExecutionPayload{ParentHash: ph, FeeRecipient: fee, BlockNumber: b.num, GasLimit: 30_000_000, GasUsed: b.gasUsed, Timestamp: b.time, ExtraData: extra, BaseFeePerGas: bf, BlockHash: hh, Transactions: raw, Withdrawals: wd}}}}
	default:
		blk = &electra.SignedBeaconBlock{Message: &electra.BeaconBlock{Slot: sl, ProposerIndex: pi, Body: &electra.BeaconBlockBody{ETH1Data: eth1, ProposerSlashings: []*phase0.ProposerSlashing{}, AttesterSlashings: []*electra.AttesterSlashing{}, Attestations: []*electra.Attestation{}, Deposits: []*phase0.Deposit{}, VoluntaryExits: []*phase0.SignedVoluntaryExit{}, SyncAggregate: agg, BLSToExecutionChanges: []*capella.SignedBLSToExecutionChange{}, BlobKZGCommitments: []deneb.KZGCommitment{},
			ExecutionRequests: &electra.ExecutionRequests{Deposits: []*electra.DepositRequest{}, Withdrawals: []*electra.WithdrawalRequest{}, Consolidations: []*electra.ConsolidationRequest{}},
			ExecutionPayload:  &deneb.ExecutionPayload{ParentHash: ph, FeeRecipient: fee, BlockNumber: b.num, GasLimit: 30_000_000, GasUsed: b.gasUsed, Timestamp: b.time, ExtraData: extra, BaseFeePerGas: bf, BlockHash: hh, Transactions: raw, Withdrawals: wd}}}}
	}
	x, err := json.Marshal(blk)
	if err != nil {
		panic(err)
	}
	b.json = []byte(fmt.Sprintf(`{"version":%q,"execution_optimistic":false,"finalized":true,"data":%s}`, b.version, x))
	return b.json
}

// wei values worth trying
func weiString(r *rng) string {
	switch r.n(8) {
	case 0:
		return fmt.Sprint(1 + r.n(10))
	case 1:
		return fmt.Sprint(r.n(100_000))
	case 2:
		return fmt.Sprint(9_999 + r.n(3))
	case 3:
		return new(big.Int).Add(gwei(uint64(r.n(3_000_000_000))), big.NewInt(int64(r.n(1_000_000_000)))).String()
	case 4:
		return new(big.Int).Mul(gwei(1_000_000_000), big.NewInt(int64(1+r.n(500)))).String()
	case 5:
		return "1" + strings.Repeat("0", 15+r.n(4))
	}
	return new(big.Int).Add(gwei(uint64(r.n(300_000_000))), big.NewInt(int64(r.n(1_000_000_000)))).String()
}
