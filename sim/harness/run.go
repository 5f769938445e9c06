package main

// One simulated run, in a process of its own.

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/google/uuid"
	"math/big"
)

type result struct {
	Log    uint64         `json:"log"`
	Events uint64         `json:"events"`
	Viol   []violation    `json:"viol,omitempty"`
	Counts map[string]int `json:"counts"`
	Odd    map[string]int `json:"odd"`
	Flows  []string       `json:"flows"`
	Kinds  []uint64       `json:"kinds,omitempty"`
	Pre    uint64         `json:"pre"`
	PreSum float64        `json:"pre_s"`
	Checks int            `json:"checks"`
	Views  int            `json:"views"`
	Sim    float64        `json:"sim_s"`
	Wall   float64        `json:"wall_s"`
	Consol int            `json:"consolidations"`
	Slots  uint64         `json:"slots"`
	Halted string         `json:"halted,omitempty"`
	Trace  []string       `json:"trace,omitempty"`
	Crash  string         `json:"crash,omitempty"`
	MaxFs  uint64         `json:"max_fs"`
	MaxOps uint64         `json:"max_ops"`
	Heap   uint64         `json:"heap"`
	Plan   map[string]any `json:"plan_summary"`
}

// TestSim runs the plan in the file VSIM_PLAN.
func TestSim(t *testing.T) {
	if os.Getenv("VSIM_ROLE") != "worker" {
		t.Skip()
	}
	p := &Plan{}
	if f := os.Getenv("VSIM_PLAN"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, p); err != nil {
			panic(err)
		}
	} else {
		p = planOf(os.Getenv("VSIM_PROP"), os.Getenv("VSIM_SEED"))
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(int64(memMB()) << 20)
	wall := time.Now()
	var res *result
	synctest.Test(t, func(t *testing.T) {
		res = simulate(p)
		res.Wall = 0
		out(res, wall)
	})
}

// memMB is when to start collecting garbage. The race detector keeps shadow
// memory for all that was ever in use.
func memMB() int {
	n, _ := strconv.Atoi(os.Getenv("VSIM_MEM"))
	if n <= 0 {
		n = 2500
	}
	return n
}

func out(res *result, wall time.Time) {
	// The bubble's clock is not the real one; the driver measures real time.
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(os.Getenv("VSIM_OUT"), b, 0o644); err != nil {
		panic(err)
	}
	os.Exit(0)
}

func keystoreFile(w *world, i int) []byte {
	k := w.key(acctOracle0 + i)
	key := &keystore.Key{Id: uuid.UUID{1, byte(i)}, Address: w.addr(acctOracle0 + i), PrivateKey: k}
	b, err := keystore.EncryptKey(key, "pw", 2, 1)
	if err != nil {
		panic(err)
	}
	return b
}

func simulate(p *Plan) *result {
	e := &engine{plan: p, t0: time.Now(), counts: newTable[string, int](hashStr), trigs: map[uint64][]Trig{}, kinds: newTable[uint64, bool](func(k uint64) uint64 { return k }), static: map[string][]byte{}}
	e.traceOn = os.Getenv("VSIM_TRACE") != ""
	e.live = os.Getenv("VSIM_TRACE") == "live"
	eng = e
	runtime.SimSeed(hash(p.Seed, 5))
	for _, t := range p.Trigs {
		e.trigs[uint64(t.N)] = append(e.trigs[uint64(t.N)], t)
	}
	theWorld = newWorld(p)
	theWorld.ctr = newContract(theWorld)
	theRef = newRef(theWorld)
	end := p.Deploy + uint64(p.Len+p.Settle)
	theRef.at(end)
	for s := 1; s < len(theRef.snaps); s++ {
		if theRef.snaps[s].in.Cmp(theWorld.poolIn[s-1]) != 0 {
			panic(fmt.Sprintf("harness: reference credits %v at offset %d, the chain %v", theRef.snaps[s].in, s-1, theWorld.poolIn[s-1]))
		}
	}
	c := theWorld.ctr
	c.last = p.Deploy
	if len(theRef.commits) > 0 {
		c.last = theRef.commits[0].Slot - p.CP
	}
	c.last = uint64(int(c.last) + p.Off)
	c.init = c.last
	for i := range p.Nodes {
		h := &host{id: i, name: fmt.Sprint("node-", i), cfg: p.Nodes[i]}
		h.fs = newVFS(h)
		in := &inode{data: keystoreFile(theWorld, i)}
		in.synced = in.data
		h.fs.files["keystore.json"] = in
		h.fs.durable["keystore.json"] = in
		e.hosts = append(e.hosts, h)
	}
	e.install()
	go e.janitor()
	for _, h := range e.hosts {
		if h.cfg.Held {
			h.held = true
			continue
		}
		go func() {
			time.Sleep(time.Duration(h.cfg.Start) * time.Millisecond)
			e.start(h)
		}()
	}
	for i := range p.Peers {
		go e.peer(i)
	}
	for i := range p.Acts {
		a := &p.Acts[i]
		if a.Op == 0 && a.FsOp == 0 {
			go func() {
				time.Sleep(time.Duration(a.At) * time.Millisecond)
				e.act(a)
			}()
		}
	}
	for i := range p.Reqs {
		r := &p.Reqs[i]
		go func() {
			time.Sleep(time.Duration(r.At) * time.Millisecond)
			n := r.N
			if n == 0 {
				n = 1
			}
			for j := 0; j < n; j++ {
				go probe(e.hosts[r.Node], r.Path)
			}
		}()
	}
	for _, o := range p.Ops {
		if o.K == "claim" && o.S > p.Start {
			go func() {
				time.Sleep(time.Until(theWorld.slotTime(p.Deploy + uint64(o.S))))
				c.claim(theWorld.addr(o.A))
			}()
		}
	}
	for _, o := range p.Ops {
		if o.K == "quorum" {
			go func() {
				time.Sleep(time.Until(theWorld.slotTime(p.Deploy + uint64(o.S))))
				c.quorumN = uint64(o.X)
				e.count("quorum changed")
			}()
		}
	}
	if p.Poll > 0 {
		for _, h := range e.hosts {
			go func() {
				time.Sleep(time.Duration(h.id) * 777 * time.Millisecond)
				for {
					d := time.Duration(p.Poll)
					if q := h.proc; q != nil && p.Catch > 0 && q.lastState != nil && q.lastState.Slot < q.maxFin {
						d = time.Duration(p.Catch)
					}
					time.Sleep(d * time.Millisecond)
					q := h.proc
					if q == nil || q.dead || q.hung || q.servers[":7300"] == nil {
						continue
					}
					// Nothing processed since the last look: look rarely.
					if q.nreq == q.polledReq && e.now()-q.polledAt < time.Duration(p.Poll)*time.Millisecond {
						continue
					}
					q.polledReq, q.polledAt = q.nreq, e.now()
					poll(h)
				}
			}()
		}
	}
	if p.Views > 0 {
		for _, h := range e.hosts {
			go func() {
				time.Sleep(time.Duration(h.id) * 333 * time.Millisecond)
				for n := uint64(h.id) << 32; ; n++ {
					time.Sleep(time.Duration(p.Views) * time.Millisecond)
					if h.proc != nil && !h.proc.dead && !h.proc.hung && h.proc.servers[":7300"] != nil {
						checkView(h, viewPath(n))
					}
				}
			}()
		}
	}
	for raceBuild && !e.hosts[0].stopped && time.Until(theWorld.slotTime(end)) > time.Minute {
		time.Sleep(30 * time.Second)
	}
	if !raceBuild || !e.hosts[0].stopped {
		time.Sleep(time.Until(theWorld.slotTime(end)))
		e.finalChecks()
	}
	r := &result{Log: e.log, Events: e.nlog, Viol: e.viol, Counts: e.counts.all(), Odd: theRef.odd, Pre: e.pre, PreSum: e.preSum.Seconds(), Checks: e.checks, Views: e.views, Sim: e.now().Seconds(), Consol: len(c.hist), Trace: e.trace, Halted: theRef.why}
	for k := range theRef.flows {
		r.Flows = append(r.Flows, k)
	}
	sort.Strings(r.Flows)
	for k := range e.kinds.all() {
		r.Kinds = append(r.Kinds, k)
	}
	sort.Slice(r.Kinds, func(i, j int) bool { return r.Kinds[i] < r.Kinds[j] })
	for _, h := range e.hosts {
		if h.maxReq > p.Deploy {
			r.Slots += h.maxReq - p.Deploy
		}
		if h.fsOps > r.MaxFs {
			r.MaxFs = h.fsOps
		}
		if h.ops > r.MaxOps {
			r.MaxOps = h.ops
		}
	}
	r.Plan = map[string]any{"net": p.Net, "deploy": p.Deploy, "slots": p.Len, "settle": p.Settle, "cp": p.CP, "fee": p.Fee, "validators": len(p.Vals), "ops": len(p.Ops), "nodes": len(p.Nodes), "peers": len(p.Peers), "quorum": p.Quorum,
		"faults": len(p.Faults), "acts": len(p.Acts), "reqs": len(p.Reqs), "trigs": len(p.Trigs), "moments": len(p.Moments), "sites": len(p.Sites), "tx_fates": len(p.TxFates), "pre_mean": p.PreMean}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	r.Heap = ms.HeapAlloc >> 20
	return r
}

// claim takes what a withdrawal address can claim from the consolidated root.
func (c *contractSim) claim(a common.Address) {
	cm := theRef.committed(c.last)
	if cm == nil || common.HexToHash(cm.Root) != c.root {
		return
	}
	l, ok := cm.Leafs[strings.ToLower(a.Hex())]
	if !ok {
		return
	}
	n := c.w.headBlock() + 1
	x := new(big.Int).Sub(l.Bal, c.claimedAt(a, n))
	if x.Sign() <= 0 {
		return
	}
	c.claims = append(c.claims, claim{n, a, x})
	eng.count("claim")
}

// peer is another oracle of the pool, run by somebody else.
func (e *engine) peer(i int) {
	p := e.plan.Peers[i]
	wd := w()
	c := wd.ctr
	from := wd.addr(acctOracle0 + 10 + i)
	if p.Kind == "silent" {
		return
	}
	for _, cm := range theRef.commits {
		if cm.Slot <= c.init {
			continue
		}
		for wd.finalized() < cm.Slot {
			time.Sleep(slotSec * time.Second)
		}
		time.Sleep(time.Duration(p.Delay)*time.Second + time.Duration(hash(e.plan.Seed, 61, uint64(i), cm.Slot)%60_000)*time.Millisecond)
		root := common.HexToHash(cm.Root)
		if p.Kind == "wrong" {
			root[3] ^= 1
		}
		for c.last < cm.Slot {
			if c.vote(from, cm.Slot, root) {
				e.ev(nil, "peer", fmt.Sprint(i, cm.Slot))
				break
			}
			time.Sleep(slotSec * time.Second)
		}
	}
}
