package main

// What the runs of each property look like.

import (
	"fmt"

	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
)

// failFast are the failures that are known to the caller at once.
var failFast = []string{"refused", "500", "502", "503", "429", "400", "html", "rpcerror", "cut", "empty", "cutlen"}

var claimedCall = hexutil.Encode(crypto.Keccak256([]byte("claimedBalance(address)"))[:4])

func (g *gen) profile() {
	switch g.p.Prop {
	case "C01":
		g.replicas()
	case "C04":
		g.w["prop"], g.w["ban"], g.w["unban"], g.w["don"] = 70, 12, 10, 4
		g.books()
	case "C05":
		g.w["sub"], g.w["unsub"], g.w["cred"], g.w["stat"] = 45, 22, 4, 8
		g.books()
	case "C06":
		g.w["prop"], g.w["don"], g.w["fill"], g.w["sub"] = 70, 30, 8, 10
		g.books()
	case "C07":
		g.cleanups()
	case "C08":
		g.outages()
	case "C09":
		g.crashy()
	case "C10":
		g.tampering()
	case "C11", "C12":
		g.quorums()
	case "C13":
		g.proofs()
	case "C14", "C15":
		g.requests()
	case "C16":
		g.finality()
	case "C17":
		g.settings()
	case "C18":
		g.w["sub"], g.w["unsub"], g.w["don"] = 40, 25, 4
		g.views()
		if g.p01(0.4) {
			// The execution node takes its time to look for events up to the
			// head: slots are processed while a request is being answered.
			to := (g.p.Len + g.p.Settle - g.p.Start) * slotMs
			for i := g.rg(1, 2); i > 0; i-- {
				g.p.Faults = append(g.p.Faults, Fault{From: g.n(to * 2 / 3), Dur: g.rg(to/4, to), Kind: "slow", Prob: pick(&g.rng, []int{100, 60}), Match: "~head"})
			}
		}
	case "C19":
		g.views()
	default:
		g.books()
	}
}

func (g *gen) dry(i int) NodePlan {
	return NodePlan{DryRun: true, Level: pick(&g.rng, []string{"warning", "warning", "info", "debug"}), EP: pick(&g.rng, []string{"", "", "", "/key-9f", "/v404"})}
}

func (g *gen) real(i int) NodePlan {
	n := g.dry(i)
	n.DryRun = false
	return n
}

// crashes plans ends of a node's process: at operations (of about n), at
// changes to the disk (of about fs), and at times in [from, to).
func (g *gen) crashes(node, n, ops, fs, from, to int) {
	for i := 0; i < n; i++ {
		a := Act{Node: node, Kind: pick(&g.rng, []string{"kill", "kill", "kill", "power", "power", "term", "term", "int"})}
		switch x := g.n(100); {
		case x < 40 && fs > 0:
			a.FsOp = uint64(g.rg(1, fs))
		case x < 75 && ops > 0:
			a.Op = uint64(g.rg(1, ops))
		default:
			a.At = from + g.n(max(1, to-from))
		}
		if g.p01(0.3) {
			a.Dur = g.rg(1_000, 120_000)
		}
		g.p.Acts = append(g.p.Acts, a)
	}
}

func (g *gen) act(a Act) { g.p.Acts = append(g.p.Acts, a) }

const slotMs = slotSec * 1000

// small disturbances that no property of the books may notice.
func (g *gen) bother(node int) {
	p := g.p
	live := p.Start < p.Len
	to := 120_000
	if live {
		to = (p.Len - p.Start) * slotMs
	}
	if g.p01(0.5) {
		g.netFaults(node, g.rg(1, 4), 0, to, netKinds)
	}
	if g.p01(0.5) {
		g.crashes(node, g.rg(1, 3), 16*p.Len, 12*p.Len/int(p.CP)+6, 0, to)
	}
	if g.p01(0.15) {
		g.moments(node, g.rg(1, 3), g.ends)
	}
	if g.p01(0.3) {
		g.preempts(pick(&g.rng, []int{0, 5_000, 50_000}), g.n(3), 5)
	}
}

// accounting: one dry-run oracle over an eventful chain.
func (g *gen) accounting() {
	g.chain(g.rg(80, 260), 80, uint64(g.rg(7, 60)), nil)
	g.seedSub()
	g.happen(1, g.p.Len)
	g.p.Nodes = []NodePlan{g.dry(0)}
	g.p.Quorum = 1
	g.p.Poll = 45000
}

// books: the same, undisturbed or with restarts and failing nodes.
func (g *gen) books() {
	g.accounting()
	p := g.p
	if g.p01(0.5) {
		return
	}
	p.Settle = 160
	p.Catch = 700
	g.bother(0)
}

// replicas: several oracles with different fates follow the same chain.
func (g *gen) replicas() {
	l := g.rg(80, 200)
	g.chain(l, 190, uint64(g.rg(7, 60)), nil)
	g.seedSub()
	g.happen(1, l)
	p := g.p
	if g.p01(0.4) {
		p.Start = g.rg(l/3, l)
	}
	p.Quorum = 1
	n := g.rg(2, 3)
	for i := 0; i < n; i++ {
		d := g.dry(i)
		if i > 0 {
			d.Start = pick(&g.rng, []int{0, 500, 3_000, 60_000, g.n(400_000)})
			if g.p01(0.4) {
				d.Sync = "http://oracle-0:7300/state"
				d.Start += 30_000
			}
		}
		p.Nodes = append(p.Nodes, d)
	}
	p.Poll, p.Catch = 60_000, 2_000
	for i := range p.Nodes {
		if i == 0 && g.p01(0.5) {
			continue
		}
		g.bother(i)
	}
}

// cleanups: validators leave and consolidate around cleanup slots.
func (g *gen) cleanups() {
	g.w["stat"], g.w["cons"], g.w["eff"], g.w["prop"], g.w["ban"] = 14, 12, 5, 45, 6
	l, cp := g.rg(80, 240), g.rg(7, 60)
	long := g.p01(0.04)
	if long {
		// Across two or three cleanups.
		l, cp = g.rg(1300, 2900), g.rg(60, 500)
		g.busy = 0.06
	}
	g.chain(l, 160, uint64(cp), func(e era) bool { return e.slot > 6_000_000 || e.net != "mainnet" })
	p := g.p
	k := p.Deploy/1200*1200 + 1200
	if !long && k-p.Deploy > uint64(p.Len*4/5) && !(len(nets[p.Net].sched) > 0) {
		p.Deploy = k - uint64(g.rg(20, p.Len*4/5))
	}
	g.seedSub()
	g.happen(1, p.Len)
	if g.p01(0.6) {
		g.leavers()
	}
	p.Nodes = []NodePlan{g.dry(0)}
	p.Quorum = 1
	p.Poll = 45_000
	if g.p01(0.5) {
		p.Catch = 700
		// What the cleanup asks for fails.
		g.aimed(0, 0, pick(&g.rng, []int{3_000, 10_000}))
		for i := g.rg(0, 4); i > 0; i-- {
			p.Faults = append(p.Faults, Fault{From: g.n(20_000), Dur: g.rg(100, 120_000), Kind: pick(&g.rng, netKinds), Prob: pick(&g.rng, []int{100, 60, 20}), Match: pick(&g.rng, []string{"pending_consolidations", "beacon/states/", "validators"})})
		}
		if g.p01(0.5) {
			g.crashes(0, g.rg(1, 4), 16*p.Len, 12, 0, 200_000)
		}
	}
}

// halfway: a slot of a cleanup cannot be finished, because what the cleanup asks
// for fails until the oracle gives up, while others want to read or save.
func (g *gen) halfway() {
	g.w["stat"], g.w["cons"], g.w["prop"], g.w["don"] = 10, 10, 50, 15
	g.chain(g.rg(60, 160), 170, uint64(g.rg(7, 60)), func(e era) bool { return !e.at && (e.slot > 6_000_000 || e.net != "mainnet") })
	p := g.p
	c := p.Deploy/1200*1200 + 1200
	if c-p.Deploy > uint64(p.Len*4/5) && len(p.Ops) == 0 {
		p.Deploy = c - uint64(g.rg(20, p.Len*4/5))
	}
	g.seedSub()
	k := int(c - p.Deploy)
	if k < p.Len && !g.must[k] {
		g.must[k] = true
		g.add(Op{S: k, K: "prop", V: g.n(len(p.Vals)), T: "okmev", W: weiString(&g.rng)}, Op{S: k, K: "don", A: 71, W: weiString(&g.rng)})
	}
	g.happen(1, p.Len)
	g.leavers()
	p.Nodes = []NodePlan{g.dry(0)}
	p.Nodes[0].Retries = g.rg(1, 3)
	p.Quorum = 1
	p.Poll, p.Catch = 60_000, 900
	to := 30_000
	for i := g.rg(1, 2); i > 0; i-- {
		d := min(k, p.Len)*g.rg(1_500, 4_500) + g.rg(20_000, 200_000)
		to = max(to, d)
		m := pick(&g.rng, []string{"", "validators+set", "validators+set", "pending", "pending"})
		p.Faults = append(p.Faults, Fault{Dur: d, Kind: pick(&g.rng, netKinds), Prob: 100, Match: fmt.Sprintf("/states/%d/%s", c, m)})
	}
	if g.p01(0.7) {
		g.act(Act{At: 1, Kind: "disk", What: "slowlog", Dur: to + 100_000})
	}
	g.preempts(pick(&g.rng, []int{0, 1_000, 10_000}), g.rg(0, 4), 6)
	p.SyncP = pick(&g.rng, []int{5, 25, 50})
	if p.Prop == "C09" {
		for i := g.rg(1, 4); i > 0; i-- {
			g.act(Act{At: 1_000 + g.n(to), Kind: "term"})
		}
	} else {
		p.Views = g.rg(500, 8_000)
	}
	for i := g.rg(3, 30); i > 0; i-- {
		p.Reqs = append(p.Reqs, Req{At: g.n(to), Path: pick(&g.rng, []string{"/state", "/memory/feesinfo", "/memory/statistics", "/memory/allblocks", "/memory/donations"}), N: pick(&g.rng, []int{1, 5})})
	}
}

// leavers are subscribed for a while and have left, or are being merged into
// somebody else, when the next cleanup comes.
func (g *gen) leavers() {
	p := g.p
	k := int(p.Deploy/1200*1200 + 1200 - p.Deploy)
	if k < 12 || k >= p.Len {
		return
	}
	for i := g.rg(1, 3); i > 0; i-- {
		v, t := g.n(len(p.Vals)), g.n(len(p.Vals))
		if c := p.Vals[v].Cred; c == 0 || c == 3 {
			continue
		}
		s := g.rg(2, k/2)
		if !g.must[s] {
			g.add(Op{S: s, K: "prop", V: len(p.Vals), T: "outside"}, Op{S: s, K: "sub", V: v, A: -1, W: p.Collat})
		}
		g.add(Op{S: g.rg(max(s+1, k-30), k), K: "stat", V: v, T: pick(&g.rng, []string{"exited_unslashed", "exited_unslashed", "exited_slashed", "withdrawal_possible", "active_exiting"})})
		if c := p.Vals[t].Cred; t == v || c == 0 || c == 3 || g.p01(0.25) {
			continue
		}
		dup := false
		for _, o := range p.Ops {
			dup = dup || o.K == "cons" && o.V == v
		}
		if !dup {
			from := g.rg(max(s, k-60), k-1)
			g.add(Op{S: from, K: "cons", V: v, A: t, X: k - from + g.n(200)})
		}
	}
	g.credsOK()
}

// outages: the node's beacon and execution nodes fail in every way.
func (g *gen) outages() {
	l := g.rg(70, 170)
	g.w["ban"], g.w["unban"], g.w["cons"], g.w["stat"] = 8, 9, 6, 5
	g.chain(l, 330, uint64(g.rg(7, 60)), nil)
	g.seedSub()
	g.happen(1, l)
	p := g.p
	p.Nodes = []NodePlan{g.dry(0)}
	p.Nodes[0].Retries = pick(&g.rng, []int{0, 0, 0, 0, 3, 6})
	p.Quorum = 1
	p.Poll, p.Catch = 60_000, 900
	to := 60_000
	if g.p01(0.5) {
		p.Start = g.rg(l/3, l)
		to = (l - p.Start + 20) * slotMs
	}
	if g.p01(0.4) {
		// Everything is unreliable all the time.
		p.Faults = append(p.Faults, Fault{From: 0, Dur: g.rg(20_000, 300_000), Kind: pick(&g.rng, netKinds), Prob: g.rg(1, 12)},
			Fault{From: 0, Dur: g.rg(20_000, 300_000), Kind: pick(&g.rng, netKinds), Prob: g.rg(1, 12)})
	}
	g.netFaults(0, g.rg(1, 8), 0, to, netKinds)
	if g.p01(0.5) {
		g.aimed(0, 0, pick(&g.rng, []int{3_000, 10_000, to}))
		if g.p01(0.4) {
			p.Nodes[0].Retries = g.rg(2, 4)
		}
	} else if g.p01(0.3) {
		g.exhausted(0)
	}
	if g.p01(0.2) {
		g.preempts(pick(&g.rng, []int{0, 5_000, 50_000}), g.n(3), 5)
	}
	if g.p01(0.2) {
		p.Trigs = append(p.Trigs, Trig{N: g.rg(1, 20), Kind: "kill"})
	}
	if g.p01(0.25) {
		g.crashes(0, g.rg(1, 2), 16*l, 12*l/int(p.CP)+6, 0, to)
	}
}

// crashy: processes end at every possible place, disks fail.
func (g *gen) crashy() {
	if g.p01(0.1) {
		g.halfway()
		return
	}
	if g.p01(0.35) {
		g.reporters(1, 0)
	} else {
		l := g.rg(60, 180)
		g.chain(l, 170, uint64(g.rg(5, 40)), nil)
		g.seedSub()
		g.happen(1, l)
		g.p.Nodes = []NodePlan{g.dry(0)}
		g.p.Quorum = 1
		if g.p01(0.4) {
			g.p.Start = g.rg(l/3, l)
		}
	}
	p := g.p
	p.Poll, p.Catch = 60_000, 900
	to := 100_000
	if p.Start < p.Len {
		to = (p.Len - p.Start) * slotMs
	}
	for i := range p.Nodes {
		if p.Nodes[i].DryRun {
			g.crashes(i, g.rg(1, 6), 17*p.Len, 12*p.Len/int(p.CP)+6, 0, to)
		} else {
			g.crashes(i, g.rg(1, 5), 17*p.Len+3*p.Settle, 40, 0, (p.Settle-300)*slotMs)
		}
	}
	if g.p01(0.35) {
		for i := g.rg(1, 3); i > 0; i-- {
			a := Act{Kind: "disk", What: pick(&g.rng, []string{"write", "full", "full", "open", "sync", "rename", "slow", "openr", "read"}), Dur: g.rg(1_000, 200_000), Arg: pick(&g.rng, []int{0, 0, 50, 20})}
			if g.p01(0.7) {
				a.FsOp = uint64(g.rg(1, 12*p.Len/int(p.CP)+6))
			} else {
				a.At = 1 + g.n(to)
			}
			g.act(a)
			if g.p01(0.6) {
				g.act(Act{At: a.At + g.n(60_000), FsOp: a.FsOp + uint64(g.n(4)), Kind: pick(&g.rng, []string{"kill", "term", "power"})})
				if n := len(p.Acts) - 1; p.Acts[n].FsOp != 0 {
					p.Acts[n].At = 0
				}
			}
		}
	}
	if g.p01(0.2) {
		g.preempts(pick(&g.rng, []int{0, 5_000, 50_000}), g.rg(1, 3), 5)
		p.Trigs = append(p.Trigs, Trig{N: g.rg(1, 20), Kind: pick(&g.rng, []string{"kill", "term", "power"})})
	}
	if g.p01(0.4) {
		g.moments(0, g.rg(1, 4), g.ends)
	}
}

func (g *gen) ends() (string, string) {
	return "", pick(&g.rng, []string{"term", "term", "term", "kill", "power"})
}

// tampering: states that are not what was saved, and states that are.
func (g *gen) tampering() {
	l := g.rg(60, 160)
	g.chain(l, 210, uint64(g.rg(5, 40)), nil)
	g.seedSub()
	g.happen(1, l)
	p := g.p
	p.Nodes = []NodePlan{g.dry(0)}
	p.Quorum = 1
	p.Poll, p.Catch = 60_000, 900
	kinds := []string{"cut", "flip", "flip", "leaf", "leaf", "leaf", "leaf", "del", "config", "config", "config", "zeros", "null", "empty"}
	if g.p01(0.3) {
		p.Start = g.rg(l/2, l)
	}
	at := 40_000 + g.n(300_000)
	for i := g.rg(1, 4); i > 0; i-- {
		d := g.rg(60_000, 100_000)
		g.act(Act{At: at, Kind: "tamper", What: pick(&g.rng, kinds), Arg: g.n(1 << 30), Dur: d})
		at += d + g.rg(60_000, 200_000)
	}
	if g.p01(0.6) {
		n := g.dry(1)
		n.Held, n.Sync = true, "http://static/1"
		p.Nodes = append(p.Nodes, n)
		k := pick(&g.rng, kinds)
		if g.p01(0.4) {
			k = "intact"
		}
		g.act(Act{Node: 1, At: 20_000 + g.n(300_000), Kind: "publish", What: k, Arg: g.n(1<<20) * 1000, Dur: g.rg(60_000, 100_000)})
	}
}

// reporters: n oracles that report, and peers, from a standing start: all
// checkpoints are finalized already and follow one after the other.
func (g *gen) reporters(n, peers int) {
	l := g.rg(60, 140)
	k := g.rg(1, 4)
	cp := max(16, l/(k+1))
	g.chain(l, 120+110*(k+1), uint64(cp), nil)
	p := g.p
	g.seedSub()
	if g.p01(0.3) {
		// Nothing happens later on: checkpoints share their root.
		g.happen(1, g.rg(5, cp+10))
	} else {
		g.happen(1, l)
	}
	for i := 0; i < n; i++ {
		d := g.real(i)
		if i > 0 {
			d.Start = pick(&g.rng, []int{0, 0, 10_000, g.n(600_000)})
		}
		p.Nodes = append(p.Nodes, d)
	}
	honest, wrong := 0, 0
	for i := 0; i < peers; i++ {
		q := PeerPlan{Delay: g.rg(30, 1000), Kind: pick(&g.rng, []string{"honest", "honest", "honest", "wrong", "silent"})}
		if q.Kind == "honest" {
			honest++
		} else if q.Kind == "wrong" {
			wrong++
		}
		p.Peers = append(p.Peers, q)
	}
	p.Quorum = g.rg(1, n+honest)
	if p.Quorum <= wrong && p.Prop != "C13" {
		p.Quorum = n + honest
	}
	if p.Quorum <= wrong && p.Prop != "C13" {
		for i := range p.Peers {
			if p.Peers[i].Kind == "wrong" {
				p.Peers[i].Kind = "silent"
			}
		}
	}
	p.Poll, p.Catch = 61_000, 5_000
	if g.p01(0.5) {
		// A live chain with checkpoints far enough apart.
		p.CP = uint64(g.rg(125, 170))
		p.Len = int(p.CP)*g.rg(1, 2) + g.rg(5, 60)
		p.Start = g.rg(10, 70)
		p.Settle = 260
		g.busy = 0.2
		g.happen(l, p.Len)
	}
}

// lateness: one of the others, whose vote is needed, reports hours later.
func (g *gen) lateness(n int) {
	p := g.p
	late, honest := -1, 0
	for i := range p.Peers {
		switch p.Peers[i].Kind {
		case "honest":
			honest++
			late = i
		case "wrong":
			p.Peers[i].Kind = "silent"
		}
	}
	if late < 0 {
		p.Peers = append(p.Peers, PeerPlan{Kind: "honest"})
		late, honest = len(p.Peers)-1, 1
	}
	p.Peers[late].Delay = g.rg(3_600, 7_000)
	p.Quorum = n + honest
	p.Settle += min(p.Len/int(p.CP), 2) * (p.Peers[late].Delay + 1400) / 12
}

// quorums: oracles race for checkpoints while transactions, processes and
// nodes fail.
func (g *gen) quorums() {
	n := g.rg(1, 3)
	g.reporters(n, g.n(4))
	p := g.p
	if p.Prop == "C11" && g.p01(0.08) {
		cp := int(p.CP)
		p.Off = pick(&g.rng, []int{-cp, -cp, -2 * cp, cp, cp, 1, -1, -cp / 2, 2 - cp})
	}
	if g.p01(0.35) {
		g.quorumChanges()
	} else if g.p01(0.25) {
		g.lateness(n)
		if g.p01(0.6) {
			return // nothing else brings the oracles back into step
		}
	}
	to := (p.Len - p.Start + p.Settle/2) * slotMs
	if g.p01(0.35) {
		for i := g.rg(1, 2); i > 0; i-- {
			p.TxFates = append(p.TxFates, TxFate{N: g.rg(1, 4), Kind: pick(&g.rng, []string{"delay", "delay", "drop", "revert", "revert", "lostreply"}), Arg: g.rg(1, 100)})
			p.Settle += 500
		}
	}
	if g.p01(0.2) {
		d := g.dry(len(p.Nodes))
		p.Nodes = append(p.Nodes, d)
	}
	for i := range p.Nodes {
		if g.p01(0.5) {
			g.crashes(i, g.rg(1, 3), 17*p.Len+3*p.Settle, 40, 0, to)
			p.Settle += 30
		}
		if g.p01(0.3) {
			g.moments(i, g.rg(1, 3), g.ends)
			p.Settle += 30
		}
		if g.p01(0.25) {
			g.netFaults(i, g.rg(1, 3), 0, to, append([]string{"null"}, netKinds...))
			p.Settle += 60
		}
		if g.p01(0.15) {
			g.act(Act{Node: i, At: g.n(to), Kind: "stall", Dur: g.rg(10_000, 400_000)})
			p.Settle += 60
		}
	}
}

// quorumChanges: the quorum is raised and lowered, also to votes already cast,
// while oracles that voted restart.
func (g *gen) quorumChanges() {
	p := g.p
	if g.p01(0.5) {
		p.Peers = append(p.Peers, PeerPlan{Kind: "honest", Delay: g.rg(30, 1000)})
	}
	voters, wrong := len(p.Nodes), 0
	for _, q := range p.Peers {
		if q.Kind == "honest" {
			voters++
		} else if q.Kind == "wrong" {
			wrong++
		}
	}
	if wrong >= voters {
		return
	}
	if p.Quorum <= wrong {
		p.Quorum = g.rg(wrong+1, voters)
	}
	if g.p01(0.6) && voters > 1 && wrong < voters-1 {
		// One vote keeps everybody waiting.
		p.Quorum = voters
		for i := range p.Peers {
			if p.Peers[i].Kind == "honest" {
				p.Peers[i].Delay = g.rg(1200, 3600)
				p.Settle += 200
				break
			}
		}
		s := p.Start + g.rg(5, 250)
		g.add(Op{S: s, K: "quorum", X: g.rg(wrong+1, voters-1)})
		for i := range p.Nodes {
			for k := g.rg(0, 2); k > 0; k-- {
				a := Act{Node: i, At: (s-p.Start)*slotMs + g.rg(1_000, 1_500_000), Kind: pick(&g.rng, []string{"kill", "term", "power"})}
				if g.p01(0.3) {
					a.At = g.rg(1_000, 3_600_000)
				}
				g.act(a)
				p.Settle += 30
			}
		}
	}
	for i := g.n(3); i > 0; i-- {
		g.add(Op{S: g.rg(p.Start, p.Start+600), K: "quorum", X: g.rg(wrong+1, voters)})
	}
}

// proofs: checkpoints are consolidated, rewards claimed, proofs asked for.
func (g *gen) proofs() {
	n := g.rg(1, 2)
	g.reporters(n, g.n(3))
	p := g.p
	p.Views = g.rg(4_000, 20_000)
	for i := g.rg(2, 14); i > 0; i-- {
		g.add(Op{S: g.rg(p.Start, p.Len+p.Settle-20), K: "claim", A: pick(&g.rng, []int{g.n(10), g.n(10), p.FeeAcct})})
	}
	if g.p01(0.5) {
		g.crashes(0, g.rg(1, 3), 17*p.Len+3*p.Settle, 40, 0, (p.Len-p.Start+p.Settle/2)*slotMs)
		p.Settle += 60
	}
	p.Sweep = true
}

var apiPaths = []string{"/status", "/config", "/relayers", "/state", "/memory/validators", "/memory/allblocks", "/memory/proposedblocks", "/memory/missedblocks", "/memory/wrongfeeblocks", "/memory/donations", "/memory/feesinfo", "/memory/statistics"}

// requests: the API is used at every moment of processing.
func (g *gen) requests() {
	if g.p01(0.12) {
		g.halfway()
		return
	}
	if g.p01(0.3) {
		g.reporters(1, g.n(2))
	} else {
		l := g.rg(60, 180)
		g.chain(l, 110, uint64(g.rg(5, 40)), nil)
		g.seedSub()
		g.happen(1, l)
		g.p.Nodes = []NodePlan{g.dry(0)}
		g.p.Quorum = 1
		if g.p01(0.5) {
			g.p.Start = g.rg(l/3, l)
		}
	}
	p := g.p
	p.Poll, p.Catch = 60_000, 400
	p.Views = g.rg(500, 8_000)
	if p.Start < p.Len || !p.Nodes[0].DryRun {
		p.Views += 5_000
		p.Catch = 1_000
	}
	path := func() string {
		if g.p01(0.35) {
			return "/state"
		}
		return fmt.Sprint("?", g.n(1<<20)) // some path of viewPath
	}
	g.preempts(pick(&g.rng, []int{0, 1_000, 10_000, 50_000}), g.rg(2, 10), 6)
	for i := g.rg(10, 60); i > 0; i-- {
		p.Trigs = append(p.Trigs, Trig{N: g.rg(1, 150), Path: path()})
	}
	to := 40_000
	if p.Start < p.Len {
		to = (p.Len - p.Start) * slotMs
	}
	if g.p01(0.5) {
		g.moments(0, g.rg(2, 12), func() (string, string) { return path(), "" })
	}
	for i := g.rg(0, 4); i > 0; i-- {
		p.Reqs = append(p.Reqs, Req{At: g.n(to), Path: path(), N: pick(&g.rng, []int{1, 5, 30})})
	}
	if g.p01(0.25) {
		g.netFaults(0, g.rg(1, 3), 0, to, netKinds)
		p.Settle += 80
	}
	if g.p01(0.2) {
		// Calls that only requests need fail at once, for long.
		p.Faults = append(p.Faults, Fault{From: g.n(to), Dur: g.rg(600_000, 3_000_000), Kind: pick(&g.rng, failFast), Prob: pick(&g.rng, []int{100, 100, 40}), Match: pick(&g.rng, []string{claimedCall, claimedCall, "relay:"})})
	}
	if g.p01(0.25) {
		g.crashes(0, g.rg(1, 2), 17*p.Len, 12*p.Len/int(p.CP)+6, 0, to)
		p.Settle += 40
	}
}

// finality: it stalls, jumps and seems to go back; nodes fall out of sync;
// clocks jump.
func (g *gen) finality() {
	l := g.rg(120, 260)
	g.chain(l, 260, uint64(g.rg(7, 60)), nil)
	g.seedSub()
	g.happen(1, l)
	p := g.p
	p.Nodes = []NodePlan{g.dry(0)}
	if g.p01(0.3) {
		p.Nodes = []NodePlan{g.real(0)}
		p.Settle += 120
	}
	p.Quorum = 1
	p.Start = g.rg(10, l*2/3)
	p.Poll, p.Catch = 60_000, 3_000
	to := (l - p.Start) * slotMs
	for i := g.rg(0, 2); i > 0; i-- {
		a := g.rg(p.Start, l)
		p.Fin = append(p.Fin, FinPlan{From: a, To: min(a+g.rg(5, 150), l+20)})
	}
	g.netFaults(0, g.rg(1, 5), 0, to, syncKinds)
	for i := range p.Faults {
		p.Faults[i].Match = ""
		p.Faults[i].Dur = max(p.Faults[i].Dur, 20_000)
		g.behind(&p.Faults[i])
	}
	if g.p01(0.4) {
		g.act(Act{At: g.n(to), Kind: "skew", Arg: pick(&g.rng, []int{-1, 1}) * pick(&g.rng, []int{1_000, 60_000, 5 * 3_600_000, 400 * 24 * 3_600_000})})
	}
	if g.p01(0.3) {
		g.netFaults(0, g.rg(1, 2), 0, to, netKinds)
	}
	if g.p01(0.5) {
		g.crashes(0, g.rg(1, 4), 17*l, 12*l/int(p.CP)+6, 0, to)
	}
	if g.p01(0.2) {
		g.act(Act{At: g.n(to), Kind: "stall", Dur: g.rg(5_000, 400_000)})
	}
}

var syncKinds = []string{"syncing", "elsyncing", "near", "oldfinal", "oldfinal", "syncing", "elsyncing"}

// behind: how far a node that is behind says it is.
func (g *gen) behind(f *Fault) {
	switch f.Kind {
	case "syncing":
		f.Arg = pick(&g.rng, []int{6, 7, 20, 100, 3000})
	case "elsyncing":
		f.Arg = pick(&g.rng, []int{0, 1, 2, 4, 7, 33, 500})
	case "near":
		f.Arg = g.rg(1, 5)
	}
}

// settings: planned fee changes and unexpected ones.
func (g *gen) settings() {
	if g.p01(0.5) {
		g.planned()
		return
	}
	l := g.rg(100, 220)
	var sched func(era) bool
	if g.p01(0.4) {
		sched = g.scheduled
	}
	g.chain(l, 200, uint64(g.rg(7, 60)), sched)
	p := g.p
	p.Start = g.rg(15, l/2)
	at := g.rg(p.Start+12, l-5)
	if g.p01(0.25) {
		at = p.Start + 12 + g.n(40)
	}
	plannedAt := -1
	for i := range p.Ops {
		if o := &p.Ops[i]; o.K == "cfg" && o.T == "fee" {
			plannedAt = o.S
			if o.S > 25 {
				p.Start = min(p.Start, o.S-g.rg(12, 20))
				at = o.S
			}
			if o.S > 25 && g.p01(0.4) {
				// Not quite what was planned.
				switch g.n(4) {
				case 0:
					o.X += pick(&g.rng, []int{-1, 1, 200, -500})
				case 1:
					o.S++
					g.must[o.S] = true
					p.Ops = append(p.Ops, Op{S: o.S, K: "prop", V: len(p.Vals), T: "outside"})
				case 2:
					o.S--
					g.must[o.S] = true
					p.Ops = append(p.Ops, Op{S: o.S, K: "prop", V: len(p.Vals), T: "outside"})
				case 3:
					p.Ops = append(p.Ops, *o)
				}
			}
			break
		}
	}
	t := pick(&g.rng, []string{"fee", "recipient", "cp", "collateral"})
	if at == plannedAt && g.p01(0.8) {
		t = pick(&g.rng, []string{"recipient", "cp", "collateral"})
	}
	o := Op{S: at, K: "cfg", T: t}
	switch t {
	case "fee":
		o.X = pick(&g.rng, []int{p.Fee, g.n(10001), (p.Fee + 1) % 10001, 0})
	case "recipient":
		o.X = pick(&g.rng, []int{p.FeeAcct, 96, g.n(10), 97})
	case "cp":
		o.X = pick(&g.rng, []int{int(p.CP), int(p.CP) + 1, g.rg(1, 200)})
	case "collateral":
		o.W = pick(&g.rng, []string{p.Collat, g.collat(p.Collat, 1), "5"})
	}
	add := func(x Op) {
		if !g.must[x.S] {
			g.add(Op{S: x.S, K: "prop", V: len(p.Vals), T: "outside"})
			g.must[x.S] = true
		}
		g.add(x)
	}
	add(o)
	for g.p01(0.25) {
		// More of it in the same block.
		x := o
		x.T = pick(&g.rng, []string{"fee", "recipient", "cp", "collateral"})
		switch x.T {
		case "fee":
			x.X = g.n(10001)
		case "recipient":
			x.X = pick(&g.rng, []int{p.FeeAcct, 96})
		case "cp":
			x.X = pick(&g.rng, []int{int(p.CP), int(p.CP) + 7})
		case "collateral":
			x.W = pick(&g.rng, []string{p.Collat, g.collat(p.Collat, 7)})
		}
		add(x)
	}
	if t == "collateral" && g.p01(0.3) || t == "recipient" && g.p01(0.3) || t == "cp" && g.p01(0.3) {
		// The value it has, and the change some slots later.
		same := o
		switch t {
		case "recipient":
			same.X = p.FeeAcct
		case "cp":
			same.X = int(p.CP)
		case "collateral":
			same.W = p.Collat
		}
		same.S = max(p.Start+8, at-g.rg(0, 20))
		add(same)
	}
	g.seedSub()
	g.happen(1, l)
	p.Nodes = []NodePlan{g.dry(0)}
	if g.p01(0.3) {
		p.Nodes = append(p.Nodes, g.dry(1))
	}
	p.Quorum = 1
	p.Poll, p.Catch = 45_000, 1_000
	for i := range p.Nodes {
		if g.p01(0.5) {
			g.crashes(i, g.rg(1, 3), 0, 0, (at-p.Start-6)*slotMs, (l+100-p.Start)*slotMs)
		}
	}
}

// scheduled eras have a planned change of the fee.
func (g *gen) scheduled(e era) bool {
	_, ok := nets[e.net].sched[e.slot]
	return ok && e.at
}

// planned: oracles cross a planned change of the fee, live, restarted, rolled
// back, or from a state of another oracle.
func (g *gen) planned() {
	l := g.rg(70, 150)
	cp := g.rg(12, 40)
	settle := 200 + 110*(l/cp+1)
	real := g.p01(0.5)
	if !real {
		settle = 200
	}
	g.chain(l, settle, uint64(cp), g.scheduled)
	p := g.p
	g.seedSub()
	g.happen(1, l)
	if g.p01(0.4) {
		p.Start = g.rg(10, l)
	}
	if real {
		p.Nodes = []NodePlan{g.real(0)}
		if p.Start < l {
			p.CP = uint64(max(cp, 125))
			p.Settle = 400
		}
		for _, o := range p.Ops {
			if o.K == "cfg" && o.T == "fee" && g.p01(0.5) {
				// The first checkpoint comes after the change, and the oracle
				// ends while it waits to report it.
				p.CP = uint64(min(o.S+g.rg(1, 25), l-1))
				for i := g.rg(1, 2); i > 0; i-- {
					g.act(Act{At: max(0, int(p.CP)-p.Start)*slotMs + g.rg(15_000, 900_000), Kind: pick(&g.rng, []string{"term", "term", "int", "kill"})})
				}
				g.moments(0, g.n(3), g.ends)
				break
			}
		}
	} else {
		p.Nodes = []NodePlan{g.dry(0)}
		if g.p01(0.5) {
			n := g.dry(1)
			n.Start = g.n(200_000)
			if g.p01(0.5) {
				n.Sync = "http://oracle-0:7300/state"
				n.Start += 30_000
			}
			p.Nodes = append(p.Nodes, n)
		}
	}
	p.Quorum = 1
	p.Poll, p.Catch = 60_000, 900
	to := 100_000
	if real || p.Start < l {
		to = (p.Settle - 250 + l - p.Start) * slotMs
	}
	for i := range p.Nodes {
		if g.p01(0.75) {
			n := len(p.Acts)
			g.crashes(i, g.rg(1, 4), 17*l, 12*l/cp+6, 0, to)
			for j := n; j < len(p.Acts); j++ {
				if g.p01(0.4) {
					p.Acts[j].Kind = "term"
				}
			}
		}
	}
}

// views: one dry-run oracle that follows a live chain while its endpoints are
// asked all the time.
func (g *gen) views() {
	l := g.rg(150, 300)
	g.chain(l, 110, uint64(g.rg(20, 70)), nil)
	g.seedSub()
	g.happen(1, l)
	p := g.p
	p.Nodes = []NodePlan{g.dry(0)}
	p.Quorum = 1
	p.Start = g.rg(10, l*2/3)
	p.Poll, p.Catch = 97_000, 5_000
	p.Views = g.rg(3_000, 20_000)
	p.Sweep = true
	if g.p01(0.35) {
		to := (l - p.Start) * slotMs
		if g.p01(0.6) {
			g.netFaults(0, g.rg(1, 3), 0, to, append([]string{"oldfinal", "oldfinal"}, netKinds...))
			p.Settle += 60
		}
		if g.p01(0.4) {
			n := len(p.Faults)
			g.netFaults(0, g.rg(1, 3), 0, to, syncKinds)
			for i := n; i < len(p.Faults); i++ {
				p.Faults[i].Match, p.Faults[i].Prob = "", 100
				g.behind(&p.Faults[i])
			}
			p.Settle += 60
		}
		if g.p01(0.5) {
			g.crashes(0, g.rg(1, 3), 16*l, 12*l/int(p.CP)+6, 0, to)
			p.Settle += 30
		}
		if g.p01(0.4) {
			a := g.rg(p.Start, l)
			p.Fin = append(p.Fin, FinPlan{From: a, To: min(a+g.rg(5, 100), l+10)})
		}
	}
}
