package main

// Plans from seeds: what each property's runs look like.

import (
	"math/big"
	"sort"
	"time"
)

type era struct {
	net  string
	slot uint64 // of interest: the run goes across it
	at   bool   // true: cross it; false: somewhere after it
}

var eras = []era{
	{"mainnet", 5_000_000, false},
	{"mainnet", 6_209_536, true},
	{"mainnet", 6_300_000, false},
	{"mainnet", 8_626_176, true},
	{"mainnet", 10_188_220, true},
	{"mainnet", 10_188_220, true},
	{"mainnet", 10_400_574, true},
	{"mainnet", 10_500_000, false},
	{"mainnet", 11_649_024, true},
	{"mainnet", 11_649_024, true},
	{"mainnet", 12_000_000, false},
	{"mainnet", 12_000_000, false},
	{"mainnet", 13_164_544, true},
	{"mainnet", 13_500_000, false},
	{"mainnet", 14_082_460, true},
	{"mainnet", 14_300_000, false},
	{"holesky", 2_720_632, true},
	{"holesky", 3_000_000, false},
	{"hoodi", 65_536, true},
	{"hoodi", 500_000, false},
	{"hoodi", 2_801_050, true},
	{"hoodi", 2_900_000, false},
}

type gen struct {
	rng
	p     *Plan
	w     map[string]int // weights of chain happenings
	busy  float64
	sites int
	start int // first slot offset with happenings
	must  map[int]bool
}

func newGen(prop string, seed uint64) *gen {
	g := &gen{rng: rng{hash(seed, hashStr(prop))}, sites: zzSimSites, must: map[int]bool{}}
	g.p = &Plan{Prop: prop, Seed: seed, LatMax: 4}
	g.w = map[string]int{"prop": 40, "don": 12, "sub": 22, "unsub": 6, "ban": 4, "unban": 3, "fill": 4, "stat": 3, "eff": 3, "cred": 1, "cons": 3}
	g.busy = 0.35
	return g
}

// chain fills in network, era, validators and contract settings.
func (g *gen) chain(l, settle int, cp uint64, want func(era) bool) {
	p := g.p
	var es []era
	for _, e := range eras {
		if want == nil || want(e) {
			es = append(es, e)
		}
	}
	e := pick(&g.rng, es)
	p.Net = e.net
	n := nets[p.Net]
	p.Len, p.Settle, p.CP = l, settle, cp
	if e.at {
		p.Deploy = e.slot - uint64(g.rg(5, l*2/3))
	} else {
		p.Deploy = e.slot + uint64(g.n(1_000_000)%40_000)
		// A cleanup slot falls into most runs.
		if g.p01(0.8) {
			p.Deploy = p.Deploy/1200*1200 + 1200 - uint64(g.rg(5, min(l*3/4, 1100)))
		}
	}
	if e.at && g.p01(0.3) && e.slot != 10_400_574 && len(n.sched) == 0 {
		k := p.Deploy/1200*1200 + 1200
		if k-p.Deploy > uint64(l*3/4) {
			p.Deploy = k - uint64(g.rg(5, l*3/4))
		}
	}
	p.Fee = pick(&g.rng, []int{0, 1, 500, 700, 1000, 1000, 2500, 9999, 10000, g.n(10001)})
	p.Init = g.n(2)
	if n.defFee != 0 && g.p01(0.2) {
		p.Init, p.Fee = 2, n.defFee
	}
	p.Collat = pick(&g.rng, []string{"10000000000000000", "10000000000000000", "1", "1000", "80000000000000000"})
	p.FeeAcct = pick(&g.rng, []int{1003, 95, 12})
	nv := g.rg(3, 14)
	na := g.rg(2, 10)
	for i := 0; i < nv; i++ {
		v := ValPlan{Cred: 1, Acct: g.n(na), Eff: 32}
		switch x := g.n(100); {
		case x < 15:
			v.Cred = 2
		case x < 22:
			v.Cred = 0
		case x < 24:
			v.Cred = 3
		}
		if g.p01(0.45) {
			v.Eff = pick(&g.rng, []int{0, 1, 16, 31, 33, 64, 100, 777, 2048})
			if v.Eff == 0 && g.p01(0.7) {
				v.Eff = 32
			}
		}
		if g.p01(0.08) {
			v.Status = pick(&g.rng, []string{"pending_initialized", "pending_queued", "active_exiting", "active_slashed", "exited_unslashed", "exited_slashed", "withdrawal_possible", "withdrawal_done"})
		}
		p.Vals = append(p.Vals, v)
	}
	p.Outs = g.rg(2, 5)
	for s, fee := range n.sched {
		if s >= p.Deploy+1 && s < p.Deploy+uint64(l) {
			o := int(s - p.Deploy)
			g.add(Op{S: o, K: "prop", V: len(p.Vals), T: "outside"}, Op{S: o, K: "cfg", T: "fee", X: fee})
			g.must[o] = true
		}
	}
	p.Start = l
}

func (g *gen) p01(x float64) bool { return g.rng.p(x) }

func (g *gen) add(o ...Op) { g.p.Ops = append(g.p.Ops, o...) }

func (g *gen) collat(s string, d int64) string {
	return new(big.Int).Add(big10(s), big.NewInt(d)).String()
}

// seedSub makes somebody track-worthy from the beginning.
func (g *gen) seedSub() {
	p := g.p
	p.Vals[0] = ValPlan{Cred: 1, Acct: 0, Eff: 32}
	s := 2
	if g.p01(0.35) {
		s = g.rg(1, 20)
	}
	for g.must[s] {
		s++
	}
	g.add(Op{S: s, K: "prop", V: len(p.Vals), T: "outside"}, Op{S: s, K: "sub", V: 0, A: -1, W: p.Collat})
	g.must[s] = true
	if g.p01(0.6) && len(p.Vals) > 2 {
		p.Vals[1] = ValPlan{Cred: 1, Acct: 1, Eff: 32}
		g.add(Op{S: s, K: "sub", V: 1, A: -1, W: p.Collat})
	}
}

// happen fills slots [a, b) with what happens on chain.
func (g *gen) happen(a, b int) {
	p := g.p
	var kinds []string
	total := 0
	for k, x := range g.w {
		kinds = append(kinds, k)
		total += x
	}
	sort.Strings(kinds)
	for s := a; s < b; s++ {
		if g.must[s] || !g.p01(g.busy) {
			continue
		}
		n := 1
		if g.p01(0.3) {
			n = g.rg(2, 5)
		}
		proposed := false
		last := Op{}
		focus := g.n(len(p.Vals))
		for i := 0; i < n; i++ {
			x := g.n(total)
			k := ""
			for _, c := range kinds {
				if x < g.w[c] {
					k = c
					break
				}
				x -= g.w[c]
			}
			v := g.n(len(p.Vals))
			if n > 1 && g.p01(0.5) {
				v = focus
			}
			o := Op{S: s, K: k, V: v}
			switch k {
			case "prop":
				if proposed {
					continue
				}
				proposed = true
				o.T = g.propKind()
				o.W = weiString(&g.rng)
				if o.T == "wrong" && g.p01(0.3) {
					o.X = 1
				}
				last = o
				if o.T == "selfsub" {
					if o.V >= len(p.Vals) {
						continue
					}
					g.add(o)
					o = Op{S: s, K: pick(&g.rng, []string{"sub", "sub", "unsub"}), V: o.V, A: -1, W: p.Collat}
				}
			case "don":
				o.A = 70 + g.n(10)
				o.V = 0
				o.W = weiString(&g.rng)
				if last.K == "prop" && (last.T == "okmev" || last.T == "okmevvia" || last.T == "wlmev") && g.p01(0.4) {
					o.W = last.W
				}
				if g.p01(0.3) {
					o.X = 1
				}
				if g.p01(0.25) {
					g.add(o)
				}
			case "sub":
				o.A = -1
				if g.p01(0.12) {
					o.A = g.n(10)
				}
				o.W = p.Collat
				switch g.n(8) {
				case 0:
					o.W = g.collat(p.Collat, -1)
				case 1:
					o.W = g.collat(p.Collat, int64(g.n(1_000_000)))
				case 2:
					o.W = weiString(&g.rng)
				}
				if g.p01(0.04) {
					o.V = len(p.Vals) + p.Outs + g.n(1000)
				} else if g.p01(0.04) {
					o.V = len(p.Vals) + g.n(p.Outs)
				}
				if g.p01(0.1) {
					g.add(o)
				}
			case "unsub":
				o.A = -1
				if g.p01(0.2) {
					o.A = g.n(10)
				}
				if g.p01(0.05) {
					o.V = len(p.Vals) + p.Outs + g.n(1000)
				}
			case "ban", "unban":
			case "fill":
				o.X = g.rg(1, 5)
			case "stat":
				o.T = pick(&g.rng, []string{"active_ongoing", "active_exiting", "active_slashed", "exited_unslashed", "exited_unslashed", "exited_slashed", "withdrawal_possible", "withdrawal_done"})
			case "eff":
				o.X = pick(&g.rng, []int{1, 16, 31, 32, 64, 2048, g.rg(17, 2047)})
			case "cred":
				o.X = g.rg(1, 2)
				if p.Vals[v].Cred == 2 {
					o.X = 2
				}
				if p.Vals[v].Cred == 3 {
					continue
				}
			case "cons":
				if p.Vals[v].Cred == 0 || p.Vals[v].Cred == 3 {
					continue
				}
				o.A = g.n(len(p.Vals))
				if o.A == v || p.Vals[o.A].Cred == 0 || p.Vals[o.A].Cred == 3 {
					continue
				}
				dup := false
				for _, q := range p.Ops {
					dup = dup || q.K == "cons" && q.V == v
				}
				if dup {
					continue
				}
				o.X = g.rg(50, 3000)
				g.add(Op{S: s, K: "stat", V: v, T: pick(&g.rng, []string{"active_exiting", "exited_unslashed", "exited_unslashed"})})
			}
			g.add(o)
		}
	}
	g.credsOK()
}

// credsOK drops changes that cannot happen: credentials only ever go from BLS
// to execution to compounding.
func (g *gen) credsOK() {
	var out []Op
	cur := map[int]int{}
	sort.SliceStable(g.p.Ops, func(i, j int) bool { return g.p.Ops[i].S < g.p.Ops[j].S })
	for _, o := range g.p.Ops {
		if o.K == "cred" {
			c, ok := cur[o.V]
			if !ok && o.V < len(g.p.Vals) {
				c = g.p.Vals[o.V].Cred
			}
			if o.X <= c {
				continue
			}
			cur[o.V] = o.X
		}
		out = append(out, o)
	}
	g.p.Ops = out
}

func (g *gen) propKind() string {
	x := g.n(100)
	for _, k := range []struct {
		t string
		n int
	}{{"ok", 24}, {"okmev", 22}, {"okmevvia", 10}, {"wrong", 5}, {"wrongmev", 4}, {"wrongmevfee", 2}, {"wrongcreate", 2}, {"revmev", 1}, {"selfsub", 2}, {"wlmev", 2}, {"wlmevvia", 1}, {"wlwrong", 1}, {"missed", 22}} {
		if x < k.n {
			return k.t
		}
		x -= k.n
	}
	return "outside"
}

// preempts plans suspended threads.
func (g *gen) preempts(mean int, sites, max int) {
	p := g.p
	if mean > 0 {
		p.PreMean = mean/2 + g.n(mean)
	}
	if g.p01(0.4) {
		p.SyncP = pick(&g.rng, []int{1, 5, 25})
	}
	for i := 0; i < sites; i++ {
		p.Sites = append(p.Sites, SitePlan{Site: 1 + g.n(g.sites), First: g.rg(1, 40), Every: g.rg(1, 30), Max: g.rg(1, max)})
	}
}

// moments aims at checkpoints, cleanups and slots in which something happens.
func (g *gen) moments(node, n int, act func() (path, kind string)) {
	p := g.p
	var clean []int
	for s := 1; s < p.Len; s++ {
		if (p.Deploy+uint64(s))%1200 == 0 {
			clean = append(clean, s)
		}
	}
	for i := 0; i < n; i++ {
		m := Moment{Node: node, S: 1 + g.n(p.Len), Ms: pick(&g.rng, []int{50, 1_000, 4_000, 20_000})}
		switch x := g.n(10); {
		case x < 6 && int(p.CP) <= p.Len:
			m.S = int(p.CP) * g.rg(1, p.Len/int(p.CP))
		case x < 8 && len(clean) > 0:
			m.S = clean[g.n(len(clean))]
		case len(p.Ops) > 0:
			m.S = p.Ops[g.n(len(p.Ops))].S
		}
		if g.p01(0.6) {
			m.N = g.rg(1, pick(&g.rng, []int{20, 20, 60}))
		} else {
			m.Fine, m.N = true, g.rg(1, pick(&g.rng, []int{100, 400, 2_000, 8_000}))
		}
		m.Path, m.Kind = act()
		p.Moments = append(p.Moments, m)
	}
}

// netFaults adds windows in which one node's requests fail.
func (g *gen) netFaults(node, n, from, to int, kinds []string) {
	for i := 0; i < n; i++ {
		dur := pick(&g.rng, []int{200, 2_000, 20_000, 60_000, 300_000})
		dur = 1 + dur/2 + g.n(dur)
		f := Fault{Node: node, From: from + g.n(max(1, to-from)), Dur: dur, Kind: pick(&g.rng, kinds), Prob: pick(&g.rng, []int{100, 100, 50, 15, 3})}
		if g.p01(0.5) {
			f.Match = pick(&g.rng, []string{"beacon:/eth/v2", "beacon:/eth/v1/beacon/states", "duties", "headers/finalized", "eth_getLogs", "eth_getTransactionReceipt", "eth_getBlockByNumber", "eth_call", "syncing", "exec:", "beacon:"})
		}
		p := g.p
		p.Faults = append(p.Faults, f)
	}
}

// aimed adds windows in which only requests fail whose answers matter.
func (g *gen) aimed(node, from, to int) {
	at := map[string]int{}
	kinds := []string{"+"}
	for _, o := range g.p.Ops {
		k, ok := map[string]string{"don": "+EtherReceived", "sub": "+SubscribeValidator", "unsub": "+UnsubscribeValidator", "ban": "+BanValidator", "unban": "+UnbanValidator", "cfg": "+Update", "cons": "+consolidations"}[o.K]
		if ok && at[k] == 0 {
			kinds = append(kinds, k)
			at[k], at[o.K] = 1, 1
		}
	}
	if g.p01(0.4) {
		// One attempt after the other fails, each in its own way.
		m := pick(&g.rng, kinds)
		if at["cons"] == 1 && g.p01(0.5) {
			m = "+consolidations"
		}
		t := from
		for _, e := range []int{12_000, 40_000, 95_000, 200_000, 400_000}[:g.rg(2, 5)] {
			g.p.Faults = append(g.p.Faults, Fault{Node: node, From: t, Dur: from + e - t, Kind: pick(&g.rng, netKinds), Prob: 100, Match: m})
			t = from + e
		}
		return
	}
	for i := g.rg(1, 3); i > 0; i-- {
		dur := pick(&g.rng, []int{2_000, 60_000, 300_000})
		f := Fault{Node: node, Dur: dur/2 + g.n(dur), Kind: pick(&g.rng, netKinds), Prob: pick(&g.rng, []int{100, 100, 100, 60}), Match: pick(&g.rng, kinds)}
		if g.p01(0.5) {
			f.From = from + g.n(max(1, to-from))
		}
		g.p.Faults = append(g.p.Faults, f)
	}
}

// exhausted makes every attempt fail of one kind of request whose answer
// matters, and only a few attempts are made: the process must end, not go on
// without the answer.
func (g *gen) exhausted(node int) {
	p := g.p
	first := map[string]int{}
	var kinds []string
	for _, o := range p.Ops {
		k, ok := map[string]string{"don": "+EtherReceived", "sub": "+SubscribeValidator", "unsub": "+UnsubscribeValidator", "ban": "+BanValidator", "unban": "+UnbanValidator", "cfg": "+Update", "cons": "+consolidations"}[o.K]
		if !ok {
			continue
		}
		if f, has := first[k]; !has {
			kinds = append(kinds, k)
			first[k] = o.S
		} else {
			first[k] = min(f, o.S)
		}
	}
	if len(kinds) == 0 {
		return
	}
	k := pick(&g.rng, kinds)
	p.Nodes[node].Retries = g.rg(1, 3)
	p.Faults = append(p.Faults, Fault{Node: node, Dur: first[k]*g.rg(800, 5_000) + g.rg(40_000, 400_000), Kind: pick(&g.rng, netKinds), Prob: 100, Match: k})
}

var netKinds = []string{"refused", "stall", "reset", "500", "502", "503", "429", "400", "html", "rpcerror", "cut", "empty", "cutlen", "slow", "null"}

// genPlan makes the plan of a seed.
// newcomers are validators that the chain comes to know during the run and
// that turn to the pool at once: until it loads the validator set again, a
// process has not heard of them.
func (g *gen) newcomers() {
	p := g.p
	r := rng{hash(p.Seed, 515)}
	if len(p.Vals) == 0 || !r.p(0.35) || p.Len < 30 {
		return
	}
	first := len(p.Vals) + p.Outs
	at := 0
	busy := map[int]bool{}
	var slots []int
	for _, o := range p.Ops {
		busy[o.S] = busy[o.S] || g.must[o.S] || o.K == "cfg" || o.K == "quorum" || o.K == "prop" && o.T == "missed"
	}
	for s := 1; s < p.Len+p.Settle; s++ {
		if !busy[s] {
			slots = append(slots, s)
		}
	}
	if len(slots) < 20 {
		return
	}
	slot := func(a, b int) (int, bool) {
		i := sort.SearchInts(slots, a)
		j := sort.SearchInts(slots, b)
		if i >= j {
			return 0, false
		}
		return slots[i+r.n(j-i)], true
	}
	for k := 0; k < r.rg(1, 4); k++ {
		at = r.rg(at+1, max(at+2, p.Len*(k+2)/4))
		v := ValPlan{Cred: pick(&r, []int{1, 1, 1, 2, 0}), Acct: p.Vals[r.n(len(p.Vals))].Acct, Eff: pick(&r, []int{32, 32, 33, 2048}), Born: at}
		v.Status = pick(&r, []string{"", "pending_initialized", "pending_queued", "exited_unslashed"})
		p.News = append(p.News, v)
		i := first + k
		if s, ok := slot(at, p.Len); ok && v.Status != "" && v.Status != "exited_unslashed" && r.p(0.7) {
			g.add(Op{S: s, K: "stat", V: i, T: "active_ongoing"})
		}
		if s, ok := slot(1, at); ok && r.p(0.2) {
			g.add(Op{S: s, K: "sub", V: i, A: -1, W: p.Collat})
		}
		from := at
		for n := r.rg(1, 4); n > 0; n-- {
			s, ok := slot(from, min(from+r.rg(3, 60), p.Len+p.Settle))
			if !ok {
				break
			}
			g.add(Op{S: s, K: "sub", V: i, A: -1, W: p.Collat})
			from = s
			if r.p(0.3) {
				if s, ok = slot(from, from+40); ok {
					if v.Status == "" && r.p(0.4) {
						g.add(Op{S: s, K: "prop", V: i, T: pick(&r, []string{"ok", "okmev"}), W: weiString(&r)})
					} else {
						g.add(Op{S: s, K: "unsub", V: i, A: -1})
					}
				}
			}
		}
	}
}

func genPlan(prop string, seed uint64) *Plan {
	for try := uint64(0); ; try++ {
		g := newGen(prop, hash(seed, try))
		g.p.Seed = seed
		g.profile()
		g.newcomers()
		p := g.p
		if raceBuild && len(p.Acts) > 0 {
			// At most one end of the process, on a signal.
			p.Acts = p.Acts[:1]
			p.Acts[0].Kind = "term"
		}
		eng = &engine{plan: p, t0: time.Now()}
		w := newWorld(p)
		w.ctr = newContract(w)
		r := newRef(w)
		r.at(p.Deploy + uint64(p.Len+p.Settle))
		if !r.negative {
			return p
		}
	}
}
