package main

// Damaged, changed and foreign states: what the disk or the checkpoint-sync
// URL gives an oracle when it starts.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

const statePath = "oracle-data/state.json"

// meaning is what a state's bytes say, however they are written.
func meaning(b []byte) string {
	st := &stState{}
	if err := json.Unmarshal(b, st); err != nil {
		return "unreadable"
	}
	x, err := json.Marshal(st)
	if err != nil {
		return "unreadable"
	}
	m := strings.ToLower(string(x))
	// What a missing one of these means to the oracle.
	for _, d := range [][2]string{{"block_type", "unknownblocktype"}, {"reward_type", "unknownrewardtype"}, {"subscription_type", "manual"}, {"status", "unknownstate"}} {
		m = strings.ReplaceAll(m, `"`+d[0]+`":""`, `"`+d[0]+`":"`+d[1]+`"`)
	}
	return m
}

type leafRef struct {
	path string
	get  func() any
	set  func(any)
	del  func()
}

func leafs(path string, v any, set func(any), del func(), out *[]leafRef) {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(x) {
			leafs(path+"/"+k, x[k], func(n any) { x[k] = n }, func() { delete(x, k) }, out)
		}
		if len(x) > 0 && path != "" {
			*out = append(*out, leafRef{path, nil, set, del})
		}
	case []any:
		for i := range x {
			leafs(fmt.Sprint(path, "/", i), x[i], func(n any) { x[i] = n }, func() {
				y := append(append([]any{}, x[:i]...), x[i+1:]...)
				set(y)
			}, out)
		}
	default:
		*out = append(*out, leafRef{path, func() any { return v }, set, del})
	}
}

// damage gives a changed copy of a state.
func damage(b []byte, what string, arg int) (nb []byte, desc string) {
	r := rng{hash(uint64(arg), hashStr(what))}
	switch what {
	case "cut":
		n := r.n(len(b))
		return b[:n], fmt.Sprintf("cut to %d of %d bytes", n, len(b))
	case "empty":
		return []byte{}, "empty"
	case "zeros":
		n := append([]byte{}, b...)
		a := r.n(len(n))
		for i := a; i < len(n) && i < a+4096; i++ {
			n[i] = 0
		}
		return n, fmt.Sprintf("zeros from byte %d", a)
	case "null":
		return []byte(pick(&r, []string{"null", "{}", "[]", "0", "\"\""})), "other JSON"
	case "flip":
		n := append([]byte{}, b...)
		k := 1
		if r.p(0.3) {
			k = r.rg(2, 5)
		}
		for i := 0; i < k; i++ {
			p := r.n(len(n))
			switch r.n(3) {
			case 0:
				n[p] ^= 1 << r.n(8)
			case 1:
				n[p] = byte(32 + r.n(95))
			default: // a digit for a digit, if there is one around
				for j := 0; j < 200 && !(n[p] >= '0' && n[p] <= '9'); j++ {
					p = (p + 1) % len(n)
				}
				n[p] = byte('0' + r.n(10))
			}
			desc += fmt.Sprintf("byte %d changed; ", p)
		}
		return n, desc
	case "leaf", "del", "swap", "config":
		var t any
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if d.Decode(&t) != nil {
			return b, "unreadable"
		}
		root, ok := t.(map[string]any)
		if !ok {
			return b, "unreadable"
		}
		if what == "config" {
			k := pick(&r, []string{"pool_fees_percent_over_10000", "pool_address", "network", "pool_fees_address", "check_point_size_in_slots", "deployed_block", "deployed_slot", "collateral_in_wei"})
			old := fmt.Sprint(root[k])
			nv := ""
			switch k {
			case "pool_address", "pool_fees_address":
				nv = `"0x` + fmt.Sprintf("%040x", r.u()) + `"`
				if len(old) == 42 && r.p(0.4) { // one digit
					i := r.rg(2, 41)
					nv = `"` + old[:i] + string("0123456789abcdef"[(strings.IndexByte("0123456789abcdef", old[i]|32)+r.rg(1, 15)+16)%16]) + old[i+1:] + `"`
				}
			case "network":
				l := []string{"mainnet", "holesky", "hoodi", "goerli"}
				nv = pick(&r, l)
				for nv == old {
					nv = pick(&r, l)
				}
				nv = `"` + nv + `"`
			default:
				x, _ := new(big.Int).SetString(old, 10)
				if x == nil {
					return b, "unreadable"
				}
				d := big.NewInt(int64(pick(&r, []int{1, r.rg(1, 40), r.rg(1, 3000)})))
				if y := new(big.Int).Sub(x, d); y.Sign() > 0 && r.p(0.5) {
					nv = y.String()
				} else {
					nv = x.Add(x, d).String()
				}
				if k == "pool_fees_percent_over_10000" {
					at, _ := strconv.ParseUint(fmt.Sprint(root["latest_processed_slot"]), 10, 64)
					for slot, fee := range w().net.sched {
						// A planned change, but before its time.
						if f := fmt.Sprint(fee); at < slot && f != old && r.p(0.5) {
							nv = f
						}
						// The fee of a pool without the change, or deployed
						// after it: the oracle cannot tell.
						if f := fmt.Sprint(fee); at >= slot && (nv == f || nv == fmt.Sprint(eng.plan.Fee)) {
							nv += "1"
						}
					}
				}
			}
			if _, isStr := root[k].(string); isStr {
				old = `"` + old + `"`
			}
			// Only that field changes, and the hash is made to match.
			var c bytes.Buffer
			if json.Compact(&c, b) != nil {
				return b, "unreadable"
			}
			i := strings.LastIndex(c.String(), `"`+k+`":`+old)
			if i < 0 {
				return b, "unreadable"
			}
			x := c.String()[:i] + `"` + k + `":` + nv + c.String()[i+len(`"`+k+`":`+old):]
			h := fmt.Sprint(root["state_hash"])
			return []byte(strings.Replace(x, `"state_hash":"`+h+`"`, `"state_hash":"`+bodyHash([]byte(x), h)+`"`, 1)), "state of another configuration: " + k + " " + nv
		}
		var l []leafRef
		leafs("", root, nil, nil, &l)
		sort.SliceStable(l, func(i, j int) bool { return l[i].path < l[j].path })
		// Every kind of field is as likely as any other, however many there are.
		kinds := map[string][]leafRef{}
		for _, x := range l {
			ps := strings.Split(x.path, "/")
			for i := range ps {
				if ps[i] != "" && strings.Trim(ps[i], "0123456789") == "" || strings.HasPrefix(ps[i], "0x") {
					ps[i] = "*"
				}
			}
			k := strings.Join(ps, "/")
			kinds[k] = append(kinds[k], x)
		}
		ks := sortedKeys(kinds)
		for try := 0; try < 50; try++ {
			x := pick(&r, kinds[pick(&r, ks)])
			if what == "del" {
				if x.del == nil {
					continue
				}
				x.del()
				desc = "removed " + x.path
				break
			}
			if x.get == nil {
				continue
			}
			switch v := x.get().(type) {
			case json.Number:
				n, ok := new(big.Int).SetString(v.String(), 10)
				if !ok {
					continue
				}
				if r.p(0.5) || n.Sign() == 0 {
					n.Add(n, big.NewInt(1))
				} else {
					n.Sub(n, big.NewInt(1))
				}
				x.set(json.Number(n.String()))
			case string:
				if v == "" {
					x.set("0x1")
				} else {
					c := []byte(v)
					p := r.n(len(c))
					o := c[p]
					for c[p] == o || c[p]|32 == o|32 {
						c[p] = "0123456789abcdef"[r.n(16)]
					}
					x.set(string(c))
				}
			case bool:
				x.set(!v)
			case nil:
				continue
			}
			desc = "changed " + x.path
			break
		}
		n, err := json.MarshalIndent(root, "", " ")
		if err != nil {
			return b, "unreadable"
		}
		return n, desc
	}
	return b, "as it was"
}

// tamper replaces a host's saved state, for a while.
func (e *engine) tamper(h *host, what string, arg int, d time.Duration) {
	in := h.fs.files[statePath]
	if h.tampered || in == nil || len(in.data) == 0 || h.proc == nil || h.proc.dead {
		e.count("tampering: nothing to change")
		return
	}
	e.kill(h, 0, false)
	h.outage = append(h.outage, span{e.now(), e.now() + 30*time.Second, false})
	in = h.fs.files[statePath]
	orig := in.data
	if checkSaved(h, orig) == nil {
		return
	}
	nb, desc := damage(orig, what, arg)
	if meaning(nb) == meaning(orig) {
		e.count("tampering: same meaning")
		return
	}
	e.ev(nil, "tamper", desc)
	e.count("tampered state file: " + what)
	h.tampered, h.tamper = true, "state file, "+desc
	h.fs.files[statePath] = &inode{data: nb, synced: append([]byte{}, nb...)}
	first := h.incs + 1
	go func() {
		time.Sleep(d)
		e.refused(h, first)
		e.kill(h, 0, false)
		h.outage = append(h.outage, span{e.now() - d, e.now() + 30*time.Second, false})
		h.fs.files[statePath] = &inode{data: orig, synced: append([]byte{}, orig...)}
		h.tampered = false
		e.ev(nil, "restore", "")
	}()
}

// checkSaved judges a saved state file.
func checkSaved(h *host, b []byte) *stState {
	st, err := parseState(b)
	if err != nil {
		eng.violate("saved", "node %d: its saved state is unreadable: %v", h.id, err)
		return nil
	}
	return st
}

func (e *engine) refused(h *host, first int) {
	n := 0
	for _, p := range e.procs {
		if p.h == h && p.inc >= first {
			n++
			if p.up {
				e.violate("refusal", "node %d started from a state it must refuse (%s)", h.id, h.tamper)
				return
			}
		}
	}
	if n == 0 {
		e.count("tampering: never started")
	} else {
		e.count("start refused")
	}
}

// publish makes one node's state, damaged or not, what another node finds at
// its checkpoint-sync URL, and lets that node start.
func (e *engine) publish(h *host, from *host, what string, arg int, d time.Duration) {
	var b []byte
	for i := 0; i < 600 && b == nil; i++ {
		if a := get(from, "/state"); a.code == 200 {
			b = a.body
		} else {
			time.Sleep(time.Second)
		}
	}
	if b == nil {
		return
	}
	url := "/" + fmt.Sprint(h.id)
	go0 := func() {
		h.held = false
		if h.proc == nil || h.proc.dead {
			e.start(h)
		}
	}
	nb, desc := damage(b, what, arg)
	h.outage = append(h.outage, span{e.now(), e.now() + d + 30*time.Second, false})
	if meaning(nb) != meaning(b) {
		e.static[url] = nb
		h.tampered, h.tamper = true, "checkpoint sync, "+desc
		e.count("tampered checkpoint sync: " + what)
		e.ev(nil, "tamper", desc)
		first := h.incs + 1
		go0()
		time.Sleep(d)
		e.refused(h, first)
		e.kill(h, 0, false)
		delete(h.fs.files, statePath)
		h.tampered = false
	}
	e.static[url] = b
	e.ev(nil, "publish", "")
	e.count("checkpoint sync from an intact state")
	go0()
}
