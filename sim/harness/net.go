package main

// The network seam: routing, latency, injected faults; the simulated beacon
// node, execution node with the pool contract, and relays.

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

type netErr struct {
	s       string
	timeout bool
}

func (e netErr) Error() string   { return e.s }
func (e netErr) Timeout() bool   { return e.timeout }
func (e netErr) Temporary() bool { return true }

func sleepCtx(ctx context.Context, d time.Duration) error {
	if d <= 0 {
		return ctx.Err()
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

func reply(req *http.Request, code int, body []byte, cut error) *http.Response {
	h := http.Header{}
	h.Set("Content-Type", "application/json")
	r := &http.Response{StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: &bodyReader{body, cut}, ContentLength: int64(len(body)), Request: req}
	if cut != nil {
		r.ContentLength = -1
	}
	return r
}

func (e *engine) args(h *host) []string {
	c := h.cfg
	pool := poolAddr.Hex()
	if c.Pool != "" {
		pool = c.Pool
	}
	l := []string{"-consensus-endpoint=http://beacon-" + strconv.Itoa(h.id) + ":3500" + c.EP, "-execution-endpoint=http://exec-" + strconv.Itoa(h.id) + ":8545", "-pool-address=" + pool, "-relayers-endpoints=https://relay-1.sim,https://relay-2.sim"}
	if c.DryRun {
		l = append(l, "-dry-run")
	} else {
		l = append(l, "-updater-keystore-file=keystore.json", "-updater-keystore-pass=pw")
	}
	if c.Level != "" {
		l = append(l, "-log-level="+c.Level)
	}
	if c.Retries != 0 {
		l = append(l, "-num-retries="+strconv.Itoa(c.Retries))
	}
	if c.Sync != "" && len(h.fs.files["oracle-data/state.json"].bytes()) == 0 {
		l = append(l, "-checkpoint-sync-url="+c.Sync)
	}
	return l
}

func (in *inode) bytes() []byte {
	if in == nil {
		return nil
	}
	return in.data
}

// faultFor decides whether a request meets an injected fault.
func (e *engine) faultFor(h *host, what string, api bool) (string, time.Duration) {
	now := int(e.now() / time.Millisecond)
	for i := range e.plan.Faults {
		f := &e.plan.Faults[i]
		if f.Node != h.id || now < f.From || now >= f.From+f.Dur {
			continue
		}
		if f.Match != "" && !strings.Contains(what, f.Match) {
			continue
		}
		if f.Prob < 100 && int(hash(e.plan.Seed, 51, uint64(h.id), uint64(i), h.netOps)%100) >= f.Prob {
			continue
		}
		if strings.Contains(what, "/states/") {
			if h.hitStates == nil {
				h.hitStates = map[int]bool{}
			}
			h.hitStates[i] = true
		}
		return f.Kind, time.Duration(f.From+f.Dur-now) * time.Millisecond
	}
	return "", 0
}

func (e *engine) roundTrip(p *proc, req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	hostname := req.URL.Hostname()
	kind := "beacon"
	what := req.URL.RequestURI()
	if strings.HasPrefix(hostname, "exec") {
		kind = "exec"
		what = rpcName(body)
	} else if strings.HasPrefix(hostname, "relay") {
		kind = "relay"
	} else if strings.HasPrefix(hostname, "oracle") || hostname == "static" {
		kind = "oracle"
	}
	p.h.netOps++
	p.netUsed = true
	e.seam(p, kind, what)
	if kind == "beacon" {
		noteBeacon(p, what)
	}
	h := p.h
	ctx := req.Context()
	x := hash(e.plan.Seed, 53, uint64(h.id), h.netOps)
	lat := time.Duration(1+x%uint64(e.plan.LatMax*1000)) * time.Microsecond
	if x>>32%64 == 0 {
		lat *= 20
	}
	f, left := e.faultFor(h, kind+":"+what+answers(kind, what, req, body), false)
	if f != "" {
		e.count("network fault: " + f)
		e.ev(p, "fault", f)
	}
	serve := func() (int, []byte) {
		switch kind {
		case "beacon":
			return w().beacon(p, req.Method, req.URL.Path, req.URL.Query(), body)
		case "exec":
			return w().exec(p, body)
		case "relay":
			return w().relay(req.URL.Query().Get("pubkey"), hostname)
		}
		return serveOracle(req)
	}
	after := func() {
		if p.dead {
			freeze()
		}
	}
	switch f {
	case "refused":
		err := sleepCtx(ctx, lat)
		after()
		if err != nil {
			return nil, err
		}
		return nil, &netOpErr{"dial tcp 10.0.0.9:80: connect: connection refused", syscall.ECONNREFUSED}
	case "stall":
		// No answer until the caller gives up, or the node's connection dies.
		d := left
		if d > 15*time.Minute {
			d = 15 * time.Minute
		}
		err := sleepCtx(ctx, d+lat)
		after()
		if err != nil {
			return nil, err
		}
		return nil, netErr{"read tcp 10.0.0.5:4041->10.0.0.9:80: read: connection reset by peer", false}
	case "reset": // served, the answer is lost
		err := sleepCtx(ctx, lat)
		after()
		if err != nil {
			return nil, err
		}
		serve()
		return nil, io.EOF
	case "500", "502", "503", "429", "400":
		err := sleepCtx(ctx, lat)
		after()
		if err != nil {
			return nil, err
		}
		c, _ := strconv.Atoi(f)
		return reply(req, c, []byte(fmt.Sprintf(`{"code":%d,"message":"internal error: request id 9404 failed"}`, c)), nil), nil
	case "html":
		err := sleepCtx(ctx, lat)
		after()
		if err != nil {
			return nil, err
		}
		return reply(req, 200, []byte("<html><body>maintenance</body></html>"), nil), nil
	case "rpcerror":
		err := sleepCtx(ctx, lat)
		after()
		if err != nil {
			return nil, err
		}
		if kind == "exec" {
			return reply(req, 200, rpcErrors(body), nil), nil
		}
		return reply(req, 500, []byte(`{"code":500,"message":"UNHANDLED_ERROR"}`), nil), nil
	case "cut", "empty", "cutlen":
		err := sleepCtx(ctx, lat)
		after()
		if err != nil {
			return nil, err
		}
		code, b := serve()
		n := int(x >> 7 % uint64(len(b)+1))
		if f == "empty" {
			return reply(req, code, nil, nil), nil
		}
		if f == "cutlen" { // connection closed early, the length says so
			return reply(req, code, b[:n], io.ErrUnexpectedEOF), nil
		}
		if n == len(b) && n > 0 {
			n--
		}
		return reply(req, code, b[:n], nil), nil
	case "slow":
		lat += time.Duration(x>>9%100_000) * time.Millisecond
	case "null":
		err := sleepCtx(ctx, lat)
		after()
		if err != nil {
			return nil, err
		}
		if kind == "exec" { // a node that does not know this block or transaction yet
			switch {
			case strings.HasPrefix(what, "eth_getBlockByNumber"), strings.HasPrefix(what, "eth_getTransactionReceipt"):
				return reply(req, 200, rpcResult(body, json.RawMessage("null")), nil), nil
			}
		}
	case "syncing":
		// answered below, by the node's own report
	}
	err := sleepCtx(ctx, lat)
	after()
	if err != nil {
		return nil, err
	}
	code, b := serve()
	resp := reply(req, code, b, nil)
	// The answer travels back.
	err = sleepCtx(ctx, lat/2)
	after()
	if err != nil {
		return nil, err
	}
	return resp, nil
}

// answers says what a request would be answered with, if that is something
// out of the ordinary, so that faults can aim at it.
func answers(kind, what string, req *http.Request, body []byte) string {
	switch {
	case kind == "exec" && strings.HasPrefix(what, "eth_getLogs"):
		var r rpcReq
		if json.Unmarshal(body, &r) != nil || len(r.Params) == 0 {
			return ""
		}
		head := ""
		if !strings.Contains(what, "\"toBlock\":\"0x") {
			head = "~head"
		}
		res, _ := w().logs(r)
		l, _ := res.([]*types.Log)
		if len(l) == 0 || len(l[0].Topics) == 0 {
			return head
		}
		if ev, err := w().pabi.EventByID(l[0].Topics[0]); err == nil {
			return head + "+" + ev.Name
		}
		return head
	case kind == "beacon" && strings.HasSuffix(req.URL.Path, "/validators"):
		// One validator is asked for with every block, several by a cleanup.
		var l struct {
			IDs []string `json:"ids"`
		}
		if json.Unmarshal(body, &l) == nil && len(l.IDs) > 1 {
			return "+set"
		}
	case kind == "beacon" && strings.HasSuffix(what, "/pending_consolidations"):
		part := strings.Split(what, "/")
		if s, ok := w().stateSlot(part[len(part)-2], w().headSlot()); ok && len(w().consolidations(s)) > 0 {
			return "+consolidations"
		}
	}
	return ""
}

type netOpErr struct {
	s   string
	err error
}

func (e *netOpErr) Error() string { return e.s }
func (e *netOpErr) Unwrap() error { return e.err }

func (e *engine) nodeFault(h *host, kind string) *Fault {
	now := int(e.now() / time.Millisecond)
	for i := range e.plan.Faults {
		f := &e.plan.Faults[i]
		if f.Node == h.id && f.Kind == kind && now >= f.From && now < f.From+f.Dur {
			return f
		}
	}
	return nil
}

// ---- beacon node

func jsonb(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func bErr(code int, msg string) (int, []byte) {
	return code, []byte(fmt.Sprintf(`{"code":%d,"message":%q,"stacktraces":[]}`, code, msg))
}

func hex32(x uint64) string { return fmt.Sprintf("0x%064x", x) }

func (w *world) beacon(p *proc, method, path string, q map[string][]string, body []byte) (int, []byte) {
	path = strings.TrimPrefix(path, p.h.cfg.EP)
	part := strings.Split(strings.Trim(path, "/"), "/")
	head := w.headSlot()
	switch {
	case path == "/eth/v1/node/syncing":
		d, syncing := 0, false
		p.clBad = false
		if f := eng.nodeFault(p.h, "syncing"); f != nil {
			d, syncing = max(6, f.Arg), true
			p.clBad = true
			eng.count("beacon node syncing")
		} else if f := eng.nodeFault(p.h, "near"); f != nil {
			d = min(5, max(1, f.Arg))
			eng.count("beacon node a few slots behind")
		}
		return 200, []byte(fmt.Sprintf(`{"data":{"head_slot":"%d","sync_distance":"%d","is_syncing":%v,"is_optimistic":false,"el_offline":false}}`, head-uint64(d), d, syncing))
	case path == "/eth/v1/node/version":
		return 200, []byte(`{"data":{"version":"Sim/v1.0.0/x86_64-linux"}}`)
	case path == "/eth/v1/beacon/genesis":
		return 200, []byte(fmt.Sprintf(`{"data":{"genesis_time":"%d","genesis_validators_root":"%s","genesis_fork_version":"0x00000000"}}`, w.genesis.Unix(), hex32(1)))
	case path == "/eth/v1/config/deposit_contract":
		return 200, []byte(fmt.Sprintf(`{"data":{"chain_id":"%d","address":"0x00000000219ab540356cbb839cbe05303d7705fa"}}`, w.net.chain))
	case path == "/eth/v1/config/spec":
		return 200, []byte(`{"data":{"SECONDS_PER_SLOT":"12","SLOTS_PER_EPOCH":"32","CONFIG_NAME":"` + w.net.name + `","PRESET_BASE":"mainnet","EPOCHS_PER_SYNC_COMMITTEE_PERIOD":"256"}}`)
	case path == "/eth/v1/config/fork_schedule":
		return 200, []byte(`{"data":[{"previous_version":"0x00000000","current_version":"0x00000000","epoch":"0"}]}`)
	case strings.HasPrefix(path, "/eth/v2/beacon/blocks/"):
		n, err := strconv.ParseUint(part[4], 10, 64)
		if err != nil {
			return bErr(400, "invalid block id")
		}
		if n > head || n < w.plan.Deploy {
			return bErr(404, fmt.Sprintf("NOT_FOUND: beacon block at slot %d", n))
		}
		sd := w.slot(n)
		if sd.blk == nil {
			return bErr(404, fmt.Sprintf("NOT_FOUND: beacon block at slot %d", n))
		}
		return 200, w.consensusJSON(sd)
	case path == "/eth/v1/beacon/headers/finalized":
		f := w.finalized()
		if eng.nodeFault(p.h, "oldfinal") != nil && f > 96 {
			f = w.finalizedAt(head - 96)
		}
		noteFinalized(p, f)
		prop := 0
		if f >= w.plan.Deploy {
			prop = w.slot(f).prop
		}
		return 200, []byte(fmt.Sprintf(`{"execution_optimistic":false,"finalized":true,"data":{"root":"%s","canonical":true,"header":{"message":{"slot":"%d","proposer_index":"%d","parent_root":"%s","state_root":"%s","body_root":"%s"},"signature":"0x%0192x"}}}`, hex32(f), f, prop, hex32(f-1), hex32(5), hex32(6), 7))
	case strings.HasPrefix(path, "/eth/v1/validator/duties/proposer/"):
		ep, _ := strconv.ParseUint(part[5], 10, 64)
		var l []map[string]string
		for s := ep * 32; s < ep*32+32; s++ {
			pr := len(w.plan.Vals)
			if s >= w.plan.Deploy {
				pr = w.slot(s).prop
			}
			l = append(l, map[string]string{"pubkey": "0x" + hex.EncodeToString(w.vals[pr].pub), "validator_index": fmt.Sprint(pr), "slot": fmt.Sprint(s)})
		}
		return 200, []byte(fmt.Sprintf(`{"dependent_root":"%s","execution_optimistic":false,"data":%s}`, hex32(9), jsonb(l)))
	case strings.HasPrefix(path, "/eth/v2/debug/beacon/states/") && len(part) == 6:
		s, ok := w.stateSlot(part[5], head)
		if !ok {
			return bErr(404, "NOT_FOUND: beacon state")
		}
		if part[5] == "finalized" {
			p.valSnaps = append(p.valSnaps, valSnap{s, p.maxReq})
		}
		return 200, w.debugState(s)
	case strings.HasPrefix(path, "/eth/v1/beacon/states/") && len(part) == 6 && part[5] == "pending_consolidations":
		s, ok := w.stateSlot(part[4], head)
		if !ok {
			return bErr(404, "NOT_FOUND: beacon state")
		}
		l := []map[string]string{}
		for _, c := range w.consolidations(s) {
			l = append(l, map[string]string{"source_index": fmt.Sprint(c[0]), "target_index": fmt.Sprint(c[1])})
		}
		return 200, []byte(fmt.Sprintf(`{"version":"electra","execution_optimistic":false,"finalized":true,"data":%s}`, jsonb(l)))
	case strings.HasPrefix(path, "/eth/v1/beacon/states/") && len(part) == 6 && part[5] == "validators":
		s, ok := w.stateSlot(part[4], head)
		if !ok {
			return bErr(404, "NOT_FOUND: beacon state")
		}
		var ids []string
		for _, x := range q["id"] {
			ids = append(ids, strings.Split(x, ",")...)
		}
		if method == "POST" {
			var b struct {
				IDs []string `json:"ids"`
			}
			_ = json.Unmarshal(body, &b)
			ids = append(ids, b.IDs...)
		}
		if part[4] == "finalized" && len(ids) == 0 {
			p.valSnaps = append(p.valSnaps, valSnap{s, p.maxReq})
		}
		var l []map[string]any
		for _, v := range w.vals {
			if !v.known(s) {
				continue
			}
			want := len(ids) == 0
			for _, id := range ids {
				if id == fmt.Sprint(v.idx) || id == "0x"+hex.EncodeToString(v.pub) {
					want = true
				}
			}
			if want {
				l = append(l, w.validatorJSON(v, s))
			}
		}
		if l == nil {
			l = []map[string]any{}
		}
		return 200, []byte(fmt.Sprintf(`{"execution_optimistic":false,"finalized":true,"data":%s}`, jsonb(l)))
	}
	eng.count("unknown beacon request " + path)
	return bErr(404, "not found")
}

func (w *world) stateSlot(id string, head uint64) (int, bool) {
	switch id {
	case "finalized":
		return w.off(w.finalized()), true
	case "head", "justified":
		return w.off(head), true
	}
	n, err := strconv.ParseUint(id, 10, 64)
	if err != nil || n > head {
		return 0, false
	}
	return w.off(n), true
}

// consolidations pending in the state of a slot, oldest first.
func (w *world) consolidations(s int) [][2]int {
	type c struct{ from, src, tgt int }
	var l []c
	for _, v := range w.vals {
		for _, x := range v.consol {
			if s >= x.from && s < x.to {
				l = append(l, c{x.from, v.idx, x.target})
			}
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].from < l[j].from })
	var r [][2]int
	for _, x := range l {
		r = append(r, [2]int{x.src, x.tgt})
	}
	return r
}

// ---- execution node

type rpcReq struct {
	ID     json.RawMessage   `json:"id"`
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
}

func rpcName(body []byte) string {
	var r rpcReq
	if json.Unmarshal(body, &r) != nil {
		return "batch"
	}
	s := r.Method
	if len(r.Params) > 0 {
		x := string(r.Params[0])
		if len(x) > 120 {
			x = x[:120]
		}
		s += " " + x
	}
	return s
}

func rpcResult(body []byte, res any) []byte {
	var r rpcReq
	_ = json.Unmarshal(body, &r)
	return jsonb(map[string]any{"jsonrpc": "2.0", "id": r.ID, "result": res})
}

func rpcErrors(body []byte) []byte {
	var r rpcReq
	_ = json.Unmarshal(body, &r)
	return jsonb(map[string]any{"jsonrpc": "2.0", "id": r.ID, "error": map[string]any{"code": -32603, "message": "internal error: missing trie node"}})
}

type rpcError struct {
	code int
	msg  string
	data string
}

func (w *world) exec(p *proc, body []byte) (int, []byte) {
	if len(body) > 0 && body[0] == '[' {
		var l []json.RawMessage
		_ = json.Unmarshal(body, &l)
		var out []json.RawMessage
		for _, x := range l {
			out = append(out, w.execOne(p, x))
		}
		return 200, jsonb(out)
	}
	return 200, w.execOne(p, body)
}

func (w *world) execOne(p *proc, body []byte) []byte {
	var r rpcReq
	if err := json.Unmarshal(body, &r); err != nil {
		return []byte(`{"jsonrpc":"2.0","id":null,"error":{"code":-32700,"message":"parse error"}}`)
	}
	res, e := w.rpc(p, r)
	if e != nil {
		m := map[string]any{"code": e.code, "message": e.msg}
		if e.data != "" {
			m["data"] = e.data
		}
		return jsonb(map[string]any{"jsonrpc": "2.0", "id": r.ID, "error": m})
	}
	return jsonb(map[string]any{"jsonrpc": "2.0", "id": r.ID, "result": res})
}

func str(m json.RawMessage) string {
	var s string
	_ = json.Unmarshal(m, &s)
	return s
}

// blockArg resolves a block parameter.
func (w *world) blockArg(r rpcReq, i int) (uint64, bool) {
	head := w.headBlock()
	if i >= len(r.Params) {
		return head, true
	}
	switch s := str(r.Params[i]); s {
	case "latest", "pending", "":
		return head, true
	case "finalized", "safe":
		return w.slot(w.finalized()).blkNum, true
	case "earliest":
		return w.block0, true
	default:
		n, err := hexutil.DecodeUint64(s)
		if err != nil || n > head {
			return 0, false
		}
		return n, true
	}
}

func (w *world) rpc(p *proc, r rpcReq) (any, *rpcError) {
	c := w.ctr
	switch r.Method {
	case "eth_chainId":
		return hexutil.EncodeUint64(w.net.chain), nil
	case "net_version":
		return fmt.Sprint(w.net.chain), nil
	case "eth_syncing":
		f := eng.nodeFault(p.h, "elsyncing")
		p.elBad = f != nil
		if p.elBad {
			eng.count("execution node syncing")
			return map[string]string{"startingBlock": "0x1", "currentBlock": hexutil.EncodeUint64(w.headBlock() - uint64(f.Arg)), "highestBlock": hexutil.EncodeUint64(w.headBlock())}, nil
		}
		return false, nil
	case "eth_blockNumber":
		return hexutil.EncodeUint64(w.headBlock()), nil
	case "eth_getBlockByNumber":
		n, ok := w.blockArg(r, 0)
		if !ok {
			return nil, nil
		}
		sd := w.byNum[n]
		if sd == nil {
			return nil, nil
		}
		full := len(r.Params) > 1 && string(r.Params[1]) == "true"
		return w.blockJSON(sd, full), nil
	case "eth_getTransactionReceipt":
		h := common.HexToHash(str(r.Params[0]))
		if at, ok := w.byTx[h]; ok {
			if at.s.n > w.headSlot() {
				return nil, nil
			}
			return w.receipt(at), nil
		}
		return c.receipt(h), nil
	case "eth_getTransactionByHash":
		return nil, nil
	case "eth_getLogs":
		return w.logs(r)
	case "eth_call":
		n, ok := w.blockArg(r, 1)
		if !ok {
			return nil, &rpcError{-32000, "header not found", ""}
		}
		return c.call(r.Params[0], n, str(r.Params[1]) == "latest" || str(r.Params[1]) == "pending")
	case "eth_getBalance":
		n, ok := w.blockArg(r, 1)
		if !ok {
			return nil, &rpcError{-32000, "header not found", ""}
		}
		a := common.HexToAddress(str(r.Params[0]))
		if a == poolAddr {
			return hexutil.EncodeBig(c.balanceAt(n)), nil
		}
		return "0xde0b6b3a7640000", nil
	case "eth_getTransactionCount":
		return hexutil.EncodeUint64(c.nonce(common.HexToAddress(str(r.Params[0])))), nil
	case "eth_getCode":
		return "0x6001", nil
	case "eth_gasPrice":
		return "0x3b9aca00", nil
	case "eth_maxPriorityFeePerGas":
		return "0x3b9aca00", nil
	case "eth_estimateGas":
		return c.estimate(p, r.Params[0])
	case "eth_sendRawTransaction":
		return c.send(p, str(r.Params[0]))
	}
	eng.count("unknown rpc " + r.Method)
	return nil, &rpcError{-32601, "the method " + r.Method + " does not exist", ""}
}

func (w *world) blockJSON(sd *slotData, full bool) any {
	b := sd.blk
	var m map[string]any
	x, err := b.header.MarshalJSON()
	if err != nil {
		panic(err)
	}
	_ = json.Unmarshal(x, &m)
	m["hash"] = b.header.Hash().Hex()
	m["uncles"] = []string{}
	m["size"] = "0x500"
	txs := []any{}
	for i, t := range b.txs {
		if !full {
			txs = append(txs, t.tx.Hash().Hex())
			continue
		}
		tj, err := t.tx.MarshalJSON()
		if err != nil {
			panic(err)
		}
		var tm map[string]any
		_ = json.Unmarshal(tj, &tm)
		tm["from"] = t.from.Hex()
		tm["blockNumber"] = hexutil.EncodeUint64(b.num)
		tm["blockHash"] = b.header.Hash().Hex()
		tm["transactionIndex"] = hexutil.EncodeUint64(uint64(i))
		txs = append(txs, tm)
	}
	m["transactions"] = txs
	return m
}

func (w *world) receipt(at txAt) any {
	b := at.s.blk
	t := b.txs[at.i]
	cum := uint64(0)
	for j := 0; j <= at.i; j++ {
		cum += b.txs[j].gasUsed
	}
	logs := t.logs
	if logs == nil {
		logs = []*types.Log{}
	}
	rc := &types.Receipt{Type: t.tx.Type(), Status: t.status, CumulativeGasUsed: cum, Logs: logs, TxHash: t.tx.Hash(), GasUsed: t.gasUsed, EffectiveGasPrice: new(big.Int).Add(b.baseFee, t.tip), BlockHash: b.header.Hash(), BlockNumber: b.header.Number, TransactionIndex: uint(at.i)}
	return rc
}

func (w *world) logs(r rpcReq) (any, *rpcError) {
	var f struct {
		FromBlock string            `json:"fromBlock"`
		ToBlock   string            `json:"toBlock"`
		Address   json.RawMessage   `json:"address"`
		Topics    []json.RawMessage `json:"topics"`
	}
	if err := json.Unmarshal(r.Params[0], &f); err != nil {
		return nil, &rpcError{-32602, err.Error(), ""}
	}
	head := w.headBlock()
	res := func(s string, def uint64) uint64 {
		switch s {
		case "", "latest", "pending":
			return head
		case "earliest":
			return 0
		case "finalized", "safe":
			return w.slot(w.finalized()).blkNum
		}
		n, err := hexutil.DecodeUint64(s)
		if err != nil {
			return def
		}
		return n
	}
	from, to := res(f.FromBlock, 0), res(f.ToBlock, head)
	if strings.Contains(f.FromBlock, "0x") && f.ToBlock == "" {
		to = head
	}
	if !strings.Contains(strings.ToLower(string(f.Address)), strings.ToLower(poolAddr.Hex())) {
		return []any{}, nil
	}
	var want []common.Hash
	if len(f.Topics) > 0 {
		var one string
		var many []string
		if json.Unmarshal(f.Topics[0], &one) == nil && one != "" {
			want = append(want, common.HexToHash(one))
		} else if json.Unmarshal(f.Topics[0], &many) == nil {
			for _, m := range many {
				want = append(want, common.HexToHash(m))
			}
		}
	}
	out := []*types.Log{}
	if from < w.block0 {
		from = w.block0
	}
	for n := from; n <= to && n <= head; n++ {
		sd := w.byNum[n]
		if sd == nil || sd.n > w.headSlot() {
			continue
		}
		for _, e := range sd.blk.events {
			for _, t := range want {
				if e.log.Topics[0] == t {
					out = append(out, e.log)
				}
			}
			if len(want) == 0 {
				out = append(out, e.log)
			}
		}
	}
	return out, nil
}

// ---- the pool contract

type submission struct {
	node    int // -1: a peer that runs no code here
	from    common.Address
	slot    uint64
	root    common.Hash
	at      time.Duration
	to      common.Address
	value   *big.Int
	hash    common.Hash
	mined   bool
	minedAt time.Duration
	ok      bool
	block   uint64
	dropped bool
	before  uint64 // consolidated slot when sent
	inc     int
}

type claim struct {
	block  uint64
	who    common.Address
	amount *big.Int
}

type consolidation struct {
	slot uint64
	root common.Hash
	at   time.Duration
}

type contractSim struct {
	w       *world
	members []common.Address
	quorumN uint64
	last    uint64 // last consolidated slot
	init    uint64 // the slot the contract was initialised with
	root    common.Hash
	voted   map[common.Address]common.Hash
	votes   map[common.Hash]uint64
	vslot   map[common.Hash]uint64
	hist    []consolidation
	subs    []*submission
	claims  []claim
	claimed map[common.Address]*big.Int
	sent    int
	nonces  map[common.Address]uint64
}

func newContract(w *world) *contractSim {
	c := &contractSim{w: w, voted: map[common.Address]common.Hash{}, votes: map[common.Hash]uint64{}, vslot: map[common.Hash]uint64{}, claimed: map[common.Address]*big.Int{}, nonces: map[common.Address]uint64{}, quorumN: uint64(w.plan.Quorum)}
	for i := range w.plan.Nodes {
		c.members = append(c.members, w.addr(acctOracle0+i))
	}
	for i := range w.plan.Peers {
		c.members = append(c.members, w.addr(acctOracle0+10+i))
	}
	return c
}

// cur gives the value of a setting after the events up to a block.
func (c *contractSim) setting(kind string, def *event, upTo uint64) *event {
	cur := def
	for n := c.w.block0; n <= upTo; n++ {
		sd := c.w.byNum[n]
		if sd == nil {
			continue
		}
		for _, e := range sd.blk.events {
			if e.kind == kind {
				cur = e
			}
		}
	}
	return cur
}

func (c *contractSim) call(arg json.RawMessage, n uint64, latest bool) (any, *rpcError) {
	var a struct {
		To    string `json:"to"`
		Data  string `json:"data"`
		Input string `json:"input"`
	}
	_ = json.Unmarshal(arg, &a)
	d := a.Input
	if d == "" {
		d = a.Data
	}
	data := common.FromHex(d)
	if common.HexToAddress(a.To) != poolAddr || len(data) < 4 {
		return "0x", nil
	}
	m, err := c.w.pabi.MethodById(data[:4])
	if err != nil {
		eng.count("unknown contract call " + hex.EncodeToString(data[:4]))
		return nil, &rpcError{3, "execution reverted", "0x"}
	}
	in, err := m.Inputs.Unpack(data[4:])
	if err != nil {
		return nil, &rpcError{3, "execution reverted", "0x"}
	}
	var out []any
	switch m.Name {
	case "addressToVotedReportHash":
		out = []any{c.voted[in[0].(common.Address)]}
	case "reportHashToReport":
		h := common.Hash(in[0].([32]byte))
		out = []any{c.vslot[h], c.votes[h]}
	case "getAllOracleMembers":
		out = []any{c.members}
	case "checkpointSlotSize":
		out = []any{c.setting("cp", &event{val: c.w.plan.CP}, n).val}
	case "lastConsolidatedSlot":
		out = []any{c.last}
	case "quorum":
		out = []any{c.quorumN}
	case "deploymentBlockNumber":
		out = []any{new(big.Int).SetUint64(c.w.block0)}
	case "poolFee":
		out = []any{c.setting("fee", &event{amount: big.NewInt(int64(c.w.plan.Fee))}, n).amount}
	case "poolFeeRecipient":
		out = []any{c.setting("recipient", &event{addr: c.w.feeAddr}, n).addr}
	case "rewardsRoot":
		out = []any{c.root}
	case "subscriptionCollateral":
		out = []any{c.setting("collateral", &event{amount: c.w.collat}, n).amount}
	case "claimedBalance":
		out = []any{c.claimedAt(in[0].(common.Address), n)}
	default:
		return nil, &rpcError{3, "execution reverted", "0x"}
	}
	b, err := m.Outputs.Pack(out...)
	if err != nil {
		panic(err)
	}
	return hexutil.Encode(b), nil
}

func (c *contractSim) claimedAt(a common.Address, n uint64) *big.Int {
	s := new(big.Int)
	for _, x := range c.claims {
		if x.who == a && x.block <= n {
			s.Add(s, x.amount)
		}
	}
	return s
}

func (c *contractSim) balanceAt(n uint64) *big.Int {
	s := new(big.Int)
	for i, sd := range c.w.slots {
		if sd.blkNum <= n {
			s.Set(c.w.poolIn[i])
		} else {
			break
		}
	}
	for _, x := range c.claims {
		if x.block <= n {
			s.Sub(s, x.amount)
		}
	}
	return s
}

func reportHash(slot uint64, root common.Hash) common.Hash {
	return crypto.Keccak256Hash(big.NewInt(0).SetUint64(slot).FillBytes(make([]byte, 8)), root[:])
}

const revertSlot = "DappnodeSmoothingPool::submitReport: Slot number invalid"

// try checks a report against the contract's rules.
func (c *contractSim) try(from common.Address, slot uint64, root common.Hash) string {
	member := false
	for _, m := range c.members {
		member = member || m == from
	}
	if !member {
		return "DappnodeSmoothingPool::onlyOracle: Only oracle member"
	}
	if slot != c.last+c.w.plan.CP {
		return revertSlot
	}
	if c.voted[from] == reportHash(slot, root) {
		return "DappnodeSmoothingPool::submitReport: Already voted this report"
	}
	return ""
}

func (c *contractSim) vote(from common.Address, slot uint64, root common.Hash) bool {
	if c.try(from, slot, root) != "" {
		return false
	}
	if old, ok := c.voted[from]; ok && c.votes[old] > 0 && c.vslot[old] == slot {
		c.votes[old]--
		if c.votes[old] == 0 {
			delete(c.votes, old)
			delete(c.vslot, old)
		}
	}
	h := reportHash(slot, root)
	c.voted[from] = h
	c.votes[h]++
	c.vslot[h] = slot
	if c.votes[h] >= c.quorumN {
		c.last, c.root = slot, root
		c.hist = append(c.hist, consolidation{slot, root, eng.now()})
		delete(c.votes, h)
		delete(c.vslot, h)
		eng.ev(nil, "consol", fmt.Sprint(slot, root.Hex()))
		eng.count("checkpoint consolidated")
	}
	return true
}

// quorums are the values the quorum has during the run.
func (p *Plan) quorums() []int {
	q := []int{p.Quorum}
	for _, o := range p.Ops {
		if o.K == "quorum" {
			q = append(q, o.X)
		}
	}
	return q
}

func (c *contractSim) nonce(a common.Address) uint64 { return c.nonces[a] }

func (c *contractSim) estimate(p *proc, arg json.RawMessage) (any, *rpcError) {
	var a struct {
		From, To, Data, Input string
	}
	_ = json.Unmarshal(arg, &a)
	d := a.Input
	if d == "" {
		d = a.Data
	}
	slot, root, ok := c.report(common.FromHex(d))
	if common.HexToAddress(a.To) != poolAddr || !ok {
		return "0x5208", nil
	}
	noteAttempt(p, common.HexToAddress(a.From), slot)
	if e := c.try(common.HexToAddress(a.From), slot, root); e != "" {
		return nil, revert(e)
	}
	return "0x30d40", nil
}

func revert(msg string) *rpcError {
	d := append(common.FromHex("08c379a0"), common.LeftPadBytes([]byte{32}, 32)...)
	d = append(d, common.LeftPadBytes(big.NewInt(int64(len(msg))).Bytes(), 32)...)
	d = append(d, common.RightPadBytes([]byte(msg), (len(msg)+31)/32*32)...)
	return &rpcError{3, "execution reverted: " + msg, hexutil.Encode(d)}
}

func (c *contractSim) report(data []byte) (uint64, common.Hash, bool) {
	if len(data) < 4 {
		return 0, common.Hash{}, false
	}
	m, err := c.w.pabi.MethodById(data[:4])
	if err != nil || m.Name != "submitReport" {
		return 0, common.Hash{}, false
	}
	in, err := m.Inputs.Unpack(data[4:])
	if err != nil {
		return 0, common.Hash{}, false
	}
	return in[0].(uint64), common.Hash(in[1].([32]byte)), true
}

func (c *contractSim) send(p *proc, raw string) (any, *rpcError) {
	tx := new(types.Transaction)
	if err := tx.UnmarshalBinary(common.FromHex(raw)); err != nil {
		return nil, &rpcError{-32000, err.Error(), ""}
	}
	from, err := types.Sender(types.LatestSignerForChainID(new(big.Int).SetUint64(c.w.net.chain)), tx)
	if err != nil {
		return nil, &rpcError{-32000, "invalid sender", ""}
	}
	for _, s := range c.subs {
		if s.hash == tx.Hash() {
			return nil, &rpcError{-32000, "already known", ""}
		}
	}
	if tx.Nonce() < c.nonces[from] {
		return nil, &rpcError{-32000, "nonce too low", ""}
	}
	c.nonces[from] = tx.Nonce() + 1
	s := &submission{node: p.h.id, from: from, at: eng.now(), value: tx.Value(), hash: tx.Hash(), before: c.last, inc: p.inc}
	if tx.To() != nil {
		s.to = *tx.To()
	}
	var ok bool
	s.slot, s.root, ok = c.report(tx.Data())
	c.subs = append(c.subs, s)
	c.sent++
	eng.ev(p, "tx", fmt.Sprint(s.slot, s.root.Hex(), ok))
	eng.count("report transaction")
	noteSubmission(p, s, ok)
	delay, fate := 1, ""
	for _, f := range c.w.plan.TxFates {
		if f.N == c.sent {
			fate = f.Kind
			if f.Kind == "delay" {
				delay += f.Arg
			}
			eng.count("transaction fault: " + f.Kind)
		}
	}
	go func() {
		// It is mined in a block some slots later.
		h := c.w.headSlot() + uint64(delay)
		time.Sleep(time.Until(c.w.slotTime(h)))
		if fate == "drop" {
			s.dropped = true
			if c.nonces[from] == tx.Nonce()+1 {
				c.nonces[from] = tx.Nonce()
			}
			return
		}
		s.mined = true
		s.minedAt = eng.now()
		s.block = c.w.headBlock() + 1
		if fate == "revert" {
			return
		}
		s.ok = c.vote(from, s.slot, s.root)
		eng.ev(nil, "mined", fmt.Sprint(s.slot, s.ok))
	}()
	if fate == "lostreply" {
		return nil, &rpcError{-32603, "request timed out", ""}
	}
	return tx.Hash().Hex(), nil
}

func (c *contractSim) receipt(h common.Hash) any {
	for _, s := range c.subs {
		if s.hash == h && s.mined {
			st := uint64(0)
			if s.ok {
				st = 1
			}
			return &types.Receipt{Type: 2, Status: st, CumulativeGasUsed: 100000, Logs: []*types.Log{}, TxHash: h, GasUsed: 100000, EffectiveGasPrice: big.NewInt(1), BlockHash: common.Hash{8}, BlockNumber: new(big.Int).SetUint64(s.block)}
		}
	}
	return nil
}

// ---- relays

func (w *world) relay(pub, host string) (int, []byte) {
	h := hashStr(pub + host)
	if !strings.HasPrefix(pub, "0x") || h%3 == 0 {
		return 400, []byte(`{"code":400,"message":"no registration found for validator ` + pub + `"}`)
	}
	fee := poolAddr
	if h%3 == 1 {
		fee = w.addr(90)
	}
	return 200, []byte(fmt.Sprintf(`{"message":{"fee_recipient":"%s","gas_limit":"30000000","timestamp":"1681300000","pubkey":"%s"},"signature":"0x%0192x"}`, strings.ToLower(fee.Hex()), pub, 1))
}
