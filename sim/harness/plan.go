package main

// A Plan is everything one simulated run depends on. It is generated from a
// seed, and it is the replay file.

type Plan struct {
	Prop    string     `json:"prop"`
	Seed    uint64     `json:"seed"`
	Net     string     `json:"net"`
	Deploy  uint64     `json:"deploy"`             // slot of the contract's deployment
	Start   int        `json:"start"`              // slots that exist when the oracles start
	Len     int        `json:"len"`                // slots with planned content
	Settle  int        `json:"settle"`             // further slots for the system to settle
	CP      uint64     `json:"cp"`                 // slots between checkpoints
	Off     int        `json:"init_off,omitempty"` // the contract's first slot is this far from where the first checkpoint needs it
	Fee     int        `json:"fee"`
	Init    int        `json:"init"` // how initialize() was called: 0 directly, 1 by a proxy's creation, 2 unreadable
	Collat  string     `json:"collateral"`
	FeeAcct int        `json:"fee_acct"`
	Vals    []ValPlan  `json:"vals"`
	Outs    int        `json:"outsiders"` // validators after Vals that never touch the pool
	News    []ValPlan  `json:"newcomers,omitempty"` // validators after the outsiders, in the order in which they appear
	Ops     []Op       `json:"ops"`
	Nodes   []NodePlan `json:"nodes"`
	Peers   []PeerPlan `json:"peers"`
	Quorum  int        `json:"quorum"` // at first; "quorum" ops change it
	Faults  []Fault    `json:"faults"`
	Acts    []Act      `json:"acts"`
	Reqs    []Req      `json:"reqs"`
	Trigs   []Trig     `json:"trigs"`
	Moments []Moment   `json:"moments"`
	PreMean int        `json:"pre_mean"`
	Sites   []SitePlan `json:"sites"`
	SyncP   int        `json:"sync_p"` // percent of the statements around locks that are suspended
	Fin     []FinPlan  `json:"fin"`
	TxFates []TxFate   `json:"tx_fates"`
	LatMax  int        `json:"lat_max_ms"`
	Poll    int        `json:"poll_ms"`  // between complete checks of a node's state
	Catch   int        `json:"catch_ms"` // the same while it is catching up
	Views   int        `json:"views_ms"` // between checks of some other endpoint
	Sweep   bool       `json:"sweep"`    // all endpoints are checked at the end
}

type ValPlan struct {
	Cred   int    `json:"cred"` // 0 BLS, 1 execution, 2 compounding, 3 malformed
	Acct   int    `json:"acct"` // withdrawal account
	Eff    int    `json:"eff"`  // effective balance in Gwei/1e9 units (ETH)
	Status string `json:"status,omitempty"`
	Born   int    `json:"born,omitempty"` // of newcomers: first slot whose state knows it
}

// Op is one thing that happens on chain at slot Deploy+S.
type Op struct {
	S int    `json:"s"`
	K string `json:"k"`
	V int    `json:"v,omitempty"`
	A int    `json:"a,omitempty"`
	W string `json:"w,omitempty"`
	T string `json:"t,omitempty"`
	X int    `json:"x,omitempty"`
}

type NodePlan struct {
	DryRun  bool   `json:"dry_run,omitempty"`
	Level   string `json:"level,omitempty"`
	Retries int    `json:"retries,omitempty"`
	Sync    string `json:"sync,omitempty"`  // checkpoint sync URL
	Start   int    `json:"start,omitempty"` // ms
	Pool    string `json:"pool,omitempty"`
	EP      string `json:"ep,omitempty"`     // suffix of the beacon endpoint URL
	Held    bool   `json:"held,omitempty"`   // does not start by itself
	Expect  string `json:"expect,omitempty"` // "refuse": must never come up
}

type PeerPlan struct {
	Delay int    `json:"delay"` // seconds after a checkpoint is finalized
	Kind  string `json:"kind"`  // honest, wrong, silent
}

// Fault makes requests of one node fail during a window.
type Fault struct {
	Node  int    `json:"node"`
	From  int    `json:"from"` // ms
	Dur   int    `json:"dur"`
	Kind  string `json:"kind"`
	Match string `json:"match,omitempty"`
	Prob  int    `json:"prob"`
	Max   int    `json:"max,omitempty"`
	Arg   int    `json:"arg,omitempty"`
}

// Act happens to one host: at a time, at its n-th operation, or at its n-th
// change to the disk.
type Act struct {
	Node int    `json:"node"`
	At   int    `json:"at,omitempty"` // ms
	Op   uint64 `json:"op,omitempty"`
	FsOp uint64 `json:"fs_op,omitempty"`
	Kind string `json:"kind"`
	Dur  int    `json:"dur,omitempty"`
	Arg  int    `json:"arg,omitempty"`
	What string `json:"what,omitempty"`
}

type Req struct {
	Node int    `json:"node"`
	At   int    `json:"at"` // ms
	Path string `json:"path"`
	N    int    `json:"n,omitempty"`
}

// Trig fires at the N-th preemption.
type Trig struct {
	N    int    `json:"n"`
	Path string `json:"path,omitempty"`
	Kind string `json:"kind,omitempty"`
	Dur  int    `json:"dur,omitempty"`
	Arg  int    `json:"arg,omitempty"`
	What string `json:"what,omitempty"`
	Cold bool   `json:"cold,omitempty"`
}

// Moment fires once, while node Node works on slot Deploy+S: after N statements
// around locks, or after N statements of any kind if Fine. The goroutine that
// got there rests for Ms milliseconds, in which the request or signal is
// served by others.
type Moment struct {
	Node int    `json:"node"`
	S    int    `json:"s"`
	N    int    `json:"n"`
	Fine bool   `json:"fine,omitempty"`
	Ms   int    `json:"ms"`
	Path string `json:"path,omitempty"`
	Kind string `json:"kind,omitempty"`
	done bool
}

type SitePlan struct {
	Site  int `json:"site"`
	First int `json:"first"`
	Every int `json:"every"`
	Max   int `json:"max"`
}

// FinPlan: finality stands still between two head slots.
type FinPlan struct {
	From int `json:"from"`
	To   int `json:"to"`
}

type TxFate struct {
	N    int    `json:"n"`    // n-th transaction sent
	Kind string `json:"kind"` // delay, drop, revert, lostreply
	Arg  int    `json:"arg,omitempty"`
}
