package main

import (
	"math/big"
)

// Scenario is one simulated run: the initial world, the configuration, and every step the simulator
// takes, faults included. Running it is a pure function of it and the code under test.
type Scenario struct {
	Property string     `json:"property"`
	Seed     uint64     `json:"seed"`
	Cfg      Config     `json:"cfg"`
	Progs    []Prog     `json:"progs"`
	Accts    []AcctSpec `json:"accts"`
	Steps    []Step     `json:"steps"`
}

// Config of the simulated deployment.
type Config struct {
	Shards uint32     `json:"shards"`
	Warm   bool       `json:"warm,omitempty"`
	NoSave bool       `json:"nosave,omitempty"` // the compiled code cache keeps nothing
	Sched  uint64     `json:"sched"`            // seed of the gas schedule
	Diff   bool       `json:"diff,omitempty"`   // every execution is repeated on a fresh host
	Epochs *Epochs    `json:"epochs,omitempty"` // activation of protocol features
	Chan   *ChanCfg   `json:"chan,omitempty"`   // the VM also runs in a process of its own
	Disk   *DiskCfg   `json:"disk,omitempty"`   // the debugger runs on a disk
	Mandos *MandosCfg `json:"mandos,omitempty"` // a test scenario is run by the scenario executor
}

// Epochs are those in which features of the protocol become active.
type Epochs struct {
	AoT  uint32 `json:"aot"`  // preparation and reuse of compiled code
	Lock uint32 `json:"lock"` // gas is locked for callbacks only as needed
	ESDT uint32 `json:"esdt"` // the functions for ESDT tokens
	V3   uint32 `json:"v3"`   // deployments by contracts use their nonce, callbacks get the value sent back
}

// ChanCfg describes the channel between the node and its VM processes.
type ChanCfg struct {
	Marsh   int    `json:"marsh"`          // marshalizer of the messages
	MaxLoop int    `json:"maxloop"`        // milliseconds
	Frag    int    `json:"frag"`           // how reads are cut
	Pipe    int    `json:"pipe,omitempty"` // how much a pipe holds
	Seed    uint64 `json:"seed"`           // scheduling of processes and threads
}

// DiskCfg describes the simulated processes of the debugger.
type DiskCfg struct {
	Seed uint64 `json:"seed"`           // scheduling of threads, and what a power loss keeps
	Once bool   `json:"once"`           // every step is a process of its own
	HTTP bool   `json:"http,omitempty"` // requests reach a server
}

// MandosCfg describes how a test scenario is written and run.
type MandosCfg struct {
	CheckGas bool   `json:"checkgas"`
	Schedule string `json:"schedule,omitempty"`
	Style    uint64 `json:"style"` // how it is written
}

// AcctSpec is an account of the initial world.
type AcctSpec struct {
	Addr    HexBytes    `json:"addr"`
	Nonce   uint64      `json:"nonce,omitempty"`
	Balance string      `json:"balance,omitempty"`
	Prog    int         `json:"prog,omitempty"` // index+1 of the program that is its code
	Meta    HexBytes    `json:"meta,omitempty"`
	Owner   HexBytes    `json:"owner,omitempty"`
	Store   []KV        `json:"store,omitempty"`
	Tokens  []TokenSpec `json:"tokens,omitempty"`
	Roles   []HexBytes  `json:"roles,omitempty"` // tokens it may create and destroy
	Dev     int64       `json:"dev,omitempty"`   // developer rewards
	User    HexBytes    `json:"user,omitempty"`
	Async   string      `json:"async,omitempty"`
}

type KV struct {
	K HexBytes `json:"k"`
	V HexBytes `json:"v"`
}

type TokenSpec struct {
	Name  HexBytes `json:"name"`
	Nonce uint64   `json:"nonce,omitempty"`
	Value int64    `json:"value"`
	Attr  uint64   `json:"attr,omitempty"` // seed of its attributes, roles and flags
}

// Step is one action of the simulator.
//
//	call      a transaction from From to contract To (also protocol functions and upgrades)
//	deploy    a transaction that deploys program Prog
//	deliver   one message in flight, chosen by N, reaches its shard
//	block     a new block (N: time step, may be large)
//	schedule  the gas schedule changes to the one of seed N; Mode: "" between executions,
//	          "bad" with an invalid schedule, "mid" requested while the next step executes
//	restart   the host of shard N is replaced by a new one (the compiled code cache survives)
//	dropcache the compiled code cache of shard N is emptied
//	version   the node asks the VM process for its version (IPC runs, like the following)
//	diagnose  the VM process is made to wait N milliseconds
//	probe     a request that the simulator answers itself, with N node callbacks
//	parallel  several threads of the node use the driver at once
//	vmkill, vmstop, close  the VM process of shard N dies, stops or is closed by the node
//	account, query, upgrade, bad  requests to the debugger (debugger runs), the last of them invalid
//	setstate, transfer, reward, query, check, external, dump  steps of a test scenario (scenario runs)
//	deviate   the whole scenario runs once more with the N-th claim made false (Mode "bad") or
//	          weakened ("soft"), or with a broken file ("file")
//	directory the scenario runs in a directory with others
//	poison    every entry of the compiled code cache of shard N is overwritten with garbage
type Step struct {
	Kind   string         `json:"kind"`
	From   HexBytes       `json:"from,omitempty"`
	To     HexBytes       `json:"to,omitempty"`
	Func   string         `json:"func,omitempty"`
	Args   []HexBytes     `json:"args,omitempty"`
	Value  string         `json:"value,omitempty"`
	Gas    uint64         `json:"gas,omitempty"`
	Locked uint64         `json:"locked,omitempty"`
	Tight  uint64         `json:"tight,omitempty"` // the gas is chosen around what the execution needs
	Type   int            `json:"type,omitempty"`  // call type given to the VM
	Prog   int            `json:"prog,omitempty"`
	Meta   HexBytes       `json:"meta,omitempty"`
	N      uint64         `json:"n,omitempty"`
	Mode   string         `json:"mode,omitempty"`
	Fault  map[string]int `json:"fault,omitempty"` // service of the node -> n-th call fails ("panic:" prefix: panics)
	Engine map[string]int `json:"engine,omitempty"`
	Chan   []ChanFault    `json:"chan,omitempty"` // faults of the channel during this step
	Sub    []Step         `json:"sub,omitempty"`  // what several threads do at once
	Accts  []AcctSpec     `json:"accts,omitempty"`
	Tok    *TokenSpec     `json:"tok,omitempty"`
}

func bigOf(s string) *big.Int {
	v := new(big.Int)
	if s != "" {
		v.SetString(s, 10)
	}
	return v
}

func rawArgs(a []HexBytes) [][]byte {
	out := [][]byte{}
	for _, x := range a {
		out = append(out, append([]byte{}, x...))
	}
	return out
}

// ChanFault is a fault of a channel or a file: at the N-th event of kind At, counted from the start of
// the step, something of Kind happens.
type ChanFault struct {
	Kind string `json:"kind"`
	At   string `json:"at,omitempty"`
	N    int    `json:"n"`
	V    int64  `json:"v,omitempty"`
}
