package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
)

// The workload generator: every choice comes from one seeded generator. Each run draws its own mix
// of features, call graphs, fault kinds and sizes.

type gen struct {
	tame     bool
	r        *rand.Rand
	prop     string
	sc       *Scenario
	users    [][]byte
	conts    [][]byte // contracts in the initial world
	contPr   []int    // their programs
	owners   [][]byte // their owners
	tokens   [][]byte
	odd      [][]byte // other addresses
	mix      map[string]int
	keys     [][]byte
	hot      bool // programs may loop or recurse
	creators [][]byte
	nonces   map[string]uint64
}

func (g *gen) n(k int) int            { return g.r.Intn(k) }
func (g *gen) p(percent int) bool     { return g.r.Intn(100) < percent }
func (g *gen) pick(b [][]byte) []byte { return b[g.r.Intn(len(b))] }

func (g *gen) addr(shard uint32, sc bool) []byte {
	a := make([]byte, 32)
	g.r.Read(a)
	if sc {
		copy(a, make([]byte, 8))
		copy(a[8:], vmTypeBytes)
	} else {
		a[0] |= 1
	}
	a[30] = byte(g.r.Intn(256))
	a[31] = byte(g.r.Intn(80)*3) + byte(shard)
	for uint32(a[31])%g.sc.Cfg.Shards != shard {
		a[31]++
	}
	return a
}

func pad32b(v *big.Int) []byte {
	b := v.Bytes()
	return append(make([]byte, 32-len(b)), b...)
}

// weights of the operations of contract programs.
var baseMix = map[string]int{
	"store": 10, "load": 8, "loadother": 3, "lock": 2, "finish": 6, "log": 3, "getters": 6, "args": 5, "transfer": 5,
	"transferexec": 3, "esdt": 4, "dest": 8, "same": 3, "readonly": 3, "bycaller": 2, "delegate": 1, "create": 2,
	"upgrade": 1, "async": 4, "signal": 1, "trap": 1, "burn": 2, "loop": 0, "grow": 1, "bigint": 5, "crypto": 1, "hostile": 2,
	"retdata": 3, "balance": 3, "mem": 3, "bigstore": 2, "gas": 1, "nonpay": 1, "ret": 1, "blk": 2,
	"builtin": 2,
}

// focus raises what a property is about.
var focus = map[string]map[string]int{
	"C01": {"builtin": 4, "dest": 14, "signal": 4, "trap": 4, "esdt": 8, "transfer": 10, "create": 4, "same": 6, "store": 14, "log": 6, "transferexec": 6},
	"C02": {"builtin": 4, "burn": 8, "dest": 12, "create": 4, "async": 6, "gas": 8, "loop": 1, "esdt": 6, "bigint": 14, "crypto": 4, "hostile": 4},
	"C03": {"builtin": 8, "transfer": 14, "transferexec": 10, "esdt": 14, "async": 8, "balance": 10, "bycaller": 6, "delegate": 4, "create": 4},
	"C05": {"hostile": 30, "trap": 4, "grow": 5, "loop": 1, "upgrade": 3},
	"C06": {"builtin": 3, "store": 24, "load": 24, "loadother": 12, "lock": 12, "same": 8, "dest": 10, "bigstore": 8, "esdt": 4, "delegate": 3},
	"C07": {"builtin": 3, "readonly": 20, "store": 12, "transfer": 8, "log": 8, "esdt": 6, "create": 5, "async": 5, "upgrade": 3, "same": 6},
	"C08": {"builtin": 4, "async": 24, "finish": 10, "transfer": 8, "esdt": 8, "signal": 3},
	"C09": {"create": 22, "upgrade": 14, "signal": 3},
	"C10": {"dest": 18, "bigint": 16, "mem": 14, "getters": 14, "args": 10, "retdata": 6},
	"C12": {"builtin": 3, "dest": 14, "same": 8, "bycaller": 10, "delegate": 5, "getters": 10, "readonly": 5},
	"C13": {"builtin": 7, "finish": 16, "log": 14, "transfer": 10, "dest": 14, "retdata": 14, "esdt": 8, "transferexec": 8},
	"C14": {"builtin": 4, "dest": 24, "same": 12, "readonly": 6, "delegate": 4},
	"M01": {"builtin": 7},
	"C15": {"async": 14, "transferexec": 10, "create": 10, "transfer": 12, "esdt": 8, "dest": 10, "getters": 8, "upgrade": 4},
}

// stateful is a second focus of C05: what an interrupted execution could leave behind.
var stateful = map[string]int{"lock": 16, "store": 20, "bigstore": 6, "dest": 10, "same": 5, "readonly": 6, "create": 5, "async": 6, "upgrade": 3,
	"esdt": 6, "bigint": 8, "hostile": 4}

var funcNames = []string{"f0", "f1", "f2", "f3"}

func generate(prop string, seed uint64) *Scenario {
	if prop[0] == 'I' {
		return generateChan(prop, seed)
	}
	if prop[0] == 'M' {
		return generateMandos(prop, seed)
	}
	if prop[0] == 'D' {
		return generateDisk(prop, seed)
	}
	g := newGen(prop, seed)
	g.world()
	g.steps()
	return g.sc
}

// newGen draws the configuration and the mix of operations of a run.
func newGen(prop string, seed uint64) *gen {
	g := &gen{r: rand.New(rand.NewSource(int64(seed*2654435761 + uint64(len(prop))*97 + hashStr(prop)))), prop: prop}
	g.sc = &Scenario{Property: prop, Seed: seed}
	c := &g.sc.Cfg
	c.Shards = uint32([]int{1, 1, 2, 2, 3}[g.n(5)])
	if prop == "C08" {
		c.Shards = uint32(1 + g.n(3))
	}
	if prop == "C07" || prop == "C10" || prop == "C14" {
		c.Shards = uint32(1 + g.n(10)/8)
	}
	c.Sched = uint64(g.n(6))
	if c.Sched > 0 {
		c.Sched = 1 + uint64(g.n(1000))
	}
	c.NoSave = g.p(15)
	c.Diff = prop == "C04" || g.p(3)
	if prop == "C15" || (prop[0] == 'C' || prop[0] == 'I') && g.p(12) {
		e := func() uint32 { return []uint32{0, 3, 4, 4, 5, 7, 1 << 31}[g.n(7)] }
		c.Epochs = &Epochs{AoT: e(), Lock: e(), ESDT: e(), V3: e()}
	}
	// in tame runs the call graph is mostly acyclic, so that most calls succeed
	g.tame = g.p(map[string]int{"C14": 30}[prop]) || prop != "C14" && g.p(60)
	g.mix = map[string]int{}
	for k, w := range baseMix {
		g.mix[k] = w
	}
	aim := focus[prop]
	if prop == "C05" && g.p(40) {
		aim = stateful
	}
	for k, w := range aim {
		g.mix[k] = w
	}
	// swarm: some operations are missing from a run
	for _, k := range keysOfInt(g.mix) {
		if g.p(12) && aim[k] == 0 {
			g.mix[k] = 0
		}
	}
	if prop[0] == 'D' {
		g.mix["builtin"] = 0 // its world has other protocol functions
	}
	return g
}

// world draws the accounts and programs.
func (g *gen) world() {
	c := &g.sc.Cfg
	for i := 0; i < 2+g.n(2); i++ {
		g.users = append(g.users, g.addr(uint32(i)%c.Shards, false))
	}
	nc := 2 + g.n(4)
	np := 1 + g.n(4)
	for i := 0; i < nc; i++ {
		g.conts = append(g.conts, g.addr(uint32(g.n(int(c.Shards))), true))
		g.contPr = append(g.contPr, g.n(np))
	}
	for i := 0; i < 1+g.n(2); i++ {
		g.tokens = append(g.tokens, []byte(fmt.Sprintf("TOK%c-%02x%02x", 'A'+i, g.n(256), g.n(256))))
	}
	if g.prop[0] == 'M' {
		g.mandosAddresses()
	}
	if g.prop[0] == 'D' {
		g.debugAddresses()
	}
	g.odd = [][]byte{g.addr(0, true), g.addr(uint32(g.n(int(c.Shards))), true), make([]byte, 32), g.addr(uint32(g.n(int(c.Shards))), false),
		bytes.Repeat([]byte{255}, 32)}
	for i := 0; i < 4; i++ {
		k := make([]byte, []int{1, 4, 31, 32, 33, 40, 64}[g.n(7)])
		g.r.Read(k)
		g.keys = append(g.keys, k)
	}
	g.keys = append(g.keys, []byte("key"), []byte{})
	for range g.conts {
		o := g.pick(g.users)
		if g.p(35) {
			o = g.pick(g.conts)
		}
		g.owners = append(g.owners, o)
	}
	for i := 0; i < np; i++ {
		g.sc.Progs = append(g.sc.Progs, g.prog(i))
	}
	g.accounts()
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h >> 20
}

func (g *gen) meta() HexBytes {
	var a, b byte
	if g.p(70) {
		a |= 1
	}
	if g.p(50) {
		a |= 4
	}
	if g.p(60) {
		b |= 2
	}
	return HexBytes{a, b}
}

func (g *gen) anyAddr() []byte {
	switch g.n(10) {
	case 0, 1:
		return g.pick(g.users)
	case 2:
		return g.pick(g.odd)
	}
	return g.pick(g.conts)
}

func (g *gen) value() *big.Int {
	switch g.n(8) {
	case 0, 1, 2:
		return new(big.Int)
	case 3:
		return big.NewInt(int64(1 + g.n(3)))
	case 4:
		return new(big.Int).Lsh(big.NewInt(1), uint(g.n(256)))
	}
	return big.NewInt(int64(g.n(2000)))
}

func (g *gen) blob(max int) []byte {
	b := make([]byte, g.n(max+1))
	g.r.Read(b)
	return b
}

func (g *gen) funcName() string {
	switch g.n(30) {
	case 0:
		return "init"
	case 1:
		return "callBack"
	case 2:
		return "nofunc"
	case 3:
		return ""
	case 4:
		return "ESDTTransfer"
	case 5:
		return "upgradeContract"
	case 6:
		return []string{"solidity.ctor", "memory", "ClaimDeveloperRewards", "f0@01", "SaveKeyValue", "withparam"}[g.n(6)]
	}
	return funcNames[g.n(len(funcNames))]
}

func (g *gen) callArgs() [][]byte {
	var a [][]byte
	for i := g.n(4); i > 0; i-- {
		a = append(a, g.blob(6))
	}
	if g.p(4) {
		a = append(a, g.blob(200))
	}
	return a
}

// prog makes one contract program.
func (g *gen) prog(i int) Prog {
	p := Prog{Salt: uint32(i + 1)}
	if g.p(10) {
		p.Pages = 1 + g.n(3)
	}
	if g.p(10) {
		p.MaxPg = p.Pages
		if p.MaxPg == 0 {
			p.MaxPg = 1
		}
		p.MaxPg += g.n(2)
	}
	b := &pb{g: g, p: &p, self: i}
	for _, n := range funcNames {
		b.fn(n, 1+g.n(7))
	}
	if g.p(70) {
		b.fn("callBack", g.n(6))
	}
	if g.p(60) {
		b.fn("init", g.n(4))
	}
	switch g.n(40) {
	case 0:
		p.Funcs = append(p.Funcs, Func{Name: "withparam", Params: "i"})
	case 1:
		p.Funcs = append(p.Funcs, Func{Name: "withresult", Result: "i"})
	case 2:
		p.Funcs = append(p.Funcs, Func{Name: "getCaller"})
	case 3:
		p.Exports = append(p.Exports, Export{Name: "SaveKeyValue"})
	}
	return p
}

// childCode is the code a contract deploys.
func (g *gen) childCode(self int) []byte {
	if g.p(60) && self > 0 {
		return g.sc.Progs[g.n(self)].Assemble()
	}
	p := Prog{Salt: uint32(1000 + g.n(50))}
	b := &pb{g: g, p: &p, self: 99, small: true}
	if g.p(70) {
		b.fn("init", g.n(3))
	}
	b.fn("f0", g.n(3))
	b.fn("f1", g.n(2))
	switch g.n(12) {
	case 0:
		p.Funcs = append(p.Funcs, Func{Name: "bad", Params: "i"})
	case 1:
		p.Raw = g.blob(60)
		if len(p.Raw) == 0 {
			p.Raw = []byte{0}
		}
	case 2:
		p.Exports = []Export{{Name: "SaveKeyValue", Func: 0}}
	case 3:
		p.NoMem = true
	case 4:
		p.Exports = []Export{{Name: "getCaller", Func: 0}}
	case 5:
		p.Imports = []Extern{{Name: "doesNotExist", Sig: "i"}}
	case 6:
		p.Exports = []Export{{Name: "caf\xc3\xa9", Func: 0}}
	case 7:
		p.Exports = []Export{{Name: "upgradeContract", Func: 0}}
	}
	return p.Assemble()
}

func (g *gen) accounts() {
	for _, u := range g.users {
		a := AcctSpec{Addr: u, Nonce: uint64(g.n(5)), Balance: "1000000"}
		if g.p(10) {
			a.Balance = new(big.Int).Lsh(big.NewInt(1), 200).String()
		}
		for _, t := range g.tokens {
			a.Tokens = append(a.Tokens, TokenSpec{Name: t, Value: int64(1000 + g.n(1000))})
			if g.p(30) {
				a.Tokens = append(a.Tokens, TokenSpec{Name: t, Nonce: uint64(1 + g.n(2)), Value: int64(1 + g.n(5))})
			}
		}
		g.sc.Accts = append(g.sc.Accts, a)
	}
	for i, c := range g.conts {
		a := AcctSpec{Addr: c, Nonce: uint64(g.n(3)), Balance: fmt.Sprint(g.n(3000)), Prog: g.contPr[i] + 1, Meta: g.meta(), Owner: g.owners[i]}
		if g.p(6) {
			a.Balance = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(int64(g.n(3000)))).String()
		}
		for k := g.n(4); k > 0; k-- {
			a.Store = append(a.Store, KV{g.pick(g.keys), append([]byte{1}, g.blob(40)...)})
		}
		for _, t := range g.tokens {
			if g.p(60) {
				a.Tokens = append(a.Tokens, TokenSpec{Name: t, Value: int64(g.n(1000) + 1)})
			}
			if g.p(25) {
				a.Tokens = append(a.Tokens, TokenSpec{Name: t, Nonce: 1, Value: int64(1 + g.n(5))})
			}
		}
		for _, t := range g.tokens {
			if g.p(50) {
				a.Roles = append(a.Roles, t)
			}
		}
		if g.p(50) {
			a.Dev = int64(g.n(300))
		}
		if len(a.Store) > 0 && len(a.Store[0].K) == 0 {
			a.Store = a.Store[1:]
		}
		g.sc.Accts = append(g.sc.Accts, a)
	}
}

func (g *gen) gas() uint64 {
	switch g.n(20) {
	case 0:
		return uint64(g.n(200))
	case 1, 2, 3:
		return uint64(g.n(30000))
	case 4, 5:
		return uint64(100000 + g.n(100000))
	}
	return uint64(300000 + g.n(300000))
}

// tight says whether, and how, the gas of a transaction is chosen around what it needs.
func (g *gen) tight() uint64 {
	if !g.p(15) {
		return 0
	}
	return 1 + g.r.Uint64()>>1
}

func (g *gen) callStep() Step {
	u := g.pick(g.users)
	st := Step{Kind: "call", From: u, To: g.pick(g.conts), Func: g.funcName(), Gas: g.gas(), Tight: g.tight()}
	if g.p(92) {
		st.Func = funcNames[g.n(len(funcNames))]
	}
	if g.tame && g.p(60) {
		st.Func, st.Gas = funcNames[0], uint64(500000+g.n(500000))
	}
	if g.p(4) {
		st.To = g.anyAddr()
	}
	for _, a := range g.callArgs() {
		st.Args = append(st.Args, a)
	}
	if g.p(35) {
		st.Value = fmt.Sprint(g.n(500))
	}
	if g.p(12) {
		t := g.pick(g.tokens)
		st.Args = append([]HexBytes{t, big.NewInt(int64(1 + g.n(100))).Bytes()}, append([]HexBytes{HexBytes(funcNames[g.n(4)])}, st.Args...)...)
		if g.p(20) {
			st.Args = st.Args[:2]
		}
		st.Func, st.Value = "ESDTTransfer", ""
	}
	if g.p(4) || g.prop == "C09" && g.p(15) {
		code := g.childCode(len(g.sc.Progs))
		st.Func = "upgradeContract"
		st.Args = append([]HexBytes{code, g.meta()}, st.Args...)
		i := g.n(len(g.conts))
		st.To = g.conts[i]
		for _, a := range g.sc.Accts {
			if bytes.Equal(a.Addr, st.To) && g.p(80) {
				for _, u := range g.users {
					if bytes.Equal(u, a.Owner) {
						st.From = u
					}
				}
			}
		}
		if g.p(10) {
			st.Args = st.Args[:g.n(2)]
		}
	}
	return st
}

func (g *gen) steps() {
	n := 4 + g.n(12)
	faults := g.prop == "C05" || (g.prop == "C04" || g.prop == "C01") && g.p(35)
	sched := g.prop == "C11" || g.p(10)
	prop15 := g.prop == "C15"
	cache := g.prop == "C04" || prop15 || g.prop == "C05" || g.p(15)
	for i := 0; i < n; i++ {
		var st Step
		x := g.n(100)
		switch {
		case prop15 && g.p(12):
			st = Step{Kind: "block", N: 14400 * uint64(1+g.n(2))}
			if g.p(30) {
				st.Mode = "back"
			}
		case x < 60:
			st = g.callStep()
		case x < 66:
			st = Step{Kind: "deploy", From: g.pick(g.users), Prog: 1 + g.n(len(g.sc.Progs)), Meta: g.meta(), Gas: g.gas(), Tight: g.tight()}
			if g.p(30) {
				st.Value = fmt.Sprint(g.n(300))
			}
			for _, a := range g.callArgs() {
				st.Args = append(st.Args, a)
			}
		case x < 84:
			st = Step{Kind: "deliver", N: uint64(g.n(8))}
			if g.sc.Cfg.Shards == 1 {
				st = g.callStep()
			}
		case x < 88:
			st = Step{Kind: "block", N: uint64(g.n(20))}
			if g.p(20) || g.sc.Cfg.Epochs != nil && g.p(60) {
				st.N = uint64(g.n(100000))
			}
		case x < 94:
			if !cache {
				st = g.callStep()
				break
			}
			st = Step{Kind: []string{"restart", "dropcache", "poison"}[g.n(3)], N: uint64(g.n(1000))}
		default:
			if !sched {
				st = g.callStep()
				break
			}
			st = g.schedStep()
		}
		if g.prop == "C11" && g.p(20) {
			g.sc.Steps = append(g.sc.Steps, g.schedStep())
		}
		if (st.Kind == "call" || st.Kind == "deploy" || st.Kind == "deliver") && faults && g.p(40) {
			g.addFaults(&st)
			if st.Kind != "deliver" && g.p(50) {
				st.Mode = "drop"
			}
			if g.prop == "C05" && g.p(20) {
				st = Step{Kind: "call", From: g.pick(g.users), To: g.pick(g.conts), Func: "f2", Gas: 900000, Mode: "drop", Fault: map[string]int{"panic:GetStorageData": 1}}
			}
			if g.prop == "C05" && g.p(40) {
				g.sc.Steps = append(g.sc.Steps, st)
				st = Step{Kind: "call", From: g.pick(g.users), To: g.pick(g.conts), Func: "f3", Gas: 900000}
			}
		}
		g.sc.Steps = append(g.sc.Steps, st)
	}
}

// schedule is the number of a change of the gas schedule.
func (g *gen) schedule() uint64 {
	n := uint64(1 + g.n(1000))
	switch g.n(4) {
	case 0:
		n += uint64(g.n(128)) << 12
	case 1:
		n += uint64(1<<7-1-1<<uint(g.n(7))) << 12 // one section
	case 2:
		if g.p(50) {
			n += uint64(1<<7+g.n(128)) << 12 // one entry
		}
	}
	return n
}

func (g *gen) schedStep() Step {
	st := Step{Kind: "schedule", N: g.schedule(), Gas: uint64(g.n(12))}
	switch g.n(4) {
	case 0:
		st.Mode = "bad"
	case 1, 2:
		st.Mode = "mid"
	}
	return st
}

var faultServices = []string{"GetStorageData", "GetUserAccount", "GetCode", "NewAddress", "IsPayable", "GetESDTToken", "GetBlockhash",
	"ProcessBuiltInFunction", "GetCompiledCode", "SaveCompiledCode", "GetSnapshot", "RevertToSnapshot", "GetAllState", "block"}

func (g *gen) addFaults(st *Step) {
	st.Fault = map[string]int{}
	for k := 1 + g.n(2); k > 0; k-- {
		if g.p(65) {
			n := faultServices[g.n(len(faultServices))]
			if g.p(20) {
				n = "GetStorageData"
			}
			if g.p(30) {
				n = "panic:" + n
			}
			st.Fault[n] = 1 + g.n(4)
			continue
		}
		if st.Engine == nil {
			st.Engine = map[string]int{}
		}
		st.Engine[engineFaultNames[g.n(len(engineFaultNames))]] = 1 + g.n(5)
	}
}

// --- program builder

type pb struct {
	g     *gen
	p     *Prog
	ops   []Op
	self  int
	small bool
	out   int64  // next free scratch position
	last  []byte // the contract the last nested call went to
	level int    // of the function in the call graph, 0-3
}

// calls are the operations that run other functions.
var calls = map[string]bool{"dest": true, "same": true, "readonly": true, "delegate": true, "bycaller": true, "async": true, "transferexec": true}

func (b *pb) fn(name string, n int) {
	b.ops, b.last = nil, nil
	b.level = map[string]int{"f1": 1, "f2": 2, "f3": 3, "callBack": 2, "init": 1}[name]
	b.out = scratch
	if b.g.tame && name == "f3" && b.g.p(25) { // the last contract of a chain writes what the others then read
		k, v := b.buf(b.g.keys[0]), b.buf([]byte{byte(1 + b.g.n(255)), 7})
		b.add("storageStore", 1, k[0], k[1], v[0], v[1])
		if n > 3 {
			n = 3
		}
	}
	if b.g.prop == "C05" && name == "f2" && b.g.p(45) { // the node may fail while a lock is set
		k := b.buf([]byte(fmt.Sprintf("k%d", b.g.n(1000000))))
		b.add("setStorageLock", 1, k[0], k[1], cst(1600000000))
	}
	if b.g.prop == "C05" && name == "f3" && b.g.p(30) {
		n = 0
	}
	if b.g.prop == "C09" && !b.small && (name == "f3" || name == "f0") && b.g.p(25) {
		b.op("create")
	}
	if b.g.prop == "C09" && name == "init" && b.g.p(25) { // back to the contract that deploys this one
		o := b.room(32)
		b.add("getCaller", 0, o)
		f := b.buf([]byte("f3"))
		b.add("executeOnDestContext", 1, cat([]Arg{b.gasArg(), o, b.at(make([]byte, 32))}, f, b.argv(nil))...)
	}
	if name == "callBack" && b.g.p(30) { // what came back
		o := b.room(32)
		b.add("getCallValue", 1, o)
		b.finish(o, cst(32))
	}
	if b.g.prop == "C08" && name == "f3" && b.g.p(20) { // only pays its caller, more than once
		o := b.room(32)
		b.add("getCaller", 0, o)
		for n = 1 + b.g.n(3); n > 0; n-- {
			b.add("transferValue", 1, o, b.at(pad32b(big.NewInt(int64(b.g.n(9))))), cst(0), cst(0))
		}
	}
	for i := 0; i < n; i++ {
		b.one()
	}
	if b.g.prop == "C05" && name == "f3" && b.g.p(40) { // shows whether the protection of keys is still there
		k := b.buf([]byte("ARWEN@key"))
		b.add("storageStore", 1, k[0], k[1], k[0], k[1])
	}
	b.p.Funcs = append(b.p.Funcs, Func{Name: name, Ops: b.ops})
}

func (b *pb) add(api string, dst int, args ...Arg) {
	b.ops = append(b.ops, Op{API: api, Args: args, Dst: dst})
}

func (b *pb) pool(x []byte) int {
	off, _ := b.p.poolOffset(len(b.p.Pool))
	if off+len(x) > scratch-64 {
		if len(b.p.Pool) == 0 {
			return b.p.addPool([]byte{1})
		}
		return 0
	}
	return b.p.addPool(x)
}

func (b *pb) at(x []byte) Arg      { return ptr(b.pool(x)) }
func (b *pb) buf(x []byte) []Arg   { i := b.pool(x); return []Arg{ptr(i), length(i)} }
func (b *pb) room(n int64) Arg     { o := b.out; b.out += (n + 7) &^ 7; return cst(o) }
func (b *pb) finish(at Arg, n Arg) { b.add("finish", 0, at, n) }
func cat(xs ...[]Arg) []Arg {
	var o []Arg
	for _, x := range xs {
		o = append(o, x...)
	}
	return o
}

// argv places call arguments in memory: number, address of the lengths, address of the data.
func (b *pb) argv(a [][]byte) []Arg {
	var lens, data []byte
	for _, x := range a {
		l := make([]byte, 4)
		binary.LittleEndian.PutUint32(l, uint32(len(x)))
		lens = append(lens, l...)
		data = append(data, x...)
	}
	if len(lens) == 0 {
		lens = []byte{0, 0, 0, 0}
	}
	if len(data) == 0 {
		data = []byte{0}
	}
	n := int64(len(a))
	if b.g.p(1) {
		n = []int64{-1, 1 << 30, 0x40000000, 0x7fffffff, 100000, int64(len(a)) + 1}[b.g.n(6)]
	}
	return []Arg{cst(n), b.at(lens), b.at(data)}
}

func (b *pb) gasArg() Arg {
	odd := 10
	if b.g.tame {
		odd = 60
	}
	switch b.g.n(odd) {
	case 0:
		return cst(int64(b.g.n(2000)))
	case 1:
		return cst(1 << 40)
	case 2:
		return cst(-1)
	case 3, 4:
		return cst(int64(b.g.n(20000)))
	}
	if b.g.tame {
		x := []int64{100000, 36000, 12000, 4000}[b.level]
		return cst(x + int64(b.g.n(int(x/2))))
	}
	return cst(int64(30000 + b.g.n(120000)))
}

func (b *pb) target() []byte {
	if b.last != nil && b.g.p(30) {
		return b.last
	}
	if b.g.p(93) {
		b.last = b.g.pick(b.g.conts)
		return b.last
	}
	return b.g.anyAddr()
}

func (b *pb) callee() []byte {
	if b.g.prop == "C12" && b.g.p(8) {
		return []byte([]string{"callBack", "callBack", "init", "solidity.ctor", "upgradeContract", "SaveKeyValue"}[b.g.n(6)])
	}
	if b.g.tame && b.g.p(85) {
		l := b.level
		if l > 2 {
			l = 2
		}
		return []byte(funcNames[l+1+b.g.n(3-l)])
	}
	if b.g.p(92) {
		return []byte(funcNames[b.g.n(len(funcNames))])
	}
	return []byte(b.g.funcName())
}

var smallMix = []string{"store", "load", "finish", "log", "getters", "transfer", "signal", "args", "dest", "bigint"}

func (b *pb) one() {
	g := b.g
	what := ""
	if b.small {
		what = smallMix[g.n(len(smallMix))]
	} else {
	draw:
		total := 0
		ks := keysOfInt(g.mix)
		for _, k := range ks {
			total += g.mix[k]
		}
		x := g.n(total)
		for _, k := range ks {
			if x < g.mix[k] {
				what = k
				break
			}
			x -= g.mix[k]
		}
		if g.tame && calls[what] && g.p(30*b.level) {
			goto draw
		}
	}
	b.op(what)
}

func (b *pb) val32() Arg { return b.at(pad32b(b.g.value())) }
func (b *pb) smallVal32() Arg {
	if b.g.p(50) {
		return b.at(make([]byte, 32))
	}
	v := big.NewInt(int64(b.g.n(120)))
	if b.g.p(5) { // more than a machine word holds
		v.Add(v, new(big.Int).Lsh(big.NewInt(1), 64))
	}
	return b.at(pad32b(v))
}

func (b *pb) key() []byte {
	g := b.g
	switch g.n(25) {
	case 0:
		return []byte("ELRONDkey")
	case 1:
		return []byte("ARWEN@key")
	case 2:
		return append(append([]byte{}, g.pick(g.keys)...), lockSuffix...)
	case 3:
		return []byte(esdtKey(g.tokens[0], 0))
	case 24:
		if g.prop == "C05" {
			return []byte("ARWEN@key")
		}
	case 4, 5, 6, 7, 8, 9, 10:
		return g.keys[0]
	}
	return g.pick(g.keys)
}

func (b *pb) op(what string) {
	g := b.g
	switch what {
	case "store":
		k := b.buf(b.key())
		v := b.buf(g.blob([]int{0, 3, 8, 40, 90}[g.n(5)]))
		switch g.n(8) {
		case 0:
			b.add("int64storageStore", 1, k[0], k[1], cst(int64(g.r.Uint64()>>uint(g.n(64)))))
		case 1:
			b.add([]string{"smallIntStorageStoreSigned", "smallIntStorageStoreUnsigned"}[g.n(2)], 1, k[0], k[1], cst(int64(g.n(100))-50))
		default:
			b.add("storageStore", 1, k[0], k[1], v[0], v[1])
		}
		if g.p(30) {
			b.add("smallIntFinishSigned", 0, loc(0))
		}
	case "load":
		k := b.buf(b.key())
		switch g.n(6) {
		case 0:
			b.add("storageLoadLength", 1, k...)
			b.add("smallIntFinishSigned", 0, loc(0))
		case 1:
			b.add([]string{"int64storageLoad", "smallIntStorageLoadUnsigned", "smallIntStorageLoadSigned"}[g.n(3)], 9, k...)
			b.add("smallIntFinishSigned", 0, loc(8))
		default:
			o := b.room(120)
			b.add("storageLoad", 1, k[0], k[1], o)
			b.finish(o, loc(0))
		}
	case "bigstore":
		k := b.buf(b.key())
		b.add("bigIntStorageLoadUnsigned", 1, k[0], k[1], cst(int64(g.n(4))))
		b.add("bigIntSetInt64", 0, cst(int64(g.n(4))), cst(int64(g.n(100000))))
		b.add("bigIntStorageStoreUnsigned", 1, k[0], k[1], cst(int64(g.n(4))))
	case "loadother":
		if g.p(15) { // what the protocol keeps there, before and after the contract changes it
			tok := g.pick(g.tokens)
			n := int64(g.n(5) / 3)
			t, k, tk, o := b.at(b.target()), b.buf([]byte(esdtKey(tok, uint64(n)))), b.buf(tok), b.room(120)
			b.add("storageLoadFromAddress", 1, t, k[0], k[1], o)
			b.finish(o, loc(0))
			v := b.at(pad32b(big.NewInt(int64(1 + g.n(9)))))
			if n > 0 {
				v = b.at(pad32b(big.NewInt(1)))
			}
			b.add("transferESDTNFTExecute", 1, cat([]Arg{t, tk[0], tk[1], v, cst(n), b.gasArg()}, b.buf(b.callee()), b.argv(nil))...)
			b.add("storageLoadFromAddress", 1, t, k[0], k[1], o)
			b.finish(o, loc(0))
			return
		}
		k := b.buf(b.key())
		o := b.room(120)
		t := b.at(b.target())
		if g.p(25) { // another contract runs first, so the key may be one this transaction wrote
			f := b.buf(b.callee())
			if g.tame && g.p(50) {
				f, k = b.buf([]byte("f3")), b.buf(g.keys[0])
			}
			b.add("executeOnDestContext", 1, cat([]Arg{b.gasArg(), t, b.smallVal32()}, f, b.argv(g.callArgs()))...)
		}
		b.add("storageLoadFromAddress", 1, t, k[0], k[1], o)
		b.finish(o, loc(0))
		if g.p(20) {
			t := b.buf(g.pick(g.tokens))
			b.add("getCurrentESDTNFTNonce", 9, b.at(b.target()), t[0], t[1])
		}
	case "lock":
		k := b.buf(g.pick(g.keys))
		if g.p(15) { // a key that no other execution has touched
			k = b.buf([]byte(fmt.Sprintf("k%d", g.n(1000000))))
		}
		switch g.n(5) {
		case 0, 1:
			b.add("setStorageLock", 1, k[0], k[1], cst(int64(1600000000+g.n(200)-100)))
		case 2:
			b.add("clearStorageLock", 1, k...)
		case 3:
			b.add("getStorageLock", 9, k...)
			b.add("smallIntFinishSigned", 0, loc(8))
		default:
			b.add("isStorageLocked", 1, k...)
			b.add("smallIntFinishSigned", 0, loc(0))
		}
	case "finish":
		x := b.buf(g.blob(20))
		b.finish(x[0], x[1])
	case "log":
		x := b.buf(g.blob(30))
		if g.p(50) {
			n := g.n(3)
			b.add("writeLog", 0, x[0], x[1], b.at(g.fixed(96)), cst(int64(n)))
		} else {
			b.add("writeEventLog", 0, append(b.argv(append([][]byte{[]byte("ev")}, g.callArgs()...)), x...)...)
		}
	case "getters":
		b.getter()
	case "args":
		i := int64(g.n(5) - 1)
		switch g.n(6) {
		case 0:
			b.add("getNumArguments", 1)
			b.add("smallIntFinishSigned", 0, loc(0))
		case 1:
			b.add("getArgumentLength", 1, cst(i))
			b.add("smallIntFinishSigned", 0, loc(0))
		case 2:
			b.add("bigIntGetUnsignedArgument", 0, cst(int64(g.n(4))), cst(int64(g.n(4))))
		case 3:
			b.add("bigIntGetSignedArgument", 0, cst(int64(g.n(4))), cst(int64(g.n(4))))
		case 4:
			b.add([]string{"int64getArgument", "smallIntGetSignedArgument", "smallIntGetUnsignedArgument"}[g.n(3)], 9, cst(int64(g.n(3))))
			b.add("smallIntFinishSigned", 0, loc(8))
		default:
			o := b.room(300)
			b.add("getArgument", 1, cst(int64(g.n(3))), o)
			b.ops = append(b.ops, Op{API: "finish", Args: []Arg{o, cst(int64(g.n(12)))}})
		}
	case "transfer":
		if g.p(20) { // back to the caller
			o := b.room(32)
			b.add("getCaller", 0, o)
			for n := 1 + g.n(6)/4; n > 0; n-- {
				b.add("transferValue", 1, o, b.at(pad32b(big.NewInt(int64(g.n(60))))), cst(0), cst(0))
			}
			return
		}
		d := b.buf(g.blob(12))
		if g.p(60) {
			d = []Arg{cst(0), cst(0)}
		}
		b.add("transferValue", 1, b.at(g.anyAddr()), b.smallVal32(), d[0], d[1])
		b.add("smallIntFinishSigned", 0, loc(0))
	case "transferexec":
		f := b.buf(b.callee())
		b.add("transferValueExecute", 1, cat([]Arg{b.at(g.anyAddr()), b.smallVal32(), b.gasArg()}, f, b.argv(g.callArgs()))...)
		b.add("smallIntFinishSigned", 0, loc(0))
	case "esdt":
		t := b.buf(g.pick(g.tokens))
		f := b.buf(b.callee())
		if g.p(70) {
			f = []Arg{cst(0), cst(0)}
		}
		v := b.at(pad32b(big.NewInt(int64(g.n(60)))))
		switch g.n(6) {
		case 0:
			n := int64(1)
			if g.p(30) {
				n = int64(g.n(3))
			}
			b.add("transferESDTNFTExecute", 1, cat([]Arg{b.at(g.anyAddr()), t[0], t[1], b.at(pad32b(big.NewInt(int64(g.n(3))))), cst(n), b.gasArg()}, f, b.argv(g.callArgs()))...)
		case 1:
			b.add("transferESDT", 1, b.at(g.anyAddr()), t[0], t[1], v, b.gasArg(), f[0], f[1])
		default:
			b.add("transferESDTExecute", 1, cat([]Arg{b.at(g.anyAddr()), t[0], t[1], v, b.gasArg()}, f, b.argv(g.callArgs()))...)
		}
		b.add("smallIntFinishSigned", 0, loc(0))
	case "dest", "bycaller":
		f := b.buf(b.callee())
		n := "executeOnDestContext"
		if what == "bycaller" {
			n += "ByCaller"
		}
		b.add(n, 1, cat([]Arg{b.gasArg(), b.at(b.target()), b.smallVal32()}, f, b.argv(g.callArgs()))...)
		if g.p(40) {
			b.add("smallIntFinishSigned", 0, loc(0))
		}
	case "same":
		f := b.buf(b.callee())
		if g.p(2) {
			f = b.buf([]byte("ESDTTransfer"))
		}
		b.add("executeOnSameContext", 1, cat([]Arg{b.gasArg(), b.at(b.target()), b.smallVal32()}, f, b.argv(g.callArgs()))...)
	case "readonly", "delegate":
		f := b.buf(b.callee())
		n := "executeReadOnly"
		if what == "delegate" {
			n = "delegateExecution"
		}
		b.add(n, 1, cat([]Arg{b.gasArg(), b.at(b.target())}, f, b.argv(g.callArgs()))...)
	case "create":
		o := b.room(32)
		m := b.at(g.meta())
		if g.p(35) {
			b.add("deployFromSourceContract", 1, cat([]Arg{b.gasArg(), b.smallVal32(), b.at(g.pick(g.conts)), m, o}, b.argv(g.callArgs()))...)
		} else {
			c := b.buf(g.childCode(b.self))
			b.add("createContract", 1, cat([]Arg{b.gasArg(), b.smallVal32(), c[0], m, c[1], o}, b.argv(g.callArgs()))...)
		}
		b.finish(o, cst(32))
		if g.p(40) {
			f := b.buf([]byte("f0"))
			b.ops = append(b.ops, Op{API: "executeOnDestContext", Dst: 2, Cond: -1, Args: cat([]Arg{b.gasArg(), o, b.smallVal32()}, f, b.argv(nil))})
		}
		if g.p(10) {
			b.ops = append(b.ops, Op{API: "transferValue", Dst: 2, Args: []Arg{o, b.smallVal32(), cst(0), cst(0)}})
		}
	case "upgrade":
		if g.p(15) { // two upgrades of one contract in one transaction
			b.op("upgrade")
		}
		m := b.at(g.meta())
		if g.p(40) {
			b.add("upgradeFromSourceContract", 0, cat([]Arg{b.at(b.target()), b.gasArg(), b.smallVal32(), b.at(g.pick(g.conts)), m}, b.argv(g.callArgs()))...)
		} else if g.p(50) {
			c := b.buf(g.childCode(b.self))
			b.add("upgradeContract", 0, cat([]Arg{b.at(b.target()), b.gasArg(), b.smallVal32(), c[0], m, c[1]}, b.argv(g.callArgs()))...)
		} else {
			c := g.childCode(b.self)
			f := b.buf([]byte("upgradeContract"))
			b.add("executeOnDestContext", 1, cat([]Arg{b.gasArg(), b.at(b.target()), b.smallVal32()}, f, b.argv([][]byte{c, g.meta()}))...)
		}
	case "async":
		a := g.callArgs()
		f := string(b.callee())
		dest := b.target()
		if g.p(15) {
			a = append([][]byte{g.pick(g.tokens), big.NewInt(int64(g.n(40))).Bytes(), []byte(f)}, a...)
			f = "ESDTTransfer"
			if g.p(40) {
				a = a[:2]
			}
		} else if g.p(6) {
			nft := [][]byte{g.pick(g.tokens), {1}, {byte(1 + g.n(3))}, b.target(), []byte(f)}
			a, f = append(nft, a...), "ESDTNFTTransfer"
			if g.p(50) {
				a = a[:4]
			}
		}
		d := b.buf(encodeCall(f, a))
		if g.p(3) {
			d = b.buf([]byte("f0@0"))
		}
		to := b.at(dest)
		if f != "ESDTTransfer" && f != "ESDTNFTTransfer" {
		} else if len(a) == 2 && g.p(50) || len(a) == 4 && g.p(80) { // tokens back to who called
			to = b.room(32)
			b.add("getCaller", 0, to)
		}
		b.add("asyncCall", 0, to, b.smallVal32(), d[0], d[1])
	case "builtin":
		b.builtin()
	case "signal":
		m := b.buf([]byte(fmt.Sprintf("stop %d", g.n(9))))
		b.ops = append(b.ops, Op{API: "signalError", Args: m, Cond: g.cond()})
	case "trap":
		b.ops = append(b.ops, Op{API: "trap", Cond: g.cond()})
	case "ret":
		b.ops = append(b.ops, Op{API: "ret", Cond: g.cond()})
	case "burn":
		b.add("burn", 0, cst(int64(1+g.n(400))))
	case "loop":
		b.ops = append(b.ops, Op{API: "loop", Cond: g.cond()})
	case "grow":
		b.add("grow", 1, cst(int64(g.n(3))))
		b.add("smallIntFinishSigned", 0, loc(0))
	case "bigint":
		b.bigint()
	case "crypto":
		if g.p(40) {
			b.signature()
			return
		}
		x := b.buf(g.blob(80))
		o := b.room(32)
		b.add([]string{"sha256", "keccak256", "ripemd160"}[g.n(3)], 1, x[0], x[1], o)
		b.finish(o, cst(20))
	case "hostile":
		b.hostile()
	case "retdata":
		b.add("getNumReturnData", 1)
		b.add("smallIntFinishSigned", 0, loc(0))
		o := b.room(300)
		b.add("add", 2, loc(0), cst(-1))
		b.add("getReturnDataSize", 3, loc(1))
		b.ops = append(b.ops, Op{API: "getReturnData", Dst: 3, Args: []Arg{loc(1), o}, Cond: 1})
		b.ops = append(b.ops, Op{API: "finish", Args: []Arg{o, loc(2)}, Cond: 1})
	case "balance":
		o := b.room(40)
		if g.p(50) {
			b.add("getExternalBalance", 0, b.at(g.anyAddr()), o)
			b.finish(o, cst(4))
		} else if g.p(30) {
			t := b.buf(g.pick(g.tokens))
			q := cat([]Arg{b.at(g.pick(append(append([][]byte{}, g.conts...), g.users...)))}, t, []Arg{cst(1)})
			if g.p(50) {
				b.add([]string{"getESDTNFTNameLength", "getESDTNFTAttributeLength", "getESDTNFTURILength"}[g.n(3)], 1, q...)
				b.add("smallIntFinishSigned", 0, loc(0))
				return
			}
			r := b.room(240)
			at := func(i int64) Arg { return cst(r.V + i*40) }
			b.add("getESDTTokenData", 1, cat(q, []Arg{cst(int64(g.n(4))), at(0), at(1), at(2), at(3), at(4), cst(int64(g.n(4))), at(5)})...)
			b.finish(r, cst(240))
		} else {
			t := b.buf(g.pick(g.tokens))
			switch g.n(4) {
			case 0:
				b.add("bigIntGetESDTExternalBalance", 0, b.at(g.anyAddr()), t[0], t[1], cst(int64(g.n(2))), cst(int64(g.n(4))))
			case 1:
				b.add("bigIntGetExternalBalance", 0, b.at(g.anyAddr()), cst(int64(g.n(4))))
			case 2:
				r := []Arg{b.room(40), b.room(40), b.room(40), b.room(40), b.room(40), b.room(40)}
				b.add("getESDTTokenData", 1, b.at(g.anyAddr()), t[0], t[1], cst(int64(g.n(2))), cst(int64(g.n(4))), r[0], r[1], r[2], r[3], r[4], cst(int64(g.n(4))), r[5])
			default:
				b.add([]string{"getESDTBalance"}[0], 1, b.at(g.anyAddr()), t[0], t[1], cst(int64(g.n(2))), o)
				b.finish(o, loc(0))
			}
		}
	case "mem":
		o := b.room(8)
		b.add("store32", 0, o, cst(int64(g.n(1<<20))))
		b.add("load32", 1, cst(scratch+int64(g.n(200))))
		b.add("smallIntFinishSigned", 0, loc(0))
	case "gas":
		b.add("getGasLeft", 9)
		b.add("smallIntFinishSigned", 0, loc(8))
	case "nonpay":
		b.add("checkNoPayment", 0)
	case "blk":
		b.block()
	}
}

func (g *gen) fixed(n int) []byte {
	b := make([]byte, n)
	g.r.Read(b)
	return b
}

func (g *gen) cond() int {
	switch g.n(4) {
	case 0:
		return 0
	case 1:
		return -1 - g.n(2)
	}
	return 1 + g.n(2)
}

// builtin calls a protocol function that is not a transfer: on the contract itself, or on one it may own.
func (b *pb) builtin() {
	g := b.g
	var to Arg
	var f string
	var a [][]byte
	tok, qty := g.pick(g.tokens), []byte{byte(1 + g.n(60))}
	if g.p(5) {
		qty = g.value().Bytes()
	}
	if g.p(25) {
		var owned [][]byte
		for i, c := range g.conts {
			if o := g.owners[i]; o[0] == 0 && shardOf(o, g.sc.Cfg.Shards) == shardOf(c, g.sc.Cfg.Shards) {
				owned = append(owned, c)
			}
		}
		c := g.pick(g.conts)
		if len(owned) > 0 {
			c = g.pick(owned)
		}
		to = b.at(c)
		f = "ClaimDeveloperRewards"
		if g.p(60) {
			f, a = "ChangeOwnerAddress", [][]byte{g.anyAddr()}
		}
	} else {
		to = b.room(32)
		b.add("getSCAddress", 0, to)
		nonce := []byte{byte(1 + g.n(3))}
		switch g.n(14) {
		case 12, 13: // a transfer, with or without a call
			f, a = "ESDTNFTTransfer", [][]byte{tok, {byte(1 + g.n(2))}, {byte(1 + g.n(2))}, b.target()}
			if g.p(65) {
				a = append(append(a, b.callee()), g.callArgs()...)
			}
		case 0, 1, 2:
			f, a = "ESDTLocalMint", [][]byte{tok, qty}
		case 3, 4:
			f, a = "ESDTLocalBurn", [][]byte{tok, qty}
		case 5, 6, 7:
			f, a = "ESDTNFTCreate", [][]byte{tok, {byte(g.n(4))}, []byte("name"), {byte(g.n(100))}, []byte("hash"), g.blob(30), []byte("uri")}
		case 8, 9:
			f, a = "ESDTNFTAddQuantity", [][]byte{tok, nonce, {byte(1 + g.n(4))}}
		case 10:
			f, a = "ESDTNFTBurn", [][]byte{tok, nonce, {byte(1 + g.n(2))}}
		default:
			f, a = "SaveKeyValue", [][]byte{g.pick(g.keys), g.blob(20)}
		}
	}
	if g.p(6) {
		a = a[:g.n(len(a)+1)]
	}
	val := b.smallVal32()
	if g.p(90) {
		val = b.at(make([]byte, 32))
	}
	switch x := g.n(20); {
	case x < 13:
		n := b.buf([]byte(f))
		b.add("executeOnDestContext", 1, cat([]Arg{b.gasArg(), to, val}, n, b.argv(a))...)
		b.add("smallIntFinishSigned", 0, loc(1))
		if f == "ESDTNFTCreate" { // the nonce of what was created
			b.add("getNumReturnData", 1)
			b.add("smallIntFinishSigned", 0, loc(1))
		}
	case x < 18:
		d := b.buf(encodeCall(f, a))
		b.add("asyncCall", 0, to, val, d[0], d[1])
	case x < 19:
		n := b.buf([]byte(f))
		b.add("executeOnSameContext", 1, cat([]Arg{b.gasArg(), to, val}, n, b.argv(a))...)
	default:
		n := b.buf([]byte(f))
		b.add("transferValueExecute", 1, cat([]Arg{to, val, b.gasArg()}, n, b.argv(a))...)
	}
}

func (b *pb) getter() {
	g := b.g
	o := b.room(128)
	switch g.n(12) {
	case 0:
		b.add("getSCAddress", 0, o)
		b.finish(o, cst(32))
	case 1:
		b.add("getOwnerAddress", 0, o)
		b.finish(o, cst(32))
	case 2, 3:
		b.add("getCaller", 0, o)
		b.finish(o, cst(32))
	case 4:
		b.add("getCallValue", 1, o)
		b.finish(o, loc(0))
	case 5:
		b.add("getESDTValue", 1, o)
		b.finish(o, loc(0))
	case 6:
		b.add("getESDTTokenName", 1, o)
		b.finish(o, loc(0))
	case 7:
		b.add("getESDTTokenNonce", 9)
		b.add("getESDTTokenType", 1)
		b.add("smallIntFinishSigned", 0, loc(0))
	case 8:
		q := b.room(64)
		b.add("getCallValueTokenName", 1, o, q)
		b.finish(q, loc(0))
	case 9:
		b.add("getFunction", 1, o)
		b.finish(o, loc(0))
	case 10:
		b.add("bigIntGetCallValue", 0, cst(int64(g.n(4))))
		b.add("bigIntGetESDTCallValue", 0, cst(int64(g.n(4))))
	case 11:
		b.add("getOriginalTxHash", 0, o)
		b.finish(o, cst(32))
	}
}

func (b *pb) block() {
	g := b.g
	switch g.n(4) {
	case 0:
		o := b.room(64)
		b.add([]string{"getBlockRandomSeed", "getPrevBlockRandomSeed", "getStateRootHash"}[g.n(3)], 0, o)
		b.finish(o, cst(32))
	case 1:
		o := b.room(32)
		b.add("getBlockHash", 1, cst(int64(90+g.n(20))), o)
		b.finish(o, cst(32))
	case 2:
		b.add("isSmartContract", 1, b.at(g.anyAddr()))
		b.add("getShardOfAddress", 2, b.at(g.anyAddr()))
		b.add("smallIntFinishSigned", 0, loc(1))
	default:
		n := []string{"getBlockTimestamp", "getBlockNonce", "getBlockRound", "getBlockEpoch", "getPrevBlockTimestamp", "getPrevBlockNonce", "getPrevBlockRound", "getPrevBlockEpoch"}[g.n(8)]
		b.add(n, 9)
		b.add("smallIntFinishSigned", 0, loc(8))
	}
}

func (b *pb) bigint() {
	g := b.g
	h := func() Arg { return cst(int64(g.n(4))) }
	switch g.n(10) {
	case 0:
		b.add("bigIntNew", 1, cst(int64(g.n(1000)-500)))
		b.add("bigIntFinishSigned", 0, loc(0))
	case 1:
		x := b.buf(g.blob(40))
		b.add([]string{"bigIntSetUnsignedBytes", "bigIntSetSignedBytes"}[g.n(2)], 0, h(), x[0], x[1])
	case 2:
		o := b.room(128)
		b.add([]string{"bigIntGetUnsignedBytes", "bigIntGetSignedBytes"}[g.n(2)], 1, h(), o)
		b.finish(o, cst(8))
	case 3:
		n := []string{"bigIntUnsignedByteLength", "bigIntSignedByteLength", "bigIntIsInt64", "bigIntSign"}[g.n(4)]
		b.add(n, 1, h())
		b.add("smallIntFinishSigned", 0, loc(0))
	case 4:
		b.add("bigIntGetInt64", 9, h())
		b.add("bigIntCmp", 1, h(), h())
		b.add("smallIntFinishSigned", 0, loc(0))
	case 5:
		b.add([]string{"bigIntAbs", "bigIntNeg"}[g.n(2)], 0, h(), h())
	case 6:
		if g.p(30) {
			b.add("bigIntNot", 0, h(), h())
		}
		b.add([]string{"bigIntShr", "bigIntShl"}[g.n(2)], 0, h(), h(), cst(int64(g.n(70))))
	case 7:
		b.add([]string{"bigIntFinishUnsigned", "bigIntFinishSigned"}[g.n(2)], 0, h())
	default:
		n := []string{"bigIntAdd", "bigIntSub", "bigIntMul", "bigIntTDiv", "bigIntTMod", "bigIntEDiv", "bigIntEMod", "bigIntAnd", "bigIntOr", "bigIntXor"}[g.n(10)]
		if g.p(70) {
			v := int64(1 + g.n(1<<30))
			if g.p(8) {
				v = -v
			}
			b.add("bigIntSetInt64", 0, cst(2), cst(v))
			b.add(n, 0, h(), cst(int64(2)), cst(int64(2)))
		}
		b.add(n, 0, h(), h(), h())
	}
}

var apiNames = func() []string {
	var n []string
	for k := range apiSigs {
		n = append(n, k)
	}
	sortBig(n)
	return n
}()

// hostile calls any API function with any arguments.
func (b *pb) hostile() {
	g := b.g
	name := apiNames[g.n(len(apiNames))]
	var args []Arg
	for _, t := range apiSigs[name][0] {
		switch g.n(9) {
		case 0:
			args = append(args, cst([]int64{-1, 0, 1, 0x7fffffff, -0x80000000, 65535, 65536, 65504, 1 << 20, 0x40000000}[g.n(10)]))
		case 1:
			args = append(args, cst(int64(g.n(70000))))
		case 2:
			if len(b.p.Pool) > 0 {
				args = append(args, ptr(g.n(len(b.p.Pool))))
			} else {
				args = append(args, cst(64))
			}
		case 3:
			args = append(args, cst(int64(g.n(40))))
		case 4:
			args = append(args, cst(int64(g.n(4))))
		case 5:
			args = append(args, b.at(g.anyAddr()))
		default:
			if t == 'l' {
				args = append(args, cst(int64(g.n(50000))))
			} else {
				args = append(args, cst(int64(g.n(3))))
			}
		}
	}
	if name == "bigIntShl" {
		args[2] = cst(int64(g.n(2000)) - 10)
	}
	b.add(name, 1, args...)
}

// valid signatures: function, key, message, signature
var signed = [][4]string{
	{"verifyEd25519", "af06a3e3291714e4f356c19c9b15cd1951ec6e6662aa77be07547f289383341d", "7369676e656420", "5a425bb07cc33c41c4be6e934aaf7cd7956b61071912d27a14e54c3b7adeb55cfd73d7a6f8350f8cf673f2378875dab8eabf9f30f07ef3b55b0eda206b2b2504"},
	{"verifySecp256k1", "02e5a018b3a2e155316109d9cdc5eab739759c0e07e0c00bf9fccb8237fe4d7f02", "7369676e656420", "304402201fa112355ba89b63dae764d09479b255c46ed72185c00c3a775034d9f64035f002205991124f5ddaf625862de5ca363ff38a02d9098167af6065b4a16761a5c94b78"},
	{"verifyBLS", "c2ccbb813977fcc0230a4d9298be35cb1fa9d37bd1607233b577721603c364a28fbd8bbc3774467d7fb1f7d55248cf13dc7a8b6d646c52ac4d658e6056d6060e40511da0bd000f686fa41fac665fd3e977239461fdc83acebab673ce4b9a1f0c", "7369676e656420", "9a8f3ca3a373383e9a9a2158da9f9821f64bcb9771201d5bec834110b4c52a640dcbae9d21d2a8cf6de67a310a1e3498"},
	{"verifyEd25519", "2df04125f0015afb47ce853aef8772094ff9498c14cb1b9e12973c2927da0fa6", "7369676e6564207369676e6564207369676e6564207369676e656420", "31ed8c0a108003f97aed004fda9cddca6c44f31af48515766805e725c274f2bd4c460e2cf7a5fd80fe35a358dc00a9b67b32f4280ea9769fc28670687b47480a"},
	{"verifySecp256k1", "04cb144659ef300200912762786a173663150592d78f4408390c47e9956d9a6c31d85968ac91de9d1be26b318fd8e1a8d63884c8f205f4a3cbe30dce470c185b99", "7369676e6564207369676e6564207369676e6564207369676e656420", "3045022100dd896eb0a26a600d600d0a403816af3b0171d67ef69aa1c3bc181e135aaa2f3202201dc04e4e7c386aeef767afa77b12ae96f220dfd31e426d67ec673607dbc2e928"},
}

// signature checks a signature, which is valid or almost.
func (b *pb) signature() {
	g := b.g
	v := signed[g.n(len(signed))]
	var x [3][]byte
	for i := range x {
		x[i], _ = hex.DecodeString(v[i+1])
	}
	if g.p(30) {
		i := g.n(3)
		x[i][g.n(len(x[i]))] ^= 1 << uint(g.n(8))
	}
	k, m, s := b.buf(x[0]), b.buf(x[1]), b.at(x[2])
	if v[0] == "verifySecp256k1" {
		b.add(v[0], 1, k[0], k[1], m[0], m[1], s)
	} else {
		b.add(v[0], 1, k[0], m[0], m[1], s)
	}
	b.add("smallIntFinishSigned", 0, loc(0))
}
