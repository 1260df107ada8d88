package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"strings"
	"sync"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

var vmTypeBytes = []byte{5, 0}

const blockGasLimit = ^uint64(0) >> 1

// makeSchedule makes a gas schedule in which every cost is different from most others, so that a
// charge by the wrong entry shows. Seed 0 is the flat schedule.
func makeSchedule(seed uint64) sched {
	base := config.MakeGasMapForTests()
	s := sched{}
	r := rand.New(rand.NewSource(int64(seed)))
	var secs []string
	for k := range base {
		secs = append(secs, k)
	}
	sortStrings(secs)
	for _, sec := range secs {
		s[sec] = map[string]uint64{}
		var names []string
		for n := range base[sec] {
			names = append(names, n)
		}
		sortStrings(names)
		for _, n := range names {
			v := uint64(1)
			if seed != 0 {
				switch {
				case sec == "WASMOpcodeCost":
					v = 1 + uint64(r.Intn(6))
				case strings.HasSuffix(n, "PerByte"):
					v = 1 + uint64(r.Intn(9))
				case n == "AsyncCallbackGasLock":
					v = 2000 + uint64(r.Intn(3000))
				default:
					v = 10 + uint64(r.Intn(190))
				}
			} else if n == "AsyncCallbackGasLock" {
				v = 3000
			}
			s[sec][n] = v
		}
	}
	return s
}

var schedSections = []string{"BaseOperationCost", "ElrondAPICost", "BigIntAPICost", "EthAPICost", "CryptoAPICost", "WASMOpcodeCost", "BuiltInCost"}

// nextSchedule is the schedule a change brings: a new one, or one that differs in some sections or one entry only.
func nextSchedule(cur sched, n uint64) sched {
	s := makeSchedule(n % 4096)
	keep := n / 4096
	if keep>>7 == 0 {
		for i, sec := range schedSections {
			if keep>>uint(i)&1 == 1 && s[sec] != nil {
				s[sec] = copySched(cur)[sec]
			}
		}
		return s
	}
	c := copySched(cur)
	sec := schedSections[keep%uint64(len(schedSections))]
	var names []string
	for k := range c[sec] {
		names = append(names, k)
	}
	sortStrings(names)
	if len(names) > 0 {
		k := names[n%uint64(len(names))]
		c[sec][k] = s[sec][k]
	}
	return c
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for k := i; k > 0 && s[k] < s[k-1]; k-- {
			s[k], s[k-1] = s[k-1], s[k]
		}
	}
}

func copySched(s sched) sched {
	c := sched{}
	for k, m := range s {
		c[k] = map[string]uint64{}
		for n, v := range m {
			c[k][n] = v
		}
	}
	return c
}

func newHost(w *World, gas sched, warm bool) arwen.VMHost { return newHostOn(w, w, gas, warm) }

func newHostOn(hook vmcommon.BlockchainHook, w *World, gas sched, warm bool) arwen.VMHost {
	p := w.params(gas)
	p.UseWarmInstance = warm
	h, err := host.NewArwenVM(hook, &p)
	must(err)
	return h
}

// Msg is a message between shards.
type Msg struct {
	From, To []byte
	Value    *big.Int
	Data     []byte
	Gas      uint64
	Locked   uint64
	Type     vmcommon.CallType
	Hash     []byte
	Price    uint64
	Back     bool // value coming back from a failed message, without any call
	Returned bool // tokens coming back from a failed message
}

// Shard is one simulated node: its world, its VM, and the model's copy of the world.
type Shard struct {
	id   uint32
	w    *World // the node's state, and the hook of the real VM
	wm   *World // the model's copy
	host arwen.VMHost
	hook vmcommon.BlockchainHook // what the VM calls instead of w, if set
	used bool                    // the host has executed something
}

// Violation is a deviation from a property.
type Violation struct {
	Props []string `json:"props"`
	Msg   string   `json:"msg"`
	Step  int      `json:"step"`
	Warm  bool     `json:"warm,omitempty"`
}

// Run is one simulated run.
type Run struct {
	sc     *Scenario
	stats  *Stats
	shards []*Shard
	queue  []*Msg
	gas    sched
	costs  uint64
	step   int
	log    []string
	hash   uint64
	txs    uint64
	now    uint64 // simulated seconds

	sumNative  *big.Int
	sumTokens  map[string]*big.Int
	schedule   int // changes so far
	verbose    bool
	pendingMid *Step
	dirty      bool // a fault has hit the host before
	ipc        ipcSide
}

func (r *Run) fail(props string, f string, a ...interface{}) {
	panic(mismatch{strings.Fields(props), fmt.Sprintf(f, a...)})
}

// note adds to the log of the run, which is what determinism is judged on.
func (r *Run) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for i := 0; i < len(s); i++ {
		r.hash = (r.hash ^ uint64(s[i])) * 1099511628211
	}
	if r.verbose {
		r.log = append(r.log, s)
		fmt.Println("   ", s)
	}
}

// runScenario executes a scenario. It returns the violation found, if any.
func runScenario(sc *Scenario, stats *Stats, verbose bool) (viol *Violation, hash uint64) {
	viol, hash = runScenario1(sc, stats, verbose)
	if viol == nil || sc.Cfg.Epochs == nil || sc.Property != "C15" {
		return
	}
	// The switching of features is to blame for what does not happen without it: with every feature
	// active, or none.
	for _, e := range []uint32{0, 1 << 31} {
		o := *sc
		o.Cfg.Epochs = &Epochs{e, e, e, e}
		if v, _ := runScenario1(&o, newStats(), false); v == nil {
			viol.Props = uniq(append(viol.Props, "C15"))
			break
		}
	}
	return
}

func runScenario1(sc *Scenario, stats *Stats, verbose bool) (viol *Violation, hash uint64) {
	r := &Run{sc: sc, stats: stats, hash: 14695981039346656037, verbose: verbose}
	defer func() {
		if x := recover(); x != nil {
			m, ok := x.(mismatch)
			if !ok {
				panic(x)
			}
			viol = &Violation{Props: uniq(m.props), Msg: m.msg, Step: r.step, Warm: sc.Cfg.Warm}
			hash = r.hash
		}
		engineTrace(false, false)
		r.close()
	}()
	engineReset()
	body := func() {
		r.setup()
		for i := range sc.Steps {
			r.step = i
			r.do(&sc.Steps[i])
		}
		r.step = len(sc.Steps)
	}
	if sc.Cfg.Disk != nil {
		newDisk(r).run()
		return nil, r.hash
	}
	if sc.Cfg.Mandos != nil {
		(&mandosRun{r: r}).run()
		return nil, r.hash
	}
	if sc.Cfg.Chan != nil {
		r.ipc = newIPC(r)
		r.ipc.run(body)
		return nil, r.hash
	}
	body()
	r.drain()
	return nil, r.hash
}

// ipcSide is the simulation of the node with its VM in processes of their own.
type ipcSide interface {
	run(body func())
	setup()
	execute(s *Shard, x *execInput, st *Step) *vmcommon.VMOutput
	before(st *Step)
	do(st *Step)
}

var newIPC func(r *Run) ipcSide

// diskSide is the simulation of the debugger on a disk.
type diskSide interface{ run() }

var newDisk func(r *Run) diskSide

func (r *Run) close() {
	for _, s := range r.shards {
		if s.host != nil {
			s.host.Runtime().ResetWarmInstance()
		}
	}
}

func (r *Run) setup() {
	sc := r.sc
	r.gas = makeSchedule(sc.Cfg.Sched)
	r.stats.inc("runs")
	if sc.Cfg.Shards == 0 {
		sc.Cfg.Shards = 1
	}
	codes := make([][]byte, len(sc.Progs))
	for i := range sc.Progs {
		codes[i] = sc.Progs[i].Assemble()
	}
	for i := uint32(0); i < sc.Cfg.Shards; i++ {
		s := &Shard{id: i}
		s.w = newWorld(i, sc.Cfg.Shards, copySched(r.gas))
		s.w.noSave = sc.Cfg.NoSave
		s.wm = newWorld(i, sc.Cfg.Shards, copySched(r.gas))
		if sc.Cfg.Epochs != nil {
			s.w.epochs, s.wm.epochs = *sc.Cfg.Epochs, *sc.Cfg.Epochs
		}
		s.w.Cur = Block{Nonce: 100, Round: 110, Time: 1600000000, Epoch: 3, Seed: bytes.Repeat([]byte{0x11}, 48)}
		s.w.Last = Block{Nonce: 99, Round: 109, Time: 1599999994, Epoch: 3, Seed: bytes.Repeat([]byte{0x22}, 48)}
		r.shards = append(r.shards, s)
	}
	for _, a := range sc.Accts {
		w := r.shardOf(a.Addr).w
		w.edit(a.Addr, func(x *Acct) {
			x.Nonce = a.Nonce
			x.Balance = bigOf(a.Balance)
			if a.Prog > 0 && a.Prog <= len(codes) {
				x.Code, x.Meta, x.Owner = codes[a.Prog-1], a.Meta, a.Owner
				if len(x.Meta) == 0 {
					x.Meta = []byte{0, 0}
				}
			}
			for _, kv := range a.Store {
				x.Storage[string(kv.K)] = kv.V
			}
			for _, t := range a.Tokens {
				setToken(x, t)
			}
			for _, t := range a.Roles {
				setRoles(x, t)
			}
			x.Dev = a.Dev
		})
	}
	r.costs = r.canary(r.gas)
	for _, s := range r.shards {
		s.w.commit()
		s.host = newHost(s.w, r.gas, sc.Cfg.Warm)
	}
	if r.ipc != nil {
		r.ipc.setup()
	}
	r.sumNative, r.sumTokens = r.totals()
}

func (r *Run) shardOf(addr []byte) *Shard { return r.shards[shardOf(addr, uint32(len(r.shards)))] }

// totals sums native value and fungible tokens over all shards and messages in flight.
func (r *Run) totals() (*big.Int, map[string]*big.Int) {
	n := new(big.Int)
	t := map[string]*big.Int{}
	add := func(k string, v *big.Int) {
		if t[k] == nil {
			t[k] = new(big.Int)
		}
		t[k].Add(t[k], v)
	}
	for _, s := range r.shards {
		for _, k := range sortedKeys(s.w.accts) {
			a := s.w.accts[k]
			if k == supplyAcct {
				for t := range a.Storage {
					add(t, new(big.Int).Neg(supplyOf(a, t)))
				}
				continue
			}
			n.Add(n, big.NewInt(a.Dev))
			if a.Balance.Sign() < 0 {
				r.fail("C03", "account %s has a negative balance", hexs([]byte(k)))
			}
			n.Add(n, a.Balance)
			for key := range a.Storage {
				if strings.HasPrefix(key, tokenPrefix) {
					add(key[len(tokenPrefix):], tokenValue(a.Storage[key]))
				}
			}
		}
	}
	for _, m := range r.queue {
		n.Add(n, m.Value)
		if k, v := messageTokens(m); k != "" {
			add(k, v)
		}
	}
	return n, t
}

func (r *Run) conserve() {
	n, t := r.totals()
	if n.Cmp(r.sumNative) != 0 {
		r.fail("C03", "the total native value is %s instead of %s", n, r.sumNative)
	}
	for k, v := range t {
		o := r.sumTokens[k]
		if o == nil {
			o = new(big.Int)
		}
		if v.Cmp(o) != 0 {
			r.fail("C03", "the total of token %q is %s instead of %s", k, v, o)
		}
	}
	for k, o := range r.sumTokens {
		if t[k] == nil && o.Sign() != 0 {
			r.fail("C03", "the total of token %q is 0 instead of %s", k, o)
		}
	}
	r.stats.inc("conservation_checks")
}

// back is a block of an earlier time.
func back(b Block, dt uint64) Block {
	e := uint32(dt / 14400)
	if e > b.Epoch {
		e = b.Epoch
	}
	b.Epoch -= e
	b.Time -= dt
	b.Seed = bytes.Repeat([]byte{byte(b.Nonce), byte(e)}, 24)
	return b
}

// do executes one step.
func (r *Run) do(st *Step) {
	r.stats.inc("step_" + st.Kind)
	if r.ipc != nil {
		r.ipc.before(st)
	}
	switch st.Kind {
	case "block":
		dt := st.N
		if st.Mode == "back" { // a fork, or a query: a block with the header of an earlier time
			for _, s := range r.shards {
				s.w.Cur, s.w.Last = back(s.w.Cur, dt), back(s.w.Last, dt)
			}
			r.stats.inc("blocks_back")
			break
		}
		for _, s := range r.shards {
			b := s.w.Cur
			s.w.Last = b
			b.Nonce++
			b.Round++
			b.Time += 6 + dt
			b.Epoch += uint32(dt / 14400)
			b.Seed = bytes.Repeat([]byte{byte(b.Nonce)}, 48)
			s.w.Cur = b
		}
		r.now += 6 + dt
		r.stats.add("sim_seconds", 6+dt)
	case "schedule":
		r.doSchedule(st)
	case "restart":
		s := r.shards[st.N%uint64(len(r.shards))]
		s.host.Runtime().ResetWarmInstance()
		if s.hook == nil {
			s.hook = s.w
		}
		s.host = newHostOn(s.hook, s.w, r.gas, r.sc.Cfg.Warm)
		s.used = false
		r.dirty = false
	case "dropcache":
		r.shards[st.N%uint64(len(r.shards))].w.ClearCompiledCodes()
	case "poison":
		w := r.shards[st.N%uint64(len(r.shards))].w
		for k, c := range w.compiled {
			g := append([]byte(nil), c...)
			switch st.N / 7 % 4 {
			case 0:
				g = nil
			case 1:
				g = g[:len(g)/2]
			case 2:
				for i := range g {
					g[i] ^= 0x5a
				}
			default:
				g = []byte("garbage")
			}
			w.compiled[k] = g
			r.stats.inc("cache_poisoned")
		}
	case "deliver":
		if len(r.queue) > 0 {
			r.deliver(int(st.N%uint64(len(r.queue))), st)
		}
	case "call", "deploy":
		r.transaction(st)
	}
	if r.ipc != nil {
		r.ipc.do(st)
	}
	r.conserve()
}

// drain lets every message arrive: faults have stopped, so all of them are processed. A conversation
// of contracts goes on for as long as there is gas, and no longer: gas in flight never grows, and
// messages without any gas die out.
func (r *Run) drain() {
	idle := 0
	for n := 0; len(r.queue) > 0; n++ {
		if n > 1500 {
			r.stats.inc("conversations_cut")
			return
		}
		before := r.gasInFlight()
		r.deliver(0, nil)
		after := r.gasInFlight()
		if after.Cmp(before) > 0 {
			r.fail("C08 C02", "a delivered message leaves %d gas in flight where there was %d", after, before)
		}
		idle++
		if after.Cmp(before) < 0 {
			idle = 0
		}
		if idle > 300 {
			r.fail("C08", "messages do not stop: %d still in flight", len(r.queue))
		}
		r.conserve()
	}
}

func (r *Run) gasInFlight() *big.Int {
	g := new(big.Int)
	for _, m := range r.queue {
		g.Add(g, new(big.Int).SetUint64(m.Gas))
		g.Add(g, new(big.Int).SetUint64(m.Locked))
	}
	return g
}

func (r *Run) nextHash() []byte {
	r.txs++
	b := bytes.Repeat([]byte{0xaa}, 32)
	for i := 0; i < 8; i++ {
		b[i] = byte(r.txs >> (8 * uint(i)))
	}
	return b
}

// --- gas schedule

func (r *Run) doSchedule(st *Step) {
	if st.Mode == "mid" {
		c := *st
		r.pendingMid = &c
		return
	}
	if st.Mode == "bad" {
		bad := badSchedule(r.gas, st.N)
		before := fmt.Sprint(sortedSched(r.gas))
		for _, s := range r.shards {
			s.host.GasScheduleChange(bad)
			if got := fmt.Sprint(sortedSched(s.host.GetGasScheduleMap())); got != before {
				r.fail("C11", "after an invalid schedule was refused the host reports another schedule than before")
			}
		}
		r.stats.inc("bad_schedules")
		return
	}
	next := nextSchedule(r.gas, st.N)
	costs := r.canary(next)
	newHost(newWorld(0, 1, r.gas), r.gas, false) // the process is back at the old schedule
	for _, s := range r.shards {
		s.w.ClearCompiledCodes()
	}
	for _, s := range r.shards {
		s.host.GasScheduleChange(copySched(next))
	}
	r.adopt(next, costs)
}

func (r *Run) adopt(next sched, costs uint64) {
	r.gas, r.costs = next, costs
	r.schedule++
	r.stats.inc("schedule_changes")
	for _, s := range r.shards {
		s.w.changeGas(copySched(next))
		s.wm.changeGas(copySched(next))
		if fmt.Sprint(sortedSched(s.host.GetGasScheduleMap())) != fmt.Sprint(sortedSched(next)) {
			r.fail("C11", "after a schedule change the host reports another schedule")
		}
	}
}

func sortedSched(s sched) []string {
	var out []string
	for k, m := range s {
		for n, v := range m {
			out = append(out, fmt.Sprintf("%s.%s=%d", k, n, v))
		}
	}
	sortBig(out)
	return out
}

// badSchedule is a schedule with one missing, zero or absent part, everything else being new.
func badSchedule(cur sched, n uint64) sched {
	s := makeSchedule(n%4096 + 77777)
	if n/4096 > 0 {
		s = copySched(cur)
	}
	rr := rand.New(rand.NewSource(int64(n)))
	secs := []string{"BaseOperationCost", "ElrondAPICost", "BigIntAPICost", "EthAPICost", "CryptoAPICost", "WASMOpcodeCost"}
	sec := secs[rr.Intn(len(secs))]
	var names []string
	for k := range s[sec] {
		names = append(names, k)
	}
	sortBig(names)
	switch rr.Intn(3) {
	case 0:
		delete(s, sec)
	case 1:
		delete(s[sec], names[rr.Intn(len(names))])
	default:
		s[sec][names[rr.Intn(len(names))]] = 0
	}
	return s
}

// midChange requests a schedule change from inside an execution, as the node's epoch notifier may.
// It returns a function that waits for the change after the execution.
func (r *Run) midChange(s *Shard, next sched) (started func(), finished func()) {
	var once sync.Once
	done := make(chan struct{})
	begun := false
	started = func() {
		once.Do(func() {
			begun = true
			r.stats.inc("mid_execution_changes")
			var gid string
			idc := make(chan string, 1)
			go func() {
				idc <- goid()
				s.host.GasScheduleChange(copySched(next))
				close(done)
			}()
			gid = <-idc
			// Until the requester is through or is waiting for the execution to end.
			for {
				select {
				case <-done:
					return
				default:
				}
				if blocked(gid) {
					return
				}
				runtime.Gosched()
			}
		})
	}
	finished = func() {
		if begun {
			<-done
		} else {
			s.host.GasScheduleChange(copySched(next))
		}
	}
	return
}

func goid() string {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	f := strings.Fields(string(b))
	if len(f) > 1 {
		return f[1]
	}
	return ""
}

// blocked says whether a goroutine waits for a lock.
func blocked(gid string) bool {
	b := make([]byte, 1<<16)
	b = b[:runtime.Stack(b, true)]
	for _, part := range strings.Split(string(b), "\n\n") {
		if strings.HasPrefix(part, "goroutine "+gid+" ") {
			l := part
			if i := strings.IndexByte(part, '\n'); i >= 0 {
				l = part[:i]
			}
			return strings.Contains(l, "sync.") || strings.Contains(l, "semacquire") || strings.Contains(l, "chan ") || strings.Contains(l, "select")
		}
	}
	return false
}

// canary executes a known instruction sequence on a new host and checks that it is metered with
// the schedule; it gives the identity of the engine's cost table under that schedule.
func (r *Run) canary(gas sched) (costs uint64) {
	w := newWorld(0, 1, copySched(gas))
	w.Cur = Block{Epoch: 1}
	addr := append(append(make([]byte, 8), vmTypeBytes...), bytes.Repeat([]byte{7}, 22)...)
	code, sum := canaryCode(gas["WASMOpcodeCost"])
	w.edit(addr, func(a *Acct) { a.Code, a.Meta = code, []byte{0, 0} })
	h := newHost(w, gas, false)
	engineTraceClear()
	engineTrace(true, false)
	out, err := h.RunSmartContractCall(&vmcommon.ContractCallInput{
		VMInput:       vmcommon.VMInput{CallerAddr: bytes.Repeat([]byte{1}, 32), CallValue: new(big.Int), GasProvided: 1 << 40},
		RecipientAddr: addr, Function: "c"})
	engineTrace(false, false)
	evs := engineEvents()
	engineTraceClear()
	if err != nil || out.ReturnCode != vmcommon.Ok {
		r.fail("C02 C05", "a plain contract fails on a new host: %v %v", err, out)
	}
	var a, b uint64
	for _, e := range evs {
		switch {
		case e.Kind == evEnter:
			costs = e.Costs
		case e.Kind == evImportEnd && a == 0:
			a = e.Points
		case e.Kind == evImport:
			b = e.Points
		}
	}
	if b-a != sum {
		r.fail("C02 C11", "a sequence of instructions that costs %d by the gas schedule was metered as %d", sum, b-a)
	}
	r.stats.inc("opcode_canaries")
	return costs
}
