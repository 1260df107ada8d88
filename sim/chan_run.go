//go:build verif
// +build verif

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// The runs of the IPC properties: every request goes to the VM process through the driver, and to a
// VM of the same configuration inside the node, over equal states. Results, node callbacks and what
// the callbacks changed have to be the same; only faults of the channel excuse errors.

type ipcRun struct {
	r  *Run
	k  *kernel
	sh []*ipcShard
}

type ipcShard struct {
	s         *Shard
	rec1      *recHook // over s.w, of the VM inside the node
	w2        *World
	rec2      *recHook // over w2, of the driver
	drv       *nodepart.ArwenDriver
	mark      int // faults so far, at the last success
	failures  int // failures since, not excused by a fault in the attempt itself
	lateStart bool
}

func init() { newIPC = func(r *Run) ipcSide { return &ipcRun{r: r} } }

const ms = int64(time.Millisecond)

func (p *ipcRun) run(body func()) {
	k := newKernel(p.r.sc.Cfg.Chan, p.r.stats)
	p.k = k
	if p.r.verbose {
		k.trace = func(f string, a ...interface{}) {
			fmt.Printf("      t=%d "+f+"\n", append([]interface{}{k.now / 1000}, a...)...)
		}
	}
	k.run(body)
	if k.viol != nil {
		panic(k.viol)
	}
	if k.idle {
		p.r.fail("I02 I03", "blocked forever, %s: %v", k.blame(), k.stuck)
	}
	p.crashes()
	p.r.stats.add("sim_milliseconds", uint64(k.now/ms))
	p.r.stats.seen("channel_histories", fmt.Sprintf("%016x", k.shape))
	p.r.note("end: now %d shape %016x", k.now, k.shape)
}

func (p *ipcRun) crashes() {
	for _, v := range p.k.procs {
		if v.crash != "" {
			p.r.fail("I02", "the VM process crashed, %s: %s", p.k.blame(), v.crash)
		}
	}
}

func (p *ipcRun) args(w *World) common.ArwenArguments {
	return common.ArwenArguments{
		VMHostParameters:    w.params(p.r.gas),
		MessagesMarshalizer: marshaling.MarshalizerKind(p.r.sc.Cfg.Chan.Marsh),
	}
}

func (p *ipcRun) setup() {
	for _, s := range p.r.shards {
		h := &ipcShard{s: s}
		h.rec1 = &recHook{w: s.w}
		s.hook = h.rec1
		s.host = newHostOn(h.rec1, s.w, p.r.gas, false)
		h.w2 = newWorld(s.w.Shard, s.w.NShards, copySched(p.r.gas))
		h.w2.noSave, h.w2.epochs = s.w.noSave, s.w.epochs
		h.rec2 = &recHook{w: h.w2}
		p.k.owner = len(p.sh)
		p.sh = append(p.sh, h)
		drv, err := nodepart.NewArwenDriver(h.rec2, p.args(h.w2), nodepart.Config{MaxLoopTime: p.r.sc.Cfg.Chan.MaxLoop})
		if err != nil {
			p.r.fail("I01", "the driver does not start: %v", err)
		}
		h.drv = drv
	}
}

// attempt runs one operation of a driver and judges whether it may fail and how long it may take.
// It returns whether the operation succeeded.
func (p *ipcRun) attempt(h *ipcShard, what string, op func() error) bool {
	k := p.k
	k.check(k.cur)
	k.owner = h.drvIndex(p)
	t0, fired0, delayed0, lagged0, msgs0 := k.now, k.fired, k.delayed, k.lagged, k.msgs[0]+k.msgs[1]
	err := op()
	took, lag, delayed := k.now-t0, k.lagged-lagged0, k.delayed-delayed0
	max := int64(p.r.sc.Cfg.Chan.MaxLoop) * ms
	p.r.stats.inc("requests")
	p.r.note("%d: %s -> %v after %d us, %d faults", p.r.step, what, err, took/1000, k.fired-fired0)
	if limit := max + lag + int64(k.msgs[0]+k.msgs[1]-msgs0+10)*ms; took > limit {
		p.r.fail("I03", "%s took %d ms where the limit is %d ms, %s", what, took/ms, p.r.sc.Cfg.Chan.MaxLoop, k.blame())
	}
	if err == nil {
		h.mark, h.failures = fired0, 0 // what went wrong after the answer may still show once
		return true
	}
	p.r.stats.inc("channel_errors")
	k.slow = 0
	if k.fired > fired0 || delayed >= max-5*ms || delayed > 0 && h.lateStart {
		return false // this attempt was disturbed
	}
	if k.fired > h.mark && h.failures < 1 {
		h.failures++ // the damage was done before
		return false
	}
	if delayed > 0 {
		p.r.fail("I03", "%s fails although it was only %d ms slow where the limit is %d ms: %v", what, delayed/ms, p.r.sc.Cfg.Chan.MaxLoop, err)
	}
	if k.fired > 0 {
		p.r.fail("I03", "%s fails again although no fault happens any more: %v", what, err)
	}
	p.r.fail("I01 I03", "%s fails without any fault: %v", what, err)
	return false
}

// retry repeats an operation until it succeeds.
func (p *ipcRun) retry(h *ipcShard, what string, op func() error) {
	for n := 0; !p.attempt(h, what, op); n++ {
		if n > len(p.k.faults)+20 {
			p.r.fail("I03", "%s still fails after %d attempts", what, n)
		}
	}
	p.population()
}

// population checks what processes and pipes there are.
func (p *ipcRun) population() {
	live, dead := 0, 0
	for _, v := range p.k.procs[1:] {
		if !v.exited {
			live++
		} else if !v.waited {
			dead++
		}
	}
	n := len(p.sh)
	if live > n {
		p.r.fail("I03", "%d VM processes of %d drivers are running, %s", live, n, p.k.blame())
	}
	if dead > n {
		p.r.fail("I03", "%d ended VM processes of %d drivers were never waited for, %s", dead, n, p.k.blame())
	}
	if p.k.pipes > 6*n {
		p.r.fail("I03", "the node has %d pipe ends open for %d drivers, %s", p.k.pipes, n, p.k.blame())
	}
	p.crashes()
}

func copyCodes(m map[string][]byte) map[string][]byte {
	c := make(map[string][]byte, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func faultsOf(st *Step) *HookFaults {
	f := &HookFaults{Plan: map[string]int{}, Fired: map[string]int{}, Seen: map[string]int{}}
	for k, n := range st.Fault {
		f.Plan[k] = n
	}
	return f
}

func (p *ipcRun) execute(s *Shard, x *execInput, st *Step) *vmcommon.VMOutput {
	s.w.commit()
	if st != nil && len(st.Fault) > 0 {
		before := s.w.accts
		s.w.accts = map[string]*Acct{}
		for k, v := range before {
			s.w.accts[k] = v
		}
		p.pair(p.sh[s.id], x, st)
		s.w.accts = before
		s.w.journal = nil
	}
	out, err := p.pair(p.sh[s.id], x, nil)
	if err != nil {
		out = &vmcommon.VMOutput{ReturnCode: vmcommon.ExecutionFailed}
	}
	if out.ReturnCode != vmcommon.Ok {
		s.w.revert(0)
	}
	p.r.note("%d: %s -> %s", p.r.step, x, outText(out))
	return out
}

// pair executes a request in the VM process and in the VM inside the node, and compares.
func (p *ipcRun) pair(h *ipcShard, x *execInput, st *Step) (*vmcommon.VMOutput, error) {
	var out2 *vmcommon.VMOutput
	var err2 error
	sent := x.copy()
	if st == nil {
		st = &Step{}
	}
	p.retry(h, x.String(), func() error {
		h.w2.setState(h.s.w)
		h.w2.compiled = copyCodes(h.s.w.compiled)
		h.rec2.log, h.rec2.who, h.rec2.snap = nil, nil, copyCodes(h.w2.compiled)
		h.w2.fault = faultsOf(st)
		y := x.copy()
		out2, err2 = runVM(h.drv, y)
		if d1, d2 := dump(y.vmIn()), dump(x.vmIn()); d1 != d2 {
			p.r.fail("I01", "the driver changed the input of the request from %s to %s", d2, d1)
		}
		if common.IsCriticalError(err2) {
			if out2 != nil {
				p.r.fail("I02", "%s returned both an output and the error %v", x, err2)
			}
			return err2
		}
		return nil
	})
	h.s.w.compiled = copyCodes(h.rec2.snap)
	h.rec1.log, h.rec1.who = nil, nil
	h.s.w.fault = faultsOf(st)
	out1, err1 := runVM(h.s.host, sent)
	h.s.used = true
	h.s.w.fault = nil
	p.r.stats.inc("compared")
	p.r.stats.add("callbacks_compared", uint64(len(h.rec1.log)))
	p.compare(x.String(), out1, err1, out2, err2)
	p.compareLogs(x.String(), h.rec1.log, h.rec2.log)
	for _, k := range sortedKeys(mergedKeys(h.s.w.accts, h.w2.accts)) {
		if d := diffAcct(h.w2.accts[k], h.s.w.accts[k]); d != "" {
			p.r.fail(p.prop(), "%s in the VM process leaves account %s different from the VM inside the node, %s: %s", x, shortAddr([]byte(k)), p.k.blame(), d)
		}
	}
	if len(h.w2.journal) != len(h.s.w.journal) {
		p.r.fail(p.prop(), "%s in the VM process leaves %d state changes instead of %d, %s", x, len(h.w2.journal), len(h.s.w.journal), p.k.blame())
	}
	if d1, d2 := dump(h.s.w.compiled), dump(h.w2.compiled); d1 != d2 {
		p.r.fail(p.prop(), "%s in the VM process leaves other compiled code, %s: %s instead of %s", x, p.k.blame(), d2, d1)
	}
	return out1, err1
}

// prop is the property a wrong result is against.
func (p *ipcRun) prop() string {
	if p.r.schedule > 0 {
		return "I01 I02 I03"
	}
	if p.k.fired > 0 {
		return "I02 I01"
	}
	return "I01"
}

func (p *ipcRun) compare(what string, out1 *vmcommon.VMOutput, err1 error, out2 *vmcommon.VMOutput, err2 error) {
	t1, t2 := resultText(out1, err1), resultText(out2, err2)
	if t1 != t2 {
		i := 0
		for i < len(t1) && i < len(t2) && t1[i] == t2[i] {
			i++
		}
		if i > 60 {
			i -= 60
		} else {
			i = 0
		}
		p.r.fail(p.prop(), "%s: the VM process gives ...%s instead of ...%s, %s", what, cut3(t2[i:]), cut3(t1[i:]), p.k.blame())
	}
}

func cut3(s string) string { return cutText(s, 300) }

func (p *ipcRun) compareLogs(what string, want, got []string) {
	for i := 0; i < len(want) || i < len(got); i++ {
		a, b := "nothing", "nothing"
		if i < len(want) {
			a = want[i]
		}
		if i < len(got) {
			b = got[i]
		}
		if a != b {
			p.r.fail(p.prop(), "%s: node callback %d is %s instead of %s, %s", what, i+1, cut3(b), cut3(a), p.k.blame())
		}
	}
}

// arm is called before a step.
func (p *ipcRun) before(st *Step) { p.k.arm(st.Chan) }

// do is the IPC part of a step.
func (p *ipcRun) do(st *Step) {
	k := p.k
	h := p.sh[st.N%uint64(len(p.sh))]
	switch st.Kind {
	case "schedule":
		p.schedule(st)
	case "version":
		got := ""
		p.retry(h, "GetVersion", func() error {
			got = h.drv.GetVersion()
			if got == "" {
				return fmt.Errorf("no version")
			}
			return nil
		})
		if got != "simulated" {
			p.r.fail("I02", "the version is %q", got)
		}
	case "diagnose":
		max := int64(p.r.sc.Cfg.Chan.MaxLoop)
		n := int64(st.N)
		p.attempt(h, fmt.Sprintf("DiagnoseWait(%d)", n), func() error {
			if n <= max-2 {
				k.delayed += n * ms
			} else {
				k.fired++
			}
			lagged := k.lagged
			err := h.drv.DiagnoseWait(uint32(n))
			if err == nil && n > max+20+(k.lagged-lagged)/ms {
				p.r.fail("I03", "a request that takes %d ms succeeds where the limit is %d ms", n, max)
			}
			return err
		})
		p.population()
	case "probe":
		p.probe(h, st)
	case "parallel":
		p.parallel(h, st)
	case "vmkill", "vmstop":
		for _, v := range k.procs[1:] {
			if !v.exited && !v.killed && v.driver == h.drvIndex(p) {
				k.fired++
				k.stats.inc("fault_" + st.Kind)
				if st.Kind == "vmkill" {
					k.kill(v)
				} else {
					v.stalled = true
				}
			}
		}
	case "close":
		running := false // closing a driver that has stopped its process already is an error of the caller
		for _, v := range k.procs[1:] {
			running = running || v.driver == h.drvIndex(p) && !v.exited && !v.killed && !v.waited
		}
		if err := h.drv.Close(); err != nil && k.fired == 0 && running {
			p.r.fail("I03", "the driver cannot be closed: %v", err)
		}
		for _, v := range k.procs[1:] {
			if v.driver == h.drvIndex(p) && (!v.exited || !v.waited) {
				p.r.fail("I03", "after Close a VM process still exists")
			}
		}
		k.stats.inc("closed")
		k.fired++
	}
}

func (h *ipcShard) drvIndex(p *ipcRun) int {
	for i, x := range p.sh {
		if x == h {
			return i
		}
	}
	return -1
}

// schedule gives the drivers the gas schedule that the VMs inside the node have been given.
func (p *ipcRun) schedule(st *Step) {
	for _, h := range p.sh {
		var next sched
		if st.Mode == "bad" {
			next = badSchedule(p.r.gas, st.N)
		} else {
			next = copySched(p.r.gas)
			h.w2.ClearCompiledCodes()
			h.w2.changeGas(copySched(p.r.gas))
		}
		p.k.owner = h.drvIndex(p)
		t0, lagged0 := p.k.now, p.k.lagged
		h.drv.GasScheduleChange(next)
		if took, max := p.k.now-t0-(p.k.lagged-lagged0), int64(p.r.sc.Cfg.Chan.MaxLoop+50)*ms; took > max {
			p.r.fail("I03", "a gas schedule change took %d ms where the limit is %d ms", took/ms, p.r.sc.Cfg.Chan.MaxLoop)
		}
		if st.N%2 == 1 {
			for sec := range next { // the caller's map is the caller's
				for n := range next[sec] {
					next[sec][n] = 77
				}
			}
		}
		p.population()
	}
}

// probe sends a request whose callbacks and result the simulator invents.
func (p *ipcRun) probe(h *ipcShard, st *Step) {
	r := rand.New(rand.NewSource(int64(st.Gas)))
	order := append([]byte("probe!"), make([]byte, 26)...)
	binary.BigEndian.PutUint64(order[6:], r.Uint64())
	order[14] = byte(st.N / 8 % 24)
	var x *execInput
	if r.Intn(2) == 0 {
		x = &execInput{call: rcall(r)}
	} else {
		x = &execInput{create: rcreate(r)}
	}
	x.vmIn().PrevTxHash = order
	var want string
	if x.call != nil {
		want = dump(x.call)
	} else {
		want = dump(x.create)
	}
	what := fmt.Sprintf("a request with %d invented callbacks", order[14])
	seed := r.Int63()
	var out *vmcommon.VMOutput
	var err error
	p.retry(h, what, func() error {
		p.k.probeVM = nil
		h.rec2.probe = rand.New(rand.NewSource(seed))
		h.rec2.log, h.rec2.who = nil, nil
		out, err = runVM(h.drv, x)
		if common.IsCriticalError(err) {
			return err
		}
		return nil
	})
	h.rec2.probe = nil
	l := p.k.probeVM
	if l == nil {
		p.r.fail("I02", "%s got an answer that no VM gave, %s", what, p.k.blame())
	}
	p.r.stats.inc("probes")
	p.r.stats.add("probed_callbacks", uint64(len(l.calls)))
	if l.input != want {
		p.r.fail(p.prop(), "the VM process was given %s instead of %s", cut3(l.input), cut3(want))
	}
	for i := 0; i < len(l.calls) || i < len(h.rec2.log); i++ {
		a, b := "nothing", "nothing"
		if i < len(l.calls) {
			a = l.calls[i]
		}
		if i < len(h.rec2.log) {
			b = h.rec2.log[i]
		}
		if a != b {
			p.r.fail(p.prop(), "%s: for the VM callback %d is %s, for the node it is %s, %s", what, i+1, cut3(a), cut3(b), p.k.blame())
		}
	}
	if got := resultText(out, err); got != l.output {
		i := 0
		for i < len(got) && i < len(l.output) && got[i] == l.output[i] {
			i++
		}
		if i > 60 {
			i -= 60
		} else {
			i = 0
		}
		p.r.fail(p.prop(), "%s: the node got the result ...%s where the VM gave ...%s, %s", what, cut3(got[i:]), cut3(l.output[i:]), p.k.blame())
	}
}

// query is one execution of several that threads of the node ask for at once.
type query struct {
	st         *Step
	x          *execInput
	olds, news string
	got        string
	failed     bool
	begin, end int // in the order of events
}

func (p *ipcRun) parallel(h *ipcShard, st *Step) {
	k := p.k
	var qs []*query
	change := -1
	var next sched
	var costs uint64
	for i := range st.Sub {
		sub := &st.Sub[i]
		q := &query{st: sub}
		switch sub.Kind {
		case "call":
			in := p.r.vmInput(sub.From, sub, new(big.Int), bytes.Repeat([]byte{byte(i)}, 32))
			to := h.s.w.get(sub.To)
			if to == nil || len(to.Code) == 0 {
				continue
			}
			q.x = &execInput{call: &vmcommon.ContractCallInput{VMInput: in, RecipientAddr: sub.To, Function: sub.Func}}
		case "schedule":
			if change >= 0 {
				continue
			}
			next = nextSchedule(p.r.gas, sub.N)
			change = len(qs)
		case "version":
		default:
			continue
		}
		qs = append(qs, q)
	}
	// what each execution gives alone, under the old and the new schedule
	expect := func(host arwen.VMHost, w *World, q *query) string {
		n, edits := len(w.journal), w.edits
		out, err := runVM(host, q.x.copy())
		w.revert(n)
		// a query may end halfway, thus it must not even change and restore the state
		if w.edits != edits {
			return ""
		}
		return resultText(out, err)
	}
	h.s.w.commit()
	if change >= 0 {
		// code compiled at the old costs and saved after the cache was dropped would make executions differ
		// from both schedules; that race is the node's, so the cache keeps nothing meanwhile
		noSave := h.s.w.noSave
		h.s.w.noSave, h.w2.noSave = true, true
		defer func() { h.s.w.noSave, h.w2.noSave = noSave, noSave }()
		h.s.w.ClearCompiledCodes()
	}
	codes := copyCodes(h.s.w.compiled)
	for _, q := range qs {
		if q.x != nil {
			q.olds = expect(h.s.host, h.s.w, q)
		}
	}
	if change >= 0 {
		saved := engineCosts()
		costs = p.r.canary(next)
		w := h.s.w.clone()
		w.changeGas(copySched(next))
		host := newHostOn(w, w, next, false)
		for _, q := range qs {
			if q.x != nil {
				q.news = expect(host, w, q)
			}
		}
		engineSetCosts(saved)
	}
	kept := qs[:0:0]
	for _, q := range qs {
		if q.x != nil && (q.olds == "" || change >= 0 && q.news == "") {
			p.r.stats.inc("queries_left_out")
			continue
		}
		kept = append(kept, q)
	}
	qs = kept
	for i, q := range qs {
		if q.st.Kind == "schedule" {
			change = i
		}
	}
	h.s.w.compiled = codes
	h.w2.setState(h.s.w)
	h.w2.compiled = copyCodes(codes)
	h.w2.fault = nil
	h.rec2.log, h.rec2.who = nil, nil
	k.owner = h.drvIndex(p)
	fired0, delayed0 := k.fired, k.delayed
	clock := 0
	left := len(qs)
	for i, q := range qs {
		q := q
		k.spawn(fmt.Sprintf("node%d", i), k.node, func() {
			k.wait(func() bool { return true }, 0)
			clock++
			q.begin = clock
			switch q.st.Kind {
			case "version":
				q.got = h.drv.GetVersion()
				q.failed = q.got == ""
			case "schedule":
				h.drv.GasScheduleChange(copySched(next))
			default:
				out, err := runVM(h.drv, q.x.copy())
				q.failed = common.IsCriticalError(err)
				q.got = resultText(out, err)
			}
			clock++
			q.end = clock
			left--
		})
	}
	k.wait(func() bool { return left == 0 }, 0)
	p.r.stats.inc("parallel_steps")
	p.r.stats.add("parallel_requests", uint64(len(qs)))
	for i := range qs {
		q := qs[i]
		p.r.note("%d: thread %d %s (%d-%d) failed %v", p.r.step, i, q.st.Kind, q.begin, q.end, q.failed)
		if q.failed {
			if k.fired == fired0 && k.fired == h.mark && k.delayed-delayed0 < int64(p.r.sc.Cfg.Chan.MaxLoop-5)*ms {
				p.r.fail("I03 I01", "a %s by one of %d threads fails without a fault: %s", q.st.Kind, len(qs), cut3(q.got))
			}
			continue
		}
		switch {
		case q.st.Kind == "version":
			if q.got != "simulated" {
				p.r.fail("I03 I02", "the version asked for by one of %d threads is %q", len(qs), q.got)
			}
		case q.x != nil:
			okOld, okNew := true, false
			if change >= 0 {
				c := qs[change]
				okOld = q.begin < c.end
				okNew = q.end > c.begin
			}
			if !(okOld && q.got == q.olds || okNew && q.got == q.news) {
				w := q.olds
				if !okOld {
					w = q.news
				}
				p.r.fail("I03 I02", "%s by one of %d threads gives %s instead of %s, %s", q.x, len(qs), cut3(q.got), cut3(w), k.blame())
			}
		}
	}
	seen := map[string]bool{}
	last := ""
	for _, w := range h.rec2.who {
		if w != last && seen[w] {
			p.r.fail("I03", "the node callbacks of the requests of several threads are mixed up")
		}
		seen[w], last = true, w
	}
	if change >= 0 {
		for _, s := range p.r.shards {
			s.w.ClearCompiledCodes()
		}
		for _, s := range p.r.shards {
			s.host.GasScheduleChange(copySched(next))
		}
		p.r.adopt(next, costs)
		for _, o := range p.sh {
			o.w2.changeGas(copySched(next))
			o.w2.ClearCompiledCodes()
			if o != h {
				k.owner = o.drvIndex(p)
				o.drv.GasScheduleChange(copySched(next))
			}
		}
	}
	p.population()
}
