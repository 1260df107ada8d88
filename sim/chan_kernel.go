//go:build verif
// +build verif

package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
)

// The simulated operating system of the node and its VM processes: tasks of which exactly one runs
// at a time, a clock that only moves when every task waits, pipes, and processes that can be killed
// at every operation on a pipe.

const (
	pipeCapacity = 65536
	opLimit      = 400000 // operations on pipes without the clock moving
	maxVMs       = 200
)

type procDead struct{}

type task struct {
	name     string
	proc     *vproc
	wake     chan struct{}
	cond     func() bool
	deadline int64
	done     bool
}

type vproc struct {
	pid     int
	name    string
	killed  bool // by the simulator or by the node
	exited  bool
	waited  bool
	stalled bool
	exit    string
	crash   string
	ends    []*pipeEnd
	costs   []uint32
	n       int // the n-th VM process
	link    *link
	part    *arwenpart.ArwenPart
	born    int64
	marsh   marshaling.Marshalizer
	driver  int // whose VM it is
}

// link is the pair of pipes between the node and one VM process.
type link struct {
	vm      *vproc
	writing [2]bool // the side is in the middle of a message it writes
	cur     [2]int  // the number of that message
	bytes   [2]int
	skip    [2]bool // the message is swallowed
	dup     [2]bool // the message arrives twice
	copy    [2][]byte
	end     int // the size of the message the virtual machine writes, if it dozes off afterwards
	rrng    *rand.Rand
}

const (
	sideNode = 0
	sideVM   = 1
)

var sideNames = []string{"node", "vm"}

type pipeBuf struct {
	k       *kernel
	buf     []byte
	readers int
	writers int
	link    *link
	side    int // who writes
	rdelay  int64
}

type pipeEnd struct {
	p      *pipeBuf
	proc   *vproc
	read   bool
	closed bool
	rdl    int64
	wdl    int64
}

type kernel struct {
	now     int64
	tasks   []*task
	cur     *task
	node    *vproc
	procs   []*vproc
	nextPid int
	rng     *rand.Rand
	seed    uint64
	cfg     *ChanCfg
	faults  []ChanFault
	used    []bool
	done    chan struct{}
	dead    bool
	viol    interface{} // what the node's task failed with
	ops     int
	lastNow int64
	msgs    [2]int
	reads   [2]int
	starts  int
	starts0 int
	deaths  int
	fired   int   // faults that happened
	delayed int64 // time injected as delay of messages
	stats   *Stats
	stuck   []string
	probeVM *probeLog
	owner   int  // the driver in use
	idle    bool // nothing can happen any more
	pipes   int  // pipe ends that the node has open
	shape   uint64
	reused  map[int]bool
	nows    int
	slow    int64    // how slow the virtual machine is (milliseconds for each message)
	lagged  int64    // time the node itself lost
	log     []string // what the faults were
	trace   func(f string, a ...interface{})
}

var sim *kernel

// arm replaces the faults: those of the next step, whose events are counted from now.
func (k *kernel) arm(faults []ChanFault) {
	k.faults, k.used = faults, make([]bool, len(faults))
	k.msgs, k.reads, k.starts0, k.deaths, k.nows = [2]int{}, [2]int{}, k.starts, 0, 0
	k.log, k.slow = nil, 0
}

// blame says what was done to the channel in this step.
func (k *kernel) blame() string {
	if len(k.log) == 0 {
		return "without any fault"
	}
	return "with the faults " + strings.Join(k.log, ", ")
}

var simEpoch = time.Date(2021, 8, 1, 0, 0, 0, 0, time.UTC)

func init() {
	self, _ := os.Executable()
	os.Setenv(common.EnvVarArwenPath, self) // any file that exists
	common.NewPipe = func() (common.PipeFile, common.PipeFile, error) {
		k := sim
		if k.fault("start", "", k.starts-k.starts0, func(v int64) bool { return v >= 1 && v <= 3 }) != nil {
			return nil, nil, syscall.EMFILE
		}
		p := &pipeBuf{k: k}
		r, w := k.newEnd(p, k.node, true), k.newEnd(p, k.node, false)
		return r, w, nil
	}
	common.Now = func() time.Time {
		if sim == nil {
			return simEpoch
		}
		t := simEpoch.Add(time.Duration(sim.now))
		if sim.cur.proc == sim.node {
			if f := sim.fault("lag", "", sim.nows, nil); f != nil {
				sim.now += f.V * int64(time.Millisecond)
				sim.lagged += f.V * int64(time.Millisecond)
			}
			sim.nows++
		}
		return t
	}
	common.Sleep = func(d time.Duration) {
		if sim != nil {
			sim.sleep(int64(d))
		}
	}
	common.NewLocker = func() sync.Locker { return &simLock{} }
	nodepart.Processes = simProcesses{}
	// The wire format of the gob marshalizer depends on the order in which types are first used.
	for i := common.MessageKind(0); i < common.LastKind; i++ {
		for _, kind := range []marshaling.MarshalizerKind{marshaling.Gob, marshaling.JSON} {
			func() {
				defer func() { recover() }()
				marshaling.CreateMarshalizer(kind).Marshal(common.CreateMessage(i))
			}()
		}
	}
}

func newKernel(cfg *ChanCfg, stats *Stats) *kernel {
	k := &kernel{seed: cfg.Seed, cfg: cfg, rng: rand.New(rand.NewSource(int64(cfg.Seed))),
		done: make(chan struct{}), stats: stats, nextPid: 2, reused: map[int]bool{}, shape: 14695981039346656037}
	k.node = &vproc{pid: 1, name: "node"}
	k.procs = []*vproc{k.node}
	return k
}

// fault finds an unused fault of a kind at an event, and uses it up.
func (k *kernel) fault(kind, at string, n int, ok func(v int64) bool) *ChanFault {
	for i := range k.faults {
		f := &k.faults[i]
		if k.used[i] || f.Kind != kind || f.At != at && at != "" || f.N != n || ok != nil && !ok(f.V) {
			continue
		}
		k.used[i] = true
		k.stats.inc("fault_" + kind)
		k.log = append(k.log, fmt.Sprintf("%s %s#%d(%d)", kind, at, n, f.V))
		k.mix(kind + at)
		if kind != "delay" && kind != "slow" {
			k.fired++
		}
		if k.trace != nil {
			k.trace("fault %s %s %d %d", kind, at, n, f.V)
		}
		return f
	}
	return nil
}

func (k *kernel) mix(s string) {
	for i := 0; i < len(s); i++ {
		k.shape = (k.shape ^ uint64(s[i])) * 1099511628211
	}
}

// --- tasks

func (k *kernel) spawn(name string, p *vproc, fn func()) *task {
	t := &task{name: name, proc: p, wake: make(chan struct{})}
	k.tasks = append(k.tasks, t)
	go func() {
		<-t.wake
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(procDead); !ok {
					if p == k.node {
						if k.viol == nil {
							if _, ok := e.(mismatch); !ok {
								e = fmt.Sprintf("%v\n%s", e, debug.Stack())
							}
							k.viol = e
						}
						k.dead = true
					} else {
						p.crash = fmt.Sprint(e)
						if os.Getenv("STACK") != "" {
							fmt.Println(string(debug.Stack()))
						}
					}
				}
			}
			t.done = true
			k.exited(p)
			k.next(t)
		}()
		if !k.dead && !p.killed {
			fn()
		}
	}()
	return t
}

// exited closes what a process had open once its last task has ended.
func (k *kernel) exited(p *vproc) {
	if p == k.node && !p.killed && !k.dead {
		return
	}
	for _, t := range k.tasks {
		if t.proc == p && !t.done {
			return
		}
	}
	if !p.exited {
		p.exited = true
		k.closeAll(p)
		if p != k.node {
			k.deaths++
			k.mix("exit")
			if k.fault("pid", "", k.deaths-1, nil) != nil {
				k.reused[p.pid] = true
			}
		}
	}
}

func (k *kernel) closeAll(p *vproc) {
	for _, e := range p.ends {
		e.shut()
	}
}

// kill ends a process at once: none of its code has an effect any more.
func (k *kernel) kill(p *vproc) {
	if p.killed || p.exited {
		return
	}
	p.killed = true
	k.closeAll(p)
	if k.cur != nil && k.cur.proc == p {
		panic(procDead{})
	}
}

// wait suspends the running task until cond holds or the time is deadline (0: no limit).
func (k *kernel) wait(cond func() bool, deadline int64) (late bool) {
	t := k.cur
	k.check(t)
	t.cond, t.deadline = cond, deadline
	n := k.nextTask()
	if n != t {
		k.hand(n)
		<-t.wake
	} else {
		k.cur = t
	}
	t.cond, t.deadline = nil, 0
	k.check(t)
	return deadline > 0 && k.now >= deadline && !cond()
}

func (k *kernel) check(t *task) {
	if k.dead || t.proc.killed {
		panic(procDead{})
	}
}

func (k *kernel) sleep(d int64) {
	if d > 0 {
		k.wait(func() bool { return false }, k.now+d)
	}
}

// pick chooses the task that runs next; nil if none ever can.
func (k *kernel) pick() *task {
	for {
		var ready []*task
		for _, t := range k.tasks {
			if t.done {
				continue
			}
			if k.dead || t.proc.killed {
				return t
			}
			if t.proc.stalled {
				continue
			}
			if t.cond == nil || t.cond() || t.deadline > 0 && t.deadline <= k.now {
				ready = append(ready, t)
			}
		}
		if len(ready) > 0 {
			return ready[k.rng.Intn(len(ready))]
		}
		best := int64(0)
		for _, t := range k.tasks {
			if !t.done && !t.proc.stalled && t.deadline > 0 && (best == 0 || t.deadline < best) {
				best = t.deadline
			}
		}
		if best == 0 {
			return nil
		}
		k.now = best
	}
}

// nextTask picks the task that runs next; when none ever can, the run ends: every task left is made to stop.
func (k *kernel) nextTask() *task {
	n := k.pick()
	if n == nil && !k.dead {
		for _, t := range k.tasks {
			if !t.done && !t.proc.stalled {
				k.idle = true
				k.stuck = append(k.stuck, t.name)
			}
		}
		k.dead = true
		n = k.pick()
	}
	return n
}

// hand gives the processor to a task; with none left the run is over.
func (k *kernel) hand(n *task) {
	if n == nil {
		close(k.done)
		return
	}
	if old := k.cur; old == nil || old.proc != n.proc {
		if old != nil {
			old.proc.costs = engineCosts()
		}
		if n.proc.costs != nil {
			engineSetCosts(n.proc.costs)
		}
	}
	k.cur = n
	n.wake <- struct{}{}
}

// next is called by a task that has ended.
func (k *kernel) next(t *task) {
	k.hand(k.nextTask())
}

// run executes fn as the node's first task and returns when no task is left.
func (k *kernel) run(fn func()) {
	sim = k
	k.spawn("node", k.node, func() {
		fn()
		k.node.killed = true // the node ends: its VM processes have to notice
		k.closeAll(k.node)
	})
	k.hand(k.tasks[0])
	<-k.done
	sim = nil
}

// op counts an operation; spinning without progress is an endless loop.
func (k *kernel) op() {
	k.check(k.cur)
	if k.now != k.lastNow {
		k.lastNow, k.ops = k.now, 0
	}
	k.ops++
	if k.ops > opLimit {
		if k.cur.proc == k.node {
			panic(mismatch{[]string{"I02"}, "the node never stops using the pipes"})
		}
		panic("the VM process never stops using the pipes")
	}
}

// simLock is the mutual exclusion lock of simulated tasks.
type simLock struct{ held bool }

func (l *simLock) Lock() {
	if sim == nil {
		l.held = true
		return
	}
	sim.check(sim.cur)
	sim.wait(func() bool { return true }, 0) // another task may come first
	for l.held {
		sim.wait(func() bool { return !l.held }, 0)
	}
	l.held = true
}

func (l *simLock) Unlock() { l.held = false }

// --- pipes

func (k *kernel) newEnd(p *pipeBuf, owner *vproc, read bool) *pipeEnd {
	e := &pipeEnd{p: p, proc: owner, read: read}
	if read {
		p.readers++
	} else {
		p.writers++
	}
	owner.ends = append(owner.ends, e)
	if owner == k.node {
		k.pipes++
	}
	return e
}

func (e *pipeEnd) shut() {
	if e.closed {
		return
	}
	e.closed = true
	if e.read {
		e.p.readers--
	} else {
		e.p.writers--
	}
	if e.proc == e.p.k.node {
		e.p.k.pipes--
	}
}

func (e *pipeEnd) Close() error {
	e.p.k.op()
	if e.closed {
		return os.ErrClosed
	}
	e.shut()
	return nil
}

func (e *pipeEnd) dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(t.Sub(simEpoch))
	if d <= 0 {
		d = 1
	}
	return d
}

func (e *pipeEnd) SetDeadline(t time.Time) error {
	if e.closed {
		return os.ErrClosed
	}
	e.rdl, e.wdl = e.dl(t), e.dl(t)
	return nil
}

func (e *pipeEnd) SetReadDeadline(t time.Time) error {
	if e.closed {
		return os.ErrClosed
	}
	e.rdl = e.dl(t)
	return nil
}

func (e *pipeEnd) SetWriteDeadline(t time.Time) error {
	if e.closed {
		return os.ErrClosed
	}
	e.wdl = e.dl(t)
	return nil
}

// beginRead is called before every read: the reader's own message, if any, is complete.
func (k *kernel) beginRead(e *pipeEnd) error {
	l := e.p.link
	if l == nil {
		return nil
	}
	side := 1 - e.p.side // who reads
	if l.writing[side] {
		l.writing[side] = false
		n := l.cur[side]
		k.reads[side]++
		if k.fault("kill", sideNames[side], n, func(v int64) bool { return v < 0 }) != nil {
			k.kill(l.vm)
		}
		if side == sideVM {
			if k.fault("stop", "", n, func(v int64) bool { return v < 0 }) != nil {
				k.stall(l.vm)
			}
		}
		if k.fault("rerr", sideNames[side], n, nil) != nil {
			return syscall.EIO
		}
	}
	return nil
}

// stall stops a process for good, as SIGSTOP does.
func (k *kernel) stall(p *vproc) {
	p.stalled = true
	if k.cur.proc == p {
		k.wait(func() bool { return false }, 0)
	}
}

func (e *pipeEnd) Read(b []byte) (int, error) {
	k := e.p.k
	k.op()
	if e.closed || !e.read {
		return 0, os.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if err := k.beginRead(e); err != nil {
		return 0, err
	}
	for len(e.p.buf) == 0 {
		if e.p.writers == 0 {
			return 0, io.EOF
		}
		if e.rdl > 0 && k.now >= e.rdl {
			return 0, os.ErrDeadlineExceeded
		}
		k.wait(func() bool { return len(e.p.buf) > 0 || e.p.writers == 0 || e.closed }, e.rdl)
		if e.closed {
			return 0, os.ErrClosed
		}
	}
	if e.rdl > 0 && k.now >= e.rdl {
		return 0, os.ErrDeadlineExceeded
	}
	n := len(b)
	if n > len(e.p.buf) {
		n = len(e.p.buf)
	}
	if l := e.p.link; l != nil && k.cfg.Frag > 0 && n > 1 {
		if l.rrng == nil {
			l.rrng = rand.New(rand.NewSource(int64(k.seed) ^ int64(l.vm.n)<<20))
		}
		m := n
		switch {
		case k.cfg.Frag == 1 && n < 200:
			m = 1
		case k.cfg.Frag == 1:
			m = 1 + l.rrng.Intn(n/8)
		case l.rrng.Intn(3) > 0:
			m = 1 + l.rrng.Intn(n)
		}
		if m < n {
			n = m
			k.stats.inc("short_reads")
			k.ops--
		}
	}
	copy(b, e.p.buf[:n])
	e.p.buf = e.p.buf[n:]
	return n, nil
}

func (e *pipeEnd) Write(b []byte) (int, error) {
	k := e.p.k
	k.op()
	if e.closed || e.read {
		return 0, os.ErrClosed
	}
	l := e.p.link
	if l == nil {
		return k.put(e, b)
	}
	side := e.p.side
	if !l.writing[side] {
		l.writing[side] = true
		l.cur[side] = k.msgs[side]
		l.bytes[side] = 0
		l.skip[side] = false
		l.dup[side], l.copy[side] = false, nil
		k.msgs[side]++
		k.stats.inc("messages")
		k.mix(sideNames[side])
		if err := k.beginMessage(e, l, side, b); err != nil {
			return 0, err
		}
	}
	if l.skip[side] {
		return len(b), nil
	}
	if l.dup[side] {
		l.copy[side] = append(l.copy[side], b...)
	}
	n := l.cur[side]
	done := 0
	for done < len(b) {
		rest := b[done:]
		// A fault inside these bytes cuts them.
		var cut *ChanFault
		for i := range k.faults {
			f := &k.faults[i]
			if k.used[i] || f.At != sideNames[side] || f.N != n || f.V < 0 || f.Kind != "kill" && f.Kind != "ioerr" && f.Kind != "stop" {
				continue
			}
			if at := int(f.V) - l.bytes[side]; at >= 0 && at < len(rest) || at == 0 {
				cut = f
				if at < len(rest) {
					rest = rest[:at]
				}
				break
			}
		}
		if len(rest) > 0 {
			m, err := k.put(e, rest)
			done += m
			l.bytes[side] += m
			if err != nil {
				return done, err
			}
		}
		if cut != nil {
			k.fault(cut.Kind, cut.At, cut.N, func(v int64) bool { return v == cut.V })
			switch cut.Kind {
			case "kill":
				k.kill(l.vm)
			case "stop":
				k.stall(l.vm)
			case "ioerr":
				return done, syscall.EIO
			}
			continue
		}
	}
	if side == sideVM && l.end > 0 && l.bytes[side] >= l.end {
		l.end = 0
		k.doze()
	}
	if c := l.copy[side]; len(c) >= 8 && len(c) == 8+int(binary.LittleEndian.Uint32(c)) {
		l.dup[side], l.copy[side] = false, nil
		k.put(e, c)
	}
	return done, nil
}

// doze is what a slow virtual machine does before or after it writes a message.
func (k *kernel) doze() {
	k.stats.inc("dozes")
	k.delayed += k.slow * int64(time.Millisecond)
	k.sleep(k.slow * int64(time.Millisecond))
}

func (k *kernel) beginMessage(e *pipeEnd, l *link, side int, b []byte) error {
	n := l.cur[side]
	name := sideNames[side]
	if f := k.fault("delay", name, n, nil); f != nil {
		k.delayed += f.V * int64(time.Millisecond)
		if side == sideNode {
			k.lagged += f.V * int64(time.Millisecond)
		}
		k.sleep(f.V * int64(time.Millisecond))
	}
	if side == sideVM {
		if f := k.fault("slow", name, n, nil); f != nil {
			k.slow = f.V
		}
		l.end = 0
		switch {
		case k.slow%2 != 0:
			k.doze()
		case k.slow > 0 && len(b) >= 8 && !final(common.MessageKind(binary.LittleEndian.Uint32(b[4:]))):
			l.end = 8 + int(binary.LittleEndian.Uint32(b))
		}
	}
	if side == sideNode {
		if k.fault("nodecrash", "", n, nil) != nil {
			k.kill(k.node)
		}
	}
	if k.fault("drop", name, n, nil) != nil {
		l.skip[side] = true
		return nil
	}
	kind := common.LastKind
	if len(b) >= 8 {
		kind = common.MessageKind(binary.LittleEndian.Uint32(b[4:]))
	}
	if !final(kind) && !opening(kind) {
		l.dup[side] = k.fault("dup", name, n, nil) != nil
	}
	if side == sideVM && final(kind) {
		// an empty contract response is malformed, an empty version only false
		other := func(v int64) common.MessageKind { return finalKinds[uint64(v)%uint64(len(finalKinds))] }
		if f := k.fault("answer", name, -1, func(v int64) bool { return other(v) != kind || kind == common.ContractResponse }); f != nil {
			k.inject(e, l, side, other(f.V), false)
			return nil
		}
	}
	if f := k.fault("rogue", name, n, func(v int64) bool { return implausible(side, kind, common.MessageKind(v)) }); f != nil {
		k.inject(e, l, side, common.MessageKind(f.V), false)
	}
	if f := k.fault("junk", name, n, nil); f != nil {
		k.inject(e, l, side, common.MessageKind(f.V), true)
	}
	return nil
}

var finalKinds = []common.MessageKind{common.ContractResponse, common.VersionResponse, common.GasScheduleChangeResponse, common.DiagnoseWaitResponse}

// final says whether a message of a kind ends a dialogue.
func final(kind common.MessageKind) bool {
	for _, k := range finalKinds {
		if k == kind {
			return true
		}
	}
	return false
}

// opening says whether a message of a kind begins a dialogue.
func opening(kind common.MessageKind) bool {
	switch kind {
	case common.ContractDeployRequest, common.ContractCallRequest, common.VersionRequest, common.GasScheduleChangeRequest, common.DiagnoseWaitRequest, common.LastKind:
		return true
	}
	return false
}

// implausible says whether a message of another kind can only be an error where one of a kind is sent.
func implausible(side int, sent, other common.MessageKind) bool {
	other %= common.LastKind + 3
	if other == sent || sent == common.LastKind {
		return false
	}
	switch other {
	case common.ContractDeployRequest, common.ContractCallRequest:
		return side == sideVM
	case common.ContractResponse, common.VersionResponse, common.GasScheduleChangeResponse, common.DiagnoseWaitResponse, common.DiagnoseWaitRequest:
		return side == sideNode || final(sent)
	}
	return true
}

type junkMarshalizer struct{ n int }

func (j junkMarshalizer) Marshal(interface{}) ([]byte, error) {
	b := make([]byte, j.n)
	for i := range b {
		b[i] = "{\"\x00\xff[]}1"[i%8]
	}
	return b, nil
}
func (j junkMarshalizer) Unmarshal(interface{}, []byte) error { return errors.New("junk") }
func (j junkMarshalizer) IsInterfaceNil() bool                { return false }

// inject sends another message in the place of the one being written.
func (k *kernel) inject(e *pipeEnd, l *link, side int, kind common.MessageKind, junk bool) {
	var m marshaling.Marshalizer = l.vm.marsh
	if junk || m == nil {
		m = junkMarshalizer{int(kind) % 97}
	}
	msg := common.CreateMessage(kind % (common.LastKind + 3))
	if kind > 0xffffff {
		msg.SetKind(kind)
	}
	msg.SetNonce(uint32(k.nonceOf(l, side)))
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(procDead); ok {
					panic(x)
				}
			}
		}()
		common.NewSender(rawEnd{k, e}, m).Send(msg)
	}()
	l.skip[side] = true
}

// nonceOf is the number a message of a side has to have now.
func (k *kernel) nonceOf(l *link, side int) int {
	if l.vm.part == nil {
		return 1
	}
	if side == sideVM {
		return int(l.vm.part.Messenger.Nonce)
	}
	return int(l.vm.part.Messenger.Nonce) + 1
}

// rawEnd writes to a pipe without passing the fault points.
type rawEnd struct {
	k *kernel
	*pipeEnd
}

func (r rawEnd) Write(b []byte) (int, error) { return r.k.put(r.pipeEnd, b) }

// put appends bytes to the pipe, waiting for room.
func (k *kernel) put(e *pipeEnd, b []byte) (int, error) {
	done := 0
	for done < len(b) {
		if e.p.readers == 0 {
			k.stats.inc("broken_pipes")
			return done, syscall.EPIPE
		}
		if e.closed {
			return done, os.ErrClosed
		}
		size := pipeCapacity
		if e.p.link != nil && k.cfg.Pipe > 0 {
			size = k.cfg.Pipe
		}
		room := size - len(e.p.buf)
		if room == 0 {
			if e.wdl > 0 && k.now >= e.wdl {
				return done, os.ErrDeadlineExceeded
			}
			k.stats.inc("full_pipes")
			k.wait(func() bool { return len(e.p.buf) < size || e.p.readers == 0 || e.closed }, e.wdl)
			continue
		}
		n := len(b) - done
		if n > room {
			n = room
		}
		e.p.buf = append(e.p.buf, b[done:done+n]...)
		done += n
		if k.cfg.Frag == 2 && k.cfg.Pipe == 0 && e.p.link != nil && done < len(b) {
			k.delayed += int64(50 * time.Microsecond)
			k.sleep(int64(50 * time.Microsecond))
		}
	}
	if k.cfg.Frag > 0 && e.p.link != nil {
		k.wait(func() bool { return true }, 0) // the reader may already run
	}
	return done, nil
}

// --- processes

type simProcesses struct{}

type nullReader struct{}

func (nullReader) Read([]byte) (int, error) { return 0, io.EOF }
func (nullReader) Close() error             { return nil }

func (simProcesses) StdPipe(c *nodepart.ChildCommand) (io.ReadCloser, error) {
	k := sim
	if k.fault("start", "", k.starts-k.starts0, func(v int64) bool { return v == 4 }) != nil {
		return nil, syscall.EMFILE
	}
	return nullReader{}, nil
}

func (simProcesses) Start(c *nodepart.ChildCommand) error {
	k := sim
	k.op()
	n := k.starts
	k.starts++
	if k.fault("start", "", n-k.starts0, func(v int64) bool { return v == 5 }) != nil {
		return syscall.EAGAIN
	}
	if n > maxVMs {
		return syscall.EAGAIN
	}
	p := &vproc{pid: k.nextPid, name: fmt.Sprintf("vm%d", n), n: n, born: k.now, driver: k.owner}
	k.nextPid++
	k.procs = append(k.procs, p)
	l := &link{vm: p}
	p.link = l
	var ends []*pipeEnd
	for i, f := range c.ExtraFiles {
		e, ok := f.(*pipeEnd)
		if !ok || e == nil {
			ends = append(ends, nil)
			continue
		}
		d := k.newEnd(e.p, p, e.read)
		ends = append(ends, d)
		if i == 1 || i == 2 {
			e.p.link = l
			e.p.side = sideNode
			if i == 2 {
				e.p.side = sideVM
			}
		}
	}
	c.Process = &nodepart.ChildProcess{Pid: p.pid, Impl: p}
	k.stats.inc("vm_processes")
	k.mix("start")
	if f := k.fault("start", "", n-k.starts0, func(v int64) bool { return v == 6 }); f != nil {
		k.spawn(p.name, p, func() {}) // dies before it has read anything
		return nil
	}
	k.spawn(p.name, p, func() { vmMain(k, p, ends) })
	return nil
}

func (simProcesses) find(c *nodepart.ChildProcess) *vproc {
	if p, ok := c.Impl.(*vproc); ok {
		return p
	}
	return nil
}

func (simProcesses) Find(pid int) (*nodepart.ChildProcess, error) {
	k := sim
	k.op()
	for _, p := range k.procs {
		if p.pid == pid && !p.waited {
			return &nodepart.ChildProcess{Pid: pid, Impl: p}, nil
		}
	}
	return &nodepart.ChildProcess{Pid: pid}, nil
}

func (s simProcesses) Signal(c *nodepart.ChildProcess, sig os.Signal) error {
	k := sim
	k.op()
	p := s.find(c)
	if p == nil && k.reused[c.Pid] {
		return nil // somebody else has that number now
	}
	if p == nil || p.waited {
		return os.ErrProcessDone
	}
	return nil
}

func (s simProcesses) Kill(c *nodepart.ChildProcess) error {
	k := sim
	k.op()
	p := s.find(c)
	if p == nil || p.waited {
		return os.ErrProcessDone
	}
	p.stalled = false
	k.kill(p)
	return nil
}

func (s simProcesses) Wait(c *nodepart.ChildProcess) error {
	k := sim
	k.op()
	p := s.find(c)
	if p == nil || p.waited {
		return syscall.ECHILD
	}
	k.wait(func() bool { return p.exited }, 0)
	p.waited = true
	return nil
}

type nullLogs struct{}

func (nullLogs) StartLoop(io.Reader, io.Reader) error { return nil }
func (nullLogs) StopLoop()                            {}
func (nullLogs) GetChildPipes() (common.PipeFile, common.PipeFile) {
	return nil, nil
}

func (simProcesses) NewLogsPart(string) (nodepart.ChildLogsPart, error) {
	k := sim
	if k.fault("start", "", k.starts-k.starts0, func(v int64) bool { return v == 7 }) != nil {
		return nil, syscall.EMFILE
	}
	return nullLogs{}, nil
}

// vmMain is the main function of the VM process.
func vmMain(k *kernel, p *vproc, ends []*pipeEnd) {
	args, err := common.GetArwenArguments(ends[0])
	if err != nil {
		p.exit = "no arguments: " + err.Error()
		return
	}
	p.marsh = marshaling.CreateMarshalizer(args.MessagesMarshalizer)
	part, err := arwenpart.NewArwenPart("simulated", ends[1], ends[2], &args.VMHostParameters, p.marsh)
	if err != nil {
		p.exit = "no VM: " + err.Error()
		return
	}
	p.part = part
	part.VMHost = &probeHost{part.VMHost, part}
	err = part.StartLoop()
	if err != nil {
		p.exit = err.Error()
	}
}
