package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/parsers"
)

// The reference model of the VM. It follows the recorded trace of the execution engine: whenever a
// contract calls an API function, the model says what that call must return, charge and write into
// the memory of the contract, which other contracts must run because of it and with what, and at
// the end what the output of the transaction must be. It is written from the meaning of the
// operations and keeps whole copies of the state for what may fail, so it shares no bookkeeping
// (stacks, merges, attribution of gas) with the VM.

type sched = map[string]map[string]uint64

type mismatch struct {
	props []string
	msg   string
}

type unmodelled struct{ why string }

const wild = "\x00any" // a text the model does not predict

type wildErr struct{ e error }

func (w wildErr) Error() string { return wild }
func (w wildErr) Unwrap() error { return w.e }

type mAcct struct {
	delta     *big.Int
	nonce     uint64
	store     map[string][]byte
	code      []byte
	meta      []byte
	deployer  []byte
	deployed  bool
	transfers []vmcommon.OutputTransfer
}

type mOut struct {
	accts  map[string]*mAcct
	logs   []*vmcommon.LogEntry
	ret    [][]byte
	refund uint64
	code   vmcommon.ReturnCode
	msg    string
}

func newOut() *mOut { return &mOut{accts: map[string]*mAcct{}} }

func (o *mOut) clone() *mOut {
	c := *o
	c.logs = append([]*vmcommon.LogEntry(nil), o.logs...)
	c.ret = append([][]byte(nil), o.ret...)
	c.accts = make(map[string]*mAcct, len(o.accts))
	for k, a := range o.accts {
		b := *a
		b.delta = new(big.Int).Set(a.delta)
		b.store = make(map[string][]byte, len(a.store))
		for x, y := range a.store {
			b.store[x] = y
		}
		b.transfers = append([]vmcommon.OutputTransfer(nil), a.transfers...)
		c.accts[k] = &b
	}
	return &c
}

func (o *mOut) acct(addr []byte) *mAcct {
	a := o.accts[string(addr)]
	if a == nil {
		a = &mAcct{delta: new(big.Int), store: map[string][]byte{}}
		o.accts[string(addr)] = a
	}
	return a
}

// known are the recorded defects of the code under test which the model follows instead of
// the intended behaviour; each occurrence is counted and reported.

type asyncReq struct {
	dest, data []byte
	value      *big.Int
	gasLimit   uint64
	locked     uint64
}

type mFrame struct {
	in       *vmcommon.ContractCallInput
	addr     []byte // the contract whose code runs
	store    []byte // the contract whose storage is used
	args     [][]byte
	initCost uint64
	gasFor   uint64
	limit    uint64 // of the engine instance
	points   uint64
	ro       bool
	same     bool // runs in the context of its caller
	bigs     *bigs
	code     []byte
	info     *modInfo
	inst     uint64
	brk      uint64
	async    *asyncReq
	running  bool
	fn       string
	imports  int
}

func (f *mFrame) left() uint64 {
	if f.gasFor < f.points {
		return 0
	}
	return f.gasFor - f.points
}

func satAdd(a, b uint64) uint64 {
	if a+b < a {
		return math.MaxUint64
	}
	return a + b
}

func satMul(a, b uint64) uint64 {
	if a != 0 && a*b/a != b {
		return math.MaxUint64
	}
	return a * b
}

func (f *mFrame) use(g uint64) {
	f.points = satAdd(f.points, g)
	if f.points > math.MaxInt64 {
		f.points = math.MaxInt64
	}
}

func (f *mFrame) restore(g uint64) {
	if g <= f.points {
		f.points -= g
	}
}

// Model follows one transaction.
type Model struct {
	w      *World // the node state the model works on
	gas    sched
	costs  uint64 // expected opcode cost table (0: unknown)
	vmType []byte
	evs    []Ev
	pos    int
	out    *mOut
	stack  []*mFrame
	insts  map[uint64]bool // instances that have run in this transaction
	warm   bool

	foreignReserved map[string]string // statistics

	// context for attributing a deviation
	scheduleChanged bool
	ran             int // executions so far
	failed          int // nested executions that failed so far
	async           int
	deploys         int
	readOnlySeen    bool
	deepest         int
	fuzzy           bool // the return message is not predicted
	overGas         bool
	historic        bool // the host has executed other things before
	stats           *Stats
}

const maxInstances = 10

func (m *Model) top() *mFrame {
	if len(m.stack) == 0 {
		return nil
	}
	return m.stack[len(m.stack)-1]
}

func (m *Model) E(n string) uint64 { return m.cost("ElrondAPICost", n) }
func (m *Model) B(n string) uint64 { return m.cost("BaseOperationCost", n) }
func (m *Model) cost(c, n string) uint64 {
	v, ok := m.gas[c][n]
	if !ok {
		panic("no cost " + c + "." + n)
	}
	return v
}

// fail reports a deviation. The first property is the one the observation belongs to; the situation
// adds the properties that promise it for that situation.
func (m *Model) fail(props string, format string, a ...interface{}) {
	ps := strings.Fields(props)
	if m.failed > 0 {
		ps = append(ps, "C01")
	}
	if m.async > 0 {
		ps = append(ps, "C08")
	}
	if m.deploys > 0 {
		ps = append(ps, "C09")
	}
	if m.readOnlySeen {
		ps = append(ps, "C07")
	}
	if len(m.stack) > 1 || m.deepest > 1 {
		ps = append(ps, "C10")
	}
	if m.deepest >= maxInstances-1 {
		ps = append(ps, "C14")
	}
	if m.scheduleChanged {
		ps = append(ps, "C11")
	}
	where := ""
	for i, f := range m.stack {
		if i > 0 {
			where += ">"
		}
		where += shortAddr(f.addr) + "." + f.fn
	}
	panic(mismatch{uniq(ps), fmt.Sprintf(format, a...) + " [in " + where + fmt.Sprintf(", event %d]", m.pos)})
}

func uniq(ps []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, p := range ps {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

func shortAddr(a []byte) string {
	if len(a) != 32 {
		return hexs(a)
	}
	return hexs(a[8:12]) + ".." + hexs(a[30:])
}

func (m *Model) giveUp(why string) { panic(unmodelled{why}) }

func (m *Model) peek() *Ev {
	for m.pos < len(m.evs) && (m.evs[m.pos].Kind == evNew || m.evs[m.pos].Kind == evDestroy) {
		m.pos++
	}
	if m.pos < len(m.evs) {
		return &m.evs[m.pos]
	}
	return nil
}

func (m *Model) next() *Ev {
	e := m.peek()
	if e != nil {
		m.pos++
	}
	return e
}

func evText(e *Ev) string {
	if e == nil {
		return "nothing"
	}
	switch e.Kind {
	case evEnter:
		return "execution of " + e.Name
	case evExit:
		return fmt.Sprintf("end (ok=%v breakpoint=%d)", e.Ok, e.Brk)
	case evImport:
		return "call of " + e.Name
	case evImportEnd:
		return fmt.Sprintf("return of %s (breakpoint %d)", e.Name, e.Brk)
	}
	return "?"
}

// --- accounts as a contract sees them

func (m *Model) balance(addr []byte) *big.Int {
	a := m.w.get(addr)
	if a == nil {
		return new(big.Int)
	}
	b := new(big.Int).Set(a.Balance)
	if o := m.out.accts[string(addr)]; o != nil {
		b.Add(b, o.delta)
	}
	return b
}

func (m *Model) nonce(addr []byte) uint64 {
	if o := m.out.accts[string(addr)]; o != nil && o.nonce != 0 {
		return o.nonce
	}
	if a := m.w.get(addr); a != nil {
		return a.Nonce
	}
	return 0
}

func (m *Model) getCode(addr []byte) ([]byte, error) {
	if o := m.out.accts[string(addr)]; o != nil && o.deployed && len(o.code) > 0 {
		return o.code, nil
	}
	a := m.w.get(addr)
	if a == nil {
		return nil, errNoAccount
	}
	if len(a.Code) == 0 {
		return nil, arwen.ErrContractNotFound
	}
	return a.Code, nil
}

var reservedPrefix = vmcommon.ElrondProtectedKeyPrefix

func (m *Model) readStorage(addr, key []byte) []byte {
	if !bytes.HasPrefix(key, []byte(reservedPrefix)) {
		if o := m.out.accts[string(addr)]; o != nil {
			if v, ok := o.store[string(key)]; ok {
				return v
			}
		}
	}
	if a := m.w.get(addr); a != nil {
		return a.Storage[string(key)]
	}
	return nil
}

func (m *Model) sameShard(a, b []byte) bool {
	return shardOf(a, m.w.NShards) == shardOf(b, m.w.NShards)
}

func (m *Model) isBuiltin(name string) bool {
	f, err := m.w.builtins.Get(name)
	return err == nil && f.IsActive()
}

func parseCall(data string) (string, [][]byte, error) {
	return parsers.NewCallArgsParser().ParseData(data)
}

// --- value

func (m *Model) moveValue(dest, sender []byte, value *big.Int, checkPayable bool, ct vmcommon.CallType, ro bool) error {
	if value.Sign() < 0 {
		return arwen.ErrTransferNegativeValue
	}
	if ro && value.Sign() > 0 {
		return arwen.ErrInvalidCallOnReadOnlyMode
	}
	if m.balance(sender).Cmp(value) < 0 {
		return arwen.ErrTransferInsufficientFunds
	}
	payable, err := m.w.IsPayable(dest)
	if err != nil {
		return err
	}
	if _, _, esdt := m.w.features(); !esdt {
		checkPayable = true
	}
	if checkPayable && !payable && value.Sign() > 0 && (ct != vmcommon.AsynchronousCall || !m.w.v3()) {
		return arwen.ErrAccountNotPayable
	}
	s, d := m.out.acct(sender), m.out.acct(dest)
	s.delta.Sub(s.delta, value)
	d.delta.Add(d.delta, value)
	return nil
}

func (m *Model) transfer(f *mFrame, dest []byte, gasLimit, gasLocked uint64, value *big.Int, data []byte, ct vmcommon.CallType) error {
	if f.ro {
		return arwen.ErrInvalidCallOnReadOnlyMode
	}
	err := m.moveValue(dest, f.addr, value, gasLimit > 0 && ct != vmcommon.AsynchronousCallBack, f.in.CallType, f.ro)
	if err != nil {
		return err
	}
	a := m.out.acct(dest)
	a.transfers = append(a.transfers, vmcommon.OutputTransfer{Value: new(big.Int).Set(value), GasLimit: gasLimit,
		GasLocked: gasLocked, Data: data, CallType: ct, SenderAddress: f.addr})
	return nil
}

// --- errors and results

func codeOfErr(err error) vmcommon.ReturnCode {
	switch {
	case err == nil:
		return vmcommon.Ok
	case errors.Is(err, arwen.ErrSignalError):
		return vmcommon.UserError
	case errors.Is(err, arwen.ErrFuncNotFound):
		return vmcommon.FunctionNotFound
	case errors.Is(err, arwen.ErrFunctionNonvoidSignature):
		return vmcommon.FunctionWrongSignature
	case errors.Is(err, arwen.ErrInvalidFunction):
		return vmcommon.UserError
	case errors.Is(err, arwen.ErrNotEnoughGas):
		return vmcommon.OutOfGas
	case errors.Is(err, arwen.ErrContractNotFound):
		return vmcommon.ContractNotFound
	case errors.Is(err, arwen.ErrContractInvalid):
		return vmcommon.ContractInvalid
	case errors.Is(err, arwen.ErrUpgradeFailed):
		return vmcommon.UpgradeFailed
	case errors.Is(err, arwen.ErrTransferInsufficientFunds):
		return vmcommon.OutOfFunds
	}
	return vmcommon.ExecutionFailed
}

type execRes struct {
	code     vmcommon.ReturnCode
	msg      string
	ret      [][]byte
	gasRem   uint64
	backVal  *big.Int // value of the last plain transfer to the caller
	hasTrans bool
}

func (m *Model) errRes(err error) *execRes {
	msg := err.Error()
	if m.out.msg != "" || errors.Is(err, arwen.ErrSignalError) {
		msg = m.out.msg
	}
	if m.fuzzy {
		msg = wild
	}
	return &execRes{code: codeOfErr(err), msg: msg}
}

// --- frames

func newFrame(in *vmcommon.ContractCallInput) *mFrame {
	c := *in
	c.CallValue = new(big.Int)
	if in.CallValue != nil {
		c.CallValue.Set(in.CallValue)
	}
	return &mFrame{in: &c, addr: in.RecipientAddr, store: in.RecipientAddr, args: in.Arguments, bigs: newBigs(), fn: in.Function}
}

func (m *Model) push(f *mFrame) {
	m.ran++
	m.stack = append(m.stack, f)
	if len(m.stack) > m.deepest {
		m.deepest = len(m.stack)
	}
}
func (m *Model) pop() { m.stack = m.stack[:len(m.stack)-1] }

func (m *Model) inheritHashes(f, p *mFrame) {
	if _, _, esdt := m.w.features(); !esdt {
		m.stats.inc("hashes_not_inherited")
		return
	}
	if len(p.in.OriginalTxHash) > 0 {
		f.in.OriginalTxHash = p.in.OriginalTxHash
	}
	if len(p.in.CurrentTxHash) > 0 {
		f.in.CurrentTxHash = p.in.CurrentTxHash
	}
	if len(p.in.PrevTxHash) > 0 {
		f.in.PrevTxHash = p.in.PrevTxHash
	}
}

// deduct takes the cost of preparing the code from the provided gas.
func (f *mFrame) deduct(cost uint64) error {
	if cost > f.in.GasProvided {
		return arwen.ErrNotEnoughGas
	}
	f.initCost = cost
	f.gasFor = f.in.GasProvided - cost
	return nil
}

func (m *Model) execCost(code []byte) uint64 {
	if aot, _, _ := m.w.features(); !aot {
		m.stats.inc("executions_without_aot")
		return satMul(uint64(len(code)), m.B("CompilePerByte"))
	}
	return satAdd(m.B("GetCode"), satMul(uint64(len(code)), m.B("AoTPreparePerByte")))
}
func (m *Model) deployCost(code []byte) uint64 {
	return satAdd(m.E("CreateContract"), satMul(uint64(len(code)), m.B("CompilePerByte")))
}

func (m *Model) start(f *mFrame, code []byte, mustVerify bool) error {
	if len(m.stack)-1 >= maxInstances {
		m.stats.inc("depth_limit_hit")
		return arwen.ErrMaxInstancesReached
	}
	info := moduleInfo(code)
	if !info.accepted {
		return wildErr{errors.New("not a valid module")}
	}
	if mustVerify {
		if err := m.verify(info); err != nil {
			return err
		}
	}
	f.code, f.info = code, info
	return nil
}

func (m *Model) verify(info *modInfo) error {
	if !info.memory {
		return wildErr{errors.New("no memory")}
	}
	for name, sig := range info.exports {
		if name == "" || len(name) >= 256 || name == arwen.UpgradeFunctionName || m.isBuiltin(name) {
			return wildErr{errors.New("bad name")}
		}
		if _, ok := apiSigs[name]; ok {
			return wildErr{errors.New("bad name")}
		}
		for i := 0; i < len(name); i++ {
			if name[i] > 127 {
				return wildErr{errors.New("bad name")}
			}
		}
		if sig != [2]int{0, 0} {
			return wildErr{errors.New("bad signature")}
		}
	}
	if _, _, esdt := m.w.features(); !esdt {
		for _, name := range laterImports {
			if info.imports[name] {
				m.stats.inc("imports_before_their_epoch")
				return wildErr{errors.New("import of a function that is not active")}
			}
		}
	}
	return nil
}

// laterImports are the functions that new contracts may import from the ESDT epoch on.
var laterImports = []string{"transferESDTExecute", "transferESDTNFTExecute", "transferValueExecute", "getESDTBalance",
	"getESDTTokenData", "getESDTTokenType", "getESDTTokenNonce", "getCurrentESDTNFTNonce", "getESDTNFTNameLength",
	"getESDTNFTAttributeLength", "getESDTNFTURILength", "bigIntGetESDTExternalBalance"}

// run follows the execution of an exported function in the engine.
func (m *Model) run(f *mFrame, fn string) error {
	f.fn = fn
	if f.info.exports[fn][0] != 0 {
		// the engine refuses to call a function without the arguments it takes
		m.stats.inc("refused_by_signature")
		return arwen.ErrExecutionFailed
	}
	e := m.next()
	if e == nil || e.Kind != evEnter {
		m.fail("C10 C08 C12 C14", "function %q of contract %s should have been executed, but there was %s", fn, hexs(f.addr), evText(e))
	}
	if cut(e.Name) != cut(fn) {
		m.fail("C12 C08", "function %q of contract %s was executed instead of %q", e.Name, hexs(f.addr), fn)
	}
	if e.Module != codeHash64(f.code) {
		m.fail("C09 C04", "the code executed for contract %s is not its code", hexs(f.addr))
	}
	if e.Points != 0 {
		m.fail("C02 C04", "execution started with %d points already used", e.Points)
	}
	if e.Limit != f.gasFor {
		m.fail("C02", "execution of %q got a gas limit of %d instead of %d", fn, e.Limit, f.gasFor)
	}
	if m.costs != 0 && e.Costs != m.costs {
		m.fail("C11 C02", "the code was not metered with the active schedule")
	}
	if !e.Ok {
		m.fail("C04 C10", "execution of %q started on used memory", fn)
	}
	if m.insts[e.Inst] && !m.warm {
		m.fail("C10 C05", "the instance of an earlier execution was used again")
	}
	m.insts[e.Inst] = true
	f.inst, f.running, f.limit = e.Inst, true, e.Limit
	m.stats.inc("executions")
	for {
		e = m.next()
		if e == nil {
			m.fail("C05", "the execution of %q never ended", fn)
		}
		if e.Inst != f.inst {
			m.fail("C10 C12 C08", "unexpected %s in another instance", evText(e))
		}
		if e.Kind == evImport {
			if f.brk != 0 {
				m.fail("C05 C02", "the contract went on with %s after it was stopped (breakpoint %d)", e.Name, f.brk)
			}
			f.imports++
			m.imported(f, e)
			continue
		}
		if e.Kind != evExit {
			m.fail("C05 C10", "unexpected %s", evText(e))
		}
		break
	}
	if e.Points < f.points {
		m.fail("C02", "the points used went back from %d to %d", f.points, e.Points)
	}
	f.points = e.Points
	if e.Ok {
		if f.brk != 0 {
			m.fail("C05 C12", "the contract ended normally although it was stopped (breakpoint %d)", f.brk)
		}
		return nil
	}
	if e.Brk != f.brk {
		if !(f.brk == 0 && e.Brk == 4 && e.Points > f.limit) {
			m.fail("C05 C02", "the execution ended with breakpoint %d instead of %d", e.Brk, f.brk)
		}
		f.brk = 4
	}
	switch f.brk {
	case 0, 1:
		return arwen.ErrExecutionFailed
	case 2:
		f.brk = 0
		return m.runAsync(f)
	case 3:
		return arwen.ErrSignalError
	case 4:
		m.stats.inc("out_of_gas")
		return arwen.ErrNotEnoughGas
	}
	m.fail("C05", "unknown breakpoint %d", f.brk)
	return nil
}

func cut(s string) string {
	if i := strings.IndexByte(s, 0); i >= 0 {
		s = s[:i]
	}
	if len(s) > 100 {
		return s[:100]
	}
	return s
}

// finalGas is the last check of an execution that ended by itself.
func (m *Model) finalGas(f *mFrame, err error) error {
	if err == nil && f.points > f.gasFor {
		m.overGas = true
		return arwen.ErrNotEnoughGas
	}
	return err
}

func isInitName(fn string) bool {
	return fn == arwen.InitFunctionName || fn == arwen.InitFunctionNameEth
}

// execute runs what the frame's input asks for; cur is the calling contract, which pays.
func (m *Model) execute(cur, f *mFrame) error {
	in := f.in
	if isInitName(in.Function) && !in.AllowInitFunction {
		return arwen.ErrInitFuncCalledInRun
	}
	if in.Function == arwen.CallbackFunctionName && in.CallType != vmcommon.AsynchronousCallBack {
		return arwen.ErrCallBackFuncCalledInRun
	}
	cur.use(in.GasProvided)
	if in.Function == arwen.UpgradeFunctionName {
		return m.executeUpgrade(f)
	}
	code, err := m.getCode(f.addr)
	if err != nil {
		return err
	}
	if err = f.deduct(m.execCost(code)); err != nil {
		return err
	}
	if err = m.start(f, code, in.AllowInitFunction); err != nil {
		return err
	}
	if _, ok := f.info.exports[in.Function]; !ok {
		if in.Function == arwen.CallbackFunctionName {
			return nil
		}
		return arwen.ErrFuncNotFound
	}
	return m.finalGas(f, m.run(f, in.Function))
}

func (m *Model) executeUpgrade(f *mFrame) error {
	m.deploys++
	if f.ro {
		return arwen.ErrInvalidCallOnReadOnlyMode
	}
	a := m.w.get(f.addr)
	if a == nil {
		return errNoAccount
	}
	if !vmcommon.CodeMetadataFromBytes(a.Meta).Upgradeable || !bytes.Equal(f.in.CallerAddr, a.Owner) {
		m.stats.inc("upgrade_refused")
		return arwen.ErrUpgradeNotAllowed
	}
	return m.deploy(f, f.addr, f.in.CallerAddr)
}

// deploy verifies and deploys the code in the arguments of an upgrade.
func (m *Model) deploy(f *mFrame, addr, deployer []byte) error {
	if len(f.args) < 2 {
		return arwen.ErrInvalidUpgradeArguments
	}
	code, meta := f.args[0], f.args[1]
	f.args = f.args[2:]
	return m.deployCode(f, addr, deployer, code, meta)
}

func (m *Model) deployCode(f *mFrame, addr, deployer, code, meta []byte) error {
	m.deploys++
	if err := f.deduct(m.deployCost(code)); err != nil {
		return err
	}
	if err := m.start(f, code, true); err != nil {
		m.stats.inc("deploy_invalid")
		return arwen.ErrContractInvalid
	}
	if _, ok := f.info.exports[arwen.InitFunctionName]; ok {
		if err := m.finalGas(f, m.run(f, arwen.InitFunctionName)); err != nil {
			return err
		}
	}
	m.setCode(addr, code, meta, deployer)
	return nil
}

func (m *Model) setCode(addr, code, meta, deployer []byte) {
	a := m.out.acct(addr)
	a.code, a.meta, a.deployer, a.deployed = code, meta, deployer, true
	m.stats.inc("deployed")
}

// --- nested calls

func (m *Model) onDest(in *vmcommon.ContractCallInput) (*execRes, error) {
	cur := m.top()
	journal, saved := len(m.w.journal), m.out.clone()
	before := m.transfersTo(cur.addr)
	if m.isBuiltin(in.Function) {
		res, follow, err := m.builtin(cur, in)
		if err != nil {
			m.failed++
			cur.use(in.GasProvided)
			m.w.revert(journal)
			m.out = saved
			return m.errRes(err), err
		}
		if follow == nil {
			m.backValue(res, cur.addr, before)
			return res, nil
		}
		in = follow
	}
	res, err := m.onDestContract(in)
	if err != nil {
		m.failed++
		m.w.revert(journal)
		m.out = saved
		return res, err
	}
	m.backValue(res, cur.addr, before)
	return res, nil
}

func (m *Model) transfersTo(addr []byte) int {
	if a := m.out.accts[string(addr)]; a != nil {
		return len(a.transfers)
	}
	return 0
}

// backValue finds the value the callee sent back to its caller with its last plain transfer.
func (m *Model) backValue(res *execRes, addr []byte, before int) {
	res.backVal = new(big.Int)
	if a := m.out.accts[string(addr)]; a != nil && len(a.transfers) > before && len(res.ret) == 0 {
		if t := a.transfers[len(a.transfers)-1]; len(t.Data) == 0 {
			if t.Value.Cmp(a.transfers[before].Value) != 0 {
				m.stats.inc("several_values_sent_back")
			}
			res.backVal.Set(t.Value)
		}
	}
}

func isTokenTransfer(fn string) bool {
	return fn == vmcommon.BuiltInFunctionESDTTransfer || fn == vmcommon.BuiltInFunctionESDTNFTTransfer
}

func encodeCall(fn string, args [][]byte) []byte {
	s := fn
	for _, a := range args {
		s += "@" + hex.EncodeToString(a)
	}
	return []byte(s)
}

// builtin executes a protocol function, and says which contract call must follow.
func (m *Model) builtin(cur *mFrame, in *vmcommon.ContractCallInput) (*execRes, *vmcommon.ContractCallInput, error) {
	m.stats.inc("builtin_calls")
	if cur.ro {
		return nil, nil, arwen.ErrInvalidCallOnReadOnlyMode
	}
	cp := *in
	bo, err := m.w.ProcessBuiltInFunction(&cp)
	if err != nil {
		return nil, nil, err
	}
	m.stats.inc("builtin_ok_" + in.Function)
	var follow *vmcommon.ContractCallInput
	rcpt := in.RecipientAddr
	if in.Function == vmcommon.BuiltInFunctionESDTNFTTransfer && bytes.Equal(in.CallerAddr, in.RecipientAddr) {
		rcpt = in.Arguments[3]
	}
	if oa := bo.OutputAccounts[string(rcpt)]; oa != nil && len(oa.OutputTransfers) == 1 && m.sameShard(in.CallerAddr, rcpt) && m.w.IsSmartContract(rcpt) {
		t := oa.OutputTransfers[0]
		fn, args, perr := parseCall(string(t.Data))
		if perr != nil {
			return nil, nil, perr
		}
		follow = &vmcommon.ContractCallInput{
			VMInput: vmcommon.VMInput{CallerAddr: in.CallerAddr, Arguments: args, CallValue: new(big.Int), CallType: in.CallType,
				GasPrice: in.GasPrice, GasProvided: t.GasLimit, GasLocked: t.GasLocked,
				OriginalTxHash: in.OriginalTxHash, CurrentTxHash: in.CurrentTxHash},
			RecipientAddr: rcpt, Function: fn}
		if isTokenTransfer(in.Function) {
			x := &vmcommon.ESDTTransfer{ESDTTokenName: in.Arguments[0], ESDTValue: new(big.Int).SetBytes(in.Arguments[1])}
			if in.Function == vmcommon.BuiltInFunctionESDTNFTTransfer {
				x.ESDTTokenNonce = new(big.Int).SetBytes(in.Arguments[1]).Uint64()
				x.ESDTValue = new(big.Int).SetBytes(in.Arguments[2])
				x.ESDTTokenType = uint32(vmcommon.NonFungible)
			}
			follow.ESDTTransfers = []*vmcommon.ESDTTransfer{x}
		}
	}
	used := in.GasProvided - min64(bo.GasRemaining, in.GasProvided)
	if follow != nil {
		used -= min64(follow.GasProvided, used)
	}
	cur.use(used)
	m.out.ret = append(m.out.ret, bo.ReturnData...)
	m.out.logs = append(m.out.logs, bo.Logs...)
	m.out.msg, m.out.code = bo.ReturnMessage, bo.ReturnCode
	if bo.GasRefund != nil {
		m.out.refund += bo.GasRefund.Uint64()
	}
	for _, k := range sortedOut(bo.OutputAccounts) {
		if follow == nil {
			a := m.out.acct([]byte(k))
			a.transfers = append(a.transfers, bo.OutputAccounts[k].OutputTransfers...)
		}
	}
	if isTokenTransfer(in.Function) {
		to := in.RecipientAddr
		if in.Function == vmcommon.BuiltInFunctionESDTNFTTransfer {
			to = nil
			if len(in.Arguments) == 4 {
				to = in.Arguments[3]
			}
		}
		if to != nil && m.sameShard(to, in.CallerAddr) {
			a := m.out.acct(to)
			a.transfers = append(a.transfers, vmcommon.OutputTransfer{Value: new(big.Int), Data: encodeCall(in.Function, in.Arguments),
				CallType: in.CallType, SenderAddress: in.CallerAddr})
		}
	}
	return &execRes{ret: bo.ReturnData, gasRem: bo.GasRemaining, code: bo.ReturnCode, msg: bo.ReturnMessage}, follow, nil
}

func sortedOut(m map[string]*vmcommon.OutputAccount) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func (m *Model) onDestContract(in *vmcommon.ContractCallInput) (*execRes, error) {
	cur := m.top()
	f := newFrame(in)
	m.inheritHashes(f, cur)
	f.ro = cur.ro
	saved := m.out
	m.out = saved.clone()
	m.out.ret, m.out.logs, m.out.refund, m.out.code, m.out.msg = nil, nil, 0, vmcommon.Ok, ""
	m.push(f)
	m.stats.inc("nested_calls")
	var err error
	if in.CallType != vmcommon.AsynchronousCallBack || in.CallValue.Sign() == 0 {
		err = m.moveValue(in.RecipientAddr, cur.addr, in.CallValue, false, in.CallType, f.ro)
	}
	if err == nil {
		err = m.execute(cur, f)
	}
	if err != nil {
		m.stats.inc("nested_failed")
		res := m.errRes(err)
		m.pop()
		m.out = saved
		return res, err
	}
	res := &execRes{ret: m.out.ret, gasRem: f.left(), code: m.out.code, msg: m.out.msg}
	m.pop()
	m.out.ret = append(append([][]byte(nil), saved.ret...), m.out.ret...)
	m.out.logs = append(append([]*vmcommon.LogEntry(nil), saved.logs...), m.out.logs...)
	m.out.refund += saved.refund
	cur.restore(res.gasRem)
	return res, nil
}

// onSame executes another contract's code in the context of the caller.
func (m *Model) onSame(in *vmcommon.ContractCallInput, readOnly bool) error {
	cur := m.top()
	f := newFrame(in)
	m.inheritHashes(f, cur)
	f.ro = cur.ro || readOnly
	if f.ro {
		m.readOnlySeen = true
	}
	f.same = true
	f.store = cur.store
	bigsSaved := cur.bigs.clone()
	f.bigs = cur.bigs
	saved, journal := m.out.clone(), len(m.w.journal)
	m.push(f)
	m.stats.inc("same_context_calls")
	err := m.moveValue(in.RecipientAddr, cur.addr, in.CallValue, false, in.CallType, f.ro)
	if err == nil {
		err = m.execute(cur, f)
	}
	m.pop()
	if err != nil {
		m.failed++
		m.out = saved
		m.w.revert(journal)
		*cur.bigs = *bigsSaved
		return err
	}
	cur.restore(f.left())
	return nil
}

// create deploys a contract from a contract.
func (m *Model) create(cur *mFrame, in *vmcommon.ContractCreateInput) ([]byte, error) {
	m.deploys++
	cost := satMul(uint64(len(in.ContractCode)), m.B("CompilePerByte"))
	if known["create-replaces-initial-cost"] {
		// Recorded defect: instead of paying for the compilation on top of what it used, the
		// creator has its own preparation cost replaced by it (see known-findings.json).
		if cost > cur.in.GasProvided {
			return nil, arwen.ErrNotEnoughGas
		}
		m.stats.inc("known_create-replaces-initial-cost")
		cur.initCost, cur.gasFor = cost, cur.in.GasProvided-cost
	} else {
		if cost > cur.left() {
			return nil, arwen.ErrNotEnoughGas
		}
		cur.use(cost)
	}
	if cur.ro {
		return nil, arwen.ErrInvalidCallOnReadOnlyMode
	}
	if o := m.out.accts[string(cur.addr)]; m.w.v3() && m.w.get(cur.addr) == nil && (o == nil || o.nonce == 0) {
		// A contract which is being deployed itself has no account, hence no nonce, yet.
		return nil, wildErr{errors.New("creator has no account")}
	}
	nonce, from := m.nonce(cur.addr), m.nonce(cur.addr)
	if !m.w.v3() {
		// Contracts used to deploy as if they never had, so that the second one took the place of the first.
		m.stats.inc("deployed_before_v3")
		nonce = 0
		if o := m.out.accts[string(cur.addr)]; o != nil {
			nonce = o.nonce
		}
		if from = nonce; from > 0 {
			from--
		}
	}
	addr := deriveAddress(cur.addr, from, m.vmType)
	if m.w.get(addr) != nil {
		return nil, arwen.ErrDeploymentOverExistingAccount
	}
	saved, journal := m.out.clone(), len(m.w.journal)
	m.out.acct(cur.addr).nonce = nonce + 1
	m.setCode(addr, in.ContractCode, in.ContractCodeMetadata, in.CallerAddr)
	call := &vmcommon.ContractCallInput{VMInput: in.VMInput, RecipientAddr: addr, Function: arwen.InitFunctionName, AllowInitFunction: true}
	if !known["create-replaces-initial-cost"] {
		call.GasProvided = min64(call.GasProvided, cur.left())
	}
	if _, err := m.onDest(call); err != nil {
		m.failed++
		m.out = saved
		m.w.revert(journal)
		return nil, err
	}
	return addr, nil
}

// --- async calls

func (m *Model) asyncCall(f *mFrame, dest, data []byte, value []byte) error {
	bounded := func(x uint64) error {
		if f.left() <= x {
			return arwen.ErrNotEnoughGas
		}
		f.use(x)
		return nil
	}
	if err := bounded(m.E("AsyncCallStep")); err != nil {
		return err
	}
	lock := uint64(0)
	aot, dyn, _ := m.w.features()
	if _, ok := f.info.exports[arwen.CallbackFunctionName]; ok || !dyn {
		lock = satAdd(m.E("AsyncCallStep"), m.E("AsyncCallbackGasLock"))
		switch {
		case !dyn:
			m.stats.inc("locks_before_their_epoch")
		case aot:
			lock = satAdd(satMul(uint64(len(f.code)), m.B("AoTPreparePerByte")), lock)
		default:
			lock = satAdd(satMul(uint64(len(f.code)), m.B("CompilePerByte")), lock)
		}
		if err := bounded(lock); err != nil {
			return err
		}
	}
	f.async = &asyncReq{dest: dest, data: data, value: new(big.Int).SetBytes(value), gasLimit: f.left(), locked: lock}
	f.brk = 2
	return nil
}

func (m *Model) runAsync(f *mFrame) error {
	m.async++
	m.stats.inc("async_calls")
	q := f.async
	fn, args, err := parseCall(string(q.data))
	if err != nil {
		return err
	}
	in := &vmcommon.ContractCallInput{
		VMInput: vmcommon.VMInput{CallerAddr: f.addr, Arguments: args, CallValue: q.value, CallType: vmcommon.AsynchronousCall,
			GasPrice: f.in.GasPrice, GasProvided: f.left(), GasLocked: q.locked,
			CurrentTxHash: f.in.CurrentTxHash, OriginalTxHash: f.in.OriginalTxHash},
		RecipientAddr: q.dest, Function: fn}
	if m.isBuiltin(fn) {
		dest := q.dest
		if fn == vmcommon.BuiltInFunctionESDTNFTTransfer && bytes.Equal(f.addr, q.dest) && len(args) > 3 && len(args[3]) == len(f.addr) {
			// NFT transfers are sent to their sender
			dest = args[3]
		}
		if !m.sameShard(f.addr, dest) {
			m.stats.inc("async_builtin_remote")
			_, err = m.onDest(in)
			return err
		}
		back := fn == vmcommon.BuiltInFunctionESDTTransfer && len(args) == 2 || fn == vmcommon.BuiltInFunctionESDTNFTTransfer && len(args) == 4
		if back && f.in.CallType == vmcommon.AsynchronousCall && bytes.Equal(f.in.CallerAddr, q.dest) {
			m.out.ret = append([][]byte{q.data}, m.out.ret...)
			f.restore(q.locked)
			return nil
		}
	} else if code, cerr := m.getCode(q.dest); cerr != nil || len(code) == 0 {
		m.stats.inc("async_remote")
		if err = m.transfer(f, q.dest, q.gasLimit, q.locked, q.value, q.data, vmcommon.AsynchronousCall); err != nil {
			f.use(f.left())
			m.out.code, m.out.msg = vmcommon.ExecutionFailed, err.Error()
			return err
		}
		f.use(f.left())
		return nil
	}
	m.stats.inc("async_local")
	sent, ran := m.asyncSent(f.addr), m.ran
	res, err := m.onDest(in)
	if m.ran == ran && m.asyncSent(f.addr) != sent {
		// The callback comes now: nothing may be on the way that brings another one.
		m.fail("C08 C02", "the asynchronous call of %q has both left the shard and called back", in.Function)
	}
	m.callback(f, q, res, err)
	return nil
}

// asyncSent is the number of asynchronous calls that addr has sent to other shards.
func (m *Model) asyncSent(addr []byte) int {
	n := 0
	for _, a := range m.out.accts {
		for _, t := range a.transfers {
			if t.CallType == vmcommon.AsynchronousCall && t.GasLocked > 0 && bytes.Equal(t.SenderAddress, addr) {
				n++
			}
		}
	}
	return n
}

func (m *Model) callback(f *mFrame, q *asyncReq, res *execRes, derr error) {
	args := [][]byte{big.NewInt(int64(res.code)).Bytes()}
	ok := derr == nil && res.code == vmcommon.Ok
	if ok {
		args = append(args, res.ret...)
	} else {
		args = append(args, []byte(res.msg))
	}
	n := uint64(len(arwen.CallbackFunctionName) + len(args))
	for _, a := range args {
		n += uint64(len(a))
	}
	if !ok && res.msg == wild {
		// the length of the message is part of the price
		m.giveUp("callback with an unpredicted message")
	}
	gas := res.gasRem + q.locked
	price := satAdd(m.E("AsyncCallStep"), satMul(m.B("DataCopyPerByte"), n))
	failed := func(code vmcommon.ReturnCode, msg string) {
		m.stats.inc("callback_failed")
		m.out.msg = msg
		m.fuzzy = true
		m.out.ret = append(m.out.ret, []byte(code.String()), f.in.CurrentTxHash)
	}
	if gas <= price {
		failed(vmcommon.OutOfGas, arwen.ErrNotEnoughGas.Error())
		return
	}
	in := &vmcommon.ContractCallInput{
		VMInput: vmcommon.VMInput{CallerAddr: q.dest, Arguments: args, CallValue: new(big.Int), CallType: vmcommon.AsynchronousCallBack,
			GasPrice: f.in.GasPrice, GasProvided: gas - price,
			CurrentTxHash: f.in.CurrentTxHash, OriginalTxHash: f.in.OriginalTxHash, ReturnCallAfterError: !ok},
		RecipientAddr: f.addr, Function: arwen.CallbackFunctionName}
	if res.backVal != nil && m.w.v3() {
		in.CallValue = res.backVal
		if in.CallValue.Sign() > 0 {
			m.stats.inc("callback_with_value")
		}
	}
	if ok && len(res.ret) > 0 {
		fn, eargs, err := parseCall(string(res.ret[0]))
		if err == nil && (fn == vmcommon.BuiltInFunctionESDTTransfer && len(eargs) == 2 || fn == vmcommon.BuiltInFunctionESDTNFTTransfer && len(eargs) == 4) {
			in.Function = fn
			in.Arguments = append(append([][]byte{}, eargs...), []byte(arwen.CallbackFunctionName), args[0])
			in.Arguments = append(in.Arguments, res.ret[1:]...)
			m.stats.inc("callback_with_tokens")
		}
	}
	f.restore(q.locked)
	m.stats.inc("callbacks")
	cres, err := m.onDest(in)
	if err != nil {
		failed(cres.code, cres.msg)
	}
}

// --- transactions

// MResult is what the model says a transaction must give.
type MResult struct {
	Code   vmcommon.ReturnCode
	Msg    string
	GasRem uint64
	Out    *mOut
	Addr   []byte // of a deployment
}

func (m *Model) result(f *mFrame, err error) *MResult {
	if m.peek() != nil {
		m.fail("C05 C12 C08", "after the end of the transaction there was %s", evText(m.peek()))
	}
	if err != nil {
		r := m.errRes(err)
		m.w.revert(0)
		return &MResult{Code: r.code, Msg: r.msg, Out: newOut()}
	}
	msg := m.out.msg
	if m.fuzzy {
		msg = wild
	}
	return &MResult{Code: vmcommon.Ok, Msg: msg, GasRem: f.left(), Out: m.out}
}

func (m *Model) begin(f *mFrame) {
	m.out = newOut()
	m.insts = map[uint64]bool{}
	m.stack = nil
	m.push(f)
}

func (m *Model) Call(in *vmcommon.ContractCallInput) *MResult {
	f := newFrame(in)
	if in.CallType == vmcommon.AsynchronousCallBack {
		f.in.GasProvided = satAdd(in.GasProvided, in.GasLocked)
		f.in.GasLocked = 0
		m.async++
	}
	if in.CallType == vmcommon.AsynchronousCall {
		m.async++
	}
	m.begin(f)
	a := m.out.acct(f.addr)
	a.delta.Add(a.delta, f.in.CallValue)
	if in.Function == arwen.UpgradeFunctionName {
		err := m.deploy(f, f.addr, in.CallerAddr)
		return m.result(f, err)
	}
	return m.result(f, m.callTop(f))
}

func (m *Model) callTop(f *mFrame) error {
	in := f.in
	if in.GasProvided < m.B("GetCode") {
		return arwen.ErrNotEnoughGas
	}
	code, err := m.getCode(f.addr)
	if err != nil {
		return arwen.ErrContractNotFound
	}
	if err = f.deduct(m.execCost(code)); err != nil {
		return arwen.ErrNotEnoughGas
	}
	if err = m.start(f, code, false); err != nil {
		return arwen.ErrContractInvalid
	}
	if isInitName(in.Function) {
		return arwen.ErrInitFuncCalledInRun
	}
	if in.Function == arwen.CallbackFunctionName && in.CallType != vmcommon.AsynchronousCallBack {
		return arwen.ErrCallBackFuncCalledInRun
	}
	if _, ok := f.info.exports[in.Function]; !ok {
		if in.Function == arwen.CallbackFunctionName {
			return nil
		}
		return arwen.ErrFuncNotFound
	}
	if err = m.finalGas(f, m.run(f, in.Function)); err != nil {
		return err
	}
	if in.CallType == vmcommon.AsynchronousCall {
		data := "@" + hex.EncodeToString([]byte(m.out.code.String()))
		for _, r := range m.out.ret {
			data += "@" + hex.EncodeToString(r)
		}
		err = m.transfer(f, in.CallerAddr, f.left(), 0, new(big.Int), []byte(data), vmcommon.AsynchronousCallBack)
		f.use(f.left())
		if err != nil {
			m.out.code, m.out.msg = vmcommon.ExecutionFailed, err.Error()
			return err
		}
	}
	return nil
}

func (m *Model) Create(in *vmcommon.ContractCreateInput) *MResult {
	nonce := m.w.accountNonce(in.CallerAddr)
	if nonce > 0 && !m.w.IsSmartContract(in.CallerAddr) {
		nonce--
	}
	addr := deriveAddress(in.CallerAddr, nonce, m.vmType)
	f := newFrame(&vmcommon.ContractCallInput{VMInput: in.VMInput, RecipientAddr: addr})
	f.fn = "(deploy)"
	m.begin(f)
	a := m.out.acct(addr)
	a.delta.Add(a.delta, f.in.CallValue)
	err := m.deployCode(f, addr, in.CallerAddr, in.ContractCode, in.ContractCodeMetadata)
	r := m.result(f, err)
	r.Addr = addr
	return r
}

func (w *World) accountNonce(addr []byte) uint64 {
	if a := w.get(addr); a != nil {
		return a.Nonce
	}
	return 0
}
