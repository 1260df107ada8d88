package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

const tokenPrefix = vmcommon.ElrondProtectedKeyPrefix + vmcommon.ESDTKeyIdentifier

func setToken(a *Acct, t TokenSpec) {
	d := &esdt.ESDigitalToken{Value: big.NewInt(t.Value), Type: uint32(vmcommon.Fungible)}
	if t.Nonce > 0 {
		d.Type = uint32(vmcommon.NonFungible)
		d.TokenMetaData = &esdt.MetaData{Nonce: t.Nonce, Name: []byte("name"), Creator: []byte(a.Addr), Royalties: 250,
			Hash: []byte("hash"), URIs: [][]byte{[]byte("uri")}, Attributes: []byte("attr")}
	}
	b, err := (marsh{}).Marshal(d)
	must(err)
	a.Storage[esdtKey(t.Name, t.Nonce)] = b
}

// setRoles allows an account to create and destroy a token.
func setRoles(a *Acct, token []byte) {
	var roles [][]byte
	for _, s := range []string{vmcommon.ESDTRoleLocalMint, vmcommon.ESDTRoleLocalBurn, vmcommon.ESDTRoleNFTCreate,
		vmcommon.ESDTRoleNFTAddQuantity, vmcommon.ESDTRoleNFTBurn} {
		roles = append(roles, []byte(s))
	}
	b, err := (marsh{}).Marshal(&esdt.ESDTRoles{Roles: roles})
	must(err)
	a.Storage[vmcommon.ElrondProtectedKeyPrefix+vmcommon.ESDTRoleIdentifier+vmcommon.ESDTKeyIdentifier+string(token)] = b
}

func tokenValue(raw []byte) *big.Int {
	d := &esdt.ESDigitalToken{}
	if len(raw) == 0 || (marsh{}).Unmarshal(d, raw) != nil || d.Value == nil {
		return new(big.Int)
	}
	return d.Value
}

// messageTokens is what a message carries besides native value.
func messageTokens(m *Msg) (string, *big.Int) {
	fn, args, err := parseCall(string(m.Data))
	if err != nil || m.Back {
		return "", nil
	}
	switch {
	case fn == vmcommon.BuiltInFunctionESDTTransfer && len(args) >= 2:
		return string(args[0]), new(big.Int).SetBytes(args[1])
	case fn == vmcommon.BuiltInFunctionESDTNFTTransfer && len(args) >= 4:
		d := &esdt.ESDigitalToken{}
		v := new(big.Int).SetBytes(args[2])
		if (marsh{}).Unmarshal(d, args[3]) == nil && d.Value != nil {
			v = d.Value
		}
		return esdtKey(args[0], new(big.Int).SetBytes(args[1]).Uint64())[len(tokenPrefix):], v
	}
	return "", nil
}

// exec is one execution request to the VM of a shard.
type execInput struct {
	call   *vmcommon.ContractCallInput
	create *vmcommon.ContractCreateInput
	debit  []byte // the local account that pays the value before the execution
}

func (x *execInput) vmIn() *vmcommon.VMInput {
	if x.call != nil {
		return &x.call.VMInput
	}
	return &x.create.VMInput
}

func copyVMInput(in vmcommon.VMInput) vmcommon.VMInput {
	c := in
	c.CallValue = new(big.Int).Set(in.CallValue)
	c.Arguments = make([][]byte, 0, len(in.Arguments))
	for _, a := range in.Arguments {
		c.Arguments = append(c.Arguments, append([]byte{}, a...))
	}
	c.ESDTTransfers = nil
	for _, t := range in.ESDTTransfers {
		t2 := *t
		t2.ESDTValue = new(big.Int).Set(t.ESDTValue)
		c.ESDTTransfers = append(c.ESDTTransfers, &t2)
	}
	return c
}

func (x *execInput) copy() *execInput {
	y := &execInput{debit: x.debit}
	if x.call != nil {
		c := *x.call
		c.VMInput = copyVMInput(c.VMInput)
		y.call = &c
	} else {
		c := *x.create
		c.VMInput = copyVMInput(c.VMInput)
		c.ContractCode = append([]byte{}, c.ContractCode...)
		c.ContractCodeMetadata = append([]byte{}, c.ContractCodeMetadata...)
		y.create = &c
	}
	return y
}

func (x *execInput) String() string {
	in := x.vmIn()
	s := ""
	for _, a := range in.Arguments {
		if len(a) > 40 {
			s += fmt.Sprintf(" %s..(%d)", hexs(a[:8]), len(a))
		} else {
			s += " " + hexs(a)
		}
	}
	if x.call != nil {
		return fmt.Sprintf("call %s.%s(%s) from %s value %s gas %d+%d type %d", shortAddr(x.call.RecipientAddr), x.call.Function, strings.TrimSpace(s),
			shortAddr(in.CallerAddr), in.CallValue, in.GasProvided, in.GasLocked, in.CallType)
	}
	return fmt.Sprintf("deploy %d bytes (%s) from %s value %s gas %d", len(x.create.ContractCode), strings.TrimSpace(s), shortAddr(in.CallerAddr), in.CallValue, in.GasProvided)
}

func runVM(h vmcommon.VMExecutionHandler, x *execInput) (*vmcommon.VMOutput, error) {
	if x.call != nil {
		return h.RunSmartContractCall(x.call)
	}
	return h.RunSmartContractCreate(x.create)
}

// execute runs one request on the real VM and on the model, compares them and, if it succeeded,
// applies its effects. The value has been debited from a local sender by the caller.
func (r *Run) execute(s *Shard, x *execInput, st *Step) *vmcommon.VMOutput {
	if r.ipc != nil {
		return r.ipc.execute(s, x, st)
	}
	engineTraceClear()
	m := &Model{foreignReserved: map[string]string{}, gas: r.gas, costs: r.costs, vmType: vmTypeBytes, stats: r.stats, warm: r.sc.Cfg.Warm,
		scheduleChanged: r.schedule > 0, historic: s.used}
	m.w = s.wm
	s.wm.setState(s.w)
	s.w.commit()
	if st != nil && st.Tight > 0 && (st.Kind == "call" || st.Kind == "deploy") {
		r.tighten(s, x, st.Tight)
	}
	pre := x.copy()
	var fin func()
	var midNext sched
	var midCosts uint64
	var midAt int
	var started func()
	if r.pendingMid != nil {
		midNext = nextSchedule(r.gas, r.pendingMid.N)
		midCosts = r.canary(midNext)
		newHost(newWorld(0, 1, r.gas), r.gas, false)
		engineTraceClear()
		started, fin = r.midChange(s, midNext)
		midAt = int(r.pendingMid.Gas)
		r.pendingMid = nil
	}
	before := make(map[string]*Acct, len(s.w.accts))
	for k, v := range s.w.accts {
		before[k] = v
	}
	faulty := st != nil && (len(st.Fault) > 0 || len(st.Engine) > 0)
	if faulty {
		disturbed := r.faulted(s, x, st, before)
		x = pre.copy()
		s.wm.setState(s.w)
		engineTraceClear()
		if disturbed && st.Mode == "drop" && fin == nil {
			// The attempt was disturbed and the node gives the transaction up.
			r.stats.inc("given_up")
			s.used = true
			return &vmcommon.VMOutput{ReturnCode: vmcommon.ExecutionFailed, ReturnMessage: "given up"}
		}
		// The attempt is undone; it is made again without the fault.
	}
	if started != nil {
		s.w.onCall = func(string) {
			midAt--
			if midAt < 0 {
				started()
			}
		}
	}
	engineTrace(true, true)
	out, err := runVM(s.host, x)
	engineTrace(false, false)
	s.w.onCall = nil
	if fin != nil {
		fin()
	}
	m.evs = engineEvents()
	r.stats.inc("vm_executions")
	func() {
		// A deviation is looked at again on a fresh host, to tell whether history matters.
		defer func() {
			if e := recover(); e != nil {
				mm, ok := e.(mismatch)
				if ok {
					if s.used || r.dirty {
						if r.freshDiffers(s, pre, before, out) {
							mm.props = append(mm.props, "C04")
							if r.dirty {
								mm.props = append(mm.props, "C05")
							}
							mm.msg += " (a fresh host behaves differently)"
						}
					}
					panic(mm)
				}
				panic(e)
			}
		}()
		r.lifecycle(m)
		if fin != nil {
			m.scheduleChanged = true
		}
		r.judge(s, m, pre, out, err)
	}()
	engineTraceClear()
	r.note("%d: %s -> %s", r.step, pre, outText(out))
	if r.sc.Cfg.Diff && fin == nil {
		r.differential(s, pre, before, out)
	}
	s.used = true
	if fin != nil {
		for _, o := range r.shards {
			o.w.ClearCompiledCodes()
		}
		for _, o := range r.shards {
			if o != s {
				o.host.GasScheduleChange(copySched(midNext))
			}
		}
		r.adopt(midNext, midCosts)
	}
	return out
}

func outText(o *vmcommon.VMOutput) string {
	if o == nil {
		return "nothing"
	}
	s := fmt.Sprintf("%d %q gas %d refund %v data", o.ReturnCode, o.ReturnMessage, o.GasRemaining, o.GasRefund)
	for _, d := range o.ReturnData {
		s += " " + hexs(d)
	}
	for _, k := range sortedOut(o.OutputAccounts) {
		a := o.OutputAccounts[k]
		s += fmt.Sprintf(" | %s %v n%d g%d c%016x", shortAddr([]byte(k)), a.BalanceDelta, a.Nonce, a.GasUsed, codeHash64(a.Code))
		var ks []string
		for x := range a.StorageUpdates {
			ks = append(ks, x)
		}
		sort.Strings(ks)
		for _, x := range ks {
			s += " " + hexs([]byte(x)) + "=" + hexs(a.StorageUpdates[x].Data)
		}
		for _, t := range a.OutputTransfers {
			s += fmt.Sprintf(" >%v %d+%d t%d %s", t.Value, t.GasLimit, t.GasLocked, t.CallType, hexs(t.Data))
		}
	}
	for _, l := range o.Logs {
		s += fmt.Sprintf(" log %s %s %x %s", shortAddr(l.Address), hexs(l.Identifier), l.Topics, hexs(l.Data))
	}
	return s
}

// lifecycle checks the engine's account of instances.
func (r *Run) lifecycle(m *Model) {
	warm := int64(0)
	if r.sc.Cfg.Warm {
		warm = int64(len(r.shards))
	}
	live, most := 0, 0
	for i := range m.evs {
		switch m.evs[i].Kind {
		case evNew:
			live++
			r.stats.inc("instances")
			if live > most {
				most = live
			}
		case evDestroy:
			live--
		}
	}
	if n := engineMisuse(); n != 0 {
		r.fail("C05", "a contract instance was used after its release or released twice")
	}
	if most > maxInstances+int(warm) {
		r.fail("C14", "%d contract instances existed at the same time", most)
	}
	if n := engineLive(); n > warm {
		r.fail("C05", "%d contract instances were never released", n-warm)
	}
	if most > 1 {
		r.stats.seen("depths", fmt.Sprint(most))
	}
}

// failTop is a deviation found in the result of the whole transaction.
func (m *Model) failTop(props, f string, a ...interface{}) {
	m.stack = nil
	m.fail(props, f, a...)
}

// lastModel is kept for debugging.
var lastModel *Model

// judge runs the model over the recorded trace and compares what it says with the output.
func (r *Run) judge(s *Shard, m *Model, x *execInput, out *vmcommon.VMOutput, err error) {
	var res *MResult
	unm := ""
	lastModel = m
	func() {
		defer func() {
			if e := recover(); e != nil {
				u, ok := e.(unmodelled)
				if !ok {
					panic(e)
				}
				unm = u.why
			}
		}()
		y := x.copy()
		if y.call != nil {
			res = m.Call(y.call)
		} else {
			res = m.Create(y.create)
		}
	}()
	if err != nil || out == nil {
		m.failTop("C05", "the execution returned no output: %v", err)
	}
	shape := ""
	for i := range m.evs {
		if k := m.evs[i].Kind; k == evEnter || k == evImport || k == evExit {
			shape += m.evs[i].Name + ","
		}
	}
	r.stats.seen("histories", fmt.Sprintf("%016x", codeHash64([]byte(shape+out.ReturnCode.String()))))
	r.stats.inc("result_" + strings.ReplaceAll(out.ReturnCode.String(), " ", "_"))
	if unm != "" {
		r.gasSum(m, x, out)
		r.stats.inc("not_modelled")
		r.stats.seen("not_modelled", unm)
		if out.ReturnCode != vmcommon.Ok {
			s.w.revert(0)
		}
		return
	}
	together(func() { r.gasSum(m, x, out) }, func() { r.judgeCode(m, x, out, res) })
	if res.Msg != wild && res.Msg != out.ReturnMessage {
		m.failTop("C13", "return message %q instead of %q", out.ReturnMessage, res.Msg)
	}
	ok := out.ReturnCode == vmcommon.Ok
	together(func() {
		if !ok && len(out.OutputAccounts)+len(out.Logs)+len(out.ReturnData)+len(out.DeletedAccounts)+len(out.TouchedAccounts) > 0 {
			m.failTop("C01", "a failed execution has effects in its output: %s", outText(out))
		}
	}, func() {
		if !ok && out.GasRefund != nil && out.GasRefund.Sign() != 0 {
			m.failTop("C01 C02", "a failed execution has a refund of %s", out.GasRefund)
		}
	}, func() {
		if out.GasRemaining != res.GasRem {
			m.failTop("C02", "%d gas remaining instead of %d", out.GasRemaining, res.GasRem)
		}
	}, func() {
		if ok && (out.GasRefund == nil || out.GasRefund.Cmp(new(big.Int).SetUint64(res.Out.refund)) != 0) {
			m.failTop("C13 C02", "a refund of %s instead of %d", out.GasRefund, res.Out.refund)
		}
	}, func() {
		if !ok {
			return
		}
		if d := diffBytes(out.ReturnData, res.Out.ret); d != "" {
			m.failTop("C13", "return data: %s", d)
		}
	}, func() {
		if ok {
			r.judgeLogs(m, out.Logs, res.Out.logs)
		}
	}, func() {
		if ok {
			r.judgeAccounts(s, m, x, out, res.Out)
		}
	}, func() {
		if ok && len(out.DeletedAccounts)+len(out.TouchedAccounts) > 0 {
			m.failTop("C13", "deleted or touched accounts in the output")
		}
	}, func() {
		if !ok {
			return
		}
		// what the protocol functions changed inside the execution
		for _, k := range sortedKeys(mergedKeys(s.w.accts, s.wm.accts)) {
			if d := diffAcct(s.w.accts[k], s.wm.accts[k]); d != "" {
				m.failTop("C03 C01 C06", "after the execution, account %s in the node's state: %s", shortAddr([]byte(k)), d)
			}
		}
	})
	if !ok {
		s.w.revert(0) // as the node does
	}
}

// together makes all the comparisons, so that one mistake does not hide what else it leads to.
func together(fs ...func()) {
	var all mismatch
	for _, f := range fs {
		func() {
			defer func() {
				if e := recover(); e != nil {
					x, ok := e.(mismatch)
					if !ok {
						panic(e)
					}
					if all.msg != "" {
						all.msg += "; also "
					}
					all.msg += x.msg
					all.props = uniq(append(all.props, x.props...))
				}
			}()
			f()
		}()
	}
	if all.msg != "" {
		panic(all)
	}
}

func (r *Run) judgeCode(m *Model, x *execInput, out *vmcommon.VMOutput, res *MResult) {
	if res.Code != out.ReturnCode {
		p := "C13 C04"
		if res.Code == vmcommon.OutOfGas || out.ReturnCode == vmcommon.OutOfGas {
			p += " C02"
		}
		if x.create != nil || x.call.Function == arwen.UpgradeFunctionName || res.Code == vmcommon.ContractInvalid || out.ReturnCode == vmcommon.ContractInvalid {
			p += " C09"
		}
		for _, c := range []vmcommon.ReturnCode{res.Code, out.ReturnCode} {
			if c == vmcommon.FunctionNotFound || c == vmcommon.FunctionWrongSignature || c == vmcommon.UserError {
				p += " C12"
			}
			if c == vmcommon.OutOfFunds {
				p += " C03"
			}
		}
		if x.call != nil && (isInitName(x.call.Function) || x.call.Function == arwen.CallbackFunctionName) {
			p += " C12"
		}
		m.failTop(p, "return code %q (%s) instead of %q (%s)", out.ReturnCode, out.ReturnMessage, res.Code, res.Msg)
	}
}

func mergedKeys(a, b map[string]*Acct) map[string]*Acct {
	o := map[string]*Acct{}
	for k, v := range a {
		if b[k] != v {
			o[k] = v
		}
	}
	for k, v := range b {
		if a[k] != v {
			o[k] = v
		}
	}
	return o
}

func diffAcct(a, b *Acct) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return "exists or not"
	}
	if a.Balance.Cmp(b.Balance) != 0 {
		return fmt.Sprintf("balance %s instead of %s", a.Balance, b.Balance)
	}
	if a.Dev != b.Dev {
		return fmt.Sprintf("developer rewards %d instead of %d", a.Dev, b.Dev)
	}
	if a.Nonce != b.Nonce {
		return fmt.Sprintf("nonce %d instead of %d", a.Nonce, b.Nonce)
	}
	if !bytes.Equal(a.Code, b.Code) || !bytes.Equal(a.Meta, b.Meta) || !bytes.Equal(a.Owner, b.Owner) {
		return "code, metadata or owner differ"
	}
	for k, v := range a.Storage {
		if !bytes.Equal(v, b.Storage[k]) {
			return fmt.Sprintf("key %s holds %s instead of %s", hexs([]byte(k)), hexs(v), hexs(b.Storage[k]))
		}
	}
	for k, v := range b.Storage {
		if !bytes.Equal(v, a.Storage[k]) {
			return fmt.Sprintf("key %s holds %s instead of %s", hexs([]byte(k)), hexs(a.Storage[k]), hexs(v))
		}
	}
	return ""
}

func diffBytes(got, want [][]byte) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("%d items instead of %d, %s missing", len(got), len(want), hexs(want[i]))
		case i >= len(want):
			return fmt.Sprintf("%d items instead of %d, %s is too much", len(got), len(want), hexs(got[i]))
		case !bytes.Equal(got[i], want[i]):
			return fmt.Sprintf("item %d is %s instead of %s", i, hexs(got[i]), hexs(want[i]))
		}
	}
	return ""
}

func (r *Run) judgeLogs(m *Model, got, want []*vmcommon.LogEntry) {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) {
			m.failTop("C13", "%d logs instead of %d", len(got), len(want))
		}
		g, w := got[i], want[i]
		if !bytes.Equal(g.Address, w.Address) || !bytes.Equal(g.Identifier, w.Identifier) || !bytes.Equal(g.Data, w.Data) || diffBytes(g.Topics, w.Topics) != "" {
			m.failTop("C13", "log %d is %s %s %x %s instead of %s %s %x %s", i, shortAddr(g.Address), hexs(g.Identifier), g.Topics, hexs(g.Data),
				shortAddr(w.Address), hexs(w.Identifier), w.Topics, hexs(w.Data))
		}
	}
}

// gasSum: used, sent along and remaining gas add up to what was provided.
func (r *Run) gasSum(m *Model, x *execInput, out *vmcommon.VMOutput) {
	in := x.vmIn()
	given := in.GasProvided
	if in.CallType == vmcommon.AsynchronousCallBack {
		given += in.GasLocked
	}
	if out.ReturnCode != vmcommon.Ok {
		if out.GasRemaining != 0 {
			m.failTop("C02", "a failed execution leaves %d gas", out.GasRemaining)
		}
		return
	}
	sum := new(big.Int).SetUint64(out.GasRemaining)
	add := func(n uint64) { sum.Add(sum, new(big.Int).SetUint64(n)) }
	for _, k := range sortedOut(out.OutputAccounts) {
		a := out.OutputAccounts[k]
		add(a.GasUsed)
		for _, t := range a.OutputTransfers {
			add(t.GasLimit)
			add(t.GasLocked)
		}
	}
	if sum.Cmp(new(big.Int).SetUint64(given)) != 0 {
		m.failTop("C02", "gas used, sent and remaining add up to %s instead of the %d provided", sum, given)
	}
	r.stats.inc("gas_sums")
}

func (r *Run) judgeAccounts(s *Shard, m *Model, x *execInput, out *vmcommon.VMOutput, want *mOut) {
	all := map[string]bool{}
	for k := range out.OutputAccounts {
		all[k] = true
	}
	for k := range want.accts {
		all[k] = true
	}
	var keys []string
	for k := range all {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	sum := new(big.Int)
	var parts []func()
	for _, k := range keys {
		k := k
		g, w := out.OutputAccounts[k], want.accts[k]
		if g == nil {
			g = &vmcommon.OutputAccount{}
		}
		if w == nil {
			w = &mAcct{delta: new(big.Int)}
		}
		name := shortAddr([]byte(k))
		if g.Address != nil && string(g.Address) != k {
			m.failTop("C13 C03", "the output account of %s has another address", name)
		}
		d := g.BalanceDelta
		if d == nil {
			d = new(big.Int)
		}
		sum.Add(sum, d)
		parts = append(parts, func() { r.judgeAccount(s, m, k, name, d, g, w) })
	}
	parts = append(parts, func() {
		if sum.Cmp(x.vmIn().CallValue) != 0 {
			m.failTop("C03", "the balance changes add up to %s instead of the value %s", sum, x.vmIn().CallValue)
		}
	})
	together(parts...)
}

func (r *Run) judgeAccount(s *Shard, m *Model, k, name string, d *big.Int, g *vmcommon.OutputAccount, w *mAcct) {
	together(func() {
		if d.Cmp(w.delta) != 0 {
			m.failTop("C03 C01", "the balance of %s changes by %s instead of %s", name, d, w.delta)
		}
	}, func() {
		r.judgeNonce(m, k, name, g, w)
	}, func() {
		r.judgeTransfers(m, name, g, w)
	}, func() {
		r.judgeDeployed(m, name, g, w)
	}, func() {
		r.judgeStorage(m, k, name, g, w)
	})
}

func (r *Run) judgeNonce(m *Model, k, name string, g *vmcommon.OutputAccount, w *mAcct) {
	now := uint64(0)
	if a := m.w.get([]byte(k)); a != nil {
		now = a.Nonce
	}
	gn, wn := g.Nonce, w.nonce
	if gn == 0 {
		gn = now
	}
	if wn == 0 {
		wn = now
	}
	if gn != wn {
		m.failTop("C09 C01", "the nonce of %s becomes %d instead of %d", name, gn, wn)
	}
}

func (r *Run) judgeTransfers(m *Model, name string, g *vmcommon.OutputAccount, w *mAcct) {
	for i := 0; i < len(g.OutputTransfers) || i < len(w.transfers); i++ {
		if i >= len(g.OutputTransfers) || i >= len(w.transfers) {
			p := "C13 C03 C01"
			m.failTop(p, "%d transfers to %s instead of %d", len(g.OutputTransfers), name, len(w.transfers))
		}
		a, b := g.OutputTransfers[i], w.transfers[i]
		what := ""
		switch {
		case a.Value.Cmp(b.Value) != 0:
			what = fmt.Sprintf("C13 C03,value %s instead of %s", a.Value, b.Value)
		case a.GasLimit != b.GasLimit || a.GasLocked != b.GasLocked:
			what = fmt.Sprintf("C13 C02 C08,gas %d+%d instead of %d+%d", a.GasLimit, a.GasLocked, b.GasLimit, b.GasLocked)
		case !bytes.Equal(a.Data, b.Data):
			what = fmt.Sprintf("C13 C08,data %q instead of %q", a.Data, b.Data)
		case a.CallType != b.CallType:
			what = fmt.Sprintf("C13 C08,call type %d instead of %d", a.CallType, b.CallType)
		case !bytes.Equal(a.SenderAddress, b.SenderAddress):
			what = fmt.Sprintf("C13 C12,sender %s instead of %s", shortAddr(a.SenderAddress), shortAddr(b.SenderAddress))
		}
		if what != "" {
			q := strings.SplitN(what, ",", 2)
			m.failTop(q[0], "transfer %d to %s: %s", i, name, q[1])
		}
	}
}

func (r *Run) judgeDeployed(m *Model, name string, g *vmcommon.OutputAccount, w *mAcct) {
	if w.deployed {
		if !bytes.Equal(g.Code, w.code) || !bytes.Equal(g.CodeMetadata, w.meta) || !bytes.Equal(g.CodeDeployerAddress, w.deployer) {
			m.failTop("C09", "the code deployed at %s is not complete: %d bytes, metadata %s, deployer %s instead of %d bytes, %s, %s", name,
				len(g.Code), hexs(g.CodeMetadata), shortAddr(g.CodeDeployerAddress), len(w.code), hexs(w.meta), shortAddr(w.deployer))
		}
	} else if len(g.Code)+len(g.CodeMetadata)+len(g.CodeDeployerAddress) > 0 {
		m.failTop("C09 C01", "there is code for %s although none was deployed", name)
	}
}

func (r *Run) judgeStorage(m *Model, addr, name string, g *vmcommon.OutputAccount, w *mAcct) {
	var keys []string
	for k, u := range g.StorageUpdates {
		keys = append(keys, k)
		if u == nil || string(u.Offset) != k {
			m.failTop("C06", "a storage update of %s is under a wrong key", name)
		}
	}
	for k := range w.store {
		if g.StorageUpdates[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	old := m.w.get([]byte(addr))
	for _, k := range keys {
		if strings.HasPrefix(k, reservedPrefix) {
			continue // the node ignores these
		}
		var want, got []byte
		if old != nil {
			want = old.Storage[k]
			got = want
		}
		if v, ok := w.store[k]; ok {
			want = v
		}
		if u := g.StorageUpdates[k]; u != nil {
			got = u.Data
		}
		if !bytes.Equal(want, got) {
			m.failTop("C06 C01", "key %s of %s becomes %q instead of %q", hexs([]byte(k)), name, got, want)
		}
	}
}

// apply makes the effects of a successful execution the state of the shard, as the node does, and
// sends the messages to other shards.
func (r *Run) apply(s *Shard, x *execInput, out *vmcommon.VMOutput, hash []byte) {
	in := x.vmIn()
	self := []byte(nil)
	if x.call != nil {
		self = x.call.RecipientAddr
	}
	for _, k := range sortedOut(out.OutputAccounts) {
		g := out.OutputAccounts[k]
		addr := []byte(k)
		if r.shardOf(addr) != s {
			sum := new(big.Int)
			for _, t := range g.OutputTransfers {
				sum.Add(sum, t.Value)
				from := t.SenderAddress
				if len(from) == 0 {
					from = self
				}
				r.send(&Msg{From: from, To: addr, Value: new(big.Int).Set(t.Value), Data: t.Data, Gas: t.GasLimit, Locked: t.GasLocked,
					Type: t.CallType, Hash: hash, Price: in.GasPrice})
			}
			if g.BalanceDelta != nil && g.BalanceDelta.Cmp(sum) != 0 {
				r.fail("C03 C13", "account %s of another shard gets %s but the transfers to it carry %s", shortAddr(addr), g.BalanceDelta, sum)
			}
			if len(g.StorageUpdates) > 0 && hasWrites(g) || len(g.Code) > 0 {
				r.fail("C06 C09", "an account of another shard is changed")
			}
			continue
		}
		s.w.edit(addr, func(a *Acct) {
			if g.BalanceDelta != nil {
				a.Balance.Add(a.Balance, g.BalanceDelta)
				if a.Balance.Sign() < 0 {
					r.fail("C03", "account %s is debited more than it has: %s", shortAddr(addr), a.Balance)
				}
			}
			if g.Nonce > a.Nonce {
				a.Nonce = g.Nonce
			}
			for k, u := range g.StorageUpdates {
				if strings.HasPrefix(k, reservedPrefix) {
					continue
				}
				if len(u.Data) == 0 {
					delete(a.Storage, k)
				} else {
					a.Storage[k] = append([]byte(nil), u.Data...)
				}
			}
			if len(g.Code) > 0 {
				if len(a.Owner) == 0 {
					a.Owner = g.CodeDeployerAddress
				}
				a.Code, a.Meta = g.Code, g.CodeMetadata
			}
		})
	}
	s.w.commit()
}

func hasWrites(g *vmcommon.OutputAccount) bool {
	for _, u := range g.StorageUpdates {
		if len(u.Data) > 0 {
			return true
		}
	}
	return false
}

func (r *Run) send(m *Msg) {
	r.queue = append(r.queue, m)
	r.stats.inc("messages")
	if m.Type == vmcommon.AsynchronousCall {
		r.stats.inc("messages_async")
	}
	if m.Type == vmcommon.AsynchronousCallBack {
		r.stats.inc("messages_callback")
	}
	r.note("send %s>%s %s %q %d+%d t%d", shortAddr(m.From), shortAddr(m.To), m.Value, m.Data, m.Gas, m.Locked, m.Type)
}

// --- transactions and messages

func (r *Run) transaction(st *Step) {
	s := r.shardOf(st.From)
	a := s.w.get(st.From)
	value := bigOf(st.Value)
	if a == nil || a.Balance.Cmp(value) < 0 || value.Sign() < 0 {
		r.stats.inc("tx_refused")
		return
	}
	hash := r.nextHash()
	s.w.edit(st.From, func(a *Acct) {
		a.Nonce++
		a.Balance.Sub(a.Balance, value)
	})
	s.w.commit()
	if st.Kind == "deploy" {
		var code []byte
		if st.Prog > 0 && st.Prog <= len(r.sc.Progs) {
			code = r.sc.Progs[st.Prog-1].Assemble()
		}
		x := &execInput{create: &vmcommon.ContractCreateInput{VMInput: r.vmInput(st.From, st, value, hash),
			ContractCode: code, ContractCodeMetadata: append([]byte{}, st.Meta...)}}
		r.finishTx(s, x, st, hash)
		return
	}
	m := &Msg{From: st.From, To: st.To, Value: value, Gas: st.Gas, Locked: st.Locked, Type: vmcommon.CallType(st.Type), Hash: hash, Price: 1}
	m.Data = encodeCall(st.Func, rawArgs(st.Args))
	if d := r.shardOf(st.To); d != s {
		// The sender's shard has done its part; protocol functions take the tokens here.
		if r.isBuiltin(st.Func) {
			out, err := r.builtinAt(s, m)
			if err != nil {
				r.credit(s, st.From, value)
				return
			}
			for _, k := range sortedOut(out.OutputAccounts) {
				for _, t := range out.OutputAccounts[k].OutputTransfers {
					r.send(&Msg{From: st.From, To: []byte(k), Value: t.Value, Data: t.Data, Gas: t.GasLimit, Hash: hash, Price: 1, Type: m.Type})
				}
			}
			if len(out.OutputAccounts) == 0 {
				r.send(&Msg{From: st.From, To: st.To, Value: value, Data: m.Data, Gas: out.GasRemaining, Hash: hash, Price: 1, Type: m.Type})
			}
			return
		}
		r.send(m)
		return
	}
	r.process(s, m, st)
}

func (r *Run) vmInput(from []byte, st *Step, value *big.Int, hash []byte) vmcommon.VMInput {
	return vmcommon.VMInput{CallerAddr: append([]byte{}, from...), Arguments: rawArgs(st.Args), CallValue: new(big.Int).Set(value), CallType: vmcommon.CallType(st.Type),
		GasPrice: 1, GasProvided: st.Gas, GasLocked: st.Locked, OriginalTxHash: hash, CurrentTxHash: hash}
}

func (r *Run) isBuiltin(fn string) bool {
	_, err := r.shards[0].w.builtins.Get(fn)
	return err == nil
}

func (r *Run) credit(s *Shard, addr []byte, v *big.Int) {
	if v.Sign() > 0 {
		s.w.edit(addr, func(a *Acct) { a.Balance.Add(a.Balance, v) })
		s.w.commit()
	}
}

// finishTx executes and, on failure, returns the value.
func (r *Run) finishTx(s *Shard, x *execInput, st *Step, hash []byte) *vmcommon.VMOutput {
	out := r.execute(s, x, st)
	if out.ReturnCode == vmcommon.Ok {
		r.apply(s, x, out, hash)
	} else {
		r.credit(s, x.vmIn().CallerAddr, x.vmIn().CallValue)
	}
	return out
}

func (r *Run) deliver(i int, st *Step) {
	m := r.queue[i]
	r.queue = append(append([]*Msg{}, r.queue[:i]...), r.queue[i+1:]...)
	r.stats.inc("deliveries")
	if i > 0 {
		r.stats.inc("reordered")
	}
	r.process(r.shardOf(m.To), m, st)
}

// builtinAt runs a protocol function in a shard for a transaction or message.
func (r *Run) builtinAt(s *Shard, m *Msg) (*vmcommon.VMOutput, error) {
	fn, args, err := parseCall(string(m.Data))
	if err != nil {
		return nil, err
	}
	n := len(s.w.journal)
	// whoever sent tokens gets them back, payable or not
	s.w.payAll = m.Returned
	defer func() { s.w.payAll = false }()
	out, err := s.w.ProcessBuiltInFunction(&vmcommon.ContractCallInput{
		VMInput: vmcommon.VMInput{CallerAddr: m.From, Arguments: args, CallValue: new(big.Int).Set(m.Value), CallType: m.Type, GasPrice: m.Price,
			GasProvided: m.Gas, GasLocked: m.Locked, OriginalTxHash: m.Hash, CurrentTxHash: m.Hash, ReturnCallAfterError: m.Returned},
		RecipientAddr: m.To, Function: fn})
	if err != nil || out.ReturnCode != vmcommon.Ok {
		s.w.revert(n)
		if err == nil {
			err = fmt.Errorf("%s", out.ReturnMessage)
		}
		return nil, err
	}
	return out, nil
}

// process executes a transaction or message at the shard of its receiver, as the node does.
func (r *Run) process(s *Shard, m *Msg, st *Step) {
	local := r.shardOf(m.From) == s && (st != nil && st.Kind == "call")
	toSC := s.w.IsSmartContract(m.To)
	var fn string
	var args [][]byte
	var perr error
	if m.Type == vmcommon.AsynchronousCallBack && !r.isBuiltinData(m.Data) {
		// the data of a callback is code and results
		fn = arwen.CallbackFunctionName
		args, perr = parseBack(m.Data)
	} else if st != nil && st.Kind == "call" {
		fn, args = st.Func, rawArgs(st.Args)
	} else {
		fn, args, perr = parseCall(string(m.Data))
	}
	if m.Back {
		r.credit(s, m.To, m.Value)
		return
	}
	if fn != "" && perr == nil && r.isBuiltin(fn) {
		r.processBuiltin(s, m, st, fn, args, local)
		return
	}
	if !toSC {
		r.credit(s, m.To, m.Value)
		return
	}
	if m.Type == vmcommon.DirectCall && len(m.Data) == 0 && st == nil || perr != nil {
		// a plain transfer to a contract
		pay, _ := s.w.IsPayable(m.To)
		if perr == nil && (pay || m.Value.Sign() == 0) {
			r.credit(s, m.To, m.Value)
		} else {
			r.bounce(s, m, "cannot be paid", 4)
		}
		return
	}
	x := &execInput{call: &vmcommon.ContractCallInput{
		VMInput: vmcommon.VMInput{CallerAddr: append([]byte{}, m.From...), Arguments: args, CallValue: new(big.Int).Set(m.Value), CallType: m.Type, GasPrice: m.Price,
			GasProvided: m.Gas, GasLocked: m.Locked, OriginalTxHash: m.Hash, CurrentTxHash: m.Hash},
		RecipientAddr: append([]byte{}, m.To...), Function: fn}}
	if fn == arwen.UpgradeFunctionName {
		a := s.w.get(m.To)
		if a == nil || !bytes.Equal(a.Owner, m.From) || !vmcommon.CodeMetadataFromBytes(a.Meta).Upgradeable {
			r.bounce(s, m, "upgrade not permitted", 11)
			return
		}
	}
	out := r.execute(s, x, st)
	if out.ReturnCode == vmcommon.Ok {
		r.apply(s, x, out, m.Hash)
		r.checkBack(s, m, out, fn)
		return
	}
	r.bounce(s, m, out.ReturnMessage, int(out.ReturnCode))
}

// checkBack: a successful remote asynchronous call produces exactly one callback message.
func (r *Run) checkBack(s *Shard, m *Msg, out *vmcommon.VMOutput, fn string) {
	if m.Type != vmcommon.AsynchronousCall {
		return
	}
	n := 0
	for _, k := range sortedOut(out.OutputAccounts) {
		for _, t := range out.OutputAccounts[k].OutputTransfers {
			if t.CallType == vmcommon.AsynchronousCallBack {
				if k != string(m.From) && r.shardOf([]byte(k)) == s {
					continue // an inner asynchronous call, answered here
				}
				n++
				if k != string(m.From) {
					r.fail("C08", "the callback of an asynchronous call goes to %s instead of its caller %s", shortAddr([]byte(k)), shortAddr(m.From))
				}
			}
		}
	}
	if n == 0 && fn == arwen.UpgradeFunctionName {
		// the node answers upgrades itself
		args := append([][]byte{{}}, out.ReturnData...)
		r.send(&Msg{From: m.To, To: m.From, Value: new(big.Int), Data: encodeCall("", args), Gas: out.GasRemaining, Locked: m.Locked,
			Hash: m.Hash, Price: m.Price, Type: vmcommon.AsynchronousCallBack})
		r.stats.inc("remote_async_upgraded")
		return
	}
	if n != 1 {
		r.fail("C08", "an asynchronous call that succeeded produced %d callbacks", n)
	}
	r.stats.inc("remote_async_done")
	// the gas locked by the caller travels with the callback
	for i := len(r.queue) - 1; i >= 0; i-- {
		if q := r.queue[i]; q.Type == vmcommon.AsynchronousCallBack && bytes.Equal(q.To, m.From) && q.Locked == 0 {
			q.Locked = m.Locked
			break
		}
	}
}

func (r *Run) isBuiltinData(data []byte) bool {
	fn, _, err := parseCall(string(data))
	return err == nil && fn != "" && r.isBuiltin(fn)
}

func parseBack(data []byte) ([][]byte, error) {
	var out [][]byte
	for i, p := range strings.Split(string(data), "@") {
		if i == 0 {
			if p != "" {
				return nil, fmt.Errorf("callback data does not start with @")
			}
			continue
		}
		b, err := hex.DecodeString(p)
		if err != nil {
			return nil, err
		}
		out = append(out, b)
	}
	return out, nil
}

// bounce undoes a failed transaction or message: the value goes back and a failed asynchronous call
// is answered with its error.
func (r *Run) bounce(s *Shard, m *Msg, msg string, code int) {
	r.stats.inc("bounced")
	back := &Msg{From: m.To, To: m.From, Value: m.Value, Hash: m.Hash, Price: m.Price}
	if m.Type == vmcommon.AsynchronousCall && s.w.IsSmartContract(m.From) {
		back.Type = vmcommon.AsynchronousCallBack
		back.Locked = m.Locked
		back.Data = encodeCall("", [][]byte{big.NewInt(int64(code)).Bytes(), []byte(msg)})
		r.stats.inc("async_failed_remotely")
		if r.shardOf(m.From) == s {
			r.process(s, back, nil)
			return
		}
		r.send(back)
		return
	}
	if r.shardOf(m.From) == s {
		r.credit(s, m.From, m.Value)
		return
	}
	if m.Value.Sign() > 0 {
		back.Back = true
		r.send(back)
	}
}

// processBuiltin runs a protocol function and the contract call that may follow.
func (r *Run) processBuiltin(s *Shard, m *Msg, st *Step, fn string, args [][]byte, local bool) {
	s.w.commit()
	out, err := r.builtinAt(s, m)
	if err != nil {
		r.builtinFailed(s, m, fn, args, err.Error(), 4, local)
		return
	}
	rcpt := m.To
	if fn == vmcommon.BuiltInFunctionESDTNFTTransfer && bytes.Equal(m.From, m.To) && len(args) >= 4 {
		rcpt = args[3]
	}
	oa := out.OutputAccounts[string(rcpt)]
	for _, k := range sortedOut(out.OutputAccounts) {
		// what a contract's owner in another shard claims
		if k == string(rcpt) || r.shardOf([]byte(k)) == s {
			continue
		}
		for _, t := range out.OutputAccounts[k].OutputTransfers {
			if t.Value.Sign() > 0 {
				r.send(&Msg{From: rcpt, To: []byte(k), Value: t.Value, Hash: m.Hash, Price: 1, Back: true})
			}
		}
	}
	if r.shardOf(rcpt) != s {
		// the protocol function sends the rest of the work to another shard
		if oa != nil {
			for _, t := range oa.OutputTransfers {
				r.send(&Msg{From: m.From, To: rcpt, Value: t.Value, Data: t.Data, Gas: t.GasLimit, Hash: m.Hash, Price: 1, Type: m.Type})
			}
		}
		s.w.commit()
		return
	}
	if oa == nil || len(oa.OutputTransfers) != 1 || len(oa.OutputTransfers[0].Data) == 0 || !s.w.IsSmartContract(rcpt) {
		s.w.commit()
		if m.Value.Sign() > 0 {
			r.credit(s, rcpt, m.Value)
		}
		return
	}
	t := oa.OutputTransfers[0]
	cfn, cargs, perr := parseCall(string(t.Data))
	if perr != nil {
		s.w.revert(0)
		r.builtinFailed(s, m, fn, args, "bad arguments", 4, local)
		return
	}
	in := &vmcommon.ContractCallInput{
		VMInput: vmcommon.VMInput{CallerAddr: append([]byte{}, m.From...), Arguments: cargs, CallValue: new(big.Int), CallType: m.Type, GasPrice: m.Price,
			GasProvided: t.GasLimit, GasLocked: m.Locked, OriginalTxHash: m.Hash, CurrentTxHash: m.Hash},
		RecipientAddr: append([]byte{}, rcpt...), Function: cfn}
	if isTokenTransfer(fn) {
		x := &vmcommon.ESDTTransfer{ESDTTokenName: args[0], ESDTValue: new(big.Int).SetBytes(args[1])}
		if fn == vmcommon.BuiltInFunctionESDTNFTTransfer {
			x.ESDTTokenNonce = new(big.Int).SetBytes(args[1]).Uint64()
			x.ESDTValue = new(big.Int).SetBytes(args[2])
			x.ESDTTokenType = uint32(vmcommon.NonFungible)
		}
		in.ESDTTransfers = []*vmcommon.ESDTTransfer{x}
	}
	r.stats.inc("token_calls")
	// A failure of the call undoes the transfer as well.
	undo := make(map[string]*Acct, len(s.w.accts))
	for _, e := range s.w.journal {
		if _, ok := undo[e.addr]; !ok {
			undo[e.addr] = e.old
		}
	}
	x := &execInput{call: in}
	res := r.execute(s, x, st)
	if res.ReturnCode == vmcommon.Ok {
		r.apply(s, x, res, m.Hash)
		r.checkBack(s, m, res, cfn)
		return
	}
	if m.Returned {
		// the callback failed, the tokens stay
		r.stats.inc("returned_callbacks_failed")
		return
	}
	for k, o := range undo {
		if o == nil {
			delete(s.w.accts, k)
		} else {
			s.w.accts[k] = o
		}
	}
	r.builtinFailed(s, m, fn, args, res.ReturnMessage, int(res.ReturnCode), local)
}

func (r *Run) builtinFailed(s *Shard, m *Msg, fn string, args [][]byte, msg string, code int, local bool) {
	r.stats.inc("builtin_failed")
	if local {
		r.credit(s, m.From, m.Value)
		return
	}
	if m.Returned {
		r.fail("C03", "tokens on their way back are refused: %s", msg)
	}
	if !isTokenTransfer(fn) || r.shardOf(m.From) == s {
		r.bounce(s, m, msg, code)
		return
	}
	// the tokens go back to the sender's shard
	n := 2
	if fn == vmcommon.BuiltInFunctionESDTNFTTransfer {
		n = 4
	}
	if len(args) < n {
		r.fail("C03 C13", "a token message without its arguments: %q", m.Data)
	}
	back := &Msg{From: m.To, To: m.From, Value: m.Value, Hash: m.Hash, Price: m.Price, Returned: true}
	a := append([][]byte{}, args[:n]...)
	if m.Type == vmcommon.AsynchronousCall && s.w.IsSmartContract(m.From) {
		back.Type = vmcommon.AsynchronousCallBack
		back.Locked = m.Locked
		back.Gas = 0
		a = append(a, []byte(arwen.CallbackFunctionName), big.NewInt(int64(code)).Bytes(), []byte(msg))
	}
	back.Data = encodeCall(fn, a)
	r.send(back)
	r.stats.inc("tokens_returned")
}

// --- faults, fresh hosts

// faulted makes an attempt with faults injected. Its effects are thrown away; what counts is that it
// returns and that the VM goes on. It says whether anything fired.
func (r *Run) faulted(s *Shard, x *execInput, st *Step, before map[string]*Acct) bool {
	f := &HookFaults{Plan: map[string]int{}, Fired: map[string]int{}, Seen: map[string]int{}}
	for k, n := range st.Fault {
		f.Plan[k] = n
	}
	s.w.fault = f
	for k := 0; k < fEngineKinds; k++ {
		if n, ok := st.Engine[engineFaultNames[k]]; ok {
			engineFault(k, int64(n))
		}
	}
	fired := make([]uint64, fEngineKinds)
	for k := range fired {
		fired[k] = engineFired(k)
	}
	cold := map[string][]byte{}
	for k, v := range s.w.compiled {
		cold[k] = v
	}
	out, err := runVM(s.host, x)
	s.w.fault = nil
	any := false
	for _, k := range keysOfInt(f.Fired) {
		r.stats.add("fault_"+k, uint64(f.Fired[k]))
		any = true
	}
	for k := 0; k < fEngineKinds; k++ {
		engineFault(k, 0)
		if d := engineFired(k) - fired[k]; d > 0 {
			r.stats.add("fault_engine_"+engineFaultNames[k], d)
			any = true
		}
	}
	r.stats.inc("faulted_executions")
	if any {
		r.dirty = true
	}
	if out == nil && err == nil {
		r.fail("C05", "an execution disturbed by %v %v returned neither an output nor an error", st.Fault, st.Engine)
	}
	if err != nil {
		r.stats.inc("faulted_errors")
		if out != nil {
			r.fail("C05 C01", "an execution disturbed by %v %v returned both an output and the error %v", st.Fault, st.Engine, err)
		}
	}
	r.note("%d: with faults %v %v: %s -> %s %v", r.step, st.Fault, st.Engine, x, outText(out), err)
	if out != nil && out.ReturnCode != vmcommon.Ok {
		if len(out.OutputAccounts)+len(out.Logs)+len(out.ReturnData) > 0 {
			r.fail("C01 C05", "an execution that failed under faults %v %v has effects in its output", st.Fault, st.Engine)
		}
	}
	if out != nil && out.ReturnCode == vmcommon.Ok {
		sum := new(big.Int)
		for _, k := range sortedOut(out.OutputAccounts) {
			if d := out.OutputAccounts[k].BalanceDelta; d != nil {
				sum.Add(sum, d)
			}
		}
		if sum.Cmp(x.vmIn().CallValue) != 0 {
			r.fail("C03 C05", "under faults %v %v the balance changes add up to %s instead of %s", st.Fault, st.Engine, sum, x.vmIn().CallValue)
		}
	}
	if n := engineMisuse(); n != 0 {
		r.fail("C05", "with faults %v %v a contract instance was used after its release or released twice", st.Fault, st.Engine)
	}
	warm := int64(0)
	if r.sc.Cfg.Warm {
		warm = int64(len(r.shards))
	}
	if n := engineLive(); n > warm && err == nil {
		r.fail("C05", "with faults %v %v %d contract instances were never released", st.Fault, st.Engine, n-warm)
	}
	// the node throws the attempt away
	s.w.accts = make(map[string]*Acct, len(before))
	for k, v := range before {
		s.w.accts[k] = v
	}
	s.w.journal = nil
	return any
}

func keysOfInt(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// freshRun repeats an execution on a fresh host and a copy of the state.
func (r *Run) freshRun(s *Shard, x *execInput, before map[string]*Acct) (*vmcommon.VMOutput, error) {
	w := newWorld(s.id, uint32(len(r.shards)), copySched(r.gas))
	w.accts = make(map[string]*Acct, len(before))
	for k, v := range before {
		w.accts[k] = v
	}
	w.Cur, w.Last, w.epochs = s.w.Cur, s.w.Last, s.w.epochs
	h := newHost(w, r.gas, false)
	return runVM(h, x.copy())
}

// tighten chooses the gas of an execution around what it needs, as found out on a copy.
func (r *Run) tighten(s *Shard, x *execInput, seed uint64) {
	in := x.vmIn()
	engineTrace(false, false)
	out, err := r.freshRun(s, x, s.w.accts)
	engineTraceClear()
	if err != nil || out == nil || out.GasRemaining > in.GasProvided {
		return
	}
	rng := newRng(seed)
	need := int64(in.GasProvided - out.GasRemaining)
	few := int64(rng.Intn(1 << uint(rng.Intn(13))))
	switch rng.Intn(8) {
	case 0:
		need--
	case 1, 2, 3:
		need -= 1 + few
	case 4:
		need += few
	case 5:
		need -= need / 5 * int64(rng.Intn(1000)) / 1000
	default:
		need = int64(rng.Float64() * float64(need))
	}
	if need >= 0 {
		in.GasProvided = uint64(need)
		r.stats.inc("tight_gas")
	}
}

func (r *Run) freshDiffers(s *Shard, x *execInput, before map[string]*Acct, out *vmcommon.VMOutput) bool {
	engineTrace(false, false)
	o, _ := r.freshRun(s, x, before)
	return outText(o) != outText(out)
}

func (r *Run) differential(s *Shard, x *execInput, before map[string]*Acct, out *vmcommon.VMOutput) {
	o, err := r.freshRun(s, x, before)
	r.stats.inc("fresh_host_comparisons")
	if err != nil {
		r.fail("C04 C05", "on a fresh host the execution fails with %v", err)
	}
	if a, b := outText(out), outText(o); a != b {
		p := "C04"
		if r.dirty {
			p += " C05"
		}
		r.fail(p, "a host with history gives %s, a fresh host gives %s", a, b)
	}
}
