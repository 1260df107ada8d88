package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	gasSchedules "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos/gasSchedules"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// The reference of the scenario runs: what the steps of a test scenario do to the accounts and what its
// transactions return, over the same VM with a blockchain of its own.

// mBlock is the block information a setState step gives.
type mBlock struct {
	nonce, round, time, epoch uint64
	seed                      []byte
}

type mMock struct {
	creator []byte
	nonce   uint64
	addr    []byte
}

// mHook is the blockchain of the reference.
type mHook struct {
	*World
	prev, cur *mBlock
	hashes    [][]byte
	mocks     []mMock
	live      map[string]*mUser // accounts a built-in function works on
	funcs     vmcommon.BuiltInFunctionContainer
	stats     *Stats
}

// mUser is an account as the built-in functions see it.
type mUser struct{ *userAcct }

func (u *mUser) ClaimDeveloperRewards(sender []byte) (*big.Int, error) {
	if !bytes.Equal(sender, u.a.Owner) {
		return nil, worldmock.ErrOperationNotPermitted
	}
	return new(big.Int), nil
}

func (u *mUser) ChangeOwnerAddress(sender []byte, n []byte) error {
	if !bytes.Equal(sender, u.a.Owner) {
		return worldmock.ErrOperationNotPermitted
	}
	if len(n) != len(u.a.Addr) {
		return worldmock.ErrInvalidAddressLength
	}
	u.a.Owner = append([]byte(nil), n...)
	return nil
}

func (u *mUser) SetUserName(n []byte) { u.a.User = append([]byte(nil), n...) }
func (u *mUser) GetUserName() []byte  { return u.a.User }
func (u *mUser) IsInterfaceNil() bool { return u == nil }
func (u *mUser) GetCodeHash() []byte  { return nil }
func (u *mUser) AddToBalance(v *big.Int) error {
	n := new(big.Int).Add(u.a.Balance, v)
	if n.Sign() < 0 {
		return worldmock.ErrInsufficientFunds
	}
	u.a.Balance = n
	return nil
}

var errMissing = errors.New("this account does not exist, and asking for its shard kills the mock")

func (h *mHook) need(addr []byte) {
	if h.get(addr) == nil {
		panic(errMissing)
	}
}

type mAdapter struct {
	adapter
	h *mHook
}

func (x mAdapter) LoadAccount(addr []byte) (vmcommon.AccountHandler, error) {
	if x.h.get(addr) == nil {
		return nil, arwen.ErrInvalidAccount
	}
	return x.h.load(addr), nil
}
func (x mAdapter) GetExistingAccount(addr []byte) (vmcommon.AccountHandler, error) {
	return x.LoadAccount(addr)
}
func (x mAdapter) SaveAccount(vmcommon.AccountHandler) error { return nil }

type mCoord struct {
	coord
	h *mHook
}

func (c mCoord) ComputeId(a []byte) uint32 { c.h.need(a); return 0 }
func (c mCoord) SameShard(a, b []byte) bool {
	c.h.need(a)
	c.h.need(b)
	return true
}

func newMHook() *mHook {
	h := &mHook{World: &World{NShards: 1, accts: map[string]*Acct{}, compiled: map[string][]byte{}}}
	f, err := builtInFunctions.NewBuiltInFunctionsFactory(builtInFunctions.ArgsCreateBuiltInFunctionContainer{
		GasMap:           config.MakeGasMapForTests(),
		MapDNSAddresses:  map[string]struct{}{},
		Marshalizer:      marsh{},
		Accounts:         mAdapter{adapter{h.World}, h},
		ShardCoordinator: mCoord{coord{h.World}, h},
		EpochNotifier:    epochs{},
	})
	must(err)
	h.funcs, err = f.CreateBuiltInFunctionContainer()
	must(err)
	must(builtInFunctions.SetPayableHandler(h.funcs, h))
	h.builtins = h.funcs
	return h
}

func (h *mHook) load(addr []byte) *mUser {
	if u := h.live[string(addr)]; u != nil {
		return u
	}
	u := &mUser{&userAcct{h.get(addr).copy()}}
	h.live[string(addr)] = u
	return u
}

func (h *mHook) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	h.need(in.CallerAddr)
	h.need(in.RecipientAddr)
	f, err := h.funcs.Get(in.Function)
	if err != nil {
		return nil, err
	}
	h.live = map[string]*mUser{}
	out, err := f.ProcessBuiltinFunction(h.load(in.CallerAddr), h.load(in.RecipientAddr), in)
	if err != nil {
		return nil, err
	}
	var ks []string
	for k := range h.live {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h.put(h.live[k].a)
	}
	h.stats.inc("builtin_ok_" + in.Function)
	return out, nil
}

func (h *mHook) NewAddress(creator []byte, nonce uint64, _ []byte) ([]byte, error) {
	for _, m := range h.mocks {
		if bytes.Equal(m.creator, creator) && m.nonce == nonce {
			return m.addr, nil
		}
	}
	return mockAddress(creator, nonce), nil
}

func (h *mHook) GetUserAccount(addr []byte) (vmcommon.UserAccountHandler, error) {
	a := h.get(addr)
	if a == nil {
		return nil, fmt.Errorf("account not found: %s", hexs(addr))
	}
	return &mUser{&userAcct{a.copy()}}, nil
}

func (h *mHook) GetCode(u vmcommon.UserAccountHandler) []byte {
	if a := h.get(u.AddressBytes()); a != nil {
		return a.Code
	}
	return nil
}

func (h *mHook) GetAllState(addr []byte) (map[string][]byte, error) {
	if h.get(addr) == nil {
		return nil, fmt.Errorf("account not found: %s", hexs(addr))
	}
	return h.World.GetAllState(addr)
}

func (h *mHook) GetESDTToken(addr []byte, token []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	h.need(addr)
	d := &esdt.ESDigitalToken{Value: new(big.Int), Type: uint32(vmcommon.Fungible)}
	if raw := h.get(addr).Storage[esdtKey(token, nonce)]; len(raw) > 0 {
		if err := (marsh{}).Unmarshal(d, raw); err != nil {
			return nil, err
		}
		return d, nil
	}
	name := []byte(esdtKey(token, nonce)[len(tokenPrefix):])
	d.TokenMetaData = &esdt.MetaData{Name: name}
	return d, nil
}

func (h *mHook) IsSmartContract(addr []byte) bool {
	if a := h.get(addr); a != nil {
		return len(a.Code) > 0
	}
	return vmcommon.IsSmartContractAddress(addr)
}

func (h *mHook) IsPayable(addr []byte) (bool, error) {
	a := h.get(addr)
	return a == nil || len(a.Code) == 0 || vmcommon.CodeMetadataFromBytes(a.Meta).Payable, nil
}

func (h *mHook) GetBlockhash(nonce uint64) ([]byte, error) {
	cur := h.CurrentNonce()
	if nonce > cur || cur-nonce >= uint64(len(h.hashes)) {
		return nil, errors.New("no such block")
	}
	return h.hashes[cur-nonce], nil
}

func (b *mBlock) get() *mBlock {
	if b == nil {
		return &mBlock{}
	}
	return b
}

func (h *mHook) LastNonce() uint64         { return h.prev.get().nonce }
func (h *mHook) LastRound() uint64         { return h.prev.get().round }
func (h *mHook) LastTimeStamp() uint64     { return h.prev.get().time }
func (h *mHook) LastRandomSeed() []byte    { return h.prev.get().seed }
func (h *mHook) LastEpoch() uint32         { return uint32(h.prev.get().epoch) }
func (h *mHook) CurrentNonce() uint64      { return h.cur.get().nonce }
func (h *mHook) CurrentRound() uint64      { return h.cur.get().round }
func (h *mHook) CurrentTimeStamp() uint64  { return h.cur.get().time }
func (h *mHook) CurrentRandomSeed() []byte { return h.cur.get().seed }
func (h *mHook) CurrentEpoch() uint32      { return uint32(h.cur.get().epoch) }
func (h *mHook) GetStateRootHash() []byte  { return nil }

// mockAddress is where the mock blockchain puts a contract.
func mockAddress(creator []byte, nonce uint64) []byte {
	a := make([]byte, 32)
	copy(a[10:], []byte{0x11, 0x11, 0x11, 0x11})
	copy(a[14:29], creator)
	a[29] = byte(nonce)
	copy(a[30:], creator[30:])
	return a
}

func newRng(seed uint64) *rand.Rand { return rand.New(rand.NewSource(int64(seed))) }

// --- the steps

// mStep is a step of the scenario as it has to be written, with what it does.
type mStep struct {
	st    *Step
	set   *mSet
	res   *mRes            // the result of a transaction that states it
	state map[string]*Acct // what a check step finds
	sub   []*mStep
	gas   bool // a file of its own that checks gas
	id    string
}

type mSet struct {
	prev, cur *mBlock
	hashes    [][]byte
	mocks     []mMock
}

type mRes struct {
	code   int
	msg    string
	out    [][]byte
	refund *big.Int
	gas    uint64
	logs   []*vmcommon.LogEntry
}

type mRef struct {
	r     *Run
	h     *mHook
	vm    vmcommon.VMExecutionHandler
	codes [][]byte
	n     int
	ids   []string
	plain bool // a setState step gives accounts and block hashes only
}

func mandosSchedule(name string) config.GasScheduleMap {
	text := gasSchedules.GetV3()
	switch name {
	case "dummy":
		return config.MakeGasMapForTests()
	case "v1":
		text = gasSchedules.GetV1()
	case "v2":
		text = gasSchedules.GetV2()
	}
	g, err := gasSchedules.LoadGasScheduleConfig(text)
	must(err)
	return g
}

var mandosMeta = (&vmcommon.CodeMetadata{Payable: true, Upgradeable: true, Readable: true}).ToBytes()

func newMRef(r *Run, codes [][]byte, schedule string) *mRef {
	m := &mRef{r: r, h: newMHook(), codes: codes}
	m.h.stats = r.stats
	var err error
	m.vm, err = host.NewArwenVM(m.h, &arwen.VMHostParameters{VMType: []byte{0, 0}, BlockGasLimit: 10000000,
		GasSchedule: mandosSchedule(schedule), BuiltInFuncContainer: m.h.funcs,
		ElrondProtectedKeyPrefix: []byte(vmcommon.ElrondProtectedKeyPrefix)})
	must(err)
	return m
}

func (m *mRef) snapshot() map[string]*Acct {
	s := make(map[string]*Acct, len(m.h.accts))
	for k, v := range m.h.accts {
		s[k] = v
	}
	return s
}

// failedScenario is why a scenario cannot pass.
type failedScenario struct{ why string }

func (f *failedScenario) Error() string { return f.why }

// steps runs steps. A step that makes the whole scenario fail is left out, and returned with why.
func (m *mRef) steps(sts []Step, depth int) (out []*mStep, failed *mStep, why string) {
	for i := range sts {
		st := &sts[i]
		m.n++
		x := &mStep{st: st, id: fmt.Sprintf("%d", m.n)}
		if i < len(m.ids) {
			x.id = m.ids[i]
		}
		switch st.Kind {
		case "setstate":
			m.set(x)
		case "check":
			x.state = m.snapshot()
		case "dump":
		case "external":
			if depth > 1 {
				continue
			}
			x.gas = st.N&1 == 0
			var f *mStep
			x.sub, f, why = m.steps(st.Sub, depth+1)
			if f != nil {
				y := *x
				y.sub = append(append([]*mStep{}, x.sub...), f)
				return append(out, x), &y, why
			}
		case "call", "deploy", "transfer", "reward", "query":
			undo := len(m.h.journal)
			res, err := m.tx(x)
			if err != nil {
				m.h.revert(undo)
				return out, x, err.Error()
			}
			m.h.commit()
			x.res = res
		default:
			continue
		}
		out = append(out, x)
	}
	return out, nil, ""
}

func (m *mRef) code(i int) []byte {
	if len(m.codes) == 0 {
		return nil
	}
	return m.codes[(i-1+len(m.codes))%len(m.codes)]
}

func (m *mRef) set(x *mStep) {
	r := newRng(x.st.N)
	blk := func() *mBlock {
		if r.Intn(3) == 0 {
			return nil
		}
		b := &mBlock{nonce: uint64(r.Intn(6)), round: uint64(r.Intn(1000)), time: uint64(r.Intn(1 << 30)), epoch: uint64(r.Intn(5)), seed: make([]byte, 48)}
		if r.Intn(2) == 0 {
			r.Read(b.seed)
		}
		return b
	}
	s := &mSet{prev: blk(), cur: blk()}
	for k := r.Intn(4); k > 0; k-- {
		b := make([]byte, 32)
		r.Read(b)
		s.hashes = append(s.hashes, b)
	}
	for _, a := range x.st.Accts {
		if r.Intn(4) == 0 {
			b := make([]byte, 32)
			r.Read(b)
			copy(b, make([]byte, 8))
			b[9] = 1
			s.mocks = append(s.mocks, mMock{a.Addr, a.Nonce + uint64(r.Intn(2)), b})
		}
	}
	if m.plain {
		s.prev, s.cur, s.mocks = nil, nil, nil
	}
	for i := range x.st.Accts {
		m.h.put(m.account(&x.st.Accts[i]))
	}
	m.h.commit()
	m.h.prev, m.h.cur, m.h.hashes = s.prev, s.cur, s.hashes
	m.h.mocks = append(m.h.mocks, s.mocks...)
	x.set = s
}

// mToken is what the attribute seed of a token says.
type mToken struct {
	creator, hash, uri, attr []byte
	royalties                uint64
	roles                    []string
	last                     uint64
	frozen                   bool
}

var mandosRoles = []string{"ESDTRoleLocalMint", "ESDTRoleLocalBurn", "ESDTRoleNFTCreate", "ESDTRoleNFTAddQuantity", "ESDTRoleNFTBurn"}

func tokenAttr(t *TokenSpec) (x mToken) {
	if t.Attr == 0 {
		return
	}
	r := newRng(t.Attr)
	some := func(n int) []byte {
		if r.Intn(3) == 0 {
			return nil
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return b
	}
	x.creator, x.hash, x.uri, x.attr = some(32), some(1+r.Intn(8)), some(1+r.Intn(8)), some(1+r.Intn(8))
	if r.Intn(2) == 0 {
		x.royalties = uint64(r.Intn(10001))
	}
	for _, n := range mandosRoles {
		if r.Intn(5) < 3 {
			x.roles = append(x.roles, n)
		}
	}
	if r.Intn(2) == 0 {
		x.last = uint64(1 + r.Intn(300))
	}
	x.frozen = r.Intn(8) == 0
	return
}

// tokenGroups is the tokens of an account by name, in order.
func tokenGroups(a *AcctSpec) (names []string, groups map[string][]*TokenSpec) {
	groups = map[string][]*TokenSpec{}
	for i := range a.Tokens {
		t := &a.Tokens[i]
		if groups[string(t.Name)] == nil {
			names = append(names, string(t.Name))
		}
		dup := false
		for _, o := range groups[string(t.Name)] {
			dup = dup || o.Nonce == t.Nonce
		}
		if !dup {
			groups[string(t.Name)] = append(groups[string(t.Name)], t)
		}
	}
	return
}

// bare says that a token is only there by its roles and last nonce.
func bare(g []*TokenSpec) bool {
	return len(g) == 1 && g[0].Nonce == 0 && g[0].Value == 0 && g[0].Attr > 0
}

func (m *mRef) account(a *AcctSpec) *Acct {
	y := &Acct{Addr: string(a.Addr), Nonce: a.Nonce, Balance: bigOf(a.Balance), Storage: map[string][]byte{}, Owner: a.Owner, User: a.User, Async: a.Async, Meta: mandosMeta}
	if a.Prog > 0 {
		y.Code = m.code(a.Prog)
	}
	for _, kv := range a.Store {
		y.Storage[string(kv.K)] = kv.V
	}
	names, groups := tokenGroups(a)
	for _, n := range names {
		g := groups[n]
		head := tokenAttr(g[0])
		if !bare(g) {
			for _, t := range g {
				at := tokenAttr(t)
				d := &esdt.ESDigitalToken{Value: big.NewInt(t.Value), Type: uint32(vmcommon.Fungible),
					Properties:    (&builtInFunctions.ESDTUserMetadata{Frozen: head.frozen}).ToBytes(),
					TokenMetaData: &esdt.MetaData{Name: []byte(n), Nonce: t.Nonce}}
				if t.Nonce > 0 {
					d.TokenMetaData.Creator, d.TokenMetaData.Royalties, d.TokenMetaData.Hash = at.creator, uint32(at.royalties), at.hash
					d.TokenMetaData.Attributes = at.attr
				}
				uri := at.uri
				if t.Nonce == 0 || uri == nil {
					uri = []byte{}
				}
				d.TokenMetaData.URIs = [][]byte{uri}
				b, err := (marsh{}).Marshal(d)
				must(err)
				y.Storage[esdtKey([]byte(n), t.Nonce)] = b
			}
		}
		var roles [][]byte
		for _, s := range head.roles {
			roles = append(roles, []byte(s))
		}
		b, err := (marsh{}).Marshal(&esdt.ESDTRoles{Roles: roles})
		must(err)
		y.Storage[string(worldmock.ESDTRoleKeyPrefix)+n] = b
		y.Storage[string(worldmock.ESDTNonceKeyPrefix)+n] = new(big.Int).SetUint64(head.last).Bytes()
	}
	return y
}

// tx executes a transaction: its result, or why the scenario fails.
func (m *mRef) tx(x *mStep) (res *mRes, err error) {
	defer func() {
		if e := recover(); e != nil {
			if e != errMissing {
				panic(e)
			}
			err = errMissing
		}
	}()
	st, h := x.st, m.h
	sender := st.Kind != "reward" && st.Kind != "query"
	value, gas, price := bigOf(st.Value), st.Gas, st.N
	from := []byte(st.From)
	if sender {
		a := h.get(from)
		if a == nil {
			return nil, errors.New("no sender")
		}
		fee := new(big.Int).Mul(new(big.Int).SetUint64(gas), new(big.Int).SetUint64(price))
		if a.Balance.Cmp(fee) < 0 {
			return nil, errors.New("fee not paid")
		}
		h.edit(from, func(a *Acct) { a.Nonce++; a.Balance.Sub(a.Balance, fee) })
	}
	undo := len(h.journal)
	var esdts []*vmcommon.ESDTTransfer
	if t := st.Tok; t != nil && sender {
		v := big.NewInt(t.Value)
		in := &vmcommon.ContractCallInput{VMInput: vmcommon.VMInput{CallerAddr: from, CallValue: new(big.Int), GasPrice: price, GasProvided: gas,
			Arguments: [][]byte{t.Name, v.Bytes()}}, RecipientAddr: st.To, Function: vmcommon.BuiltInFunctionESDTTransfer}
		typ := vmcommon.Fungible
		if t.Nonce > 0 {
			in.Function, in.RecipientAddr = vmcommon.BuiltInFunctionESDTNFTTransfer, from
			in.Arguments = [][]byte{t.Name, new(big.Int).SetUint64(t.Nonce).Bytes(), v.Bytes(), st.To}
			typ = vmcommon.NonFungible
		}
		out, err := h.ProcessBuiltInFunction(in)
		if err != nil {
			return nil, err
		}
		if out.ReturnCode != vmcommon.Ok {
			return nil, errors.New(out.ReturnMessage)
		}
		gas = out.GasRemaining
		esdts = []*vmcommon.ESDTTransfer{{ESDTTokenName: t.Name, ESDTValue: v, ESDTTokenNonce: t.Nonce, ESDTTokenType: uint32(typ)}}
	}
	if sender && h.get(from).Balance.Cmp(value) < 0 {
		h.revert(undo)
		m.r.stats.inc("tx_without_funds")
		return &mRes{code: int(vmcommon.OutOfFunds), refund: new(big.Int)}, nil
	}
	hash := []byte(x.id)
	for len(hash) < 32 {
		hash = append(hash, '.')
	}
	in := vmcommon.VMInput{CallerAddr: from, Arguments: rawArgs(st.Args), CallValue: value, GasPrice: price, GasProvided: gas,
		OriginalTxHash: hash, CurrentTxHash: hash, ESDTTransfers: esdts}
	if esdts == nil {
		in.ESDTTransfers = []*vmcommon.ESDTTransfer{}
	}
	var out *vmcommon.VMOutput
	switch st.Kind {
	case "transfer", "reward":
		if st.Kind == "reward" && h.get(st.To) == nil {
			return nil, errors.New("no recipient")
		}
		out = &vmcommon.VMOutput{OutputAccounts: map[string]*vmcommon.OutputAccount{string(st.To): {Address: st.To, BalanceDelta: value}}, GasRefund: new(big.Int)}
		if st.Kind == "reward" {
			key := "ELRONDreward"
			sum := new(big.Int).Add(new(big.Int).SetBytes(h.get(st.To).Storage[key]), value)
			out.OutputAccounts[string(st.To)].StorageUpdates = map[string]*vmcommon.StorageUpdate{key: {Offset: []byte(key), Data: sum.Bytes()}}
		}
	case "deploy":
		out, err = m.vm.RunSmartContractCreate(&vmcommon.ContractCreateInput{VMInput: in, ContractCode: m.code(st.Prog)})
	default:
		if st.Kind == "query" {
			in.CallerAddr, in.GasProvided, in.GasPrice, in.CallValue = st.To, math.MaxUint64, 0, new(big.Int)
		}
		if a := h.get(st.To); a == nil || len(a.Code) == 0 {
			return nil, errors.New("no contract")
		}
		out, err = m.vm.RunSmartContractCall(&vmcommon.ContractCallInput{VMInput: in, RecipientAddr: st.To, Function: st.Func})
	}
	if err != nil {
		return nil, err
	}
	res = &mRes{code: int(out.ReturnCode), msg: out.ReturnMessage, out: out.ReturnData, refund: out.GasRefund, gas: out.GasRemaining, logs: out.Logs}
	if out.ReturnCode != vmcommon.Ok {
		h.revert(undo)
		m.r.stats.inc("tx_failed")
		return res, nil
	}
	m.r.stats.inc("tx_ok")
	if sender {
		h.edit(from, func(a *Acct) { a.Balance.Sub(a.Balance, value) })
	}
	sum := new(big.Int)
	for _, k := range sortedOutputs(out.OutputAccounts) {
		o := out.OutputAccounts[k]
		h.edit(o.Address, func(a *Acct) {
			if o.BalanceDelta != nil {
				a.Balance.Add(a.Balance, o.BalanceDelta)
				sum.Add(sum, o.BalanceDelta)
			}
			if o.Nonce > a.Nonce {
				a.Nonce = o.Nonce
			}
			if len(o.Code) > 0 {
				a.Code, a.Meta = o.Code, mandosMeta
			}
			if len(a.Owner) == 0 && len(o.CodeDeployerAddress) > 0 {
				a.Owner = o.CodeDeployerAddress
			}
			if len(o.OutputTransfers) > 0 && len(o.OutputTransfers[0].Data) > 0 {
				a.Async = string(o.OutputTransfers[0].Data)
			}
			for _, s := range o.StorageUpdates {
				a.Storage[string(s.Offset)] = append([]byte{}, s.Data...)
			}
		})
	}
	if sender && sum.Cmp(value) != 0 {
		return nil, errors.New("balance deltas do not add up")
	}
	return res, nil
}

func sortedOutputs(m map[string]*vmcommon.OutputAccount) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}
