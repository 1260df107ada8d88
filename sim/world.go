package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"math/big"
	"sort"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	"golang.org/x/crypto/sha3"
)

// Acct is one stored account. It is immutable once stored: every change stores a new one.
type Acct struct {
	Addr    string
	Nonce   uint64
	Balance *big.Int
	Storage map[string][]byte
	Code    []byte
	Meta    []byte
	Owner   []byte
	User    []byte
	Async   string
	Dev     int64 // developer rewards not yet claimed
}

func (a *Acct) copy() *Acct {
	b := *a
	b.Balance = new(big.Int).Set(a.Balance)
	b.Storage = make(map[string][]byte, len(a.Storage))
	for k, v := range a.Storage {
		b.Storage[k] = v
	}
	return &b
}

type journalEntry struct {
	addr string
	old  *Acct
}

// Block is the block information a node gives to the VM.
type Block struct {
	Nonce, Round, Time uint64
	Epoch              uint32
	Seed               []byte
}

// World is the state of one shard and the node services over it: the blockchain hook, the accounts
// adapter of the built-in functions, and the compiled code cache.
type World struct {
	Shard, NShards uint32
	accts          map[string]*Acct
	journal        []journalEntry
	edits          uint64 // all entries ever made in the journal
	Cur, Last      Block
	compiled       map[string][]byte
	builtins       vmcommon.BuiltInFunctionContainer
	factory        interface {
		GasScheduleChange(map[string]map[string]uint64)
	}
	gas    map[string]map[string]uint64
	fault  *HookFaults
	payAll bool
	onCall func(name string)
	epochs Epochs
	noSave bool // the compiled code cache does not keep what is saved
}

// HookFaults makes calls of the node services fail.
type HookFaults struct {
	Plan  map[string]int // service -> the n-th call from now fails
	Fired map[string]int
	Seen  map[string]int
}

var errInjected = errors.New("injected node failure")
var errInjectedPanic = errors.New("injected node panic")

func (w *World) faulty(name string) bool {
	if w.onCall != nil {
		w.onCall(name)
	}
	f := w.fault
	if f == nil {
		return false
	}
	f.Seen[name]++
	if n, ok := f.Plan[name]; ok && n > 0 {
		n--
		f.Plan[name] = n
		if n == 0 {
			f.Fired[name]++
			return true
		}
	}
	p := "panic:" + name
	if n, ok := f.Plan[p]; ok && n > 0 {
		n--
		f.Plan[p] = n
		if n == 0 {
			f.Fired[p]++
			panic(errInjectedPanic)
		}
	}
	return false
}

// features says which of the protocol features are active in the current block.
func (w *World) features() (aot, lock, esdt bool) {
	e := w.Cur.Epoch
	return e >= w.epochs.AoT, e >= w.epochs.Lock, e >= w.epochs.ESDT
}

func (w *World) v3() bool { return w.Cur.Epoch >= w.epochs.V3 }

// params are those of a VM over this world.
func (w *World) params(gas sched) arwen.VMHostParameters {
	return arwen.VMHostParameters{
		VMType: vmTypeBytes, BlockGasLimit: blockGasLimit, GasSchedule: copySched(gas), BuiltInFuncContainer: w.builtins,
		ElrondProtectedKeyPrefix: []byte(vmcommon.ElrondProtectedKeyPrefix),
		AheadOfTimeEnableEpoch:   w.epochs.AoT, DynGasLockEnableEpoch: w.epochs.Lock, ArwenESDTFunctionsEnableEpoch: w.epochs.ESDT,
		ArwenV3EnableEpoch: w.epochs.V3,
	}
}

func newWorld(shard, n uint32, gas map[string]map[string]uint64) *World {
	w := &World{Shard: shard, NShards: n, accts: map[string]*Acct{}, compiled: map[string][]byte{}, gas: gas}
	w.makeBuiltins()
	return w
}

func (w *World) makeBuiltins() {
	f, err := builtInFunctions.NewBuiltInFunctionsFactory(builtInFunctions.ArgsCreateBuiltInFunctionContainer{
		GasMap:               w.gas,
		MapDNSAddresses:      map[string]struct{}{},
		EnableUserNameChange: false,
		Marshalizer:          marsh{},
		Accounts:             adapter{w},
		ShardCoordinator:     coord{w},
		EpochNotifier:        epochs{},
	})
	must(err)
	c, err := f.CreateBuiltInFunctionContainer()
	must(err)
	must(builtInFunctions.SetPayableHandler(c, w))
	w.builtins, w.factory = c, f
}

// clone copies the state; the copy has its own built-in functions and no compiled code.
func (w *World) clone() *World {
	c := &World{Shard: w.Shard, NShards: w.NShards, accts: make(map[string]*Acct, len(w.accts)), Cur: w.Cur, Last: w.Last,
		compiled: map[string][]byte{}, gas: w.gas, epochs: w.epochs}
	for k, v := range w.accts {
		c.accts[k] = v
	}
	c.makeBuiltins()
	return c
}

// setState makes this world's accounts those of o.
func (w *World) setState(o *World) {
	w.accts = make(map[string]*Acct, len(o.accts))
	for k, v := range o.accts {
		w.accts[k] = v
	}
	w.journal = nil
	w.Cur, w.Last = o.Cur, o.Last
}

func (w *World) changeGas(gas map[string]map[string]uint64) {
	w.gas = gas
	w.factory.GasScheduleChange(gas)
}

func (w *World) put(a *Acct) {
	w.edits++
	w.journal = append(w.journal, journalEntry{a.Addr, w.accts[a.Addr]})
	w.accts[a.Addr] = a
}

func (w *World) get(addr []byte) *Acct { return w.accts[string(addr)] }

// edit stores a changed copy of an account, which is created if missing.
func (w *World) edit(addr []byte, f func(a *Acct)) {
	var a *Acct
	if o := w.accts[string(addr)]; o != nil {
		a = o.copy()
	} else {
		a = &Acct{Addr: string(addr), Balance: new(big.Int), Storage: map[string][]byte{}}
	}
	f(a)
	w.put(a)
}

func (w *World) revert(n int) {
	for len(w.journal) > n {
		e := w.journal[len(w.journal)-1]
		w.journal = w.journal[:len(w.journal)-1]
		if e.old == nil {
			delete(w.accts, e.addr)
		} else {
			w.accts[e.addr] = e.old
		}
	}
}

func (w *World) commit() { w.journal = nil }

func shardOf(addr []byte, n uint32) uint32 {
	if len(addr) == 0 {
		return 0
	}
	return uint32(addr[len(addr)-1]) % n
}

// --- the blockchain hook

var _ vmcommon.BlockchainHook = (*World)(nil)

func (w *World) NewAddress(creator []byte, nonce uint64, vmType []byte) ([]byte, error) {
	if w.faulty("NewAddress") {
		return nil, errInjected
	}
	if len(creator) < 2 {
		return nil, errors.New("bad creator")
	}
	return deriveAddress(creator, nonce, vmType), nil
}

func deriveAddress(creator []byte, nonce uint64, vmType []byte) []byte {
	b := append([]byte{}, creator...)
	for i := 0; i < 8; i++ {
		b = append(b, byte(nonce>>(8*uint(i))))
	}
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	d := h.Sum(nil)
	a := make([]byte, 8)
	a = append(a, vmType...)
	a = append(a, d[10:30]...)
	return append(a, creator[len(creator)-2:]...)
}

func (w *World) GetStorageData(addr []byte, key []byte) ([]byte, error) {
	if w.faulty("GetStorageData") {
		return nil, errInjected
	}
	a := w.get(addr)
	if a == nil {
		return []byte{}, nil
	}
	return append([]byte(nil), a.Storage[string(key)]...), nil
}

func (w *World) GetBlockhash(nonce uint64) ([]byte, error) {
	if w.faulty("GetBlockhash") {
		return nil, errInjected
	}
	if nonce > w.Cur.Nonce {
		return nil, errors.New("block in the future")
	}
	h := sha3.Sum256(append([]byte("block"), byte(nonce), byte(nonce>>8), byte(w.Shard)))
	return h[:], nil
}

func (w *World) LastNonce() uint64         { w.faulty("block"); return w.Last.Nonce }
func (w *World) LastRound() uint64         { w.faulty("block"); return w.Last.Round }
func (w *World) LastTimeStamp() uint64     { w.faulty("block"); return w.Last.Time }
func (w *World) LastRandomSeed() []byte    { w.faulty("block"); return w.Last.Seed }
func (w *World) LastEpoch() uint32         { w.faulty("block"); return w.Last.Epoch }
func (w *World) CurrentNonce() uint64      { w.faulty("block"); return w.Cur.Nonce }
func (w *World) CurrentRound() uint64      { w.faulty("block"); return w.Cur.Round }
func (w *World) CurrentTimeStamp() uint64  { w.faulty("block"); return w.Cur.Time }
func (w *World) CurrentRandomSeed() []byte { w.faulty("block"); return w.Cur.Seed }
func (w *World) CurrentEpoch() uint32      { return w.Cur.Epoch }
func (w *World) GetStateRootHash() []byte {
	w.faulty("block")
	h := sha3.Sum256([]byte{byte(w.Shard), byte(w.Cur.Nonce)})
	return h[:]
}

func (w *World) GetBuiltinFunctionNames() vmcommon.FunctionNames { return w.builtins.Keys() }

func (w *World) GetAllState(addr []byte) (map[string][]byte, error) {
	if w.faulty("GetAllState") {
		return nil, errInjected
	}
	a := w.get(addr)
	if a == nil {
		return map[string][]byte{}, nil
	}
	return a.copy().Storage, nil
}

var errNoAccount = errors.New("account was not found")

func (w *World) GetUserAccount(addr []byte) (vmcommon.UserAccountHandler, error) {
	if w.faulty("GetUserAccount") {
		return nil, errInjected
	}
	a := w.get(addr)
	if a == nil {
		return nil, errNoAccount
	}
	return &userAcct{a.copy()}, nil
}

func (w *World) GetCode(u vmcommon.UserAccountHandler) []byte {
	if w.faulty("GetCode") {
		return nil
	}
	if x, ok := u.(*userAcct); ok && x != nil {
		return x.a.Code
	}
	if u != nil && !u.IsInterfaceNil() {
		if a := w.get(u.AddressBytes()); a != nil {
			return a.Code
		}
	}
	return nil
}

func (w *World) GetShardOfAddress(addr []byte) uint32 { return shardOf(addr, w.NShards) }

func isSC(addr []byte) bool {
	return len(addr) >= 10 && bytes.Equal(addr[:8], make([]byte, 8)) && !bytes.Equal(addr, make([]byte, len(addr)))
}

func (w *World) IsSmartContract(addr []byte) bool { return vmcommon.IsSmartContractAddress(addr) }

func (w *World) IsPayable(addr []byte) (bool, error) {
	if w.faulty("IsPayable") {
		return false, errInjected
	}
	if vmcommon.IsSystemAccountAddress(addr) {
		return false, nil
	}
	if w.payAll || !w.IsSmartContract(addr) || shardOf(addr, w.NShards) != w.Shard {
		return true, nil
	}
	a := w.get(addr)
	if a == nil {
		return false, nil
	}
	return vmcommon.CodeMetadataFromBytes(a.Meta).Payable, nil
}

func (w *World) SaveCompiledCode(hash []byte, code []byte) {
	if w.faulty("SaveCompiledCode") || w.noSave {
		return
	}
	w.compiled[string(hash)] = append([]byte(nil), code...)
}

func (w *World) GetCompiledCode(hash []byte) (bool, []byte) {
	if w.faulty("GetCompiledCode") {
		return false, nil
	}
	c, ok := w.compiled[string(hash)]
	return ok, c
}

func (w *World) ClearCompiledCodes() { w.compiled = map[string][]byte{} }

func esdtKey(token []byte, nonce uint64) string {
	k := vmcommon.ElrondProtectedKeyPrefix + vmcommon.ESDTKeyIdentifier + string(token)
	if nonce > 0 {
		k += string(new(big.Int).SetUint64(nonce).Bytes())
	}
	return k
}

func (w *World) GetESDTToken(addr []byte, token []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	if w.faulty("GetESDTToken") {
		return nil, errInjected
	}
	a := w.get(addr)
	d := &esdt.ESDigitalToken{Value: new(big.Int), Type: uint32(vmcommon.Fungible)}
	if a == nil {
		return d, nil
	}
	raw := a.Storage[esdtKey(token, nonce)]
	if len(raw) == 0 {
		return d, nil
	}
	if err := (marsh{}).Unmarshal(d, raw); err != nil {
		return nil, err
	}
	return d, nil
}

func (w *World) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	if w.faulty("ProcessBuiltInFunction") {
		return nil, errInjected
	}
	if in == nil {
		return nil, errors.New("nil input")
	}
	f, err := w.builtins.Get(in.Function)
	if err != nil {
		return nil, err
	}
	var snd, dst *userAcct
	var s, d vmcommon.UserAccountHandler
	if shardOf(in.CallerAddr, w.NShards) == w.Shard {
		snd = w.load(in.CallerAddr)
		s = snd
	}
	if bytes.Equal(in.CallerAddr, in.RecipientAddr) {
		dst, d = snd, s
	} else if shardOf(in.RecipientAddr, w.NShards) == w.Shard {
		dst = w.load(in.RecipientAddr)
		d = dst
	}
	var had map[string]*big.Int
	if supplyFuncs[in.Function] && snd != nil && snd == dst {
		had = tokensOf(snd.a)
	}
	out, err := f.ProcessBuiltinFunction(s, d, in)
	if err != nil {
		return nil, err
	}
	if snd != nil {
		w.put(snd.a)
	}
	if dst != nil && dst != snd {
		w.put(dst.a)
	}
	if had != nil {
		w.supply(had, tokensOf(snd.a))
	}
	return out, nil
}

// supplyFuncs are the protocol functions that create and destroy tokens.
var supplyFuncs = map[string]bool{"ESDTLocalMint": true, "ESDTLocalBurn": true, "ESDTNFTCreate": true, "ESDTNFTAddQuantity": true, "ESDTNFTBurn": true}

// supplyAcct is not an account: its storage holds how much has been created of each token, and comes back with every revert.
const supplyAcct = "supply"

func tokensOf(a *Acct) map[string]*big.Int {
	t := map[string]*big.Int{}
	for k, v := range a.Storage {
		if strings.HasPrefix(k, tokenPrefix) {
			t[k[len(tokenPrefix):]] = tokenValue(v)
		}
	}
	return t
}

func (w *World) supply(before, after map[string]*big.Int) {
	w.edit([]byte(supplyAcct), func(a *Acct) {
		add := func(t map[string]*big.Int, sign int64) {
			for k, v := range t {
				if v.Sign() == 0 {
					continue
				}
				n := supplyOf(a, k)
				n.Add(n, new(big.Int).Mul(v, big.NewInt(sign)))
				a.Storage[k] = []byte(n.String())
			}
		}
		add(after, 1)
		add(before, -1)
	})
}

func supplyOf(a *Acct, token string) *big.Int {
	n := new(big.Int)
	if s := a.Storage[token]; len(s) > 0 {
		n.SetString(string(s), 10)
	}
	return n
}

func (w *World) GetSnapshot() int {
	w.faulty("GetSnapshot")
	return len(w.journal)
}

func (w *World) RevertToSnapshot(n int) error {
	if w.faulty("RevertToSnapshot") {
		return errInjected
	}
	if n < 0 || n > len(w.journal) {
		return errors.New("no such snapshot")
	}
	w.revert(n)
	return nil
}

func (w *World) IsInterfaceNil() bool { return w == nil }

func (w *World) load(addr []byte) *userAcct {
	if a := w.get(addr); a != nil {
		return &userAcct{a.copy()}
	}
	return &userAcct{&Acct{Addr: string(addr), Balance: new(big.Int), Storage: map[string][]byte{}}}
}

// --- accounts as the built-in functions and the VM see them

type userAcct struct{ a *Acct }

func (u *userAcct) GetCodeMetadata() []byte { return u.a.Meta }
func (u *userAcct) GetCodeHash() []byte {
	if len(u.a.Code) == 0 {
		return nil
	}
	h := sha3.Sum256(u.a.Code)
	return h[:]
}
func (u *userAcct) GetRootHash() []byte                             { return nil }
func (u *userAcct) AccountDataHandler() vmcommon.AccountDataHandler { return u }
func (u *userAcct) AddToBalance(v *big.Int) error {
	n := new(big.Int).Add(u.a.Balance, v)
	if n.Sign() < 0 {
		return errors.New("insufficient funds")
	}
	u.a.Balance = n
	return nil
}
func (u *userAcct) GetBalance() *big.Int { return new(big.Int).Set(u.a.Balance) }
func (u *userAcct) ClaimDeveloperRewards([]byte) (*big.Int, error) {
	v := big.NewInt(u.a.Dev)
	u.a.Dev = 0
	return v, nil
}
func (u *userAcct) GetDeveloperReward() *big.Int { return big.NewInt(u.a.Dev) }
func (u *userAcct) ChangeOwnerAddress(sender []byte, n []byte) error {
	if !bytes.Equal(sender, u.a.Owner) {
		return errors.New("operation in account not permitted")
	}
	if len(n) != 32 {
		return errors.New("invalid address length")
	}
	u.a.Owner = append([]byte(nil), n...)
	return nil
}
func (u *userAcct) SetOwnerAddress(o []byte) { u.a.Owner = o }
func (u *userAcct) GetOwnerAddress() []byte  { return u.a.Owner }
func (u *userAcct) SetUserName(n []byte)     {}
func (u *userAcct) GetUserName() []byte      { return nil }
func (u *userAcct) AddressBytes() []byte     { return []byte(u.a.Addr) }
func (u *userAcct) IncreaseNonce(n uint64)   { u.a.Nonce += n }
func (u *userAcct) GetNonce() uint64         { return u.a.Nonce }
func (u *userAcct) IsInterfaceNil() bool     { return u == nil }
func (u *userAcct) RetrieveValue(key []byte) ([]byte, error) {
	return append([]byte(nil), u.a.Storage[string(key)]...), nil
}
func (u *userAcct) SaveKeyValue(key []byte, value []byte) error {
	if len(value) == 0 {
		delete(u.a.Storage, string(key))
		return nil
	}
	u.a.Storage[string(key)] = append([]byte(nil), value...)
	return nil
}

type adapter struct{ w *World }

func (x adapter) GetExistingAccount(addr []byte) (vmcommon.AccountHandler, error) {
	if x.w.get(addr) == nil {
		return nil, errNoAccount
	}
	return x.w.load(addr), nil
}
func (x adapter) LoadAccount(addr []byte) (vmcommon.AccountHandler, error) {
	return x.w.load(addr), nil
}
func (x adapter) SaveAccount(a vmcommon.AccountHandler) error {
	if u, ok := a.(*userAcct); ok && u != nil {
		x.w.put(u.a.copy())
	}
	return nil
}
func (x adapter) RemoveAccount(addr []byte) error {
	x.w.edits++
	x.w.journal = append(x.w.journal, journalEntry{string(addr), x.w.get(addr)})
	delete(x.w.accts, string(addr))
	return nil
}
func (x adapter) Commit() ([]byte, error)      { return nil, nil }
func (x adapter) JournalLen() int              { return len(x.w.journal) }
func (x adapter) RevertToSnapshot(n int) error { x.w.revert(n); return nil }
func (x adapter) GetNumCheckpoints() uint32    { return 0 }
func (x adapter) GetCode(h []byte) []byte      { return nil }
func (x adapter) RootHash() ([]byte, error)    { return nil, nil }
func (x adapter) RecreateTrie(h []byte) error  { return nil }
func (x adapter) IsInterfaceNil() bool         { return x.w == nil }

type coord struct{ w *World }

func (c coord) NumberOfShards() uint32                  { return c.w.NShards }
func (c coord) ComputeId(a []byte) uint32               { return shardOf(a, c.w.NShards) }
func (c coord) SelfId() uint32                          { return c.w.Shard }
func (c coord) SameShard(a, b []byte) bool              { return shardOf(a, c.w.NShards) == shardOf(b, c.w.NShards) }
func (c coord) CommunicationIdentifier(d uint32) string { return "" }
func (c coord) IsInterfaceNil() bool                    { return c.w == nil }

type epochs struct{}

func (epochs) RegisterNotifyHandler(h vmcommon.EpochSubscriberHandler) { h.EpochConfirmed(0, 0) }
func (epochs) IsInterfaceNil() bool                                    { return false }

type marsh struct{}

func (marsh) Marshal(o interface{}) ([]byte, error) {
	m, ok := o.(interface{ Marshal() ([]byte, error) })
	if !ok {
		return nil, errors.New("cannot marshal")
	}
	return m.Marshal()
}
func (marsh) Unmarshal(o interface{}, b []byte) error {
	m, ok := o.(interface {
		Reset()
		Unmarshal([]byte) error
	})
	if !ok {
		return errors.New("cannot unmarshal")
	}
	m.Reset()
	return m.Unmarshal(b)
}
func (marsh) IsInterfaceNil() bool { return false }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func sortedKeys(m map[string]*Acct) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func hexs(b []byte) string { return hex.EncodeToString(b) }
