package main

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/factory"
	twos "github.com/ElrondNetwork/big-int-util/twos-complement"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// --- what the contract-visible API must do

type bigs struct{ v map[int32]*big.Int }

func newBigs() *bigs { return &bigs{map[int32]*big.Int{}} }

func (b *bigs) clone() *bigs {
	c := newBigs()
	for k, v := range b.v {
		c.v[k] = new(big.Int).Set(v)
	}
	return c
}

func (b *bigs) get(h int32) *big.Int {
	v := b.v[h]
	if v == nil {
		v = new(big.Int)
		b.v[h] = v
	}
	return v
}

func (b *bigs) put(x int64) int32 {
	h := int32(len(b.v))
	for b.v[h] != nil {
		h++
	}
	b.v[h] = big.NewInt(x)
	return h
}

var cryptoVM = factory.NewVMCrypto()

type apiStop struct{ err error } // the call fails the execution

type memWrite struct {
	off  int
	data []byte
}

// apiCall is one call of an API function.
type apiCall struct {
	m      *Model
	f      *mFrame
	e      *Ev
	writes []memWrite
	size   int // bytes of memory
	res    int64
	noRes  bool
}

// props of an API function: what a deviation in it breaks.
func apiProps(n string) string {
	switch n {
	case "storageStore", "storageLoad", "storageLoadLength", "storageLoadFromAddress", "setStorageLock", "getStorageLock",
		"isStorageLocked", "clearStorageLock", "int64storageStore", "int64storageLoad", "smallIntStorageStoreSigned",
		"smallIntStorageStoreUnsigned", "smallIntStorageLoadSigned", "smallIntStorageLoadUnsigned",
		"bigIntStorageLoadUnsigned", "bigIntStorageStoreUnsigned", "getCurrentESDTNFTNonce":
		return "C06"
	case "transferValue", "transferValueExecute", "transferESDT", "transferESDTExecute", "transferESDTNFTExecute",
		"getExternalBalance", "bigIntGetExternalBalance", "getESDTBalance", "bigIntGetESDTExternalBalance",
		"getESDTTokenData", "getESDTNFTNameLength", "getESDTNFTAttributeLength", "getESDTNFTURILength":
		return "C03"
	case "finish", "writeLog", "writeEventLog", "getNumReturnData", "getReturnData", "getReturnDataSize",
		"int64finish", "smallIntFinishSigned", "smallIntFinishUnsigned", "bigIntFinishSigned", "bigIntFinishUnsigned", "signalError":
		return "C13"
	case "createContract", "deployFromSourceContract", "upgradeContract", "upgradeFromSourceContract":
		return "C09"
	case "asyncCall":
		return "C08"
	case "getGasLeft":
		return "C02"
	case "getCaller":
		return "C10 C12"
	case "getBlockHash", "getBlockTimestamp", "getBlockNonce", "getBlockRound", "getBlockEpoch", "getBlockRandomSeed",
		"getStateRootHash", "getPrevBlockTimestamp", "getPrevBlockNonce", "getPrevBlockRound", "getPrevBlockEpoch",
		"getPrevBlockRandomSeed", "sha256", "keccak256", "ripemd160", "verifyBLS", "verifyEd25519", "verifySecp256k1",
		"getShardOfAddress", "isSmartContract":
		return "C04"
	}
	return "C10"
}

func (c *apiCall) i(k int) int32 {
	if k < len(c.e.Args) {
		return int32(c.e.Args[k])
	}
	return 0
}

func (c *apiCall) l(k int) int64 {
	if k < len(c.e.Args) {
		return c.e.Args[k]
	}
	return 0
}

func (c *apiCall) stop(err error) { panic(apiStop{err}) }
func (c *apiCall) check(err error) {
	if err != nil {
		c.stop(err)
	}
}
func (c *apiCall) useE(n string)        { c.f.use(c.m.E(n)) }
func (c *apiCall) useBig(n string)      { c.f.use(c.m.cost("BigIntAPICost", n)) }
func (c *apiCall) copyGas(n int)        { c.f.use(satMul(c.m.B("DataCopyPerByte"), uint64(n))) }
func (c *apiCall) persistGas(n int)     { c.f.use(satMul(c.m.B("PersistPerByte"), uint64(n))) }
func (c *apiCall) rawGas(n int32) int   { return int(n) }
func satLen(per uint64, n int32) uint64 { return satMul(per, uint64(n)) }

// read returns memory as the contract sees it now.
func (c *apiCall) read(off, n int) []byte {
	b := memRead(c.e.Mem, off, n)
	for _, w := range c.writes {
		for k, x := range w.data {
			if p := w.off + k - off; p >= 0 && p < n {
				b[p] = x
			}
		}
	}
	return b
}

func (c *apiCall) load(off, n int32) []byte {
	if n == 0 {
		return []byte{}
	}
	if off < 0 || int(off) > c.size {
		c.stop(fmt.Errorf("mem load: %w", arwen.ErrBadBounds))
	}
	if n < 0 {
		c.stop(fmt.Errorf("mem load: %w", arwen.ErrNegativeLength))
	}
	if int(n) > c.size {
		c.stop(fmt.Errorf("mem load: %w", arwen.ErrBadUpperBounds))
	}
	if n > 1<<22 {
		c.m.giveUp("huge memory read")
	}
	return c.read(int(off), int(n))
}

func (c *apiCall) store(off int32, b []byte) {
	if len(b) == 0 {
		return
	}
	if off < 0 {
		c.stop(arwen.ErrBadLowerBounds)
	}
	if int(off)+len(b) > c.size {
		if !c.canGrow() {
			c.stop(wildErr{errors.New("cannot grow")})
		}
		c.size += pageSize
	}
	if int(off)+len(b) > c.size {
		c.stop(arwen.ErrBadUpperBounds)
	}
	c.writes = append(c.writes, memWrite{int(off), append([]byte{}, b...)})
}

func (c *apiCall) canGrow() bool {
	pages := c.size / pageSize
	if c.f.info.maxPages > 0 && pages+1 > c.f.info.maxPages {
		return false
	}
	return pages < 65535
}

func (c *apiCall) args(num, lensOff, dataOff int32) ([][]byte, int32, error) {
	var out [][]byte
	total := int32(0)
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				s, ok := r.(apiStop)
				if !ok {
					panic(r)
				}
				err = s.err
			}
		}()
		if num < 0 {
			c.stop(fmt.Errorf("negative numArguments (%d)", num))
		}
		if int64(num)*4 > int64(c.size) {
			c.stop(wildErr{errors.New("too many arguments")})
		}
		lens := c.load(lensOff, num*4)
		for k := 0; k < int(num); k++ {
			n := int32(binary.LittleEndian.Uint32(lens[4*k:]))
			out = append(out, c.load(dataOff, n))
			dataOff += n
			total += n
		}
	}()
	if err != nil {
		return nil, 0, err
	}
	if out == nil {
		out = [][]byte{}
	}
	return out, total, nil
}

// imported follows one API call: it works out the outcome and compares it with what happened.
func (m *Model) imported(f *mFrame, e *Ev) {
	c := &apiCall{m: m, f: f, e: e, size: memLen(e.Mem)}
	m.stats.inc("api_calls")
	m.stats.api(e.Name)
	if e.Points < f.points {
		m.fail("C02", "the points used went back from %d to %d", f.points, e.Points)
	}
	f.points = e.Points
	if e.Mem == 0 {
		m.giveUp("memory too large to record")
	}
	props := apiProps(e.Name)
	func() {
		defer func() {
			if r := recover(); r != nil {
				s, ok := r.(apiStop)
				if !ok {
					panic(r)
				}
				m.stats.inc("api_faults")
				m.out.code, m.out.msg = vmcommon.ExecutionFailed, s.err.Error()
				f.brk = 1
				f.use(f.left())
				c.noRes = true
			}
		}()
		if _, ok := apiSigs[e.Name]; !ok {
			m.giveUp("unknown API function " + e.Name)
		}
		c.do()
	}()
	if f.brk != 0 {
		c.noRes = true
	}
	x := m.next()
	if x == nil {
		m.fail("C05 "+props, "the call of %s never returned", e.Name)
	}
	if x.Kind != evImportEnd || x.Inst != f.inst || x.Name != e.Name {
		m.fail(props+" C10 C12", "during the call of %s there was an unexpected %s", e.Name, evText(x))
	}
	what := fmt.Sprintf("%s%v", e.Name, e.Args)
	want, wrong := f.points, over(x.Points, f) != over(f.points, f)
	if wrong { // a wrong result is the better explanation
		props += " C02"
	}
	f.points = x.Points
	if x.Brk != f.brk {
		m.fail(props+" C05", "%s ended with breakpoint %d instead of %d", what, x.Brk, f.brk)
	}
	if !c.noRes && apiSigs[e.Name][1] != "" {
		got := x.Result
		if apiSigs[e.Name][1] == "i" {
			got = int64(int32(got))
		}
		if got != c.res {
			m.fail(props, "%s returned %d instead of %d", what, got, c.res)
		}
	}
	if !wrong || x.Mem != 0 {
		c.compareMemory(x, props, what)
	}
	if wrong {
		m.fail("C02", "%s: %d points used after it instead of %d", what, x.Points, want)
	}
}

// over hides how far beyond the limit the points are.
func over(p uint64, f *mFrame) uint64 {
	if p > f.gasFor {
		return math.MaxUint64
	}
	return p
}

func (c *apiCall) compareMemory(x *Ev, props, what string) {
	if x.Mem == 0 {
		c.m.giveUp("memory not recorded")
	}
	if memLen(x.Mem) != c.size {
		c.m.fail(props+" C10", "%s: the memory has %d bytes instead of %d", what, memLen(x.Mem), c.size)
	}
	touched := map[int]bool{}
	for _, w := range c.writes {
		for p := w.off / pageSize; p <= (w.off+len(w.data)-1)/pageSize; p++ {
			touched[p] = true
		}
	}
	before := memLen(c.e.Mem) / pageSize
	for p := 0; p < c.size/pageSize; p++ {
		id, b := memPage(x.Mem, p)
		if !touched[p] {
			if p < before {
				if old, _ := memPage(c.e.Mem, p); old == id {
					continue
				}
			}
		}
		want := c.read(p*pageSize, pageSize)
		for k := range want {
			if want[k] != b[k] {
				n := k + 40
				if n > pageSize {
					n = pageSize
				}
				c.m.fail(props, "%s: memory at %d holds %s instead of %s", what, p*pageSize+k, hexs(b[k:n]), hexs(want[k:n]))
			}
		}
	}
}

func boolInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func pad32(b []byte) []byte {
	if len(b) == 0 || len(b) >= 32 {
		return b
	}
	return append(make([]byte, 32-len(b)), b...)
}

func (c *apiCall) esdt() vmcommon.ESDTTransfer {
	if t := c.f.in.ESDTTransfers; len(t) > 0 {
		return *t[0]
	}
	return vmcommon.ESDTTransfer{ESDTValue: new(big.Int)}
}

func (c *apiCall) token(k int) *esdt.ESDigitalToken {
	c.useE("GetExternalBalance")
	addr := c.load(c.i(k), 32)
	tok := c.load(c.i(k+1), c.i(k+2))
	d, err := c.m.w.GetESDTToken(addr, tok, uint64(c.l(k+3)))
	c.check(err)
	return d
}

func (c *apiCall) do() {
	m, f := c.m, c.f
	E := c.useE
	blk := func(name string, v uint64) { E(name); c.res = int64(v) }
	switch c.e.Name {
	case "getGasLeft":
		E("GetGasLeft")
		c.res = int64(f.left())
	case "getSCAddress":
		E("GetSCAddress")
		c.store(c.i(0), f.addr)
	case "getOwnerAddress":
		E("GetOwnerAddress")
		a := m.w.get(f.addr)
		if a == nil {
			c.stop(errNoAccount)
		}
		c.store(c.i(0), a.Owner)
	case "getShardOfAddress":
		E("GetShardOfAddress")
		c.res = int64(int32(shardOf(c.load(c.i(0), 32), m.w.NShards)))
	case "isSmartContract":
		E("IsSmartContract")
		c.res = boolInt(m.w.IsSmartContract(c.load(c.i(0), 32)))
	case "signalError":
		E("SignalError")
		msg := c.load(c.i(0), c.i(1))
		m.out.code, m.out.msg = vmcommon.UserError, string(msg)
		f.brk = 3
	case "getExternalBalance":
		E("GetExternalBalance")
		c.store(c.i(1), m.balance(c.load(c.i(0), 32)).Bytes())
	case "getBlockHash":
		E("GetBlockHash")
		if n := c.l(0); n >= 0 {
			h, err := m.w.GetBlockhash(uint64(n))
			if err == nil {
				c.store(c.i(1), h)
			}
		}
	case "getESDTBalance":
		b := c.token(0).Value.Bytes()
		c.store(c.i(4), b)
		c.res = int64(len(b))
	case "getESDTNFTNameLength":
		if t := c.token(0); t.TokenMetaData != nil {
			c.res = int64(len(t.TokenMetaData.Name))
		}
	case "getESDTNFTAttributeLength":
		if t := c.token(0); t.TokenMetaData != nil {
			c.res = int64(len(t.TokenMetaData.Attributes))
		}
	case "getESDTNFTURILength":
		if t := c.token(0); t.TokenMetaData != nil && len(t.TokenMetaData.URIs) > 0 {
			c.res = int64(len(t.TokenMetaData.URIs[0]))
		}
	case "getESDTTokenData":
		t := c.token(0)
		f.bigs.get(c.i(4)).Set(t.Value)
		c.store(c.i(5), t.Properties)
		if d := t.TokenMetaData; d != nil {
			c.store(c.i(6), d.Hash)
			c.store(c.i(7), d.Name)
			c.store(c.i(8), d.Attributes)
			c.store(c.i(9), d.Creator)
			f.bigs.get(c.i(10)).SetUint64(uint64(d.Royalties))
			if len(d.URIs) > 0 {
				c.store(c.i(11), d.URIs[0])
			}
		}
		c.res = int64(len(t.Value.Bytes()))
	case "transferValue":
		E("TransferValue")
		dest := c.load(c.i(0), 32)
		value := new(big.Int).SetBytes(c.load(c.i(1), 32))
		f.use(satLen(m.B("PersistPerByte"), c.i(3)))
		data := c.load(c.i(2), c.i(3))
		fn, _, _ := parseCall(string(data))
		if m.isBuiltin(fn) {
			c.res = 1
			return
		}
		c.check(m.transfer(f, dest, 0, 0, value, data, vmcommon.DirectCall))
		m.stats.inc("value_transfers")
	case "transferValueExecute":
		E("TransferValue")
		q := c.indirect(0, 1, 3)
		E("TransferValue")
		in := c.callInput(f.addr, q, c.l(2))
		if m.isBuiltin(in.Function) {
			c.res = 1
			return
		}
		if m.sameShard(f.addr, q.dest) && m.w.IsSmartContract(q.dest) {
			if _, err := m.onDest(in); err != nil {
				c.res = 1
			}
			return
		}
		limit := uint64(c.l(2))
		f.use(limit)
		c.check(m.transfer(f, q.dest, limit, 0, q.value, encodeCall(in.Function, in.Arguments), vmcommon.DirectCall))
		m.stats.inc("value_transfers")
	case "transferESDT":
		E("TransferValue")
		f.use(satLen(m.B("PersistPerByte"), c.i(6)))
		c.res = 1
	case "transferESDTExecute":
		c.transferESDT(0, 0, 4)
	case "transferESDTNFTExecute":
		c.transferESDT(uint64(c.l(4)), c.l(4), 5)
	case "asyncCall":
		E("AsyncCallStep")
		dest := c.load(c.i(0), 32)
		value := c.load(c.i(1), 32)
		f.use(satLen(m.B("DataCopyPerByte"), c.i(3)))
		data := c.load(c.i(2), c.i(3))
		if err := m.asyncCall(f, dest, data, value); err != nil {
			f.brk = 4
		}
	case "upgradeContract":
		E("CreateContract")
		value := c.load(c.i(2), 32)
		code := c.load(c.i(3), c.i(5))
		meta := c.load(c.i(4), 2)
		args, n, err := c.args(c.i(6), c.i(7), c.i(8))
		f.use(satLen(m.B("DataCopyPerByte"), n))
		c.check(err)
		dest := c.load(c.i(0), 32)
		f.use(satLen(m.B("DataCopyPerByte"), c.i(5)))
		c.upgrade(dest, code, meta, value, args, c.l(1))
	case "upgradeFromSourceContract":
		E("CreateContract")
		value := c.load(c.i(2), 32)
		src := c.load(c.i(3), 32)
		meta := c.load(c.i(4), 2)
		args, n, err := c.args(c.i(5), c.i(6), c.i(7))
		f.use(satLen(m.B("DataCopyPerByte"), n))
		c.check(err)
		dest := c.load(c.i(0), 32)
		code, err := m.getCode(src)
		c.check(err)
		c.upgrade(dest, code, meta, value, args, c.l(1))
	case "createContract":
		E("CreateContract")
		value := c.load(c.i(1), 32)
		code := c.load(c.i(2), c.i(4))
		meta := c.load(c.i(3), 2)
		args, n, err := c.args(c.i(6), c.i(7), c.i(8))
		f.use(satLen(m.B("DataCopyPerByte"), n))
		c.check(err)
		c.create(value, code, meta, args, c.l(0), c.i(5))
	case "deployFromSourceContract":
		E("CreateContract")
		value := c.load(c.i(1), 32)
		src := c.load(c.i(2), 32)
		meta := c.load(c.i(3), 2)
		args, n, err := c.args(c.i(5), c.i(6), c.i(7))
		f.use(satLen(m.B("DataCopyPerByte"), n))
		c.check(err)
		code, err := m.getCode(src)
		c.check(err)
		c.create(value, code, meta, args, c.l(0), c.i(4))
	case "executeOnDestContext", "executeOnDestContextByCaller":
		q := c.indirect(1, 2, 3)
		E("ExecuteOnDestContext")
		sender := f.addr
		byCaller := c.e.Name == "executeOnDestContextByCaller"
		if byCaller {
			sender = f.in.CallerAddr
		}
		c.sameShardOnly(q.dest)
		in := c.callInput(sender, q, c.l(0))
		if byCaller && (m.builtinText(in.Function) || in.Function == arwen.UpgradeFunctionName) {
			c.res = 1
			return
		}
		_, err := m.onDest(in)
		c.check(err)
	case "executeOnSameContext":
		q := c.indirect(1, 2, 3)
		E("ExecuteOnSameContext")
		c.sameShardOnly(q.dest)
		in := c.callInput(f.addr, q, c.l(0))
		if m.builtinText(in.Function) {
			c.res = 1
			return
		}
		c.check(m.onSame(in, false))
	case "delegateExecution", "executeReadOnly":
		q := c.indirect(1, -1, 2)
		ro := c.e.Name == "executeReadOnly"
		if ro {
			E("ExecuteReadOnly")
			q.value = new(big.Int)
		} else {
			E("DelegateExecution")
			q.value = f.in.CallValue
		}
		c.sameShardOnly(q.dest)
		in := c.callInput(f.addr, q, c.l(0))
		if m.builtinText(in.Function) {
			c.res = 1
			return
		}
		if ro {
			m.stats.inc("readonly_calls")
		}
		c.check(m.onSame(in, ro))
	case "getArgumentLength":
		E("GetArgument")
		c.res = -1
		if id := c.i(0); id >= 0 && int(id) < len(f.args) {
			c.res = int64(len(f.args[id]))
		}
	case "getArgument":
		E("GetArgument")
		c.res = -1
		if id := c.i(0); id >= 0 && int(id) < len(f.args) {
			c.store(c.i(1), f.args[id])
			c.res = int64(len(f.args[id]))
		}
	case "getFunction":
		E("GetFunction")
		c.store(c.i(0), []byte(f.in.Function))
		c.res = int64(len(f.in.Function))
	case "getNumArguments":
		E("GetNumArguments")
		c.res = int64(len(f.args))
	case "storageStore":
		E("StorageStore")
		key := c.load(c.i(0), c.i(1))
		c.setStorage(key, c.load(c.i(2), c.i(3)), false)
	case "storageLoadLength":
		E("StorageLoad")
		c.res = int64(len(m.readStorage(f.store, c.load(c.i(0), c.i(1)))))
	case "storageLoad":
		E("StorageLoad")
		v := c.getStorage(c.load(c.i(0), c.i(1)))
		c.store(c.i(2), v)
		c.res = int64(len(v))
	case "storageLoadFromAddress":
		E("StorageLoad")
		key := c.load(c.i(1), c.i(2))
		v := c.otherStorage(c.load(c.i(0), 32), key)
		c.store(c.i(3), v)
		c.res = int64(len(v))
	case "getCurrentESDTNFTNonce":
		E("StorageLoad")
		addr, ok := c.tryLoad(c.i(0), 32)
		if !ok {
			return
		}
		tok, ok := c.tryLoad(c.i(1), c.i(2))
		if !ok {
			return
		}
		key := vmcommon.ElrondProtectedKeyPrefix + vmcommon.ESDTNFTLatestNonceIdentifier + string(tok)
		c.res = int64(new(big.Int).SetBytes(c.otherStorage(addr, []byte(key))).Uint64())
	case "setStorageLock":
		c.setLock(c.l(2))
	case "clearStorageLock":
		c.setLock(0)
	case "getStorageLock":
		c.res = c.getLock()
	case "isStorageLocked":
		t := c.getLock()
		if t < 0 {
			c.res = -1
			return
		}
		E("GetBlockTimeStamp")
		c.res = boolInt(t > int64(m.w.Cur.Time))
	case "getCaller":
		E("GetCaller")
		c.store(c.i(0), f.in.CallerAddr)
	case "checkNoPayment":
		E("GetCallValue")
		if f.in.CallValue.Sign() > 0 {
			c.stop(arwen.ErrNonPayableFunctionEgld)
		}
		if len(f.in.ESDTTransfers) > 0 {
			c.stop(arwen.ErrNonPayableFunctionEsdt)
		}
	case "getCallValue":
		E("GetCallValue")
		v := pad32(f.in.CallValue.Bytes())
		c.store(c.i(0), v)
		c.res = int64(len(v))
	case "getESDTValue":
		E("GetCallValue")
		v := pad32(c.esdt().ESDTValue.Bytes())
		c.store(c.i(0), v)
		c.res = int64(len(v))
	case "getESDTTokenName":
		E("GetCallValue")
		v := c.esdt().ESDTTokenName
		c.store(c.i(0), v)
		c.res = int64(len(v))
	case "getESDTTokenNonce":
		blk("GetCallValue", c.esdt().ESDTTokenNonce)
	case "getESDTTokenType":
		E("GetCallValue")
		c.res = int64(int32(c.esdt().ESDTTokenType))
	case "getCallValueTokenName":
		E("GetCallValue")
		v := f.in.CallValue.Bytes()
		t := c.esdt()
		if len(t.ESDTTokenName) > 0 {
			v = t.ESDTValue.Bytes()
		}
		c.store(c.i(1), t.ESDTTokenName)
		c.store(c.i(0), pad32(v))
		c.res = int64(len(t.ESDTTokenName))
	case "writeLog":
		n := c.i(3)
		f.use(satAdd(m.E("Log"), satLen(m.B("PersistPerByte"), n*32+c.i(1))))
		data := c.load(c.i(0), c.i(1))
		if n < 0 {
			c.stop(wildErr{errors.New("negative number of topics")})
		}
		if int64(n)*32 > int64(c.size) {
			c.stop(wildErr{errors.New("too many topics")})
		}
		var topics [][]byte
		for k := int32(0); k < n; k++ {
			topics = append(topics, c.load(c.i(2)+k*32, 32))
		}
		c.log(topics, data)
	case "writeEventLog":
		topics, n, err := c.args(c.i(0), c.i(1), c.i(2))
		c.check(err)
		data := c.load(c.i(3), c.i(4))
		f.use(satAdd(m.E("Log"), satLen(m.B("DataCopyPerByte"), n+c.i(4))))
		c.log(topics, data)
	case "getBlockTimestamp":
		blk("GetBlockTimeStamp", m.w.Cur.Time)
	case "getBlockNonce":
		blk("GetBlockNonce", m.w.Cur.Nonce)
	case "getBlockRound":
		blk("GetBlockRound", m.w.Cur.Round)
	case "getBlockEpoch":
		blk("GetBlockEpoch", uint64(m.w.Cur.Epoch))
	case "getPrevBlockTimestamp":
		blk("GetBlockTimeStamp", m.w.Last.Time)
	case "getPrevBlockNonce":
		blk("GetBlockNonce", m.w.Last.Nonce)
	case "getPrevBlockRound":
		blk("GetBlockRound", m.w.Last.Round)
	case "getPrevBlockEpoch":
		blk("GetBlockEpoch", uint64(m.w.Last.Epoch))
	case "getBlockRandomSeed":
		E("GetBlockRandomSeed")
		c.store(c.i(0), m.w.Cur.Seed)
	case "getPrevBlockRandomSeed":
		E("GetBlockRandomSeed")
		c.store(c.i(0), m.w.Last.Seed)
	case "getStateRootHash":
		E("GetStateRootHash")
		c.store(c.i(0), m.w.GetStateRootHash())
	case "getOriginalTxHash":
		E("GetBlockHash")
		c.store(c.i(0), f.in.OriginalTxHash)
	case "finish":
		E("Finish")
		f.use(satLen(m.B("PersistPerByte"), c.i(1)))
		c.finish(c.load(c.i(0), c.i(1)))
	case "getNumReturnData":
		E("GetNumReturnData")
		c.res = int64(len(m.out.ret))
	case "getReturnDataSize":
		E("GetReturnDataSize")
		if id := c.i(0); id >= 0 && int(id) < len(m.out.ret) {
			c.res = int64(len(m.out.ret[id]))
		}
	case "getReturnData":
		E("GetReturnData")
		if id := c.i(0); id >= 0 && int(id) < len(m.out.ret) {
			c.store(c.i(1), m.out.ret[id])
			c.res = int64(len(m.out.ret[id]))
		}
	case "int64getArgument", "smallIntGetSignedArgument", "smallIntGetUnsignedArgument":
		E("Int64GetArgument")
		id := c.i(0)
		if id < 0 || int(id) >= len(f.args) {
			c.stop(arwen.ErrArgIndexOutOfRange)
		}
		c.res = c.small(f.args[id], c.e.Name != "smallIntGetUnsignedArgument", arwen.ErrArgOutOfRange)
	case "int64finish", "smallIntFinishSigned":
		E("Int64Finish")
		c.finish(twos.ToBytes(big.NewInt(c.l(0))))
	case "smallIntFinishUnsigned":
		E("Int64Finish")
		c.finish(new(big.Int).SetUint64(uint64(c.l(0))).Bytes())
	case "int64storageStore", "smallIntStorageStoreUnsigned":
		E("Int64StorageStore")
		c.setStorage(c.load(c.i(0), c.i(1)), new(big.Int).SetUint64(uint64(c.l(2))).Bytes(), false)
	case "smallIntStorageStoreSigned":
		E("Int64StorageStore")
		c.setStorage(c.load(c.i(0), c.i(1)), twos.ToBytes(big.NewInt(c.l(2))), false)
	case "int64storageLoad", "smallIntStorageLoadUnsigned", "smallIntStorageLoadSigned":
		E("Int64StorageLoad")
		c.res = c.small(c.getStorage(c.load(c.i(0), c.i(1))), c.e.Name == "smallIntStorageLoadSigned", arwen.ErrStorageValueOutOfRange)
	case "sha256", "keccak256", "ripemd160":
		name := map[string]string{"sha256": "SHA256", "keccak256": "Keccak256", "ripemd160": "Ripemd160"}[c.e.Name]
		f.use(satAdd(m.cost("CryptoAPICost", name), satLen(m.B("DataCopyPerByte"), c.i(1))))
		data := c.load(c.i(0), c.i(1))
		var h []byte
		switch c.e.Name {
		case "sha256":
			h, _ = cryptoVM.Sha256(data)
		case "keccak256":
			h, _ = cryptoVM.Keccak256(data)
		default:
			h, _ = cryptoVM.Ripemd160(data)
		}
		c.store(c.i(2), h)
	case "verifyBLS", "verifyEd25519":
		kl, sl, name := int32(96), int32(48), "VerifyBLS"
		if c.e.Name == "verifyEd25519" {
			kl, sl, name = 32, 64, "VerifyEd25519"
		}
		f.use(m.cost("CryptoAPICost", name))
		key := c.load(c.i(0), kl)
		f.use(satLen(m.B("DataCopyPerByte"), c.i(2)))
		msg := c.load(c.i(1), c.i(2))
		sig := c.load(c.i(3), sl)
		var err error
		if c.e.Name == "verifyBLS" {
			err = cryptoVM.VerifyBLS(key, msg, sig)
		} else {
			err = cryptoVM.VerifyEd25519(key, msg, sig)
		}
		c.res = -boolInt(err != nil)
	case "verifySecp256k1":
		f.use(m.cost("CryptoAPICost", "VerifySecp256k1"))
		if n := c.i(1); n != 33 && n != 65 {
			c.stop(arwen.ErrInvalidPublicKeySize)
		}
		key := c.load(c.i(0), c.i(1))
		f.use(satLen(m.B("DataCopyPerByte"), c.i(3)))
		msg := c.load(c.i(2), c.i(3))
		h := c.load(c.i(4), 2)
		sig := c.load(c.i(4), int32(h[1])+2)
		c.res = -boolInt(cryptoVM.VerifySecp256k1(key, msg, sig) != nil)
	default:
		c.bigInt()
	}
}

func (c *apiCall) tryLoad(off, n int32) (b []byte, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(apiStop); !is {
				panic(r)
			}
			b, ok = nil, false
		}
	}()
	return c.load(off, n), true
}

func (c *apiCall) small(b []byte, signed bool, err error) int64 {
	if signed {
		v := twos.SetBytes(new(big.Int), b)
		if !v.IsInt64() {
			c.stop(err)
		}
		return v.Int64()
	}
	v := new(big.Int).SetBytes(b)
	if !v.IsUint64() {
		c.stop(err)
	}
	return int64(v.Uint64())
}

func (c *apiCall) finish(b []byte) { c.m.out.ret = append(c.m.out.ret, b) }

func (c *apiCall) log(topics [][]byte, data []byte) {
	if c.f.ro {
		return
	}
	l := &vmcommon.LogEntry{Address: c.f.addr, Data: data}
	if len(topics) > 0 {
		l.Identifier, l.Topics = topics[0], topics[1:]
	}
	c.m.out.logs = append(c.m.out.logs, l)
	c.m.stats.inc("logs")
}

// --- storage

func (c *apiCall) getStorage(key []byte) []byte {
	if n := len(key) - 32; n > 0 {
		c.copyGas(n)
	}
	v := c.m.readStorage(c.f.store, key)
	c.copyGas(len(v))
	return v
}

func (c *apiCall) otherStorage(addr, key []byte) []byte {
	if n := len(key) - 32; n > 0 {
		c.copyGas(n)
	}
	if string(addr) != string(c.f.store) {
		a := c.m.w.get(addr)
		if a == nil || !vmcommon.CodeMetadataFromBytes(a.Meta).Readable {
			if a != nil && len(c.m.readStorage(addr, key)) > 0 {
				c.m.stats.inc("foreign_private_reads")
				if o := c.m.out.accts[string(addr)]; o != nil && len(o.store[string(key)]) > 0 {
					c.m.stats.inc("foreign_private_used")
				}
			}
			return nil
		}
		c.m.stats.inc("foreign_reads")
		if hasPrefix(key, reservedPrefix) {
			v := string(c.m.readStorage(addr, key))
			if old, ok := c.m.foreignReserved[string(addr)+string(key)]; ok && old != v {
				c.m.stats.inc("foreign_reserved_changed")
			}
			c.m.foreignReserved[string(addr)+string(key)] = v
		}
	}
	v := c.m.readStorage(addr, key)
	c.copyGas(len(v))
	return v
}

func hasPrefix(b []byte, s string) bool { return len(b) >= len(s) && string(b[:len(s)]) == s }
func hasSuffix(b []byte, s string) bool { return len(b) >= len(s) && string(b[len(b)-len(s):]) == s }

const (
	lockSuffix  = "ARWEN@TIMELOCK"
	asyncSuffix = "ARWEN@ASYNC"
)

func (c *apiCall) setStorage(key, value []byte, protected bool) {
	m, f := c.m, c.f
	c.res = int64(arwen.StorageUnchanged)
	if f.ro {
		return
	}
	if hasPrefix(key, reservedPrefix) {
		c.stop(arwen.ErrStoreElrondReservedKey)
	}
	if !protected && (hasPrefix(key, "ARWEN@") || hasSuffix(key, lockSuffix) || hasSuffix(key, asyncSuffix)) {
		c.stop(arwen.ErrCannotWriteProtectedKey)
	}
	if n := len(key) - 32; n > 0 {
		c.copyGas(n)
	}
	old := m.readStorage(f.store, key)
	n, o := len(value), len(old)
	switch {
	case string(old) == string(value):
		c.copyGas(n)
		return
	case o == 0:
		f.use(satMul(m.B("StorePerByte"), uint64(n)))
		c.res = int64(arwen.StorageAdded)
	case n == 0:
		m.out.refund = satAdd(m.out.refund, satMul(m.B("ReleasePerByte"), uint64(o)))
		c.res = int64(arwen.StorageDeleted)
	default:
		c.res = int64(arwen.StorageModified)
		if n > o {
			f.use(satAdd(satMul(m.B("PersistPerByte"), uint64(o)), satMul(m.B("StorePerByte"), uint64(n-o))))
		} else if n < o {
			f.use(satMul(m.B("PersistPerByte"), uint64(n)))
			m.out.refund = satAdd(m.out.refund, satMul(m.B("ReleasePerByte"), uint64(o-n)))
		}
	}
	m.out.acct(f.store).store[string(key)] = append([]byte{}, value...)
	m.stats.inc("storage_writes")
}

func (c *apiCall) setLock(ts int64) {
	c.useE("Int64StorageStore")
	key := c.load(c.i(0), c.i(1))
	c.setStorage(append(append([]byte{}, key...), lockSuffix...), big.NewInt(ts).Bytes(), true)
}

func (c *apiCall) getLock() int64 {
	c.useE("StorageLoad")
	key := c.load(c.i(0), c.i(1))
	return new(big.Int).SetBytes(c.getStorage(append(append([]byte{}, key...), lockSuffix...))).Int64()
}

// --- calls

type indirect struct {
	dest     []byte
	value    *big.Int
	function string
	args     [][]byte
	n        int32
}

// indirect reads the arguments of a call: a is the position of the address, v of the value (or -1),
// fn of the function name, which the arguments follow.
func (c *apiCall) indirect(a, v, fn int) *indirect {
	q := &indirect{dest: c.load(c.i(a), 32), value: new(big.Int)}
	if v >= 0 {
		q.value.SetBytes(c.load(c.i(v), 32))
	}
	q.function = string(c.load(c.i(fn), c.i(fn+1)))
	var err error
	q.args, q.n, err = c.args(c.i(fn+2), c.i(fn+3), c.i(fn+4))
	c.f.use(satLen(c.m.B("DataCopyPerByte"), q.n))
	c.check(err)
	return q
}

func (c *apiCall) sameShardOnly(dest []byte) {
	if !c.m.sameShard(c.f.addr, dest) {
		c.stop(arwen.ErrSyncExecutionNotInSameShard)
	}
}

func (c *apiCall) callInput(sender []byte, q *indirect, gas int64) *vmcommon.ContractCallInput {
	return &vmcommon.ContractCallInput{VMInput: vmcommon.VMInput{CallerAddr: sender, Arguments: q.args, CallValue: q.value,
		GasProvided: min64(uint64(gas), c.f.left())}, RecipientAddr: q.dest, Function: q.function}
}

func (m *Model) builtinText(fn string) bool {
	name, _, _ := parseCall(fn)
	return m.isBuiltin(name)
}

func (c *apiCall) create(value, code, meta []byte, args [][]byte, gas int64, out int32) {
	in := &vmcommon.ContractCreateInput{VMInput: vmcommon.VMInput{CallerAddr: c.f.addr, Arguments: args,
		CallValue: new(big.Int).SetBytes(value), GasProvided: min64(uint64(gas), c.f.left())}, ContractCode: code, ContractCodeMetadata: meta}
	addr, err := c.m.create(c.f, in)
	if err != nil {
		c.res = 1
		return
	}
	c.store(out, addr)
}

func (c *apiCall) upgrade(dest, code, meta, value []byte, args [][]byte, gas int64) {
	m := c.m
	if uint64(gas) < satAdd(satMul(2, m.E("AsyncCallStep")), m.E("AsyncCallbackGasLock")) {
		c.f.brk = 4
		return
	}
	data := arwen.UpgradeFunctionName + "@" + hex.EncodeToString(code) + "@" + hex.EncodeToString(meta)
	for _, a := range args {
		data += "@" + hex.EncodeToString(a)
	}
	if err := m.asyncCall(c.f, dest, []byte(data), value); err != nil {
		c.noRes = true
	}
}

// transferESDT is a token transfer, followed by a call if the destination is a contract.
func (c *apiCall) transferESDT(nonce uint64, signedNonce int64, gasAt int) {
	m, f := c.m, c.f
	tok := c.load(c.i(1), c.i(2))
	fn := gasAt + 1
	q := c.indirect(0, 3, fn)
	f.use(satLen(m.B("DataCopyPerByte"), q.n))
	c.useE("TransferValue")
	value := q.value
	q.value = new(big.Int)
	in := c.callInput(f.addr, q, c.l(gasAt))
	t := &vmcommon.ESDTTransfer{ESDTValue: value, ESDTTokenName: tok, ESDTTokenType: uint32(vmcommon.Fungible), ESDTTokenNonce: nonce}
	if signedNonce > 0 {
		t.ESDTTokenType = uint32(vmcommon.NonFungible)
	}
	in.ESDTTransfers = []*vmcommon.ESDTTransfer{t}
	if f.ro {
		c.stop(arwen.ErrInvalidCallOnReadOnlyMode)
	}
	saved, journal := m.out.clone(), len(m.w.journal)
	m.stats.inc("esdt_transfers")
	same, sc := m.sameShard(f.addr, q.dest), m.w.IsSmartContract(q.dest)
	b := &vmcommon.ContractCallInput{VMInput: vmcommon.VMInput{CallerAddr: f.addr, CallValue: new(big.Int), GasProvided: f.left(),
		CallType: vmcommon.DirectCall, Arguments: [][]byte{tok, value.Bytes()}}, RecipientAddr: q.dest,
		Function: vmcommon.BuiltInFunctionESDTTransfer}
	if sc {
		b.CallType = vmcommon.ESDTTransferAndExecute
	}
	nb := new(big.Int).SetUint64(nonce).Bytes()
	if nonce > 0 {
		b.Function = vmcommon.BuiltInFunctionESDTNFTTransfer
		b.RecipientAddr = f.addr
		b.Arguments = [][]byte{tok, nb, value.Bytes(), q.dest}
	}
	cp := *b
	bo, err := m.w.ProcessBuiltInFunction(&cp)
	c.check(err)
	used := b.GasProvided - min64(bo.GasRemaining, b.GasProvided)
	for _, k := range sortedOut(bo.OutputAccounts) {
		for _, t := range bo.OutputAccounts[k].OutputTransfers {
			used -= min64(t.GasLimit, used)
		}
	}
	f.use(used)
	rem := uint64(0)
	if sc {
		if used > in.GasProvided {
			c.stop(arwen.ErrNotEnoughGas)
		}
		rem = in.GasProvided - used
		if rem > f.left() {
			c.stop(arwen.ErrNotEnoughGas)
		}
		if !same {
			f.use(rem)
		}
	}
	data := encodeCall(b.Function, b.Arguments)
	if nonce > 0 && !same {
		data = encodeCall(b.Function, b.Arguments[:3])
		if oa := bo.OutputAccounts[string(q.dest)]; oa != nil && len(oa.OutputTransfers) == 1 {
			data = append([]byte{}, oa.OutputTransfers[0].Data...)
		}
	}
	data = append(data, encodeCall("", append([][]byte{[]byte(q.function)}, q.args...))...)
	limit := rem
	if same {
		limit = 0
	}
	a := m.out.acct(q.dest)
	a.transfers = append(a.transfers, vmcommon.OutputTransfer{Value: new(big.Int), GasLimit: limit, Data: data,
		CallType: vmcommon.DirectCall, SenderAddress: f.addr})
	m.out.logs = append(m.out.logs, bo.Logs...)
	if same && sc {
		in.GasProvided = rem
		if _, err := m.onDest(in); err != nil {
			m.failed++
			m.out = saved
			m.w.revert(journal)
			c.res = 1
		}
	}
}

// --- big integers

func (c *apiCall) extra(vs ...*big.Int) {
	for _, v := range vs {
		if n := v.BitLen() / 8; n > 32 {
			c.copyGas(n)
		}
	}
}

func (c *apiCall) bigInt() {
	m, f, B := c.m, c.f, c.useBig
	g := f.bigs.get
	name := c.e.Name
	switch name {
	case "bigIntGetUnsignedArgument":
		B("BigIntGetUnsignedArgument")
		if id := c.i(0); id >= 0 && int(id) < len(f.args) {
			g(c.i(1)).SetBytes(f.args[id])
		}
		return
	case "bigIntGetSignedArgument":
		B("BigIntGetSignedArgument")
		if id := c.i(0); id >= 0 && int(id) < len(f.args) {
			twos.SetBytes(g(c.i(1)), f.args[id])
		}
		return
	case "bigIntStorageStoreUnsigned":
		B("BigIntStorageStoreUnsigned")
		key := c.load(c.i(0), c.i(1))
		c.setStorage(key, g(c.i(2)).Bytes(), false)
		return
	case "bigIntStorageLoadUnsigned":
		B("BigIntStorageLoadUnsigned")
		v := c.getStorage(c.load(c.i(0), c.i(1)))
		g(c.i(2)).SetBytes(v)
		c.res = int64(len(v))
		return
	case "bigIntGetCallValue":
		B("BigIntGetCallValue")
		g(c.i(0)).Set(f.in.CallValue)
		return
	case "bigIntGetESDTCallValue":
		B("BigIntGetCallValue")
		g(c.i(0)).Set(c.esdt().ESDTValue)
		return
	case "bigIntGetExternalBalance":
		B("BigIntGetExternalBalance")
		g(c.i(1)).Set(m.balance(c.load(c.i(0), 32)))
		return
	case "bigIntGetESDTExternalBalance":
		B("BigIntGetExternalBalance")
		t := c.token(0)
		g(c.i(4)).Set(t.Value)
		return
	case "bigIntNew":
		B("BigIntNew")
		c.res = int64(f.bigs.put(c.l(0)))
		return
	case "bigIntUnsignedByteLength":
		B("BigIntUnsignedByteLength")
		c.res = int64(len(g(c.i(0)).Bytes()))
		return
	case "bigIntSignedByteLength":
		B("BigIntSignedByteLength")
		c.res = int64(len(twos.ToBytes(g(c.i(0)))))
		return
	case "bigIntGetUnsignedBytes", "bigIntGetSignedBytes":
		b := g(c.i(0)).Bytes()
		if name == "bigIntGetUnsignedBytes" {
			B("BigIntGetUnsignedBytes")
		} else {
			B("BigIntGetSignedBytes")
			b = twos.ToBytes(g(c.i(0)))
		}
		c.store(c.i(1), b)
		c.copyGas(len(b))
		c.res = int64(len(b))
		return
	case "bigIntSetUnsignedBytes":
		B("BigIntSetUnsignedBytes")
		b := c.load(c.i(1), c.i(2))
		g(c.i(0)).SetBytes(b)
		c.copyGas(len(b))
		return
	case "bigIntSetSignedBytes":
		B("BigIntSetSignedBytes")
		b := c.load(c.i(1), c.i(2))
		twos.SetBytes(g(c.i(0)), b)
		c.copyGas(len(b))
		return
	case "bigIntIsInt64":
		B("BigIntIsInt64")
		c.res = boolInt(g(c.i(0)).IsInt64())
		return
	case "bigIntGetInt64":
		B("BigIntGetInt64")
		c.res = g(c.i(0)).Int64()
		return
	case "bigIntSetInt64":
		B("BigIntSetInt64")
		g(c.i(0)).SetInt64(c.l(1))
		return
	case "bigIntSign":
		B("BigIntSign")
		v := g(c.i(0))
		c.extra(v)
		c.res = int64(v.Sign())
		return
	case "bigIntCmp":
		B("BigIntCmp")
		a, b := g(c.i(0)), g(c.i(1))
		c.extra(a, b)
		c.res = int64(a.Cmp(b))
		return
	case "bigIntFinishUnsigned":
		B("BigIntFinishUnsigned")
		b := g(c.i(0)).Bytes()
		c.finish(b)
		c.persistGas(len(b))
		return
	case "bigIntFinishSigned":
		B("BigIntFinishSigned")
		b := twos.ToBytes(g(c.i(0)))
		c.finish(b)
		c.persistGas(len(b))
		return
	case "bigIntAbs", "bigIntNeg", "bigIntNot":
		B("B" + name[1:])
		d, a := g(c.i(0)), g(c.i(1))
		c.extra(d, a)
		switch name {
		case "bigIntAbs":
			d.Abs(a)
		case "bigIntNeg":
			d.Neg(a)
		default:
			if a.Sign() < 0 {
				c.stop(arwen.ErrBitwiseNegative)
			}
			d.Not(a)
		}
		return
	case "bigIntShr", "bigIntShl":
		B("B" + name[1:])
		d, a := g(c.i(0)), g(c.i(1))
		c.extra(a)
		n := c.i(2)
		if a.Sign() < 0 || n < 0 {
			c.stop(arwen.ErrShiftNegative)
		}
		if name == "bigIntShr" {
			d.Rsh(a, uint(n))
		} else {
			if n > 1<<20 {
				m.giveUp("huge shift")
			}
			d.Lsh(a, uint(n))
		}
		c.extra(d)
		return
	}
	if _, ok := m.gas["BigIntAPICost"]["B"+name[1:]]; !ok {
		m.giveUp("API function " + name + " is not in the model")
	}
	B("B" + name[1:])
	d, a, b := g(c.i(0)), g(c.i(1)), g(c.i(2))
	zero := func() {
		if b.Sign() == 0 {
			c.stop(arwen.ErrDivZero)
		}
	}
	bits := func() {
		if a.Sign() < 0 || b.Sign() < 0 {
			c.stop(arwen.ErrBitwiseNegative)
		}
	}
	switch name {
	case "bigIntAnd", "bigIntOr", "bigIntXor":
		c.extra(a, b)
	default:
		c.extra(d, a, b)
	}
	switch name {
	case "bigIntAdd":
		d.Add(a, b)
	case "bigIntSub":
		d.Sub(a, b)
	case "bigIntMul":
		d.Mul(a, b)
	case "bigIntTDiv":
		zero()
		d.Quo(a, b)
	case "bigIntTMod":
		zero()
		d.Rem(a, b)
	case "bigIntEDiv":
		zero()
		d.Div(a, b)
	case "bigIntEMod":
		zero()
		d.Mod(a, b)
	case "bigIntAnd":
		bits()
		d.And(a, b)
	case "bigIntOr":
		bits()
		d.Or(a, b)
	case "bigIntXor":
		bits()
		d.Xor(a, b)
	default:
		m.giveUp("API function " + name + " is not in the model")
	}
}
