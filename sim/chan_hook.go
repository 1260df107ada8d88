//go:build verif
// +build verif

package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// recHook is the blockchain hook of a shard, which records what is asked and answered. In a probe it
// invents the answers.
type recHook struct {
	w     *World
	log   []string
	who   []string
	snap  map[string][]byte // the compiled code cache at the start of the execution
	probe *rand.Rand
}

func (h *recHook) rec(name string, in []interface{}, out []interface{}) {
	h.log = append(h.log, callText(name, in, out))
	w := "?"
	if sim != nil && sim.cur != nil {
		w = sim.cur.name
	}
	h.who = append(h.who, w)
}

func callText(name string, in []interface{}, out []interface{}) string {
	s := name + "("
	for i, x := range in {
		if i > 0 {
			s += ", "
		}
		s += dump(x)
	}
	s += ") ="
	if n := len(out); n > 0 {
		if e, ok := out[n-1].(error); ok && e != nil {
			return s + " " + dump(e)
		}
	}
	for _, x := range out {
		s += " " + dump(x)
	}
	return s
}

// dump writes out a value completely; nil and empty slices and maps are the same.
func dump(v interface{}) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case *big.Int:
			fmt.Fprint(b, x)
			return
		case []byte:
			if len(x) > 200 {
				fmt.Fprintf(b, "%x..(%d, %016x)", x[:16], len(x), codeHash64(x))
			} else {
				fmt.Fprintf(b, "%x", x)
			}
			b.WriteByte('.')
			return
		case error:
			fmt.Fprintf(b, "error %q", x.Error())
			return
		case vmcommon.UserAccountHandler:
			if x == nil || x.IsInterfaceNil() {
				b.WriteString("nil")
				return
			}
			fmt.Fprintf(b, "account{%x %d %v code %x root %x reward %v owner %x user %x meta %x}", x.AddressBytes(), x.GetNonce(), x.GetBalance(),
				x.GetCodeHash(), x.GetRootHash(), x.GetDeveloperReward(), x.GetOwnerAddress(), x.GetUserName(), x.GetCodeMetadata())
			return
		case string:
			fmt.Fprintf(b, "%q", x)
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpTo(b, v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpTo(b, v.Index(i), depth+1)
		}
		b.WriteByte(']')
	case reflect.Map:
		var ss []string
		for _, k := range v.MapKeys() {
			var c strings.Builder
			dumpTo(&c, k, depth+1)
			c.WriteByte(':')
			dumpTo(&c, v.MapIndex(k), depth+1)
			ss = append(ss, c.String())
		}
		sort.Strings(ss)
		b.WriteString("map{" + strings.Join(ss, " ") + "}")
	case reflect.Struct:
		b.WriteByte('{')
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath != "" || strings.HasPrefix(t.Field(i).Name, "XXX") {
				continue
			}
			fmt.Fprintf(b, "%s:", t.Field(i).Name)
			dumpTo(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	default:
		fmt.Fprint(b, v)
	}
}

// --- values for probes

func rbytes(r *rand.Rand) []byte {
	n := 0
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		n = r.Intn(3000)
	case 3:
		n = []int{65535, 65536, 70000, 200000, 0, 1}[r.Intn(6)]
		if r.Intn(3) > 0 {
			n = 32
		}
	default:
		n = r.Intn(40)
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}

func rshort(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(40))
	r.Read(b)
	return b
}

func rbig(r *rand.Rand) *big.Int {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return new(big.Int)
	case 2:
		return new(big.Int).Neg(new(big.Int).SetBytes(rshort(r)))
	}
	return new(big.Int).SetBytes(rshort(r))
}

func ru64(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return r.Uint64()
	case 2:
		return ^uint64(0) - uint64(r.Intn(3))
	}
	return uint64(r.Intn(100000))
}

var hookErrors = []string{"injected node failure", "100% wrong", "%d %s %v", "two\nlines", "account was not found", "not \xff\xfe text", "caf\u00e9 <&>", "%!", " "}

func rtext(r *rand.Rand) string { return hookErrors[r.Intn(len(hookErrors))] }

func rerr(r *rand.Rand) error {
	if r.Intn(3) > 0 {
		return nil
	}
	return errors.New(rtext(r))
}

func rstr(r *rand.Rand) string {
	return []string{"", "f0", "transfer", "ESDTTransfer", "é%s", "upgradeContract", "callBack"}[r.Intn(7)]
}

func rlist(r *rand.Rand) [][]byte {
	var l [][]byte
	for i := r.Intn(4); i > 0; i-- {
		l = append(l, rbytes(r))
	}
	return l
}

func rcallType(r *rand.Rand) vmcommon.CallType { return vmcommon.CallType(r.Intn(6)) }

func rvmInput(r *rand.Rand) vmcommon.VMInput {
	in := vmcommon.VMInput{CallerAddr: rshort(r), Arguments: rlist(r), CallValue: rbig(r), CallType: rcallType(r), GasPrice: ru64(r),
		GasProvided: ru64(r), GasLocked: ru64(r), OriginalTxHash: rshort(r), CurrentTxHash: rshort(r), PrevTxHash: rshort(r),
		ReturnCallAfterError: r.Intn(2) == 0}
	for i := r.Intn(3); i > 0; i-- {
		in.ESDTTransfers = append(in.ESDTTransfers, &vmcommon.ESDTTransfer{ESDTValue: rbig(r), ESDTTokenName: rshort(r), ESDTTokenType: uint32(r.Intn(3)), ESDTTokenNonce: ru64(r)})
	}
	return in
}

func rcall(r *rand.Rand) *vmcommon.ContractCallInput {
	return &vmcommon.ContractCallInput{VMInput: rvmInput(r), RecipientAddr: rshort(r), Function: rstr(r), AllowInitFunction: r.Intn(2) == 0}
}

func rcreate(r *rand.Rand) *vmcommon.ContractCreateInput {
	return &vmcommon.ContractCreateInput{VMInput: rvmInput(r), ContractCode: rbytes(r), ContractCodeMetadata: rshort(r)}
}

// routput makes a VM output as a VM makes it: the keys of its maps are the addresses and offsets.
func routput(r *rand.Rand) *vmcommon.VMOutput {
	o := &vmcommon.VMOutput{ReturnData: rlist(r), ReturnCode: vmcommon.ReturnCode(r.Intn(12)), GasRemaining: ru64(r), GasRefund: rbig(r),
		OutputAccounts: map[string]*vmcommon.OutputAccount{}, DeletedAccounts: rlist(r), TouchedAccounts: rlist(r)}
	if r.Intn(3) == 0 {
		o.ReturnMessage = rtext(r)
	}
	for i := r.Intn(4); i > 0; i-- {
		a := &vmcommon.OutputAccount{Address: append([]byte{byte(i)}, rshort(r)...), Nonce: ru64(r), Balance: rbig(r), BalanceDelta: rbig(r),
			StorageUpdates: map[string]*vmcommon.StorageUpdate{}, Code: rbytes(r), CodeMetadata: rshort(r), CodeDeployerAddress: rshort(r), GasUsed: ru64(r)}
		for k := r.Intn(4); k > 0; k-- {
			off := append([]byte{byte(k)}, rshort(r)...)
			a.StorageUpdates[string(off)] = &vmcommon.StorageUpdate{Offset: off, Data: rbytes(r)}
		}
		for k := r.Intn(4); k > 0; k-- {
			a.OutputTransfers = append(a.OutputTransfers, vmcommon.OutputTransfer{Value: rbig(r), GasLimit: ru64(r), GasLocked: ru64(r), Data: rbytes(r),
				CallType: rcallType(r), SenderAddress: rshort(r)})
		}
		o.OutputAccounts[string(a.Address)] = a
	}
	for i := r.Intn(4); i > 0; i-- {
		o.Logs = append(o.Logs, &vmcommon.LogEntry{Identifier: rshort(r), Address: rshort(r), Topics: rlist(r), Data: rbytes(r)})
	}
	return o
}

func raccount(r *rand.Rand) vmcommon.UserAccountHandler {
	if r.Intn(5) == 0 {
		return nil
	}
	return &common.Account{Nonce: ru64(r), Balance: rbig(r), CodeHash: rshort(r), RootHash: rshort(r), Address: rshort(r), DeveloperReward: rbig(r),
		OwnerAddress: rshort(r), UserName: rshort(r), CodeMetadata: rshort(r)}
}

func rmap(r *rand.Rand) map[string][]byte {
	m := map[string][]byte{}
	for i := r.Intn(4); i > 0; i-- {
		m[string(rshort(r))] = rbytes(r)
	}
	return m
}

func rnames(r *rand.Rand) vmcommon.FunctionNames {
	m := vmcommon.FunctionNames{}
	for i := r.Intn(4); i > 0; i-- {
		m[rstr(r)] = struct{}{}
	}
	return m
}

func rtoken(r *rand.Rand) *esdt.ESDigitalToken {
	if r.Intn(4) == 0 {
		return nil
	}
	t := &esdt.ESDigitalToken{Type: uint32(r.Intn(3)), Value: new(big.Int).SetBytes(rshort(r)), Properties: rshort(r)}
	if r.Intn(2) == 0 {
		t.TokenMetaData = &esdt.MetaData{Nonce: ru64(r), Name: rshort(r), Creator: rshort(r), Royalties: uint32(r.Intn(1000)), Hash: rshort(r), URIs: rlist(r), Attributes: rbytes(r)}
	}
	return t
}

func unlessErr(err error, f func()) {
	if err == nil {
		f()
	}
}

// --- the VM's side of a probe

// probeLog is what the VM side of the probe saw and did.
type probeLog struct {
	input  string
	calls  []string
	output string
}

// probeHost stands in for the VM in requests of the simulator: it makes arbitrary node callbacks and
// returns an arbitrary result.
type probeHost struct {
	vmcommon.VMExecutionHandler
	part *arwenpart.ArwenPart
}

func (h *probeHost) RunSmartContractCall(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	if in == nil || len(in.PrevTxHash) != 32 || !bytes.HasPrefix(in.PrevTxHash, []byte("probe!")) {
		return h.VMExecutionHandler.RunSmartContractCall(in)
	}
	return h.play(dump(in), in.PrevTxHash)
}

func (h *probeHost) RunSmartContractCreate(in *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error) {
	if in == nil || len(in.PrevTxHash) != 32 || !bytes.HasPrefix(in.PrevTxHash, []byte("probe!")) {
		return h.VMExecutionHandler.RunSmartContractCreate(in)
	}
	return h.play(dump(in), in.PrevTxHash)
}

func (h *probeHost) play(input string, order []byte) (*vmcommon.VMOutput, error) {
	k := sim
	k.probeVM = &probeLog{input: input}
	l := k.probeVM
	var seed int64
	for i := 6; i < 14; i++ {
		seed = seed<<8 | int64(order[i])
	}
	r := rand.New(rand.NewSource(seed))
	g := arwenpart.NewBlockchainHookGateway(h.part.Messenger)
	for n := int(order[14]); n > 0; n-- {
		l.calls = append(l.calls, probeCall(g, r))
	}
	out, err := routput(r), rerr(r)
	if err != nil && r.Intn(2) == 0 {
		out = nil
	}
	l.output = resultText(out, err)
	k.op()
	return out, err
}

func resultText(out *vmcommon.VMOutput, err error) string {
	if err != nil {
		return dump(err)
	}
	return dump(out)
}
