//go:build verif
// +build verif

package main

// One method per node callback.

import (
	"math/rand"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

var _ vmcommon.BlockchainHook = (*recHook)(nil)

func (h *recHook) IsInterfaceNil() bool { return h == nil }

func (h *recHook) NewAddress(creator []byte, nonce uint64, vmType []byte) ([]byte, error) {
	var x []byte
	var y error
	if r := h.probe; r != nil {
		y = rerr(r)
		if y == nil {
			x = rbytes(r)
		}
	} else {
		x, y = h.w.NewAddress(creator, nonce, vmType)
	}
	h.rec("NewAddress", []interface{}{creator, nonce, vmType}, []interface{}{x, y})
	return x, y
}

func (h *recHook) GetStorageData(addr []byte, key []byte) ([]byte, error) {
	var x []byte
	var y error
	if r := h.probe; r != nil {
		y = rerr(r)
		if y == nil {
			x = rbytes(r)
		}
	} else {
		x, y = h.w.GetStorageData(addr, key)
	}
	h.rec("GetStorageData", []interface{}{addr, key}, []interface{}{x, y})
	return x, y
}

func (h *recHook) GetBlockhash(nonce uint64) ([]byte, error) {
	var x []byte
	var y error
	if r := h.probe; r != nil {
		y = rerr(r)
		if y == nil {
			x = rbytes(r)
		}
	} else {
		x, y = h.w.GetBlockhash(nonce)
	}
	h.rec("GetBlockhash", []interface{}{nonce}, []interface{}{x, y})
	return x, y
}

func (h *recHook) LastNonce() uint64 {
	var x uint64
	if r := h.probe; r != nil {
		x = ru64(r)
	} else {
		x = h.w.LastNonce()
	}
	h.rec("LastNonce", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) LastRound() uint64 {
	var x uint64
	if r := h.probe; r != nil {
		x = ru64(r)
	} else {
		x = h.w.LastRound()
	}
	h.rec("LastRound", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) LastTimeStamp() uint64 {
	var x uint64
	if r := h.probe; r != nil {
		x = ru64(r)
	} else {
		x = h.w.LastTimeStamp()
	}
	h.rec("LastTimeStamp", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) LastRandomSeed() []byte {
	var x []byte
	if r := h.probe; r != nil {
		x = rbytes(r)
	} else {
		x = h.w.LastRandomSeed()
	}
	h.rec("LastRandomSeed", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) LastEpoch() uint32 {
	var x uint32
	if r := h.probe; r != nil {
		x = uint32(ru64(r))
	} else {
		x = h.w.LastEpoch()
	}
	h.rec("LastEpoch", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) CurrentNonce() uint64 {
	var x uint64
	if r := h.probe; r != nil {
		x = ru64(r)
	} else {
		x = h.w.CurrentNonce()
	}
	h.rec("CurrentNonce", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) CurrentRound() uint64 {
	var x uint64
	if r := h.probe; r != nil {
		x = ru64(r)
	} else {
		x = h.w.CurrentRound()
	}
	h.rec("CurrentRound", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) CurrentTimeStamp() uint64 {
	var x uint64
	if r := h.probe; r != nil {
		x = ru64(r)
	} else {
		x = h.w.CurrentTimeStamp()
	}
	h.rec("CurrentTimeStamp", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) CurrentRandomSeed() []byte {
	var x []byte
	if r := h.probe; r != nil {
		x = rbytes(r)
	} else {
		x = h.w.CurrentRandomSeed()
	}
	h.rec("CurrentRandomSeed", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) CurrentEpoch() uint32 {
	var x uint32
	if r := h.probe; r != nil {
		x = uint32(ru64(r))
	} else {
		x = h.w.CurrentEpoch()
	}
	h.rec("CurrentEpoch", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) GetStateRootHash() []byte {
	var x []byte
	if r := h.probe; r != nil {
		x = rbytes(r)
	} else {
		x = h.w.GetStateRootHash()
	}
	h.rec("GetStateRootHash", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) GetBuiltinFunctionNames() vmcommon.FunctionNames {
	var x vmcommon.FunctionNames
	if r := h.probe; r != nil {
		x = rnames(r)
	} else {
		x = h.w.GetBuiltinFunctionNames()
	}
	h.rec("GetBuiltinFunctionNames", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) GetAllState(addr []byte) (map[string][]byte, error) {
	var x map[string][]byte
	var y error
	if r := h.probe; r != nil {
		y = rerr(r)
		if y == nil {
			x = rmap(r)
		}
	} else {
		x, y = h.w.GetAllState(addr)
	}
	h.rec("GetAllState", []interface{}{addr}, []interface{}{x, y})
	return x, y
}

func (h *recHook) GetUserAccount(addr []byte) (vmcommon.UserAccountHandler, error) {
	var x vmcommon.UserAccountHandler
	var y error
	if r := h.probe; r != nil {
		y = rerr(r)
		if y == nil {
			x = raccount(r)
		}
	} else {
		x, y = h.w.GetUserAccount(addr)
	}
	h.rec("GetUserAccount", []interface{}{addr}, []interface{}{x, y})
	return x, y
}

func (h *recHook) GetCode(account vmcommon.UserAccountHandler) []byte {
	var x []byte
	if r := h.probe; r != nil {
		x = rbytes(r)
	} else {
		x = h.w.GetCode(account)
	}
	h.rec("GetCode", []interface{}{account}, []interface{}{x})
	return x
}

func (h *recHook) GetShardOfAddress(addr []byte) uint32 {
	var x uint32
	if r := h.probe; r != nil {
		x = uint32(ru64(r))
	} else {
		x = h.w.GetShardOfAddress(addr)
	}
	h.rec("GetShardOfAddress", []interface{}{addr}, []interface{}{x})
	return x
}

func (h *recHook) IsSmartContract(addr []byte) bool {
	var x bool
	if r := h.probe; r != nil {
		x = r.Intn(2) == 0
	} else {
		x = h.w.IsSmartContract(addr)
	}
	h.rec("IsSmartContract", []interface{}{addr}, []interface{}{x})
	return x
}

func (h *recHook) IsPayable(addr []byte) (bool, error) {
	var x bool
	var y error
	if r := h.probe; r != nil {
		y = rerr(r)
		if y == nil {
			x = r.Intn(2) == 0
		}
	} else {
		x, y = h.w.IsPayable(addr)
	}
	h.rec("IsPayable", []interface{}{addr}, []interface{}{x, y})
	return x, y
}

func (h *recHook) SaveCompiledCode(hash []byte, code []byte) {
	if h.probe == nil {
		h.w.SaveCompiledCode(hash, code)
	}
	h.rec("SaveCompiledCode", []interface{}{hash, code}, []interface{}{})
}

func (h *recHook) GetCompiledCode(hash []byte) (bool, []byte) {
	var x bool
	var y []byte
	if r := h.probe; r != nil {
		x = r.Intn(2) == 0
		y = rbytes(r)
	} else {
		x, y = h.w.GetCompiledCode(hash)
	}
	h.rec("GetCompiledCode", []interface{}{hash}, []interface{}{x, y})
	return x, y
}

func (h *recHook) ClearCompiledCodes() {
	if h.probe == nil || sim.probeVM == nil {
		h.w.ClearCompiledCodes()
		h.log, h.who, h.snap = nil, nil, nil
		return
	}
	h.rec("ClearCompiledCodes", []interface{}{}, []interface{}{})
}

func (h *recHook) GetESDTToken(addr []byte, token []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	var x *esdt.ESDigitalToken
	var y error
	if r := h.probe; r != nil {
		y = rerr(r)
		if y == nil {
			x = rtoken(r)
		}
	} else {
		x, y = h.w.GetESDTToken(addr, token, nonce)
	}
	h.rec("GetESDTToken", []interface{}{addr, token, nonce}, []interface{}{x, y})
	return x, y
}

func (h *recHook) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	var x *vmcommon.VMOutput
	var y error
	if r := h.probe; r != nil {
		y = rerr(r)
		if y == nil {
			x = routput(r)
		}
	} else {
		x, y = h.w.ProcessBuiltInFunction(in)
	}
	h.rec("ProcessBuiltInFunction", []interface{}{in}, []interface{}{x, y})
	return x, y
}

func (h *recHook) GetSnapshot() int {
	var x int
	if r := h.probe; r != nil {
		x = int(int64(ru64(r)))
	} else {
		x = h.w.GetSnapshot()
	}
	h.rec("GetSnapshot", []interface{}{}, []interface{}{x})
	return x
}

func (h *recHook) RevertToSnapshot(n int) error {
	var x error
	if r := h.probe; r != nil {
		x = rerr(r)
	} else {
		x = h.w.RevertToSnapshot(n)
	}
	h.rec("RevertToSnapshot", []interface{}{n}, []interface{}{x})
	return x
}

// probeCall makes one callback with arbitrary arguments.
func probeCall(g vmcommon.BlockchainHook, r *rand.Rand) string {
	switch r.Intn(28) {
	case 0:
		creator := rbytes(r)
		nonce := ru64(r)
		vmType := rbytes(r)
		x, y := g.NewAddress(creator, nonce, vmType)
		return callText("NewAddress", []interface{}{creator, nonce, vmType}, []interface{}{x, y})
	case 1:
		addr := rbytes(r)
		key := rbytes(r)
		x, y := g.GetStorageData(addr, key)
		return callText("GetStorageData", []interface{}{addr, key}, []interface{}{x, y})
	case 2:
		nonce := ru64(r)
		x, y := g.GetBlockhash(nonce)
		return callText("GetBlockhash", []interface{}{nonce}, []interface{}{x, y})
	case 3:
		x := g.LastNonce()
		return callText("LastNonce", []interface{}{}, []interface{}{x})
	case 4:
		x := g.LastRound()
		return callText("LastRound", []interface{}{}, []interface{}{x})
	case 5:
		x := g.LastTimeStamp()
		return callText("LastTimeStamp", []interface{}{}, []interface{}{x})
	case 6:
		x := g.LastRandomSeed()
		return callText("LastRandomSeed", []interface{}{}, []interface{}{x})
	case 7:
		x := g.LastEpoch()
		return callText("LastEpoch", []interface{}{}, []interface{}{x})
	case 8:
		x := g.CurrentNonce()
		return callText("CurrentNonce", []interface{}{}, []interface{}{x})
	case 9:
		x := g.CurrentRound()
		return callText("CurrentRound", []interface{}{}, []interface{}{x})
	case 10:
		x := g.CurrentTimeStamp()
		return callText("CurrentTimeStamp", []interface{}{}, []interface{}{x})
	case 11:
		x := g.CurrentRandomSeed()
		return callText("CurrentRandomSeed", []interface{}{}, []interface{}{x})
	case 12:
		x := g.CurrentEpoch()
		return callText("CurrentEpoch", []interface{}{}, []interface{}{x})
	case 13:
		x := g.GetStateRootHash()
		return callText("GetStateRootHash", []interface{}{}, []interface{}{x})
	case 14:
		x := g.GetBuiltinFunctionNames()
		return callText("GetBuiltinFunctionNames", []interface{}{}, []interface{}{x})
	case 15:
		addr := rbytes(r)
		x, y := g.GetAllState(addr)
		return callText("GetAllState", []interface{}{addr}, []interface{}{x, y})
	case 16:
		addr := rbytes(r)
		x, y := g.GetUserAccount(addr)
		return callText("GetUserAccount", []interface{}{addr}, []interface{}{x, y})
	case 17:
		account := raccount(r)
		if account == nil {
			return probeCall(g, r)
		}
		x := g.GetCode(account)
		return callText("GetCode", []interface{}{account}, []interface{}{x})
	case 18:
		addr := rbytes(r)
		x := g.GetShardOfAddress(addr)
		return callText("GetShardOfAddress", []interface{}{addr}, []interface{}{x})
	case 19:
		addr := rbytes(r)
		x := g.IsSmartContract(addr)
		return callText("IsSmartContract", []interface{}{addr}, []interface{}{x})
	case 20:
		addr := rbytes(r)
		x, y := g.IsPayable(addr)
		return callText("IsPayable", []interface{}{addr}, []interface{}{x, y})
	case 21:
		hash := rbytes(r)
		code := rbytes(r)
		g.SaveCompiledCode(hash, code)
		return callText("SaveCompiledCode", []interface{}{hash, code}, []interface{}{})
	case 22:
		hash := rbytes(r)
		x, y := g.GetCompiledCode(hash)
		return callText("GetCompiledCode", []interface{}{hash}, []interface{}{x, y})
	case 23:
		g.ClearCompiledCodes()
		return callText("ClearCompiledCodes", []interface{}{}, []interface{}{})
	case 24:
		addr := rbytes(r)
		token := rbytes(r)
		nonce := ru64(r)
		x, y := g.GetESDTToken(addr, token, nonce)
		return callText("GetESDTToken", []interface{}{addr, token, nonce}, []interface{}{x, y})
	case 25:
		in := rcall(r)
		x, y := g.ProcessBuiltInFunction(in)
		return callText("ProcessBuiltInFunction", []interface{}{in}, []interface{}{x, y})
	case 26:
		x := g.GetSnapshot()
		return callText("GetSnapshot", []interface{}{}, []interface{}{x})
	case 27:
		n := int(int64(ru64(r)))
		x := g.RevertToSnapshot(n)
		return callText("RevertToSnapshot", []interface{}{n}, []interface{}{x})
	}
	return ""
}
