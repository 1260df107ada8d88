from bugs_1 import H
from bugs_2 import BUGS as _B2
BUGS = []
def bug(id, prop, needs, breaks, edits, test, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, test=(kw.pop('header', H) + test), **kw))

_esdt_header = [b for b in _B2 if b['id'] == 'esdt-one-epoch-late'][0]['test'].split('\nfunc TestVerifDemo')[0]

bug('features-stay-on-after-a-fork', 'C15',
 'The host executes in an epoch in which dynamic gas locking is active, then, after a fork or for a query, in an earlier one.',
 'Once active, dynamic gas locking stays active, and executions in blocks of earlier epochs lock gas by the later rules.',
 [('arwen/host/arwen.go', '''	host.flagDynGasLock.Toggle(currentEpoch >= host.dynGasLockEnableEpoch)''',
   '''	if currentEpoch >= host.dynGasLockEnableEpoch {
		host.flagDynGasLock.Set()
	}''')], '''
func TestVerifDemo(t *testing.T) {
	world := worldmock.NewMockWorld()
	gasSchedule := config.MakeGasMapForTests()
	require.Nil(t, world.InitBuiltinFunctions(gasSchedule))
	host, err := arwenHost.NewArwenVM(world, &arwen.VMHostParameters{
		VMType:                   test.DefaultVMType,
		BlockGasLimit:            uint64(1000),
		GasSchedule:              gasSchedule,
		BuiltInFuncContainer:     world.BuiltinFuncs.Container,
		ElrondProtectedKeyPrefix: []byte("ELROND"),
		DynGasLockEnableEpoch:    3,
	})
	require.Nil(t, err)
	at := func(epoch uint32) bool {
		world.CurrentBlockInfo = &worldmock.BlockInfo{BlockEpoch: epoch}
		host.InitState()
		return host.IsDynamicGasLockingEnabled()
	}
	require.False(t, at(2))
	require.True(t, at(3))
	require.False(t, at(2))
	require.True(t, at(4))
}
''', header=_esdt_header)

bug('callback-gets-first-of-values', 'C08',
 'The destination of an asynchronous call sends value back to its caller more than once, and the amounts differ.',
 'The callback is shown the value of the first transfer instead of the last.',
 [('arwen/host/asyncCall.go', '''	lastOutTransfer := outAcc.OutputTransfers[len(outAcc.OutputTransfers)-1]''',
   '''	lastOutTransfer := outAcc.OutputTransfers[numEarlierTransfers]''')], '''
func TestVerifDemo(t *testing.T) {
	var seen *big.Int
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
			"start": func(host arwen.VMHost) {
				err := host.Runtime().ExecuteAsyncCall(test.ChildAddress, []byte("answer"), big.NewInt(0).Bytes())
				require.Nil(t, err)
			},
			"callBack": func(host arwen.VMHost) {
				seen = big.NewInt(0).Set(host.Runtime().GetVMInput().CallValue)
			},
		}},
		demoSC{addr: test.ChildAddress, balance: 100, methods: demoMethods{
			"answer": func(host arwen.VMHost) {
				for _, value := range []int64{7, 5} {
					err := host.Output().Transfer(test.ParentAddress, test.ChildAddress, 0, 0, big.NewInt(value), nil, vmcommon.DirectCall)
					require.Nil(t, err)
				}
			},
		}})
	out := demoCall(t, host, test.ParentAddress, "start", 1000000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	require.NotNil(t, seen)
	require.Equal(t, int64(5), seen.Int64())
}
''')

bug('huge-transfer-overdraws', 'C03',
 'A contract transfers an amount above 2^64 whose low 64 bits do not exceed those of its balance.',
 'The balance and the amount are compared by their low 64 bits, and the account is debited more than it owns.',
 [('arwen/contexts/output.go', '''	return senderBalance.Cmp(value) >= 0''', '''	return senderBalance.Uint64() >= value.Uint64()''')], '''
func TestVerifDemo(t *testing.T) {
	var failed error
	huge := big.NewInt(0).Lsh(big.NewInt(1), 64)
	huge.Add(huge, big.NewInt(3))
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
			"pay": func(host arwen.VMHost) {
				failed = host.Output().Transfer(test.UserAddress, test.ParentAddress, 0, 0, huge, nil, vmcommon.DirectCall)
			},
		}})
	demoCall(t, host, test.ParentAddress, "pay", 1000000)
	require.NotNil(t, failed)
}
''')

bug('memory-given-away', 'C13',
 'A contract finishes, logs or stores bytes of its memory, and later overwrites that memory in the same execution.',
 'The bytes are not copied out of the memory of the contract, so what was finished or logged before changes with the memory.',
 [('arwen/contexts/runtime.go', '''	result := make([]byte, length)
	if isRequestedEndTooLarge {
		copy(result, memoryView[offset:])
	} else {
		copy(result, memoryView[offset:requestedEnd])
	}

	return result, nil
}

// MemLoadMultiple''', '''	if !isRequestedEndTooLarge {
		return memoryView[offset:requestedEnd:requestedEnd], nil
	}

	result := make([]byte, length)
	copy(result, memoryView[offset:])
	return result, nil
}

// MemLoadMultiple''')], '''
func TestVerifDemo(t *testing.T) {
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
			"start": func(host arwen.VMHost) {
				runtime := host.Runtime()
				require.Nil(t, runtime.MemStore(16, []byte("first")))
				data, err := runtime.MemLoad(16, 5)
				require.Nil(t, err)
				host.Output().Finish(data)
				require.Nil(t, runtime.MemStore(16, []byte("other")))
			},
		}})
	out := demoCall(t, host, test.ParentAddress, "start", 1000000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	require.Equal(t, [][]byte{[]byte("first")}, out.ReturnData)
}
''')

bug('schedule-change-not-in-line', 'I03',
 'The node changes the gas schedule while another of its threads has a request with the VM process.',
 'The change does not wait for the request in progress: both dialogues use the channel at once and fail.',
 [('ipc/nodepart/arwenDriver.go', '''func (driver *ArwenDriver) GasScheduleChange(newGasSchedule map[string]map[string]uint64) {
	driver.operationsMutex.Lock()
	defer driver.operationsMutex.Unlock()
''', '''func (driver *ArwenDriver) GasScheduleChange(newGasSchedule map[string]map[string]uint64) {''')], '''package nodepart

import (
	"math/big"
	"os"
	"os/exec"
	"testing"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	"github.com/ElrondNetwork/elrond-vm-common"
	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	toNodeRead, toNodeWrite, err := os.Pipe()
	require.Nil(t, err)
	toArwenRead, toArwenWrite, err := os.Pipe()
	require.Nil(t, err)
	marshalizer := marshaling.CreateMarshalizer(marshaling.Gob)
	settings := Config{MaxLoopTime: 20000}
	part, err := NewNodePart(toNodeRead, toArwenWrite, worldmock.NewMockWorld(), settings, marshalizer)
	require.Nil(t, err)
	command := exec.Command("sleep", "60")
	require.Nil(t, command.Start())
	defer func() { _ = command.Process.Kill() }()
	driver := &ArwenDriver{
		command:             command,
		part:                part,
		config:              settings,
		blockchainHook:      worldmock.NewMockWorld(),
		arwenArguments:      common.ArwenArguments{},
		messagesMarshalizer: marshalizer,
		logsMarshalizer:     marshaling.CreateMarshalizer(marshaling.JSON),
	}

	go func() {
		_, _ = driver.RunSmartContractCall(&vmcommon.ContractCallInput{VMInput: vmcommon.VMInput{CallValue: big.NewInt(0)}})
	}()
	arwen := common.NewMessengerPipes("ARWEN", toArwenRead, toNodeWrite, marshalizer)
	_, err = arwen.Receive(0)
	require.Nil(t, err)

	go driver.GasScheduleChange(config.MakeGasMapForTests())
	got := make(chan struct{})
	go func() {
		_, _ = arwen.Receive(0)
		close(got)
	}()
	select {
	case <-got:
		require.Fail(t, "a second request before the first one is answered")
	case <-time.After(3 * time.Second):
	}
}
''', header='', pkg='ipc/nodepart')
