H = '''package hosttest

import (
	"bytes"
	"errors"
	"math/big"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	test "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/testcommon"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/stretchr/testify/require"
)

var (
	_ = bytes.Equal
	_ = errors.New
	_ = big.NewInt
	_ = elrondapi.ExecuteOnSameContextWithTypedArgs
	_ arwen.VMHost
	_ *vmcommon.VMOutput
	_ = test.ParentAddress
	_ = require.Equal
)
'''
BUGS = []
def bug(id, prop, needs, breaks, edits, test, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, test=(kw.pop('header', H) + test), **kw))

bug('storage-restore-dropped', 'C06',
 'A contract changes a stored value, calls itself again (or is called back) and the inner execution writes the original value back.',
 'The update is dropped when the value equals the one the node has, so the outer execution and the node keep the intermediate value instead of the last one written.',
 [('arwen/contexts/storage.go', '''	storageUpdates[strKey] = newUpdate

''', '''	storageUpdates[strKey] = newUpdate

	// nothing to update in the node if the stored value has been restored
	persistedValue, errPersisted := context.blockChainHook.GetStorageData(context.address, key)
	if errPersisted == nil && len(persistedValue) > 0 && bytes.Equal(persistedValue, value) {
		delete(storageUpdates, strKey)
	}

''')], '''
func TestVerifDemo(t *testing.T) {
	key := []byte("demo-key")
	var seen []byte
	host, world := demoHost(t, demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
		"outer": func(host arwen.VMHost) {
			_, err := host.Storage().SetStorage(key, []byte("changed"))
			require.Nil(t, err)
			require.Equal(t, int32(0), onDest(host, 1000, 0, test.ParentAddress, "inner"))
			seen = append([]byte{}, host.Storage().GetStorage(key)...)
		},
		"inner": func(host arwen.VMHost) {
			_, err := host.Storage().SetStorage(key, []byte("original"))
			require.Nil(t, err)
		},
	}})
	world.AcctMap.GetAccount(test.ParentAddress).Storage[string(key)] = []byte("original")
	out := demoCall(t, host, test.ParentAddress, "outer", 10000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	require.Equal(t, "original", string(seen))
}
''')

bug('readonly-nested-reset', 'C07',
 'A read-only call makes another read-only call itself, and then writes.',
 'The end of the inner read-only call ends the read-only mode of the outer one, which may then write.',
 [('arwen/contexts/runtime.go', '''	context.readOnly = prevState.readOnly
	context.asyncCallInfo = prevState.asyncCallInfo''', '''	context.readOnly = prevState.readOnly && len(context.stateStack) == 0
	context.asyncCallInfo = prevState.asyncCallInfo''')], '''
func TestVerifDemo(t *testing.T) {
	key := []byte("demo-key")
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
			"outer": func(host arwen.VMHost) {
				elrondapi.ExecuteReadOnlyWithTypedArguments(host, 5000, []byte("view"), test.ParentAddress, nil)
			},
			"view": func(host arwen.VMHost) {
				onDest(host, 1000, 0, test.ChildAddress, "other")
				_, _ = host.Storage().SetStorage(key, []byte("changed"))
			},
		}},
		demoSC{addr: test.ChildAddress, methods: demoMethods{
			"other": func(host arwen.VMHost) {
				onDest(host, 100, 0, test.ChildAddress, "leaf")
				_, _ = host.Storage().SetStorage(key, []byte("changed"))
			},
			"leaf": func(host arwen.VMHost) {},
		}})
	out := demoCall(t, host, test.ParentAddress, "outer", 10000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	for _, account := range out.OutputAccounts {
		update, ok := account.StorageUpdates[string(key)]
		require.True(t, !ok || len(update.Data) == 0)
	}
}
''')

bug('cross-shard-callback-drops-empty', 'C08',
 'An asynchronous call executed in another shard returns an empty value among its results.',
 'The callback message leaves out empty results, so the callback sees the remaining results in the wrong positions.',
 [('arwen/host/asyncCall.go', '''	for _, data := range output.ReturnData() {
		retData''', '''	for _, data := range output.ReturnData() {
		if len(data) == 0 {
			continue
		}
		retData''')], '''
func TestVerifDemo(t *testing.T) {
	host, _ := demoHost(t, demoSC{addr: test.ChildAddress, balance: 100, methods: demoMethods{
		"answer": func(host arwen.VMHost) {
			host.Output().Finish([]byte("one"))
			host.Output().Finish([]byte{})
			host.Output().Finish([]byte("three"))
		},
	}})
	input := demoInput(test.ChildAddress, "answer", 10000)
	input.CallerAddr = test.ParentAddress
	input.CallType = vmcommon.AsynchronousCall
	out, err := host.RunSmartContractCall(input)
	require.Nil(t, err)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	transfers := out.OutputAccounts[string(test.ParentAddress)].OutputTransfers
	require.Equal(t, 1, len(transfers))
	require.Equal(t, 4, bytes.Count(transfers[0].Data, []byte("@")))
}
''')

bug('long-key-foreign-read-free', 'C02',
 'A contract reads the storage of another, readable contract under a key longer than 32 bytes.',
 'The surcharge for long keys is not taken when the key is read from another account, so part of the operation is free of charge.',
 [('arwen/contexts/storage.go', '''	extraBytes := len(key) - arwen.AddressLen
	if extraBytes > 0 {
		gasToUse := math.MulUint64(metering.GasSchedule().BaseOperationCost.DataCopyPerByte, uint64(extraBytes))
		metering.UseGas(gasToUse)
	}

	if !bytes.Equal(address, context.address) {''', '''	extraBytes := len(key) - arwen.AddressLen
	isOwnStorage := bytes.Equal(address, context.address)
	if extraBytes > 0 && isOwnStorage {
		gasToUse := math.MulUint64(metering.GasSchedule().BaseOperationCost.DataCopyPerByte, uint64(extraBytes))
		metering.UseGas(gasToUse)
	}

	if !isOwnStorage {''')], '''
func TestVerifDemo(t *testing.T) {
	used := func(keyLen int) uint64 {
		key := bytes.Repeat([]byte("k"), keyLen)
		host, world := demoHost(t,
			demoSC{addr: test.ParentAddress, methods: demoMethods{
				"read": func(host arwen.VMHost) {
					_ = host.Storage().GetStorageFromAddress(test.ChildAddress, key)
				},
			}},
			demoSC{addr: test.ChildAddress, methods: demoMethods{"nothing": func(host arwen.VMHost) {}}})
		host.Metering().GasSchedule().BaseOperationCost.DataCopyPerByte = 3
		child := world.AcctMap.GetAccount(test.ChildAddress)
		child.CodeMetadata = (&vmcommon.CodeMetadata{Readable: true}).ToBytes()
		child.Storage[string(key)] = []byte("value")
		out := demoCall(t, host, test.ParentAddress, "read", 10000)
		require.Equal(t, vmcommon.Ok, out.ReturnCode)
		return 10000 - out.GasRemaining
	}
	require.Equal(t, uint64(60), used(52)-used(32))
}
''')

bug('callback-open-to-async-call', 'C12',
 'An asynchronous call that arrives from another shard names callBack as its function.',
 'The callback of the destination runs although no asynchronous call of the destination is being answered.',
 [('arwen/host/execution.go', '''	isInAsyncCallBack := runtime.GetVMInput().CallType == vmcommon.AsynchronousCallBack
''', '''	isInAsyncCallBack := runtime.GetVMInput().CallType != vmcommon.DirectCall
''')], '''
func TestVerifDemo(t *testing.T) {
	ran := false
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, methods: demoMethods{
			"callBack": func(host arwen.VMHost) { ran = true },
		}})
	input := demoInput(test.ParentAddress, "callBack", 1000000)
	input.CallType = vmcommon.AsynchronousCall
	out, err := host.RunSmartContractCall(input)
	require.Nil(t, err)
	require.NotEqual(t, vmcommon.Ok, out.ReturnCode)
	require.False(t, ran)
}
''')

bug('instance-limit-off-by-one', 'C14',
 'Recursion right up to the maximum number of simultaneously running contract instances.',
 'One instance more than the fixed maximum can run at the same time.',
 [('arwen/contexts/runtime.go', '''	if context.RunningInstancesCount() >= context.maxWasmerInstances {''',
   '''	if context.RunningInstancesCount() > context.maxWasmerInstances {''')], '''
func TestVerifDemo(t *testing.T) {
	depth, deepest := 0, 0
	host, _ := demoHost(t, demoSC{addr: test.ParentAddress, methods: demoMethods{
		"recurse": func(host arwen.VMHost) {
			depth++
			if depth > deepest {
				deepest = depth
			}
			onDest(host, 1000000, 0, test.ParentAddress, "recurse")
			depth--
		},
	}})
	host.Runtime().SetMaxInstanceCount(5)
	_ = demoCall(t, host, test.ParentAddress, "recurse", 10000000)
	require.Equal(t, 5, deepest)
}
''')
