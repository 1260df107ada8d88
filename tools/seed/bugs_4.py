from bugs_1 import H
BUGS = []
def bug(id, prop, needs, breaks, edits, test, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, test=(kw.pop('header', H) + test), **kw))

bug('storage-protection-left-off', 'C05',
 'The node panics while a contract sets a lock in its storage; a later transaction writes to a protected key.',
 'The protection of the keys that belong to the VM stays off after the recovered panic, and later contracts overwrite them.',
 [('arwen/contexts/storage.go', '''	context.disableStorageProtection()
	defer context.enableStorageProtection()

	return context.SetStorage(key, value)
''', '''	context.disableStorageProtection()
	status, err := context.SetStorage(key, value)
	context.enableStorageProtection()

	return status, err
''')], '''
type demoPanics struct {
	*worldmock.MockWorld
	armed bool
}

func (hook *demoPanics) GetStorageData(address []byte, key []byte) ([]byte, error) {
	if hook.armed {
		panic("demo")
	}
	return hook.MockWorld.GetStorageData(address, key)
}

func TestVerifDemo(t *testing.T) {
	world := worldmock.NewMockWorld()
	hook := &demoPanics{MockWorld: world}
	host := test.DefaultTestArwen(t, hook)
	imb := contextmock.NewInstanceBuilderMock(world)
	host.Runtime().ReplaceInstanceBuilder(imb)
	instance := imb.CreateAndStoreInstanceMock(t, host, test.ParentAddress, 0, 0)
	key := []byte(arwen.ProtectedStoragePrefix + "demo")
	var err error
	instance.AddMockMethod("lock", func() *contextmock.InstanceMock {
		hook.armed = true
		defer func() { hook.armed = false }()
		_, _ = host.Storage().SetProtectedStorage(key, []byte("x"))
		return contextmock.GetMockInstance(host)
	})
	instance.AddMockMethod("write", func() *contextmock.InstanceMock {
		_, err = host.Storage().SetStorage(key, []byte("y"))
		return contextmock.GetMockInstance(host)
	})
	setZeroCodeCosts(host)
	world.CreateStateBackup()
	_, _ = host.RunSmartContractCall(demoInput(test.ParentAddress, "lock", 10000))
	hook.armed = false
	_ = demoCall(t, host, test.ParentAddress, "write", 10000)
	require.Equal(t, arwen.ErrCannotWriteProtectedKey, err)
}
''', header=H.replace('import (', '''import (
	contextmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/context"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
'''))

bug('reserved-keys-deletable', 'C06',
 'A contract stores an empty value under a key reserved for the protocol, e.g. that of its token balance.',
 'The check of reserved keys is only made for values that are not empty, so contracts can delete what the protocol keeps in their storage.',
 [('arwen/contexts/storage.go', '''	if context.isElrondReservedKey(key) {
		logStorage.Trace("storage set", "error", arwen''', '''	if len(value) > 0 && context.isElrondReservedKey(key) {
		logStorage.Trace("storage set", "error", arwen''')], '''
func TestVerifDemo(t *testing.T) {
	var err error
	host, _ := demoHost(t, demoSC{addr: test.ParentAddress, methods: demoMethods{
		"delete": func(host arwen.VMHost) {
			_, err = host.Storage().SetStorage([]byte(vmcommon.ElrondProtectedKeyPrefix+"esdtTOK"), nil)
		},
	}})
	_ = demoCall(t, host, test.ParentAddress, "delete", 10000)
	require.NotNil(t, err)
}
''')

bug('known-code-not-verified', 'C09',
 'Code that breaks the rules for contracts is deployed a second time, by a host with the same cache of compiled code.',
 'Code whose compiled form is in the cache is not verified; the first, refused, deployment puts it there.',
 [('arwen/contexts/runtime.go', '''	context.saveCompiledCode(codeHash)

	hostR''', '''	known, _ := context.host.Blockchain().GetCompiledCode(codeHash)
	context.saveCompiledCode(codeHash)

	hostR'''), ('arwen/contexts/runtime.go', '''	if newCode {
		err = context.VerifyContractCode()''', '''	if newCode && !known {
		err = context.VerifyContractCode()''')], '''
func TestVerifDemo(t *testing.T) {
	host, _ := demoHost(t,
		demoSC{addr: test.UserAddress},
		demoSC{addr: test.ChildAddress, methods: demoMethods{
			"getCaller": func(host arwen.VMHost) {},
		}})
	for i := 0; i < 2; i++ {
		out, err := host.RunSmartContractCreate(test.CreateTestContractCreateInputBuilder().
			WithCallerAddr(test.UserAddress).WithContractCode(test.ChildAddress).WithGasProvided(1000000).Build())
		require.Nil(t, err)
		require.NotEqual(t, vmcommon.Ok, out.ReturnCode)
	}
}
''')

bug('callback-gets-value-with-result', 'C08',
 'The destination of an asynchronous call sends value back to its caller and also returns data.',
 'The callback is shown the value of the last transfer although the destination returned data, and the value counts twice.',
 [('arwen/host/asyncCall.go', '''	if len(destinationVMOutput.ReturnData) > 0 {
		return big.NewInt(0)
	}

''', '')], '''
func TestVerifDemo(t *testing.T) {
	var seen *big.Int
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
			"start": func(host arwen.VMHost) {
				err := host.Runtime().ExecuteAsyncCall(test.ChildAddress, []byte("answer"), big.NewInt(0).Bytes())
				require.Nil(t, err)
			},
			"callBack": func(host arwen.VMHost) {
				seen = big.NewInt(0).Set(host.Runtime().GetVMInput().CallValue)
			},
		}},
		demoSC{addr: test.ChildAddress, balance: 100, methods: demoMethods{
			"answer": func(host arwen.VMHost) {
				err := host.Output().Transfer(test.ParentAddress, test.ChildAddress, 0, 0, big.NewInt(7), nil, vmcommon.DirectCall)
				require.Nil(t, err)
				host.Output().Finish([]byte("result"))
			},
		}})
	out := demoCall(t, host, test.ParentAddress, "start", 1000000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	require.NotNil(t, seen)
	require.Equal(t, int64(0), seen.Int64())
}
''')
