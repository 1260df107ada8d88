from bugs_1 import H
BUGS = []
def bug(id, prop, needs, breaks, edits, test, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, test=(kw.pop('header', H) + test), **kw))

bug('self-transfer-mints', 'C03',
 'A contract transfers value to itself, or calls itself with a value.',
 'Both new balances are computed from the balance before the transfer, so the credit overwrites the debit and the contract gains the value.',
 [('arwen/contexts/output.go', '''	senderAcc.BalanceDelta = big.NewInt(0).Sub(senderAcc.BalanceDelta, value)
	destAcc.BalanceDelta = big.NewInt(0).Add(destAcc.BalanceDelta, value)
''', '''	senderDelta := big.NewInt(0).Sub(senderAcc.BalanceDelta, value)
	destDelta := big.NewInt(0).Add(destAcc.BalanceDelta, value)
	senderAcc.BalanceDelta = senderDelta
	destAcc.BalanceDelta = destDelta
''')], '''
func TestVerifDemo(t *testing.T) {
	host, _ := demoHost(t, demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
		"outer": func(host arwen.VMHost) {
			require.Equal(t, int32(0), onDest(host, 1000, 7, test.ParentAddress, "inner"))
		},
		"inner": func(host arwen.VMHost) {},
	}})
	out := demoCall(t, host, test.ParentAddress, "outer", 10000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	require.Equal(t, int64(0), out.OutputAccounts[string(test.ParentAddress)].BalanceDelta.Int64())
}
''')

bug('failed-upgrade-poisons-cache', 'C04',
 'An upgrade of a contract fails after its new code has been compiled; the contract is called later by a host with the same code cache.',
 'The compiled new code is cached under the hash of the old code, so later executions of the contract run the code of the failed upgrade.',
 [('arwen/contexts/runtime.go', '''	if newCode || len(codeHash) == 0 {
		codeHash, err =''', '''	if len(codeHash) == 0 {
		codeHash, err =''')], '''
func TestVerifDemo(t *testing.T) {
	ran := ""
	host, world := demoHost(t,
		demoSC{addr: test.ParentAddress, methods: demoMethods{
			"do": func(host arwen.VMHost) { ran = "old" },
		}},
		demoSC{addr: test.ChildAddress, methods: demoMethods{
			"init": func(host arwen.VMHost) { host.Runtime().SignalUserError("demo failure") },
			"do":   func(host arwen.VMHost) { ran = "new" },
		}})
	world.ClearCompiledCodes()
	world.AcctMap.GetAccount(test.ParentAddress).CodeHash = []byte("hash of the old code")
	out := demoCall(t, host, test.ParentAddress, arwen.UpgradeFunctionName, 1000000, test.ChildAddress, []byte{1, 0})
	require.NotEqual(t, vmcommon.Ok, out.ReturnCode)
	out = demoCall(t, host, test.ParentAddress, "do", 1000000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	require.Equal(t, "old", ran)
}
''')

bug('readonly-mode-outlives-crash', 'C05',
 'The node (or the VM) panics while a read-only call is running; the next transaction writes.',
 'The read-only mode survives the recovered panic: later executions silently lose their writes.',
 [('arwen/contexts/runtime.go', '''	context.verifyCode = false
	context.readOnly = false
	context.asyncCallInfo = nil
''', '''	context.verifyCode = false
	context.asyncCallInfo = nil
''')], '''
func TestVerifDemo(t *testing.T) {
	key := []byte("demo-key")
	host, _ := demoHost(t, demoSC{addr: test.ParentAddress, methods: demoMethods{
		"outer": func(host arwen.VMHost) {
			elrondapi.ExecuteReadOnlyWithTypedArguments(host, 5000, []byte("view"), test.ParentAddress, nil)
		},
		"view":  func(host arwen.VMHost) { panic(errors.New("demo panic")) },
		"write": func(host arwen.VMHost) { _, _ = host.Storage().SetStorage(key, []byte("changed")) },
	}})
	_, err := host.RunSmartContractCall(demoInput(test.ParentAddress, "outer", 10000))
	require.NotNil(t, err)
	out := demoCall(t, host, test.ParentAddress, "write", 10000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	update, ok := out.OutputAccounts[string(test.ParentAddress)].StorageUpdates[string(key)]
	require.True(t, ok)
	require.Equal(t, "changed", string(update.Data))
}
''')

bug('token-callback-loses-result', 'C08',
 'An asynchronous call within a shard sends tokens back through its return data, together with exactly one more result.',
 'The callback receives the tokens but not the result.',
 [('arwen/host/asyncCall.go', '''		if len(destinationVMOutput.ReturnData) > 1 {''', '''		numResults := len(destinationVMOutput.ReturnData) - 1
		if numResults > 1 {''')], '''
func TestVerifDemo(t *testing.T) {
	var got [][]byte
	token := []byte("DEMO-123456")
	host, world := demoHost(t,
		demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
			"outer": func(host arwen.VMHost) {
				err := host.Runtime().ExecuteAsyncCall(test.ChildAddress, []byte("answer"), big.NewInt(0).Bytes())
				require.Nil(t, err)
			},
			"callBack": func(host arwen.VMHost) {
				for _, arg := range host.Runtime().Arguments() {
					got = append(got, append([]byte{}, arg...))
				}
			},
		}},
		demoSC{addr: test.ChildAddress, balance: 100, methods: demoMethods{
			"answer": func(host arwen.VMHost) {
				host.Output().Finish([]byte("ESDTTransfer@" + hex.EncodeToString(token) + "@01"))
				host.Output().Finish([]byte("result"))
			},
		}})
	require.Nil(t, world.AcctMap.GetAccount(test.ChildAddress).SetTokenBalanceUint64([]byte("ELRONDesdtDEMO-123456"), 10))
	out := demoCall(t, host, test.ParentAddress, "outer", 1000000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	require.Equal(t, 2, len(got))
	require.Equal(t, "result", string(got[1]))
}
''', header=H.replace('"bytes"\n', '"bytes"\n\t"encoding/hex"\n'))

bug('second-upgrade-keeps-metadata', 'C09',
 'A contract upgrades another one twice within one transaction, with different code metadata.',
 'The output carries the code of the second upgrade with the metadata of the first one.',
 [('arwen/contexts/output.go', '''	if len(rightAccount.CodeMetadata) > 0 {
		leftAccount''', '''	if len(leftAccount.CodeMetadata) == 0 {
		leftAccount''')], '''
func TestVerifDemo(t *testing.T) {
	newCode := []byte("new code")
	host, world := demoHost(t,
		demoSC{addr: test.ParentAddress, methods: demoMethods{
			"outer": func(host arwen.VMHost) {
				require.Equal(t, int32(0), onDest(host, 10000, 0, test.ChildAddress, arwen.UpgradeFunctionName, newCode, []byte{1, 0}))
				require.Equal(t, int32(0), onDest(host, 10000, 0, test.ChildAddress, arwen.UpgradeFunctionName, newCode, []byte{1, 2}))
			},
		}},
		demoSC{addr: test.ChildAddress, methods: demoMethods{"nothing": func(host arwen.VMHost) {}}},
		demoSC{addr: newCode, methods: demoMethods{"nothing": func(host arwen.VMHost) {}}})
	child := world.AcctMap.GetAccount(test.ChildAddress)
	child.OwnerAddress = test.ParentAddress
	child.CodeMetadata = []byte{1, 0}
	out := demoCall(t, host, test.ParentAddress, "outer", 100000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	account := out.OutputAccounts[string(test.ChildAddress)]
	require.Equal(t, newCode, account.Code)
	require.Equal(t, []byte{1, 2}, account.CodeMetadata)
}
''')

bug('schedule-change-not-exclusive', 'C11',
 'The node changes the gas schedule while a contract is executing.',
 'The change no longer waits for running executions, so one execution is charged partly by the old and partly by the new schedule.',
 [('arwen/host/arwen.go', '''	host.mutExecution.Lock()
	defer host.mutExecution.Unlock()

	gasCostConfig''', '''	host.mutExecution.RLock()
	defer host.mutExecution.RUnlock()

	gasCostConfig''')], '''
func TestVerifDemo(t *testing.T) {
	before, after := uint64(0), uint64(0)
	done := make(chan struct{})
	host, _ := demoHost(t, demoSC{addr: test.ParentAddress, methods: demoMethods{
		"outer": func(host arwen.VMHost) {
			before = host.Metering().GasSchedule().ElrondAPICost.AsyncCallStep
			go func() {
				host.GasScheduleChange(config.MakeGasMap(before+77, 1))
				close(done)
			}()
			time.Sleep(500 * time.Millisecond)
			after = host.Metering().GasSchedule().ElrondAPICost.AsyncCallStep
		},
	}})
	_ = demoCall(t, host, test.ParentAddress, "outer", 10000)
	require.Equal(t, before, after)
	<-done
	require.Equal(t, before+77, host.Metering().GasSchedule().ElrondAPICost.AsyncCallStep)
}
''', header=H.replace('"testing"\n', '"testing"\n\t"time"\n').replace('arwen/elrondapi"\n', 'arwen/elrondapi"\n\t"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"\n'))

bug('eth-constructor-callable', 'C12',
 'A contract exports solidity.ctor, and a transaction names it as the function to call.',
 'The constructor runs, as if the contract were deployed again.',
 [('arwen/host/execution.go', '''	isInit := functionName == arwen.InitFunctionName || functionName == arwen.InitFunctionNameEth
	if isInit {''', '''	isInit := functionName == arwen.InitFunctionName
	if isInit {''')], '''
func TestVerifDemo(t *testing.T) {
	ran := false
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, methods: demoMethods{
			arwen.InitFunctionNameEth: func(host arwen.VMHost) { ran = true },
		}})
	out := demoCall(t, host, test.ParentAddress, arwen.InitFunctionNameEth, 100000)
	require.NotEqual(t, vmcommon.Ok, out.ReturnCode)
	require.False(t, ran)
}
''')

bug('builtin-transfers-lost', 'C13',
 'A contract sends several transfers to an account before a builtin function it calls sends one to the same account.',
 'The transfers of the builtin function are dropped from the output.',
 [('arwen/contexts/output.go', '''		if len(rightAccount.OutputTransfers) > 0 {
			leftAccount''', '''		if len(rightAccount.OutputTransfers) > len(leftAccount.OutputTransfers) {
			leftAccount''')], '''
func TestVerifDemo(t *testing.T) {
	transfer := func(data string) vmcommon.OutputTransfer {
		return vmcommon.OutputTransfer{Value: big.NewInt(0), Data: []byte(data), SenderAddress: test.ParentAddress}
	}
	host, _ := demoHost(t, demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
		"outer": func(host arwen.VMHost) {
			err := host.Output().Transfer(test.UserAddress, test.ParentAddress, 0, 0, big.NewInt(0), []byte("one"), vmcommon.DirectCall)
			require.Nil(t, err)
			host.Output().AddToActiveState(&vmcommon.VMOutput{OutputAccounts: map[string]*vmcommon.OutputAccount{
				string(test.UserAddress): {Address: test.UserAddress, OutputTransfers: []vmcommon.OutputTransfer{transfer("two")}},
			}})
		},
	}})
	out := demoCall(t, host, test.ParentAddress, "outer", 10000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	transfers := out.OutputAccounts[string(test.UserAddress)].OutputTransfers
	require.Equal(t, 2, len(transfers))
	require.Equal(t, "two", string(transfers[1].Data))
}
''')

bug('esdt-one-epoch-late', 'C15',
 'Code is deployed, or value is transferred, in exactly the epoch in which the ESDT functions are activated.',
 'The ESDT functions are activated one epoch later than configured.',
 [('arwen/host/arwen.go', '''	host.flagESDTFunctions.Toggle(currentEpoch >= host.eSDTFunctionsEnableEpoch)''',
   '''	host.flagESDTFunctions.Toggle(currentEpoch > host.eSDTFunctionsEnableEpoch)''')], '''
func TestVerifDemo(t *testing.T) {
	enabled := false
	world := worldmock.NewMockWorld()
	gasSchedule := config.MakeGasMapForTests()
	require.Nil(t, world.InitBuiltinFunctions(gasSchedule))
	host, err := arwenHost.NewArwenVM(world, &arwen.VMHostParameters{
		VMType:                   test.DefaultVMType,
		BlockGasLimit:            uint64(1000),
		GasSchedule:              gasSchedule,
		BuiltInFuncContainer:     world.BuiltinFuncs.Container,
		ElrondProtectedKeyPrefix: []byte("ELROND"),
		ArwenESDTFunctionsEnableEpoch: 3,
	})
	require.Nil(t, err)
	at := func(epoch uint32) bool {
		world.CurrentBlockInfo = &worldmock.BlockInfo{BlockEpoch: epoch}
		host.InitState()
		enabled = host.IsESDTFunctionsEnabled()
		return enabled
	}
	require.False(t, at(2))
	require.True(t, at(3))
	require.True(t, at(4))
}
''', header=H.replace('arwen/elrondapi"\n', 'arwen/elrondapi"\n\tarwenHost "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"\n\t"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"\n\tworldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"\n'))

WM = H.replace('testcommon"\n', 'testcommon"\n\tworldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"\n').replace('\t_ = require.Equal\n', '\t_ = require.Equal\n\t_ *worldmock.MockWorld\n')

bug('failed-call-keeps-writes', 'C01',
 'An asynchronous call within a shard writes storage of a contract the transaction has already touched, and fails; the transaction goes on.',
 'The snapshot of the outputs shares the storage updates with the live outputs, so the writes of the failed call are still there after it.',
 [('arwen/contexts/output.go', '''	if leftAccount.StorageUpdates == nil {
		leftAccount.StorageUpdates = make(map[string]*vmcommon.StorageUpdate)
	}
	for key, update''', '''	if len(leftAccount.StorageUpdates) == 0 {
		leftAccount.StorageUpdates = rightAccount.StorageUpdates
		return
	}
	for key, update''')], '''
func TestVerifDemo(t *testing.T) {
	key := []byte("demo-key")
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
			"outer": func(host arwen.VMHost) {
				require.Equal(t, int32(0), onDest(host, 1000, 0, test.ChildAddress, "good"))
				err := host.Runtime().ExecuteAsyncCall(test.ChildAddress, []byte("bad"), []byte{})
				require.Nil(t, err)
			},
			"callBack": func(host arwen.VMHost) {},
		}},
		demoSC{addr: test.ChildAddress, methods: demoMethods{
			"good": func(host arwen.VMHost) { _, _ = host.Storage().SetStorage(key, []byte("good")) },
			"bad": func(host arwen.VMHost) {
				_, _ = host.Storage().SetStorage(key, []byte("bad"))
				host.Runtime().SignalUserError("demo failure")
			},
		}})
	out := demoCall(t, host, test.ParentAddress, "outer", 1000000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	require.Equal(t, "good", string(out.OutputAccounts[string(test.ChildAddress)].StorageUpdates[string(key)].Data))
}
''')

bug('used-storage-readable-by-all', 'C06',
 'A contract reads the storage of another one that is not readable, after that one has used the same key within the transaction.',
 'What the transaction has already loaded or written is handed out without asking whether the other contract is readable.',
 [('arwen/contexts/storage.go', '''	if !bytes.Equal(address, context.address) {
		userAcc''', '''	_, isLoaded := context.GetStorageUpdates(address)[string(key)]
	if !isLoaded && !bytes.Equal(address, context.address) {
		userAcc''')], '''
func TestVerifDemo(t *testing.T) {
	key := []byte("demo-key")
	var seen []byte
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, methods: demoMethods{
			"outer": func(host arwen.VMHost) {
				require.Equal(t, int32(0), onDest(host, 1000, 0, test.ChildAddress, "write"))
				seen = append([]byte{}, host.Storage().GetStorageFromAddress(test.ChildAddress, key)...)
			},
		}},
		demoSC{addr: test.ChildAddress, methods: demoMethods{
			"write": func(host arwen.VMHost) { _, _ = host.Storage().SetStorage(key, []byte("private")) },
		}})
	out := demoCall(t, host, test.ParentAddress, "outer", 10000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	require.Equal(t, "", string(seen))
}
''')

bug('readonly-may-lock', 'C07',
 'A contract that is called read-only sets or clears a time lock.',
 'The storage that the VM keeps for contracts is exempt from the read-only mode.',
 [('arwen/contexts/storage.go', '''	if context.host.Runtime().ReadOnly() {
		logStorage''', '''	isContractWrite := context.arwenStorageProtectionEnabled
	if isContractWrite && context.host.Runtime().ReadOnly() {
		logStorage''')], '''
func TestVerifDemo(t *testing.T) {
	key := arwen.CustomStorageKey(arwen.TimeLockKeyPrefix, []byte("demo-key"))
	host, _ := demoHost(t, demoSC{addr: test.ParentAddress, balance: 100, methods: demoMethods{
		"outer": func(host arwen.VMHost) {
			elrondapi.ExecuteReadOnlyWithTypedArguments(host, 5000, []byte("view"), test.ParentAddress, nil)
		},
		"view": func(host arwen.VMHost) { _, _ = host.Storage().SetProtectedStorage(key, []byte("100")) },
	}})
	out := demoCall(t, host, test.ParentAddress, "outer", 10000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	for _, account := range out.OutputAccounts {
		update, ok := account.StorageUpdates[string(key)]
		require.True(t, !ok || len(update.Data) == 0)
	}
}
''')

bug('caller-forgets-its-function', 'C10',
 'A contract asks for the name of its running function after a nested call has returned.',
 'It is told the function of the contract it has called.',
 [('arwen/contexts/runtime.go', '''	context.callFunction = prevState.callFunction
''', '''	if len(context.stateStack) == 0 {
		context.callFunction = prevState.callFunction
	}
''')], '''
func TestVerifDemo(t *testing.T) {
	seen := ""
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, methods: demoMethods{
			"outer": func(host arwen.VMHost) { onDest(host, 10000, 0, test.ChildAddress, "inner") },
		}},
		demoSC{addr: test.ChildAddress, methods: demoMethods{
			"inner": func(host arwen.VMHost) {
				onDest(host, 1000, 0, test.ChildAddress, "leaf")
				seen = host.Runtime().Function()
			},
			"leaf": func(host arwen.VMHost) {},
		}})
	out := demoCall(t, host, test.ParentAddress, "outer", 100000)
	require.Equal(t, vmcommon.Ok, out.ReturnCode)
	require.Equal(t, "inner", seen)
}
''')

bug('constructor-beyond-limit', 'C14',
 'Recursion through constructors reaches the maximum number of running instances exactly with a deployment.',
 'New code is exempt from the limit of simultaneously running instances.',
 [('arwen/contexts/runtime.go', '''	if context.RunningInstancesCount() >= context.maxWasmerInstances {''',
   '''	if !newCode && context.RunningInstancesCount() >= context.maxWasmerInstances {''')], '''
func TestVerifDemo(t *testing.T) {
	code := []byte("recursive code")
	depth, deepest := 0, 0
	enter := func() {
		depth++
		if depth > deepest {
			deepest = depth
		}
	}
	host, _ := demoHost(t,
		demoSC{addr: test.ParentAddress, methods: demoMethods{
			"start": func(host arwen.VMHost) {
				enter()
				_, _ = host.CreateNewContract(&vmcommon.ContractCreateInput{
					VMInput: vmcommon.VMInput{
						CallerAddr:  host.Runtime().GetSCAddress(),
						CallValue:   big.NewInt(0),
						GasProvided: host.Metering().GasLeft() / 2,
					},
					ContractCode:         code,
					ContractCodeMetadata: []byte{1, 0},
				})
				depth--
			}}},
		demoSC{addr: code, methods: demoMethods{
			"init": func(host arwen.VMHost) {
				enter()
				onDest(host, int64(host.Metering().GasLeft()/2), 0, test.ParentAddress, "start")
				depth--
			}}})
	host.Runtime().SetMaxInstanceCount(5)
	_ = demoCall(t, host, test.ParentAddress, "start", 100000000)
	require.Equal(t, 5, deepest)
}
''')
