#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the file stays consistently formatted).
import json
P=[]
def p(id,title,statement,over,q,tests,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=tests,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
H='arwen/host/'; C='arwen/contexts/'; E='arwen/elrondapi/'
p('C01','A failed execution leaves no trace',
 'If a contract execution fails - a transaction, or one nested call, callback, deployment or upgrade inside a transaction that itself goes on - then none of its own effects (balances, token balances, storage, code, nonces, logs, return data, pending transfers and async calls) is visible afterwards, to the contracts that keep running or in the final output. Everything done before it, and by the parts that succeeded, is still there, exactly once.',
 ['programs','fault_sequences','histories'],
 'every program of contracts calling each other by every call kind, every point at which one of them can fail (user error, out of gas, bad call, host or storage fault), and every continuation after the failure',
 'The hosttest suites run a few fixed parent/child contracts with one failure point each; no test enumerates where in a call tree the failure falls, mixes call kinds, or looks at what the survivor observes afterwards.',
 [H+'execution.go',H+'asyncCall.go',C+'output.go',C+'metering.go',C+'runtime.go',C+'storage.go',C+'blockchain.go',C+'bigint.go'],
 [('state stacks pushed before a nested execution and popped after it',H+'execution.go: executeOnDestContextNoBuiltinFunction, finishExecuteOnDestContext, ExecuteOnSameContext'),('blockchain snapshot and revert around built-in functions',C+'blockchain.go: PushState, PopSetActiveState'),('empty output on failure',C+'output.go: CreateVMOutputInCaseOfError')],
 ['VMOutput returned by the VM','blockchain hook calls','results of API calls seen by the surviving contract'])
p('C02','Gas is neither created nor lost',
 'For every execution, gas used plus gas remaining plus gas sent along with transfers equals the gas provided, no part of it ever exceeds what was provided, and a nested call can consume at most the gas its caller handed to it, returning the unused rest to the caller. Every contract-visible operation is paid for according to the active gas schedule, and an execution that runs out of gas ends with the out-of-gas code and consumes all the gas it was given.',
 ['programs','inputs','configurations'],
 'every program of nested, async and built-in calls, every gas limit (including limits that run out at any particular operation) and every gas schedule',
 'execution_gas_test checks a handful of hand-computed gas totals for fixed contracts at generous limits; nothing sweeps the gas limit so that the out-of-gas point falls on every operation, nor varies the schedule.',
 [C+'metering.go',H+'execution.go',H+'asyncCall.go',C+'output.go',E+'elrondei.go',E+'bigIntOps.go','wasmer/instance.go','config/gasCost.go'],
 [('per-context metering state, merged when a nested call succeeds',C+'metering.go: PushState, PopMergeActiveState, updateSCGasUsed, checkGas'),('use all gas of the nested call up front, then restore the rest',H+'execution.go: execute, finishExecuteOnDestContext'),('gas charges of each API function',E+'elrondei.go')],
 ['VMOutput.GasRemaining, OutputAccounts[].GasUsed, OutputTransfers[].GasLimit/GasLocked','gas points of the running instance around each API call'])
p('C03','Value and tokens are conserved',
 'Executions only move value: over all accounts, in all shards, together with the value carried by messages still in flight, the total of native value and of every fungible token stays constant (apart from exactly what protocol functions create or destroy) whatever the contracts do, whatever fails, and however messages are delayed or bounced. No account is ever debited more than it owns, and only an executing contract\'s own account, or the sender of the transaction, is debited.',
 ['programs','histories','schedules','fault_sequences'],
 'every history of transactions, transfers, async calls and callbacks between contracts in several shards, every delivery order of the messages between shards, and every failure',
 'Tests check the balance deltas of single transfers; no test sums balances over a history, and none runs a cross-shard message through more than one hop.',
 [C+'output.go',H+'execution.go',H+'asyncCall.go',E+'elrondei.go',E+'bigIntOps.go'],
 [('balance deltas with sufficient-funds check',C+'output.go: TransferValueOnly, Transfer'),('token moves through protocol built-in functions',C+'output.go: TransferESDT; '+H+'execution.go: ExecuteESDTTransfer, callBuiltinFunction')],
 ['BalanceDelta and OutputTransfers of every output account','token balances in the accounts after each transaction'])
p('C04','Executions are deterministic and independent of host history',
 'The output of an execution is a function of the blockchain state, the transaction and the active configuration only. A host that has executed any other transactions before, has anything (or nothing, or a stale or unusable entry) in its compiled-code cache, or is a different process, produces bit-identical output, including the order of everything ordered in it.',
 ['histories','schedules','configurations','fault_sequences'],
 'every history executed earlier on the same host, every state of the compiled-code cache, and every repetition in another process',
 'Tests build a fresh host for each case and run it once; none compares two hosts with different histories, and a map-ordering or stale-cache dependency only shows in repeated runs.',
 [C+'runtime.go',C+'metering.go',C+'output.go',H+'asyncCall.go',H+'arwen.go','wasmer/instance.go'],
 [('contexts reinitialised at the start of every execution',H+'arwen.go: InitState, initContexts'),('compiled code keyed by code hash',C+'runtime.go: makeInstanceFromCompiledCode, saveCompiledCode')],
 ['VMOutput compared between a long-lived host and a fresh host or a second process'])
p('C05','The host survives whatever contracts and environment do',
 'No contract code, arguments, or failure of the surrounding node or of memory can crash the VM, make it hang, or leave it unable to execute: every execution returns, with a success output or an error, and the next execution behaves as it would on a fresh VM. No running contract instance is leaked, used after it was released, or released twice.',
 ['programs','inputs','fault_sequences','histories'],
 'every program, including ones passing arbitrary offsets, lengths, handles and identifiers to API functions, every failure of a node callback, of instance creation, of memory growth, at every point; and any number of such executions in sequence',
 'Tests exercise one failing call per API at most, always on a fresh host; none continues to use the host after a failure deep in a call tree, or counts instances.',
 [H+'arwen.go',C+'runtime.go',H+'execution.go',E+'elrondei.go',E+'bigIntOps.go','wasmer/instance.go','wasmer/memory.go','arwen/helpers.go'],
 [('panic recovery around each execution',H+'arwen.go: TryCatch'),('bounds-checked access to contract memory',C+'runtime.go: MemLoad, MemStore'),('instance stack and cleaning',C+'runtime.go: pushInstance, popInstance, CleanWasmerInstance')],
 ['return value of each execution','number of live instances in the engine','outputs after the failure compared with a fresh host'])
p('C06','Contract storage reads and writes are exact and private',
 'A contract reads back exactly the last value successfully written under that key by the same contract - in the same execution, in nested or re-entrant executions, and in later transactions - and an unwritten key reads as empty. Only a contract\'s own executions change its storage; keys reserved by the protocol or by the VM cannot be written by contracts; another contract\'s storage is readable only if that contract is marked readable; a time lock reads back as it was last set.',
 ['programs','histories'],
 'every sequence of storage operations, of any key and value lengths, over nested, re-entrant and successive executions of any contracts',
 'storage_test drives single set/get pairs on a mocked host; contracts re-entering each other over a shared storage cache and later transactions are not explored.',
 [C+'storage.go',E+'elrondei.go',E+'bigIntOps.go',E+'smallIntOps.go',C+'output.go'],
 [('storage updates cached per output account',C+'storage.go: GetStorageUnmetered, SetStorage'),('protected and reserved key checks',C+'storage.go: SetStorage'),('time lock entries',E+'elrondei.go: setStorageLock, isStorageLocked')],
 ['results and data of storage API calls','StorageUpdates of the output accounts'])
p('C07','Read-only executions change nothing',
 'While a call executes in read-only mode, neither it nor anything it calls, by any call kind and to any depth, changes any persistent state: no storage write, value or token transfer, deployment, upgrade, log or message is produced by it, and it still returns its results to its caller. The mode ends exactly when that call returns: the caller keeps the rights it had before.',
 ['programs'],
 'every program in which read-only calls nest with every other call kind, in every order, including several read-only calls one inside and after another',
 'Only one test performs a read-only call, of a contract that writes storage directly; nesting is not covered.',
 [E+'elrondei.go',C+'runtime.go',C+'storage.go',C+'output.go',H+'execution.go'],
 [('read-only flag in the runtime context',C+'runtime.go: SetReadOnly, InitState, PushState'),('flag checked where effects are produced',C+'storage.go: SetStorage; '+C+'output.go: WriteLog; '+H+'execution.go: CreateNewContract')],
 ['effects between entry and exit of the read-only call in the engine trace and in the output'])
p('C08','Every async call gets exactly one matching callback',
 'If a contract makes an asynchronous call, the destination is executed at most once with exactly the requested function, arguments and value, and afterwards the caller\'s callback runs exactly once, with the code and the results (or the error) of that execution - whether both are in the same shard or the call and the callback travel as messages between shards, in any order and with any delay. The gas locked for the callback is not available to anything but the callback, and value sent with a failed call is returned.',
 ['programs','schedules','histories','fault_sequences'],
 'every program issuing asynchronous calls, built-in calls included, whose destination succeeds, fails or runs out of gas; every placement of contracts in shards; every delivery order of the messages',
 'Tests run one fixed async pair in one shard and check some outputs; cross-shard callbacks are only tested as single hand-written steps.',
 [H+'asyncCall.go',H+'execution.go',C+'runtime.go',C+'metering.go',E+'elrondei.go'],
 [('async call breakpoint',C+'runtime.go: ExecuteAsyncCall; '+H+'asyncCall.go: handleAsyncCallBreakpoint'),('callback input built from the destination output',H+'asyncCall.go: createCallbackContractCallInput, sendCallbackToCurrentCaller'),('gas lock',C+'metering.go: ComputeGasLockedForAsync, unlockGasIfAsyncCallback')],
 ['sequence of function entries in the engine trace, with their call type, caller, value and arguments','OutputTransfers that carry calls and callbacks'])
p('C09','Deployed code is verified, complete and upgradable only by its owner',
 'A deployment or upgrade takes effect only if the code is valid and verified and its init function succeeded; then the output carries exactly the given code, metadata and deployer under the address the node derives for that creator, and every later execution runs exactly that code. An upgrade requested by a contract succeeds only for the owner of an upgradeable contract; a refused or failed deployment or upgrade changes no code, no nonce, and creates no account.',
 ['programs','inputs','histories','fault_sequences'],
 'every mix of valid, malformed and non-conforming code, direct and from contracts, with init functions that succeed, fail or deploy further contracts, upgrades by owners and others, and later executions of the result',
 'Tests deploy single contracts with mocked code; chains of deployments and upgrades followed by execution of the resulting code, with caches in play, are not covered.',
 [H+'execution.go',C+'runtime.go',C+'output.go',C+'validator.go',C+'reservedFunctions.go',C+'blockchain.go',E+'elrondei.go'],
 [('code verification before init',C+'runtime.go: VerifyContractCode; '+C+'validator.go'),('upgrade permission',H+'execution.go: checkUpgradePermission'),('code updates recorded in the output',C+'output.go: DeployCode, removeNonUpdatedCode')],
 ['Code, CodeMetadata, CodeDeployerAddress and Nonce of output accounts','code executed afterwards, identified in the engine trace'])
p('C10','Nested executions are isolated and the caller resumes intact',
 'A contract executed by another one sees exactly the caller address, value, token transfer, arguments and gas it was given, and starts with fresh memory and fresh managed values. When it returns, by success or failure, the caller continues with its own memory, managed values, arguments, caller, value, and running function exactly as they were, whatever the callee did.',
 ['programs'],
 'every call tree over every call kind, including contracts calling back into themselves or their callers',
 'Tests check the final output of fixed call pairs; they do not observe the context each frame sees before, inside and after nested calls.',
 [H+'execution.go',C+'runtime.go',C+'bigint.go',C+'storage.go',E+'elrondei.go',E+'bigIntOps.go',E+'smallIntOps.go'],
 [('context stacks',C+'runtime.go: PushState, PopSetActiveState; '+C+'bigint.go: PushState, PopSetActiveState'),('input copied into the context',C+'runtime.go: SetVMInput')],
 ['results of context-query API calls before, in and after nested calls, in return data and in the engine trace'])
p('C11','A gas schedule change is atomic',
 'After the node changes the gas schedule, every execution that starts later is charged entirely by the new schedule, and executions that started earlier entirely by the old one, even when the change is requested while executions run concurrently and code compiled under the old schedule is cached. A schedule that is not valid is refused as a whole and the previous one stays in force, completely.',
 ['schedules','inputs','histories','configurations'],
 'every interleaving of schedule changes with executions, every pair of schedules, and every way a schedule can be incomplete',
 'One test applies a schedule change concurrently without checking what is charged; incomplete schedules, cached code and charges under the new schedule are not covered.',
 [H+'arwen.go',C+'metering.go','config/gasCost.go','config/gasSchedule.go','wasmer/instance.go'],
 [('execution lock taken shared by executions and exclusively by the change',H+'arwen.go: GasScheduleChange, RunSmartContractCall'),('conversion of the schedule',"config/gasCost.go: CreateGasConfig")],
 ['gas charged for API calls and for code, before and after the change'])
p('C12','Protected entry points are not callable from outside',
 'Constructors run only as part of a deployment or upgrade, callbacks run only to deliver the result of an asynchronous call, and functions that do not exist, are not exported or have the wrong form are never executed: all such calls fail, whichever call kind and whoever makes them. The caller address a contract sees is always the account that really made the call.',
 ['programs','inputs'],
 'every function name, every call kind, every caller, direct and through chains of contracts, with every combination of call type and arguments',
 'Tests call init and callback directly on one contract; the indirect routes (nested, async, token transfer with call, built-in functions) are not covered.',
 [H+'execution.go',H+'asyncCall.go',C+'runtime.go',C+'validator.go',E+'elrondei.go'],
 [('allowed function check',H+'execution.go: verifyAllowedFunctionCall, isInitFunctionBeingCalled'),('exports checked at deployment',C+'validator.go')],
 ['function entries in the engine trace','return codes of such calls'])
p('C13','Outputs report all effects of successful code, in order, once',
 'A successful execution returns exactly the return data, logs, transfers and refunds that its code and the nested executions that succeeded produced: nothing dropped, duplicated or altered, each log and transfer attributed to the contract that made it, and in chronological order. Return data of a nested call is available to its caller unchanged.',
 ['programs'],
 'every interleaving of finish, log, transfer and return-data operations with nested calls of every kind',
 'Tests compare expected outputs of fixed contracts with at most one or two nested calls.',
 [C+'output.go',E+'elrondei.go',H+'execution.go',E+'bigIntOps.go',E+'smallIntOps.go'],
 [('merge of nested output into the caller output',C+'output.go: PopMergeActiveState, AddToActiveState, mergeVMOutputs')],
 ['ReturnData, Logs, OutputTransfers, GasRefund of the VMOutput'])
p('C14','Nesting is bounded',
 'However contracts call each other, directly or mutually recursive and by any call kind, the number of simultaneously running contract instances never exceeds the fixed maximum; the call that would exceed it fails like any failed call and the contracts below it go on. Recursive programs always terminate, by their own end or by gas.',
 ['programs','configurations'],
 'every recursive call structure and every mix of call kinds, at any depth around the limit',
 'One test recurses with one call kind; mixes of call kinds, behaviour just at the limit and use of the host afterwards are not covered.',
 [C+'runtime.go',H+'execution.go',H+'arwen.go'],
 [('instance count checked when an instance is started',C+'runtime.go: StartWasmerInstance')],
 ['live instances in the engine at each entry','outputs around the limit'])
p('C15','Protocol features switch exactly at their activation epochs',
 'Each execution follows the rules of the epoch of its own block, whatever the host executed before: from its configured activation epoch on, and not earlier, contracts pay the ahead-of-time instead of the compilation price and compiled code is reused; asynchronous calls lock gas by need (only for contracts with a callback, including its preparation) instead of always the fixed amount; and the ESDT functions may be imported by newly deployed code, whether a destination is payable is checked only for transfers that carry gas (before: for any value, except by asynchronous calls), and nested calls inherit the transaction hashes; contracts deploy others at addresses that follow their nonce, asynchronous calls may pay accounts that are not payable, and callbacks show the value sent back. Each feature depends on its own epoch only.',
 ['histories','configurations'],
 'all activation epochs of the features relative to the epochs of the blocks, and all transactions before, in and after them',
 'Tests run with every feature active from epoch 0; the switching itself, and mixes of active and inactive features, are not tested.',
 [H+'arwen.go',C+'metering.go',C+'runtime.go',C+'output.go',H+'execution.go'],
 [('flags set from the epoch of the block',H+'arwen.go: InitState'),('prices by feature',C+'metering.go: DeductInitialGasForExecution, ComputeGasLockedForAsync'),('imports refused before their epoch',C+'runtime.go: checkBackwardCompatibility')],
 ['gas counters','VMOutput return codes','GasLocked of messages between shards'])
p('I01','The out-of-process VM is equivalent to the in-process VM',
 'A VM running in its own process, reached through the message channel, gives for every request exactly the result, and makes exactly the node callbacks, that the same VM gives when embedded in the node. This holds for every node callback with every answer including its errors, for every size of data, however the bytes are fragmented and delayed in the pipes.',
 ['programs','inputs','schedules','configurations'],
 'every execution, query and configuration request, every callback with every answer, and every fragmentation and timing of the pipe',
 'The IPC tests send a few requests with a stubbed host or hook over real pipes; most callbacks and all error answers are never sent across.',
 ['ipc/nodepart/part.go','ipc/nodepart/arwenDriver.go','ipc/arwenpart/part.go','ipc/arwenpart/blockchainGateway.go','ipc/nodepart/messenger.go','ipc/common/messenger.go','ipc/common/messages.go','ipc/common/sender.go','ipc/common/receiver.go','ipc/nodepart/blockchainRepliers.go'],
 [('one message type per request and answer, hook calls answered inside the request loop','ipc/common/messages.go; ipc/nodepart/part.go: doLoop'),('length-prefixed framing','ipc/common/sender.go; ipc/common/receiver.go')],
 ['results of the driver on the node side','calls received by the blockchain hook'],hook='simulated pipe and clock in ipc/common (build tag verif)')
p('I02','Faults on the VM channel surface as errors, never as wrong results',
 'If the node or the VM process dies or stalls at any point, even within a message, if a read or write fails, or a message is lost, cut short or malformed, then the request in progress returns an error (or the right result): the node never accepts a result that the VM did not compute for exactly that request from exactly the answers the node gave. Neither side crashes or blocks forever because of what it received.',
 ['fault_sequences','crash_points','schedules'],
 'every fault at every byte position and every process death at every point of every exchange',
 'Tests kill the process once and send one bad message; no test corrupts, truncates, duplicates or delays frames.',
 ['ipc/common/receiver.go','ipc/common/sender.go','ipc/common/messenger.go','ipc/nodepart/part.go','ipc/nodepart/arwenDriver.go','ipc/arwenpart/part.go','ipc/arwenpart/blockchainGateway.go','ipc/common/messages.go'],
 [('critical errors stop the loop and restart the VM','ipc/nodepart/arwenDriver.go; ipc/common/errors.go'),('sequence number check','ipc/common/messenger.go: Receive')],
 ['result of the driver call','both loops'],hook='simulated pipe and clock in ipc/common (build tag verif)')
p('I03','The VM channel recovers and stays in step',
 'Once faults stop, the node can execute again within a bounded number of attempts: it notices a dead, stuck or out-of-step VM within its configured timeout, replaces it, and the replacement is configured exactly like the original, including the latest gas schedule. Requests are executed one at a time in the order accepted, an answer is never delivered to another request, a slow execution within the time limit is not interrupted, and no process or pipe of a replaced VM is left behind.',
 ['fault_sequences','schedules','crash_points','histories'],
 'every interleaving of requests from several node threads with crashes, hangs, restarts and configuration changes',
 'One test restarts the VM after a stop; concurrent requests, hangs, repeated crashes and configuration after restart are not covered.',
 ['ipc/nodepart/arwenDriver.go','ipc/nodepart/part.go','ipc/nodepart/messenger.go','ipc/common/receiver.go','ipc/arwenpart/part.go','ipc/common/arguments.go'],
 [('restart when stopped',"ipc/nodepart/arwenDriver.go: RestartArwenIfNecessary, startArwen"),('loop timeout','ipc/nodepart/part.go; ipc/common/receiver.go: SetDeadline'),('operation mutex','ipc/nodepart/arwenDriver.go')],
 ['results and simulated time of driver calls'],hook='simulated pipe and clock in ipc/common (build tag verif)')
p('D01','The debugger\'s stored world survives restarts and failures',
 'Each debugger session step (deploy, run, upgrade, query, create account) works on exactly the world the previous successful step stored, however the steps are spread over processes; a successful step stores exactly its effects, and a failed step or a query changes nothing. A crash or disk error at any point of storing leaves a world that is exactly the one before or the one after the step.',
 ['histories','crash_points','fault_sequences'],
 'every sequence of steps over any addresses, keys and values, every split of it over processes, every crash and write error while storing',
 'arwendebug tests run short sessions in one process on a real disk, and never compare the reloaded world with the stored one or interrupt a write.',
 ['arwendebug/facade.go','arwendebug/world.go','arwendebug/database.go','arwendebug/worldInput.go','mock/world/worldAccountMap.go','mock/world/worldDef.go'],
 [('world stored as one file per session','arwendebug/database.go: storeWorld, loadWorld'),('conversion of the account map','arwendebug/world.go: toDataModel, newWorld')],
 ['files of the database directory','outcome objects of each step and of later steps'])
p('M01','A scenario passes exactly when the execution matches it',
 'A test scenario is reported as passed if and only if every transaction result and every account state it states matches what the execution produced: return code, message and data, logs, gas and refund where stated, and the stated balances, nonces, usernames, storage (reserved keys apart), tokens with their attributes, roles, last nonces and frozen flags, code and owners, with nothing unstated present where the scenario is closed; a scenario whose files cannot be read fails, and scenarios of a directory do not influence each other. A failed transaction inside a scenario changes no account except the fee and nonce of its sender.',
 ['inputs','histories','programs','fault_sequences'],
 'every scenario: every sequence of steps over any accounts and contracts, and every single deviation of any stated value from the produced one',
 'The integration tests run scenarios that are expected to pass, and a few small ones expected to fail; that each kind of deviation is noticed is not covered.',
 ['arwenmandos/exec.go','arwenmandos/stepCheckAccounts.go','arwenmandos/stepRunTx.go','arwenmandos/execScenario.go','mock/world/worldDef.go','mock/world/worldCallbacks.go'],
 [('state check walks the world and the expected accounts','arwenmandos checkState'),('rollback of the mock world','mock/world')],
 ['error returned by the scenario executor'])
for id_,t,s,w in [
 ('N01','Signature, hash and key functions compute their published definitions','The signature verifications, hash functions and curve operations offered to contracts accept and return exactly what their published specifications say, for every input. ',['crypto/signing/secp256k1','crypto/hashing/hasher.go']),
 ('N02','Scenario value expressions mean what the grammar says','Every value expression in a scenario file is interpreted to the bytes or number the expression grammar defines, and writing a parsed scenario yields a scenario with the same meaning.',['mandos-go/expression/interpreter/interpreter.go']),
 ('N03','Bounded arithmetic helpers never wrap','The checked integer helpers return the exact result, or the documented bound or error if it does not fit, for every pair of operands.',['math/overflow.go'])]:
    p(id_,t,s.strip(),['inputs'],'every input','Tests sample a few vectors.',w,[('pure functions',w[0])],['return values'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
