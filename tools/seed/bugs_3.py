BUGS = []
def bug(id, prop, needs, breaks, pkg, edits, test, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, test=test, **kw))

bug('ipc-deletions-lost', 'I01',
 'A contract behind the channel deletes a stored value (or stores an empty one).',
 'Storage updates without data are left out of the message with the result, so the node keeps the old value.',
 'ipc/common',
 [('ipc/common/serializableVMOutput.go', '''	for _, storageUpdate := range account.StorageUpdates {
		a.StorageUpdates''', '''	for _, storageUpdate := range account.StorageUpdates {
		if len(storageUpdate.Data) == 0 {
			continue
		}

		a.StorageUpdates''')], '''package common

import (
	"testing"

	"github.com/ElrondNetwork/elrond-vm-common"
	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	out := &vmcommon.VMOutput{OutputAccounts: map[string]*vmcommon.OutputAccount{"a": {
		Address: []byte("a"),
		StorageUpdates: map[string]*vmcommon.StorageUpdate{
			"kept":    {Offset: []byte("kept"), Data: []byte("x")},
			"deleted": {Offset: []byte("deleted")},
		},
	}}}
	account := NewSerializableVMOutput(out).ConvertToVMOutput().OutputAccounts["a"]
	require.Len(t, account.StorageUpdates, 2)
	require.NotNil(t, account.StorageUpdates["deleted"])
}
''')

bug('ipc-payable-error-lost', 'I01',
 'The node fails to tell whether an account is payable while the VM runs behind the channel.',
 'The error is dropped on the way and the account counts as not payable, a different outcome from the VM embedded in the node.',
 'ipc/arwenpart',
 [('ipc/arwenpart/blockchainGateway.go', '''	response := rawResponse.(*common.MessageBlockchainIsPayableResponse)
	return response.Result, response.GetError()''', '''	response := rawResponse.(*common.MessageBlockchainIsPayableResponse)
	return response.Result, nil''')], '''package arwenpart

import (
	"errors"
	"os"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	toNodeRead, toNodeWrite, err := os.Pipe()
	require.Nil(t, err)
	toArwenRead, toArwenWrite, err := os.Pipe()
	require.Nil(t, err)
	marshalizer := marshaling.CreateMarshalizer(marshaling.Gob)
	node := common.NewMessengerPipes("NODE", toNodeRead, toArwenWrite, marshalizer)
	gateway := NewBlockchainHookGateway(NewArwenMessenger(toArwenRead, toNodeWrite, marshalizer))
	go func() {
		_, _ = node.Receive(0)
		_ = node.Send(common.NewMessageBlockchainIsPayableResponse(false, errors.New("the trie cannot be read")))
	}()
	_, err = gateway.IsPayable([]byte("account"))
	require.NotNil(t, err)
}
''')

bug('ipc-short-reads', 'I01',
 'A message arrives in several pieces (it is larger than the pipe, or the writer is interrupted).',
 'Only the first piece is read: the rest of the message is decoded as zeroes, or the next message is read from the middle of this one.',
 'ipc/common',
 [('ipc/common/receiver.go', '''	buffer := make([]byte, length)
	_, err := io.ReadFull(receiver.reader, buffer)''', '''	buffer := make([]byte, length)
	_, err := receiver.reader.Read(buffer)''')], '''package common

import (
	"bytes"
	"math/big"
	"os"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/elrond-vm-common"
	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	reader, writer, err := os.Pipe()
	require.Nil(t, err)
	marshalizer := marshaling.CreateMarshalizer(marshaling.Gob)
	sender := NewMessengerPipes("A", reader, writer, marshalizer)
	receiver := NewMessengerPipes("B", reader, writer, marshalizer)
	code := bytes.Repeat([]byte{7}, 1<<20)
	go func() {
		_ = sender.Send(NewMessageContractDeployRequest(&vmcommon.ContractCreateInput{
			ContractCode: code,
			VMInput:      vmcommon.VMInput{CallValue: big.NewInt(0)},
		}))
	}()
	message, err := receiver.Receive(20000)
	require.Nil(t, err)
	require.True(t, bytes.Equal(code, message.(*MessageContractDeployRequest).CreateInput.ContractCode))
}
''')

bug('ipc-duplicates-accepted', 'I02',
 'A message of the node is delivered twice, and the VM asks a question of the same kind next.',
 'Messages that were seen before are accepted, so the VM takes the old answer for the answer to its new question.',
 'ipc/common',
 [('ipc/common/messenger.go', '''	if messageNonce != messenger.Nonce+1 {''', '''	if messageNonce > messenger.Nonce+1 {''')], '''package common

import (
	"io"
	"os"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	reader, writer, err := os.Pipe()
	require.Nil(t, err)
	sentReader, sentWriter, err := os.Pipe()
	require.Nil(t, err)
	marshalizer := marshaling.CreateMarshalizer(marshaling.Gob)
	sender := NewMessenger("A", NewReceiver(reader, marshalizer), NewSender(sentWriter, marshalizer))
	receiver := NewMessengerPipes("B", reader, writer, marshalizer)
	require.Nil(t, sender.Send(NewMessageBlockchainGetStorageDataResponse([]byte("first"), nil)))
	_ = sentWriter.Close()
	data, err := io.ReadAll(sentReader)
	require.Nil(t, err)
	_, err = writer.Write(append(data, data...))
	require.Nil(t, err)
	_, err = receiver.Receive(20000)
	require.Nil(t, err)
	_, err = receiver.Receive(20000)
	require.NotNil(t, err)
}
''')

bug('ipc-time-limit-per-message', 'I03',
 'A stuck (looping) VM keeps making hook calls, each within the time limit.',
 'The time limit applies to each message instead of the whole execution, so the node waits for the VM without bound.',
 'ipc/nodepart',
 [('ipc/nodepart/part.go', '''		remainingMilliseconds -= duration
		if remainingMilliseconds < 0 {''', '''		if remainingMilliseconds-duration < 0 {''')], '''package nodepart

import (
	"math/big"
	"os"
	"testing"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	"github.com/ElrondNetwork/elrond-vm-common"
	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	toNodeRead, toNodeWrite, err := os.Pipe()
	require.Nil(t, err)
	toArwenRead, toArwenWrite, err := os.Pipe()
	require.Nil(t, err)
	marshalizer := marshaling.CreateMarshalizer(marshaling.Gob)
	part, err := NewNodePart(toNodeRead, toArwenWrite, worldmock.NewMockWorld(), Config{MaxLoopTime: 400}, marshalizer)
	require.Nil(t, err)
	go func() {
		arwen := common.NewMessengerPipes("ARWEN", toArwenRead, toNodeWrite, marshalizer)
		_, _ = arwen.Receive(0)
		for i := 0; i < 40; i++ {
			time.Sleep(100 * time.Millisecond)
			_ = arwen.Send(common.NewMessageBlockchainCurrentNonceRequest())
			_, _ = arwen.Receive(0)
		}
		_ = arwen.Send(common.NewMessageContractResponse(&vmcommon.VMOutput{}, nil))
	}()
	_, err = part.StartLoop(common.NewMessageContractCallRequest(&vmcommon.ContractCallInput{VMInput: vmcommon.VMInput{CallValue: big.NewInt(0)}}))
	require.NotNil(t, err)
}
''')

DRIVER = '''package nodepart

import (
	"os"
	"os/exec"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	"github.com/ElrondNetwork/elrond-vm-common"
	"github.com/stretchr/testify/require"
)

// demoDriver is a driver whose VM process lives (or is gone) but never answers
func demoDriver(t *testing.T, dead bool) *ArwenDriver {
	toNodeRead, _, err := os.Pipe()
	require.Nil(t, err)
	_, toArwenWrite, err := os.Pipe()
	require.Nil(t, err)
	marshalizer := marshaling.CreateMarshalizer(marshaling.Gob)
	config := Config{MaxLoopTime: 300}
	part, err := NewNodePart(toNodeRead, toArwenWrite, worldmock.NewMockWorld(), config, marshalizer)
	require.Nil(t, err)
	command := exec.Command("sleep", "60")
	require.Nil(t, command.Start())
	if dead {
		_ = command.Process.Kill()
		_, _ = command.Process.Wait()
	}
	return &ArwenDriver{
		command:             command,
		part:                part,
		config:              config,
		blockchainHook:      worldmock.NewMockWorld(),
		arwenArguments:      common.ArwenArguments{},
		messagesMarshalizer: marshalizer,
		logsMarshalizer:     marshaling.CreateMarshalizer(marshaling.JSON),
	}
}
'''
bug('stuck-deployment-not-replaced', 'I03',
 'The VM process is stuck during a deployment.',
 'The deployment fails after the timeout, but the stuck process is kept: the requests that follow are sent to it, too, and get out of step.',
 'ipc/nodepart',
 [('ipc/nodepart/arwenDriver.go', '''		log.Warn("RunSmartContractCreate", "err", err)
		_ = driver.Close()
''', '''		log.Warn("RunSmartContractCreate", "err", err)
''')], DRIVER + '''
func TestVerifDemo(t *testing.T) {
	driver := demoDriver(t, false)
	defer func() { _ = driver.command.Process.Kill() }()
	_, err := driver.RunSmartContractCreate(&vmcommon.ContractCreateInput{})
	require.NotNil(t, err)
	require.True(t, driver.IsClosed())
}
''')

bug('version-never-recovers', 'I03',
 'The VM process is dead and the node asks for its version only.',
 'The version request does not restart the VM, so it fails over and over until another kind of request is made.',
 'ipc/nodepart',
 [('ipc/nodepart/arwenDriver.go', '''	log.Trace("GetVersion")

	err := driver.RestartArwenIfNecessary()
	if err != nil {
		log.Warn("GetVersion", "err", common.WrapCriticalError(err))
		return ""
	}

	request''', '''	log.Trace("GetVersion")

	request''')], DRIVER.replace('import (\n', 'import (\n\t"io/ioutil"\n\t"path/filepath"\n').replace('	"github.com/ElrondNetwork/elrond-vm-common"\n','') + '''
func TestVerifDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	require.Nil(t, err)
	defer func() { _ = os.RemoveAll(dir) }()
	script, marker := filepath.Join(dir, "fake-arwen"), filepath.Join(dir, "started")
	require.Nil(t, ioutil.WriteFile(script, []byte("#!/bin/sh\\ntouch "+marker+"\\nexec sleep 30\\n"), 0755))
	require.Nil(t, os.Setenv(common.EnvVarArwenPath, script))

	driver := demoDriver(t, true)
	_ = driver.GetVersion()
	_ = driver.GetVersion()
	_ = driver.Close()
	_, err = os.Stat(marker)
	require.Nil(t, err, "the VM was never restarted")
}
''')

bug('debugger-ignores-store-error', 'D01',
 'The disk fails (or is full) while the debugger stores the world after creating an account; the step has no outcome file.',
 'The error is overwritten by the result of storing the outcome: the step reports success, but its effects are not stored.',
 'arwendebug',
 [('arwendebug/facade.go', '''	response := world.createAccount(request)

	err = database.storeWorld(world)
	if err != nil {
		return nil, err
	}

	err = database.storeOutcome''', '''	response := world.createAccount(request)

	err = database.storeWorld(world)
	if err != nil {
		log.Error("DebugFacade.CreateAccount()", "err", err)
	}

	err = database.storeOutcome''')], '''package arwendebug

import (
	"io/ioutil"
	"os"
	"testing"

	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	require.Nil(t, err)
	defer func() { _ = os.RemoveAll(dir) }()
	_, err = NewDebugFacade().CreateAccount(CreateAccountRequest{
		RequestBase: RequestBase{DatabasePath: dir, World: "missing-folder/world"},
		AddressHex:  "aabb",
		Balance:     "42",
	})
	require.NotNil(t, err)
}
''')

bug('debugger-upgrade-loses-nonce', 'D01',
 'A contract deploys another one (its nonce grows), and later steps of the session change the contract again.',
 'The nonce of an output account replaces the stored one even if the output does not state it, so the nonce falls back and the next deployment computes the address of an existing contract.',
 'mock/world',
 [('mock/world/worldUpdate.go', '''	if modAcct.Nonce > acct.Nonce {
		acct.Nonce = modAcct.Nonce
	}''', '''	if modAcct.Nonce != acct.Nonce {
		acct.Nonce = modAcct.Nonce
	}''')], '''package worldmock

import (
	"math/big"
	"testing"

	"github.com/ElrondNetwork/elrond-vm-common"
	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	world := NewMockWorld()
	account := world.AcctMap.CreateAccount([]byte("account"), world)
	account.Nonce = 5
	world.UpdateAccountFromOutputAccount(&vmcommon.OutputAccount{Address: []byte("account"), BalanceDelta: big.NewInt(3)})
	require.Equal(t, uint64(5), account.Nonce)
	require.Equal(t, int64(3), account.Balance.Int64())
}
''')

bug('debugger-unreadable-world-replaced', 'D01',
 'The file of a debugged world cannot be read (disk error, or it was cut short) when a step begins.',
 'The step goes on with an empty world and stores it over the existing one.',
 'arwendebug',
 [('arwendebug/database.go', '''		dataModel, err = db.readWorldDataModel(filePath)
		if err != nil {
			return nil, err
		}''', '''		stored, err := db.readWorldDataModel(filePath)
		if err != nil {
			log.Warn("database.loadWorld", "err", err)
		} else {
			dataModel = stored
		}''')], '''package arwendebug

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	require.Nil(t, err)
	defer func() { _ = os.RemoveAll(dir) }()
	facade := NewDebugFacade()
	request := CreateAccountRequest{RequestBase: RequestBase{DatabasePath: dir, World: "w"}, AddressHex: "aabb", Balance: "42"}
	_, err = facade.CreateAccount(request)
	require.Nil(t, err)
	file := filepath.Join(dir, "worlds", "w.json")
	data, err := ioutil.ReadFile(file)
	require.Nil(t, err)
	require.Nil(t, ioutil.WriteFile(file, data[:len(data)/2], 0644))
	request.AddressHex = "ccdd"
	_, err = facade.CreateAccount(request)
	require.NotNil(t, err)
	left, err := ioutil.ReadFile(file)
	require.Nil(t, err)
	require.Equal(t, data[:len(data)/2], left)
}
''')

MANDOS = '''package arwenmandos

import (
	"math/big"
	"testing"

	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	"github.com/ElrondNetwork/elrond-vm-common"
	"github.com/stretchr/testify/require"
)

var _ = mj.JSONCheckBytesStar
var _ = vmcommon.Ok
var _ = big.NewInt
'''
bug('extra-topics-unnoticed', 'M01',
 'A transaction produces a log with more topics than the scenario states.',
 'The scenario passes although a log does not match.',
 'arwenmandos',
 [('arwenmandos/stepCheckTxResult.go', '''		if len(outLog.Topics) != len(testLog.Topics) {''', '''		if len(outLog.Topics) < len(testLog.Topics) {'''),
  ('arwenmandos/stepCheckTxResult.go', '''		for ti := range outLog.Topics {''', '''		for ti := range testLog.Topics {''')], MANDOS + '''
func TestVerifDemo(t *testing.T) {
	executor, err := NewArwenTestExecutor()
	require.Nil(t, err)
	star := mj.JSONCheckBytesStar()
	result := &mj.TransactionResult{
		Status:  mj.JSONCheckBigInt{Value: big.NewInt(0)},
		Message: star,
		Refund:  mj.JSONCheckBigInt{IsStar: true},
		Logs:    []*mj.LogEntry{{Address: star, Identifier: star, Data: star, Topics: []mj.JSONCheckBytes{star}}},
	}
	output := &vmcommon.VMOutput{Logs: []*vmcommon.LogEntry{{Topics: [][]byte{[]byte("one")}}}}
	require.Nil(t, executor.checkTxResults("tx", result, false, output))
	output.Logs[0].Topics = append(output.Logs[0].Topics, []byte("two"))
	require.NotNil(t, executor.checkTxResults("tx", result, false, output))
}
''')

bug('rollback-to-older-state', 'M01',
 'Two transactions of a scenario fail, and between them a step of the scenario sets the storage of an account.',
 'The snapshot of the first failed transaction is kept, so the second failure reverts the accounts to the state before the step.',
 'mock/world',
 [('mock/world/worldAccountsAdapter.go', '''	m.Snapshots = m.Snapshots[:snapshotIndex]''', '''	m.Snapshots = m.Snapshots[:snapshotIndex+1]''')], '''package worldmock

import (
	"testing"

	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	world := NewMockWorld()
	account := world.AcctMap.CreateAccount([]byte("account"), world)
	world.CreateStateBackup()
	require.Nil(t, world.RollbackChanges())
	account.Storage = map[string][]byte{"key": []byte("set by a step")}
	world.CreateStateBackup()
	require.Nil(t, world.RollbackChanges())
	require.Equal(t, []byte("set by a step"), account.Storage["key"])
}
''')

bug('snapshot-shares-storage', 'M01',
 'A builtin function (a token transfer) changes an account within a transaction of a scenario that fails afterwards.',
 'Snapshots share the storage of the accounts, so a failed transaction keeps the token balances it changed.',
 'mock/world',
 [('mock/world/worldAccount.go', '''		Storage:         a.cloneStorage(),''', '''		Storage:         a.Storage,'''),
  ('mock/world/worldAccount.go', '''func (a *Account) cloneStorage() map[string][]byte {
	clone := make(map[string][]byte, len(a.Storage))
	for key, value := range a.Storage {
		clone[key] = cloneBytes(value)
	}

	return clone
}

''', '')], '''package worldmock

import (
	"testing"

	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	world := NewMockWorld()
	account := world.AcctMap.CreateAccount([]byte("account"), world)
	account.Storage["key"] = []byte("before")
	world.CreateStateBackup()
	account.Storage["key"] = []byte("after")
	require.Nil(t, world.RollbackChanges())
	require.Equal(t, []byte("before"), account.Storage["key"])
}
''')

