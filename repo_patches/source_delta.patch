From d3f3d132efe86d1dd4ab1f01ed90ea04ca1c30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:14 +0000
Subject: [PATCH 01/63] fix: charge each big integer operation at its own gas
 price

---
 arwen/elrondapi/bigIntOps.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index 1f8cabd..d416d79 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -579,7 +579,7 @@ func v1_3_bigIntSetInt64(context unsafe.Pointer, destination int32, value int64)
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSetInt64
 	metering.UseGas(gasToUse)
 
 	dest := bigInt.GetOne(destination)
@@ -591,7 +591,7 @@ func v1_3_bigIntAdd(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAdd
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -648,7 +648,7 @@ func v1_3_bigIntTMod(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntTMod
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -666,7 +666,7 @@ func v1_3_bigIntEDiv(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntEDiv
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -684,7 +684,7 @@ func v1_3_bigIntEMod(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntEMod
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -702,7 +702,7 @@ func v1_3_bigIntAbs(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAbs
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -715,7 +715,7 @@ func v1_3_bigIntNeg(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntNeg
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -754,7 +754,7 @@ func v1_3_bigIntNot(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntNot
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -772,7 +772,7 @@ func v1_3_bigIntAnd(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAnd
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -790,7 +790,7 @@ func v1_3_bigIntOr(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntOr
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -808,7 +808,7 @@ func v1_3_bigIntXor(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntXor
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -826,7 +826,7 @@ func v1_3_bigIntShr(context unsafe.Pointer, destination, op, bits int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntShr
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -845,7 +845,7 @@ func v1_3_bigIntShl(context unsafe.Pointer, destination, op, bits int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntShl
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
-- 
2.43.0


From 74a588384849f5f6ece36d8ac1f13dafc3402a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 02/63] fix: charge the gas sent with transferValueExecute to
 the contract that sends it

---
 arwen/elrondapi/elrondei.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index f4ee745..885bd21 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1047,6 +1047,8 @@ func TransferValueExecuteWithTypedArgs(
 		return 0
 	}
 
+	metering.UseGas(uint64(gasLimit))
+
 	data := makeCrossShardCallFromInput(contractCallInput)
 	err = output.Transfer(dest, sender, uint64(gasLimit), 0, value, []byte(data), vmcommon.DirectCall)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
-- 
2.43.0


From 124b6e5667c441b1b7aac0dfc1494da498dad9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:04 +0000
Subject: [PATCH 03/63] fix: treat negative argument and return data indices as
 out of range

---
 arwen/elrondapi/bigIntOps.go | 4 ++--
 arwen/elrondapi/elrondei.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index d416d79..3ad3327 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -274,7 +274,7 @@ func v1_3_bigIntGetUnsignedArgument(context unsafe.Pointer, id int32, destinatio
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
@@ -293,7 +293,7 @@ func v1_3_bigIntGetSignedArgument(context unsafe.Pointer, id int32, destination
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 885bd21..8e10425 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2897,7 +2897,7 @@ func v1_3_getReturnDataSize(context unsafe.Pointer, resultID int32) int32 {
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
@@ -2914,7 +2914,7 @@ func v1_3_getReturnData(context unsafe.Pointer, resultID int32, dataOffset int32
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
-- 
2.43.0


From b41b8d019bf6d8a8ed0399a0abfabb35fff62d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:12 +0000
Subject: [PATCH 04/63] fix: fail indirect contract calls whose arguments
 cannot be read

---
 arwen/elrondapi/elrondei.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 8e10425..0b7b84c 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -919,6 +919,9 @@ func extractIndirectContractCallArguments(
 		argumentsLengthOffset,
 		dataOffset,
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	gasToUse := math.MulUint64(metering.GasSchedule().BaseOperationCost.DataCopyPerByte, uint64(actualLen))
 	metering.UseGas(gasToUse)
-- 
2.43.0


From 73d4cdcc6bdf8024607818de8cd245387a875bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:22 +0000
Subject: [PATCH 05/63] fix: bound the number of arguments by the memory that
 holds their lengths

---
 arwen/elrondapi/elrondei.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 0b7b84c..2be3e22 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2986,6 +2986,11 @@ func getArgumentsFromMemory(
 		return nil, 0, fmt.Errorf("negative numArguments (%d)", numArguments)
 	}
 
+	memoryLength := runtime.GetInstance().GetInstanceCtxMemory().Length()
+	if int64(numArguments)*4 > int64(memoryLength) {
+		return nil, 0, fmt.Errorf("numArguments too large (%d)", numArguments)
+	}
+
 	argumentsLengthData, err := runtime.MemLoad(argumentsLengthOffset, numArguments*4)
 	if err != nil {
 		return nil, 0, err
-- 
2.43.0


From 996f3a62d2e8884c8cfc334c0b1889aadb6614a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 06/63] fix: refuse nested calls of the callback function that
 deliver no callback

---
 arwen/host/execution.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 88aa8c5..1790ba0 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -599,6 +599,11 @@ func (host *vmHost) execute(input *vmcommon.ContractCallInput) error {
 		return arwen.ErrInitFuncCalledInRun
 	}
 
+	isCallBack := runtime.Function() == arwen.CallbackFunctionName
+	if isCallBack && input.CallType != vmcommon.AsynchronousCallBack {
+		return arwen.ErrCallBackFuncCalledInRun
+	}
+
 	// Use all gas initially, on the Wasmer instance of the caller. In case of
 	// successful execution, the unused gas will be restored.
 	metering.UseGas(input.GasProvided)
-- 
2.43.0


From 0cd2a6ad866bfb0c13d9380d4aaf0711556533af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 07/63] fix: check the gas used by nested calls when they
 return

---
 arwen/host/execution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 1790ba0..9f22628 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -656,6 +656,9 @@ func (host *vmHost) callSCMethodIndirect() error {
 	if err != nil {
 		err = host.handleBreakpointIfAny(err)
 	}
+	if err == nil {
+		err = host.checkFinalGasAfterExit()
+	}
 
 	return err
 }
-- 
2.43.0


From de8e9f48bd1d302ad5f1bd780b20266820ffae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:45 +0000
Subject: [PATCH 08/63] fix: verify the code of contracts deployed by other
 contracts

---
 arwen/host/execution.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 9f22628..5286f23 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -626,7 +626,7 @@ func (host *vmHost) execute(input *vmcommon.ContractCallInput) error {
 	// Replace the current Wasmer instance of the Runtime with a new one; this
 	// assumes that the instance was preserved on the Runtime instance stack
 	// before calling executeSmartContractCall().
-	err = runtime.StartWasmerInstance(contract, metering.GetGasForExecution(), false)
+	err = runtime.StartWasmerInstance(contract, metering.GetGasForExecution(), input.AllowInitFunction)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b8c974946fd9fe7724b140875634755f79264195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:20 +0000
Subject: [PATCH 09/63] fix: lock gas for callbacks according to the size of
 the contract that made the call

---
 arwen/contexts/runtime.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 1ba0bcd..8c08d23 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -126,6 +126,8 @@ func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uin
 		return arwen.ErrMaxInstancesReached
 	}
 
+	context.codeSize = uint64(len(contract))
+
 	warmInstanceUsed := context.setWarmInstanceWhenNeeded(gasLimit)
 	if warmInstanceUsed {
 		return nil
@@ -241,7 +243,6 @@ func (context *runtimeContext) GetSCCode() ([]byte, error) {
 		return nil, err
 	}
 
-	context.codeSize = uint64(len(code))
 	return code, nil
 }
 
@@ -324,6 +325,7 @@ func (context *runtimeContext) PushState() {
 	newState := &runtimeContext{
 		scAddress:        context.scAddress,
 		callFunction:     context.callFunction,
+		codeSize:         context.codeSize,
 		readOnly:         context.readOnly,
 		asyncCallInfo:    context.asyncCallInfo,
 		asyncContextInfo: context.asyncContextInfo,
@@ -353,6 +355,7 @@ func (context *runtimeContext) PopSetActiveState() {
 	context.SetVMInput(prevState.vmInput)
 	context.scAddress = prevState.scAddress
 	context.callFunction = prevState.callFunction
+	context.codeSize = prevState.codeSize
 	context.readOnly = prevState.readOnly
 	context.asyncCallInfo = prevState.asyncCallInfo
 	context.asyncContextInfo = prevState.asyncContextInfo
-- 
2.43.0


From b8cff1690abcd41a155e0572baa0b27c9ef04493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 10/63] fix: let an asynchronous callback use the gas locked
 for it

---
 arwen/host/execution.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 5286f23..9491392 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -153,8 +153,9 @@ func (host *vmHost) doRunSmartContractCall(input *vmcommon.ContractCallInput) (v
 
 	_, _, metering, output, runtime, storage := host.GetContexts()
 
-	runtime.InitStateFromContractCallInput(input)
+	// Metering goes first, because it unlocks the gas reserved for a callback.
 	metering.InitStateFromContractCallInput(&input.VMInput)
+	runtime.InitStateFromContractCallInput(input)
 	output.AddTxValueToAccount(input.RecipientAddr, input.CallValue)
 	storage.SetAddress(runtime.GetSCAddress())
 
-- 
2.43.0


From a96267824ae7bc5d70f001774fb2cccaf561a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:38 +0000
Subject: [PATCH 11/63] fix: read values of protected keys from the node in
 every storage read

---
 arwen/contexts/storage.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/arwen/contexts/storage.go b/arwen/contexts/storage.go
index 72238af..9018693 100644
--- a/arwen/contexts/storage.go
+++ b/arwen/contexts/storage.go
@@ -133,17 +133,7 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 		}
 	}
 
-	// If the requested key is protected by the Elrond node, the stored value
-	// could have been changed by a built-in function in the meantime, even if
-	// contracts themselves cannot change protected values. Values stored under
-	// protected keys must always be retrieved from the node, not from the cached
-	// StorageUpdates.
-	var value []byte
-	if context.isElrondReservedKey(key) {
-		value, _ = context.blockChainHook.GetStorageData(address, key)
-	} else {
-		value = context.getStorageFromAddressUnmetered(address, key)
-	}
+	value := context.getStorageFromAddressUnmetered(address, key)
 
 	costPerByte := metering.GasSchedule().BaseOperationCost.DataCopyPerByte
 	gasToUse := math.MulUint64(costPerByte, uint64(len(value)))
@@ -156,6 +146,16 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 func (context *storageContext) getStorageFromAddressUnmetered(address []byte, key []byte) []byte {
 	var value []byte
 
+	// If the requested key is protected by the Elrond node, the stored value
+	// could have been changed by a built-in function in the meantime, even if
+	// contracts themselves cannot change protected values. Values stored under
+	// protected keys must always be retrieved from the node, not from the cached
+	// StorageUpdates.
+	if context.isElrondReservedKey(key) {
+		value, _ = context.blockChainHook.GetStorageData(address, key)
+		return value
+	}
+
 	storageUpdates := context.GetStorageUpdates(address)
 	if storageUpdate, ok := storageUpdates[string(key)]; ok {
 		value = storageUpdate.Data
-- 
2.43.0


From 62742a4b833afe1f5933526f2873e54e93bfeeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:06 +0000
Subject: [PATCH 12/63] fix: protect the storage keys of time locks and
 asynchronous contexts from contracts

---
 arwen/contexts/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/storage.go b/arwen/contexts/storage.go
index 9018693..44a1666 100644
--- a/arwen/contexts/storage.go
+++ b/arwen/contexts/storage.go
@@ -186,7 +186,10 @@ func (context *storageContext) disableStorageProtection() {
 }
 
 func (context *storageContext) isArwenProtectedKey(key []byte) bool {
-	return bytes.HasPrefix(key, []byte(arwen.ProtectedStoragePrefix))
+	// The keys made by arwen.CustomStorageKey() end with their type.
+	return bytes.HasPrefix(key, []byte(arwen.ProtectedStoragePrefix)) ||
+		bytes.HasSuffix(key, []byte(arwen.TimeLockKeyPrefix)) ||
+		bytes.HasSuffix(key, []byte(arwen.AsyncDataPrefix))
 }
 
 func (context *storageContext) isElrondReservedKey(key []byte) bool {
-- 
2.43.0


From ec0d4a75d7a9b49422ef4bd159da901285c6f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 13/63] fix: return the token name from getCallValueTokenName

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 2be3e22..67f47d2 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1973,7 +1973,7 @@ func v1_3_getCallValueTokenName(context unsafe.Pointer, callValueOffset int32, t
 	esdtTransfer := getFirstESDTTransferIfExist(runtime.GetVMInput())
 
 	if len(esdtTransfer.ESDTTokenName) > 0 {
-		tokenName = make([]byte, 0, len(esdtTransfer.ESDTTokenName))
+		tokenName = make([]byte, len(esdtTransfer.ESDTTokenName))
 		copy(tokenName, esdtTransfer.ESDTTokenName)
 		callValue = esdtTransfer.ESDTValue.Bytes()
 	}
-- 
2.43.0


From c462b413911c9bee5c9f802af93724f321da21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:22 +0000
Subject: [PATCH 14/63] fix: let the contract that makes a call in the name of
 its caller pay the value

---
 arwen/host/execution.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 9491392..cf6c4bb 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -264,6 +264,14 @@ func (host *vmHost) handleBuiltinFunctionCall(input *vmcommon.ContractCallInput)
 
 func (host *vmHost) executeOnDestContextNoBuiltinFunction(input *vmcommon.ContractCallInput) (vmOutput *vmcommon.VMOutput, asyncInfo *arwen.AsyncContextInfo, err error) {
 	bigInt, _, metering, output, runtime, storage := host.GetContexts()
+
+	// The value is always paid by the contract that makes the call, even when it
+	// makes the call in the name of its own caller.
+	payer := input.CallerAddr
+	if input.CallType != vmcommon.AsynchronousCallBack {
+		payer = runtime.GetSCAddress()
+	}
+
 	bigInt.PushState()
 	bigInt.InitState()
 
@@ -291,7 +299,7 @@ func (host *vmHost) executeOnDestContextNoBuiltinFunction(input *vmcommon.Contra
 	// Perform a value transfer to the called SC. If the execution fails, this
 	// transfer will not persist.
 	if input.CallType != vmcommon.AsynchronousCallBack || input.CallValue.Cmp(arwen.Zero) == 0 {
-		err = output.TransferValueOnly(input.RecipientAddr, input.CallerAddr, input.CallValue, false)
+		err = output.TransferValueOnly(input.RecipientAddr, payer, input.CallValue, false)
 		if err != nil {
 			log.Trace("ExecuteOnDestContext transfer", "error", err)
 			return
-- 
2.43.0


From 9c2a30194d207173720ca2ca41f2d85d1326dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 15/63] fix: refuse upgrades made in the name of the caller

---
 arwen/elrondapi/elrondei.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 67f47d2..a58b945 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2497,6 +2497,11 @@ func ExecuteOnDestContextByCallerWithTypedArgs(
 		return 1
 	}
 
+	// A contract may not upgrade the contracts that its caller owns.
+	if contractCallInput.Function == arwen.UpgradeFunctionName {
+		return 1
+	}
+
 	_, _, err = host.ExecuteOnDestContext(contractCallInput)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
-- 
2.43.0


From a126a4b247d29c5e788543905410ba01e133f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 16/63] fix: refuse transfers, built-in functions and upgrades
 in read-only mode

---
 arwen/contexts/output.go    | 15 +++++++++++++++
 arwen/elrondapi/elrondei.go |  6 +++---
 arwen/host/execution.go     |  9 +++++++++
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 4c06e4a..99b1ebc 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -248,6 +248,11 @@ func (context *outputContext) TransferValueOnly(destination []byte, sender []byt
 		return arwen.ErrTransferNegativeValue
 	}
 
+	if value.Cmp(arwen.Zero) > 0 && context.host.Runtime().ReadOnly() {
+		logOutput.Trace("transfer value", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	if !context.hasSufficientBalance(sender, value) {
 		logOutput.Trace("transfer value", "error", arwen.ErrTransferInsufficientFunds)
 		return arwen.ErrTransferInsufficientFunds
@@ -280,6 +285,11 @@ func (context *outputContext) TransferValueOnly(destination []byte, sender []byt
 // the necessary steps to create accounts and reverses the state in case of an
 // execution error or failed value transfer.
 func (context *outputContext) Transfer(destination []byte, sender []byte, gasLimit uint64, gasLocked uint64, value *big.Int, input []byte, callType vmcommon.CallType) error {
+	if context.host.Runtime().ReadOnly() {
+		logOutput.Trace("transfer value", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	checkPayableIfNotCallback := gasLimit > 0 && callType != vmcommon.AsynchronousCallBack
 	err := context.TransferValueOnly(destination, sender, value, checkPayableIfNotCallback)
 	if err != nil {
@@ -310,6 +320,11 @@ func (context *outputContext) TransferESDT(
 	value *big.Int,
 	callInput *vmcommon.ContractCallInput,
 ) (uint64, error) {
+	if context.host.Runtime().ReadOnly() {
+		logOutput.Trace("transfer ESDT", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return 0, arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	isSmartContract := context.host.Blockchain().IsSmartContract(destination)
 	sameShard := context.host.AreInSameShard(sender, destination)
 	callType := vmcommon.DirectCall
diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index a58b945..a8c15da 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2672,11 +2672,10 @@ func ExecuteReadOnlyWithTypedArguments(
 	metering.UseGas(gasToUse)
 
 	sender := runtime.GetSCAddress()
-	value := runtime.GetVMInput().CallValue
 	contractCallInput, err := prepareIndirectContractCallInput(
 		host,
 		sender,
-		value,
+		big.NewInt(0),
 		gasLimit,
 		dest,
 		function,
@@ -2692,9 +2691,10 @@ func ExecuteReadOnlyWithTypedArguments(
 		return 1
 	}
 
+	wasReadOnly := runtime.ReadOnly()
 	runtime.SetReadOnly(true)
 	_, err = host.ExecuteOnSameContext(contractCallInput)
-	runtime.SetReadOnly(false)
+	runtime.SetReadOnly(wasReadOnly)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index cf6c4bb..90b42a2 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -543,6 +543,10 @@ func (host *vmHost) checkUpgradePermission(vmInput *vmcommon.ContractCallInput)
 func (host *vmHost) executeUpgrade(input *vmcommon.ContractCallInput) error {
 	_, _, metering, output, runtime, _ := host.GetContexts()
 
+	if runtime.ReadOnly() {
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	err := host.checkUpgradePermission(input)
 	if err != nil {
 		return err
@@ -733,6 +737,11 @@ func (host *vmHost) ExecuteESDTTransfer(destination []byte, sender []byte, token
 func (host *vmHost) callBuiltinFunction(input *vmcommon.ContractCallInput) (*vmcommon.ContractCallInput, *vmcommon.VMOutput, error) {
 	metering := host.Metering()
 
+	if host.Runtime().ReadOnly() {
+		metering.UseGas(input.GasProvided)
+		return nil, nil, arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	vmOutput, err := host.Blockchain().ProcessBuiltInFunction(input)
 	if err != nil {
 		metering.UseGas(input.GasProvided)
-- 
2.43.0


From 94ff135f31216da8bc980a2d00fbf3475d61116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 17/63] fix: undo the output of token transfers whose execution
 fails

---
 arwen/elrondapi/elrondei.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index a8c15da..c8c2172 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1246,8 +1246,12 @@ func TransferESDTNFTExecuteWithTypedArgs(
 	}
 
 	snapshotBeforeTransfer := host.Blockchain().GetSnapshot()
+	output.PushState()
 
 	gasLimitForExec, executeErr := output.TransferESDT(dest, sender, esdtTokenName, uint64(nonce), esdtValue, contractCallInput)
+	if executeErr != nil {
+		output.PopSetActiveState()
+	}
 	if arwen.WithFaultAndHost(host, executeErr, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
@@ -1259,12 +1263,15 @@ func TransferESDTNFTExecuteWithTypedArgs(
 		if executeErr != nil {
 			logEEI.Trace("ESDT post-transfer execution failed", "error", executeErr)
 			host.Blockchain().RevertToSnapshot(snapshotBeforeTransfer)
+			output.PopSetActiveState()
 			return 1
 		}
 
+		output.PopDiscard()
 		return 0
 	}
 
+	output.PopDiscard()
 	return 0
 }
 
-- 
2.43.0


From 6c707886d9b654a034d26cbc36e095aec8a28bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:12 +0000
Subject: [PATCH 18/63] fix: undo the output of built-in functions when the
 call that follows fails

---
 arwen/host/execution.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 90b42a2..5ac7cfe 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -224,12 +224,15 @@ func (host *vmHost) ExecuteOnDestContext(input *vmcommon.ContractCallInput) (vmO
 	scExecutionInput := input
 
 	blockchain := host.Blockchain()
+	output := host.Output()
 	blockchain.PushState()
+	output.PushState()
 
 	if host.IsBuiltinFunctionName(input.Function) {
 		scExecutionInput, vmOutput, err = host.handleBuiltinFunctionCall(input)
 		if err != nil {
 			blockchain.PopSetActiveState()
+			output.PopSetActiveState()
 			host.Runtime().AddError(err, input.Function)
 			vmOutput = host.Output().CreateVMOutputInCaseOfError(err)
 			return
@@ -242,8 +245,10 @@ func (host *vmHost) ExecuteOnDestContext(input *vmcommon.ContractCallInput) (vmO
 
 	if err != nil {
 		blockchain.PopSetActiveState()
+		output.PopSetActiveState()
 	} else {
 		blockchain.PopDiscard()
+		output.PopDiscard()
 	}
 
 	return
-- 
2.43.0


From 34254937f044662232b3c66e9dcdaa125f9b9392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:37 +0000
Subject: [PATCH 19/63] fix: keep the transfers made to the address of a
 contract whose deployment fails

---
 arwen/host/execution.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 5ac7cfe..35cda43 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -495,12 +495,18 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 	}
 
 	codeDeployInput.ContractAddress = newContractAddress
+	output.PushState()
 	output.DeployCode(codeDeployInput)
 
 	defer func() {
 		if err != nil {
-			output.DeleteOutputAccount(newContractAddress)
+			// Restore what was sent to the address before the deployment.
+			output.DeleteOutputAccount(codeDeployInput.ContractAddress)
+			output.PopSetActiveState()
+			return
 		}
+
+		output.PopDiscard()
 	}()
 
 	runtime.MustVerifyNextContractCode()
-- 
2.43.0


From 382e71573b09f0b074afce27f9e5da729216e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:01 +0000
Subject: [PATCH 20/63] fix: keep the value of successful asynchronous calls at
 their destination

---
 arwen/host/asyncCall.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index b0586ed..b744eee 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -249,7 +249,7 @@ func (host *vmHost) sendCallbackToCurrentCaller() error {
 		runtime.GetSCAddress(),
 		metering.GasLeft(),
 		0,
-		currentCall.CallValue,
+		big.NewInt(0),
 		retData,
 		vmcommon.AsynchronousCallBack,
 	)
-- 
2.43.0


From 462b2793aa4739eef5b0ccbdb58cadeb109c8922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:18 +0000
Subject: [PATCH 21/63] fix: keep the gas schedule map when a new schedule is
 refused

---
 arwen/host/arwen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index 782c41d..2dec328 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -305,13 +305,14 @@ func (host *vmHost) GasScheduleChange(newGasSchedule config.GasScheduleMap) {
 	host.mutExecution.Lock()
 	defer host.mutExecution.Unlock()
 
-	host.gasSchedule = newGasSchedule
 	gasCostConfig, err := config.CreateGasConfig(newGasSchedule)
 	if err != nil {
 		log.Error("cannot apply new gas config remained with old one")
 		return
 	}
 
+	host.gasSchedule = newGasSchedule
+
 	opcodeCosts := gasCostConfig.WASMOpcodeCost.ToOpcodeCostsArray()
 	wasmer.SetOpcodeCosts(&opcodeCosts)
 
-- 
2.43.0


From 0a83370aabaa1ea789ffbd144c326f4e0125e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:54 +0000
Subject: [PATCH 22/63] fix: leave earlier transfers out of the gas of nested
 calls

---
 arwen/contexts/metering.go | 56 +++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/arwen/contexts/metering.go b/arwen/contexts/metering.go
index 2e6863d..a0d528c 100644
--- a/arwen/contexts/metering.go
+++ b/arwen/contexts/metering.go
@@ -21,6 +21,9 @@ type meteringContext struct {
 	initialCost        uint64
 	gasForExecution    uint64
 	gasUsedByAccounts  map[string]uint64
+
+	// gas in the output transfers made before the current execution started
+	gasTransferredBefore uint64
 }
 
 // NewMeteringContext creates a new meteringContext
@@ -55,6 +58,7 @@ func (context *meteringContext) InitState() {
 	context.initialCost = 0
 	context.gasForExecution = 0
 	context.gasUsedByAccounts = make(map[string]uint64)
+	context.gasTransferredBefore = 0
 }
 
 // InitStateFromContractCallInput initializes the internal state of the
@@ -64,6 +68,7 @@ func (context *meteringContext) InitStateFromContractCallInput(input *vmcommon.V
 	context.unlockGasIfAsyncCallback(input)
 	context.initialGasProvided = input.GasProvided
 	context.gasForExecution = input.GasProvided
+	context.gasTransferredBefore = context.getGasTransferredByAllAccounts()
 }
 
 // PushState pushes the current state of the MeteringContext on its internal state stack
@@ -73,6 +78,8 @@ func (context *meteringContext) PushState() {
 		initialCost:        context.initialCost,
 		gasForExecution:    context.gasForExecution,
 		gasUsedByAccounts:  context.cloneGasUsedByAccounts(),
+
+		gasTransferredBefore: context.gasTransferredBefore,
 	}
 
 	context.stateStack = append(context.stateStack, newState)
@@ -93,6 +100,7 @@ func (context *meteringContext) PopSetActiveState() {
 	context.initialCost = prevState.initialCost
 	context.gasForExecution = prevState.gasForExecution
 	context.gasUsedByAccounts = prevState.gasUsedByAccounts
+	context.gasTransferredBefore = prevState.gasTransferredBefore
 }
 
 // PopDiscard pops the state at the top of the internal state stack, and discards it
@@ -119,6 +127,7 @@ func (context *meteringContext) PopMergeActiveState() {
 	context.initialGasProvided = prevState.initialGasProvided
 	context.initialCost = prevState.initialCost
 	context.gasForExecution = prevState.gasForExecution
+	context.gasTransferredBefore = prevState.gasTransferredBefore
 
 	context.addToGasUsedByAccounts(prevState.gasUsedByAccounts)
 }
@@ -169,15 +178,12 @@ func (context *meteringContext) updateSCGasUsed() {
 	output := context.host.Output()
 
 	currentAccountAddress := runtime.GetSCAddress()
-	currentContractAccount, _ := output.GetOutputAccount(currentAccountAddress)
+	_, _ = output.GetOutputAccount(currentAccountAddress)
 	outputAccounts := context.host.Output().GetOutputAccounts()
 
-	gasTransferredByCurrentAccount := context.getGasTransferredByAccount(currentContractAccount)
-	gasUsedByOthers := context.getGasUsedByAllOtherAccounts(outputAccounts)
-
 	gasUsed := context.GasSpentByContract()
-	gasUsed = math.SubUint64(gasUsed, gasTransferredByCurrentAccount)
-	gasUsed = math.SubUint64(gasUsed, gasUsedByOthers)
+	gasUsed = math.SubUint64(gasUsed, context.getGasTransferred())
+	gasUsed = math.SubUint64(gasUsed, context.getGasUsedByAllOtherAccounts(outputAccounts))
 
 	context.gasUsedByAccounts[string(currentAccountAddress)] = gasUsed
 }
@@ -225,30 +231,42 @@ func (context *meteringContext) getCurrentTotalUsedGas() uint64 {
 
 	gasUsed := uint64(0)
 	for _, outputAccount := range outputAccounts {
-		gasTransferred := context.getGasTransferredByAccount(outputAccount)
 		gasUsed = math.AddUint64(gasUsed, outputAccount.GasUsed)
-		gasUsed = math.AddUint64(gasUsed, gasTransferred)
 	}
 
-	return gasUsed
+	return math.AddUint64(gasUsed, context.getGasTransferred())
+}
+
+// getGasTransferred returns the gas in the output transfers made since the
+// current execution started.
+func (context *meteringContext) getGasTransferred() uint64 {
+	return math.SubUint64(context.getGasTransferredByAllAccounts(), context.gasTransferredBefore)
+}
+
+func (context *meteringContext) getGasTransferredByAllAccounts() uint64 {
+	gasTransferred := uint64(0)
+	output := context.host.Output()
+	if output == nil {
+		return gasTransferred
+	}
+
+	for _, account := range output.GetOutputAccounts() {
+		gasTransferred = math.AddUint64(gasTransferred, context.getGasTransferredByAccount(account))
+	}
+
+	return gasTransferred
 }
 
 func (context *meteringContext) getGasUsedByAllOtherAccounts(outputAccounts map[string]*vmcommon.OutputAccount) uint64 {
-	gasUsedAndTransferred := uint64(0)
+	gasUsed := uint64(0)
 	currentAccountAddress := string(context.host.Runtime().GetSCAddress())
-	for address, account := range outputAccounts {
-		gasTransferred := context.getGasTransferredByAccount(account)
-
-		gasUsed := uint64(0)
+	for address := range outputAccounts {
 		if address != currentAccountAddress {
-			gasUsed = context.gasUsedByAccounts[address]
+			gasUsed = math.AddUint64(gasUsed, context.gasUsedByAccounts[address])
 		}
-
-		gasUsedAndTransferred = math.AddUint64(gasUsedAndTransferred, gasUsed)
-		gasUsedAndTransferred = math.AddUint64(gasUsedAndTransferred, gasTransferred)
 	}
 
-	return gasUsedAndTransferred
+	return gasUsed
 }
 
 func (context *meteringContext) getGasTransferredByAccount(account *vmcommon.OutputAccount) uint64 {
-- 
2.43.0


From ed9577024496afd5590d6b471561fd4b5b8f2b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:35 +0000
Subject: [PATCH 23/63] fix: keep the gas refund of the caller after nested
 calls and built-in functions

---
 arwen/contexts/output.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 99b1ebc..0bf188d 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -97,9 +97,15 @@ func (context *outputContext) PopMergeActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 
+	gasRefund := big.NewInt(0).Set(prevState.GasRefund)
+	if context.outputState.GasRefund != nil {
+		gasRefund.Add(gasRefund, context.outputState.GasRefund)
+	}
+
 	mergeVMOutputs(prevState, context.outputState)
 	context.outputState = newVMOutput()
 	mergeVMOutputs(context.outputState, prevState)
+	context.outputState.GasRefund = gasRefund
 }
 
 // PopDiscard removes the latest entry from the state stack, but maintaining
@@ -519,9 +525,10 @@ func (context *outputContext) resolveReturnCodeFromError(err error) vmcommon.Ret
 
 // AddToActiveState merges the given vmOutput with the outputState.
 func (context *outputContext) AddToActiveState(rightOutput *vmcommon.VMOutput) {
-	if rightOutput.GasRefund != nil {
-		rightOutput.GasRefund.Add(rightOutput.GasRefund, context.outputState.GasRefund)
+	if rightOutput.GasRefund == nil {
+		rightOutput.GasRefund = big.NewInt(0)
 	}
+	rightOutput.GasRefund.Add(rightOutput.GasRefund, context.outputState.GasRefund)
 
 	for _, rightAccount := range rightOutput.OutputAccounts {
 		leftAccount, ok := context.outputState.OutputAccounts[string(rightAccount.Address)]
-- 
2.43.0


From b0c1dc8db032c3bf4176dc72bcf4c642942504e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:57 +0000
Subject: [PATCH 24/63] fix: give contracts deployed during the deployment of
 another their own addresses

---
 arwen/host/execution.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 35cda43..b7f6a9f 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -496,6 +496,10 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 
 	codeDeployInput.ContractAddress = newContractAddress
 	output.PushState()
+
+	// The nonce is increased before the init function is executed: the contracts
+	// deployed by the same account in the meantime must get other addresses.
+	blockchain.IncreaseNonce(input.CallerAddr)
 	output.DeployCode(codeDeployInput)
 
 	defer func() {
@@ -518,12 +522,6 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 		VMInput:           input.VMInput,
 	}
 	_, _, err = host.ExecuteOnDestContext(initCallInput)
-	if err != nil {
-		return
-	}
-
-	blockchain.IncreaseNonce(input.CallerAddr)
-
 	return
 }
 
-- 
2.43.0


From c76eafc36636e54366f3423fe7ef8824bc6132df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 25/63] fix: do not run the old compiled code of contracts
 upgraded by the same transaction

---
 arwen/contexts/blockchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 4f18f9f..9c0628a 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -129,6 +129,12 @@ func (context *blockchainContext) GetESDTToken(address []byte, tokenID []byte, n
 
 // GetCodeHash returns the code hash that is set tho the given account
 func (context *blockchainContext) GetCodeHash(address []byte) []byte {
+	// The node does not know the hash of the code deployed by this transaction.
+	outputAccount, ok := context.host.Output().GetOutputAccounts()[string(address)]
+	if ok && outputAccount.CodeDeployerAddress != nil {
+		return nil
+	}
+
 	account, err := context.blockChainHook.GetUserAccount(address)
 	if err != nil {
 		return nil
-- 
2.43.0


From af06f69b67bf1c38aa8b27c2bf15f2ccf98106c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 26/63] fix: bound the number of topics of a log by the memory
 that holds them

---
 arwen/elrondapi/elrondei.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index c8c2172..dc28ede 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2016,6 +2016,14 @@ func v1_3_writeLog(context unsafe.Pointer, dataPointer int32, dataLength int32,
 		return
 	}
 
+	memoryLength := runtime.GetInstance().GetInstanceCtxMemory().Length()
+	if int64(numTopics)*arwen.HashLen > int64(memoryLength) {
+		err = fmt.Errorf("numTopics too large (%d)", numTopics)
+	}
+	if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
+		return
+	}
+
 	topics, err := arwen.GuardedMakeByteSlice2D(numTopics)
 	if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return
-- 
2.43.0


From 4710901a4fde821e1646abaac82e5e44ad57f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:52 +0000
Subject: [PATCH 27/63] fix: give the callback no value of transfers older than
 the asynchronous call

---
 arwen/host/asyncCall.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index b744eee..a47f795 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -61,9 +61,10 @@ func (host *vmHost) handleAsyncCallBreakpoint() error {
 	}
 
 	// Start calling the destination SC, synchronously.
+	numEarlierTransfers := host.numTransfersToCurrentContract()
 	destinationVMOutput, destinationErr := host.executeSyncDestinationCall(asyncCallInfo)
 
-	callbackVMOutput, callBackErr := host.executeSyncCallbackCall(asyncCallInfo, destinationVMOutput, destinationErr)
+	callbackVMOutput, callBackErr := host.executeSyncCallbackCall(asyncCallInfo, destinationVMOutput, destinationErr, numEarlierTransfers)
 
 	err = host.processCallbackVMOutput(callbackVMOutput, callBackErr)
 	if err != nil {
@@ -163,6 +164,7 @@ func (host *vmHost) executeSyncCallbackCall(
 	asyncCallInfo arwen.AsyncCallInfoHandler,
 	destinationVMOutput *vmcommon.VMOutput,
 	destinationErr error,
+	numEarlierTransfers int,
 ) (*vmcommon.VMOutput, error) {
 	callbackCallInput, err := host.createCallbackContractCallInput(
 		asyncCallInfo,
@@ -170,6 +172,7 @@ func (host *vmHost) executeSyncCallbackCall(
 		asyncCallInfo.GetDestination(),
 		arwen.CallbackFunctionName,
 		destinationErr,
+		numEarlierTransfers,
 	)
 	if err != nil {
 		log.Trace("async call: sync callback failed", "error", err)
@@ -318,7 +321,16 @@ func (host *vmHost) createDestinationContractCallInput(asyncCallInfo arwen.Async
 	return contractCallInput, nil
 }
 
-func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *vmcommon.VMOutput) *big.Int {
+func (host *vmHost) numTransfersToCurrentContract() int {
+	account, ok := host.Output().GetOutputAccounts()[string(host.Runtime().GetSCAddress())]
+	if !ok {
+		return 0
+	}
+
+	return len(account.OutputTransfers)
+}
+
+func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *vmcommon.VMOutput, numEarlierTransfers int) *big.Int {
 	if !host.IsArwenV3Enabled() {
 		return big.NewInt(0)
 	}
@@ -333,7 +345,7 @@ func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *
 		return returnTransfer
 	}
 
-	if len(outAcc.OutputTransfers) == 0 {
+	if len(outAcc.OutputTransfers) <= numEarlierTransfers {
 		return returnTransfer
 	}
 
@@ -351,6 +363,7 @@ func (host *vmHost) createCallbackContractCallInput(
 	callbackInitiator []byte,
 	callbackFunction string,
 	destinationErr error,
+	numEarlierTransfers int,
 ) (*vmcommon.ContractCallInput, error) {
 	metering := host.Metering()
 	gasSchedule := metering.GasSchedule()
@@ -392,7 +405,7 @@ func (host *vmHost) createCallbackContractCallInput(
 		VMInput: vmcommon.VMInput{
 			CallerAddr:           callbackInitiator,
 			Arguments:            arguments,
-			CallValue:            host.computeCallValueFromLastOutputTransfer(destinationVMOutput),
+			CallValue:            host.computeCallValueFromLastOutputTransfer(destinationVMOutput, numEarlierTransfers),
 			CallType:             vmcommon.AsynchronousCallBack,
 			GasPrice:             runtime.GetVMInput().GasPrice,
 			GasProvided:          gasLimit,
@@ -550,6 +563,7 @@ func (host *vmHost) callbackAsync(asyncCall *arwen.AsyncGeneratedCall, vmOutput
 		asyncCall.Destination,
 		callbackFunction,
 		executionError,
+		0,
 	)
 	if err != nil {
 		return err
@@ -739,6 +753,7 @@ func (host *vmHost) processCallbackStack() error {
 		asyncInfo.CallerAddr,
 		arwen.CallbackFunctionName,
 		nil,
+		0,
 	)
 	if err != nil {
 		return err
-- 
2.43.0


From ec826080d9d01642d0064d7714b9439192e3e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 28/63] fix: refuse to load more memory than a contract has

---
 arwen/contexts/runtime.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 8c08d23..a6a5714 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -865,6 +865,9 @@ func (context *runtimeContext) MemLoad(offset int32, length int32) ([]byte, erro
 	if isLengthNegative {
 		return nil, fmt.Errorf("mem load: %w", arwen.ErrNegativeLength)
 	}
+	if uint32(length) > memoryLength {
+		return nil, fmt.Errorf("mem load: %w", arwen.ErrBadUpperBounds)
+	}
 
 	result := make([]byte, length)
 	if isRequestedEndTooLarge {
-- 
2.43.0


From 3f66d548e3237ce8d6db0f09f4473add7f539bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 29/63] fix: forget and release the instances of an execution
 that panicked

---
 arwen/contexts/runtime.go | 20 ++++++++++++++++++++
 arwen/host/arwen.go       |  3 +++
 2 files changed, 23 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index a6a5714..d74b68b 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -376,6 +376,26 @@ func (context *runtimeContext) PopDiscard() {
 // ClearStateStack reinitializes the state stack.
 func (context *runtimeContext) ClearStateStack() {
 	context.stateStack = make([]*runtimeContext, 0)
+	context.clearInstanceStack()
+}
+
+// clearInstanceStack cleans the wasmer instances that an interrupted execution
+// has left on the instance stack, except the current and the warm instance
+func (context *runtimeContext) clearInstanceStack() {
+	cleaned := make(map[wasmer.InstanceHandler]struct{})
+	for _, instance := range context.instanceStack {
+		if instance == nil || instance == context.instance || instance == context.warmInstance {
+			continue
+		}
+		if _, ok := cleaned[instance]; ok {
+			continue
+		}
+
+		cleaned[instance] = struct{}{}
+		instance.Clean()
+	}
+
+	context.instanceStack = make([]wasmer.InstanceHandler, 0)
 }
 
 // pushInstance appends the current wasmer instance to the instance stack.
diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index 2dec328..113f3a2 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -289,6 +289,9 @@ func (host *vmHost) ClearContextStateStack() {
 
 // Clean closes the currently running Wasmer instance
 func (host *vmHost) Clean() {
+	// The stacks are empty here, unless the execution was interrupted by a panic.
+	host.ClearContextStateStack()
+
 	if host.runtimeContext.IsWarmInstance() {
 		return
 	}
-- 
2.43.0


From f5e5a35db2d489e3701ff2626ecdc328262db7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 30/63] fix: undo the code updates of nested executions that
 fail

---
 arwen/contexts/output.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 0bf188d..c2bbadd 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -15,10 +15,11 @@ var _ arwen.OutputContext = (*outputContext)(nil)
 var logOutput = logger.GetOrCreate("arwen/output")
 
 type outputContext struct {
-	host        arwen.VMHost
-	outputState *vmcommon.VMOutput
-	stateStack  []*vmcommon.VMOutput
-	codeUpdates map[string]struct{}
+	host             arwen.VMHost
+	outputState      *vmcommon.VMOutput
+	stateStack       []*vmcommon.VMOutput
+	codeUpdates      map[string]struct{}
+	codeUpdatesStack []map[string]struct{}
 }
 
 // NewOutputContext creates a new outputContext
@@ -69,6 +70,24 @@ func (context *outputContext) PushState() {
 	newState := newVMOutput()
 	mergeVMOutputs(newState, context.outputState)
 	context.stateStack = append(context.stateStack, newState)
+
+	codeUpdates := make(map[string]struct{}, len(context.codeUpdates))
+	for address := range context.codeUpdates {
+		codeUpdates[address] = struct{}{}
+	}
+	context.codeUpdatesStack = append(context.codeUpdatesStack, codeUpdates)
+}
+
+// popCodeUpdates removes the latest entry from the stack of code updates and returns it
+func (context *outputContext) popCodeUpdates() map[string]struct{} {
+	stackLen := len(context.codeUpdatesStack)
+	if stackLen == 0 {
+		return context.codeUpdates
+	}
+
+	codeUpdates := context.codeUpdatesStack[stackLen-1]
+	context.codeUpdatesStack = context.codeUpdatesStack[:stackLen-1]
+	return codeUpdates
 }
 
 // PopSetActiveState removes the latest entry from the state stack and sets it as the current vm output
@@ -81,6 +100,7 @@ func (context *outputContext) PopSetActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 	context.outputState = prevState
+	context.codeUpdates = context.popCodeUpdates()
 }
 
 // PopMergeActiveState merges the current state into the head of the stateStack,
@@ -96,6 +116,7 @@ func (context *outputContext) PopMergeActiveState() {
 
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
+	context.popCodeUpdates()
 
 	gasRefund := big.NewInt(0).Set(prevState.GasRefund)
 	if context.outputState.GasRefund != nil {
@@ -117,11 +138,13 @@ func (context *outputContext) PopDiscard() {
 	}
 
 	context.stateStack = context.stateStack[:stateStackLen-1]
+	context.popCodeUpdates()
 }
 
 // ClearStateStack reinitializes the state stack.
 func (context *outputContext) ClearStateStack() {
 	context.stateStack = make([]*vmcommon.VMOutput, 0)
+	context.codeUpdatesStack = make([]map[string]struct{}, 0)
 }
 
 // CensorVMOutput will cause the next executed SC to appear isolated, as if
-- 
2.43.0


From 3ae5ae4d18014d5eb9174729997625dbaaebff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 31/63] Seams of the pipes, the clock and the VM process,
 replaced under build tag verif

---
 ipc/arwenpart/messenger.go  |  4 +-
 ipc/arwenpart/part.go       |  7 ++-
 ipc/common/arguments.go     |  6 +--
 ipc/common/messenger.go     |  3 +-
 ipc/common/receiver.go      |  7 ++-
 ipc/common/seams.go         | 31 ++++++++++++
 ipc/common/seams_verif.go   | 43 +++++++++++++++++
 ipc/common/sender.go        |  5 +-
 ipc/nodepart/arwenDriver.go | 37 +++++++--------
 ipc/nodepart/messenger.go   |  9 ++--
 ipc/nodepart/part.go        | 11 ++---
 ipc/nodepart/seams.go       | 17 +++++++
 ipc/nodepart/seams_verif.go | 94 +++++++++++++++++++++++++++++++++++++
 13 files changed, 222 insertions(+), 52 deletions(-)
 create mode 100644 ipc/common/seams.go
 create mode 100644 ipc/common/seams_verif.go
 create mode 100644 ipc/nodepart/seams.go
 create mode 100644 ipc/nodepart/seams_verif.go

diff --git a/ipc/arwenpart/messenger.go b/ipc/arwenpart/messenger.go
index 63812ae..c2c1a95 100644
--- a/ipc/arwenpart/messenger.go
+++ b/ipc/arwenpart/messenger.go
@@ -1,8 +1,6 @@
 package arwenpart
 
 import (
-	"os"
-
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 )
@@ -13,7 +11,7 @@ type ArwenMessenger struct {
 }
 
 // NewArwenMessenger creates a new messenger
-func NewArwenMessenger(reader *os.File, writer *os.File, marshalizer marshaling.Marshalizer) *ArwenMessenger {
+func NewArwenMessenger(reader common.PipeFile, writer common.PipeFile, marshalizer marshaling.Marshalizer) *ArwenMessenger {
 	return &ArwenMessenger{
 		Messenger: *common.NewMessengerPipes("ARWEN", reader, writer, marshalizer),
 	}
diff --git a/ipc/arwenpart/part.go b/ipc/arwenpart/part.go
index d3f2656..b793515 100644
--- a/ipc/arwenpart/part.go
+++ b/ipc/arwenpart/part.go
@@ -1,7 +1,6 @@
 package arwenpart
 
 import (
-	"os"
 	"time"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
@@ -25,8 +24,8 @@ type ArwenPart struct {
 // NewArwenPart creates the Arwen part
 func NewArwenPart(
 	version string,
-	input *os.File,
-	output *os.File,
+	input common.PipeFile,
+	output common.PipeFile,
 	vmHostParameters *arwen.VMHostParameters,
 	marshalizer marshaling.Marshalizer,
 ) (*ArwenPart, error) {
@@ -114,7 +113,7 @@ func (part *ArwenPart) replyToRunSmartContractCall(request common.MessageHandler
 func (part *ArwenPart) replyToDiagnoseWait(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageDiagnoseWaitRequest)
 	duration := time.Duration(int64(typedRequest.Milliseconds) * int64(time.Millisecond))
-	time.Sleep(duration)
+	common.Sleep(duration)
 	return common.NewMessageDiagnoseWaitResponse()
 }
 
diff --git a/ipc/common/arguments.go b/ipc/common/arguments.go
index 31243cd..1b23eda 100644
--- a/ipc/common/arguments.go
+++ b/ipc/common/arguments.go
@@ -1,8 +1,6 @@
 package common
 
 import (
-	"os"
-
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 )
@@ -15,7 +13,7 @@ type ArwenArguments struct {
 }
 
 // SendArwenArguments sends initialization arguments through a pipe
-func SendArwenArguments(pipe *os.File, pipeArguments ArwenArguments) error {
+func SendArwenArguments(pipe PipeFile, pipeArguments ArwenArguments) error {
 	sender := NewSender(pipe, createArgumentsMarshalizer())
 	message := NewMessageInitialize(pipeArguments)
 	_, err := sender.Send(message)
@@ -23,7 +21,7 @@ func SendArwenArguments(pipe *os.File, pipeArguments ArwenArguments) error {
 }
 
 // GetArwenArguments reads initialization arguments from the pipe
-func GetArwenArguments(pipe *os.File) (*ArwenArguments, error) {
+func GetArwenArguments(pipe PipeFile) (*ArwenArguments, error) {
 	receiver := NewReceiver(pipe, createArgumentsMarshalizer())
 	message, _, err := receiver.Receive(0)
 	if err != nil {
diff --git a/ipc/common/messenger.go b/ipc/common/messenger.go
index af65fd8..a112453 100644
--- a/ipc/common/messenger.go
+++ b/ipc/common/messenger.go
@@ -2,7 +2,6 @@ package common
 
 import (
 	"fmt"
-	"os"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 	logger "github.com/ElrondNetwork/elrond-go-logger"
@@ -19,7 +18,7 @@ type Messenger struct {
 }
 
 // NewMessengerPipes creates a new messenger from pipes
-func NewMessengerPipes(name string, reader *os.File, writer *os.File, marshalizer marshaling.Marshalizer) *Messenger {
+func NewMessengerPipes(name string, reader PipeFile, writer PipeFile, marshalizer marshaling.Marshalizer) *Messenger {
 	return &Messenger{
 		Name:     name,
 		receiver: NewReceiver(reader, marshalizer),
diff --git a/ipc/common/receiver.go b/ipc/common/receiver.go
index f3e9329..a6ce453 100644
--- a/ipc/common/receiver.go
+++ b/ipc/common/receiver.go
@@ -3,7 +3,6 @@ package common
 import (
 	"encoding/binary"
 	"io"
-	"os"
 	"time"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
@@ -11,12 +10,12 @@ import (
 
 // Receiver intermediates communication (message receiving) via pipes
 type Receiver struct {
-	reader      *os.File
+	reader      PipeFile
 	marshalizer marshaling.Marshalizer
 }
 
 // NewReceiver creates a new receiver
-func NewReceiver(reader *os.File, marshalizer marshaling.Marshalizer) *Receiver {
+func NewReceiver(reader PipeFile, marshalizer marshaling.Marshalizer) *Receiver {
 	return &Receiver{
 		reader:      reader,
 		marshalizer: marshalizer,
@@ -49,7 +48,7 @@ func (receiver *Receiver) Receive(timeout int) (MessageHandler, int, error) {
 
 func (receiver *Receiver) setReceiveDeadline(timeout int) error {
 	duration := time.Duration(timeout) * time.Millisecond
-	future := time.Now().Add(duration)
+	future := Now().Add(duration)
 	return receiver.reader.SetDeadline(future)
 }
 
diff --git a/ipc/common/seams.go b/ipc/common/seams.go
new file mode 100644
index 0000000..bcfa628
--- /dev/null
+++ b/ipc/common/seams.go
@@ -0,0 +1,31 @@
+//go:build !verif
+// +build !verif
+
+package common
+
+import (
+	"os"
+	"sync"
+	"time"
+)
+
+// PipeFile is one end of a pipe
+type PipeFile = *os.File
+
+// Mutex is a mutual exclusion lock
+type Mutex = sync.Mutex
+
+// NewPipe creates a pipe and returns its two ends: the reader and the writer
+func NewPipe() (PipeFile, PipeFile, error) {
+	return os.Pipe()
+}
+
+// Now returns the current time
+func Now() time.Time {
+	return time.Now()
+}
+
+// Sleep pauses the execution
+func Sleep(duration time.Duration) {
+	time.Sleep(duration)
+}
diff --git a/ipc/common/seams_verif.go b/ipc/common/seams_verif.go
new file mode 100644
index 0000000..7bfdea2
--- /dev/null
+++ b/ipc/common/seams_verif.go
@@ -0,0 +1,43 @@
+//go:build verif
+// +build verif
+
+package common
+
+import (
+	"io"
+	"sync"
+	"time"
+)
+
+// PipeFile is one end of a pipe
+type PipeFile interface {
+	io.ReadWriteCloser
+	SetDeadline(t time.Time) error
+	SetReadDeadline(t time.Time) error
+	SetWriteDeadline(t time.Time) error
+}
+
+// Mutex is a mutual exclusion lock, as implemented by the simulator
+type Mutex struct {
+	once sync.Once
+	impl sync.Locker
+}
+
+// Lock locks the mutex
+func (m *Mutex) Lock() {
+	m.once.Do(func() { m.impl = NewLocker() })
+	m.impl.Lock()
+}
+
+// Unlock unlocks the mutex
+func (m *Mutex) Unlock() {
+	m.impl.Unlock()
+}
+
+// The seams below are set by the simulator
+var (
+	NewLocker = func() sync.Locker { return &sync.Mutex{} }
+	NewPipe   func() (PipeFile, PipeFile, error)
+	Now       = time.Now
+	Sleep     = time.Sleep
+)
diff --git a/ipc/common/sender.go b/ipc/common/sender.go
index c1133ef..99d7be0 100644
--- a/ipc/common/sender.go
+++ b/ipc/common/sender.go
@@ -2,19 +2,18 @@ package common
 
 import (
 	"encoding/binary"
-	"os"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 )
 
 // Sender intermediates communication (message sending) via pipes
 type Sender struct {
-	writer      *os.File
+	writer      PipeFile
 	marshalizer marshaling.Marshalizer
 }
 
 // NewSender creates a new sender
-func NewSender(writer *os.File, marshalizer marshaling.Marshalizer) *Sender {
+func NewSender(writer PipeFile, marshalizer marshaling.Marshalizer) *Sender {
 	return &Sender{
 		writer:      writer,
 		marshalizer: marshalizer,
diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 32615d6..c7dc377 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -3,14 +3,11 @@ package nodepart
 import (
 	"fmt"
 	"os"
-	"os/exec"
-	"sync"
 	"syscall"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 	logger "github.com/ElrondNetwork/elrond-go-logger"
-	"github.com/ElrondNetwork/elrond-go-logger/pipes"
 	"github.com/ElrondNetwork/elrond-vm-common"
 )
 
@@ -26,17 +23,17 @@ type ArwenDriver struct {
 	logsMarshalizer     marshaling.Marshalizer
 	messagesMarshalizer marshaling.Marshalizer
 
-	arwenInitRead    *os.File
-	arwenInitWrite   *os.File
-	arwenInputRead   *os.File
-	arwenInputWrite  *os.File
-	arwenOutputRead  *os.File
-	arwenOutputWrite *os.File
+	arwenInitRead    common.PipeFile
+	arwenInitWrite   common.PipeFile
+	arwenInputRead   common.PipeFile
+	arwenInputWrite  common.PipeFile
+	arwenOutputRead  common.PipeFile
+	arwenOutputWrite common.PipeFile
 
 	counterDeploy uint64
 	counterCall   uint64
 
-	command  *exec.Cmd
+	command  *childCommand
 	part     *NodePart
 	logsPart ParentLogsPart
 
@@ -47,7 +44,7 @@ type ArwenDriver struct {
 	// This might lead to issues (such as interleaving message sequences on the communication pipes).
 	// A solution is to use a mutex, and treat each operation within a critical section (in the ArwenDriver, thus on node's part).
 	// Thus, for any two concurrent operations, the first one reaching the mutex also wins the pipe and holds ownership upon its completion.
-	operationsMutex sync.Mutex
+	operationsMutex common.Mutex
 }
 
 // NewArwenDriver creates a new driver
@@ -92,8 +89,8 @@ func (driver *ArwenDriver) startArwen() error {
 		return err
 	}
 
-	driver.command = exec.Command(arwenPath)
-	driver.command.ExtraFiles = []*os.File{
+	driver.command = newChildCommand(arwenPath)
+	driver.command.ExtraFiles = []common.PipeFile{
 		driver.arwenInitRead,
 		driver.arwenInputRead,
 		driver.arwenOutputWrite,
@@ -142,8 +139,8 @@ func (driver *ArwenDriver) startArwen() error {
 	return nil
 }
 
-func (driver *ArwenDriver) resetLogsPart() (*os.File, *os.File, error) {
-	logsPart, err := pipes.NewParentPart("Arwen", driver.logsMarshalizer)
+func (driver *ArwenDriver) resetLogsPart() (common.PipeFile, common.PipeFile, error) {
+	logsPart, err := newParentLogsPart("Arwen", driver.logsMarshalizer)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -163,17 +160,17 @@ func (driver *ArwenDriver) resetPipeStreams() error {
 
 	var err error
 
-	driver.arwenInitRead, driver.arwenInitWrite, err = os.Pipe()
+	driver.arwenInitRead, driver.arwenInitWrite, err = common.NewPipe()
 	if err != nil {
 		return err
 	}
 
-	driver.arwenInputRead, driver.arwenInputWrite, err = os.Pipe()
+	driver.arwenInputRead, driver.arwenInputWrite, err = common.NewPipe()
 	if err != nil {
 		return err
 	}
 
-	driver.arwenOutputRead, driver.arwenOutputWrite, err = os.Pipe()
+	driver.arwenOutputRead, driver.arwenOutputWrite, err = common.NewPipe()
 	if err != nil {
 		return err
 	}
@@ -181,7 +178,7 @@ func (driver *ArwenDriver) resetPipeStreams() error {
 	return nil
 }
 
-func closeFile(file *os.File) {
+func closeFile(file common.PipeFile) {
 	if file != nil {
 		err := file.Close()
 		if err != nil {
@@ -203,7 +200,7 @@ func (driver *ArwenDriver) RestartArwenIfNecessary() error {
 // IsClosed checks whether the Arwen process is closed
 func (driver *ArwenDriver) IsClosed() bool {
 	pid := driver.command.Process.Pid
-	process, err := os.FindProcess(pid)
+	process, err := findProcess(pid)
 	if err != nil {
 		return true
 	}
diff --git a/ipc/nodepart/messenger.go b/ipc/nodepart/messenger.go
index b9b62ec..8b06511 100644
--- a/ipc/nodepart/messenger.go
+++ b/ipc/nodepart/messenger.go
@@ -1,9 +1,6 @@
 package nodepart
 
 import (
-	"os"
-	"time"
-
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 )
@@ -14,7 +11,7 @@ type NodeMessenger struct {
 }
 
 // NewNodeMessenger creates a new messenger
-func NewNodeMessenger(reader *os.File, writer *os.File, marshalizer marshaling.Marshalizer) *NodeMessenger {
+func NewNodeMessenger(reader common.PipeFile, writer common.PipeFile, marshalizer marshaling.Marshalizer) *NodeMessenger {
 	return &NodeMessenger{
 		Messenger: *common.NewMessengerPipes("NODE", reader, writer, marshalizer),
 	}
@@ -42,9 +39,9 @@ func (messenger *NodeMessenger) SendHookCallResponse(response common.MessageHand
 
 // ReceiveHookCallRequestOrContractResponse waits for any message that could arrive from Arwen
 func (messenger *NodeMessenger) ReceiveHookCallRequestOrContractResponse(timeout int) (common.MessageHandler, int, error) {
-	start := time.Now()
+	start := common.Now()
 	message, err := messenger.Receive(timeout)
-	duration := time.Since(start).Milliseconds()
+	duration := common.Now().Sub(start).Milliseconds()
 	if err != nil {
 		return nil, int(duration), err
 	}
diff --git a/ipc/nodepart/part.go b/ipc/nodepart/part.go
index 4d087fb..433d65e 100644
--- a/ipc/nodepart/part.go
+++ b/ipc/nodepart/part.go
@@ -2,7 +2,6 @@ package nodepart
 
 import (
 	"fmt"
-	"os"
 	"time"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
@@ -20,8 +19,8 @@ type NodePart struct {
 
 // NewNodePart creates the Node part
 func NewNodePart(
-	input *os.File,
-	output *os.File,
+	input common.PipeFile,
+	output common.PipeFile,
 	blockchain vmcommon.BlockchainHook,
 	config Config,
 	marshalizer marshaling.Marshalizer,
@@ -75,7 +74,7 @@ func (part *NodePart) noopReplier(_ common.MessageHandler) common.MessageHandler
 
 // StartLoop runs the main loop
 func (part *NodePart) StartLoop(request common.MessageHandler) (common.MessageHandler, error) {
-	defer part.timeTrack(time.Now(), "[NODE] end of loop")
+	defer part.timeTrack(common.Now(), "[NODE] end of loop")
 
 	err := part.Messenger.SendContractRequest(request)
 	if err != nil {
@@ -135,7 +134,7 @@ func (part *NodePart) doLoop() (common.MessageHandler, error) {
 }
 
 func (part *NodePart) replyToHookCallRequest(request common.MessageHandler) error {
-	defer part.timeTrack(time.Now(), fmt.Sprintf("replyToHookCallRequest %s", request.GetKindName()))
+	defer part.timeTrack(common.Now(), fmt.Sprintf("replyToHookCallRequest %s", request.GetKindName()))
 
 	replier := part.Repliers[request.GetKind()]
 	hookResponse := replier(request)
@@ -158,6 +157,6 @@ func (part *NodePart) SendStopSignal() error {
 }
 
 func (part *NodePart) timeTrack(start time.Time, message string) {
-	elapsed := time.Since(start)
+	elapsed := common.Now().Sub(start)
 	log.Trace(message, "duration", elapsed)
 }
diff --git a/ipc/nodepart/seams.go b/ipc/nodepart/seams.go
new file mode 100644
index 0000000..b5f6b2f
--- /dev/null
+++ b/ipc/nodepart/seams.go
@@ -0,0 +1,17 @@
+//go:build !verif
+// +build !verif
+
+package nodepart
+
+import (
+	"os"
+	"os/exec"
+
+	"github.com/ElrondNetwork/elrond-go-logger/pipes"
+)
+
+type childCommand = exec.Cmd
+
+var newChildCommand = exec.Command
+var findProcess = os.FindProcess
+var newParentLogsPart = pipes.NewParentPart
diff --git a/ipc/nodepart/seams_verif.go b/ipc/nodepart/seams_verif.go
new file mode 100644
index 0000000..5eaf9c7
--- /dev/null
+++ b/ipc/nodepart/seams_verif.go
@@ -0,0 +1,94 @@
+//go:build verif
+// +build verif
+
+package nodepart
+
+import (
+	"io"
+	"os"
+
+	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
+	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
+)
+
+type childCommand = ChildCommand
+
+// ChildCommand is the simulated counterpart of exec.Cmd
+type ChildCommand struct {
+	Path       string
+	ExtraFiles []common.PipeFile
+	Process    *ChildProcess
+}
+
+// ChildProcess is the simulated counterpart of os.Process
+type ChildProcess struct {
+	Pid  int
+	Impl interface{}
+}
+
+// ChildLogsPart is the simulated counterpart of the parent's logs part
+type ChildLogsPart interface {
+	ParentLogsPart
+	GetChildPipes() (common.PipeFile, common.PipeFile)
+}
+
+// ChildProcesses are the process operations of the simulated operating system
+type ChildProcesses interface {
+	StdPipe(command *ChildCommand) (io.ReadCloser, error)
+	Start(command *ChildCommand) error
+	Find(pid int) (*ChildProcess, error)
+	Signal(process *ChildProcess, signal os.Signal) error
+	Kill(process *ChildProcess) error
+	Wait(process *ChildProcess) error
+	NewLogsPart(name string) (ChildLogsPart, error)
+}
+
+// Processes is set by the simulator
+var Processes ChildProcesses
+
+// StdoutPipe gets the pipe connected to the standard output
+func (command *ChildCommand) StdoutPipe() (io.ReadCloser, error) {
+	return Processes.StdPipe(command)
+}
+
+// StderrPipe gets the pipe connected to the standard error
+func (command *ChildCommand) StderrPipe() (io.ReadCloser, error) {
+	return Processes.StdPipe(command)
+}
+
+// Start starts the process
+func (command *ChildCommand) Start() error {
+	return Processes.Start(command)
+}
+
+// Wait waits for the process to end
+func (command *ChildCommand) Wait() error {
+	return Processes.Wait(command.Process)
+}
+
+// Kill kills the process
+func (process *ChildProcess) Kill() error {
+	return Processes.Kill(process)
+}
+
+// Signal signals the process
+func (process *ChildProcess) Signal(signal os.Signal) error {
+	return Processes.Signal(process, signal)
+}
+
+// Wait waits for the process to end
+func (process *ChildProcess) Wait() (*os.ProcessState, error) {
+	return nil, Processes.Wait(process)
+}
+
+func newChildCommand(path string) *ChildCommand {
+	return &ChildCommand{Path: path}
+}
+
+func findProcess(pid int) (*ChildProcess, error) {
+	return Processes.Find(pid)
+}
+
+func newParentLogsPart(name string, _ marshaling.Marshalizer) (ChildLogsPart, error) {
+	return Processes.NewLogsPart(name)
+}
-- 
2.43.0


From 93ee2d73297074326a10e696e598599e6148dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 32/63] fix: transmit the names of the built-in functions to
 the VM process

---
 ipc/common/arguments.go        | 48 ++++++++++++++++++++++
 ipc/common/builtInFunctions.go | 74 ++++++++++++++++++++++++++++++++++
 ipc/nodepart/arwenDriver.go    |  2 -
 3 files changed, 122 insertions(+), 2 deletions(-)
 create mode 100644 ipc/common/builtInFunctions.go

diff --git a/ipc/common/arguments.go b/ipc/common/arguments.go
index 1b23eda..cd075ea 100644
--- a/ipc/common/arguments.go
+++ b/ipc/common/arguments.go
@@ -1,6 +1,8 @@
 package common
 
 import (
+	"encoding/json"
+
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 )
@@ -12,6 +14,52 @@ type ArwenArguments struct {
 	MessagesMarshalizer marshaling.MarshalizerKind
 }
 
+// vmHostParameters has the same fields as arwen.VMHostParameters
+type vmHostParameters arwen.VMHostParameters
+
+// serializableArwenArguments is the serializable counterpart of ArwenArguments.
+// Its field BuiltInFuncContainer shadows the one of the VM host parameters
+type serializableArwenArguments struct {
+	vmHostParameters
+	BuiltInFuncContainer []SerializableBuiltInFunction
+	LogsMarshalizer      marshaling.MarshalizerKind
+	MessagesMarshalizer  marshaling.MarshalizerKind
+}
+
+// MarshalJSON marshals the arguments
+func (arguments ArwenArguments) MarshalJSON() ([]byte, error) {
+	functions, err := newSerializableBuiltInFunctions(arguments.BuiltInFuncContainer)
+	if err != nil {
+		return nil, err
+	}
+
+	return json.Marshal(&serializableArwenArguments{
+		vmHostParameters:     vmHostParameters(arguments.VMHostParameters),
+		BuiltInFuncContainer: functions,
+		LogsMarshalizer:      arguments.LogsMarshalizer,
+		MessagesMarshalizer:  arguments.MessagesMarshalizer,
+	})
+}
+
+// UnmarshalJSON unmarshals the arguments
+func (arguments *ArwenArguments) UnmarshalJSON(data []byte) error {
+	serializable := &serializableArwenArguments{}
+	err := json.Unmarshal(data, serializable)
+	if err != nil {
+		return err
+	}
+
+	arguments.VMHostParameters = arwen.VMHostParameters(serializable.vmHostParameters)
+	arguments.LogsMarshalizer = serializable.LogsMarshalizer
+	arguments.MessagesMarshalizer = serializable.MessagesMarshalizer
+	if serializable.BuiltInFuncContainer == nil {
+		return nil
+	}
+
+	arguments.BuiltInFuncContainer, err = convertToBuiltInFunctionContainer(serializable.BuiltInFuncContainer)
+	return err
+}
+
 // SendArwenArguments sends initialization arguments through a pipe
 func SendArwenArguments(pipe PipeFile, pipeArguments ArwenArguments) error {
 	sender := NewSender(pipe, createArgumentsMarshalizer())
diff --git a/ipc/common/builtInFunctions.go b/ipc/common/builtInFunctions.go
new file mode 100644
index 0000000..e027851
--- /dev/null
+++ b/ipc/common/builtInFunctions.go
@@ -0,0 +1,74 @@
+package common
+
+import (
+	"errors"
+
+	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
+	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
+)
+
+var errBuiltInFunctionRunsOnNode = errors.New("built-in functions are executed by the node")
+
+// SerializableBuiltInFunction holds what Arwen has to know about a built-in function of the node (is a substructure of an IPC message)
+type SerializableBuiltInFunction struct {
+	Name     []byte
+	IsActive bool
+}
+
+func newSerializableBuiltInFunctions(container vmcommon.BuiltInFunctionContainer) ([]SerializableBuiltInFunction, error) {
+	if container == nil || container.IsInterfaceNil() {
+		return nil, nil
+	}
+
+	functions := make([]SerializableBuiltInFunction, 0, container.Len())
+	for name := range container.Keys() {
+		function, err := container.Get(name)
+		if err != nil {
+			return nil, err
+		}
+
+		functions = append(functions, SerializableBuiltInFunction{
+			Name:     []byte(name),
+			IsActive: function.IsActive(),
+		})
+	}
+
+	return functions, nil
+}
+
+func convertToBuiltInFunctionContainer(functions []SerializableBuiltInFunction) (vmcommon.BuiltInFunctionContainer, error) {
+	container := builtInFunctions.NewBuiltInFunctionContainer()
+	for _, function := range functions {
+		err := container.Add(string(function.Name), &remoteBuiltInFunction{isActive: function.IsActive})
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	return container, nil
+}
+
+// remoteBuiltInFunction stands, within the Arwen process, for a built-in function of the node.
+// The function itself is executed by the node (see BlockchainHook.ProcessBuiltInFunction)
+type remoteBuiltInFunction struct {
+	isActive bool
+}
+
+// ProcessBuiltinFunction returns an error, since the function is executed by the node
+func (function *remoteBuiltInFunction) ProcessBuiltinFunction(_, _ vmcommon.UserAccountHandler, _ *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
+	return nil, errBuiltInFunctionRunsOnNode
+}
+
+// SetNewGasConfig does nothing, since the function is executed by the node
+func (function *remoteBuiltInFunction) SetNewGasConfig(_ *vmcommon.GasCost) {
+}
+
+// IsActive returns whether the function is active
+func (function *remoteBuiltInFunction) IsActive() bool {
+	return function.isActive
+}
+
+// IsInterfaceNil returns true if there is no value under the interface
+func (function *remoteBuiltInFunction) IsInterfaceNil() bool {
+	return function == nil
+}
diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index c7dc377..fde3be6 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -53,8 +53,6 @@ func NewArwenDriver(
 	arwenArguments common.ArwenArguments,
 	config Config,
 ) (*ArwenDriver, error) {
-	//TODO: this does not work anymore - as it cannot unmarshal one of the host parameters / built in functions container
-
 	driver := &ArwenDriver{
 		blockchainHook:      blockchainHook,
 		arwenArguments:      arwenArguments,
-- 
2.43.0


From 8cc4dba788b8b5abdd02d34045450ea3ba851cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 33/63] fix: let the node answer every kind of callback of the
 VM process

---
 ipc/common/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 3b128cf..b0bb1f9 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -286,7 +286,8 @@ func CreateReplySlots(noopReplier MessageReplier) []MessageReplier {
 // IsHookCall returns whether a message is a hook call
 func IsHookCall(message MessageHandler) bool {
 	kind := message.GetKind()
-	return kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse
+	return (kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse) ||
+		(kind >= BlockchainClearCompiledCodesRequest && kind <= BlockchainProcessBuiltInFunctionResponse)
 }
 
 // IsStopRequest returns whether a message is a stop request
-- 
2.43.0


From 5846a4b61ad9d83cfcd5074a440f415041fa0e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 34/63] fix: pass on the error of RevertToSnapshot to the VM
 process

---
 ipc/arwenpart/blockchainGateway.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index 035dc96..b10bfee 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -504,5 +504,6 @@ func (blockchain *BlockchainHookGateway) RevertToSnapshot(snapshot int) error {
 		return common.ErrBadHookResponseFromNode
 	}
 
-	return err
+	response := rawResponse.(*common.MessageBlockchainRevertToSnapshotResponse)
+	return response.GetError()
 }
-- 
2.43.0


From 6456471ed5ab5b2648dd5b190fa5b9382e0db414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 35/63] fix: do not treat the messages of transmitted errors as
 formats

---
 ipc/common/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index b0bb1f9..415181e 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"errors"
 	"fmt"
 	"math"
 )
@@ -209,7 +210,7 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return fmt.Errorf(message.ErrorMessage)
+	return errors.New(message.ErrorMessage)
 }
 
 // SetError sets the error within the message
-- 
2.43.0


From 76690bec4c2837aece70da2449dfbd7da3c39e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 36/63] fix: transmit names and messages that are not valid
 UTF-8 unaltered

---
 ipc/arwenpart/blockchainGateway.go  |  2 +-
 ipc/arwenpart/part.go               |  2 +-
 ipc/common/messages.go              |  6 ++---
 ipc/common/messagesBlockchain.go    |  8 +++----
 ipc/common/messagesContracts.go     |  4 ++--
 ipc/common/serializableCallInput.go | 35 +++++++++++++++++++++++++++++
 ipc/common/serializableMaps.go      | 27 ++++++++++++++++++++++
 ipc/common/serializableVMOutput.go  |  6 ++---
 ipc/nodepart/blockchainRepliers.go  |  2 +-
 9 files changed, 77 insertions(+), 15 deletions(-)
 create mode 100644 ipc/common/serializableCallInput.go

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index b10bfee..0eb01c3 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -287,7 +287,7 @@ func (blockchain *BlockchainHookGateway) GetBuiltinFunctionNames() vmcommon.Func
 	}
 
 	response := rawResponse.(*common.MessageBlockchainGetBuiltinFunctionNamesResponse)
-	return response.Result
+	return response.Result.ConvertToFunctionNames()
 }
 
 // GetAllState forwards a message to the actual hook
diff --git a/ipc/arwenpart/part.go b/ipc/arwenpart/part.go
index b793515..c45b7b7 100644
--- a/ipc/arwenpart/part.go
+++ b/ipc/arwenpart/part.go
@@ -106,7 +106,7 @@ func (part *ArwenPart) replyToRunSmartContractCreate(request common.MessageHandl
 
 func (part *ArwenPart) replyToRunSmartContractCall(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageContractCallRequest)
-	vmOutput, err := part.VMHost.RunSmartContractCall(typedRequest.CallInput)
+	vmOutput, err := part.VMHost.RunSmartContractCall(typedRequest.CallInput.ConvertToContractCallInput())
 	return common.NewMessageContractResponse(vmOutput, err)
 }
 
diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 415181e..341d054 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -181,7 +181,7 @@ type MessageHandler interface {
 type Message struct {
 	DialogueNonce uint32
 	Kind          MessageKind
-	ErrorMessage  string
+	ErrorMessage  []byte
 }
 
 // GetNonce gets the dialogue nonce
@@ -210,13 +210,13 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return errors.New(message.ErrorMessage)
+	return errors.New(string(message.ErrorMessage))
 }
 
 // SetError sets the error within the message
 func (message *Message) SetError(err error) {
 	if err != nil {
-		message.ErrorMessage = err.Error()
+		message.ErrorMessage = []byte(err.Error())
 	}
 }
 
diff --git a/ipc/common/messagesBlockchain.go b/ipc/common/messagesBlockchain.go
index 707d359..19cdced 100644
--- a/ipc/common/messagesBlockchain.go
+++ b/ipc/common/messagesBlockchain.go
@@ -398,14 +398,14 @@ func NewMessageBlockchainCurrentEpochResponse(result uint32) *MessageBlockchainC
 // MessageBlockchainProcessBuiltInFunctionRequest represents a request message
 type MessageBlockchainProcessBuiltInFunctionRequest struct {
 	Message
-	Input *vmcommon.ContractCallInput
+	Input *SerializableContractCallInput
 }
 
 // NewMessageBlockchainProcessBuiltInFunctionRequest creates a request message
 func NewMessageBlockchainProcessBuiltInFunctionRequest(input *vmcommon.ContractCallInput) *MessageBlockchainProcessBuiltInFunctionRequest {
 	message := &MessageBlockchainProcessBuiltInFunctionRequest{}
 	message.Kind = BlockchainProcessBuiltInFunctionRequest
-	message.Input = input
+	message.Input = NewSerializableContractCallInput(input)
 	return message
 }
 
@@ -440,14 +440,14 @@ func NewMessageBlockchainGetBuiltinFunctionNamesRequest() *MessageBlockchainGetB
 // MessageBlockchainGetBuiltinFunctionNamesResponse represents a response message
 type MessageBlockchainGetBuiltinFunctionNamesResponse struct {
 	Message
-	Result vmcommon.FunctionNames
+	Result SerializableFunctionNames
 }
 
 // NewMessageBlockchainGetBuiltinFunctionNamesResponse creates a response message
 func NewMessageBlockchainGetBuiltinFunctionNamesResponse(result vmcommon.FunctionNames) *MessageBlockchainGetBuiltinFunctionNamesResponse {
 	message := &MessageBlockchainGetBuiltinFunctionNamesResponse{}
 	message.Kind = BlockchainGetBuiltinFunctionNamesResponse
-	message.Result = result
+	message.Result = NewSerializableFunctionNames(result)
 	return message
 }
 
diff --git a/ipc/common/messagesContracts.go b/ipc/common/messagesContracts.go
index 01d1565..35a2531 100644
--- a/ipc/common/messagesContracts.go
+++ b/ipc/common/messagesContracts.go
@@ -21,14 +21,14 @@ func NewMessageContractDeployRequest(input *vmcommon.ContractCreateInput) *Messa
 // MessageContractCallRequest is a call request message (from the Node)
 type MessageContractCallRequest struct {
 	Message
-	CallInput *vmcommon.ContractCallInput
+	CallInput *SerializableContractCallInput
 }
 
 // NewMessageContractCallRequest creates a MessageContractCallRequest
 func NewMessageContractCallRequest(input *vmcommon.ContractCallInput) *MessageContractCallRequest {
 	message := &MessageContractCallRequest{}
 	message.Kind = ContractCallRequest
-	message.CallInput = input
+	message.CallInput = NewSerializableContractCallInput(input)
 	return message
 }
 
diff --git a/ipc/common/serializableCallInput.go b/ipc/common/serializableCallInput.go
new file mode 100644
index 0000000..74b8478
--- /dev/null
+++ b/ipc/common/serializableCallInput.go
@@ -0,0 +1,35 @@
+package common
+
+import (
+	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
+)
+
+// SerializableContractCallInput is the serializable counterpart of vmcommon.ContractCallInput.
+// Its field Function shadows the one of the call input, which might not be valid UTF-8
+type SerializableContractCallInput struct {
+	*vmcommon.ContractCallInput
+	Function []byte
+}
+
+// NewSerializableContractCallInput creates a new serializable call input
+func NewSerializableContractCallInput(input *vmcommon.ContractCallInput) *SerializableContractCallInput {
+	if input == nil {
+		return nil
+	}
+
+	return &SerializableContractCallInput{
+		ContractCallInput: input,
+		Function:          []byte(input.Function),
+	}
+}
+
+// ConvertToContractCallInput converts the input to a vmcommon.ContractCallInput
+func (input *SerializableContractCallInput) ConvertToContractCallInput() *vmcommon.ContractCallInput {
+	if input == nil || input.ContractCallInput == nil {
+		return nil
+	}
+
+	callInput := *input.ContractCallInput
+	callInput.Function = string(input.Function)
+	return &callInput
+}
diff --git a/ipc/common/serializableMaps.go b/ipc/common/serializableMaps.go
index 7e1d432..8ff470c 100644
--- a/ipc/common/serializableMaps.go
+++ b/ipc/common/serializableMaps.go
@@ -1,5 +1,9 @@
 package common
 
+import (
+	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
+)
+
 type SerializableMapStringBytes struct {
 	Keys   [][]byte
 	Values [][]byte
@@ -30,3 +34,26 @@ func (s *SerializableMapStringBytes) ConvertToMap() map[string][]byte {
 
 	return m
 }
+
+// SerializableFunctionNames is the serializable counterpart of vmcommon.FunctionNames
+type SerializableFunctionNames [][]byte
+
+// NewSerializableFunctionNames creates a new serializable set of names
+func NewSerializableFunctionNames(names vmcommon.FunctionNames) SerializableFunctionNames {
+	s := make(SerializableFunctionNames, 0, len(names))
+	for name := range names {
+		s = append(s, []byte(name))
+	}
+
+	return s
+}
+
+// ConvertToFunctionNames converts the names to a vmcommon.FunctionNames
+func (s SerializableFunctionNames) ConvertToFunctionNames() vmcommon.FunctionNames {
+	names := make(vmcommon.FunctionNames, len(s))
+	for _, name := range s {
+		names[string(name)] = struct{}{}
+	}
+
+	return names
+}
diff --git a/ipc/common/serializableVMOutput.go b/ipc/common/serializableVMOutput.go
index c8a5ab1..b4f7675 100644
--- a/ipc/common/serializableVMOutput.go
+++ b/ipc/common/serializableVMOutput.go
@@ -9,7 +9,7 @@ import (
 type SerializableVMOutput struct {
 	ReturnData              [][]byte
 	ReturnCode              vmcommon.ReturnCode
-	ReturnMessage           string
+	ReturnMessage           []byte
 	GasRemaining            uint64
 	GasRefund               *big.Int
 	CorrectedOutputAccounts []*SerializableOutputAccount
@@ -26,7 +26,7 @@ func NewSerializableVMOutput(vmOutput *vmcommon.VMOutput) *SerializableVMOutput
 	o := &SerializableVMOutput{
 		ReturnData:              vmOutput.ReturnData,
 		ReturnCode:              vmOutput.ReturnCode,
-		ReturnMessage:           vmOutput.ReturnMessage,
+		ReturnMessage:           []byte(vmOutput.ReturnMessage),
 		GasRemaining:            vmOutput.GasRemaining,
 		GasRefund:               vmOutput.GasRefund,
 		CorrectedOutputAccounts: make([]*SerializableOutputAccount, 0, len(vmOutput.OutputAccounts)),
@@ -52,7 +52,7 @@ func (o *SerializableVMOutput) ConvertToVMOutput() *vmcommon.VMOutput {
 	return &vmcommon.VMOutput{
 		ReturnData:      o.ReturnData,
 		ReturnCode:      o.ReturnCode,
-		ReturnMessage:   o.ReturnMessage,
+		ReturnMessage:   string(o.ReturnMessage),
 		GasRemaining:    o.GasRemaining,
 		GasRefund:       o.GasRefund,
 		OutputAccounts:  accountsMap,
diff --git a/ipc/nodepart/blockchainRepliers.go b/ipc/nodepart/blockchainRepliers.go
index 8c85ef8..77c79c5 100644
--- a/ipc/nodepart/blockchainRepliers.go
+++ b/ipc/nodepart/blockchainRepliers.go
@@ -108,7 +108,7 @@ func (part *NodePart) replyToBlockchainCurrentEpoch(request common.MessageHandle
 
 func (part *NodePart) replyToBlockchainProcessBuiltInFunction(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageBlockchainProcessBuiltInFunctionRequest)
-	vmOutput, err := part.blockchain.ProcessBuiltInFunction(typedRequest.Input)
+	vmOutput, err := part.blockchain.ProcessBuiltInFunction(typedRequest.Input.ConvertToContractCallInput())
 
 	response := common.NewMessageBlockchainProcessBuiltInFunctionResponse(vmOutput, err)
 	return response
-- 
2.43.0


From bec5f229781ffddfa87e4f686ee5eddb912749be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 37/63] fix: let the VM process understand changes of the gas
 schedule

---
 ipc/common/messagesFactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipc/common/messagesFactory.go b/ipc/common/messagesFactory.go
index d9f24dc..565a38e 100644
--- a/ipc/common/messagesFactory.go
+++ b/ipc/common/messagesFactory.go
@@ -27,6 +27,8 @@ func init() {
 	messageCreators[ContractDeployRequest] = createMessageContractDeployRequest
 	messageCreators[ContractCallRequest] = createMessageContractCallRequest
 	messageCreators[ContractResponse] = createMessageContractResponse
+	messageCreators[GasScheduleChangeRequest] = createMessageGasScheduleChangeRequest
+	messageCreators[GasScheduleChangeResponse] = createMessageGasScheduleChangeResponse
 	messageCreators[DiagnoseWaitRequest] = createMessageDiagnoseWaitRequest
 	messageCreators[DiagnoseWaitResponse] = createMessageDiagnoseWaitResponse
 	messageCreators[VersionRequest] = createMessageVersionRequest
@@ -113,6 +115,14 @@ func createMessageContractResponse() MessageHandler {
 	return &MessageContractResponse{}
 }
 
+func createMessageGasScheduleChangeRequest() MessageHandler {
+	return &MessageGasScheduleChangeRequest{}
+}
+
+func createMessageGasScheduleChangeResponse() MessageHandler {
+	return NewGasScheduleChangeResponse()
+}
+
 func createMessageDiagnoseWaitRequest() MessageHandler {
 	return &MessageDiagnoseWaitRequest{}
 }
-- 
2.43.0


From bd6ba2054009db75ab337fa8b9c4e6766448db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 38/63] fix: end the VM process when the node cannot be
 consulted, instead of answering

---
 ipc/arwenpart/messenger.go | 23 +++++++++++++++++++++--
 ipc/arwenpart/part.go      |  6 ++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/ipc/arwenpart/messenger.go b/ipc/arwenpart/messenger.go
index c2c1a95..57e3345 100644
--- a/ipc/arwenpart/messenger.go
+++ b/ipc/arwenpart/messenger.go
@@ -8,6 +8,7 @@ import (
 // ArwenMessenger is the messenger on Arwen's part of the pipe
 type ArwenMessenger struct {
 	common.Messenger
+	hookCallError error
 }
 
 // NewArwenMessenger creates a new messenger
@@ -43,15 +44,33 @@ func (messenger *ArwenMessenger) SendContractResponse(response common.MessageHan
 func (messenger *ArwenMessenger) SendHookCallRequest(request common.MessageHandler) (common.MessageHandler, error) {
 	log.Trace("[ARWEN]: SendHookCallRequest", "request", request.DebugString())
 
+	if messenger.hookCallError != nil {
+		return nil, messenger.hookCallError
+	}
+
 	err := messenger.Send(request)
 	if err != nil {
-		return nil, common.ErrCannotSendHookCallRequest
+		messenger.hookCallError = common.ErrCannotSendHookCallRequest
+		return nil, messenger.hookCallError
 	}
 
 	response, err := messenger.Receive(0)
 	if err != nil {
-		return nil, common.ErrCannotReceiveHookCallResponse
+		messenger.hookCallError = common.ErrCannotReceiveHookCallResponse
+		return nil, messenger.hookCallError
+	}
+
+	// The kind of a response follows the kind of the request
+	if response.GetKind() != request.GetKind()+1 {
+		messenger.hookCallError = common.ErrBadHookResponseFromNode
+		return nil, messenger.hookCallError
 	}
 
 	return response, nil
 }
+
+// GetHookCallError gets the error of the first hook call that failed to reach the node, or to bring its response back.
+// The results computed after such a failure are not to be trusted
+func (messenger *ArwenMessenger) GetHookCallError() error {
+	return messenger.hookCallError
+}
diff --git a/ipc/arwenpart/part.go b/ipc/arwenpart/part.go
index c45b7b7..a821002 100644
--- a/ipc/arwenpart/part.go
+++ b/ipc/arwenpart/part.go
@@ -83,6 +83,12 @@ func (part *ArwenPart) doLoop() error {
 
 		response := part.replyToNodeRequest(request)
 
+		// The response is worthless if the node could not be consulted
+		err = part.Messenger.GetHookCallError()
+		if err != nil {
+			return err
+		}
+
 		// Successful execution, send response
 		err = part.Messenger.SendContractResponse(response)
 		if err != nil {
-- 
2.43.0


From 6b501430ece77672af0c730eb3c3e4e27b70b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 39/63] fix: do not restart the VM process with a gas schedule
 it refused, or that the caller has changed since

---
 ipc/nodepart/arwenDriver.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index fde3be6..5e94c7b 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"syscall"
 
+	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 	logger "github.com/ElrondNetwork/elrond-go-logger"
@@ -238,8 +239,15 @@ func (driver *ArwenDriver) GasScheduleChange(newGasSchedule map[string]map[strin
 	driver.operationsMutex.Lock()
 	defer driver.operationsMutex.Unlock()
 
-	driver.arwenArguments.GasSchedule = newGasSchedule
-	err := driver.RestartArwenIfNecessary()
+	// Arwen refuses bad schedules, thus it must not be restarted with one
+	_, err := config.CreateGasConfig(newGasSchedule)
+	if err != nil {
+		log.Error("GasScheduleChange", "error", err)
+		return
+	}
+
+	driver.arwenArguments.GasSchedule = copyGasSchedule(newGasSchedule)
+	err = driver.RestartArwenIfNecessary()
 	if err != nil {
 		log.Error("GasScheduleChange RestartArwenIfNecessary", "error", err)
 		return
@@ -254,12 +262,24 @@ func (driver *ArwenDriver) GasScheduleChange(newGasSchedule map[string]map[strin
 	}
 
 	if response.GetError() != nil {
-		log.Error("GasScheduleChange StartLoop response", "error", err)
+		log.Error("GasScheduleChange StartLoop response", "error", response.GetError())
 		_ = driver.Close()
 		return
 	}
 }
 
+func copyGasSchedule(gasSchedule map[string]map[string]uint64) config.GasScheduleMap {
+	result := make(config.GasScheduleMap, len(gasSchedule))
+	for section, costs := range gasSchedule {
+		result[section] = make(map[string]uint64, len(costs))
+		for name, cost := range costs {
+			result[section][name] = cost
+		}
+	}
+
+	return result
+}
+
 // RunSmartContractCreate sends a deploy request to Arwen and waits for the output
 func (driver *ArwenDriver) RunSmartContractCreate(input *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error) {
 	driver.operationsMutex.Lock()
-- 
2.43.0


From b3ed901dcaa4edeb492ff13284a59ad3a672d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 40/63] fix: keep track of whether the VM process runs when it
 could not be started or its pid is reused

---
 ipc/nodepart/arwenDriver.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 5e94c7b..0cc8f36 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -73,6 +73,16 @@ func NewArwenDriver(
 func (driver *ArwenDriver) startArwen() error {
 	log.Info("ArwenDriver.startArwen()")
 
+	err := driver.doStartArwen()
+	if err != nil {
+		_ = driver.Close()
+		return err
+	}
+
+	return nil
+}
+
+func (driver *ArwenDriver) doStartArwen() error {
 	logsProfileReader, logsWriter, err := driver.resetLogsPart()
 	if err != nil {
 		return err
@@ -198,16 +208,18 @@ func (driver *ArwenDriver) RestartArwenIfNecessary() error {
 
 // IsClosed checks whether the Arwen process is closed
 func (driver *ArwenDriver) IsClosed() bool {
-	pid := driver.command.Process.Pid
-	process, err := findProcess(pid)
-	if err != nil {
+	if !driver.isStarted() {
 		return true
 	}
 
-	err = process.Signal(syscall.Signal(0))
+	err := driver.command.Process.Signal(syscall.Signal(0))
 	return err != nil
 }
 
+func (driver *ArwenDriver) isStarted() bool {
+	return driver.command != nil && driver.command.Process != nil
+}
+
 // GetVersion gets the Arwen version
 func (driver *ArwenDriver) GetVersion() string {
 	driver.operationsMutex.Lock()
@@ -363,7 +375,9 @@ func (driver *ArwenDriver) DiagnoseWait(milliseconds uint32) error {
 
 // Close stops Arwen
 func (driver *ArwenDriver) Close() error {
-	driver.logsPart.StopLoop()
+	if driver.logsPart != nil {
+		driver.logsPart.StopLoop()
+	}
 
 	err := driver.stopArwen()
 	if err != nil {
@@ -375,6 +389,10 @@ func (driver *ArwenDriver) Close() error {
 }
 
 func (driver *ArwenDriver) stopArwen() error {
+	if !driver.isStarted() {
+		return nil
+	}
+
 	err := driver.command.Process.Kill()
 	if err != nil {
 		return err
-- 
2.43.0


From 2fe776e9f1bb0b939fccfcf3f007370ffe21eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 41/63] fix: leave the VM process alone with its ends of the
 pipes, so that its death is noticed

---
 ipc/nodepart/arwenDriver.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 0cc8f36..182a5ce 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -122,6 +122,11 @@ func (driver *ArwenDriver) doStartArwen() error {
 		return err
 	}
 
+	// From now on, Arwen's ends of the pipes belong to Arwen alone: once it dies, reading and writing do not block anymore
+	driver.closeArwenPipeEnds()
+	closeFile(logsProfileReader)
+	closeFile(logsWriter)
+
 	err = common.SendArwenArguments(driver.arwenInitWrite, driver.arwenArguments)
 	if err != nil {
 		return err
@@ -187,6 +192,16 @@ func (driver *ArwenDriver) resetPipeStreams() error {
 	return nil
 }
 
+func (driver *ArwenDriver) closeArwenPipeEnds() {
+	closeFile(driver.arwenInitRead)
+	closeFile(driver.arwenInputRead)
+	closeFile(driver.arwenOutputWrite)
+
+	driver.arwenInitRead = nil
+	driver.arwenInputRead = nil
+	driver.arwenOutputWrite = nil
+}
+
 func closeFile(file common.PipeFile) {
 	if file != nil {
 		err := file.Close()
-- 
2.43.0


From 093e77e0cec7d1868fd11c1e2005c41eb3c099fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 42/63] fix: do not wait forever for a VM process that reads
 nothing, or when no time is left

---
 ipc/common/messenger.go | 10 ++++++++++
 ipc/common/sender.go    | 12 ++++++++++++
 ipc/nodepart/part.go    | 43 ++++++++++++++++++++++++++++++++---------
 3 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/ipc/common/messenger.go b/ipc/common/messenger.go
index a112453..57226a5 100644
--- a/ipc/common/messenger.go
+++ b/ipc/common/messenger.go
@@ -44,6 +44,16 @@ func (messenger *Messenger) Send(message MessageHandler) error {
 	return err
 }
 
+// SetSendTimeout makes sending fail if the other party does not read for too long (milliseconds)
+func (messenger *Messenger) SetSendTimeout(timeout int) error {
+	return messenger.sender.SetTimeout(timeout)
+}
+
+// ResetSendTimeout removes the timeout
+func (messenger *Messenger) ResetSendTimeout() error {
+	return messenger.sender.ResetTimeout()
+}
+
 // Receive receives a message, reads it from the pipe
 func (messenger *Messenger) Receive(timeout int) (MessageHandler, error) {
 	log.Trace(fmt.Sprintf("[%s]: Receive message...", messenger.Name))
diff --git a/ipc/common/sender.go b/ipc/common/sender.go
index 99d7be0..e2c7586 100644
--- a/ipc/common/sender.go
+++ b/ipc/common/sender.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"encoding/binary"
+	"time"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 )
@@ -20,6 +21,17 @@ func NewSender(writer PipeFile, marshalizer marshaling.Marshalizer) *Sender {
 	}
 }
 
+// SetTimeout makes sending fail if the pipe stays full for too long (milliseconds)
+func (sender *Sender) SetTimeout(timeout int) error {
+	duration := time.Duration(timeout) * time.Millisecond
+	return sender.writer.SetWriteDeadline(Now().Add(duration))
+}
+
+// ResetTimeout removes the timeout
+func (sender *Sender) ResetTimeout() error {
+	return sender.writer.SetWriteDeadline(time.Time{})
+}
+
 // Send sends a message over the pipe
 func (sender *Sender) Send(message MessageHandler) (int, error) {
 	dataBytes, err := sender.marshalizer.Marshal(message)
diff --git a/ipc/nodepart/part.go b/ipc/nodepart/part.go
index 433d65e..a3d8028 100644
--- a/ipc/nodepart/part.go
+++ b/ipc/nodepart/part.go
@@ -76,12 +76,13 @@ func (part *NodePart) noopReplier(_ common.MessageHandler) common.MessageHandler
 func (part *NodePart) StartLoop(request common.MessageHandler) (common.MessageHandler, error) {
 	defer part.timeTrack(common.Now(), "[NODE] end of loop")
 
-	err := part.Messenger.SendContractRequest(request)
+	remainingMilliseconds := part.config.MaxLoopTime
+	duration, err := part.sendWithTimeout(part.Messenger.SendContractRequest, request, remainingMilliseconds)
 	if err != nil {
 		return nil, err
 	}
 
-	response, err := part.doLoop()
+	response, err := part.doLoop(remainingMilliseconds - duration)
 	if err != nil {
 		log.Warn("[NODE]: end of loop", "err", err)
 	}
@@ -93,10 +94,13 @@ func (part *NodePart) StartLoop(request common.MessageHandler) (common.MessageHa
 // doLoop ends when processing the transaction ends or in the case of a critical failure
 // Critical failure = Arwen timeouts or crashes
 // The error result is set only in case of critical failure
-func (part *NodePart) doLoop() (common.MessageHandler, error) {
-	remainingMilliseconds := part.config.MaxLoopTime
-
+func (part *NodePart) doLoop(remainingMilliseconds int) (common.MessageHandler, error) {
 	for {
+		// A timeout of zero stands for waiting forever
+		if remainingMilliseconds <= 0 {
+			return nil, common.ErrArwenTimeExpired
+		}
+
 		message, duration, err := part.Messenger.ReceiveHookCallRequestOrContractResponse(remainingMilliseconds)
 		if err != nil {
 			return nil, err
@@ -108,11 +112,12 @@ func (part *NodePart) doLoop() (common.MessageHandler, error) {
 		}
 
 		if common.IsHookCall(message) {
-			err := part.replyToHookCallRequest(message)
+			duration, err = part.replyToHookCallRequest(message, remainingMilliseconds)
 			if err != nil {
 				return nil, err
 			}
 
+			remainingMilliseconds -= duration
 			continue
 		}
 
@@ -133,13 +138,33 @@ func (part *NodePart) doLoop() (common.MessageHandler, error) {
 	}
 }
 
-func (part *NodePart) replyToHookCallRequest(request common.MessageHandler) error {
+func (part *NodePart) replyToHookCallRequest(request common.MessageHandler, timeout int) (int, error) {
 	defer part.timeTrack(common.Now(), fmt.Sprintf("replyToHookCallRequest %s", request.GetKindName()))
 
 	replier := part.Repliers[request.GetKind()]
 	hookResponse := replier(request)
-	err := part.Messenger.SendHookCallResponse(hookResponse)
-	return err
+	return part.sendWithTimeout(part.Messenger.SendHookCallResponse, hookResponse, timeout)
+}
+
+// sendWithTimeout sends a message, but gives up if Arwen does not read it in time. Returns the duration, as well (milliseconds)
+func (part *NodePart) sendWithTimeout(
+	send func(message common.MessageHandler) error,
+	message common.MessageHandler,
+	timeout int,
+) (int, error) {
+	start := common.Now()
+	err := part.Messenger.SetSendTimeout(timeout)
+	if err != nil {
+		return 0, err
+	}
+
+	err = send(message)
+	duration := common.Now().Sub(start).Milliseconds()
+	if err != nil {
+		return int(duration), err
+	}
+
+	return int(duration), part.Messenger.ResetSendTimeout()
 }
 
 // SendStopSignal sends a stop signal to Arwen
-- 
2.43.0


From 4b8e34f14c5f479bb4e42f101698c4f54b9038b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 43/63] fix: refuse messages whose type does not match their
 kind

The receiver created a message for the kind the envelope announces and filled it with what follows; if that announced another kind, the message was passed on as what it is not, and its handler failed on a type assertion.
---
 ipc/common/errors.go   | 3 +++
 ipc/common/receiver.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/ipc/common/errors.go b/ipc/common/errors.go
index 0f0c315..5b9a07b 100644
--- a/ipc/common/errors.go
+++ b/ipc/common/errors.go
@@ -44,6 +44,9 @@ var ErrArwenNotFound = &CriticalError{InnerErr: fmt.Errorf("arwen binary not fou
 // ErrInvalidMessageNonce signals a critical error
 var ErrInvalidMessageNonce = &CriticalError{InnerErr: fmt.Errorf("invalid dialogue nonce")}
 
+// ErrInvalidMessageKind signals a critical error
+var ErrInvalidMessageKind = &CriticalError{InnerErr: fmt.Errorf("invalid message kind")}
+
 // ErrStopPerNodeRequest signals a critical error
 var ErrStopPerNodeRequest = &CriticalError{InnerErr: fmt.Errorf("arwen will stop, as requested")}
 
diff --git a/ipc/common/receiver.go b/ipc/common/receiver.go
index a6ce453..a10e35d 100644
--- a/ipc/common/receiver.go
+++ b/ipc/common/receiver.go
@@ -76,11 +76,17 @@ func (receiver *Receiver) readMessage(kind MessageKind, length int) (MessageHand
 	}
 
 	message := CreateMessage(kind)
+	expectedKind := message.GetKind()
 	err = receiver.marshalizer.Unmarshal(message, buffer)
 	if err != nil {
 		return nil, err
 	}
 
+	// The kind within the message has to match its type
+	if message.GetKind() != expectedKind {
+		return nil, ErrInvalidMessageKind
+	}
+
 	return message, nil
 }
 
-- 
2.43.0


From c83d850430b03fcd24f3bd69c19e7df331d1307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 44/63] fix: refuse answers of the VM process that do not
 answer the question

The driver asserted the type of the final message without a check, and dereferenced the output it may lack: a VM process that answered with another kind of message crashed the node.
---
 ipc/nodepart/arwenDriver.go | 47 +++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 182a5ce..bd0ec38 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -256,7 +256,12 @@ func (driver *ArwenDriver) GetVersion() string {
 		return ""
 	}
 
-	typedResponse := response.(*common.MessageVersionResponse)
+	typedResponse, ok := response.(*common.MessageVersionResponse)
+	if !ok {
+		log.Warn("GetVersion", "err", common.WrapCriticalError(common.ErrBadMessageFromArwen))
+		_ = driver.Close()
+		return ""
+	}
 
 	return typedResponse.Version
 }
@@ -288,8 +293,12 @@ func (driver *ArwenDriver) GasScheduleChange(newGasSchedule map[string]map[strin
 		return
 	}
 
-	if response.GetError() != nil {
-		log.Error("GasScheduleChange StartLoop response", "error", response.GetError())
+	err = response.GetError()
+	if err == nil && !common.IsGasScheduleChangeResponse(response) {
+		err = common.ErrBadMessageFromArwen
+	}
+	if err != nil {
+		log.Error("GasScheduleChange StartLoop response", "error", err)
 		_ = driver.Close()
 		return
 	}
@@ -328,13 +337,7 @@ func (driver *ArwenDriver) RunSmartContractCreate(input *vmcommon.ContractCreate
 		return nil, common.WrapCriticalError(err)
 	}
 
-	typedResponse := response.(*common.MessageContractResponse)
-	vmOutput, err := typedResponse.SerializableVMOutput.ConvertToVMOutput(), response.GetError()
-	if err != nil {
-		return nil, err
-	}
-
-	return vmOutput, nil
+	return driver.extractVMOutput(response)
 }
 
 // RunSmartContractCall sends an execution request to Arwen and waits for the output
@@ -358,13 +361,21 @@ func (driver *ArwenDriver) RunSmartContractCall(input *vmcommon.ContractCallInpu
 		return nil, common.WrapCriticalError(err)
 	}
 
-	typedResponse := response.(*common.MessageContractResponse)
-	vmOutput, err := typedResponse.SerializableVMOutput.ConvertToVMOutput(), response.GetError()
-	if err != nil {
-		return nil, err
+	return driver.extractVMOutput(response)
+}
+
+func (driver *ArwenDriver) extractVMOutput(response common.MessageHandler) (*vmcommon.VMOutput, error) {
+	typedResponse, ok := response.(*common.MessageContractResponse)
+	if ok && typedResponse.GetError() != nil {
+		return nil, typedResponse.GetError()
+	}
+	if !ok || typedResponse.SerializableVMOutput == nil {
+		log.Warn("extractVMOutput", "err", common.ErrBadMessageFromArwen)
+		_ = driver.Close()
+		return nil, common.WrapCriticalError(common.ErrBadMessageFromArwen)
 	}
 
-	return vmOutput, nil
+	return typedResponse.SerializableVMOutput.ConvertToVMOutput(), nil
 }
 
 // DiagnoseWait sends a diagnose message to Arwen
@@ -385,6 +396,12 @@ func (driver *ArwenDriver) DiagnoseWait(milliseconds uint32) error {
 		return common.WrapCriticalError(err)
 	}
 
+	if response.GetKind() != common.DiagnoseWaitResponse {
+		log.Error("DiagnoseWait", "err", common.ErrBadMessageFromArwen)
+		_ = driver.Close()
+		return common.WrapCriticalError(common.ErrBadMessageFromArwen)
+	}
+
 	return response.GetError()
 }
 
-- 
2.43.0


From bfc25eea943a936a51b015968de34ad3915cbfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 45/63] fix: store the addresses, keys and call data of
 debugged worlds unaltered

They were JSON strings, in which bytes that are not valid UTF-8 are replaced: after any step such accounts could not be found, storage under such keys was lost, and several of them could become one.
---
 arwendebug/world.go          | 12 -----
 arwendebug/worldDataModel.go | 94 ++++++++++++++++++++++++++++++++++++
 2 files changed, 94 insertions(+), 12 deletions(-)
 create mode 100644 arwendebug/worldDataModel.go

diff --git a/arwendebug/world.go b/arwendebug/world.go
index bdb314d..0ffc617 100644
--- a/arwendebug/world.go
+++ b/arwendebug/world.go
@@ -11,24 +11,12 @@ import (
 	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
 )
 
-type worldDataModel struct {
-	ID       string
-	Accounts worldmock.AccountMap
-}
-
 type world struct {
 	id             string
 	blockchainHook *worldmock.MockWorld
 	vm             vmcommon.VMExecutionHandler
 }
 
-func newWorldDataModel(worldID string) *worldDataModel {
-	return &worldDataModel{
-		ID:       worldID,
-		Accounts: worldmock.NewAccountMap(),
-	}
-}
-
 // newWorld creates a new debugging world
 func newWorld(dataModel *worldDataModel) (*world, error) {
 	blockchainHook := worldmock.NewMockWorld()
diff --git a/arwendebug/worldDataModel.go b/arwendebug/worldDataModel.go
new file mode 100644
index 0000000..3bd1114
--- /dev/null
+++ b/arwendebug/worldDataModel.go
@@ -0,0 +1,94 @@
+package arwendebug
+
+import (
+	"encoding/json"
+
+	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
+)
+
+type worldDataModel struct {
+	ID       string
+	Accounts worldmock.AccountMap
+}
+
+// serializableWorld is what is stored in the file of a world. Addresses, storage keys and call data are bytes,
+// which would not survive as JSON strings.
+type serializableWorld struct {
+	ID       string
+	Accounts map[string]*serializableAccount
+}
+
+type serializableAccount struct {
+	*worldmock.Account
+	Storage       map[string][]byte
+	AsyncCallData []byte
+}
+
+func newWorldDataModel(worldID string) *worldDataModel {
+	return &worldDataModel{
+		ID:       worldID,
+		Accounts: worldmock.NewAccountMap(),
+	}
+}
+
+// MarshalJSON encodes the world
+func (dataModel *worldDataModel) MarshalJSON() ([]byte, error) {
+	serializable := &serializableWorld{
+		ID:       dataModel.ID,
+		Accounts: make(map[string]*serializableAccount, len(dataModel.Accounts)),
+	}
+
+	for address, account := range dataModel.Accounts {
+		storage := make(map[string][]byte, len(account.Storage))
+		for key, value := range account.Storage {
+			storage[toHex([]byte(key))] = value
+		}
+
+		serializable.Accounts[toHex([]byte(address))] = &serializableAccount{
+			Account:       account,
+			Storage:       storage,
+			AsyncCallData: []byte(account.AsyncCallData),
+		}
+	}
+
+	return json.Marshal(serializable)
+}
+
+// UnmarshalJSON decodes the world
+func (dataModel *worldDataModel) UnmarshalJSON(data []byte) error {
+	serializable := &serializableWorld{}
+	err := json.Unmarshal(data, serializable)
+	if err != nil {
+		return err
+	}
+
+	dataModel.ID = serializable.ID
+	dataModel.Accounts = worldmock.NewAccountMap()
+
+	for addressHex, item := range serializable.Accounts {
+		if item == nil || item.Account == nil {
+			return ErrAccountDoesntExist
+		}
+
+		address, err := fromHex(addressHex)
+		if err != nil {
+			return err
+		}
+
+		account := item.Account
+		account.AsyncCallData = string(item.AsyncCallData)
+		account.Storage = make(map[string][]byte, len(item.Storage))
+		for keyHex, value := range item.Storage {
+			key, err := fromHex(keyHex)
+			if err != nil {
+				return err
+			}
+
+			account.Storage[string(key)] = value
+		}
+
+		dataModel.Accounts[string(address)] = account
+	}
+
+	return nil
+}
-- 
2.43.0


From e76dcf69186d27035736528e5c2eba1c498d10e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 46/63] fix: store the metadata and the owner of contracts
 deployed by the debugger

Whatever metadata a contract was deployed with, the stored world had it payable, upgradeable and readable; if its address existed before, it had no owner.
---
 arwendebug/world.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/arwendebug/world.go b/arwendebug/world.go
index 0ffc617..727a604 100644
--- a/arwendebug/world.go
+++ b/arwendebug/world.go
@@ -53,7 +53,7 @@ func (w *world) deploySmartContract(request DeployRequest) *DeployResponse {
 
 	vmOutput, err := w.vm.RunSmartContractCreate(input)
 	if err == nil {
-		_ = w.blockchainHook.UpdateAccounts(vmOutput.OutputAccounts, nil)
+		w.updateAccounts(vmOutput)
 	}
 
 	response := &DeployResponse{}
@@ -70,7 +70,7 @@ func (w *world) upgradeSmartContract(request UpgradeRequest) *UpgradeResponse {
 
 	vmOutput, err := w.vm.RunSmartContractCall(input)
 	if err == nil {
-		_ = w.blockchainHook.UpdateAccounts(vmOutput.OutputAccounts, nil)
+		w.updateAccounts(vmOutput)
 	}
 
 	response := &UpgradeResponse{}
@@ -86,7 +86,7 @@ func (w *world) runSmartContract(request RunRequest) *RunResponse {
 
 	vmOutput, err := w.vm.RunSmartContractCall(input)
 	if err == nil {
-		_ = w.blockchainHook.UpdateAccounts(vmOutput.OutputAccounts, nil)
+		w.updateAccounts(vmOutput)
 	}
 
 	response := &RunResponse{}
@@ -123,6 +123,21 @@ func (w *world) createAccount(request CreateAccountRequest) *CreateAccountRespon
 	return &CreateAccountResponse{Account: &account}
 }
 
+func (w *world) updateAccounts(vmOutput *vmcommon.VMOutput) {
+	_ = w.blockchainHook.UpdateAccounts(vmOutput.OutputAccounts, nil)
+
+	// the mocked world makes all contracts payable, upgradeable and readable, and only new accounts get an owner
+	for _, outputAccount := range vmOutput.OutputAccounts {
+		if len(outputAccount.Code) > 0 {
+			account := w.blockchainHook.AcctMap.GetAccount(outputAccount.Address)
+			account.SetCodeMetadata(outputAccount.CodeMetadata)
+			if len(account.OwnerAddress) == 0 {
+				account.OwnerAddress = outputAccount.CodeDeployerAddress
+			}
+		}
+	}
+}
+
 func (w *world) toDataModel() *worldDataModel {
 	accounts := w.blockchainHook.AcctMap.Clone()
 	for _, account := range accounts {
-- 
2.43.0


From 8eb61c86bbf0fa285b06403d9cca4abb5f110f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 47/63] Seams of the debugger's disk and sessions, replaced
 under build tag verif

---
 arwendebug/database.go    | 11 +++--
 arwendebug/seams.go       | 26 ++++++++++++
 arwendebug/seams_verif.go | 84 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 115 insertions(+), 6 deletions(-)
 create mode 100644 arwendebug/seams.go
 create mode 100644 arwendebug/seams_verif.go

diff --git a/arwendebug/database.go b/arwendebug/database.go
index 64d5320..4d6ee62 100644
--- a/arwendebug/database.go
+++ b/arwendebug/database.go
@@ -3,7 +3,6 @@ package arwendebug
 import (
 	"encoding/json"
 	"fmt"
-	"io/ioutil"
 	"os"
 	"path"
 )
@@ -20,12 +19,12 @@ func newDatabase(rootPath string) *database {
 }
 
 func (db *database) initFolders() {
-	err := os.MkdirAll(path.Join(db.rootPath, "worlds"), os.ModePerm)
+	err := makeFolders(path.Join(db.rootPath, "worlds"), os.ModePerm)
 	if err != nil {
 		log.Error("database.initFolders", "err", err)
 	}
 
-	err = os.MkdirAll(path.Join(db.rootPath, "out"), os.ModePerm)
+	err = makeFolders(path.Join(db.rootPath, "out"), os.ModePerm)
 	if err != nil {
 		log.Error("database.initFolders", "err", err)
 	}
@@ -56,7 +55,7 @@ func (db *database) getWorldFile(worldID string) string {
 }
 
 func fileExists(filePath string) bool {
-	_, err := os.Stat(filePath)
+	_, err := getFileInfo(filePath)
 	return err == nil
 }
 
@@ -94,7 +93,7 @@ func (db *database) getOutcomeFile(uniqueID string) string {
 }
 
 func (db *database) unmarshalDataModel(filePath string, dataModel interface{}) error {
-	data, err := ioutil.ReadFile(filePath)
+	data, err := readFile(filePath)
 	if err != nil {
 		return err
 	}
@@ -108,5 +107,5 @@ func (db *database) marshalDataModel(filePath string, dataModel interface{}) err
 		return err
 	}
 
-	return ioutil.WriteFile(filePath, data, 0644)
+	return writeFile(filePath, data, 0644)
 }
diff --git a/arwendebug/seams.go b/arwendebug/seams.go
new file mode 100644
index 0000000..018f7fa
--- /dev/null
+++ b/arwendebug/seams.go
@@ -0,0 +1,26 @@
+//go:build !verif
+// +build !verif
+
+package arwendebug
+
+import (
+	"io/ioutil"
+	"os"
+	"sync"
+)
+
+// databaseFile is a file that is being written
+type databaseFile = *os.File
+
+// sessionLock is a mutual exclusion lock
+type sessionLock = sync.Mutex
+
+var (
+	makeFolders = os.MkdirAll
+	getFileInfo = os.Stat
+	readFile    = ioutil.ReadFile
+	writeFile   = ioutil.WriteFile
+	newTempFile = ioutil.TempFile
+	renameFile  = os.Rename
+	removeFile  = os.Remove
+)
diff --git a/arwendebug/seams_verif.go b/arwendebug/seams_verif.go
new file mode 100644
index 0000000..31baded
--- /dev/null
+++ b/arwendebug/seams_verif.go
@@ -0,0 +1,84 @@
+//go:build verif
+// +build verif
+
+package arwendebug
+
+import (
+	"os"
+	"sync"
+
+	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
+)
+
+type databaseFile = DatabaseFile
+
+// DatabaseFile is a file of the simulated disk that is being written
+type DatabaseFile interface {
+	Name() string
+	Chmod(mode os.FileMode) error
+	Write(data []byte) (int, error)
+	Sync() error
+	Close() error
+}
+
+// DatabaseDisk is the simulated disk
+type DatabaseDisk interface {
+	MkdirAll(path string, perm os.FileMode) error
+	Stat(path string) (os.FileInfo, error)
+	ReadFile(path string) ([]byte, error)
+	WriteFile(path string, data []byte, perm os.FileMode) error
+	TempFile(dir string, pattern string) (DatabaseFile, error)
+	Rename(oldPath string, newPath string) error
+	Remove(path string) error
+}
+
+// Disk and NewSessionLock are set by the simulator
+var (
+	Disk           DatabaseDisk
+	NewSessionLock func() sync.Locker
+)
+
+type sessionLock struct {
+	create sync.Once
+	lock   sync.Locker
+}
+
+// Lock locks the session
+func (lock *sessionLock) Lock() {
+	lock.create.Do(func() { lock.lock = NewSessionLock() })
+	lock.lock.Lock()
+}
+
+// Unlock unlocks the session
+func (lock *sessionLock) Unlock() {
+	lock.lock.Unlock()
+}
+
+func makeFolders(path string, perm os.FileMode) error { return Disk.MkdirAll(path, perm) }
+
+func getFileInfo(path string) (os.FileInfo, error) { return Disk.Stat(path) }
+
+func readFile(path string) ([]byte, error) { return Disk.ReadFile(path) }
+
+func writeFile(path string, data []byte, perm os.FileMode) error {
+	return Disk.WriteFile(path, data, perm)
+}
+
+func newTempFile(dir string, pattern string) (databaseFile, error) {
+	return Disk.TempFile(dir, pattern)
+}
+
+func renameFile(oldPath string, newPath string) error { return Disk.Rename(oldPath, newPath) }
+
+func removeFile(path string) error { return Disk.Remove(path) }
+
+// LoadAccounts loads the accounts of a stored world
+func LoadAccounts(rootPath string, worldID string) (worldmock.AccountMap, error) {
+	database := &database{rootPath: rootPath}
+	world, err := database.loadWorld(worldID)
+	if err != nil {
+		return nil, err
+	}
+
+	return world.blockchainHook.AcctMap, nil
+}
-- 
2.43.0


From 3f2b3ea7494790e48e2975b2da9ecc6d6e22c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 48/63] fix: replace the file of a debugged world atomically

---
 arwendebug/database.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/arwendebug/database.go b/arwendebug/database.go
index 4d6ee62..89dc476 100644
--- a/arwendebug/database.go
+++ b/arwendebug/database.go
@@ -107,5 +107,40 @@ func (db *database) marshalDataModel(filePath string, dataModel interface{}) err
 		return err
 	}
 
-	return writeFile(filePath, data, 0644)
+	return replaceFile(filePath, data)
+}
+
+// replaceFile replaces the contents of a file. If it fails or is interrupted, the file remains as it was.
+func replaceFile(filePath string, data []byte) error {
+	file, err := newTempFile(path.Dir(filePath), path.Base(filePath)+".*.tmp")
+	if err != nil {
+		return err
+	}
+
+	err = writeAndClose(file, data)
+	if err == nil {
+		err = renameFile(file.Name(), filePath)
+	}
+	if err != nil {
+		_ = removeFile(file.Name())
+	}
+
+	return err
+}
+
+func writeAndClose(file databaseFile, data []byte) error {
+	err := file.Chmod(0644)
+	if err == nil {
+		_, err = file.Write(data)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+
+	errClose := file.Close()
+	if err == nil {
+		err = errClose
+	}
+
+	return err
 }
-- 
2.43.0


From 11fd1434fd0271351875ff805610da3341b8acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 49/63] fix: do not replace a debugged world that cannot be
 inspected by an empty one

---
 arwendebug/database.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/arwendebug/database.go b/arwendebug/database.go
index 89dc476..10cd306 100644
--- a/arwendebug/database.go
+++ b/arwendebug/database.go
@@ -31,11 +31,15 @@ func (db *database) initFolders() {
 }
 
 func (db *database) loadWorld(worldID string) (*world, error) {
-	var err error
 	dataModel := newWorldDataModel(worldID)
 	filePath := db.getWorldFile(worldID)
 
-	if fileExists(filePath) {
+	exists, err := fileExists(filePath)
+	if err != nil {
+		return nil, err
+	}
+
+	if exists {
 		dataModel, err = db.readWorldDataModel(filePath)
 		if err != nil {
 			return nil, err
@@ -54,9 +58,13 @@ func (db *database) getWorldFile(worldID string) string {
 	return path.Join(db.rootPath, "worlds", fmt.Sprintf("%s.json", worldID))
 }
 
-func fileExists(filePath string) bool {
+func fileExists(filePath string) (bool, error) {
 	_, err := getFileInfo(filePath)
-	return err == nil
+	if os.IsNotExist(err) {
+		return false, nil
+	}
+
+	return err == nil, err
 }
 
 func (db *database) readWorldDataModel(filePath string) (*worldDataModel, error) {
-- 
2.43.0


From a1ed7580ebe0d161f3a2707f4ca38d1baa8691b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 50/63] fix: handle concurrent requests to the debugger one
 after another

---
 arwendebug/facade.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/arwendebug/facade.go b/arwendebug/facade.go
index 2892796..3faa536 100644
--- a/arwendebug/facade.go
+++ b/arwendebug/facade.go
@@ -9,8 +9,10 @@ import (
 
 var log = logger.GetOrCreate("arwendebug")
 
-// DebugFacade is the debug facade
+// DebugFacade is the debug facade. The server handles requests concurrently, but each of them has to load the world
+// that the previous one has stored.
 type DebugFacade struct {
+	session sessionLock
 }
 
 // NewDebugFacade creates a new debug facade
@@ -22,6 +24,9 @@ func NewDebugFacade() *DebugFacade {
 func (f *DebugFacade) DeploySmartContract(request DeployRequest) (*DeployResponse, error) {
 	log.Debug("Debugf.DeploySmartContract()")
 
+	f.session.Lock()
+	defer f.session.Unlock()
+
 	err := request.digest()
 	if err != nil {
 		return nil, err
@@ -58,6 +63,9 @@ func (f *DebugFacade) loadDatabase(rootPath string) *database {
 func (f *DebugFacade) UpgradeSmartContract(request UpgradeRequest) (*UpgradeResponse, error) {
 	log.Debug("Debugf.UpgradeSmartContract()")
 
+	f.session.Lock()
+	defer f.session.Unlock()
+
 	err := request.digest()
 	if err != nil {
 		return nil, err
@@ -89,6 +97,9 @@ func (f *DebugFacade) UpgradeSmartContract(request UpgradeRequest) (*UpgradeResp
 func (f *DebugFacade) RunSmartContract(request RunRequest) (*RunResponse, error) {
 	log.Debug("Debugf.RunSmartContract()")
 
+	f.session.Lock()
+	defer f.session.Unlock()
+
 	err := request.digest()
 	if err != nil {
 		return nil, err
@@ -120,6 +131,9 @@ func (f *DebugFacade) RunSmartContract(request RunRequest) (*RunResponse, error)
 func (f *DebugFacade) QuerySmartContract(request QueryRequest) (*QueryResponse, error) {
 	log.Debug("Debugf.QuerySmartContracts()")
 
+	f.session.Lock()
+	defer f.session.Unlock()
+
 	err := request.digest()
 	if err != nil {
 		return nil, err
@@ -146,6 +160,9 @@ func (f *DebugFacade) QuerySmartContract(request QueryRequest) (*QueryResponse,
 func (f *DebugFacade) CreateAccount(request CreateAccountRequest) (*CreateAccountResponse, error) {
 	log.Debug("Debugf.CreateAccount()")
 
+	f.session.Lock()
+	defer f.session.Unlock()
+
 	err := request.digest()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1fb5f3e81277b1ca6fd4394e602bf53218151901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 51/63] fix: report an unexpected token instance of a scenario
 instead of panicking

---
 arwenmandos/stepCheckAccounts.go       |  6 ++----
 mandos-go/json/parse/parseESDTCheck.go | 10 ++++------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index b637ecd..3ab7ffc 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -270,10 +270,8 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 		accountInstance := accountInstances[nonce]
 
 		if expectedInstance == nil {
-			expectedInstance = &mj.CheckESDTInstance{
-				Nonce:   mj.JSONCheckUint64{Value: nonce, Original: ""},
-				Balance: mj.JSONCheckBigInt{Value: big.NewInt(0), Original: ""},
-			}
+			expectedInstance = mj.NewCheckESDTInstance()
+			expectedInstance.Nonce = mj.JSONCheckUint64{Value: nonce, Original: ""}
 		} else if accountInstance == nil {
 			accountInstance = &esdt.ESDigitalToken{
 				Value: big.NewInt(0),
diff --git a/mandos-go/json/parse/parseESDTCheck.go b/mandos-go/json/parse/parseESDTCheck.go
index d920e96..5ea69ac 100644
--- a/mandos-go/json/parse/parseESDTCheck.go
+++ b/mandos-go/json/parse/parseESDTCheck.go
@@ -22,12 +22,10 @@ func (p *Parser) processCheckESDTData(
 		if err != nil {
 			return nil, fmt.Errorf("invalid ESDT balance: %w", err)
 		}
-		esdtData.Instances = []*mj.CheckESDTInstance{
-			{
-				Nonce:   mj.JSONCheckUint64{Value: 0, Original: ""},
-				Balance: balance,
-			},
-		}
+		instance := mj.NewCheckESDTInstance()
+		instance.Nonce = mj.JSONCheckUint64{Value: 0, Original: ""}
+		instance.Balance = balance
+		esdtData.Instances = []*mj.CheckESDTInstance{instance}
 		return &esdtData, nil
 	case *oj.OJsonMap:
 		return p.processCheckESDTDataMap(tokenName, data)
-- 
2.43.0


From d320c0044335296e765dd8b6b5492710f995e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 52/63] fix: accept unstated tokens of an account where a
 scenario allows more of them

---
 arwenmandos/stepCheckAccounts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 3ab7ffc..a611260 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -180,6 +180,9 @@ func (ae *ArwenTestExecutor) checkAccountESDT(expectedAcct *mj.CheckAccount, mat
 	for tokenName := range allTokenNames {
 		expectedToken := expectedTokens[tokenName]
 		accountToken := accountTokens[tokenName]
+		if expectedToken == nil && expectedAcct.MoreESDTTokensAllowed {
+			continue
+		}
 		if expectedToken == nil {
 			expectedToken = &mj.CheckESDTData{
 				TokenIdentifier: mj.JSONBytesFromString{
-- 
2.43.0


From 997d7ffb2dddad82e460f6fdc248a3a0126d1486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 53/63] fix: check the account owner that a scenario states

---
 arwenmandos/stepCheckAccounts.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index a611260..4d7ad83 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -82,6 +82,17 @@ func (ae *ArwenTestExecutor) checkAccounts(checkAccounts *mj.CheckAccounts) erro
 					er.CodeHint))
 		}
 
+		// an owner that is unspecified in the json is not checked
+		if !expectedAcct.Owner.IsUnspecified() &&
+			!expectedAcct.Owner.Check(matchingAcct.OwnerAddress) {
+			return fmt.Errorf("bad account owner. Account: %s. Want: %s. Have: \"%s\"",
+				expectedAcct.Address.Original,
+				oj.JSONString(expectedAcct.Owner.Original),
+				ae.exprReconstructor.Reconstruct(
+					matchingAcct.OwnerAddress,
+					er.AddressHint))
+		}
+
 		// currently ignoring asyncCallData that is unspecified in the json
 		if !expectedAcct.AsyncCallData.IsUnspecified() &&
 			!expectedAcct.AsyncCallData.Check([]byte(matchingAcct.AsyncCallData)) {
-- 
2.43.0


From f962f8477a12f0f95c4a49cf76ac47acb8b81bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 54/63] fix: check the frozen flag of a token that a scenario
 states

---
 arwenmandos/stepCheckAccounts.go       | 29 ++++++++++++++++++++++++++
 mandos-go/json/parse/parseESDTCheck.go |  2 ++
 2 files changed, 31 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 4d7ad83..fed96b3 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -11,6 +11,7 @@ import (
 	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
 	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
 	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
+	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
 	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
 )
 
@@ -203,6 +204,7 @@ func (ae *ArwenTestExecutor) checkAccountESDT(expectedAcct *mj.CheckAccount, mat
 				Instances: []*mj.CheckESDTInstance{},
 				LastNonce: mj.JSONCheckUint64{Value: 0, Original: ""},
 				Roles:     []string{},
+				Frozen:    mj.JSONCheckUint64Unspecified(),
 			}
 		} else if accountToken == nil {
 			accountToken = &worldmock.MockESDTData{
@@ -253,6 +255,33 @@ func (ae *ArwenTestExecutor) checkTokenState(
 	}
 
 	errors = append(errors, checkTokenRoles(accountAddress, tokenName, expectedToken, accountToken)...)
+	errors = append(errors, checkTokenFrozen(accountAddress, tokenName, expectedToken, accountToken)...)
+
+	return errors
+}
+
+func checkTokenFrozen(
+	accountAddress string,
+	tokenName string,
+	expectedToken *mj.CheckESDTData,
+	accountToken *worldmock.MockESDTData) []error {
+
+	if expectedToken.Frozen.IsUnspecified() {
+		return nil
+	}
+
+	var errors []error
+
+	for _, instance := range accountToken.Instances {
+		isFrozen := builtInFunctions.ESDTUserMetadataFromBytes(instance.Properties).Frozen
+		if !expectedToken.Frozen.CheckBool(isFrozen) {
+			errors = append(errors, fmt.Errorf("bad ESDT frozen flag. Account: %s. Token: %s. Want: \"%s\". Have: %t",
+				accountAddress,
+				tokenName,
+				expectedToken.Frozen.Original,
+				isFrozen))
+		}
+	}
 
 	return errors
 }
diff --git a/mandos-go/json/parse/parseESDTCheck.go b/mandos-go/json/parse/parseESDTCheck.go
index 5ea69ac..c4e5e2d 100644
--- a/mandos-go/json/parse/parseESDTCheck.go
+++ b/mandos-go/json/parse/parseESDTCheck.go
@@ -17,6 +17,7 @@ func (p *Parser) processCheckESDTData(
 		// simple string representing balance "400,000,000,000"
 		esdtData := mj.CheckESDTData{
 			TokenIdentifier: tokenName,
+			Frozen:          mj.JSONCheckUint64Unspecified(),
 		}
 		balance, err := p.processCheckBigInt(esdtDataRaw, bigIntUnsignedBytes)
 		if err != nil {
@@ -42,6 +43,7 @@ func (p *Parser) processCheckESDTData(
 func (p *Parser) processCheckESDTDataMap(tokenName mj.JSONBytesFromString, esdtDataMap *oj.OJsonMap) (*mj.CheckESDTData, error) {
 	esdtData := mj.CheckESDTData{
 		TokenIdentifier: tokenName,
+		Frozen:          mj.JSONCheckUint64Unspecified(),
 	}
 	// var err error
 	firstInstance := &mj.CheckESDTInstance{
-- 
2.43.0


From f54a18cd4d8608c433cd35b12f3b250fb1d68a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 55/63] fix: keep the last nonce that a scenario sets for a
 token without instances

---
 arwenmandos/util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arwenmandos/util.go b/arwenmandos/util.go
index f024805..fb97585 100644
--- a/arwenmandos/util.go
+++ b/arwenmandos/util.go
@@ -70,12 +70,12 @@ func convertAccount(testAcct *mj.Account, world *worldmock.MockWorld) (*worldmoc
 			if err != nil {
 				return nil, err
 			}
-			err = account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
-			if err != nil {
-				return nil, err
-			}
 		}
-		err := account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
+		err := account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
+		if err != nil {
+			return nil, err
+		}
+		err = account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From a7b0c0566c7261ffa5efce60c72284f626fb4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 56/63] fix: external steps of a scenario do not change whether
 it checks gas

---
 arwenmandos/execScenario.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwenmandos/execScenario.go b/arwenmandos/execScenario.go
index ef118d9..62eab1f 100644
--- a/arwenmandos/execScenario.go
+++ b/arwenmandos/execScenario.go
@@ -63,6 +63,7 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 	}
 
 	fileResolverBackup := ae.fileResolver
+	checkGasBackup := ae.checkGas
 	clonedFileResolver := ae.fileResolver.Clone()
 	externalStepsRunner := mc.NewScenarioRunner(ae, clonedFileResolver)
 
@@ -73,6 +74,7 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 	}
 
 	ae.fileResolver = fileResolverBackup
+	ae.checkGas = checkGasBackup
 
 	return nil
 }
-- 
2.43.0


From 9bdd50f3d57d61ae4b326f95aea88ab2166b704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 57/63] fix: each scenario of a directory runs with its own gas
 schedule

---
 arwenmandos/execScenario.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arwenmandos/execScenario.go b/arwenmandos/execScenario.go
index 62eab1f..1ef7941 100644
--- a/arwenmandos/execScenario.go
+++ b/arwenmandos/execScenario.go
@@ -11,6 +11,7 @@ import (
 // Is called in RunAllJSONScenariosInDirectory, but not in RunSingleJSONScenario.
 func (ae *ArwenTestExecutor) Reset() {
 	ae.World.Clear()
+	ae.mandosGasScheduleLoaded = false
 }
 
 // ExecuteScenario executes an individual test.
-- 
2.43.0


From 90a716c657e332bd863f5747b8c085a35c4a9955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 58/63] fix: revert the mock world to what it was when the
 snapshot was taken

---
 mock/world/worldAccountMap.go | 4 +++-
 mock/world/worldDef.go        | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/mock/world/worldAccountMap.go b/mock/world/worldAccountMap.go
index ce386d3..d0b970a 100644
--- a/mock/world/worldAccountMap.go
+++ b/mock/world/worldAccountMap.go
@@ -83,7 +83,7 @@ func (am AccountMap) Clone() AccountMap {
 	return clone
 }
 
-// LoadAccountStorageFrom reassigns the storage of the accounts to the storage
+// LoadAccountStorageFrom reassigns the storage, owner and username of the accounts to those
 // of the accounts found in otherAM; it only does a reference change, not a deep copy.
 func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 	for address, account := range am {
@@ -94,6 +94,8 @@ func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 				hex.EncodeToString([]byte(address)))
 		}
 		account.Storage = otherAccount.Storage
+		account.OwnerAddress = otherAccount.OwnerAddress
+		account.Username = otherAccount.Username
 	}
 
 	return nil
diff --git a/mock/world/worldDef.go b/mock/world/worldDef.go
index dd0ecc5..411eef0 100644
--- a/mock/world/worldDef.go
+++ b/mock/world/worldDef.go
@@ -125,6 +125,7 @@ func (b *MockWorld) CommunicationIdentifier(destShardID uint32) string {
 
 // GetSnapshot -
 func (b *MockWorld) GetSnapshot() int {
+	b.CreateStateBackup()
 	return b.AccountsAdapter.JournalLen()
 }
 
-- 
2.43.0


From e7d0955314875d5de4b26aa9f4bc5789a1f607ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 59/63] fix: the deployer owns a contract in the mock world
 also if its address had an account

---
 mock/world/worldUpdate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mock/world/worldUpdate.go b/mock/world/worldUpdate.go
index 7493a76..e692ed7 100644
--- a/mock/world/worldUpdate.go
+++ b/mock/world/worldUpdate.go
@@ -69,9 +69,11 @@ func (b *MockWorld) UpdateAccountFromOutputAccount(modAcct *vmcommon.OutputAccou
 	acct := b.AcctMap.GetAccount(modAcct.Address)
 	if acct == nil {
 		acct = b.AcctMap.CreateAccount(modAcct.Address, b)
-		acct.OwnerAddress = modAcct.CodeDeployerAddress
 		b.AcctMap.PutAccount(acct)
 	}
+	if len(acct.OwnerAddress) == 0 {
+		acct.OwnerAddress = modAcct.CodeDeployerAddress
+	}
 	acct.Exists = true
 	if modAcct.BalanceDelta != nil {
 		acct.Balance = big.NewInt(0).Add(acct.Balance, modAcct.BalanceDelta)
-- 
2.43.0


From 62f5ef77349e973b43081c4c3d684bf51ff7b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 60/63] fix: no log transfer for NFTs that builtin functions
 send to another shard

---
 arwen/host/execution.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index b7f6a9f..7dbe39a 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -784,9 +784,6 @@ func (host *vmHost) addESDTTransferToVMOutputSCIntraShardCall(
 	if output.ReturnCode != vmcommon.Ok {
 		return
 	}
-	if !host.AreInSameShard(input.RecipientAddr, input.CallerAddr) {
-		return
-	}
 	isESDTTransfer := input.Function == vmcommon.BuiltInFunctionESDTTransfer || input.Function == vmcommon.BuiltInFunctionESDTNFTTransfer
 	if !isESDTTransfer {
 		return
@@ -799,6 +796,9 @@ func (host *vmHost) addESDTTransferToVMOutputSCIntraShardCall(
 		}
 		recipientAddr = input.Arguments[3]
 	}
+	if !host.AreInSameShard(recipientAddr, input.CallerAddr) {
+		return
+	}
 	addOutputTransferToVMOutput(input.Function, input.Arguments, input.CallerAddr, recipientAddr, input.CallType, output)
 }
 
-- 
2.43.0


From 9dbe528946ddd889d0b4552a26023b21b92232f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 61/63] fix: an asynchronous NFT transfer to another shard ran
 the callback twice

NFT transfers are addressed to the sender itself, so they were taken for calls
within the shard: the callback was executed at once, and the locked gas was
sent along as well, so the destination called back a second time.
---
 arwen/host/asyncCall.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index a47f795..ea6b798 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -113,7 +113,8 @@ func (host *vmHost) determineAsyncCallExecutionMode(asyncCallInfo *arwen.AsyncCa
 		return arwen.AsyncUnknown, err
 	}
 
-	sameShard := host.AreInSameShard(runtime.GetSCAddress(), asyncCallInfo.Destination)
+	destination := host.determineActualDestination(asyncCallInfo, functionName, args)
+	sameShard := host.AreInSameShard(runtime.GetSCAddress(), destination)
 	if host.IsBuiltinFunctionName(functionName) {
 		if sameShard {
 			isESDTTransfer, _, _ := isESDTTransferOnReturnDataFromFunctionAndArgs(functionName, args)
@@ -135,6 +136,21 @@ func (host *vmHost) determineAsyncCallExecutionMode(asyncCallInfo *arwen.AsyncCa
 	return arwen.AsyncUnknown, nil
 }
 
+// determineActualDestination returns the account that an async call is meant for.
+// NFT transfers are sent to the sender itself, which owns the NFT; the account
+// that receives the NFT, and is called with it, is an argument.
+func (host *vmHost) determineActualDestination(asyncCallInfo *arwen.AsyncCallInfo, functionName string, args [][]byte) []byte {
+	sender := host.Runtime().GetSCAddress()
+	isNFTTransfer := functionName == vmcommon.BuiltInFunctionESDTNFTTransfer &&
+		len(args) >= vmcommon.MinLenArgumentsESDTNFTTransfer &&
+		bytes.Equal(sender, asyncCallInfo.Destination)
+	if isNFTTransfer && len(args[3]) == len(sender) {
+		return args[3]
+	}
+
+	return asyncCallInfo.Destination
+}
+
 func (host *vmHost) executeSyncDestinationCall(asyncCallInfo arwen.AsyncCallInfoHandler) (*vmcommon.VMOutput, error) {
 	destinationCallInput, err := host.createDestinationContractCallInput(asyncCallInfo)
 	if err != nil {
-- 
2.43.0


From 5d1fbdbf5a7b2ba1491df93cbc68c54c900c596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 62/63] fix: the balance of a contract was stale after it
 claimed developer rewards

---
 arwen/host/execution.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 7dbe39a..d76794c 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -757,6 +757,9 @@ func (host *vmHost) callBuiltinFunction(input *vmcommon.ContractCallInput) (*vmc
 		return nil, nil, err
 	}
 
+	host.refreshBalance(input.CallerAddr)
+	host.refreshBalance(input.RecipientAddr)
+
 	newVMInput, err := host.isSCExecutionAfterBuiltInFunc(input, vmOutput)
 	if err != nil {
 		metering.UseGas(input.GasProvided)
@@ -776,6 +779,18 @@ func (host *vmHost) callBuiltinFunction(input *vmcommon.ContractCallInput) (*vmc
 	return newVMInput, vmOutput, nil
 }
 
+// refreshBalance reads again the balance of an account, if it was already known,
+// because a builtin function may have changed it (e.g. ClaimDeveloperRewards).
+func (host *vmHost) refreshBalance(address []byte) {
+	account, ok := host.Output().GetOutputAccounts()[string(address)]
+	if !ok || account.Balance == nil {
+		return
+	}
+
+	account.Balance = nil
+	_ = host.Blockchain().GetBalanceBigInt(address)
+}
+
 // add output transfer of esdt transfer when sc calling another sc intra shard to log the transfer information
 func (host *vmHost) addESDTTransferToVMOutputSCIntraShardCall(
 	input *vmcommon.ContractCallInput,
-- 
2.43.0


From 11a75c4fdc9a54994e42ded43bb7aa53fb983cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:14 +0000
Subject: [PATCH 63/63] arwendebug: the simulator may serve the requests (tag
 verif)

---
 arwendebug/seams.go       | 5 +++++
 arwendebug/seams_verif.go | 7 ++++++-
 arwendebug/server.go      | 2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/arwendebug/seams.go b/arwendebug/seams.go
index 018f7fa..e04e110 100644
--- a/arwendebug/seams.go
+++ b/arwendebug/seams.go
@@ -7,6 +7,8 @@ import (
 	"io/ioutil"
 	"os"
 	"sync"
+
+	"github.com/gin-gonic/gin"
 )
 
 // databaseFile is a file that is being written
@@ -24,3 +26,6 @@ var (
 	renameFile  = os.Rename
 	removeFile  = os.Remove
 )
+
+// serve answers requests
+func serve(router *gin.Engine, address string) error { return router.Run(address) }
diff --git a/arwendebug/seams_verif.go b/arwendebug/seams_verif.go
index 31baded..cdd1aa4 100644
--- a/arwendebug/seams_verif.go
+++ b/arwendebug/seams_verif.go
@@ -4,10 +4,12 @@
 package arwendebug
 
 import (
+	"net/http"
 	"os"
 	"sync"
 
 	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
+	"github.com/gin-gonic/gin"
 )
 
 type databaseFile = DatabaseFile
@@ -32,10 +34,11 @@ type DatabaseDisk interface {
 	Remove(path string) error
 }
 
-// Disk and NewSessionLock are set by the simulator
+// Disk, NewSessionLock and Serve are set by the simulator
 var (
 	Disk           DatabaseDisk
 	NewSessionLock func() sync.Locker
+	Serve          func(handler http.Handler) error
 )
 
 type sessionLock struct {
@@ -54,6 +57,8 @@ func (lock *sessionLock) Unlock() {
 	lock.lock.Unlock()
 }
 
+func serve(router *gin.Engine, _ string) error { return Serve(router) }
+
 func makeFolders(path string, perm os.FileMode) error { return Disk.MkdirAll(path, perm) }
 
 func getFileInfo(path string) (os.FileInfo, error) { return Disk.Stat(path) }
diff --git a/arwendebug/server.go b/arwendebug/server.go
index 6a31739..78e3112 100644
--- a/arwendebug/server.go
+++ b/arwendebug/server.go
@@ -33,7 +33,7 @@ func (server *DebugServer) Start() error {
 	router.POST("/run", server.handleRun)
 	router.POST("/query", server.handleQuery)
 
-	return router.Run(server.address)
+	return serve(router, server.address)
 }
 
 func (server *DebugServer) handleCreateAccount(ginContext *gin.Context) {
-- 
2.43.0

