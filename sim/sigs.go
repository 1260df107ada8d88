package main

// apiSigs is the contract-visible API: name -> parameter and result types (i: i32, l: i64).
var apiSigs = map[string][2]string{
	"asyncCall":                    {"iiii", ""},
	"bigIntAbs":                    {"ii", ""},
	"bigIntAdd":                    {"iii", ""},
	"bigIntAnd":                    {"iii", ""},
	"bigIntCmp":                    {"ii", "i"},
	"bigIntEDiv":                   {"iii", ""},
	"bigIntEMod":                   {"iii", ""},
	"bigIntFinishSigned":           {"i", ""},
	"bigIntFinishUnsigned":         {"i", ""},
	"bigIntGetCallValue":           {"i", ""},
	"bigIntGetESDTCallValue":       {"i", ""},
	"bigIntGetESDTExternalBalance": {"iiili", ""},
	"bigIntGetExternalBalance":     {"ii", ""},
	"bigIntGetInt64":               {"i", "l"},
	"bigIntGetSignedArgument":      {"ii", ""},
	"bigIntGetSignedBytes":         {"ii", "i"},
	"bigIntGetUnsignedArgument":    {"ii", ""},
	"bigIntGetUnsignedBytes":       {"ii", "i"},
	"bigIntIsInt64":                {"i", "i"},
	"bigIntMul":                    {"iii", ""},
	"bigIntNeg":                    {"ii", ""},
	"bigIntNew":                    {"l", "i"},
	"bigIntNot":                    {"ii", ""},
	"bigIntOr":                     {"iii", ""},
	"bigIntSetInt64":               {"il", ""},
	"bigIntSetSignedBytes":         {"iii", ""},
	"bigIntSetUnsignedBytes":       {"iii", ""},
	"bigIntShl":                    {"iii", ""},
	"bigIntShr":                    {"iii", ""},
	"bigIntSign":                   {"i", "i"},
	"bigIntSignedByteLength":       {"i", "i"},
	"bigIntStorageLoadUnsigned":    {"iii", "i"},
	"bigIntStorageStoreUnsigned":   {"iii", "i"},
	"bigIntSub":                    {"iii", ""},
	"bigIntTDiv":                   {"iii", ""},
	"bigIntTMod":                   {"iii", ""},
	"bigIntUnsignedByteLength":     {"i", "i"},
	"bigIntXor":                    {"iii", ""},
	"checkNoPayment":               {"", ""},
	"clearStorageLock":             {"ii", "i"},
	"createContract":               {"liiiiiiii", "i"},
	"delegateExecution":            {"liiiiii", "i"},
	"deployFromSourceContract":     {"liiiiiii", "i"},
	"executeOnDestContext":         {"liiiiiii", "i"},
	"executeOnDestContextByCaller": {"liiiiiii", "i"},
	"executeOnSameContext":         {"liiiiiii", "i"},
	"executeReadOnly":              {"liiiiii", "i"},
	"finish":                       {"ii", ""},
	"getArgument":                  {"ii", "i"},
	"getArgumentLength":            {"i", "i"},
	"getBlockEpoch":                {"", "l"},
	"getBlockHash":                 {"li", "i"},
	"getBlockNonce":                {"", "l"},
	"getBlockRandomSeed":           {"i", ""},
	"getBlockRound":                {"", "l"},
	"getBlockTimestamp":            {"", "l"},
	"getCallValue":                 {"i", "i"},
	"getCallValueTokenName":        {"ii", "i"},
	"getCaller":                    {"i", ""},
	"getCurrentESDTNFTNonce":       {"iii", "l"},
	"getESDTBalance":               {"iiili", "i"},
	"getESDTNFTAttributeLength":    {"iiil", "i"},
	"getESDTNFTNameLength":         {"iiil", "i"},
	"getESDTNFTURILength":          {"iiil", "i"},
	"getESDTTokenData":             {"iiiliiiiiiii", "i"},
	"getESDTTokenName":             {"i", "i"},
	"getESDTTokenNonce":            {"", "l"},
	"getESDTTokenType":             {"", "i"},
	"getESDTValue":                 {"i", "i"},
	"getExternalBalance":           {"ii", ""},
	"getFunction":                  {"i", "i"},
	"getGasLeft":                   {"", "l"},
	"getNumArguments":              {"", "i"},
	"getNumReturnData":             {"", "i"},
	"getOriginalTxHash":            {"i", ""},
	"getOwnerAddress":              {"i", ""},
	"getPrevBlockEpoch":            {"", "l"},
	"getPrevBlockNonce":            {"", "l"},
	"getPrevBlockRandomSeed":       {"i", ""},
	"getPrevBlockRound":            {"", "l"},
	"getPrevBlockTimestamp":        {"", "l"},
	"getReturnData":                {"ii", "i"},
	"getReturnDataSize":            {"i", "i"},
	"getSCAddress":                 {"i", ""},
	"getShardOfAddress":            {"i", "i"},
	"getStateRootHash":             {"i", ""},
	"getStorageLock":               {"ii", "l"},
	"int64finish":                  {"l", ""},
	"int64getArgument":             {"i", "l"},
	"int64storageLoad":             {"ii", "l"},
	"int64storageStore":            {"iil", "i"},
	"isSmartContract":              {"i", "i"},
	"isStorageLocked":              {"ii", "i"},
	"keccak256":                    {"iii", "i"},
	"ripemd160":                    {"iii", "i"},
	"setStorageLock":               {"iil", "i"},
	"sha256":                       {"iii", "i"},
	"signalError":                  {"ii", ""},
	"smallIntFinishSigned":         {"l", ""},
	"smallIntFinishUnsigned":       {"l", ""},
	"smallIntGetSignedArgument":    {"i", "l"},
	"smallIntGetUnsignedArgument":  {"i", "l"},
	"smallIntStorageLoadSigned":    {"ii", "l"},
	"smallIntStorageLoadUnsigned":  {"ii", "l"},
	"smallIntStorageStoreSigned":   {"iil", "i"},
	"smallIntStorageStoreUnsigned": {"iil", "i"},
	"storageLoad":                  {"iii", "i"},
	"storageLoadFromAddress":       {"iiii", "i"},
	"storageLoadLength":            {"ii", "i"},
	"storageStore":                 {"iiii", "i"},
	"transferESDT":                 {"iiiilii", "i"},
	"transferESDTExecute":          {"iiiiliiiii", "i"},
	"transferESDTNFTExecute":       {"iiiilliiiii", "i"},
	"transferValue":                {"iiii", "i"},
	"transferValueExecute":         {"iiliiiii", "i"},
	"upgradeContract":              {"iliiiiiii", ""},
	"upgradeFromSourceContract":    {"iliiiiii", ""},
	"verifyBLS":                    {"iiii", "i"},
	"verifyEd25519":                {"iiii", "i"},
	"verifySecp256k1":              {"iiiii", "i"},
	"writeEventLog":                {"iiiii", ""},
	"writeLog":                     {"iiii", ""},
}
