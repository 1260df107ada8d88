#!/usr/bin/env python3
"""Writes /verif/known-findings.json: the recorded findings, and every repaired defect."""
import json, subprocess
FIND = [
 {"id": "create-replaces-initial-cost", "property": "C02",
  "what": "createContract and deployFromSourceContract replace the preparation cost of the calling contract by the compilation cost of the deployed code instead of adding to it (DeductInitialGasForIndirectDeployment in arwen/contexts/metering.go); not repaired because the existing tests TestExecution_CreateNewContract_Success and TestExecution_CreateNewContract_Fail pin the resulting GasUsed"},
]
FIXED = [  # property, commit, what failed
 ("C02", "d3f3d13", "bigInt operations were charged at the gas price of bigIntAdd and others instead of their own"),
 ("C02", "74a5883", "transferValueExecute did not charge the gas it sends along"),
 ("C05", "124b6e5", "negative argument and return data indices panicked in the host"),
 ("C10", "b41b8d0", "indirect calls whose arguments could not be read went on with none"),
 ("C05", "73d4cdc", "numArguments near 2^31 made the host allocate gigabytes"),
 ("C12", "996f3a6", "contracts could call callBack of another contract without an asynchronous call"),
 ("C02", "0cd2a6a", "nested calls could use more gas than provided, which was only noticed later"),
 ("C09", "de8e9f4", "code deployed by contracts was not verified"),
 ("C08", "b8c9749", "gas locked for a callback was computed from the size of another contract"),
 ("C08", "b8cff16", "gas locked for a callback was not available to it"),
 ("C04", "a962678", "values of protected keys were read from a stale cache in some storage reads"),
 ("C06", "62742a4", "contracts could overwrite storage time locks and saved asynchronous contexts"),
 ("C13", "ec0d4a7", "getCallValueTokenName did not write the token name"),
 ("C03", "c462b41", "executeOnDestContextByCaller took the value from the caller of the contract"),
 ("C09", "9c2a301", "executeOnDestContextByCaller could upgrade contracts of the caller"),
 ("C07", "a126a4b", "read-only executions could transfer, call protocol functions and upgrade"),
 ("C13", "94ff135", "token transfers whose execution failed stayed in the output"),
 ("C13", "6c70788", "protocol functions whose following call failed stayed in the output"),
 ("C03", "3425493", "transfers to the address of a contract whose deployment failed were lost"),
 ("C03", "382e715", "the value of successful asynchronous calls was taken from their destination"),
 ("C11", "462b279", "a refused gas schedule replaced the reported schedule"),
 ("C02", "0a83370", "gas of earlier transfers was counted again as gas of nested calls"),
 ("C13", "ed95770", "the gas refund of the caller was lost by nested calls and protocol functions"),
 ("C09", "b0c1dc8", "contracts deployed during the deployment of another got its address"),
 ("C09", "c76eafc", "the old compiled code of a contract ran after an upgrade in the same transaction"),
 ("C05", "af06f69", "writeLog with 2^31-1 topics made the process run out of memory"),
 ("C08", "4710901", "a callback received as its value a transfer made before the asynchronous call"),
 ("C05", "ec82608", "loads longer than the memory made the host allocate up to 2 GB each"),
 ("C05", "3f66d54", "a panic in a nested call left instances behind, which leaked and lowered the depth limit of later executions"),
 ("C09", "f5e5a35", "an upgrade inside a nested call that failed left the code of the contract in the output of the transaction"),
 ("I01", "93ee2d7", "the VM process was never told the names of the built-in functions, so it treated calls of them as ordinary calls"),
 ("I01", "8cc4dba", "the node did not answer the callbacks of the newest kinds (among them snapshots and compiled code) and ended the VM process instead"),
 ("I01", "5846a4b", "the error of RevertToSnapshot was not passed on to the VM process"),
 ("I01", "6456471", "percent signs in the messages of transmitted errors were treated as format verbs, which changed the messages"),
 ("I01", "76690be", "function names and messages that are not valid UTF-8 arrived altered"),
 ("I01", "bec5f22", "the VM process could not decode changes of the gas schedule and ended"),
 ("I02", "bd6ba20", "when a callback failed on the pipe, the VM process went on with empty answers and delivered the result"),
 ("I03", "6b50143", "after a refused gas schedule, or one the caller changed later, the VM process could not be restarted or was restarted differently"),
 ("I03", "b3ed901", "a VM process that could not be started left the driver unusable, and a reused pid made a dead one look alive"),
 ("I02", "2fe776e", "the node kept the VM's ends of the pipes open, so that it noticed the death of the VM process only by the time limit, and the VM process never noticed that of the node"),
 ("I03", "093e77e", "the node waited forever for a VM process that had stopped reading, and when exactly no time was left"),
 ("I02", "4b8e34f", "a message whose kind contradicts its type crashed the process that received it"),
 ("I02", "c83d850", "an answer of another kind, or without output, crashed the node"),
 ("D01", "bfc25ee", "addresses, storage keys and call data that are not valid UTF-8 were altered when a debugged world was stored"),
 ("D01", "e76dcf6", "the code metadata and the owner of contracts deployed or upgraded by the debugger were not stored"),
 ("D01", "3f2b3ea", "a crash or disk error while a debugged world was stored destroyed it"),
 ("D01", "11fd143", "a debugged world whose file could not be inspected was replaced by an empty one"),
 ("D01", "a1ed758", "concurrent requests to the debugger lost each other's effects"),
 ("M01", "1fb5f3e", "an unexpected token instance with a creator, hash or attributes made the scenario executor panic"),
 ("M01", "d320c00", "tokens that a scenario leaves open with + made it fail"),
 ("M01", "997d7ff", "the owner that a scenario states was never checked"),
 ("M01", "f962f84", "the frozen flag that a scenario states was never checked"),
 ("M01", "f54a18c", "the last nonce that a scenario sets was lost for tokens without instances"),
 ("M01", "a7b0c05", "external steps changed whether the scenario that includes them checks gas"),
 ("M01", "9bdd50f", "all scenarios of a directory ran with the gas schedule of the first one"),
 ("M01", "90a716c", "owners and usernames changed by failed transactions stayed, and nested failures undid more than what they had done"),
 ("M01", "e7d0955", "a contract deployed at an address that had received funds had no owner"),
 ("C03", "62f5ef7", "an NFT that a builtin function sent to another shard was sent twice"),
 ("C08", "9dbe528", "the callback of an asynchronous NFT transfer to a contract in another shard was executed twice, with the same locked gas"),
    ("C03", "5d1fbdb", "a contract that had looked at its balance kept seeing (and spending) the old one after claiming developer rewards"),
]
if __name__ == "__main__":
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "07dbd0a..HEAD"], capture_output=True, text=True).stdout
    have = {c for _, c, _ in FIXED}
    for l in log.splitlines():
        if l.split()[1] == "fix:" and l.split()[0] not in have:
            print("missing:", l)
    json.dump({"findings": FIND, "fixed": ["fixed: property=%s %s %s" % f for f in FIXED]}, open("/verif/known-findings.json", "w"), indent=1)
    open("/verif/known-findings.json", "a").write("\n")
