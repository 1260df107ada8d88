package main

import (
	"encoding/json"
	"os"
	"path/filepath"
)

// known says which recorded findings the model has to expect.
var known = map[string]bool{}

type findingsFile struct {
	Findings []struct {
		ID       string `json:"id"`
		Property string `json:"property"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

var findings findingsFile

func loadFindings() {
	p := os.Getenv("VERIF_FINDINGS")
	if p == "" {
		p = "/verif/known-findings.json"
	}
	p, _ = filepath.Abs(p)
	b, err := os.ReadFile(p)
	must(err)
	must(json.Unmarshal(b, &findings))
	for _, f := range findings.Findings {
		known[f.ID] = true
	}
}

func findingsOf(prop string) (out []string) {
	for _, f := range findings.Findings {
		if f.Property == prop {
			out = append(out, f.ID+": "+f.What)
		}
	}
	return
}

// quickRuns is the number of runs of a quick check where it is not the usual one.
var quickRuns = map[string]int{}

// crashProps are the properties that a dying or hanging process violates.
var crashProps = []string{"C05", "I01", "I02", "I03", "D01", "M01"}

// probes are the counters of which one has to move in a run for it to say something about a property.
var probes = map[string][]string{
	"C01": {"result_user_error", "result_execution_failed", "result_out_of_gas", "nested_failed", "faulted_errors"},
	"C02": {"gas_sums"},
	"C03": {"value_transfers", "esdt_transfers", "token_calls", "tokens_returned"},
	"C04": {"fresh_host_comparisons", "step_restart", "step_dropcache"},
	"C05": {"api_faults", "faulted_executions"},
	"C06": {"storage_writes"},
	"C07": {"readonly_calls"},
	"C08": {"async_calls", "callbacks", "remote_async_done", "async_failed_remotely"},
	"C09": {"deployed", "deploy_invalid", "upgrade_refused"},
	"C10": {"nested_calls", "same_context_calls"},
	"C11": {"schedule_changes", "mid_execution_changes", "bad_schedules"},
	"C12": {"tx_refused", "nested_failed", "executions"},
	"C13": {"api_calls"},
	"C14": {"nested_calls", "depth_limit_hit"},
	"C15": {"executions_without_aot", "locks_before_their_epoch", "imports_before_their_epoch", "hashes_not_inherited", "blocks_back"},
	"I01": {"callbacks_compared", "compared", "probed_callbacks"},
	"I02": {"channel_errors", "broken_pipes"},
	"D01": {"steps_with_disk_faults", "http_requests", "parallel_judged", "step_restart", "call_ok"},
	"M01": {"deviations_bad", "deviations_soft", "fault_file_cut", "fault_file_missing", "fault_file_directory", "directories", "tests_passed"},
	"I03": {"parallel_requests", "channel_errors", "schedule_changes", "fault_delay"},
}

func probesOf(prop string) []string { return probes[prop] }

var rules = map[string]string{
	"C": "A case is one simulated run: a seed makes a world of 1-3 shards, contracts assembled from random API calls, and 3-20 steps (transactions, deployments, upgrades, message deliveries in any order, new blocks, schedule changes, host restarts, loss and corruption of the compiled code cache, failing or panicking node services, engine faults). It counts as non-trivial if one of these counters moved in it: ",
	"I": "A case is one simulated run: a seed makes a world, contracts assembled from random API calls, and 3-7 steps on the real driver of the node and the real VM process joined by simulated pipes: transactions, requests that make invented callbacks with invented answers, concurrent requests by several node threads, schedule changes, version and waiting requests, closing, killing and stopping the VM process; short reads, full pipes, delays and faults at chosen messages and bytes. It counts as non-trivial if one of these counters moved in it: ",
	"D": "A case is one simulated run: a seed makes contracts assembled from random API calls and 4-25 requests to the real debugger (accounts, deployments, upgrades, calls, queries, invalid requests, several at once) over up to six worlds in two databases, in one process or many; processes die, power is lost, the disk fails or is full at chosen operations and bytes. It counts as non-trivial if one of these counters moved in it: ",
}

func init() {
	rules["M"] = "A case is one simulated run: a seed makes a test scenario (accounts, contracts assembled from random API calls, 2-9 steps of every kind, nested files), executes it on a reference blockchain, and writes down what it found in one of many ways; the real executor runs it, then again with single claims made false or weakened, with broken files, and in a directory with others. It counts as non-trivial if one of these counters moved in it: "
}

func ruleOf(prop string) string {
	s := rules[prop]
	if s == "" {
		s = rules[prop[:1]]
	}
	for i, p := range probesOf(prop) {
		if i > 0 {
			s += ", "
		}
		s += p
	}
	return s + ". Distinct: the hash of the complete history (inputs, outputs, messages, faults) differs."
}

func assumptionsOf(prop string) []string {
	switch prop[0] {
	case 'C':
		return []string{
			"wasmer's compiled library is not in the sandbox: contracts run in an interpreter of the same C API, written for this check, which meters and stops like wasmer with the cost tables the VM gives it",
			"the node (accounts, shards, message routing, block header, gas refunds) is simulated; protocol functions are the real ones of elrond-vm-common",
			"the reference model states what the API calls of the generated contracts must do; wasm code outside API calls is taken from the interpreter",
		}
	}
	switch prop[0] {
	case 'M':
		return []string{
			"what a transaction does is what the output of the same VM says, over a blockchain hook of the check's own (C01-C14 judge the VM itself)",
			"entries with the reserved prefix ELROND are not part of the stated storage, as documented in the executor",
			"direct token transfers go to existing accounts, values are written in the notations of the repository's own scenarios, without escaped quotes",
			"wasmer's compiled library is not in the sandbox: contracts run in an interpreter of the same C API",
		}
	case 'D':
		return []string{
			"the disk is simulated: files keep what was synced, a power loss keeps a first part of the unsynced changes of directories and of the unsynced data of each file, and everything older than the current step is on the disk",
			"the debugger's processes do not use the same world at the same time (there is no lock between processes); the requests of one server do",
			"wasmer's compiled library is not in the sandbox: contracts run in an interpreter of the same C API",
			"what a request does to a world is what the output of the same VM says (C01-C14 judge the VM itself)",
		}
	case 'I':
		return []string{
			"processes are simulated tasks of one process that share no data but the pipes; what the kernel does with pipes, signals and exit codes is taken from its documentation",
			"the built-in functions active in the node do not change while the VM process runs",
			"the answers to callbacks are what the simulated node gives; malformed messages are other messages of the protocol or bytes that cannot be decoded, not well-formed lies",
			"wasmer's compiled library is not in the sandbox: contracts run in an interpreter of the same C API",
		}
	}
	return nil
}

func componentsOf(prop string) (realC, stub []string) {
	switch prop[0] {
	case 'C':
		return []string{"arwen/host", "arwen/contexts", "arwen/elrondapi", "arwen/cryptoapi", "arwen/host/asyncCall", "crypto", "wasmer (Go wrapper)", "config", "math", "elrond-vm-common/builtInFunctions"},
			[]string{"wasm engine (interpreter behind wasmer's C API)", "blockchain hook and node (simulated, with faults)"}
	case 'M':
		return []string{"arwenmandos", "mandos-go (controller, JSON parser, value interpreter, file resolver)", "mock/world", "arwen/host and everything below it", "elrond-vm-common/builtInFunctions"},
			[]string{"wasm engine (interpreter behind wasmer's C API)", "scenario files (written to a scratch directory of the run, with faults)"}
	case 'D':
		return []string{"arwendebug (facade, database, world, requests)", "mock/world as far as the debugger uses it", "arwen/host and everything below it"},
			[]string{"disk, processes, threads (simulated, with faults)", "wasm engine (interpreter behind wasmer's C API)", "HTTP server and command line (requests enter at the facade)"}
	case 'I':
		return []string{"ipc/nodepart", "ipc/arwenpart", "ipc/common", "ipc/marshaling", "arwen/host and everything below it", "elrond-vm-common/builtInFunctions"},
			[]string{"pipes, clock, processes (simulated, with faults)", "wasm engine (interpreter behind wasmer's C API)", "blockchain hook and node (simulated, with faults)", "cmd/arwen main (its loop is run as a simulated task)", "log pipe (discarded)"}
	}
	return nil, nil
}
