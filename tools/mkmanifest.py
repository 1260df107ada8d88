#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
TECH = "deterministic simulation with fault injection, judged by an executable reference model"
NOTE = {
 "C": "Sampled, not exhaustive: seeded runs of the real VM (host, contexts, EI, protocol functions) over a simulated node with faults; every API call, charge, output and message is compared with a reference model. Trusts the model, the stand-in wasm engine behind wasmer's C API, and the simulated node.",
 "I": "Sampled, not exhaustive: the real node part and arwen part talk over a simulated pipe whose scheduling, delays and faults the simulator decides; results are compared with the in-process VM. Trusts the simulated pipe and clock hooks.",
 "D": "Sampled, not exhaustive: the real debugger facade runs over a file system whose crashes and write errors the simulator decides.",
 "M": "Sampled, not exhaustive: the real executor runs generated scenarios that state what a reference blockchain found, truthfully, with single claims falsified or weakened, with unreadable files, and in directories. Trusts the reference blockchain, and the VM for what a transaction outputs.",
}
CLAIM = ["C%02d" % i for i in range(1, 16)] + ["I01", "I02", "I03", "D01", "M01"]
EXTRA = {"hooks": ["3ae5ae4d18014d5eb9174729997625dbaaebff77", "8eb61c86bbf0fa285b06403d9cca4abb5f110f40", "11a75c4fdc9a54994e42ded43bb7aa53fb983cb4"]}
NA = {
 "N01": "crypto signature, hash and key functions are pure functions of their inputs without time, I/O, concurrency or failures for a simulator to decide (their use by contracts is covered by the reference model of C10)",
 "N02": "the scenario value interpreter is a pure function from text to bytes: no schedule, fault or history affects it",
 "N03": "the arithmetic helpers are pure functions of two integers: no schedule, fault or history affects them",
}
PENDING = {}
if __name__ == "__main__":
    props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
    m = {"version": 1,
         "setup_cmd": "./check.sh build",
         "hooks": {"guard": "build tag verif", "enable": "go build -tags verif", "source_commits": EXTRA.get("hooks", [])},
         "checks": [{"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "./check.sh " + p, "technique": TECH,
                     "level": "exploration", "level_note": NOTE[p[0]]} for p in props if p in CLAIM],
         "not_applicable": [{"property": p, "reason": NA.get(p) or "no check yet: under construction"} for p in props if p not in CLAIM]}
    json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
    open("/verif/MANIFEST.json", "a").write("\n")
