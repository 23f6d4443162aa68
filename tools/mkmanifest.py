#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = "deterministic simulation with fault injection: seeded search over whole-system histories, compared with a reference client"
NOTE = {
 "P08": "Crashes at any mutating call, power losses with partial durability, torn and failing writes.",
 "P10": "Failing system calls of every kind and unreliable networks; relaxed comparison: may fail, must not claim success for incomplete state.",
 "P15": "Real multi-repository client over 1-4 simulated repositories; expected result computed from per-repository reference clients.",
 "P16": "Real multi-repository client with compromised and unavailable repositories, hostile names and map files.",
 "P17": "Publisher writes are interleaved with the client's requests by the seeded scheduler.",
 "P18": "2-3 client processes interleaved at every file and network operation by the seeded scheduler, with crashes.",
 "P20": "Real publisher API under disk faults and restarts, modelled independently, followed by client sessions on the files.",
}
NA = {
 "P21": "A pure function of (bit length, name, path): no schedule, clock, fault, I/O or second party in it for a simulator to control. Its effect on lookups is exercised by P07's and P20's histories, but the property itself is not decided by simulation.",
 "P22": "A pure function of a key: no schedule, clock, fault, I/O or second party in it for a simulator to control. Its effect (keys usable by clients after a publisher's restart) is exercised by P01's and P20's histories, but the property itself is not decided by simulation.",
}
TODO = set(os.environ.get("TODO", "").split())
for p in TODO:
    NA[p] = "Not built yet."
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {
  "guard": "none in /repo: the seams are in the Go standard library, replaced at build time by `go build -overlay` (overlaygen), so shipped builds are unchanged",
  "enable": "check.sh builds cmd/vsim, which imports /repo's packages as they are, with -overlay .build/overlay/overlay.json",
  "source_commits": [],
 },
 "checks": [],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "Evidence, replay files and build output (evidence/, out/, .build/) are not committed. A replay file is repeated with: .build/vsim replay FILE (after ./check.sh build).",
}
for p in props:
    if p["id"] in NA:
        continue
    m["checks"].append({
     "property": p["id"],
     "quick_cmd": f"./check.sh {p['id']} -tier quick",
     "thorough_cmd": f"./check.sh {p['id']} -tier thorough",
     "evidence_file": f"evidence/{p['id']}.json",
     "technique": TECH,
     "level": "exploration",
     "level_note": (NOTE.get(p["id"], "") + " Samples seeded executions of the unmodified code in one process under simulated file system, network, clock, randomness and scheduling; a clean batch is evidence within the generated histories, not proof. Trusts the harness's model of the kernel and network and the crypto libraries.").strip(),
    })
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
