#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after changing the list)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation of the ginkgo command and its test processes under a seeded scheduler, network, clock and fault injector; histories judged against an executable reference model and invariants",
        "level": "exploration",
        "level_note": "Seeded search: no violation in the runs explored, which sample schedules, suites, configurations and faults. Trusts the simulated kernel (processes, signals, pipes, loopback TCP, clock), the reference model and the generator's reach; preemption at statement granularity, no weak-memory effects.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator instruments a scratch copy of the tree and patches the Go standard library through a build overlay", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "check.sh builds the simulation from /repo's working tree, runs seeded simulated runs and judges them; replay.sh FILE replays a violation exactly. Repairs of genuine defects found are listed in known-findings.txt.",
}, open(here + "/MANIFEST.json", "w"), indent=1)
