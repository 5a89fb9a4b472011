#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none: no hooks are compiled into /repo", "enable": "every check instruments a scratch copy of /repo's working tree (source-to-source, /verif/instr); /repo itself carries no hook", "source_commits": []},
 "checks": [], "not_applicable": []}
for i in ids:
    m["checks"].append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
     "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)", "level": "exploration",
     "level_note": "A clean run means that no violation was found in the seeded sample of schedules, configurations, workloads and fault sequences (counted in the evidence file); it is not a proof. Trusts the simulated scheduler, clock and TCP model, and sequentially consistent memory."})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
