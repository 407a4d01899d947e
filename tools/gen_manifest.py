#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, V)
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = getattr(checks, "NOTES", {})
NA = {"C21": "A compile-time guarantee: whether a program is accepted is decided by the compiler before anything runs, so there is no execution to monitor."}
TECH_CORE = "online trace monitor with executable reference model, over random histories, under ASan+UBSan"
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "MIMICPP_VERIF", "enable": "no hooks are needed: the checks observe the public reporter, policy and action interfaces", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        tech, note = NOTE.get(p, (TECH_CORE, "Held on the executions explored; trusts the reference model in harness/core and the compilers' sanitizer runtimes."))
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
                            "technique": tech, "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "Check not built yet.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
