#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
note = {}
exec(open(V + "/tools/claims.py").read(), note)
checks = []
for p in props:
    i = p["id"]
    if i not in note["claims"]:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: " + note["claims"][i][0],
        "level": "exploration",
        "level_note": note["claims"][i][1],
    })
na = [{"property": p["id"], "reason": note["na"].get(p["id"], "check under construction")} for p in props if p["id"] not in note["claims"]]
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none: /repo carries no hooks", "enable": "build.sh copies /repo's working tree to a scratch directory and instruments the copy (tools/instr): scheduling points before every statement, and the sync, os, time, context, exec... packages replaced by simulated ones", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check is self-contained: it instruments and builds the current working tree of /repo in a scratch directory, explores seeds in parallel worker processes, minimises and re-verifies the first violation in a fresh process and writes its evidence. ./replay FILE re-executes a replay file.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
