#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the analyser's list of checks."""
import json, subprocess, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
out = subprocess.run(["bin/nav", "list"], check=True, capture_output=True, text=True).stdout
checks = []
have = set()
for l in out.splitlines():
    pid, tech, rule = l.split("\t")
    have.add(pid)
    checks.append({"property": pid, "quick_cmd": f"bash run.sh {pid}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {pid}",
        "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": "other",
        "level_note": "Static decision over the SSA form of the current source; nothing is executed. " + rule +
        " Trusted: the Go type checker and SSA builder, the models of library calls in /verif/checker, and that distinct access paths do not alias."})
na = json.load(open("tools/not_applicable.json"))
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
for p in props:
    if p not in have and not any(n["property"] == p for n in na):
        na.append({"property": p, "reason": "no check has been built for this property yet"})
na = [n for n in na if n["property"] not in have]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
