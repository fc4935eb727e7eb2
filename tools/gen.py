#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "checks")]
import props, registry
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
checks = []
for p in props.P:
    if p["id"] not in registry.CHECKS:
        continue
    cmd = "python3 /verif/checks/run.py " + p["id"]
    checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd, technique=p["_technique"],
                       level=registry.CHECKS[p["id"]][1], level_note=p["_note"], evidence_file="evidence/%s.json" % p["id"]))
na = getattr(props, "NOT_APPLICABLE", [])
man = dict(version=1, setup_cmd="make -s -C /verif/engine", checks=checks, not_applicable=na)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
missing = [p["id"] for p in props.P if p["id"] not in registry.CHECKS and p["id"] not in [n["property"] for n in na]]
print(len(props.P), "properties,", len(checks), "checks, unclaimed:", missing)
