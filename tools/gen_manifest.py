#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    c = CHECKS.get(pid)
    if c is None:
        na.append({"property": pid, "reason": "no check built yet; planned in DESIGN.md"})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"] + " Bounds: " + c["bounds"],
    })
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "hooks": {"guard": "TOYWASM_VERIF", "enable": "no hooks are needed: the harnesses link the unmodified libraries "
               "(thread schedules are controlled through compiler instrumentation and link-time wrapping)",
               "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
