#!/usr/bin/env python3
"""Rewrite the generated part of DESIGN.md from the registry."""
import json
import os
import textwrap

import registry

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- generated by tools/gen_design.py -->\n", "<!-- end of generated part -->\n"


def wrap(label, text):
    return textwrap.fill("%s: %s" % (label, text), 78, initial_indent="* ", subsequent_indent="  ") + "\n"


props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = ""
for p in props:
    c = registry.CHECKS.get(p["id"])
    if not c:
        continue
    out += "### %s %s\n\n" % (p["id"], p["title"])
    out += wrap("Method", c["technique"])
    out += wrap("Bounds", c["bounds"])
    runs = []
    for r in c["runs"]:
        s = "%s/%s" % (r["harness"], r["variant"])
        if r.get("tiers") == ["thorough"]:
            s += " (thorough only)"
        if s not in runs:
            runs.append(s)
    out += wrap("Explorations (harness/variant)", ", ".join(runs))
    out += wrap("Limits", c["note"])
    for a in c["assumptions"]:
        out += wrap("Assumption", a)
    out += "\n"
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
a, b = text.index(BEGIN) + len(BEGIN), text.index(END)
open(path, "w").write(text[:a] + out + text[b:])
