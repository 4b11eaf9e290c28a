#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    c = CHECKS.get(pid)
    if not c:
        na.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    light = all(x["kind"] == "light" for x in c["parts"])
    note = c.get("note") or (
        "Held on every generated case; cases are drawn from a seed and shrunk on failure, no exhaustive claim. "
        + ("Trusts the compiler and its sanitizers." if light else
           "The library is built with stand-ins for the ANTLR runtime and the ANTLR and tree-gen generators (shim/), "
           "which are not installed here: what the grammar and tree files say is honoured, ANTLR's own behaviour is "
           "trusted to be that of the stand-in."))
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s quick" % pid,
        "thorough_cmd": "python3 check.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": c.get("technique", "property-based testing: generated inputs against an independent oracle, with shrinking"),
        "level": "exploration",
        "level_note": note,
    })
doc = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
