#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule modules present (run from anywhere)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "path-sensitive dataflow/typestate analysis over the AST, project-specific rules",
}
NOTE = ("Sound per enumerated path relative to the engine's Python model (sa/engine.py): no monkeypatching, user "
        "callbacks treated as opaque, one generic iteration per loop. Constructs the model cannot decide are reported "
        "as undecided in the evidence and not claimed. Decides the structural rules listed in DESIGN.md for this "
        "property, not the run-time behaviour of third-party codecs or streams.")
NA = {
    "C30": "equality of the whole round trip depends on run-time values (numeric ranges, codecs, user callbacks); only its "
           "structural parts are in reach of static analysis and those are claimed as C04, C05, C11, C15 and C24",
    "C31": "numeric inverse of encode/decode quantifies over integer values and arithmetic that no sound structural rule "
           "decides; the framing part is claimed as C24 and the shared parameters as C15",
    "C32": "depends on floating-point arithmetic and time-zone rules of the datetime library at run time (the float path "
           "in Timestamp._do_dump is known to lose precision far from the epoch); not decidable structurally",
    "C33": "termination depends on user-supplied halt checks and fields that consume no bytes (an unbounded array of "
           "zero-size elements), i.e. on run-time values",
}
import re
import sys
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for d in props:
    pid = d["id"]
    f = os.path.join(V, "sa", "rules", pid.lower() + ".py")
    if os.path.exists(f):
        doc = open(f).read()
        m = re.search(r'^TECHNIQUE = "(.*)"$', doc, re.M)
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 -m sa {pid} --tier quick",
            "thorough_cmd": f"python3 -m sa {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": m.group(1) if m else TECH["default"],
            "level": "other",
            "level_note": NOTE,
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no static rule built for it yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa",
           "checks": checks, "not_applicable": na,
           "notes": "Everything is stdlib-only Python reading /repo's source; nothing of the repository is executed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
