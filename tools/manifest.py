#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(d + "/checks.json"))
props = [json.loads(l)["id"] for l in open(d + "/properties.jsonl") if l.strip()]
tech = "symbolic execution of the Go SSA of /repo with z3, counterexamples replayed natively"
note = ("Bounded: every value of the symbolic inputs, and every interleaving where threads are involved, within the bounds in "
        "checks.json and DESIGN.md is decided by z3 on the SSA of the current source; nothing is claimed outside them. Trusted: the "
        "executor in symgo/, the models of the radix tree, clock, maps, reflection and I/O described in DESIGN.md (validated on every run by "
        "executing path models natively against the real code), go/ssa and z3.")
na = {}
p = d + "/tools/na.json"
if os.path.exists(p):
    na = json.load(open(p))
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
for c in props:
    if c in checks:
        s = checks[c]
        m["checks"].append({"property": c, "quick_cmd": "./check.sh " + c, "thorough_cmd": "./check.sh " + c, "technique": tech,
                            "level": "model_checking", "level_note": (s.get("bounds", "") + " " + note).strip()})
    else:
        m["not_applicable"].append({"property": c, "reason": na.get(c, "no check has been built yet")})
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
open(d + "/MANIFEST.json", "a").write("\n")
