#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the property files present in dv/props and the notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = json.load(open(os.path.join(HERE, "tools", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = N["claims"].get(p)
    if c and os.path.exists(os.path.join(HERE, "dv", "props", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else: na.append({"property": p, "reason": N["not_applicable"].get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
           "notes": "Contract harnesses in dv/props are executed symbolically over the real functions of /repo (obligations discharged by a ring normaliser, z3 and cvc5) and concretely on the unmodified modules. See DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
