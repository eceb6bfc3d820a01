#!/usr/bin/env python3
"""Regenerates DESIGN.md from its parts."""
import json, os, sys, glob, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
R = lambda f: open(os.path.join(HERE, f)).read()
from dv import harness as hz
for f in sorted(glob.glob(HERE + "/dv/props/c*.py")): importlib.import_module("dv.props." + os.path.basename(f)[:-3])
N = json.loads(R("tools/claims.json")); K = json.loads(R("known_findings.json")); out = [R("tools/design_head.md")]
for l in R("properties.jsonl").splitlines():
    d = json.loads(l); p = d["id"]; c = N["claims"].get(p)
    if not c: continue
    out.append(f"### {p} {d['title']}\n\n{d['statement']}\n\n*Quantified over* {d['quantifier']['text']}. *Technique:* {c['technique']}. *Reach:* {c['note']}\n\n*Why tests cannot:* {d['why_tests_cant']}\n")
    out.append("| harness | contract | functions | decided by |\n|---|---|---|---|")
    for (q, n), h in hz.REG.items():
        if q != p: continue
        how = (("shape: " + h.bound if h.bound else "proved") if h.sym else "") + (("; " if h.sym else "") + f"run-time ({h.trials})" if h.conc else "")
        fn = ", ".join(f"`{x}`" for x in h.fns[:5]) + (f" and {len(h.fns)-5} more" if len(h.fns) > 5 else "")
        out.append(f"| {n} | {' '.join(h.doc.split()).replace('|', chr(92) + '|')} | {fn} | {how} |".replace("\n", " "))
    out.append("")
t = R("tools/design_tail.md")
t = t.replace("@FIXES@", "\n".join("* " + x[len("fixed: property="):] for x in K["fixed"])).replace("@FINDINGS@", "\n".join(f"* {f['property']}: {f['what']}" for f in K["findings"]))
S = json.loads(R("tools/seeded_notes.json")) if os.path.exists(HERE + "/tools/seeded_notes.json") else {}
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f)); rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {S.get(i, '')} |")
t = t.replace("@SEEDED@", "\n".join(rows)).replace("@MUT@", R("tools/design_mut.md") if os.path.exists(HERE + "/tools/design_mut.md") else "")
out.append(t); open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
