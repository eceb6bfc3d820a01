"""run.py PROP [--tier quick|thorough] [--only HARNESS]: decides one property on /repo's current tree."""
import sys, os, json, time, subprocess, tempfile, importlib, shutil, argparse
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("DV_JOBS", "8")))
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    repo = os.environ.get("DV_REPO", "/repo")
    sys.path.insert(0, HERE)
    import dv
    from dv import harness as hz
    importlib.import_module("dv.props." + a.prop.lower())
    hs = [h for (p, n), h in hz.REG.items() if p == a.prop and (not a.only or a.only in n)]
    t0 = time.time()
    env = dict(os.environ, PYTHONPATH=repo, DIFF_DIFF_BACKEND="python", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", DV_REPO=repo)
    tmp = tempfile.mkdtemp(prefix="dv_")
    env["MPLCONFIGDIR"] = os.path.join(tmp, "mpl"); env["HOME"] = tmp
    total = 780 if tier == "quick" else 6000
    reports = {}
    try:
        queue = sorted(hs, key=lambda h: -h.timeout); running = []; 
        while queue or running:
            while queue and len(running) < a.jobs:
                h = queue.pop(0); out = os.path.join(tmp, h.name + ".json")
                err = open(out + ".err", "w")
                p = subprocess.Popen([PY, os.path.join(HERE, "dv", "worker.py"), a.prop, h.name, tier, seed, out], env=env, cwd=tmp, stdout=err, stderr=err, start_new_session=True)
                running.append((h, p, out, time.time()))
            for q in running[:]:
                h, p, out, st = q
                lim = h.timeout * (3 if tier == "thorough" else 1) * 1.6 + 20
                if p.poll() is None and (time.time() - st > lim or time.time() - t0 > total):
                    try: os.killpg(p.pid, 9)
                    except ProcessLookupError: pass
                    p.wait()
                if p.poll() is not None:
                    running.remove(q)
                    try: rep = json.load(open(out))
                    except Exception: rep = {"harness": h.name, "fns": h.fns, "doc": h.doc, "bound": h.bound, "symbolic": None, "trials": 0, "nontrivial": 0, "checks": 0, "violations": [], "missing": None, "errors": [], "samples": []}
                    if p.returncode != 0:
                        rep["errors"].append(f"worker ended with {p.returncode}: " + open(out + ".err").read()[-600:])
                    reports[h.name] = rep
            time.sleep(0.03)
            if time.time() - t0 > total and queue: queue = []
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return finish(a.prop, tier, int(seed), hs, reports, time.time() - t0, a.v, bool(a.only))

def load_known():
    try: return json.load(open(os.path.join(HERE, "known_findings.json")))
    except FileNotFoundError: return {"findings": [], "fixed": []}

def finish(prop, tier, seed, hs, reports, wall, verbose, partial):
    known = load_known()
    kf = [f for f in known["findings"] if f["property"] == prop]
    out = []; viol = []; knownhit = []
    nobl = ndis = 0; backends = {}; stime = 0.0; undecided = []; notes = set(); fns_proved = set(); fns_bounded = set(); funcs = {}
    obl_names = set()
    bounded_obl = bounded_dis = 0
    for h in hs:
        r = reports.get(h.name)
        if r is None: undecided.append(f"{h.name}: not run (time)"); continue
        sy = r.get("symbolic")
        failing = {}
        if sy:
            stime += sy.get("secs", 0)
            for o in sy["obls"]:
                obl_names.add(f"{h.name}:{o['name']}")
                if h.bound: bounded_obl += 1
                else: nobl += 1
                if o["status"] == "proved":
                    if h.bound: bounded_dis += 1
                    else: ndis += 1
                    backends[o["backend"]] = backends.get(o["backend"], 0) + 1
                else: failing.setdefault(o["name"], []).append(o)
            notes |= set(sy.get("notes", []))
            for u in sy["unsupported"]: undecided.append(f"{h.name}: {u}")
            if not sy["obls"] and not sy["missing"]: undecided.append(f"{h.name}: no obligation generated")
            ok = sy["obls"] and not failing and not sy["unsupported"] and not sy["incomplete"]
            for f in h.fns: funcs.setdefault(f, set()).add(("proved for all inputs" if not h.bound else f"proved within bound: {h.bound}") if ok else "obligations open")
        elif h.sym: undecided.append(f"{h.name}: symbolic run gave no result")
        if h.conc:
            for f in h.fns: funcs.setdefault(f, set()).add(f"bounded run-time check ({r['trials']} generated inputs)")
        if r.get("missing"): undecided.append(f"{h.name}: target missing: {r['missing']}")
        for e in r.get("errors", []): undecided.append(f"{h.name}: {e}")
        for v in r["violations"]:
            viol.append((h, v, failing.get(v["name"])))
        if failing and not r["violations"]:
            for nm, os_ in failing.items():
                ref = [o for o in os_ if o["status"] == "refuted"]
                if ref: viol.append((h, {"name": nm, "detail": "obligation not discharged", "no_input": True, "obligation": ref[0]}, os_))
                else: undecided.append(f"{h.name}: {nm}: solver answered unknown on {len(os_)} obligation(s)")
    unlisted = []
    for h, v, fo in viol:
        m = [f for f in kf if f["harness"] == h.name and f["contract"] == v["name"] and not v.get("no_input")]
        if m: knownhit.append((m[0], v))
        else: unlisted.append((h, v, fo))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for f, v in knownhit:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    # a failing input beats a bare failed obligation
    unlisted.sort(key=lambda x: bool(x[1].get("no_input")))
    for i, (h, v, fo) in enumerate(unlisted[:12]):
        path = os.path.join(HERE, "replays", f"{prop}-{h.name}-{i}.json")
        body = {"property": prop, "harness": h.name, "functions": h.fns, "contract": v["name"], "detail": v["detail"],
                "seed": v.get("seed"), "overrides": v.get("over"), "inputs": v.get("inputs"), "contract_text": h.doc,
                "replay_cmd": f"/opt/venv/bin/python {HERE}/dv/replay.py {path}", "failed_obligations": (fo or [])[:5]}
        json.dump(body, open(path, "w"), indent=1, default=str)
        tail = " no-failing-input-found" if v.get("no_input") else ""
        print(f"  failed contract {h.name}:{v['name']} on {', '.join(h.fns)}: {str(v['detail'])[:300]}")
        print(f"VIOLATION property={prop} replay={path}{tail}")
    trials = sum(r["trials"] for r in reports.values()); nontriv = sum(r["nontrivial"] for r in reports.values()); checks = sum(r["checks"] for r in reports.values())
    man = {}
    try: man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    except Exception: pass
    level = man.get(prop, {}).get("level", "proof")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(wall, 2), "violations": len(unlisted),
          "assumptions": ["floating-point arithmetic is modelled as exact real arithmetic extended by NaN and +/-infinity; rounding is only exercised by the concrete runs",
                          "numpy/scipy/pandas operations obey the contracts in dv/shims.py, dv/tensor.py and dv/frames.py",
                          "obligations marked with a bound hold for the stated shape only; concrete runs are bounded stand-ins and not proofs"] + sorted(notes),
          "coverage": {"obligations": nobl, "discharged": ndis, "bounded_obligations": bounded_obl, "bounded_obligations_discharged": bounded_dis,
                       "counting": "obligations/discharged are those that hold for all inputs without a structural bound; bounded_* are solver-discharged for all values on the stated concrete shape and are not counted as proved", "distinct_obligation_names": len(obl_names),
                       "backends": backends, "verifier_seconds": round(stime, 2),
                       "checker_cmd": f"cd {HERE} && ./check {prop} --tier {tier}",
                       "trusted_base": ["dv/core.py, dv/tensor.py, dv/shims.py, dv/frames.py (symbolic executor and library contracts)", "z3, cvc5", "CPython"] + sorted(notes),
                       "functions_under_contract": {f: sorted(s) for f, s in sorted(funcs.items())},
                       "harnesses": {h.name: {"contract": h.doc, "bound": h.bound or "none", "paths": (reports.get(h.name, {}).get("symbolic") or {}).get("paths", 0),
                                              "obligations": len((reports.get(h.name, {}).get("symbolic") or {}).get("obls", [])), "concrete_trials": reports.get(h.name, {}).get("trials", 0),
                                              "covers": (reports.get(h.name, {}).get("symbolic") or {}).get("covers", []), "secs": reports.get(h.name, {}).get("secs")} for h in hs},
                       "undecided": undecided, "evaluations": trials, "distinct_nontrivial": nontriv, "contract_checks_evaluated": checks,
                       "rule": "concrete stand-in: inputs drawn from VERIF_SEED by each harness; counted as non-trivial when at least one contract clause was evaluated, distinct by input values",
                       "samples": [s for r in reports.values() for s in r.get("samples", [])][:6],
                       "known_findings_reproduced": [f["what"] for f, v in knownhit],
                       "explanation": "see DESIGN.md; deductive obligations plus labelled bounded stand-ins"}}
    if not partial: json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print(f"{prop}: {ndis}/{nobl} obligations discharged without bound, {bounded_dis}/{bounded_obl} within a stated shape, {trials} concrete trials, {checks} run-time contract checks, {len(undecided)} undecided, {wall:.1f}s")
    if verbose or os.environ.get("DV_V"):
        for u in undecided: print("   undecided:", u)
        for h in hs:
            r = reports.get(h.name)
            if r: print(f"   {h.name}: trials {r['trials']}/{r['nontrivial']} sym {None if not r['symbolic'] else (r['symbolic']['paths'], len(r['symbolic']['obls']), sum(o['status']!='proved' for o in r['symbolic']['obls']), r['symbolic']['secs'])} {r.get('secs')}s")
    if not unlisted and not partial and nobl + bounded_obl == 0 and checks == 0:
        print(f"{prop}: nothing was checked"); return 3
    return 1 if unlisted else 0
if __name__ == "__main__": sys.exit(main())
