"""worker.py PROP HARNESS TIER SEED OUT - runs one harness (symbolic, then concrete) and writes a JSON report."""
import sys, os, json, time, hashlib, importlib, math, traceback
def jsonable(x):
    import numpy as np
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray): return jsonable(x.tolist())
    if isinstance(x, (np.integer,)): return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x); return x if math.isfinite(x) else ("nan" if math.isnan(x) else ("inf" if x > 0 else "-inf"))
    if isinstance(x, (int, str, bool)) or x is None: return x
    return repr(x)
def seed_of(base, prop, name, k):
    return int.from_bytes(hashlib.sha256(f"{base}/{prop}/{name}/{k}".encode()).digest()[:6], "big")
def main():
    prop, name, tier, seed, out = sys.argv[1:6]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import dv
    from dv import harness as hz
    importlib.import_module("dv.props." + prop.lower())
    h = hz.REG[(prop, name)]
    r = {"harness": name, "fns": h.fns, "doc": h.doc, "bound": h.bound, "symbolic": None, "trials": 0, "nontrivial": 0, "checks": 0, "violations": [], "missing": None, "errors": [], "samples": []}
    t0 = time.time()
    def dump():
        r["secs"] = round(time.time() - t0, 2)
        tmp = out + ".tmp"
        json.dump(jsonable(r), open(tmp, "w")); os.replace(tmp, out)
    thorough = tier == "thorough"
    viols = {}
    distinct = set()
    def trial(k, over=None, tag=""):
        s = seed_of(seed, prop, name, k)
        q = hz.run_concrete(h, s, over)
        r["trials"] += 1
        if q[0] == "ok":
            r["checks"] += q[1]
            if q[1]:
                distinct.add(hashlib.md5(repr(jsonable(q[2])).encode()).hexdigest() + str(s if not q[2] else ""))
            if len(r["samples"]) < 2 and q[1]: r["samples"].append({"harness": name, "trial": k, "inputs": shorten(jsonable(q[2]))})
        elif q[0] == "missing": r["missing"] = q[1]
        elif q[0] == "error":
            if q[1] not in r["errors"]: r["errors"].append(q[1])
        elif q[0] == "viol":
            if q[1] not in viols:
                viols[q[1]] = {"name": q[1], "detail": q[2], "seed": s, "over": over, "inputs": jsonable(q[3]), "count": 1}
            else: viols[q[1]]["count"] += 1
        return q[0]
    budget = h.timeout * (3 if thorough else 1)
    if h.conc:
        n = h.deep if thorough else h.trials
        for k in range(n):
            if time.time() - t0 > budget * 0.5: r["errors"].append("concrete budget exhausted"); break
            trial(k)
            if r["missing"]: break
        r["violations"] = list(viols.values()); r["nontrivial"] = len(distinct)
        dump()
    if h.sym and not (h.conc and r["missing"]):
        try:
            sy = hz.run_symbolic(h, budget=budget * 0.45, obl_ms=30000 if thorough else 10000)
            r["symbolic"] = sy
            if sy["missing"]: r["missing"] = sy["missing"]
        except Exception as e:
            r["errors"].append("symbolic: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " " + "".join(traceback.format_tb(e.__traceback__)[-1:]))
        dump()
        # failed obligations: replay the solver's counterexample, then search
        bad = [o for o in (r["symbolic"] or {}).get("obls", []) if o["status"] == "refuted"]
        if bad and h.conc and not viols:
            t1 = time.time()
            for o in bad[:20]:
                if o.get("model"): trial("model", dict(o["model"]))
                if viols: break
            k = 0
            while not viols and time.time() - t1 < budget * 0.3 and k < 4 * h.deep:
                trial(10**6 + k); k += 1
    r["violations"] = list(viols.values()); r["nontrivial"] = len(distinct)
    dump()
def shorten(x, n=12):
    if isinstance(x, dict): return {k: shorten(v, n) for k, v in list(x.items())[:20]}
    if isinstance(x, list): return [shorten(v, n) for v in x[:n]] + (["..."] if len(x) > n else [])
    return x
if __name__ == "__main__": main()
