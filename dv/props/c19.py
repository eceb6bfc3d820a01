"""C19: parameters round-trip and refits do not depend on history."""
import ast, inspect, warnings, copy
import numpy as np
from ..harness import harness, Skip
from .. import calls as C
from .c16 import lib, run, tolerant_fn

CLASSES = [("estimators", "DifferenceInDifferences"), ("twfe", "TwoWayFixedEffects"), ("estimators", "MultiPeriodDiD"), ("synthetic_did", "SyntheticDiD"), ("staggered", "CallawaySantAnna"), ("sun_abraham", "SunAbraham"), ("triple_diff", "TripleDifference"), ("bacon", "BaconDecomposition"), ("trop", "TROP"), ("honest_did", "HonestDiD"), ("pretrends", "PreTrendsPower")]

@harness("C19", "history", [f"{m}.{c}.fit" for m, c in CLASSES], conc=False, timeout=150)
def _(g):
    """for every class with a fit method: fit reads no attribute left behind by earlier calls (each attribute a method writes is written before it is read), never changes a constructor parameter or an object held by one; query methods change nothing; no function keeps state in module globals or mutable default arguments."""
    from .. import history as H
    L = lib(g); g.c.notes.add("attributes reached through getattr/setattr with names computed at run time are not tracked")
    for (m, c) in sorted(L.classes):
        h = H.History(L, m, c)
        if h.find("fit")[0] is None or c.startswith("_"): continue
        init = h.find("__init__")[0]; params = set((init.params[1:] + init.kwonly) if init else []); meths = []
        for k in h.mro:
            for b in L.classes[k].body:
                if isinstance(b, ast.FunctionDef) and b.name not in meths: meths.append(b.name)
        written = {}             # by any call a user can make, whatever private helpers it goes through
        for b in meths:
            if b not in ("__init__", "set_params") and (not b.startswith("_") or b.startswith("__")):
                for a, w in h.eff(b).may.items(): written.setdefault(a, w)
        for b in meths:
            e = h.eff(b); f = h.find(b)[0]
            if f.static: continue
            heap = {r[2:] for r in (f.summ.get(None) or (set(), None))[0] if r.startswith("a:")}
            if b == "fit":
                for o in e.odd: g.c.notes.add("not tracked: " + o)
                for a in sorted(set(e.rbw)): g.ensure(f"{m}.{c}.fit: attribute {a} read from the instance is a parameter no call changes", a not in written, f"read at {e.rbw[a]}, written at {written.get(a)}")
                for p in sorted(params): g.ensure(f"{m}.{c}.fit leaves parameter {p} unchanged", p not in e.may and p not in heap, str(e.may.get(p)))
                for a in sorted(heap): g.ensure(f"{m}.{c}.fit changes no object held by attribute {a} before replacing it", a in e.must or a in written and a not in e.rbw)
            elif not b.startswith("_") and b != "set_params":
                g.ensure(f"{m}.{c}.{b} changes nothing", not e.may and not heap, f"{dict(e.may)} {sorted(heap)}")
    for (m, n), f in sorted(L.funcs.items()):
        w = set().union(*[x[0] for x in f.summ.values()]) if f.summ else set()
        g.ensure(f"{f.sig()} keeps no state in module globals or default arguments", not any(x.startswith(("g:", "d:")) for x in w), str(sorted(w)))
    g.cover()

BAD = dict(DifferenceInDifferences={}, TwoWayFixedEffects={}, MultiPeriodDiD={}, SyntheticDiD=dict(variance_method="other"), CallawaySantAnna=dict(control_group="other", estimation_method="other", bootstrap_weights="other", rank_deficient_action="other", base_period="other"), SunAbraham=dict(control_group="other", rank_deficient_action="other"), TripleDifference=dict(estimation_method="other", rank_deficient_action="other"), BaconDecomposition=dict(weights="other"), TROP=dict(method="other", variance_method="other"), HonestDiD=dict(method="other", alpha=1.5, M=-1.0), PreTrendsPower=dict(violation_type="other", alpha=0.0, power=1.0))
def sym_params(g, name, tag=""):
    """arbitrary valid constructor arguments (two settings of the discrete ones, every enumerated value in one of them)"""
    v = g.choice("variant" + tag, [0, 1, 2]); ch = lambda *o: o[v % len(o)]
    a = g.pyreal("alpha" + tag, 0, 1); act = ch("warn", "error", "silent"); z = g.pyreal("z" + tag); s = ch(None, 0, 7); nb = ch(0, 13)
    if name in ("DifferenceInDifferences", "TwoWayFixedEffects", "MultiPeriodDiD"): return dict(robust=ch(True, False), cluster=ch(None, "state"), alpha=a, inference=ch("analytical", "wild_bootstrap"), n_bootstrap=nb, bootstrap_weights=ch("webb", "mammen", "rademacher"), seed=s, rank_deficient_action=act)
    if name == "SyntheticDiD": return dict(lambda_reg=z, zeta=g.pyreal("zeta" + tag), alpha=a, variance_method=ch("bootstrap", "placebo"), n_bootstrap=nb, seed=s)
    if name == "CallawaySantAnna": return dict(control_group=ch("never_treated", "not_yet_treated"), anticipation=ch(0, 2), estimation_method=ch("dr", "ipw", "reg"), alpha=a, cluster=ch(None, "state"), n_bootstrap=nb, bootstrap_weights=ch("rademacher", "mammen", "webb"), seed=s, rank_deficient_action=act, base_period=ch("universal", "varying"))
    if name == "SunAbraham": return dict(control_group=ch("never_treated", "not_yet_treated"), anticipation=ch(0, 2), alpha=a, cluster=ch("state", None), n_bootstrap=nb, seed=s, rank_deficient_action=act)
    if name == "TripleDifference": return dict(estimation_method=ch("dr", "ipw", "reg"), robust=ch(True, False), cluster=ch("state", None), alpha=a, pscore_trim=z, rank_deficient_action=act)
    if name == "BaconDecomposition": return dict(weights=ch("approximate", "exact"))
    if name == "TROP": return dict(method=ch("twostep", "joint"), lambda_time_grid=[z, 1.0], lambda_unit_grid=[0.0], lambda_nn_grid=[2.0, z], max_iter=17, tol=g.pyreal("tol" + tag, 0), alpha=a, variance_method=ch("bootstrap", "jackknife"), n_bootstrap=41, max_loocv_samples=9, seed=s)
    if name == "HonestDiD": return dict(method=ch("smoothness", "relative_magnitude", "combined"), M=g.nonneg("M" + tag), alpha=a, l_vec=ch(None, np.array([.25, .75])))
    vt = ch("linear", "custom", "constant"); return dict(alpha=a, power=g.pyreal("power" + tag, 0, 1), violation_type=vt, violation_weights=np.array([1.0, 2.0]) if vt == "custom" else None)
def alike(g, nm, a, b):
    """two parameter values are the same"""
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)): g.ensure(nm, a is not None and b is not None and len(a) == len(b)); [alike(g, nm, x, y) for x, y in zip(a, b)]
    elif isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))): g.ensure(nm, type(a) == type(b) and a == b, f"{a!r} is not {b!r}")
    else: g.eq(nm, a, b, rtol=0, atol=0)
def same_state(g, nm, x, y):
    a, b = vars(x), vars(y); g.ensure(nm + " (attributes)", set(a) == set(b), str(set(a) ^ set(b)))
    for k in sorted(set(a) & set(b)): alike(g, f"{nm} {k}", a[k], b[k])
def reject(g, nm, o, f):
    before = dict(vars(o)); g.raises(nm, ValueError, f); after = vars(o); g.ensure(nm + ": nothing changed", set(before) == set(after) and all(before[k] is after[k] for k in before), str([k for k in before if before[k] is not after.get(k)]))

@harness("C19", "parameters", [f"{m}.{c}.{k}" for m, c in CLASSES for k in ("__init__", "get_params", "set_params")], trials=150, deep=1500, timeout=240)
def _(g):
    """for arbitrary parameter values of every estimator: get_params reports what was passed; a new instance built from it has the same state; set_params (one name, several names) leaves exactly the state of a fresh instance; unknown or invalid values raise ValueError and change nothing."""
    mod, nm = g.choice("class", CLASSES); K = g.fn(mod, nm); p = sym_params(g, nm); o = K(**p); q = o.get_params()
    for k, v in p.items(): g.ensure(f"{k} reported", k in q); alike(g, f"{k} reported as passed", q[k], v)
    names = [k for k in inspect.signature(K.__init__).parameters if k != "self"]; g.ensure("every constructor argument is reported", set(names) <= set(q), str(set(names) - set(q))); g.ensure("nothing else is reported", set(q) <= set(names), str(set(q) - set(names)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); same_state(g, "clone", K(**q), o)
        q2 = sym_params(g, nm, "2"); each = g.choice("one by one", [False, True]); a = K(**p)
        if nm == "PreTrendsPower" and each: each = False
        if each:
            for k, v in q2.items(): a.set_params(**{k: v})
        else: g.ensure("returns the estimator", a.set_params(**q2) is a)
        same_state(g, "set_params", a, K(**q2)); d = K(**{**q, list(q2)[0]: list(q2.values())[0]}) if nm != "PreTrendsPower" else None
        if d is not None: b = K(**p); b.set_params(**{list(q2)[0]: list(q2.values())[0]}); same_state(g, "set one parameter", b, d)
        for bad in ("no_such_parameter", "fit", "results_", "is_fitted_", "get_params"): reject(g, f"unknown name {bad}", o, lambda: o.set_params(**{list(q2)[0]: list(q2.values())[0], bad: 1}))
        for k, v in BAD[nm].items(): reject(g, f"invalid {k}", o, lambda: o.set_params(**{k: v})); g.raises(f"invalid {k} in the constructor", ValueError, lambda: K(**{k: v}))
    g.cover()

def simple(x):
    """result of a call without the caller's own table"""
    return C.snap(x)
@harness("C19", "refit", [f"{m}.{c}.fit" for m, c in CLASSES[:8]], sym=False, trials=90, deep=1200, timeout=250)
def _(g):
    """random sequences of fits, failing fits, parameter changes and queries on one instance: each fit gives exactly the result of a fresh instance with the current parameters."""
    r = g.rng; nm = g.choice("estimator", C.ESTIMATORS[:-1]); K = g.fn(C.MODULE[nm], nm); F = tolerant_fn(g); p = C.params(r, nm); e = K(**p); log = []; last = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for step in range(int(r.integers(2, 5))):
            kind = C.opt(r, "fit", "fit", "set", "broken")
            if kind == "set":
                n = C.params(r, nm); ks = [k for k in n if r.random() < .6]; e.set_params(**{k: n[k] for k in ks}); p = {**p, **{k: n[k] for k in ks}}; log.append(("set", ks))
                if p.get("inference") == "wild_bootstrap" and not p.get("cluster"): e.set_params(cluster="unit"); p["cluster"] = "unit"
            elif kind == "broken":
                a = C.fit_args(r, nm, p); a["outcome"] = "no_such_column"; a.pop("formula", None); log.append("broken"); run(C.Call(nm, lambda: e.fit(**a), {}), {})
            else:
                a = C.fit_args(r, nm, p); log.append("fit")
                if last is not None and r.random() < .4: a = {**last, "data": last["data"].assign(y=lambda d: d.y + r.normal(size=len(d)))}; log.append("same design, other outcome")
                last = a
                if p.get("inference") == "wild_bootstrap": a["data"] = a["data"].reset_index(drop=True)
                x = run(C.Call(nm, lambda: e.fit(**a), {}), {}); y = run(C.Call(nm, lambda: K(**p).fit(**a), {}), {}); s, t = C.snap(x), C.snap(y); g.ensure(f"{nm}: same as a fresh instance", s == t, f"{log} {C.diff(s, t)}")
                if not isinstance(x, tuple): g.ensure(f"{nm}: stored result is the returned one", getattr(e, "results_", x) is x); 
                if hasattr(e, "summary") and not isinstance(x, tuple): e.summary()
            s, t = C.snap(e.get_params()), C.snap(K(**p).get_params()); g.ensure(f"{nm}: reported parameters", s == t, C.diff(s, t))
    g.log["history"] = repr(log); g.cover()

@harness("C19", "refit_trop", ["trop.TROP.fit"], sym=False, trials=4, deep=40, timeout=250)
def _(g):
    """the same for two fits of TROP (slow): another panel, or the same panel with another outcome; other parameters, or the same method again."""
    r = g.rng; K = g.fn("trop", "TROP"); p = C.params(r, "TROP"); n = C.params(r, "TROP"); kind = g.choice("second fit", ["other outcome", "other panel"])
    if kind == "other outcome": n["method"] = p["method"] = g.choice("method", ["twostep", "joint"]); p["lambda_unit_grid"] = n["lambda_unit_grid"] = [.6]; n["lambda_time_grid"] = [.4]
    e = K(**p)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); a = C.fit_args(r, "TROP", p); b = C.fit_args(r, "TROP", p)
        if kind == "other panel": b["data"] = b["data"][b["data"].unit < 5]
        else:
            hole = lambda d: d.assign(y=lambda d: np.where((r.random(len(d)) < .15) & (d.D == 0), np.nan, d.y + 2 * r.normal(size=len(d)))); b = {**a, "data": hole(a["data"])}; a = {**a, "data": hole(a["data"])}
        run(C.Call("", lambda: e.fit(**a), {}), {}); e.set_params(**n); x = run(C.Call("", lambda: e.fit(**b), {}), {}); y = run(C.Call("", lambda: K(**n).fit(**b), {}), {}); s, t = C.snap(x), C.snap(y); g.ensure("TROP: same as a fresh instance", s == t, C.diff(s, t))
    g.cover()

@harness("C19", "linear_regression", ["linalg.LinearRegression.fit"], sym=False, trials=40, deep=600)
def _(g):
    """the regression helper and the sensitivity tools: reuse equals a fresh instance; queries do not change the object."""
    r = g.rng; K = g.fn("linalg", "LinearRegression"); kw = dict(robust=bool(r.integers(2)), alpha=.1, include_intercept=bool(r.integers(2)), rank_deficient_action="silent"); e = K(**kw)
    for _ in range(3):
        n = int(r.integers(8, 15)); X = r.normal(size=(n, 3)); y = r.normal(size=n); cl = C.opt(r, None, np.arange(n) % 4)
        if r.random() < .4: X = np.column_stack([X, X[:, 0] + X[:, 1]])
        q = lambda m: C.snap([m.coefficients_, m.vcov_, m.predict(X), m.residuals_, m.r_squared(), [i.to_dict() for i in m.get_all_inference()]])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore"); e.fit(X, y, cluster_ids=cl) if "cluster_ids" in inspect.signature(e.fit).parameters else e.fit(X, y); f = K(**kw); f.fit(X, y, cluster_ids=cl) if "cluster_ids" in inspect.signature(f.fit).parameters else f.fit(X, y); s = C.snap(e); a, b = q(e), q(f); g.ensure("same as a fresh instance", a == b, C.diff(a, b)); g.ensure("queries change nothing", s == C.snap(e), C.diff(s, C.snap(e))); g.ensure("queries repeat", q(e) == a)
    g.cover()

@harness("C19", "sensitivity_tools", ["honest_did.HonestDiD.fit", "pretrends.PreTrendsPower.fit"], sym=False, trials=25, deep=300)
def _(g):
    """HonestDiD and PreTrendsPower: any sequence of fits, curves and parameter changes gives the results of fresh instances."""
    r = g.rng; F = tolerant_fn(g); nm = C.opt(r, "HonestDiD", "PreTrendsPower"); kd = 0 if nm == "HonestDiD" else 1 + int(r.integers(2)); a, b = C.did_results(r, F, kd), C.did_results(r, F, kd); K = g.fn(C.MODULE[nm], nm)
    P = (lambda: dict(method=C.opt(r, "relative_magnitude", "smoothness", "combined"), M=float(C.opt(r, 0., .5, 2.)), alpha=float(C.opt(r, .05, .1)), l_vec=C.opt(r, None, np.array([.3, .7])))) if nm == "HonestDiD" else (lambda: dict(alpha=float(C.opt(r, .05, .1)), power=float(C.opt(r, .5, .8)), violation_type=C.opt(r, "linear", "constant", "custom"), violation_weights=C.opt(r, *[f([1., 2., 1., .5, 3.][:n]) for n in (1, 2, 3, 4, 5) for f in (list, np.array)])))
    use = (lambda o, x: [o.fit(x), o.sensitivity_analysis(x, M_grid=[0., 1.]), o.fit(x, M=.7)]) if nm == "HonestDiD" else (lambda o, x: [o.fit(x), o.power_curve(x, M_grid=[0., 1.]), o.fit(x, M=.7), o.power_at(x, .3)])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); p = P(); e = K(**p); run(C.Call("", lambda: use(e, a), {}), {}); n = P(); e.set_params(**n); s, t = C.snap(run(C.Call("", lambda: use(e, b), {}), {})), C.snap(run(C.Call("", lambda: use(K(**n), b), {}), {})); g.ensure(f"{nm}: same as a fresh instance", s == t, C.diff(s, t)); s, t = C.snap(e.get_params()), C.snap(K(**n).get_params()); g.ensure(f"{nm}: parameters", s == t, C.diff(s, t))
    g.cover()
