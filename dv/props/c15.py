"""C15: power of pre-trends tests."""
import math
from types import SimpleNamespace as NS
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D

def sf(g, x, n, nc): return 1 - g.dist("ncx2", "cdf", x, n, nc)
def ncfact(g, x, n, a, b):
    """assumed facts about the noncentral chi-squared law: its upper tail grows with the noncentrality, from that of the chi-squared law"""
    if not g.symbolic: return
    g.c.notes.add("noncentral chi-squared law: the upper tail at a positive point increases strictly with the noncentrality, from the chi-squared tail at zero")
    g.assume(g.implies(g.and_(x > 0, a >= 0, a <= b), sf(g, x, n, a) <= sf(g, x, n, b))); g.assume(g.implies(g.and_(x > 0, a >= 0, a < b), sf(g, x, n, a) < sf(g, x, n, b)))
    for nc in (a, b): g.assume(g.implies(g.and_(x > 0, nc > 0), sf(g, x, n, nc) > 1 - g.dist("chi2", "cdf", x, n)))
def design(g):
    n = g.axis("pre", 1, 6); a = g.pyreal("alpha", 0, 1); w = g.vec("w", n); k = n.sint() if g.symbolic else n.n
    if g.symbolic: V = g.mat("V", n, n)
    else: A = g.rng.normal(size=(k, k)); V = A @ A.T + .1 * np.eye(k)
    q = w @ g.inv(V) @ w; g.assume(q >= 0)
    return n, k, a, w, V, q
def near(g, nm, a, b, sc=1.0):
    """equality of quantities built from floating-point constants of the code (normalised shapes), which are exact only up to rounding"""
    if not g.symbolic: g.eq(nm, a, b, rtol=1e-7, atol=1e-10 * sc)
    elif isinstance(a, (int, float)) and isinstance(b, (int, float)): g.ensure(nm, abs(a - b) <= 1e-9)
    else: g.ensure(nm, g.and_(a - b <= 1e-9, b - a <= 1e-9))
def pt(g, **kw): return g.fn("pretrends", "PreTrendsPower")(**kw)

@harness("C15", "power", ["pretrends.PreTrendsPower._compute_power"], timeout=200)
def _(g):
    """for any number of pre-periods, covariance, shape and level: noncentrality = M^2 w'V^-1 w, power = upper tail of the noncentral chi-squared law beyond the test's critical value; equals the level at zero, lies between level and one, does not decrease with |M|."""
    n, k, a, w, V, q = design(g); M = g.real("M"); M2 = g.real("M2"); g.assume(g.abs(M) <= g.abs(M2)); o = pt(g, alpha=a); p, nc, ts, cv = g.internal(lambda: o._compute_power(M, w, V)); p2, nc2, _, _ = o._compute_power(M2, w, V)
    g.eq("noncentrality", nc, M * M * q, rtol=1e-6); c = g.dist("chi2", "ppf", 1 - a, k); g.eq("critical value", cv, c); g.eq("expected statistic", ts, k + nc)
    ncfact(g, c, k, nc, nc2); x = sf(g, c, k, nc) if bool(nc > 0) else a; g.eq("power", p, x, rtol=1e-6, atol=1e-9)
    if bool(M == 0): g.eq("level at zero", p, a, rtol=1e-9)
    g.le("at least the level", a, p, tol=1e-9); g.le("at most one", p, 1.0); g.lemma("noncentrality grows", nc <= nc2 * (1 if g.symbolic else 1 + 1e-12) + (0 if g.symbolic else 1e-12)); g.le("does not decrease with the magnitude", p, p2); g.cover()

@harness("C15", "mdv", ["pretrends.PreTrendsPower._compute_mdv", "pretrends.PreTrendsPower._compute_power"], timeout=300, trials=60, deep=600)
def _(g):
    """for any number of pre-periods, covariance, shape, level and target: power at the minimum detectable violation is exactly the target; zero when the level already reaches it; root finding enters by its contract."""
    n, k, a, w, V, q = design(g); t = g.pyreal("target", 0, 1); o = pt(g, alpha=a, power=t); g.assume(q > (0 if g.symbolic else 1e-8))
    if g.symbolic:
        def brentq(f, lo, hi, *x, **kw):
            fl, fh = f(lo), f(hi)
            if bool(fl * fh > 0): raise ValueError("f(a) and f(b) must have different signs")
            r = g.real("root"); g.assume(g.and_(r >= lo, r <= hi)); g.assume(f(r) == 0); return r
        from ..shims import lib_hook
        lib_hook("scipy.optimize.brentq", brentq)
    m = g.internal(lambda: o._compute_mdv(w, V)); c = g.dist("chi2", "ppf", 1 - a, k)
    if bool(t <= a): g.eq("zero when the level reaches the target", m, 0.0); g.cover(); return
    if isinstance(m, float) and math.isinf(m): ncfact(g, c, k, 1e8, 2.0 ** 27); g.ensure("only when no noncentrality up to 1e8 is enough", sf(g, c, k, 1e8) < t); return
    p, nc, _, _ = o._compute_power(m, w, V); ncfact(g, c, k, g.max(nc, 0.0), g.max(nc, 0.0)); g.le("not negative", 0.0, m); g.eq("power at the detectable violation is the target", p, t, rtol=1e-6, atol=1e-7); g.cover()

@harness("C15", "shapes", ["pretrends.PreTrendsPower._get_violation_weights"], bound="up to six pre-periods; custom weights arbitrary")
def _(g):
    """unit norm and the documented direction; custom weights of the wrong length are rejected."""
    n = g.choice("pre", [1, 2, 3, 4, 6]); kind = g.choice("type", ["linear", "constant", "last_period", "custom"]); c = g.reals("c", n) if kind == "custom" else None
    if kind == "custom": g.assume(sum(x * x for x in c) > 0)
    o = pt(g, violation_type=kind, violation_weights=c); w = g.internal(lambda: o._get_violation_weights(n)); g.ensure("one per period", len(w) == n); w = list(w); (g.eq if kind == "custom" else lambda *x: near(g, *x))("unit norm", sum(x * x for x in w), 1.0)
    d = {"linear": [float(n - 1 - i) for i in range(n)] if n > 1 else [1.0], "constant": [1.0] * n, "last_period": [0.0] * (n - 1) + [1.0], "custom": c}[kind]
    for i in range(n):
        for j in range(i): (g.eq if kind == "custom" else lambda *x: near(g, *x))("direction", w[i] * d[j], w[j] * d[i])
    g.le("orientation", 0.0, sum(x * y for x, y in zip(w, d)))
    if kind == "custom": g.raises("length", ValueError, lambda: o._get_violation_weights(n + 1)); g.eq("caller's weights untouched", o.violation_weights, c)
    g.cover()

def results(g):
    """-> (result object, pre effects, their standard errors, covariance, pre periods in use, extra fit arguments)"""
    kind = g.choice("kind", ["callaway", "sunab", "all periods estimated", "no covariance", "no coefficients", "default periods"]); k = g.choice("pre", [1, 2, 3]); e = g.reals("e", k); s = [g.real(f"s{i}", 0) for i in range(k)]
    diag = np.empty((k, k), dtype=object if g.symbolic else float); diag[:] = 0.0
    for i in range(k): diag[i, i] = s[i] * s[i]
    row = lambda x, y, n=1: dict(effect=x, se=y, n_groups=n, t_stat=0.0, p_value=1.0, conf_int=(0., 0.))
    if kind in ("callaway", "sunab"):
        ev = {-2 - i: row(e[k - 1 - i], s[k - 1 - i]) for i in range(k)}; ev[-1] = row(0.0, math.nan if kind == "callaway" else 0.0, 0); ev[0] = row(g.real("post"), 1.0); ev[-9] = row(1.0, math.nan)
        com = dict(overall_att=0.0, overall_se=1.0, overall_t_stat=0.0, overall_p_value=1.0, overall_conf_int=(0., 0.), groups=[], time_periods=[], n_obs=0, n_treated_units=0, n_control_units=0)
        f = (lambda: g.fn("staggered_results", "CallawaySantAnnaResults")(group_time_effects={}, event_study_effects=ev, **com)) if kind == "callaway" else (lambda: g.fn("sun_abraham", "SunAbrahamResults")(event_study_effects=ev, cohort_weights={}, **com))
        return g.internal(f), e, s, diag, {}
    R, P = g.fn("results", "MultiPeriodDiDResults"), g.fn("results", "PeriodEffect"); tr = g.choice("treatment name", ["treated", "D"]); pre = [10 + i for i in range(k)]; ref = 10 + k; post = [20, 21]; al = pre + [ref] + post
    pe = {t: P(period=t, effect=x, se=y, t_stat=0.0, p_value=1.0, conf_int=(0., 0.)) for t, x, y in zip(pre, e, s)}; pe.update({t: P(period=t, effect=g.real(f"p{t}"), se=1.0, t_stat=0.0, p_value=1.0, conf_int=(0., 0.)) for t in post})
    names = ["const", tr] + [f"period_{t}" for t in al if t != ref] + [f"{tr}:period_{t}" for t in pre + post]; coef = {nm: g.real("c" + nm) for nm in names}; coef.update({f"{tr}:period_{t}": pe[t].effect for t in pre + post})
    m = len(names); full = np.array([[g.real(f"V{max(i, j)}_{min(i, j)}") for j in range(m)] for i in range(m)], dtype=object if g.symbolic else float)
    ix = [names.index(f"{tr}:period_{t}") for t in pre]; com = dict(avg_att=0.0, avg_se=1.0, avg_t_stat=0.0, avg_p_value=1.0, avg_conf_int=(0., 0.), n_obs=1, n_treated=1, n_control=1)
    mk = lambda **kw: g.internal(lambda: R(period_effects=pe, **com, **kw))
    if kind == "all periods estimated": return mk(pre_periods=[ref], post_periods=pre + post, coefficients=coef, vcov=full), e, s, full[np.ix_(ix, ix)], dict(pre_periods=pre + [ref])
    if kind == "default periods": return mk(pre_periods=pre + [ref], post_periods=post, coefficients=coef, vcov=full), e, s, full[np.ix_(ix, ix)], {}
    if kind == "no covariance": return mk(pre_periods=pre + [ref], post_periods=post, coefficients=coef, vcov=None), e, s, diag, {}
    return mk(pre_periods=pre + [ref], post_periods=post, coefficients=None, vcov=None), e, s, diag, {}

@harness("C15", "fit", ["pretrends.PreTrendsPower.fit", "pretrends.PreTrendsPower._extract_pre_period_params", "pretrends.PreTrendsPower.power_curve", "pretrends.PreTrendsPower.power_at", "pretrends.compute_mdv", "pretrends.compute_pretrends_power"], bound="one to three pre-periods, six kinds of results; effects, errors and covariances arbitrary", trials=100, deep=600, timeout=250)
def _(g):
    """power, curve and detectable violation are computed from the estimated pre-period coefficients (reference period excluded) and their own covariance block, in period order; fields and wrappers report those numbers; no magnitude means the detectable one."""
    obj, e, s, V, kw = results(g); k = len(e); a = g.pyreal("alpha", 0, 1); t = g.pyreal("target", 0, 1); vt = g.choice("type", ["linear", "constant", "last_period"]); calls = []; md = g.real("mdv", 0)
    def power(self, M, w, C): calls.append((M, w, C, self.alpha)); return (M * 3 + 1, M * 5, M * 7, 4.5)
    def mdv(self, w, C): calls.append((None, w, C, self.alpha, self.target_power)); return md
    g.stub("pretrends", "PreTrendsPower._compute_power", power); g.stub("pretrends", "PreTrendsPower._compute_mdv", mdv); o = pt(g, alpha=a, power=t, violation_type=vt); M = g.choice("given", [0, 1]) and g.nonneg("M") or None
    r = o.fit(obj, M=M, **kw); m = md if M is None else M; W = o._get_violation_weights(k)
    g.ensure("periods", r.n_pre_periods == k and len(r.pre_period_effects) == k); g.eq("effects", r.pre_period_effects, e); g.eq("standard errors", r.pre_period_ses, s); g.eq("covariance", r.vcov, V)
    for c in calls: g.eq("shape handed on", c[1], W); g.eq("covariance handed on", c[2], V); g.eq("level", c[3], a)
    g.eq("fields", [r.power, r.noncentrality, r.test_statistic, r.critical_value, r.mdv, r.violation_magnitude, r.alpha, r.target_power], [m * 3 + 1, m * 5, m * 7, 4.5, md, m, a, t]); g.ensure("type", r.violation_type == vt)
    grid = [0.0, .5, g.nonneg("M1")]; c = o.power_curve(obj, M_grid=grid, **kw); g.eq("curve", c.powers, [x * 3 + 1 for x in grid]); g.eq("grid", c.M_values, grid); g.eq("curve settings", [c.mdv, c.alpha, c.target_power], [md, a, t]); g.eq("power_at", o.power_at(obj, grid[2], **kw), grid[2] * 3 + 1)
    f = g.fn("pretrends", "compute_mdv"); g.eq("compute_mdv", f(obj, alpha=a, target_power=t, violation_type=vt, **kw), md); z = g.fn("pretrends", "compute_pretrends_power")(obj, M=m, alpha=a, target_power=t, violation_type=vt, **kw); g.eq("compute_pretrends_power", [z.power, z.mdv, z.alpha, z.target_power], [m * 3 + 1, md, a, t])
    for x in calls[-4:]: g.eq("wrappers use the same level", x[3], a)
    g.cover()

@harness("C15", "stored_power", ["pretrends.PreTrendsPowerResults.power_at"], bound="up to three pre-periods (symbolic runs: diagonal covariance, shapes whose normalisation is exact); magnitude, level and shape arbitrary", trials=60)
def _(g):
    """power_at of the result equals the power of a separate fit at that magnitude, custom shapes included; at zero it is the level."""
    k = g.choice("pre", [1, 2, 3]); vt = g.choice("type", ["linear", "constant", "last_period", "custom"]); c = g.reals("c", k) if vt == "custom" else None; a = g.pyreal("alpha", 0, 1)
    if c is not None: g.assume(sum(x * x for x in c) > 0)
    V = np.empty((k, k), dtype=object if g.symbolic else float); V[:] = 0.0
    for i in range(k): V[i, i] = g.real(f"v{i}", 0)
    if not g.symbolic: A = g.rng.normal(size=(k, k)); V = V + A @ A.T * .3
    o = pt(g, alpha=a, violation_type=vt, violation_weights=c); g.stub("pretrends", "PreTrendsPower._extract_pre_period_params", lambda self, obj, pp=None: (np.zeros(k), np.ones(k), V, k)); g.stub("pretrends", "PreTrendsPower._compute_mdv", lambda self, *x: 1.0); M = g.nonneg("M")
    r = o.fit(None, M=1.0)
    if not g.symbolic or vt in ("last_period", "custom") or k == 1: g.eq("same as a separate fit", r.power_at(M), o.fit(None, M=M).power, rtol=1e-6, atol=1e-8)
    if vt != "custom" and (not g.symbolic or vt == "last_period" or k == 1):
        import dataclasses
        g.eq("same without stored weights", g.internal(lambda: dataclasses.replace(r, violation_weights=None)).power_at(M), r.power_at(M), rtol=1e-6, atol=1e-8)
    g.eq("level at zero", r.power_at(0.0), a, rtol=1e-7); g.cover()

@harness("C15", "end_to_end", ["pretrends.PreTrendsPower.fit", "pretrends.PreTrendsPower.power_curve", "pretrends.PreTrendsPower.sensitivity_to_honest_did"], sym=False, trials=40, deep=500)
def _(g):
    """real estimator results: independent Wald-test power, target attained at the detectable violation, monotone curve from the level, curve equal to separate fits."""
    import scipy.stats as st
    r = g.rng; kind = int(r.integers(3)); kw = {}
    if kind == 0:
        df = D.did_panel(r, n_units=int(r.integers(8, 16)), n_pre=int(r.integers(2, 5)), n_post=2, noise=1.0).rename(columns={"treated": str(r.choice(["treated", "D"]))}); tr = [c for c in df if c in ("treated", "D")][0]; pre = sorted(df.time[df.post == 0].unique()); ref = pre[-1]; res = g.fn("estimators", "MultiPeriodDiD")().fit(df, "y", tr, "time", post_periods=[t for t in sorted(df.time.unique()) if t != ref], reference_period=ref); kw = dict(pre_periods=pre); k = len(pre) - 1
        names = list(res.coefficients); ix = [names.index(f"{tr}:period_{p}") for p in pre if p != ref]; V = res.vcov[np.ix_(ix, ix)]
    else:
        df = D.staggered(r, cohorts=((0, 6), (4, 4), (6, 4)), T=7, noise=1.0); res = g.fn("staggered", "CallawaySantAnna")().fit(df, "y", "unit", "time", "first_treat", aggregate="event_study") if kind == 1 else g.fn("sun_abraham", "SunAbraham")().fit(df, "y", "unit", "time", "first_treat"); ev = {e: x for e, x in sorted(res.event_study_effects.items()) if e < 0 and x.get("n_groups", 1) > 0 and np.isfinite(x["se"])}; V = np.diag([x["se"] ** 2 for x in ev.values()]); k = len(ev)
    g.assume(np.linalg.cond(V) < 1e8); al = float(r.choice([.05, .1, .01])); tp = float(r.choice([.5, .8, .95])); vt = str(r.choice(["linear", "constant", "last_period", "custom"])); cw = r.normal(size=k) if vt == "custom" else None; o = g.fn("pretrends", "PreTrendsPower")(alpha=al, power=tp, violation_type=vt, violation_weights=cw)
    w = {"linear": np.arange(k - 1, -1, -1.) if k > 1 else np.ones(1), "constant": np.ones(k), "last_period": np.eye(k)[-1], "custom": cw}[vt]; w = w / np.linalg.norm(w); q = w @ np.linalg.solve(V, w); cv = st.chi2.ppf(1 - al, k); want = lambda M: float(st.ncx2.sf(cv, k, M * M * q)) if M else al
    p = o.fit(res, **kw); g.ensure("pre-periods", p.n_pre_periods == k); g.eq("detectable violation has target power", want(p.mdv), tp, rtol=1e-5); g.eq("default magnitude", p.power, tp, rtol=1e-5)
    grid = sorted(float(x) for x in r.uniform(0, 3, 4) * p.mdv); c = o.power_curve(res, M_grid=[0.0] + grid, **kw); g.eq("curve", c.powers, [al] + [want(M) for M in grid], rtol=1e-5, atol=1e-8); g.ensure("monotone", bool((np.diff(c.powers) >= -1e-9).all()))
    for M, y in zip(grid, c.powers[1:]): g.eq("separate fit", o.fit(res, M=M, **kw).power, y); g.eq("power_at", o.power_at(res, M, **kw), y); g.eq("stored", p.power_at(M), y, rtol=1e-6, atol=1e-8)
    d = o.power_curve(res, n_points=7, **kw); g.ensure("grid", len(d.M_values) == 7 and d.M_values[0] == 0); g.eq("default grid", d.powers, [want(M) for M in d.M_values], rtol=1e-5, atol=1e-8); s = o.sensitivity_to_honest_did(res, **kw); g.eq("documented grid", d.M_values, np.linspace(0, min(2.5 * p.mdv, 100), 7)); g.eq("summary numbers", [s["mdv"], s["max_pre_se"], s["mdv_in_ses"]], [p.mdv, max(p.pre_period_ses), p.mdv / max(p.pre_period_ses)]); g.cover()

@harness("C15", "rejects", ["pretrends.PreTrendsPower.__init__"])
def _(g):
    """levels and targets outside (0,1), unknown shapes and custom shapes without weights are rejected."""
    P = g.fn("pretrends", "PreTrendsPower"); x = g.real("x"); bad = bool(x <= 0) or bool(x >= 1)
    for k in ("alpha", "power"):
        if bad: g.raises(k, ValueError, lambda k=k: P(**{k: x}))
        else: P(**{k: x})
    g.raises("shape", ValueError, lambda: P(violation_type="other")); g.raises("custom", ValueError, lambda: P(violation_type="custom")); g.raises("results type", TypeError, lambda: P().fit(object())); g.cover()
