"""C09: the interaction-weighted event study averages cohort effects by cohort share."""
import warnings, math
from types import SimpleNamespace as NS
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D, oracle as O
from .c04 import ols_contract

# cohort -> units; which (cohort, event time) effects were estimated
STRUCT = {
    "two cohorts": dict(cohort={1: 3, 2: 3, 3: 4, 4: 0, 5: 0}, T=[1, 2, 3, 4], cells=[(3, -2), (3, 0), (3, 1), (4, -3), (4, -2), (4, 0)]),
    "holes, inf, unequal sizes": dict(cohort={"a": 5, "b": 5, "c": 5, "d": 7, "e": math.inf, "f": 9, "h": 9, "i": math.inf}, T=[4, 5, 6, 7, 8, 9], cells=[(5, 0), (5, 2), (7, 0), (7, 1), (7, -3), (9, 0)]),
    "one cohort": dict(cohort={7: 2, 8: 2, 9: 0}, T=[1, 2, 3], cells=[(2, 0), (2, 1)]),
    "missing rows": dict(cohort={1: 3, 2: 3, 3: 3, 4: 4, 5: 4, 6: 0}, T=[1, 2, 3, 4, 5], cells=[(3, -2), (3, 0), (3, 1), (4, -2), (4, 0), (4, 1)], drop={(1, 5), (2, 5), (2, 4), (4, 1)}),
}
def table(s, y=None, order=None):
    rows = [(u, t, s["cohort"][u]) for u in s["cohort"] for t in s["T"] if (u, t) not in s.get("drop", ())]
    df = pd.DataFrame(rows, columns=["id", "t", "g"]); df["g"] = df["g"].astype(float); 
    df["_rel_time"] = np.where(df["g"] > 0, df["t"] - df["g"], np.nan); df["_never_treated"] = (df.g == 0) | np.isinf(df.g)
    if y is not None: df["y"] = y
    return df
def draw(g, s):
    k = s["cells"]; n = len(k); eff = {c: g.real(f"e{c}") for c in k}
    V = np.empty((n, n), dtype=object) if g.symbolic else np.zeros((n, n))
    if g.symbolic:
        for i in range(n):
            for j in range(i + 1): V[i, j] = V[j, i] = g.real(f"V{i},{j}")
    else: A = g.rng.normal(size=(n, n)) * 10 ** g.rng.uniform(-2, 1); V = A @ A.T
    return eff, V, {c: i for i, c in enumerate(k)}
def size(s, c): return sum(1 for u in s["cohort"] if s["cohort"][u] == c)
def quad(w, ix, V): return sum(a * b * V[i, j] for a, i in zip(w, ix) for b, j in zip(w, ix))
def stubs(g):
    if g.symbolic:
        g.stub("utils", "compute_p_value", lambda t, *a, **k: ("p", t)); g.stub("utils", "compute_confidence_interval", lambda e, se, alpha, *a, **k: ("ci", e, se, alpha))

@harness("C09", "interaction_weights", ["sun_abraham.SunAbraham._compute_iw_effects"], bound="four fixed structures of cohorts and event times; cohort effects and covariance arbitrary", trials=80, deep=600, timeout=200)
def _(g):
    """event-time effect = sum over the cohorts with an effect there of size share times effect; se^2 = share' V share of the same coefficients; n_groups counts them; t, p, interval follow; shares are reported."""
    name = g.choice("structure", list(STRUCT)); s = STRUCT[name]; df = table(s); eff, V, ix = draw(g, s); est = g.fn("sun_abraham", "SunAbraham")(alpha=.1); stubs(g)
    co = sorted({c for c in s["cohort"].values() if 0 < c < math.inf}); rel = sorted({e for c, e in s["cells"]}); free = g.choice("generic row", rel)
    rows = {}
    for e in rel:
        cs = [c for c in co if (c, e) in eff]; N = sum(size(s, c) for c in cs); w = [size(s, c) / N for c in cs]; q = quad(w, [ix[c, e] for c in cs], V); rows[e] = (cs, w, q)
        if e != free: g.assume(q > 0)
    ev, cw = g.internal(lambda: est._compute_iw_effects(df, "id", "g", co, rel + [17], eff, {c: 1.0 for c in eff}, V, ix))
    g.ensure("one row per event time with an effect", set(ev) == set(rel) and set(cw) == set(rel))
    for e in rel:
        cs, w, q = rows[e]; o = ev[e]
        g.ensure("the cohorts with an effect", set(cw[e]) == set(cs) and o["n_groups"] == len(cs))
        for c, x in zip(cs, w): g.eq("share", cw[e][c], x)
        g.eq("event-time effect", o["effect"], sum(x * eff[c, e] for x, c in zip(w, cs)))
        g.eq("event-time variance", o["se"] * o["se"], g.max(q, 0.0), rtol=1e-6); g.le("se is non-negative", 0.0, o["se"])
        if g.symbolic:
            g.ensure("interval and p-value are those of the row", o["conf_int"][1] is o["effect"] and o["conf_int"][2] is o["se"] and o["conf_int"][3] == .1 and o["p_value"][1] is o["t_stat"])
            g.ensure("t statistic", g.and_(g.implies(o["se"] > 0, g.same(o["t_stat"] * o["se"], o["effect"])), g.implies(g.not_(o["se"] > 0), g.isnan(o["t_stat"]))))
        elif o["se"] > 1e-8:
            t, p, ci = O.inference(o["effect"], o["se"], None, .1); g.eq("t, p, interval", [o["t_stat"], o["p_value"], *o["conf_int"]], [t, p, *ci])
    g.cover()

@harness("C09", "overall", ["sun_abraham.SunAbraham._compute_overall_att"], bound="four fixed structures of cohorts and event times; effects and covariance arbitrary", trials=80, deep=600)
def _(g):
    """overall effect = average of the event-time effects from treatment on, weighted by the treated observations behind them; variance = quadratic form of the combined weights."""
    s = STRUCT[g.choice("structure", list(STRUCT))]; df = table(s); eff, V, ix = draw(g, s); est = g.fn("sun_abraham", "SunAbraham")()
    co = sorted({c for c in s["cohort"].values() if 0 < c < math.inf}); rel = sorted({e for c, e in s["cells"]}); cw = {}; ev = {}
    for e in rel:
        cs = [c for c in co if (c, e) in eff]; N = sum(size(s, c) for c in cs); cw[e] = {c: size(s, c) / N for c in cs}; ev[e] = dict(effect=sum(cw[e][c] * eff[c, e] for c in cs), se=g.real(f"se{e}", lo=0))
    att, se = g.internal(lambda: est._compute_overall_att(df, "g", ev, eff, cw, V, ix))
    post = [e for e in rel if e >= 0]; n = {e: int((((df.t - df.g) == e) & (df.g > 0)).sum()) for e in post}; tot = sum(n.values())
    g.eq("overall effect", att, sum(n[e] / tot * ev[e]["effect"] for e in post))
    keys = [(c, e) for e in post for c in cw[e]]; w = [n[e] / tot * cw[e][c] for c, e in keys]
    q = quad(w, [ix[k] for k in keys], V); g.eq("overall variance", se * se, g.max(q, 0.0), rtol=1e-6); g.le("se is non-negative", 0.0, se)
    g.cover()

def demean_contract(data, variables, unit, time, inplace=False, suffix="_demeaned"):
    """within_transform by contract (C05): x - unit mean - period mean + grand mean, everything else unchanged"""
    out = data.copy(); u, t = data[unit].values, data[time].values
    for v in variables:
        from fractions import Fraction as Fr
        conc = all(isinstance(z, (int, float, np.number)) for z in data[v].values); x = [Fr(float(z)).limit_denominator(10 ** 6) if conc else z for z in data[v].values]; n = len(x)
        def mean(mask): k = [x[i] for i in range(n) if mask[i]]; return sum(k) / len(k)
        mu = {a: mean(u == a) for a in set(u)}; mt = {a: mean(t == a) for a in set(t)}; gm = sum(x) / n
        out[v + suffix] = pd.Series([x[i] - mu[u[i]] - mt[t[i]] + gm for i in range(n)], index=data.index)
        if conc: out[v + suffix] = out[v + suffix].map(float)
    return out

PANELS = {"two cohorts": dict(cohort={1: 3, 2: 3, 3: 4, 4: 0, 5: 0}, T=[1, 2, 3, 4]), "one cohort": dict(cohort={1: 2, 2: 2, 3: 0}, T=[1, 2, 3]), "gap in periods, inf": dict(cohort={4: 2005, 2: 2005, 9: math.inf, 1: 2002}, T=[2001, 2002, 2004, 2005])}
LONG = dict(cohort={1: 3, 2: 3, 3: 25, 4: 0, 5: 0, 6: 26}, T=list(range(1, 31)))      # event times beyond 20 periods on either side
@harness("C09", "fit_balanced", ["sun_abraham.SunAbraham.fit", "sun_abraham.SunAbraham._fit_saturated_regression", "sun_abraham.SunAbraham._compute_iw_effects", "sun_abraham.SunAbraham._compute_overall_att"], bound="three fixed balanced panels; outcomes arbitrary", trials=40, deep=300, timeout=300)
def _(g):
    """on a balanced panel without covariates each cohort's effect is the difference of mean changes from the reference period between the cohort and the never-treated units; reference = last period before treatment less anticipation; rows, counts and cohort table."""
    name = g.choice("panel", list(PANELS)) if g.symbolic or g.rng.random() < .7 else "long"; s = PANELS.get(name, LONG); ant = g.choice("anticipation", [0, 1]) if name == "two cohorts" else 0
    if name == "two cohorts": s = dict(s, T=[0, 1, 2, 3, 4]) if ant else s
    units, T = list(s["cohort"]), s["T"]; y = g.reals("y", len(units) * len(T)); Y = {(u, t): y[i * len(T) + j] for i, u in enumerate(units) for j, t in enumerate(T)}
    ref = -1 - ant; cohorts = sorted({c for c in s["cohort"].values() if 0 < c < math.inf}); never = [u for u in units if not 0 < s["cohort"][u] < math.inf]
    rel = sorted({t - c for c in cohorts for t in T} - {ref}); cells = [(c, e) for c in cohorts for e in rel if c + e in T]
    if any(c + ref not in T for c in cohorts): raise Skip()
    perm = list(range(len(y))) if g.symbolic else list(g.rng.permutation(len(y)))
    df = pd.DataFrame(dict(id=[u for u in units for t in T], t=[t for u in units for t in T], g=[float(s["cohort"][u]) for u in units for t in T]))
    df["y"] = pd.Series(list(y), dtype=object) if g.symbolic else y
    df = df.iloc[perm]
    if g.symbolic:
        g.stub("utils", "within_transform", demean_contract)
        f = ols_contract(g, len(cells)); g.stub("linalg", "solve_ols", f); stubs(g)
        g.stub("linalg", "LinearRegression.get_inference", lambda self, i, *a, **k: NS(coefficient=self.coefficients_[i], se=("se", i)))
        iw = []
        def over(self, *a): iw.append(a); return g.real("overall"), g.real("ose", lo=0)
        g.stub("sun_abraham", "SunAbraham._compute_overall_att", over)
        def iwe(self, df, unit, ft, groups, rel, ce, cs, V, ix): iw.append((rel, ce, cs, V, ix)); return {e: dict(effect=0.0, se=1.0, t_stat=0.0, p_value=1.0, conf_int=(0., 0.), n_groups=1) for e in rel}, {e: {c: .25 for c, q in ce if q == e} for e in rel}
        g.stub("sun_abraham", "SunAbraham._compute_iw_effects", iwe)
    res = g.fn("sun_abraham", "SunAbraham")(anticipation=ant).fit(df, "y", "id", "t", "g")
    ce = res.cohort_effects; g.ensure("one effect per cohort and event time except the reference", set(ce) == set(cells), lambda: f"{sorted(ce)} {cells}")
    mean = lambda us, t: sum(Y[u, t] for u in us) / len(us)
    for c, e in cells:
        us = [u for u in units if s["cohort"][u] == c]
        g.eq("cohort effect is the double difference against the never treated", ce[c, e]["effect"], (mean(us, c + e) - mean(us, c + ref)) - (mean(never, c + e) - mean(never, c + ref)), rtol=1e-6, atol=1e-7)
    g.ensure("counts", res.n_obs == len(y) and res.n_treated_units == len(units) - len(never) and res.n_control_units == len(never))
    g.ensure("groups and periods", list(res.groups) == cohorts and list(res.time_periods) == list(T))
    if g.symbolic:
        rel_, ce_, cs_, V_, ix_ = iw[0]; X = f.calls[0][0]; V = f.calls[0][3]
        g.ensure("event times handed on", list(rel_) == rel and set(ix_) == set(cells) and sorted(ix_.values()) == list(range(len(cells))))
        for k, i in ix_.items():
            g.eq("covariance handed on is that of the cohort effects", V_[i, i], V[i, i]); g.ensure("se of the cohort effect is of its own coefficient", cs_[k] == ("se", i)); g.eq("coefficient order", ce_[k], ce[k]["effect"])
        g.ensure("regression is clustered by unit", list(f.calls[0][2].get("cluster_ids", [])) == list(df["id"]))
        g.ensure("reported share of a cohort", all(v["weight"] == .25 for v in ce.values()))
    else:
        for e in rel:
            cs = [c for c in cohorts if (c, e) in ce]; N = sum(size(s, c) for c in cs)
            g.eq("event-time effect", res.event_study_effects[e]["effect"], sum(size(s, c) / N * ce[c, e]["effect"] for c in cs), atol=1e-7)
    g.cover()

def draw_panel(r, cov=0):
    k = r.random(); T = list(range(1, int(r.integers(4, 8)))) if k < .65 else [2000, 2001, 2003, 2004, 2005] if k < .9 else list(range(1, int(r.integers(23, 30))))
    cand = [t for i, t in enumerate(T) if i >= 1 and t - 1 in T]; cohorts = list(r.choice(cand, size=min(len(cand), int(r.integers(1, 4))), replace=False))
    if r.random() < .2: cohorts.append(T[-1] + 1)
    rows = []; u = 0; te = r.normal(size=len(T)); never = 0.0 if r.random() < .7 else math.inf
    for c in [never] + cohorts:
        for _ in range(int(r.integers(2, 6))):
            a = r.normal() * 2
            for j, t in enumerate(T):
                rows.append(dict(id=u, t=t, g=float(c), y=a + te[j] + (1 + .3 * (t - c) if 0 < c <= t else 0.0) + r.normal(), cl=u // 2, **{f"x{k}": r.normal() for k in range(cov)}))
            u += 1
    df = pd.DataFrame(rows); perm = dict(enumerate(r.permutation(u) * 3 + 7)); df["id"] = df.id.map(perm)
    return df.sample(frac=1, random_state=int(r.integers(1 << 30))), T, sorted(float(c) for c in cohorts)

@harness("C09", "fit_oracle", ["sun_abraham.SunAbraham.fit", "sun_abraham.SunAbraham._fit_saturated_regression", "sun_abraham.SunAbraham._compute_iw_effects", "sun_abraham.SunAbraham._compute_overall_att"], sym=False, trials=80, deep=800)
def _(g):
    """panels (balanced or with missing rows) with and without covariates, clusters, anticipation: cohort effects and standard errors are those of the regression with unit and period dummies and cohort x event-time indicators (clustered); event-time and overall effects, standard errors, t, p, intervals their share-weighted combinations."""
    r = g.rng; cov = int(r.choice([0, 0, 1, 2])); df, T, cohorts = draw_panel(r, cov); ant = int(r.choice([0, 0, 1])); cl = r.choice([None, "cl"]); alpha = float(r.choice([.05, .1])); ref = -1 - ant
    if any(c + ref not in T for c in cohorts): raise Skip()
    if cl == "cl" and df.groupby("id").cl.nunique().max() > 1: raise Skip()
    if r.random() < .35:     # missing rows
        df = df[r.random(len(df)) < .85]; T = sorted(df.t.unique()); never = df[(df.g == 0) | np.isinf(df.g)]; cohorts = [c for c in cohorts if (df.g == c).any()]
        if not len(never) or not cohorts or any(c + ref not in T for c in cohorts): raise Skip()
    res = g.fn("sun_abraham", "SunAbraham")(anticipation=ant, cluster=cl, alpha=alpha, control_group=g.choice("control_group", ["never_treated", "not_yet_treated"])).fit(df, "y", "id", "t", "g", covariates=[f"x{k}" for k in range(cov)] or None)
    cells = [(c, t - c) for c in cohorts for t in T if t - c != ref and ((df.g == c) & (df.t == t)).any()]
    if not cells: raise Skip()
    Dm = np.column_stack([((df.g == c) & (df.t - df.g == e)).astype(float) for c, e in cells] + [df[f"x{k}"] for k in range(cov)])
    W = np.column_stack([O.double_demean(Dm[:, j], df.id.values, df.t.values) for j in range(Dm.shape[1])]); yd = O.double_demean(df.y.values, df.id.values, df.t.values)
    if np.linalg.matrix_rank(W) < W.shape[1] or len(df) <= W.shape[1]: raise Skip()
    b, u, V = O.ols(W, yd, cluster=df[cl or "id"].values)
    g.ensure("cohort cells", set(res.cohort_effects) == set(cells), lambda: f"{sorted(res.cohort_effects)} {sorted(cells)}")
    n = df.groupby("id").g.first().value_counts().to_dict()
    for i, k in enumerate(cells): g.eq("cohort effect and se", [res.cohort_effects[k]["effect"], res.cohort_effects[k]["se"]], [b[i], np.sqrt(V[i, i])] if V[i, i] > 1e-14 else [b[i], res.cohort_effects[k]["se"]], rtol=1e-6, atol=1e-7)
    ix = {k: i for i, k in enumerate(cells)}; full = {}
    def row(name, got, w):
        keys = list(w); x = np.array([w[k] for k in keys]); j = [ix[k] for k in keys]; se = np.sqrt(max(x @ V[np.ix_(j, j)] @ x, 0)); att = float(x @ b[j])
        g.eq(name + " effect", got[0], att, rtol=1e-6, atol=1e-7)
        if se > 1e-7: t, p, ci = O.inference(att, se, None, alpha); g.eq(name + " se, t, p, interval", got[1:], [se, t, p, *ci], rtol=1e-5, atol=1e-6)
    es = sorted({e for c, e in cells}); g.ensure("event times", set(res.event_study_effects) == set(es)); sh = {}
    for e in es:
        cs = [c for c, q in cells if q == e]; N = sum(n[c] for c in cs); sh[e] = {(c, e): n[c] / N for c in cs}; o = res.event_study_effects[e]
        row("event time", [o["effect"], o["se"], o["t_stat"], o["p_value"], *o["conf_int"]], sh[e]); g.eq("shares add to one", sum(res.cohort_weights[e].values()), 1.0); g.ensure("cohorts at the event time", o["n_groups"] == len(cs))
        for c in cs: g.eq("share", [res.cohort_weights[e][c], res.cohort_effects[c, e]["weight"]], [n[c] / N] * 2)
    post = [e for e in es if e >= 0]
    if post:
        m = {e: (((df.t - df.g) == e) & (df.g > 0)).sum() for e in post}; tot = sum(m.values()); row("overall", [res.overall_att, res.overall_se, res.overall_t_stat, res.overall_p_value, *res.overall_conf_int], {k: m[e] / tot * v for e in post for k, v in sh[e].items()})
    g.ensure("settings and counts", res.alpha == alpha and res.n_obs == len(df) and res.n_treated_units == sum(v for k, v in n.items() if 0 < k < math.inf) and res.n_control_units == sum(v for k, v in n.items() if not 0 < k < math.inf))

@harness("C09", "bootstrap", ["sun_abraham.SunAbraham._run_bootstrap", "sun_abraham.SunAbraham.fit"], sym=False, trials=10, deep=100)
def _(g):
    """pairs bootstrap: every draw resamples whole units (each resampled unit keeps all of its rows and gets an identity of its own) and repeats the estimation; statistics of every event time and of the overall effect are those of the draws in which it is identified; row labels do not matter; same seed same result."""
    r = g.rng; df, T, cohorts = draw_panel(r); 
    if any(c - 1 not in T for c in cohorts): raise Skip()
    SA = g.fn("sun_abraham", "SunAbraham"); B = 50; seed = int(r.integers(1000)); alpha = .1
    seen = []; orig = g.fn("sun_abraham", "SunAbraham._fit_saturated_regression")
    def spy(self, d, outcome, unit, time, ft, *a): seen.append(d[[unit, time, ft, outcome]].copy()); return orig(self, d, outcome, unit, time, ft, *a)
    g.stub("sun_abraham", "SunAbraham._fit_saturated_regression", spy)
    fit = lambda d: SA(n_bootstrap=B, seed=seed, alpha=alpha).fit(d, "y", "id", "t", "g")
    res = fit(df.reset_index(drop=True)); draws = seen[1:]; n = df.id.nunique()
    g.ensure("one estimation per identified draw", B / 2 < len(draws) <= B if (df.g.isin([0.0, math.inf]).groupby(df.id).first().sum() > 2) else len(draws) <= B)
    src = {k: tuple(q.sort_values("t")[["t", "g", "y"]].itertuples(index=False, name=None)) for k, q in df.groupby("id")}; val = {v: k for k, v in src.items()}
    picks = []
    for d in draws:
        g.ensure("as many units as in the data", d.id.nunique() == n and len(d) == len(df))
        b = [tuple(q.sort_values("t")[["t", "g", "y"]].itertuples(index=False, name=None)) for k, q in d.groupby("id")]
        g.ensure("resampled units are whole units of the data", all(x in val for x in b)); picks.append([val[x] for x in b if x in val])
    m = np.mean([len(set(p)) for p in picks]) / n; g.ensure("units are drawn with replacement", m < .9 or n < 4, lambda: str(m))
    # every draw re-estimates the effects on its own data; an effect that a draw cannot estimate has no draw
    s = SA(alpha=alpha); rel = list(res.event_study_effects); ev = {q: np.full(B, np.nan) for q in rel}; ov = np.full(B, np.nan)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k, d in enumerate(draws):
            try: x = s.fit(d.reset_index(drop=True), "y", "id", "t", "g")
            except ValueError: continue
            ov[k] = x.overall_att
            for q in rel:
                if q in x.event_study_effects: ev[q][k] = x.event_study_effects[q]["effect"]
    dist = res.bootstrap_results.bootstrap_distribution; fin = np.isfinite; g.ensure("one value per draw", len(dist) == B); g.ensure("unidentified draws have no value", int(fin(dist).sum()) == int(fin(ov).sum()), lambda: f"{dist} {ov}"); g.eq("draws are the re-estimates", dist[fin(dist)], ov[fin(ov)], rtol=1e-6, atol=1e-6)
    def stats(e, x):
        v = x[np.isfinite(x)]
        if 2 * len(v) < B or not np.isfinite(e): return [np.nan] * 5
        return [np.std(v, ddof=1), *np.percentile(v, [5, 95]), max(min(2 * (np.mean(v <= 0) if e >= 0 else np.mean(v >= 0)), 1), 1 / (B + 1)), e / np.std(v, ddof=1) if np.std(v, ddof=1) > 0 else np.nan]
    g.eq("overall: standard error, interval, p and t are those of the draws", [res.overall_se, *res.overall_conf_int, res.overall_p_value, res.overall_t_stat], stats(res.overall_att, ov), rtol=1e-5, atol=1e-6)
    for q, o in res.event_study_effects.items(): g.eq("event time: standard error, interval, p and t are those of the draws", [o["se"], *o["conf_int"], o["p_value"], o["t_stat"]], stats(o["effect"], ev[q]), rtol=1e-5, atol=1e-6)
    d2 = df.reset_index(drop=True); d2.index = r.permutation(len(d2)) // 2
    r2 = fit(d2); g.eq("row labels do not matter, same seed same result", [r2.overall_att, r2.overall_se, *r2.overall_conf_int], [res.overall_att, res.overall_se, *res.overall_conf_int])
    for q in res.event_study_effects: g.eq("event-time rows", [r2.event_study_effects[q]["se"], r2.event_study_effects[q]["p_value"]], [res.event_study_effects[q]["se"], res.event_study_effects[q]["p_value"]])

@harness("C09", "nothing_to_average", ["sun_abraham.SunAbraham.fit", "sun_abraham.SunAbraham._compute_overall_att"], sym=False, trials=12, deep=60)
def _(g):
    """when no event time from treatment on is estimated, the overall effect and all of its inference are undefined, not zero; with and without bootstrap."""
    r = g.rng; n = int(r.integers(4, 12)); T = list(range(1, int(r.integers(4, 8)))); ant = int(r.choice([0, 1])); late = T[-1] + 1
    df = pd.DataFrame([dict(id=u, t=t, g=float(late) if u % 2 else 0.0, y=r.normal() + u) for u in range(2 * n) for t in T])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); res = g.fn("sun_abraham", "SunAbraham")(n_bootstrap=int(r.choice([0, 20])), seed=1, anticipation=ant).fit(df, "y", "id", "t", "g")
    g.ensure("no event time from treatment on", all(e < 0 for e in res.event_study_effects)); g.nan("overall effect and its inference", [res.overall_att, res.overall_se, res.overall_t_stat, res.overall_p_value, *res.overall_conf_int])
    g.ensure("not significant", not res.is_significant and res.significance_stars == ""); g.cover()
