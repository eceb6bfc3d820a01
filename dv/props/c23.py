"""C23: simulated data follow the documented design."""
import math, warnings, inspect
from fractions import Fraction
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .c22 import generic

def call(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); return f(*a, **k)
def share(n, frac): return int(Fraction(str(frac)) * n)          # the share as written, rounded down

class Draws:
    """random draws by contract: location plus scale times a fresh variable; categories and orders are any of the offered ones"""
    def __init__(self, g): self.g, self.z, self.cat = g, [], []; g.c.cache["rng_hook"] = self.hook
    def start(self): self.k = self.j = 0; return self
    def shape(self, size): return () if size is None else (size,) if isinstance(size, int) else tuple(size)
    def normal(self, loc, scale, size):
        sh = self.shape(size); n = int(np.prod(sh)); out = []
        for _ in range(n):
            if self.k == len(self.z): self.z.append(self.g.real(f"z{self.k}"))
            out.append(loc + scale * self.z[self.k]); self.k += 1
        return out[0] if sh == () else np.array(out, dtype=object).reshape(sh)
    def hook(self, rng, kind, *a):
        from ..core import Unsupported
        if kind == "normal":
            (p, k) = a; d = dict(zip(("loc", "scale", "size"), p)); d.update(k); return self.normal(d.get("loc", 0.0), d.get("scale", 1.0), d.get("size"))
        if kind == "standard_normal": p, k = a; return self.normal(0.0, 1.0, p[0] if p else k.get("size"))
        if kind == "choice":
            v, size, rep, p = a; v = list(range(v)) if isinstance(v, int) else list(v); sh = self.shape(size); n = int(np.prod(sh)); pick = [v[(self.j + 3 * i * i) % len(v)] for i in range(n)] if rep else v[::-1][:n]; self.j += 1; return pick[0] if sh == () else np.array(pick).reshape(sh)
        raise Unsupported("random draw " + kind)

def frames(g, f, kw, sd):
    """the generator's tables on the same draws: without noise, with noise, without treatment effect"""
    out = {}; dr = Draws(g) if g.symbolic else None; seed = 0 if g.symbolic else int(g.rng.integers(1 << 30))
    for nm, o in (("quiet", dict(noise_sd=0.0)), ("noisy", dict(noise_sd=sd)), ("null", dict(noise_sd=0.0, treatment_effect=0.0))):
        if dr: dr.start()
        out[nm] = call(f, **{**kw, **o, "seed": seed})
    return out, dr

def cells(g, df, unit, period, nu, T):
    g.ensure("one row per unit and period", sorted(zip(df[unit], df[period])) == [(u, t) for u in range(nu) for t in range(T)], f"{len(df)} rows"); return {(u, t): r for u, t, r in zip(df[unit], df[period], df.to_dict("records"))}
def common(g, fr, dr, key, sd):
    """true effect is exactly what treatment adds; noise is one draw of the given scale per row and nothing else"""
    q, n, z = (fr[k].sort_values(key).to_dict("records") for k in ("quiet", "noisy", "null")); used = set(); zs = {generic(v): i for i, v in enumerate(dr.z)} if dr else {}
    for a, b, c in zip(q, n, z):
        g.ensure("same design on the same draws", all(a[k] == b[k] == c[k] for k in a if k not in ("outcome", "true_effect", "age", "education"))); g.eq("true effect is what treatment adds to the outcome", a["outcome"] - c["outcome"], a["true_effect"], atol=1e-9); g.eq("no effect without treatment effect", c["true_effect"], 0.0); g.eq("noise leaves the effect alone", b["true_effect"], a["true_effect"])
        if dr:
            from .. import core; d = core.F.lift(b["outcome"] - a["outcome"]); w = generic(d) / generic(core.F.lift(sd)); i = zs.get(w); g.ensure("noise is one independent draw per row", i is not None and i not in used); used.add(i)
            if i is not None: g.eq("noise has the given scale", d, sd * dr.z[i])
    return q
def flat(g, nm, R, units, T, trend=None, atol=1e-8):
    """without effects, all the units move in parallel (by the given trend)"""
    for u in units:
        for t in range(1, T):
            d = (R[u, t]["outcome"] - R[u, t]["true_effect"]) - (R[u, t - 1]["outcome"] - R[u, t - 1]["true_effect"]); e = trend if trend is not None else (R[units[0], t]["outcome"] - R[units[0], t]["true_effect"]) - (R[units[0], t - 1]["outcome"] - R[units[0], t - 1]["true_effect"]); g.eq(nm, d, e, atol=atol)

def scale(g, nm): return g.pyreal(nm, -9, 9)
def pos(g, nm): return g.pyreal(nm, 0, 9)
SH = [0.5, 0.25, 0.29, 0.57, 0.3, 0.75, 0.1]
@harness("C23", "did", ["prep_dgp.generate_did_data"], trials=60, deep=700, bound="four units by three periods, five shares and three dates; any effects, trends, scales and draws")
def _(g):
    """balanced panel, treated = the requested share of whole units, post from the treatment period on, effect on exactly treated post rows, parallel trends otherwise, independent noise."""
    nu = 4 if g.symbolic else 100 if g.choice("hundred", [0, 0, 1]) else g.int("units", 2, 120); T = 3 if g.symbolic else g.int("periods", 2, 8); tp = g.choice("from", [1, 2, 0, 9] if g.symbolic else list(range(0, T + 1))); fr = g.choice("share", [.5, .25, .76, 0.0, 1.0] if g.symbolic else SH); tau, tr, us, sd = scale(g, "tau"), scale(g, "trend"), pos(g, "usd"), pos(g, "sd")
    F, dr = frames(g, g.fn("prep_dgp", "generate_did_data"), dict(n_units=nu, n_periods=T, treatment_effect=tau, treatment_fraction=fr, treatment_period=tp, unit_fe_sd=us, time_trend=tr), sd); common(g, F, dr, ["unit", "period"], sd); R = cells(g, F["quiet"], "unit", "period", nu, T); trt = {u for u in range(nu) if R[u, 0]["treated"] == 1}
    g.ensure("requested share of treated units", len(trt) == share(nu, fr), f"{len(trt)} of {nu} at {fr}")
    for (u, t), r in R.items(): g.ensure("treated is fixed per unit", r["treated"] == int(u in trt)); g.ensure("post exactly from the treatment period on", r["post"] == int(t >= tp)); g.eq("effect exactly on treated post rows", r["true_effect"], tau if u in trt and t >= tp else 0.0)
    flat(g, "common linear trend", R, list(range(nu)), T, tr); g.ensure("columns", list(F["quiet"].columns) == ["unit", "period", "treated", "post", "outcome", "true_effect"]); g.cover()

@harness("C23", "panel", ["prep_dgp.generate_panel_data"], trials=60, deep=700, bound="four units by three periods, three shares; any effects, violations, scales and draws")
def _(g):
    """as for the basic panel; trends are parallel exactly when requested, otherwise treated units' trend is steeper by the stated violation; bad treatment periods are refused."""
    nu = 4 if g.symbolic else 100 if g.choice("hundred", [0, 0, 1]) else g.int("units", 2, 120); T = 3 if g.symbolic else g.int("periods", 2, 8); f = g.fn("prep_dgp", "generate_panel_data"); g.raises("period zero", ValueError, lambda: f(n_units=4, n_periods=T, treatment_period=0)); g.raises("period outside", ValueError, lambda: f(n_units=4, n_periods=T, treatment_period=T)); tp = g.choice("from", [1, 2] if g.symbolic else list(range(1, T))); fr = g.choice("share", [.5, .25, .76] if g.symbolic else SH); par = g.choice("parallel", [True, False]); tau, vi, us, sd = scale(g, "tau"), scale(g, "viol"), pos(g, "usd"), pos(g, "sd")
    F, dr = frames(g, f, dict(n_units=nu, n_periods=T, treatment_effect=tau, treatment_fraction=fr, treatment_period=tp, unit_fe_sd=us, parallel_trends=par, trend_violation=vi), sd); common(g, F, dr, ["unit", "period"], sd); R = cells(g, F["quiet"], "unit", "period", nu, T); trt = {u for u in range(nu) if R[u, 0]["treated"] == 1}; g.ensure("requested share of treated units", len(trt) == share(nu, fr), f"{len(trt)} of {nu} at {fr}")
    for (u, t), r in R.items(): g.ensure("treated is fixed per unit", r["treated"] == int(u in trt)); g.ensure("post exactly from the treatment period on", r["post"] == int(t >= tp)); g.eq("effect exactly on treated post rows", r["true_effect"], tau if u in trt and t >= tp else 0.0)
    A, B = sorted(trt), [u for u in range(nu) if u not in trt]; part = [x for x in ((A + B,) if par else (A, B)) if x]; [flat(g, "parallel trends", R, x, T) for x in part]
    if not par and A and B:
        for t in range(1, T): d = [R[x[0], t]["outcome"] - R[x[0], t]["true_effect"] - R[x[0], t - 1]["outcome"] + R[x[0], t - 1]["true_effect"] for x in (A, B)]; g.eq("trend violation per period", d[0] - d[1], vi, atol=1e-8)
    g.cover()

@harness("C23", "event_study", ["prep_dgp.generate_event_study_data"], trials=60, deep=700, bound="four units by up to four periods, three shares; any effects, scales and draws")
def _(g):
    """as for the basic panel with treatment after n_pre periods; event time is the distance to treatment."""
    nu = 4 if g.symbolic else 100 if g.choice("hundred", [0, 0, 1]) else g.int("units", 2, 100); a = g.choice("pre", [1, 2] if g.symbolic else [1, 2, 3, 5]); b = g.choice("post", [1, 2] if g.symbolic else [1, 2, 4]); T = a + b; fr = g.choice("share", [.5, .25, .76] if g.symbolic else SH); tau, us, sd = scale(g, "tau"), pos(g, "usd"), pos(g, "sd")
    F, dr = frames(g, g.fn("prep_dgp", "generate_event_study_data"), dict(n_units=nu, n_pre=a, n_post=b, treatment_effect=tau, treatment_fraction=fr, unit_fe_sd=us), sd); common(g, F, dr, ["unit", "period"], sd); R = cells(g, F["quiet"], "unit", "period", nu, T); trt = {u for u in range(nu) if R[u, 0]["treated"] == 1}; g.ensure("requested share of treated units", len(trt) == share(nu, fr), f"{len(trt)} of {nu} at {fr}")
    for (u, t), r in R.items(): g.ensure("treated is fixed per unit", r["treated"] == int(u in trt)); g.ensure("post exactly after the pre-periods", r["post"] == int(t >= a)); g.ensure("event time", r["event_time"] == t - a); g.eq("effect exactly on treated post rows", r["true_effect"], tau if u in trt and t >= a else 0.0)
    flat(g, "parallel trends", R, list(range(nu)), T); g.cover()

@harness("C23", "staggered", ["prep_dgp.generate_staggered_data"], trials=60, deep=700, bound="five units by four periods, three cohort lists, three shares; any effects, growth, scales and draws")
def _(g):
    """the requested share is never treated, everyone else belongs to a requested cohort and is treated from its period on; effects start at the stated size and grow linearly when dynamic; trends are common otherwise; impossible cohorts are refused."""
    nu = 5 if g.symbolic else 100 if g.choice("hundred", [0, 0, 1]) else g.int("units", 3, 100); T = 4 if g.symbolic else g.int("periods", 3, 12); f = g.fn("prep_dgp", "generate_staggered_data"); [g.raises("impossible cohort", ValueError, lambda: f(n_units=4, n_periods=T, cohort_periods=[c])) for c in (0, -1, T, T + 2)]; C = g.choice("cohorts", [[1], [2, 1], [1, 2, 3], None] if g.symbolic else [[1], [T - 1, 1], None, [2]]); fr = g.choice("share", [.4, 0.0, .61] if g.symbolic else SH + [0.0]); dyn = g.choice("dynamic", [True, False]); tau, gr, tr, us, sd = scale(g, "tau"), scale(g, "growth"), scale(g, "trend"), pos(g, "usd"), pos(g, "sd")
    F, dr = frames(g, f, dict(n_units=nu, n_periods=T, cohort_periods=C, never_treated_frac=fr, treatment_effect=tau, dynamic_effects=dyn, effect_growth=gr, unit_fe_sd=us, time_trend=tr), sd); common(g, F, dr, ["unit", "period"], sd); R = cells(g, F["quiet"], "unit", "period", nu, T); G = {u: int(R[u, 0]["first_treat"]) for u in range(nu)}; Cs = set(C) if C else ({3, 5, 7} if T >= 8 else {T // 3, 2 * T // 3})
    g.ensure("requested share never treated", sum(v == 0 for v in G.values()) == share(nu, fr), f"{sum(v == 0 for v in G.values())} of {nu} at {fr}"); g.ensure("treated units belong to the requested cohorts", set(G.values()) - {0} <= Cs)
    if not g.symbolic and nu > 60 and fr < .5: g.ensure("every requested cohort is used", set(G.values()) - {0} == Cs, str(set(G.values())))
    for (u, t), r in R.items(): c = G[u]; on = c > 0 and t >= c; g.ensure("cohort is fixed per unit", r["first_treat"] == c and r["treat"] == int(c > 0)); g.ensure("treated exactly from the cohort period on", r["treated"] == int(on)); g.eq("effect on exactly the treated rows", r["true_effect"], (tau * (1 + gr * (t - c)) if dyn else tau) if on else 0.0, atol=1e-9)
    flat(g, "common linear trend", R, list(range(nu)), T, tr); g.cover()

@harness("C23", "factor", ["prep_dgp.generate_factor_data"], trials=60, deep=700, bound="four units by up to four periods, one or two factors; any effects, scales and draws")
def _(g):
    """the requested numbers of treated units and of periods before and after; treated exactly on treated units after the pre-periods; without factors trends are parallel, and factors enter with the stated strength; impossible numbers of treated units are refused."""
    nu = 4 if g.symbolic else g.int("units", 2, 40); a = g.choice("pre", [1, 2]) if g.symbolic else g.int("pre", 1, 6); b = g.choice("post", [1, 2]) if g.symbolic else g.int("post", 1, 5); T = a + b; f = g.fn("prep_dgp", "generate_factor_data"); g.raises("too many treated", ValueError, lambda: f(n_units=nu, n_treated=nu + 1)); g.raises("no treated", ValueError, lambda: f(n_units=nu, n_treated=0)); k = g.choice("treated", [1, 3] if g.symbolic else list(range(1, nu + 1))); nf = g.choice("factors", [1, 2]); tau, st, us, sd, sh = scale(g, "tau"), scale(g, "strength"), pos(g, "usd"), pos(g, "sd"), scale(g, "shift")
    kw = dict(n_units=nu, n_pre=a, n_post=b, n_treated=k, n_factors=nf, treatment_effect=tau, treated_loading_shift=sh, unit_fe_sd=us); F, dr = frames(g, f, dict(kw, factor_strength=st), sd); common(g, F, dr, ["unit", "period"], sd); R = cells(g, F["quiet"], "unit", "period", nu, T); trt = {u for u in range(nu) if R[u, 0]["treat"] == 1}; g.ensure("requested number of treated units", len(trt) == k)
    for (u, t), r in R.items(): on = u in trt and t >= a; g.ensure("treat is fixed per unit", r["treat"] == int(u in trt)); g.ensure("treated exactly on treated units after the pre-periods", r["treated"] == int(on)); g.eq("effect exactly on treated rows", r["true_effect"], tau if on else 0.0)
    if dr: dr.start()
    seed = 3; z = call(f, **dict(kw, factor_strength=0.0, noise_sd=0.0, seed=seed)); Z = cells(g, z, "unit", "period", nu, T); flat(g, "parallel trends without factors", Z, list(range(nu)), T)
    if dr: dr.start()
    w = cells(g, call(f, **dict(kw, factor_strength=1.0, noise_sd=0.0, seed=seed)), "unit", "period", nu, T)
    if dr: dr.start()
    v = cells(g, call(f, **dict(kw, factor_strength=st, noise_sd=0.0, seed=seed)), "unit", "period", nu, T); [g.eq("factors enter with the stated strength", v[c]["outcome"] - Z[c]["outcome"], st * (w[c]["outcome"] - Z[c]["outcome"]), atol=1e-8) for c in Z]; g.cover()

@harness("C23", "confounding", ["prep_dgp.generate_factor_data"], sym=False, trials=12, deep=100)
def _(g):
    """the factor part has the requested number of independent unit-variance factors and loadings, and the shift moves every loading of every treated unit and no loading of a control."""
    r = g.rng; f = g.fn("prep_dgp", "generate_factor_data"); nf = int(r.integers(1, 5)); k = int(r.integers(2, 20)); n, T = 40, 300; sh = float(r.choice([.5, 2.0, -1.5])); kw = dict(n_units=n, n_treated=k, n_pre=250, n_post=50, n_factors=nf, noise_sd=0.0, seed=int(r.integers(1 << 20)))
    Y = lambda **o: call(f, **{**kw, **o}).sort_values(["unit", "period"]).outcome.to_numpy().reshape(n, T); z = Y(factor_strength=0.0); a = Y(treated_loading_shift=0.0) - z; b = Y(treated_loading_shift=sh) - z; d = b - a
    g.eq("controls are not shifted", d[k:], 0.0 * d[k:], atol=1e-9); g.eq("every treated unit is shifted alike", d[:k], d[:1] + 0.0 * d[:k], atol=1e-9); v = d[0].var() / (sh * sh * nf); g.ensure("every loading is shifted by the stated amount", abs(v - 1) < 6 * math.sqrt(2 / T), f"{v}")
    sv = np.linalg.svd(a, compute_uv=False); g.ensure("number of factors", int((sv > 1e-8 * sv[0]).sum()) == nf, str(sv[:6])); g.ensure("scale of the factors", abs(a.var() / nf - 1) < 8 * math.sqrt(2 / (n * nf)), f"{a.var()} {nf}"); g.cover()

@harness("C23", "ddd", ["prep_dgp.generate_ddd_data"], trials=60, deep=500, bound="one or two observations per cell; any effects and draws")
def _(g):
    """the requested number of observations in each of the eight cells, an effect exactly in the treated eligible post cell, and a structural triple difference equal to it; main effects as requested."""
    n = g.choice("per cell", [1, 2]) if g.symbolic else g.int("per cell", 1, 40); tau, ge, pe, te, sd = scale(g, "tau"), scale(g, "group"), scale(g, "part"), scale(g, "time"), pos(g, "sd"); cov = g.choice("covariates", [False, True]); F, dr = frames(g, g.fn("prep_dgp", "generate_ddd_data"), dict(n_per_cell=n, treatment_effect=tau, group_effect=ge, partition_effect=pe, time_effect=te, add_covariates=cov), sd); q = common(g, F, dr, ["unit_id"], sd); m = {}
    g.ensure("distinct unit identifiers", sorted(r["unit_id"] for r in q) == list(range(8 * n))); g.ensure("covariates exactly when requested", {"age", "education"} & set(q[0]) == ({"age", "education"} if cov else set()))
    for r in q: c = (r["group"], r["partition"], r["time"]); m.setdefault(c, []).append(r["outcome"]); g.eq("effect exactly in the treated eligible post cell", r["true_effect"], tau if c == (1, 1, 1) else 0.0)
    g.ensure("requested number per cell", sorted(m) == [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)] and all(len(v) == n for v in m.values()), str({k: len(v) for k, v in m.items()}))
    if not cov:
        [g.eq("same structural mean within a cell", x, v[0]) for v in m.values() for x in v]; M = {k: v[0] for k, v in m.items()}; d = lambda p: M[1, p, 1] - M[1, p, 0] - M[0, p, 1] + M[0, p, 0]; g.eq("triple difference", d(1) - d(0), tau, atol=1e-9); g.eq("group effect", M[1, 0, 0] - M[0, 0, 0], ge, atol=1e-9); g.eq("partition effect", M[0, 1, 0] - M[0, 0, 0], pe, atol=1e-9); g.eq("time effect", M[0, 0, 1] - M[0, 0, 0], te, atol=1e-9)
    g.cover()

GEN = ["did", "staggered", "factor", "ddd", "panel", "event_study"]
SMALL = dict(did=dict(n_units=11), staggered=dict(n_units=13), factor=dict(n_units=9, n_treated=3), ddd=dict(n_per_cell=7), panel=dict(n_units=11), event_study=dict(n_units=11))
@harness("C23", "seeds", [f"prep_dgp.generate_{n}_data" for n in GEN], sym=False, trials=40, deep=400)
def _(g):
    """the same seed gives the same table, other seeds other noise, and the global random state is untouched; noise and unit effects have the requested spread and are unrelated across rows and units."""
    n = g.choice("generator", GEN); f = g.fn("prep_dgp", f"generate_{n}_data"); s = int(g.rng.integers(1 << 30)); np.random.seed(s % 1000); st = np.random.get_state()[1].copy(); a = call(f, seed=s, **SMALL[n]); np.random.rand(3); b = call(f, seed=s, **SMALL[n]); np.random.seed(s % 1000); c = call(f, seed=s + 1, **SMALL[n]); call(f, **SMALL[n]); g.ensure("global random state untouched", (st == np.random.get_state()[1]).all()); g.ensure("same seed, same table", a.equals(b)); g.ensure("other seed, other noise", not np.allclose(a.outcome, c.outcome))
    big = dict(ddd=dict(n_per_cell=150)).get(n, dict(n_units=300)); sd = float(g.rng.choice([.5, 3.])); q = call(f, seed=s, noise_sd=0.0, **big); w = call(f, seed=s, noise_sd=sd, **big); e = (w.outcome - q.outcome).to_numpy(); N = len(e); g.ensure("spread of the noise", abs(e.std() / sd - 1) < 7 / math.sqrt(2 * N) and abs(e.mean()) < 7 * sd / math.sqrt(N), f"{e.std()} {sd}"); g.ensure("noise is unrelated across rows", abs(np.corrcoef(e[1:], e[:-1])[0, 1]) < 7 / math.sqrt(N))
    if n not in ("ddd",):
        us = float(g.rng.choice([.7, 4.])); u0, u1 = [call(f, seed=s, noise_sd=0.0, unit_fe_sd=x, **big) for x in (0.0, us)]; d = (u1.outcome - u0.outcome).groupby(u1["unit"]).agg(["min", "max"]); g.ensure("unit effects are constant", np.allclose(d["min"], d["max"], atol=1e-9)); v = d["min"].to_numpy(); g.ensure("spread of the unit effects", abs(v.std() / us - 1) < 7 / math.sqrt(2 * len(v)) and abs(v.mean()) < 7 * us / math.sqrt(len(v)), f"{v.std()} {us}"); g.ensure("unit effects are unrelated", abs(np.corrcoef(v[1:], v[:-1])[0, 1]) < 7 / math.sqrt(len(v)))
    g.cover()

@harness("C23", "recovery", [f"prep_dgp.generate_{n}_data" for n in GEN], sym=False, trials=30, deep=300, timeout=200)
def _(g):
    """without noise the corresponding estimator returns the recorded true effect."""
    n = g.choice("generator", GEN); f = g.fn("prep_dgp", f"generate_{n}_data"); s = int(g.rng.integers(1 << 30)); tau = float(g.rng.uniform(-4, 4)); kw = dict(seed=s, noise_sd=0.0, treatment_effect=tau)
    if n in ("did", "panel"): df = call(f, n_units=20, **kw); r = call(g.fn("estimators", "DifferenceInDifferences")().fit, df, "outcome", "treated", "post"); g.eq("difference-in-differences", r.att, tau, atol=1e-7)
    elif n == "event_study":
        df = call(f, n_units=20, n_pre=3, n_post=2, **kw); r = call(g.fn("estimators", "MultiPeriodDiD")().fit, df, outcome="outcome", treatment="treated", time="period", post_periods=[3, 4]); g.eq("event study", r.avg_att, tau, atol=1e-7)
    elif n == "staggered":
        df = call(f, n_units=40, n_periods=6, cohort_periods=[2, 4], **kw)
        if set(df.first_treat) != {0, 2, 4}: raise Skip()
        r = call(g.fn("staggered", "CallawaySantAnna")().fit, df, outcome="outcome", unit="unit", time="period", first_treat="first_treat"); tru = df[df.treated == 1].groupby(["first_treat", "period"]).true_effect.mean()
        for (c, t), v in tru.items(): g.eq("group-time effects", r.group_time_effects[c, t]["effect"], v, atol=1e-7)
    elif n == "factor": df = call(f, n_units=14, n_treated=4, n_pre=4, n_post=2, factor_strength=0.0, **kw); df["post"] = (df.period >= 4).astype(int); r = call(g.fn("estimators", "DifferenceInDifferences")().fit, df, "outcome", "treat", "post"); g.eq("without factors", r.att, tau, atol=1e-7)
    else:
        cov = g.choice("covariates", [None, ["age", "education"]]); df = call(f, n_per_cell=15, add_covariates=cov is not None, **kw); r = call(g.fn("triple_diff", "TripleDifference")(estimation_method="reg").fit, df, "outcome", "group", "partition", "time", covariates=cov); g.eq("triple difference", r.att, tau, atol=1e-6)
    g.cover()
