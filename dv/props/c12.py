"""C12: Goodman-Bacon decomposition."""
import math, warnings
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D

INF = math.inf
# cohorts of the table -> periods seen; the kernels are checked for every number of rows per cohort and period
GRID = [([1, 2, 3, 4], [2, 4]), ([1, 2, 3], [2, 3]), ([2001, 2002, 2004, 2005, 2006], [2002, 2005]), ([1, 2, 3, 4, 5], [3, 9]), ([2, 3, 4], [1, 3]), ([0, 1, 2], [2, 7])]

def windows(T, kind, k, l=None):
    """(pre, post) periods of a comparison: k = treated cohort, l = comparison cohort"""
    if kind == "treated_vs_never": return [t for t in T if t < k], [t for t in T if t >= k]
    if kind == "earlier_vs_later": return [t for t in T if t < k], [t for t in T if k <= t < l]
    return [t for t in T if l <= t < k], [t for t in T if t >= k]

def cellmean(g, y, who, when):
    return g.sum(who * when * y) / g.sum(who * when)
def did(g, y, A, B, tt, T, pre, post):
    w = lambda P: sum(tt[T.index(p)] for p in P)
    return (cellmean(g, y, A, w(post)) - cellmean(g, y, A, w(pre))) - (cellmean(g, y, B, w(post)) - cellmean(g, y, B, w(pre)))

@harness("C12", "kernel", ["bacon.BaconDecomposition._compute_treated_vs_never", "bacon.BaconDecomposition._compute_timing_comparison"], timeout=300, trials=60, deep=600)
def _(g):
    """for every table (any number of rows and units per cohort and period): the comparison names its cohorts and type, its estimate is the difference in differences of means over the windows of that type, its weight is non-negative with the documented formula, and it is omitted exactly when a window is empty."""
    T, (e, l) = g.choice("grid", GRID); kind = g.choice("kind", ["treated_vs_never", "earlier_vs_later", "later_vs_earlier"])
    n = g.axis("rows", 12, 60); y = g.vec("y", n); t, tt = g.codes("t", n, [float(x) for x in T]); f, ff = g.codes("g", n, [0.0, float(e), float(l)]); u, U = g.labels("id", n, g.axis("units", 6, 12))
    df = g.table(n, y=y, t=t, g=f, id=u); b = g.fn("bacon", "BaconDecomposition")()
    k, c = {"treated_vs_never": (e, None), "earlier_vs_later": (e, l), "later_vs_earlier": (l, e)}[kind]
    if kind == "treated_vs_never" and g.choice("which", [0, 1]): k = l
    A = ff[[0.0, e, l].index(k)]; B = ff[0] if c is None else ff[[0.0, e, l].index(c)]; pre, post = windows(T, kind, k, c)
    for P in (pre, post):
        if P:
            w = sum(tt[T.index(p)] for p in P); g.assume(g.sum(A * w) > 0); g.assume(g.sum(B * w) > 0)
    r = g.internal((lambda: b._compute_treated_vs_never(df, "y", "id", "t", "g", k, T)) if c is None else (lambda: b._compute_timing_comparison(df, "y", "id", "t", "g", k, c, T, kind)))
    if not pre or not post: g.ensure("no comparison without both windows", r is None); g.cover(); return
    g.ensure("comparison", r is not None and r.comparison_type == kind and r.treated_group == k and r.control_group == ("never_treated" if c is None else c), lambda: str(r))
    g.eq("estimate", r.estimate, did(g, y, A, B, tt, T, pre, post), rtol=1e-6)
    nt, nc = r.n_treated, r.n_control
    if not g.symbolic:
        cu = lambda M: len(set(np.asarray(u)[np.asarray(M) > 0])); g.ensure("unit counts", nt == cu(A) and nc == cu(B))
        s, q = nt / (nt + nc), len(post) / (len(pre) + len(post)); g.eq("weight", r.weight, s * (1 - s) * q * (1 - q) * (len(pre) + len(post)) / len(T))
    else:
        g.assume(nt > 0); g.assume(nc > 0); s, q = nt / (nt + nc), len(post) / (len(pre) + len(post)); g.eq("weight", r.weight, s * (1 - s) * q * (1 - q) * (len(pre) + len(post)) / len(T)); g.ensure("weight is not negative", r.weight >= 0)
    lo, hi = {"treated_vs_never": (T[0], T[-1]), "earlier_vs_later": (T[0], l - 1), "later_vs_earlier": (e, T[-1])}[kind]
    g.ensure("window", tuple(r.time_window) == (lo, hi)); g.cover()

# fixed balanced panels: cohort of each unit, periods
PANELS = {
    "two cohorts and never": dict(cohort=[2, 2, 4, 0, 0], T=[1, 2, 3, 4]),
    "no never treated": dict(cohort=[2, 3, 3, 5], T=[1, 2, 3, 4]),
    "inf, gap, cohort after the sample": dict(cohort=[2003, INF, 2005, 2004, 2009, 0], T=[2001, 2003, 2004, 2006]),
    "always treated": dict(cohort=[1, 3, 3, 0], T=[1, 2, 3]),
    "one cohort": dict(cohort=[3, 3, 0], T=[1, 2, 3, 4]),
    "only one cohort at all": dict(cohort=[3, 3], T=[1, 2, 3]),
}
def balanced(s, y):
    k = len(s["T"]); df = pd.DataFrame([(i, t, float(c)) for i, c in enumerate(s["cohort"]) for t in s["T"]], columns=["id", "t", "g"])
    df["y"] = pd.Series(list(y), dtype=object) if len(y) and not isinstance(y[0], float) else y
    return df
def demean(data, variables, unit, time, inplace=False, suffix="_demeaned"):
    """within_transform by contract (C05); 0/1 columns exactly"""
    from fractions import Fraction as Fr
    out = data.copy(); u, t = list(data[unit]), list(data[time])
    for v in variables:
        x = [Fr(int(z)) if isinstance(z, (bool, np.bool_, int)) else z for z in data[v]]; n = len(x)
        mean = lambda ks: sum(x[i] for i in ks) / len(ks)
        mu = {a: mean([i for i in range(n) if u[i] == a]) for a in set(u)}; mt = {a: mean([i for i in range(n) if t[i] == a]) for a in set(t)}; gm = sum(x) / n
        from ..core import F
        from ..core import fracval
        r = [x[i] - mu[u[i]] - mt[t[i]] + gm for i in range(n)]
        import z3
        r = [F(z3.RealVal(str(q))) if isinstance(q, Fr) else q for q in r]
        out[v + suffix] = pd.Series(r, index=data.index, dtype=object)
    return out
def spec(s, Y):
    """comparisons by the definition: (kind, k, l) -> (estimate, n_k, n_l, approximate weight, exact weight); never = 0 or inf"""
    from fractions import Fraction as Fr
    T = s["T"]; C = sorted({c for c in s["cohort"] if 0 < c < INF}); units = {c: [i for i, x in enumerate(s["cohort"]) if x == c] for c in C}; never = [i for i, x in enumerate(s["cohort"]) if not 0 < x < INF]
    out = {}; N = len(s["cohort"])
    pairs = [("treated_vs_never", k, None) for k in C] + [x for i, a in enumerate(C) for b in C[i + 1:] for x in (("earlier_vs_later", a, b), ("later_vs_earlier", b, a))]
    for kind, k, l in pairs:
        A, B = units[k], never if l is None else units[l]; pre, post = windows(T, kind, k, l)
        if not (A and B and pre and post): continue
        m = lambda us, P: sum(Y[i, t] for i in us for t in P) / (len(us) * len(P))
        q = Fr(len(A), len(A) + len(B)); d = Fr(len(post), len(pre) + len(post)); share = Fr((len(A) + len(B)) * (len(pre) + len(post)), N * len(T))
        a = q * (1 - q) * d * (1 - d); out[kind, k, l] = ((m(A, post) - m(A, pre)) - (m(B, post) - m(B, pre)), len(A), len(B), a * Fr(len(pre) + len(post), len(T)), a * share * share)
    return out

@harness("C12", "fit", ["bacon.BaconDecomposition.fit", "bacon.BaconDecomposition._compute_twfe", "bacon.BaconDecomposition._recompute_exact_weights", "bacon.BaconDecomposition._compute_treated_vs_never", "bacon.BaconDecomposition._compute_timing_comparison", "bacon.bacon_decompose"], bound="six fixed balanced panels; outcomes arbitrary in [-1, 1] (everything is linear in them), rounding of the constant weights up to 1e-9", trials=60, deep=400, timeout=300)
def _(g):
    """every valid comparison once and no other; weights non-negative, proportional to their formula, sum to one; per-type totals and averages; the decomposition error is the gap to the two-way fixed-effects coefficient and is zero with exact weights."""
    name = g.choice("panel", list(PANELS)); s = PANELS[name]; exact = g.choice("exact", [0, 1]); T = s["T"]; y = g.reals("y", len(T) * len(s["cohort"])); Y = {(i, t): y[i * len(T) + j] for i in range(len(s["cohort"])) for j, t in enumerate(T)}
    df = balanced(s, y); sc = 1.0 if g.symbolic else 1 + float(np.abs(y).max())
    def near(nm, a, b):
        if not g.symbolic: g.eq(nm, a, b, rtol=1e-7, atol=1e-9 * sc)
        elif isinstance(a, (int, float)) and isinstance(b, (int, float)): g.ensure(nm, abs(a - b) <= 1e-9)
        else: g.ensure(nm, g.and_(a - b <= 1e-9, b - a <= 1e-9))
    if g.symbolic:
        for x in y: g.assume(g.and_(x <= 1, x >= -1))
    if g.symbolic: g.stub("utils", "within_transform", demean)
    else: df = df.iloc[list(g.rng.permutation(len(df)))]
    r = g.fn("bacon", "bacon_decompose")(df, "y", "id", "t", "g", weights="exact" if exact else "approximate"); S = spec(s, Y)
    got = {(c.comparison_type, c.treated_group, None if c.control_group == "never_treated" else c.control_group): c for c in r.comparisons}
    g.ensure("each comparison once", set(got) == set(S) and len(r.comparisons) == len(S), lambda: f"{sorted(map(str, got))} {sorted(map(str, S))}")
    tot = sum(v[4 if exact else 3] for v in S.values()) or 1; W = {k: v[4 if exact else 3] / tot for k, v in S.items()}; fl = float
    for k, v in S.items():
        c = got[k]; near("estimate of the comparison", c.estimate, v[0]); near("weight of the comparison", c.weight, fl(W[k])); g.ensure("weight is not negative", c.weight >= 0); g.ensure("units", c.n_treated == v[1] and c.n_control == v[2])
    if S: near("weights sum to one", sum(c.weight for c in r.comparisons), 1.0)
    tots = r.weight_by_type(); avg = r.effect_by_type()
    for kind in ("treated_vs_never", "earlier_vs_later", "later_vs_earlier"):
        ks = [k for k in S if k[0] == kind]; w = sum(W[k] for k in ks)
        near("total of the type", tots[kind], fl(w)); near("total field", getattr(r, "total_weight_" + kind), fl(w))
        a = avg[kind]; g.ensure("average only where there is weight", (a is None) == (w == 0) and getattr(r, "weighted_avg_" + kind) is a)
        if w: near("average of the type", a, sum(fl(W[k] / w) * S[k][0] for k in ks))
    ws = sum(fl(W[k]) * S[k][0] for k in S) if S else 0.0; near("weighted sum", r._weighted_sum(), ws); near("decomposition error", r.decomposition_error, g.abs(r.twfe_estimate - ws))
    # two-way fixed-effects coefficient of the treatment indicator
    from fractions import Fraction as Fr
    N, K = len(s["cohort"]), len(T); on = {(i, t): Fr(int(0 < c < INF and t >= c)) for i, c in enumerate(s["cohort"]) for t in T}; mu = {i: sum(on[i, t] for t in T) / K for i in range(N)}; mt = {t: sum(on[i, t] for i in range(N)) / N for t in T}; gm = sum(mu.values()) / N
    d = {q: on[q] - mu[q[0]] - mt[q[1]] + gm for q in on}; v = sum(x * x for x in d.values()); near("two-way fixed-effects coefficient", r.twfe_estimate, sum(fl(d[q] / v) * Y[q] for q in d) if v else 0.0)
    if exact: near("exact weights leave no error", r.decomposition_error, 0.0)
    g.ensure("counts", r.n_obs == N * K and r.n_timing_groups == len({c for c in s["cohort"] if 0 < c < INF}) and r.n_never_treated == sum(1 for c in s["cohort"] if not 0 < c < INF) and list(r.timing_groups) == sorted({c for c in s["cohort"] if 0 < c < INF})); g.cover()

@harness("C12", "fit_any", ["bacon.BaconDecomposition.fit", "bacon.BaconDecomposition._recompute_exact_weights", "twfe.TwoWayFixedEffects.decompose"], sym=False, trials=80, deep=1500)
def _(g):
    """random panels, balanced or not: comparisons, estimates, weights as defined; never-treated coded 0 or infinity give the same decomposition; the other entry points agree; order of rows does not matter."""
    r = g.rng; K = int(r.integers(2, 8)); t0 = int(r.choice([1, 0, 2000])); T = sorted(r.choice(np.arange(t0, t0 + K + 3), K, replace=False).tolist()); N = int(r.integers(3, 16)); pool = [0, 0] + list(range(max(T[0], 1), T[-1] + 3)); pool = [0] + list(r.choice(pool, int(r.integers(1, 5))))
    co = [float(x) for x in r.choice(pool, N)]; s = dict(cohort=co, T=T); y = r.normal(size=N * K) * 10 ** r.uniform(-1, 2) + r.choice([0, 100]); Y = {(i, t): y[i * K + j] for i in range(N) for j, t in enumerate(T)}; df = balanced(s, y); exact = bool(r.random() < .5); w = "exact" if exact else "approximate"
    B = g.fn("bacon", "bacon_decompose"); bal = r.random() < .6
    if not bal: df = df[r.random(len(df)) < .85]; g.assume(len(df) > 4)
    key = lambda o: sorted((c.comparison_type, str(c.treated_group), str(c.control_group), round(c.estimate, 8), round(c.weight, 10)) for c in o.comparisons if c.estimate == c.estimate)
    o = B(df.copy(), "y", "id", "t", "g", weights=w); W = [c.weight for c in o.comparisons]
    g.ensure("weights", all(x >= 0 for x in W) and (not W or abs(sum(W) - 1) < 1e-9))
    if bal:
        S = spec(s, Y); got = {(c.comparison_type, c.treated_group, None if c.control_group == "never_treated" else c.control_group): c for c in o.comparisons}; g.ensure("comparisons", set(got) == set(S)); tot = float(sum(v[4 if exact else 3] for v in S.values()) or 1)
        for k in S: g.eq("estimate", got[k].estimate, S[k][0], rtol=1e-8, atol=1e-7); g.eq("weight", got[k].weight, float(S[k][4 if exact else 3]) / tot)
        if exact: g.eq("no decomposition error", o.decomposition_error, 0.0, atol=1e-7 * (1 + abs(y).max()))
    else:
        for c in o.comparisons:
            g.ensure("every comparison has an estimate", bool(np.isfinite(c.estimate))); k, l = c.treated_group, c.control_group; never = (df.g == 0); pre, post = windows(sorted(df.t.unique()), c.comparison_type, k, l if l != "never_treated" else None)
            A, Bm = df.g == k, never if l == "never_treated" else df.g == l; m = lambda M, P: df.y[M & df.t.isin(P)].mean()
            g.eq("estimate", c.estimate, (m(A, post) - m(A, pre)) - (m(Bm, post) - m(Bm, pre)), rtol=1e-8, atol=1e-7)
    alt = df.copy(); alt["g"] = alt["g"].where(alt["g"] != 0, INF); perm = df.iloc[r.permutation(len(df))]; mixed = df.copy(); mixed["g"] = [INF if (x == 0 and i % 2) else x for x, i in zip(df.g, df.id)]
    for nm, q in (("never coded infinity", alt), ("rows permuted", perm), ("mixed codes", mixed)): z = B(q.copy(), "y", "id", "t", "g", weights=w); g.ensure(nm, key(z) == key(o) and z.n_never_treated == o.n_never_treated and z.n_timing_groups == o.n_timing_groups, lambda: f"{key(z)} {key(o)}"); g.eq(nm + ": coefficient", z.twfe_estimate, o.twfe_estimate, rtol=1e-6, atol=1e-7)
    z = g.fn("twfe", "TwoWayFixedEffects")().decompose(df.copy(), "y", "id", "t", "g", weights=w); g.ensure("decompose method", key(z) == key(o)); z = g.fn("bacon", "BaconDecomposition")(weights=w).fit(df.copy(), "y", "id", "t", "g"); g.ensure("class", key(z) == key(o)); g.cover()

@harness("C12", "rejects", ["bacon.BaconDecomposition.fit", "bacon.BaconDecomposition.__init__"])
def _(g):
    """unknown weight names and missing columns are rejected."""
    B = g.fn("bacon", "BaconDecomposition"); g.raises("weights", ValueError, lambda: B(weights="other")); df = pd.DataFrame(dict(id=[1, 1, 2, 2], t=[1, 2, 1, 2], g=[0, 0, 2, 2], y=[1., 2., 3., 5.]))
    for c in df: g.raises("missing " + c, ValueError, lambda c=c: B().fit(df.drop(columns=[c]), "y", "id", "t", "g"))
    b = B(); g.raises("set_params", ValueError, lambda: b.set_params(weights="x")); g.ensure("unchanged", b.weights == "approximate"); g.cover()
