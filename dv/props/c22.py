"""C22: trend and placebo diagnostics compute the tests they name."""
import itertools, math, warnings
from fractions import Fraction
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D, oracle as O

def call(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); return f(*a, **k)
TV = [1.0, 2.0, 4.0, 5.0]

def slope(g, w, t, y):
    """least-squares slope of y on t over the rows with w = 1, its residual variance and the spread of t"""
    n = g.sum(w); mt = g.sum(w * t) / n; my = g.sum(w * y) / n; S = g.sum(w * (t - mt) * (t - mt)); b = g.sum(w * (t - mt) * (y - my)) / S; e = y - my - b * (t - mt); return n, b, g.sum(w * e * e), S


LAY = [([1, 3, 5, 7] * 4, [1] * 8 + [0] * 8), ([1, 3, 3, 5, 1, 1, 1, 5, 7, 7, 5, 1], [1, 1, 1, 1, 0, 0, 0, 0, 1, 0, 1, 1]), ([5, 3, 1, 1, 1, 5, 1, 7], [1, 1, 1, 0, 0, 0, 0, 1])]   # group means of the periods are exact in binary
PRE = [[1, 3, 5], [1, 3], (5, 1), None, [3, 5, 9]]
def frame(g, name="lay"):
    """a table with concrete periods and groups and arbitrary outcomes"""
    t, d = g.choice(name, LAY); n = len(t); y = [g.real(f"y{i}") for i in range(n)]; df = pd.DataFrame({"when": t, "grp": d, "out": pd.Series(y, dtype=object if g.symbolic else float)}); df.index = [7 * i % 31 for i in range(n)]; return df, t, d, y
def fit(g, rows):
    n = len(rows); mt = sum(t for t, _ in rows) / n; my = sum(y for _, y in rows) / n; S = sum((t - mt) ** 2 for t, _ in rows); b = sum((t - mt) * (y - my) for t, y in rows) / S; return n, b, sum((y - my - b * (t - mt)) ** 2 for t, y in rows), S

@harness("C22", "trend", ["utils.check_parallel_trends"], trials=250, deep=2500, bound="three layouts of eight to sixteen rows, any outcomes")
def _(g):
    """each group's least-squares slope over the chosen pre-periods, the difference, its standard error and two-sided p-value; plausible exactly above 0.05; no test where a group has one period or two observations."""
    df, t, d, y = frame(g); pre = g.choice("pre", PRE); use = [1, 3] if pre is None else pre; kw = {} if pre is None else dict(pre_periods=list(pre)); r = call(g.fn("utils", "check_parallel_trends"), df, "out", "when", "grp", **kw); out = {}; se = {}; sc = 0 if g.symbolic else 1e-12 + max(map(abs, y)); tol = dict(rtol=1e-7, atol=1e-12 * sc); tol2 = dict(rtol=1e-7, atol=1e-12 * sc * sc)
    for nm, v in (("treated", 1), ("control", 0)):
        rows = [(a, c) for a, b, c in zip(t, d, y) if b == v and a in use]
        if len({a for a, _ in rows}) < 2: g.nan(nm + " slope of one period", r[nm + "_trend"]); continue
        out[nm] = n, b, ss, S = fit(g, rows); g.eq(nm + " slope", r[nm + "_trend"], b, **tol)
        if n == 2: g.nan(nm + " line through two points has no standard error", r[nm + "_trend_se"]); continue
        se[nm] = ss / (n - 2) / S; q = r[nm + "_trend_se"]; g.eq(nm + " slope variance", q * q, se[nm], **tol2); g.le(nm + " se non-negative", 0.0, q)
    if len(out) == 2: g.eq("difference of slopes", r["trend_difference"], out["treated"][1] - out["control"][1], **tol)
    if len(se) < 2: g.nan("no statistic", r["t_statistic"]); g.nan("no p-value", r["p_value"]); g.ensure("no verdict", r["parallel_trends_plausible"] is None); g.cover(); return
    q = r["trend_difference_se"]; g.eq("variance of the difference", q * q, sum(r[k + "_trend_se"] * r[k + "_trend_se"] for k in se), **tol2); g.le("se non-negative", 0.0, q); g.assume(q > 1e-9 * (1 if g.symbolic else sc))
    ts = r["trend_difference"] / q; g.eq("statistic", r["t_statistic"], ts, rtol=1e-6); g.eq("two-sided p-value", r["p_value"], 2 * g.dist("norm", "sf", g.abs(r["t_statistic"])), rtol=1e-6); g.ensure("plausible exactly above 0.05", g.iff(r["parallel_trends_plausible"], r["p_value"] > .05)); g.cover()

def changes_of(rows, by_unit):
    """(treated, control) changes between successive pre-periods: of each unit, or of the group means"""
    out = {1: [], 0: []}
    if by_unit:
        for u in sorted({r[0] for r in rows}):
            own = sorted([r for r in rows if r[0] == u], key=lambda r: r[1])
            for a, b in zip(own, own[1:]):
                v = b[3] - a[3]
                if not (isinstance(v, float) and math.isnan(v)): out[b[2]].append(v)
    else:
        for k in out:
            ts = sorted({r[1] for r in rows if r[2] == k}); m = [sum(r[3] for r in rows if r[2] == k and r[1] == t) / sum(1 for r in rows if r[2] == k and r[1] == t) for t in ts]; out[k] = [b - a for a, b in zip(m, m[1:])]
    return out[1], out[0]
def unit_table(g):
    """three to six units over four periods, some pairs absent, rows in any order, arbitrary outcomes"""
    nu = 4 if g.symbolic else g.int("units", 4, 9); trt = {u: int(u % 2 == 0) for u in range(nu)}; miss = g.choice("absent", [(), ((0, 1),), ((1, 5), (2, 1)), ((3, 3), (3, 5))]); cells = [(u, t) for u in range(nu) for t in (1, 3, 5, 7) if (u, t) not in miss]
    o = g.choice("order", [0, 1, 2]); cells = cells if o == 0 else cells[::-1] if o == 1 else sorted(cells, key=lambda c: (c[1], -c[0])); rows = [(u, t, trt[u], g.real(f"y{u}{t}")) for u, t in cells]
    if not g.symbolic and g.choice("missing outcome", [False, False, True]): j = int(g.rng.integers(len(rows))); rows[j] = rows[j][:3] + (float("nan"),)
    df = pd.DataFrame({"id": [["b", "a", "d", "c", "e", "h", "f", "g", "i"][r[0]] for r in rows], "when": [r[1] for r in rows], "grp": [r[2] for r in rows], "out": pd.Series([r[3] for r in rows], dtype=object if g.symbolic else float)}); return df, rows

def generic(x):
    """value of a symbolic number at a fixed generic point (an order of the changes that depends on their values only)"""
    import z3, hashlib
    from z3.z3util import get_vars
    e = x.v; e = z3.simplify(z3.substitute(e, *[(v, z3.RealVal(int(hashlib.md5(str(v).encode()).hexdigest()[:8], 16))) for v in get_vars(e)])); return e.as_fraction()
@harness("C22", "changes", ["utils._compute_outcome_changes"], trials=150, deep=1500, bound="four units, four periods, four patterns of absent pairs, three row orders, any outcomes")
def _(g):
    """outcome changes are exactly the differences between a unit's (or a group mean's) successive observed periods, each in the group of its unit."""
    df, rows = unit_table(g); by = g.choice("unit", [True, False]); 
    if not by and any(isinstance(r[3], float) and math.isnan(r[3]) for r in rows): raise Skip()
    a = g.internal(lambda: g.fn("utils", "_compute_outcome_changes"))(df, "out", "when", "grp", "id" if by else None); w = changes_of(rows, by)
    for nm, x, v in (("treated", a[0], w[0]), ("control", a[1], w[1])):
        g.ensure(nm + " number of changes", len(x) == len(v), f"{len(x)} {len(v)}")
        if not g.symbolic: x, v = np.sort(np.asarray(x, float)), np.sort(np.asarray(v, float))
        elif by: x = sorted(x, key=generic); v = sorted(v, key=generic)
        g.eq(nm + " changes", list(x), list(v))
    g.cover()

def sample(g, nm):
    n = g.axis("n" + nm, 2, 30); return n, g.vec(nm, n)
KEYS = ["lower_t_stat", "upper_t_stat", "lower_p_value", "upper_p_value", "tost_p_value", "degrees_of_freedom"]
@harness("C22", "equivalence", ["utils.equivalence_test_trends"], trials=200, deep=2000)
def _(g):
    """for samples of any size: the two one-sided t statistics against the margin (half the pooled deviation by default), Welch degrees of freedom, both tails, the larger as p-value, and the verdict at 0.05."""
    na, a = sample(g, "treated"); nb, b = sample(g, "control"); given = g.choice("margin given", [False, True]); dl = g.pyreal("margin", 0) if given else None
    flat = g.choice("flat control", [False, True])
    if flat and not g.symbolic: b = b * 0 + 1.25
    df = pd.DataFrame({"w": [1.0, 2.0], "o": [0.0, 0.0], "g": [1, 0]}); g.stub("utils", "_compute_outcome_changes", lambda *x, **k: (a, b))
    r = call(g.fn("utils", "equivalence_test_trends"), df, "o", "w", "g", **(dict(equivalence_margin=dl) if given else {})); ka, kb = (na.sint(), nb.sint()) if g.symbolic else (len(a), len(b))
    va, vb = g.devsq(a) / (ka - 1), g.devsq(b) / (kb - 1); diff = g.sum(a) / ka - g.sum(b) / kb; g.assume(va > (0 if g.symbolic else 1e-12 * (1 + np.abs(a).max() ** 2))); g.assume(g.devsq(b) == 0 if flat else vb > (0 if g.symbolic else 1e-12 * (1 + np.abs(b).max() ** 2))); sc = 0 if g.symbolic else float(np.abs(a).max() + np.abs(b).max()); A, B = va / ka, vb / kb; q = r["se_difference"]
    g.eq("mean difference", r["mean_difference"], diff, atol=1e-12 * sc); g.eq("variance of the difference", q * q, A + B); g.le("se non-negative", 0.0, q)
    pos = [A] if flat else [A, B]
    for v, k, nm in zip(pos, (ka, kb), ("treated", "control")): g.lemma(nm + " variance of the mean is positive", v > 0); g.lemma(nm + " squared", v * v > 0); g.lemma(nm + " per degree of freedom", v * v / (k - 1) > 0)
    nu = (A + B) * (A + B) / (A * A / (ka - 1)) if flat else (A + B) * (A + B) / (A * A / (ka - 1) + B * B / (kb - 1)); g.eq("Welch degrees of freedom", r["degrees_of_freedom"], nu, rtol=1e-6)
    if given: g.eq("margin as given", r["equivalence_margin"], dl)
    else:
        m = (g.sum(a) + g.sum(b)) / (ka + kb); tot = g.sum((a - m) * (a - m)) + g.sum((b - m) * (b - m)); x = r["equivalence_margin"]; g.eq("default margin", 4 * x * x, tot / (ka + kb - 1), rtol=1e-6); g.le("margin non-negative", 0.0, x)
    x = r["equivalence_margin"]; f = r["degrees_of_freedom"]; lo, hi = (r["mean_difference"] + x) / q, (r["mean_difference"] - x) / q; g.eq("lower statistic", r["lower_t_stat"], lo, rtol=1e-6, atol=1e-9); g.eq("upper statistic", r["upper_t_stat"], hi, rtol=1e-6, atol=1e-9)
    g.eq("lower tail", r["lower_p_value"], g.dist("t", "sf", r["lower_t_stat"], f)); g.eq("upper tail", r["upper_p_value"], g.dist("t", "cdf", r["upper_t_stat"], f)); g.eq("larger p-value", r["tost_p_value"], g.max(r["lower_p_value"], r["upper_p_value"])); g.ensure("equivalent exactly below 0.05", g.iff(r["equivalent"], r["tost_p_value"] < .05)); g.cover()

@harness("C22", "equivalence_tables", ["utils.equivalence_test_trends", "utils._compute_outcome_changes", "utils.check_parallel_trends_robust"], sym=False, trials=80, deep=900)
def _(g):
    """on tables: the tests use exactly the changes within the chosen pre-periods; too few changes or no variation give no p-value and no verdict; row order is irrelevant."""
    df, rows = unit_table(g); by = g.choice("unit", [True, False]); pre = g.choice("pre", [[1, 3, 5], None, [1, 3], [3, 5, 7], [5]]); use = [1, 3] if pre is None else pre
    if not by and df.out.isna().any(): raise Skip()
    if g.choice("trend", [False, False, False, True]): df["out"] = df.when * 2.0; rows = [r[:3] + (r[1] * 2.0,) for r in rows]
    a, b = [np.array(v, float) for v in changes_of([r for r in rows if r[1] in use], by)]; kw = {} if pre is None else dict(pre_periods=pre); kw = dict(kw, unit="id") if by else kw; dfm = df.copy(); r = call(g.fn("utils", "equivalence_test_trends"), df, "out", "when", "grp", **kw); g.ensure("input not changed", dfm.equals(df))
    if len(a) < 2 or len(b) < 2 or (np.var(a) == 0 and np.var(b) == 0):
        for k in KEYS: g.nan(k, r[k])
        g.ensure("no verdict", r["equivalent"] is None); g.cover(); return
    from scipy import stats as S
    if max(np.var(a), np.var(b)) < 1e-12: raise Skip()
    A, B = a.var(ddof=1) / len(a), b.var(ddof=1) / len(b); f = (A + B) ** 2 / (A ** 2 / (len(a) - 1) + B ** 2 / (len(b) - 1)); x = .5 * np.concatenate([a, b]).std(ddof=1); m = a.mean() - b.mean(); p = max(S.t.sf((m + x) / math.sqrt(A + B), f), S.t.cdf((m - x) / math.sqrt(A + B), f)); g.eq("p-value", r["tost_p_value"], p, rtol=1e-6); g.ensure("verdict", abs(p - .05) < 1e-9 or r["equivalent"] == (p < .05))
    z = call(g.fn("utils", "equivalence_test_trends"), df.sample(frac=1, random_state=int(g.rng.integers(1 << 30))), "out", "when", "grp", **kw); g.eq("row order", z["tost_p_value"], p, rtol=1e-6); g.cover()

@harness("C22", "robust", ["utils.check_parallel_trends_robust"], sym=False, trials=120, deep=1200)
def _(g):
    """the distance between the two groups' changes, the share of relabelled distances at least as large (replayed with the labels actually drawn), the Kolmogorov-Smirnov test, the mean difference and variance ratio; same seed same answer, global state untouched."""
    from scipy import stats as S
    df, rows = unit_table(g); by = g.choice("unit", [True, True, False]); r0 = g.rng
    if not by and df.out.isna().any(): raise Skip()
    pre = g.choice("pre", [[1, 3, 5], None, [1, 3, 5, 7], [5]]); use = [1, 3] if pre is None else pre; kw = dict(pre_periods=pre) if pre else {}; kw.update(dict(unit="id") if by else {}); B = int(r0.choice([1, 9, 40])); th = float(r0.choice([.2, .05, 1., 3.])); seed = int(r0.integers(1 << 20)); f = g.fn("utils", "check_parallel_trends_robust"); a, b = [np.array(v, float) for v in changes_of([r for r in rows if r[1] in use], by)]
    st = np.random.get_state()[1].copy(); old = S.wasserstein_distance; log = []
    def w1(u, v, *x):
        d = old(u, v, *x); log.append((np.sort(u), np.sort(v), d)); return d
    S.wasserstein_distance = w1
    try: r = call(f, df, "out", "when", "grp", n_permutations=B, seed=seed, wasserstein_threshold=th, **kw)
    finally: S.wasserstein_distance = old
    g.ensure("global random state untouched", (st == np.random.get_state()[1]).all())
    if len(a) < 2 or len(b) < 2: g.ensure("no verdict", r["parallel_trends_plausible"] is None and math.isnan(r["wasserstein_p_value"])); g.cover(); return
    d = old(a, b); g.eq("distance", r["wasserstein_distance"], d); k, p = S.ks_2samp(a, b); g.eq("Kolmogorov-Smirnov", [r["ks_statistic"], r["ks_p_value"]], [k, p], rtol=1e-6); g.eq("mean difference", r["mean_difference"], a.mean() - b.mean(), atol=1e-9); v = b.var(ddof=1)
    if v > 1e-12: g.eq("variance ratio", r["variance_ratio"], a.var(ddof=1) / v, rtol=1e-6)
    g.eq("treated changes", np.sort(r["treated_changes"]), np.sort(a)); g.eq("control changes", np.sort(r["control_changes"]), np.sort(b)); g.ensure("sizes", (r["n_treated"], r["n_control"]) == (len(a), len(b)))
    allc = np.concatenate([a, b]); sd = allc.std(ddof=1); nw = d / sd if sd > 0 else math.nan
    if sd > 1e-12: g.eq("normalised distance", r["wasserstein_normalized"], nw, rtol=1e-6)
    P = r["wasserstein_p_value"]; g.ensure("a share of the permutations", abs(P * B - round(P * B)) < 1e-9 and 0 <= P <= 1); g.ensure("plausible exactly when the p-value exceeds 0.05 and the distance is below the threshold", abs(nw - th) < 1e-9 or abs(P - .05) < 1e-9 or r["parallel_trends_plausible"] == (P > .05 and not nw >= th))
    perm = log[1:]
    if len(perm) == B and np.allclose(log[0][2], d):
        for u, v, _ in perm: g.ensure("relabelling keeps sizes and values", len(u) == len(a) and np.allclose(np.sort(np.r_[u, v]), np.sort(allc)))
        ds = np.array([x[2] for x in perm]); e = 1e-9 * (1 + d); g.ensure("share of relabelled distances at least as large", np.mean(ds >= d + e) - 1e-12 <= P <= np.mean(ds >= d - e) + 1e-12, f"{P} {np.mean(ds >= d)}")
    z = call(f, df, "out", "when", "grp", n_permutations=B, seed=seed, wasserstein_threshold=th, **kw); g.ensure("same seed, same p-value", z["wasserstein_p_value"] == P)
    if B == 40 and len(allc) >= 6 and len(perm) == B: g.ensure("labels vary", len({tuple(np.round(x[0], 9)) for x in perm}) > 3)
    g.cover()

@harness("C22", "robust_ties", ["utils.check_parallel_trends_robust"], sym=False, trials=12, deep=120)
def _(g):
    """with few units and repeated changes (many relabellings as extreme as the data): the permutation p-value estimates the exact share of relabellings whose distance is at least the observed one, ties counted."""
    r = g.rng; k, m = [(2, 2), (2, 2), (4, 2), (2, 4), (4, 4)][int(r.integers(5))]; ch = [float(v) for v in r.choice([0, 0, 1, 4, 8], k + m)]
    if len(set(ch)) < 2: raise Skip()
    df = pd.DataFrame([(u, t, int(u < k), 16.0 * u + t * c) for u, c in enumerate(ch) for t in (0, 1)], columns=["id", "when", "grp", "out"]).sample(frac=1, random_state=int(r.integers(1 << 30))); B = 400
    def dist(u, v):
        u, v = sorted(u), sorted(v); z = sorted(u + v); return sum(abs(Fraction(sum(x <= a for x in u), len(u)) - Fraction(sum(x <= a for x in v), len(v))) * Fraction(b - a) for a, b in zip(z, z[1:]))
    d0 = dist(ch[:k], ch[k:]); S_ = list(itertools.combinations(range(k + m), k)); p = sum(dist([ch[i] for i in s], [ch[i] for i in range(k + m) if i not in s]) >= d0 for s in S_) / len(S_)
    q = call(g.fn("utils", "check_parallel_trends_robust"), df, "out", "when", "grp", unit="id", pre_periods=[0, 1], n_permutations=B, seed=int(r.integers(1 << 20))); g.ensure("p-value estimates the exact share", abs(q["wasserstein_p_value"] - p) <= 6 * math.sqrt(p * (1 - p) / B) + 1e-9, f"{q['wasserstein_p_value']} {p} {ch} {k}"); g.cover()

# ---- placebo tests: which data are fitted, and what is reported from the fits
class Fits:
    """difference-in-differences by contract (C04, C05): each fit is recorded and gets an arbitrary effect and inference"""
    def __init__(self, g, mod="diagnostics"):
        self.g, self.calls = g, []; me = self
        class DiD:
            def __init__(s, **kw): s.kw = kw
            def fit(s, data, outcome, treatment, time, **k):
                import types
                i = len(me.calls); fail = me.fail(i); me.calls.append((s.kw, data, outcome, treatment, time, k, fail))
                if fail is not None: raise fail
                return types.SimpleNamespace(**me.result(i), n_obs=len(data))
        self.cls = DiD; self.got = {}; self.fail = lambda i: None
    def result(self, i):
        g = self.g
        if i not in self.got: self.got[i] = dict(att=g.pyreal(f"att{i}"), se=g.pyreal(f"se{i}", 0), t_stat=g.pyreal(f"t{i}"), p_value=g.pyreal(f"p{i}", 0, 1), conf_int=(g.pyreal(f"lo{i}"), g.pyreal(f"hi{i}")))
        return self.got[i]
def panel(g):
    nu = 6 if g.symbolic else g.int("units", 4, 9); T = [2, 3, 5, 8]; k = 2 if g.symbolic else g.int("treated", 2, nu - 2); ids = [["u2", "u0", "u5", "u1", "u4", "u3", "u7", "u9", "u6"][u] for u in range(nu)]; r = np.random.default_rng(g.choice("shuffle", [1, 2, 3])); rows = [(ids[u], t, int(u < k), float(100 * u + t)) for u in range(nu) for t in T]; rows = [rows[i] for i in r.permutation(len(rows))]; df = pd.DataFrame(rows, columns=["id", "when", "trt", "out"]); df.index = df.index * 3 + 1; return df, ids[:k], ids[k:], T
def same_rows(g, nm, got, want, cols): g.ensure(nm, got[cols].sort_values(cols).values.tolist() == want[cols].sort_values(cols).values.tolist(), f"{len(got)} rows, {len(want)} expected")
def settings(g, F, kw): g.ensure("every fit uses the given estimator settings and outcome", all(c[0] == kw and c[2] == "out" for c in F.calls))
COLS = ["id", "when", "trt", "out"]
def reported(g, r, i, F, al):
    f = F.result(i); [g.eq("reported " + k, getattr(r, n), f[k]) for k, n in (("att", "placebo_effect"), ("se", "se"), ("t_stat", "t_stat"), ("p_value", "p_value"))]; g.eq("reported interval", list(r.conf_int), list(f["conf_int"])); g.ensure("significant exactly below the level", g.iff(r.is_significant, f["p_value"] < al)); g.eq("level", r.alpha, al)

@harness("C22", "fake_timing", ["diagnostics.run_placebo_test", "diagnostics.placebo_timing_test"], trials=80, deep=800, bound="six units, four periods, three row orders; any effects and inference of the fits")
def _(g):
    """the fake treatment date is fitted on pre-treatment rows only, post meaning from the fake date on; the placebo numbers are that fit's, the original numbers those of the full data; a date in the post periods is refused."""
    df, tr, co, T = panel(g); fake = g.choice("fake", [3, 5, 8]); post = g.choice("post", [[8], None, [5, 8]]); use = [5, 8] if post is None else post; al = g.pyreal("alpha", 0, 1); kw = g.choice("settings", [{}, dict(robust=False), dict(cluster="id", alpha=.2)]); F = Fits(g); g.stub("diagnostics", "DifferenceInDifferences", F.cls); d0 = df.copy()
    k = dict(kw); k.pop("alpha", None); call_ = lambda: call(g.fn("diagnostics", "run_placebo_test"), df, "out", "trt", "when", test_type="fake_timing", fake_treatment_period=fake, alpha=al, **({} if post is None else dict(post_periods=post)), **k)
    if fake in use: g.raises("a fake date among the post periods", ValueError, call_); g.cover(); return
    r = call_(); settings(g, F, k); g.ensure("two fits", len(F.calls) == 2); g.ensure("input not changed", df.equals(d0)); b = [i for i, c in enumerate(F.calls) if len(c[1]) < len(df)]; g.ensure("one fit on part of the data", len(b) == 1); i = b[0]; c, o = F.calls[i], F.calls[1 - i]
    same_rows(g, "the placebo fit uses exactly the pre-treatment rows", c[1], df[~df.when.isin(use)], COLS); g.ensure("the placebo fit uses the actual groups", c[3] == "trt"); g.ensure("post from the fake date on", (c[1][c[4]].values == (c[1].when >= fake).values).all()); same_rows(g, "the original fit uses all rows", o[1], df, COLS); g.ensure("actual post periods", o[3] == "trt" and (o[1][o[4]].values == o[1].when.isin(use).values).all())
    reported(g, r, i, F, al); f = F.result(1 - i); g.eq("original effect", [r.original_effect, r.original_se], [f["att"], f["se"]]); g.ensure("labels", r.test_type == "fake_timing" and r.fake_period == fake and r.n_obs == len(c[1])); g.cover()

@harness("C22", "fake_group", ["diagnostics.run_placebo_test", "diagnostics.placebo_group_test"], trials=80, deep=800, bound="six units, four periods, three row orders; any effects and inference of the fits")
def _(g):
    """the fake group test is fitted among never-treated units only, treated meaning membership in the fake group; its numbers are reported."""
    df, tr, co, T = panel(g); al = g.pyreal("alpha", 0, 1); fg = co[:g.choice("fake", [1, 2])]; post = g.choice("post", [[8], None, [5, 8]]); use = [5, 8] if post is None else post; F = Fits(g); g.stub("diagnostics", "DifferenceInDifferences", F.cls); d0 = df.copy()
    if g.choice("treatment varies over time", [False, True]): df["trt"] = df.trt * (df.when >= 8); d0 = df.copy()
    r = call(g.fn("diagnostics", "run_placebo_test"), df, "out", "trt", "when", unit="id", test_type=g.choice("type", ["fake_group", "FAKE_GROUP"]), fake_treatment_group=fg, alpha=al, robust=False, **({} if post is None else dict(post_periods=post))); settings(g, F, dict(robust=False)); g.ensure("one fit", len(F.calls) == 1); g.ensure("input not changed", df.equals(d0)); c = F.calls[0]
    same_rows(g, "never-treated units only", c[1], df[df.id.isin(co)], COLS); g.ensure("treated are the fake group", (c[1][c[3]].values == c[1].id.isin(fg).values).all()); g.ensure("post periods", (c[1][c[4]].values == c[1].when.isin(use).values).all()); reported(g, r, 0, F, al); g.ensure("labels", r.test_type == "fake_group" and r.fake_group == fg and r.n_obs == len(c[1])); g.raises("empty group", ValueError, lambda: g.fn("diagnostics", "run_placebo_test")(df, "out", "trt", "when", unit="id", test_type="fake_group", fake_treatment_group=[])); g.cover()

@harness("C22", "permutation", ["diagnostics.run_placebo_test", "diagnostics.permutation_test"], trials=150, deep=1500, timeout=250, bound="six units (two treated), three relabellings; any effects")
def _(g):
    """each relabelling gives treatment to as many whole units as are treated, and refits on otherwise identical data; the p-value is the share of relabelled effects at least as extreme as the observed one, never below 1/(n+1); failed refits are left out; mean, deviation and percentiles of the relabelled effects are reported."""
    from ..core import Unsupported
    df, tr, co, T = panel(g); df["aft"] = (df.when >= 5).astype(int); al = g.pyreal("alpha", 0, 1); B = 3 if g.symbolic else int(g.rng.choice([1, 4, 12])); F = Fits(g); bad = g.choice("failing", [None, 1, 2, "all"]); F.fail = lambda i: ValueError("singular") if i > 0 and (bad == "all" or i == bad) else None; g.stub("diagnostics", "DifferenceInDifferences", F.cls); d0 = df.copy(); draws = []
    if g.symbolic:
        def hook(rng, kind, *a):
            if kind != "choice": raise Unsupported("labels are drawn by " + kind)
            v, size, rep, p = a; g.ensure("whole units are drawn without repetition", rep is False and p is None and size == len(tr) and sorted(v) == sorted(tr + co), f"{v} {size}"); j = len(draws); pick = [[0, 1], [2, 5], [1, 4]][j % 3]; draws.append(pick); return np.array([v[q] for q in pick], dtype=object)
        g.c.cache["rng_hook"] = hook
    run = lambda: call(g.fn("diagnostics", "run_placebo_test"), df, "out", "trt", "aft", unit="id", test_type="permutation", n_permutations=B, alpha=al, seed=7, robust=False); st = np.random.get_state()[1].copy()
    if bad == "all": g.raises("no refit succeeds", RuntimeError, run); g.cover(); return
    if not g.symbolic and B == 1 and bad == 1: g.raises("no refit succeeds", RuntimeError, run); g.cover(); return
    r = run(); settings(g, F, dict(robust=False)); g.ensure("one refit per relabelling", len(F.calls) == B + 1); g.ensure("input not changed", df.equals(d0)); g.ensure("global random state untouched", (st == np.random.get_state()[1]).all()); b = [i for i, c in enumerate(F.calls) if c[3] == "trt"]; g.ensure("one fit of the actual labels", b == [0]); o = F.calls[0]; same_rows(g, "the actual labels on all rows", o[1], df, COLS + ["aft"]); g.ensure("time column", all(c[4] == "aft" for c in F.calls))
    for c in F.calls[1:]:
        same_rows(g, "relabelled data keep every other column", c[1], df, COLS + ["aft"]); lab = c[1].groupby("id")[c[3]].agg(["min", "max"]); g.ensure("whole units are relabelled", (lab["min"] == lab["max"]).all()); g.ensure("as many treated units", int(lab["max"].sum()) == len(tr)); 
    ok = [i for i in range(1, B + 1) if F.fail(i) is None]; e = [F.result(i)["att"] for i in ok]; n = len(e); a0 = F.result(0)["att"]; one = lambda c: g.ite(c, 1.0, 0.0); sh = sum(one(g.abs(x) >= g.abs(a0)) for x in e) / n; g.eq("p-value", r.p_value, g.max(sh, 1 / (n + 1))); g.le("p at most one", r.p_value, 1.0); g.ensure("significant exactly below the level", g.iff(r.is_significant, r.p_value < al))
    m = sum(e) / n; g.eq("mean of the relabelled effects", r.placebo_effect, m, atol=1e-9); q = g.np().percentile; x = np.array(e, dtype=object if g.symbolic else float); g.eq("interval", list(r.conf_int), [q(x, al / 2 * 100), q(x, (1 - al / 2) * 100)])
    if n > 1: g.eq("variance of the relabelled effects", r.se * r.se, sum((v - m) * (v - m) for v in e) / (n - 1), rtol=1e-6); g.le("se non-negative", 0.0, r.se)
    g.eq("original effect", [r.original_effect, r.original_se], [a0, F.result(0)["se"]]); g.ensure("labels", r.n_permutations == n and r.test_type == "permutation" and r.n_obs == len(df)); g.eq("relabelled effects", list(r.permutation_distribution), e)
    if not g.symbolic and B == 12 and len(tr) * len(co) > 6: g.ensure("labels vary", len({tuple(sorted(c[1][c[1][c[3]] == 1].id.unique())) for c in F.calls[1:]}) > 1)
    g.cover()

@harness("C22", "leave_one_out", ["diagnostics.run_placebo_test", "diagnostics.leave_one_out_test"], trials=120, deep=1200, bound="six units (two treated) symbolically; any effects")
def _(g):
    """one refit per treated unit without exactly that unit's rows; their mean, deviation, t statistic, p-value and interval with one less degree of freedom; one usable effect has no standard error and no inference."""
    df, tr, co, T = panel(g); df["aft"] = (df.when >= 5).astype(int); al = g.pyreal("alpha", 0, 1); F = Fits(g); bad = g.choice("failing", [None, 1, "all"]); F.fail = lambda i: ValueError("singular") if i > 0 and (bad == "all" or i == bad) else None; g.stub("diagnostics", "DifferenceInDifferences", F.cls); d0 = df.copy(); run = lambda: call(g.fn("diagnostics", "run_placebo_test"), df, "out", "trt", "aft", unit="id", test_type="leave_one_out", alpha=al, robust=False)
    if bad == "all": g.raises("no refit succeeds", RuntimeError, run); g.cover(); return
    r = run(); settings(g, F, dict(robust=False)); g.ensure("one refit per treated unit", len(F.calls) == len(tr) + 1); g.ensure("input not changed", df.equals(d0)); g.ensure("columns", all(c[3:5] == ("trt", "aft") for c in F.calls)); same_rows(g, "the original fit uses all rows", F.calls[0][1], df, COLS); eff = {}
    for i, c in enumerate(F.calls[1:], 1):
        out = set(df.id) - set(c[1].id); g.ensure("exactly one treated unit is left out", len(out) == 1 and out <= set(tr) - set(eff), str(out)); u = out.pop(); same_rows(g, "all other rows are kept", c[1], df[df.id != u], COLS); eff[u] = i
    g.ensure("an effect for each treated unit", set(r.leave_one_out_effects) == set(tr)); e = []
    for u, i in eff.items():
        v = r.leave_one_out_effects[u]
        if F.fail(i) is not None: g.nan("failed refit", v)
        else: g.eq("effect without the unit", v, F.result(i)["att"]); e.append(F.result(i)["att"])
    n = len(e); m = sum(e) / n; g.eq("mean effect", r.placebo_effect, m, atol=1e-9); g.eq("original effect", [r.original_effect, r.original_se], [F.result(0)["att"], F.result(0)["se"]]); g.ensure("labels", r.test_type == "leave_one_out" and r.n_obs == len(df))
    if n == 1: [g.nan("no inference from one effect", x) for x in (r.se, r.t_stat, r.p_value, *r.conf_int)]; g.ensure("not significant", not bool(r.is_significant)); g.cover(); return
    g.eq("variance of the effects", r.se * r.se, sum((v - m) * (v - m) for v in e) / (n - 1), rtol=1e-6); g.le("se non-negative", 0.0, r.se); g.assume(r.se > (0 if g.symbolic else 1e-9)); g.eq("statistic", r.t_stat, m / r.se, rtol=1e-6); g.eq("p-value", r.p_value, 2 * g.dist("t", "sf", g.abs(r.t_stat), n - 1), rtol=1e-6); q = g.dist("t", "ppf", 1 - al / 2, n - 1); g.eq("interval", list(r.conf_int), [m - q * r.se, m + q * r.se], rtol=1e-6); g.ensure("significant exactly below the level", g.iff(r.is_significant, r.p_value < al)); g.cover()

@harness("C22", "end_to_end", ["diagnostics.run_placebo_test", "diagnostics.run_all_placebo_tests"], sym=False, trials=40, deep=500)
def _(g):
    """real fits: each test's effect is the difference-in-differences of the relabelled data; the suite runs the same tests under their names, reporting failures as such; row order is irrelevant."""
    r = g.rng; nu = int(r.integers(6, 12)); df = pd.DataFrame([(f"u{u:02d}", t, int(u < nu // 2 - 1)) for u in range(nu) for t in range(4)], columns=["id", "when", "trt"]); df["out"] = r.normal(size=len(df)) + df.trt * (df.when >= 2) * 2; df["aft"] = (df.when >= 2).astype(int); df = df.sample(frac=1, random_state=int(r.integers(1 << 30))); f = g.fn("diagnostics", "run_placebo_test"); co = sorted(df[df.trt == 0].id.unique())
    def did(d, D, P): c = lambda a, b: d.out[(D == a) & (P == b)].mean(); return c(1, 1) - c(1, 0) - c(0, 1) + c(0, 0)
    a = call(f, df, "out", "trt", "when", test_type="fake_timing", fake_treatment_period=1, post_periods=[2, 3]); p = df[df.when < 2]; g.eq("fake timing", a.placebo_effect, did(p, p.trt, (p.when >= 1) * 1), atol=1e-8); g.eq("original", a.original_effect, did(df, df.trt, df.aft), atol=1e-8)
    b = call(f, df, "out", "trt", "when", unit="id", test_type="fake_group", fake_treatment_group=co[:2], post_periods=[2, 3]); n = df[df.trt == 0]; g.eq("fake group", b.placebo_effect, did(n, n.id.isin(co[:2]) * 1, n.aft), atol=1e-8)
    c = call(f, df, "out", "trt", "aft", unit="id", test_type="leave_one_out")
    for u, v in c.leave_one_out_effects.items(): d = df[df.id != u]; g.eq("leave one out", v, did(d, d.trt, d.aft), atol=1e-8)
    e = call(f, df, "out", "trt", "aft", unit="id", test_type="permutation", n_permutations=25, seed=5); import itertools; k = df[df.trt == 1].id.nunique(); al = np.array([did(df, df.id.isin(s) * 1, df.aft) for s in itertools.combinations(sorted(df.id.unique()), k)]); g.ensure("relabelled effects are those of some relabelling", all(np.abs(al - x).min() < 1e-8 for x in e.permutation_distribution)); x = did(df, df.trt, df.aft); pd_ = np.abs(e.permutation_distribution); lo, hi = [max(np.mean(pd_ >= abs(x) + s), 1 / 26) for s in (1e-9, -1e-9)]; g.ensure("p-value", lo - 1e-12 <= e.p_value <= hi + 1e-12, f"{e.p_value}"); z = call(f, df.sample(frac=1, random_state=3), "out", "trt", "aft", unit="id", test_type="permutation", n_permutations=25, seed=5); g.ensure("row order", np.allclose(z.permutation_distribution, e.permutation_distribution, atol=1e-8)); g.raises("unknown test", ValueError, lambda: f(df, "out", "trt", "aft", test_type="other"))
    w = call(g.fn("diagnostics", "run_all_placebo_tests"), df, "out", "trt", "when", "id", [0, 1], [2, 3], n_permutations=5, seed=1); g.ensure("names", set(w) == {"fake_timing_1", "permutation", "leave_one_out"}, str(list(w))); g.eq("suite", w["fake_timing_1"].placebo_effect, a.placebo_effect)
    w = call(g.fn("diagnostics", "run_all_placebo_tests"), df, "out", "trt", "aft", "id", [0], [1], n_permutations=25, seed=5); g.ensure("suite permutation", np.allclose(w["permutation"].permutation_distribution, e.permutation_distribution, atol=1e-9)); g.ensure("suite leave-one-out", all(abs(w["leave_one_out"].leave_one_out_effects[u] - v) < 1e-9 for u, v in c.leave_one_out_effects.items())); g.cover()
