"""C10: triple difference equals the eight-cell contrast."""
import warnings, math, itertools
from types import SimpleNamespace as NS
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D, oracle as O
from .c04 import ols_contract
from .c06 import logit, logit_kernel

K8 = list(itertools.product((0, 1), repeat=3))
def cells(g, y, G, P, T):
    one = y * 0 + 1; out = {}
    for a, b, c in K8:
        w = (G if a else one - G) * (P if b else one - P) * (T if c else one - T); out[a, b, c] = (g.sum(w * y), g.sum(w))
    return out
def contrast(m): return (m[1, 1, 1] - m[1, 1, 0]) - (m[1, 0, 1] - m[1, 0, 0]) - ((m[0, 1, 1] - m[0, 1, 0]) - (m[0, 0, 1] - m[0, 0, 0]))

@harness("C10", "eight_cells", ["triple_diff.TripleDifference.fit", "triple_diff.TripleDifference._regression_adjustment", "triple_diff.TripleDifference._ipw_estimation", "triple_diff.TripleDifference._doubly_robust", "triple_diff.TripleDifference._compute_cell_means"], trials=150, deep=1500, timeout=300)
def _(g):
    """for every table with eight occupied cells and each method: att is the contrast of the eight cell means; reported cell means and counts are those of the data."""
    n = g.axis("n", 9, 60); y = g.vec("y", n); G = g.binary("G", n); P = g.binary("P", n); T = g.binary("T", n); C = cells(g, y, G, P, T)
    method = g.choice("method", ["reg", "ipw", "dr"])
    for s, m in C.values(): g.assume(m >= 2 if g.symbolic and method == "dr" else m > 0)   # single-row cells: `tables` (concrete)
    df = g.table(n, out=y, grp=G, part=P, post=T)
    est = g.fn("triple_diff", "TripleDifference")(estimation_method=method)
    if g.symbolic:
        g.stub("triple_diff", "TripleDifference._validate_data", lambda self, *a, **k: None)      # its contract: see `rejects`
        g.assume(n.sint() > 8)
        f = ols_contract(g, 8); g.stub("linalg", "solve_ols", f); g.stub("linalg", "LinearRegression.r_squared", lambda self, *a, **k: 0.0)
        if method == "ipw": g.stub("triple_diff", "TripleDifference._compute_ipw_se", lambda self, *a, **k: g.real("se", lo=0))
        g.stub("utils", "compute_p_value", lambda t, *a, **k: .5); g.stub("utils", "compute_confidence_interval", lambda e, se, alpha, *a, **k: (0.0, 1.0))
    res = est.fit(df, "out", "grp", "part", "post"); mean = {k: s / m for k, (s, m) in C.items()}
    g_, p_, t_ = "Control Treated".split(), "Ineligible Eligible".split(), "Pre Post".split()
    for k in K8: g.eq("reported cell mean", res.group_means[f"{g_[k[0]]}, {p_[k[1]]}, {t_[k[2]]}"], mean[k], rtol=1e-6, atol=1e-8)
    if g.symbolic and method == "reg":
        b = f.b
        for k in K8:
            v = sum(b[j] for j, z in enumerate([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)]) if all(x <= q for x, q in zip(z, k)))
            s, m = C[k]; g.lemma_eq(f"cell sum {k} is count times fitted cell value", s, m * v); g.lemma_eq(f"fitted value of cell {k} is its mean", v, s / m)
    g.eq("att is the eight-cell contrast", res.att, contrast(mean), rtol=1e-6, atol=1e-8)
    g.eq("n_obs", res.n_obs, g.sum(y * 0 + 1))
    for nm, a, b in (("n_treated_eligible", 1, 1), ("n_treated_ineligible", 1, 0), ("n_control_eligible", 0, 1), ("n_control_ineligible", 0, 0)): g.eq(nm, getattr(res, nm), C[a, b, 0][1] + C[a, b, 1][1])
    g.cover()

def variance(df, y="y", k=()):
    """sum over the eight cells of sample variance over cell size (a single-row cell contributes nothing)"""
    return sum(x[y].var(ddof=1) / len(x) if len(x) > 1 else 0.0 for _, x in df.groupby(["group", "partition", "time"]))
def fit(g, df, **kw):
    cov = kw.pop("covariates", None)
    with warnings.catch_warnings(): warnings.simplefilter("ignore"); return g.fn("triple_diff", "TripleDifference")(**kw).fit(df, "y", "group", "partition", "time", **({"covariates": cov} if cov else {}))
def means(df, y="y"): return {k: df.loc[(df.group == k[0]) & (df.partition == k[1]) & (df.time == k[2]), y].mean() for k in K8}

@harness("C10", "standard_error", ["triple_diff.TripleDifference._doubly_robust", "triple_diff.TripleDifference._compute_ipw_se"], bound="cells of at least two rows", timeout=200)
def _(g):
    """for every table (no covariates): the doubly robust variance is the sum over the eight cells of sample variance over cell size; the estimate does not use the level."""
    n = g.axis("n", 16, 60); y = g.vec("y", n); G = g.binary("G", n); P = g.binary("P", n); T = g.binary("T", n); C = cells(g, y, G, P, T)
    for s, m in C.values(): g.assume(m >= 2)
    one = y * 0 + 1; est = g.fn("triple_diff", "TripleDifference")()
    att, se, r2, ps = g.internal(lambda: est._doubly_robust(y, G, P, T, None))
    V = 0
    for a, b, c in K8:
        m = C[a, b, c][1]; v = g.devsq(y[(G == a) & (P == b) & (T == c)]) / (m - 1) / m; g.lemma("cell variance is non-negative", v >= 0); V = V + v
    g.eq("variance is the sum of the cell variances", se * se, V, rtol=1e-6, atol=1e-12); g.le("se is non-negative", 0.0, se); g.ensure("no propensity scores are reported", ps is None)
    g.cover()

@harness("C10", "adjusted_kernels", ["triple_diff.TripleDifference._ipw_estimation", "triple_diff.TripleDifference._doubly_robust", "triple_diff.TripleDifference._compute_ipw_se"], conc=False, bound="two covariates; any number of rows (at least two in each cell)", timeout=300)
def _(g):
    """with covariates, any number of rows, whatever the logits and the outcome regressions deliver (by contract: scores; one coefficient vector per cell and period): the weighting estimate is the contrast of the treated means and the comparison means weighted by clipped odds, the doubly robust one that of treated means and average predictions plus weighted mean residuals; the doubly robust variance is the sum over the cells of variance over size, the weighting variance that of the weighted deviations from the cells' weighted means."""
    n = g.axis("n", 16); y = g.vec("y", n); G, P, T = g.binary("G", n), g.binary("P", n), g.binary("T", n); C = cells(g, y, G, P, T); Q = g.np(); m = g.choice("method", ["ipw", "dr"]); x = [g.vec(f"x{i}", n) for i in range(2)]; X = Q.column_stack(x); pG, pP = g.vec("pG", n), g.vec("pP", n)
    for s, k in C.values(): g.assume(k >= 2)
    sel = {k: (G == k[0]) & (P == k[1]) & (T == k[2]) for k in K8}; beta = {k: g.reals(f"b{k}", 3) for k in K8}
    def logit_(X_, z, *a, **k):
        if z is G: return None, pG
        if z is P: return None, pP
        from ..core import Unsupported; raise Unsupported("logit of another variable")
    def regress(X_, y_, *a, **kw):
        for k in K8:
            if y_.axes[0] is y[sel[k]].axes[0]: g.eq("outcomes of the cell", y_, y[sel[k]]); return Q.array(list(beta[k])), None, None
        from ..core import Unsupported; raise Unsupported("regression on another subset")
    g.stub("triple_diff", "_logistic_regression", logit_); g.stub("triple_diff", "_linear_regression", regress); est = g.fn("triple_diff", "TripleDifference")(pscore_trim=.05)
    clip = lambda v: Q.clip(v, .05, .95); a, b = clip(pG), clip(pP); pr = {(1, 1): clip(a * b), (1, 0): clip(a * (1 - b)), (0, 1): clip((1 - a) * b), (0, 0): clip((1 - a) * (1 - b))}
    for k in K8:
        if k[:2] != (1, 1): g.assume(g.sum((pr[1, 1] / pr[k[:2]])[sel[k]]) > 0)   # a sum of positive odds over a non-empty cell
    att, se, r2, ps = g.internal(lambda: (est._ipw_estimation if m == "ipw" else est._doubly_robust)(y, G, P, T, X))
    want = 0; V = 0
    for t in (0, 1):
        top = sel[1, 1, t]; sg = 1 if t else -1; want = want + sg * y[top].mean(); net = y
        for i, j in ((1, 0), (0, 1), (0, 0)):
            q = sel[i, j, t]; w = (pr[1, 1] / pr[i, j])[q]; W = g.sum(w); s = sg * (1 if i == j else -1)
            if m == "ipw": want = want + s * g.sum(w * y[q]) / W
            else:
                c = beta[i, j, t]; mu = c[0] + c[1] * x[0] + c[2] * x[1]; e = w * (y - mu)[q]; want = want + s * (mu[top].mean() + g.sum(e) / W); net = net + (1 if i == j else -1) * mu; N = C[i, j, t][1]; V = V + g.devsq(e / (W / N)) / (N - 1) / N
        if m == "dr": N = C[1, 1, t][1]; V = V + g.devsq(net[top]) / (N - 1) / N
    g.eq("estimate of the method", att, want)
    if m == "dr": g.eq("variance is the sum over the cells", se * se, V)
    else:
        N = y.shape[0]; S = 0
        for k in K8:
            w = (pr[1, 1] / pr[k[:2]])[sel[k]] if k[:2] != (1, 1) else (y * 0 + 1)[sel[k]]; W = g.sum(w); S = S + g.sumsq(w * (y[sel[k]] - g.sum(w * y[sel[k]]) / W) / (W / N))
        g.eq("variance is the mean square of the influence values", se * se, S / (N - 1) / N)
    g.le("standard error is non-negative", 0.0, se); g.cover()

@harness("C10", "logit_kernel", ["triple_diff._logistic_regression"], conc=False, bound="three rows, one or two covariates; all values with linear predictors within 500 (the overflow clip)")
def _(g):
    """whatever point the optimiser stops at: it is asked to minimise minus the log-likelihood of the intercept-and-covariates logit from zero with its gradient -X'(y - p); the coefficients and scores returned are those of that point, strictly between 0 and 1."""
    logit_kernel(g, "triple_diff")

@harness("C10", "tables", ["triple_diff.TripleDifference.fit", "triple_diff.TripleDifference._regression_adjustment", "triple_diff.TripleDifference._ipw_estimation", "triple_diff.TripleDifference._doubly_robust", "triple_diff.triple_difference"], sym=False, bound="random tables up to 60 rows", trials=150, deep=2500)
def _(g):
    """estimate, standard error, t, p, interval, counts and cell means of every method equal independently computed values; shift, scale, row order, index labels and relabelling."""
    r = g.rng; sizes = r.integers(1 if r.random() < .4 else 2, 9, size=(2, 2, 2)); df = D.ddd(r, sizes, noise=float(10 ** r.uniform(-1, 1))); df["y"] += float(r.choice([0, 1000.0]))
    if r.random() < .4: df[["group", "partition", "time"]] = df[["group", "partition", "time"]].astype(r.choice(["float", "bool", "int8"]))
    if r.random() < .4: df.index = r.integers(0, 9, len(df))
    if sizes.sum() <= 9: raise Skip
    m = ["reg", "ipw", "dr"][int(r.integers(3))]; robust = bool(r.random() < .6); alpha = float(r.choice([.05, .2])); kw = dict(estimation_method=m, robust=robust, alpha=alpha)
    if r.random() < .5: res = fit(g, df, **kw)
    else: res = g.fn("triple_diff", "triple_difference")(df, "y", "group", "partition", "time", **kw)
    mu = means(df); n = len(df); g.eq("att is the eight-cell contrast", res.att, contrast(mu), rtol=1e-6, atol=1e-7)
    cl = df.groupby(["group", "partition", "time"]).y; dev = (df.y - cl.transform("mean")).values; N = cl.transform("count").values.astype(float)
    if m == "dr": se = math.sqrt(variance(df))
    elif m == "ipw": se = math.sqrt(np.var(dev * n / N * np.where(df.eval("group == partition"), 1, -1) * np.where(df.time == 1, 1, -1), ddof=1) / n)
    elif robust: se = math.sqrt(np.sum((dev / N) ** 2) * n / (n - 8))
    else: se = math.sqrt(np.sum(dev ** 2) / (n - 8) * np.sum(1 / sizes))
    g.eq("standard error", res.se, se, rtol=1e-6, atol=1e-9)
    if se > 1e-6:
        t, p, ci = O.inference(res.att, res.se, n - 8, alpha); g.eq("t, p, interval", [res.t_stat, res.p_value, *res.conf_int], [t, p, *ci], rtol=1e-6)
    for k in K8: g.eq("reported cell mean", res.group_means[f"{'Treated' if k[0] else 'Control'}, {'Eligible' if k[1] else 'Ineligible'}, {'Post' if k[2] else 'Pre'}"], mu[k], rtol=1e-9)
    S = sizes.sum(axis=2); g.eq("counts", [res.n_obs, res.n_control_ineligible, res.n_control_eligible, res.n_treated_ineligible, res.n_treated_eligible], [n, *S.ravel()])
    g.ensure("settings are reported", res.estimation_method == m and res.alpha == alpha and len(res.group_means) == 8)
    a, b = float(r.normal() * 50), float(r.choice([-2.0, .01, 300.0]))
    df2 = df.assign(y=a + b * df.y); q = fit(g, df2.sample(frac=1, random_state=int(r.integers(99))), **kw)
    g.eq("shift and scale: estimate", q.att, b * res.att, rtol=1e-6, atol=1e-6 * abs(b) * (1 + df.y.abs().max())); g.eq("shift and scale: standard error", q.se, abs(b) * res.se, rtol=1e-5, atol=1e-8 * abs(b) * (1 + df.y.abs().max()))
    col = ["group", "partition", "time"][int(r.integers(3))]; q = fit(g, df.assign(**{col: 1 - df[col].astype(int)}), **kw)
    g.eq("relabelling flips the sign", q.att, -res.att, rtol=1e-6, atol=1e-7 * (1 + df.y.abs().max())); g.eq("relabelling keeps the standard error", q.se, res.se, rtol=1e-5, atol=1e-8 * (1 + df.y.abs().max()))
    g.cover()

@harness("C10", "covariates", ["triple_diff.TripleDifference._regression_adjustment", "triple_diff.TripleDifference._ipw_estimation", "triple_diff.TripleDifference._doubly_robust"], sym=False, bound="random tables up to 120 rows, 1-3 covariates", trials=40, deep=500)
def _(g):
    """with covariates: regression adjustment is the triple interaction of the full regression; every method is equivariant to shift and scale of the outcome and to the order of rows and covariates, and equals the contrast when outcomes are cell means exactly."""
    r = g.rng; k = int(r.integers(1, 4)); sizes = r.integers(5, 14, size=(2, 2, 2)); df = D.ddd(r, sizes, cov=k); xs = [f"x{j}" for j in range(k)]
    df["y"] += df[xs].sum(axis=1) * r.normal(); m = ["reg", "ipw", "dr"][int(r.integers(3))]; robust = bool(r.random() < .5); kw = dict(estimation_method=m, robust=robust, covariates=xs)
    res = fit(g, df, **kw)
    G, P, T = (df[c].values.astype(float) for c in ("group", "partition", "time")); X = np.column_stack([np.ones(len(df)), G, P, T, G * P, G * T, P * T, G * P * T, df[xs].values])
    if m == "reg":
        b, u, V = O.ols(X, df.y.values, "robust" if robust else "classical"); g.eq("att is the triple interaction", res.att, b[7], rtol=1e-6, atol=1e-9); g.eq("standard error", res.se, math.sqrt(V[7, 7]), rtol=1e-6)
    t, p, ci = O.inference(res.att, res.se, max(len(df) - 8 - k, 1), .05); g.eq("t, p, interval", [res.t_stat, res.p_value, *res.conf_int], [t, p, *ci], rtol=1e-6)
    a, b = float(r.normal() * 20), float(r.choice([-2.0, 5.0])); q = fit(g, df.assign(y=a + b * df.y).sample(frac=1, random_state=int(r.integers(99))), **{**kw, "covariates": xs[::-1]})
    g.eq("shift and scale: estimate", q.att, b * res.att, rtol=1e-4, atol=1e-5 * (1 + abs(a))); g.eq("shift and scale: standard error", q.se, abs(b) * res.se, rtol=1e-4)
    mu = means(df); v = np.array([mu[int(i), int(j), int(l)] for i, j, l in zip(G, P, T)]); q = fit(g, df.assign(y=v), **kw)
    g.eq("an outcome constant within cells gives its contrast", q.att, contrast(mu), rtol=1e-5, atol=1e-6)
    g.cover()

@harness("C10", "adjustment", ["triple_diff.TripleDifference.fit", "triple_diff.TripleDifference._ipw_estimation", "triple_diff.TripleDifference._doubly_robust", "triple_diff.TripleDifference._compute_ipw_se", "triple_diff._logistic_regression", "triple_diff._linear_regression"], sym=False, bound="random tables of 120-240 rows, 1-2 covariates", trials=40, deep=400)
def _(g):
    """with covariates the weighting and doubly robust estimates and standard errors equal an independent computation (cell odds from two logits, one outcome model per cell and period); a doubly robust estimate is exact when the outcome is linear in the covariates, whatever the cells' covariate distributions."""
    r = g.rng; k = int(r.integers(1, 3)); sizes = r.integers(15, 30, size=(2, 2, 2)); df = D.ddd(r, sizes, cov=k); xs = [f"x{j}" for j in range(k)]; df = df.sample(frac=1, random_state=int(r.integers(99)))
    df["x0"] += .5 * df.group - .4 * df.partition + .5 * df.group * df.time * df.partition; df["y"] += (df[xs] * r.normal(size=k)).sum(axis=1) * (1 + df.group * r.normal()) + df.x0 ** 2 * r.normal()
    m = ["ipw", "dr"][int(r.integers(2))]; trim = float(r.choice([.01, .01, .1, .3])); res = fit(g, df, estimation_method=m, pscore_trim=trim, covariates=xs)
    G, P, T, y = (df[c].values.astype(float) for c in ("group", "partition", "time", "y")); n = len(df); X = np.column_stack([np.ones(n), df[xs].values])
    ce = lambda p: np.clip(p, trim, 1 - trim); pG, pP = ce(logit(X, G)), ce(logit(X, P)); pr = {(a, b): ce((pG if a else 1 - pG) * (pP if b else 1 - pP)) for a in (0, 1) for b in (0, 1)}
    att = V = 0; inf = np.zeros(n)
    for t in (0, 1):
        top = (G == 1) & (P == 1) & (T == t); net = y.copy(); st = 1 if t else -1
        for a, b in ((1, 1), (1, 0), (0, 1), (0, 0)):
            q = (G == a) & (P == b) & (T == t); w = pr[1, 1][q] / pr[a, b][q]; s = st * (1 if a == b else -1); w = w / w.mean()
            if m == "ipw": mean = (w * y[q]).mean(); att += s * mean; inf[q] = s * w * (y[q] - mean) * n / q.sum()
            elif (a, b) == (1, 1): att += s * y[q].mean()
            else:
                mu = X @ np.linalg.lstsq(X[q], y[q], rcond=None)[0]; e = w * (y[q] - mu[q]); att += s * (mu[top].mean() + e.mean()); net = net + (1 if a == b else -1) * mu; V += e.var(ddof=1) / q.sum()
        V += net[top].var(ddof=1) / top.sum()
    g.eq("estimate of the method", res.att, att, rtol=1e-4, atol=1e-4); g.eq("standard error of the method", res.se, math.sqrt(V if m == "dr" else inf.var(ddof=1) / n), rtol=1e-4)
    g.eq("reported propensity scores", [res.pscore_stats[x] for x in ("P(G=1) mean", "P(G=1) std", "P(P=1) mean", "P(P=1) std")], [pG.mean(), pG.std(), pP.mean(), pP.std()], rtol=1e-5, atol=1e-6)
    if m == "dr":
        mu = means(df); v = np.array([mu[int(i), int(j), int(l)] for i, j, l in zip(G, P, T)]); c = r.normal(size=k) * 3; q = fit(g, df.assign(y=v + df[xs].values @ c), covariates=xs, pscore_trim=trim)
        g.eq("exact when the outcome model is", q.att, contrast(mu), rtol=1e-6, atol=1e-6)
    g.cover()

@harness("C10", "rejects", ["triple_diff.TripleDifference._validate_data", "triple_diff.TripleDifference.__init__"], sym=False, bound="enumerated malformed inputs", trials=30, deep=200)
def _(g):
    """missing columns, missing values, non-binary or constant indicators, an empty cell, a non-table or an unknown method are rejected."""
    r = g.rng; df = D.ddd(r); col = ["group", "partition", "time"][int(r.integers(3))]; E = g.fn("triple_diff", "TripleDifference"); m = ["reg", "ipw", "dr"][int(r.integers(3))]
    def bad(what, d, exc=ValueError, **kw): g.raises(what, exc, lambda: fit(g, d, estimation_method=m, **kw))
    for c in ("y", col): bad("missing column", df.drop(columns=c)); d = df.copy(); d[c] = d[c].astype(float); d.loc[int(r.integers(len(d))), c] = np.nan; bad("missing value", d)
    bad("missing covariate", df, covariates=["nope"]); d = df.assign(x=1.0 * np.arange(len(df))); d.loc[0, "x"] = np.nan; bad("missing covariate value", d, covariates=["x"])
    d = df.copy(); d.loc[0, col] = 2; bad("non-binary indicator", d); bad("constant indicator", df.assign(**{col: 1})); bad("not a table", df.to_dict(), TypeError)
    k = K8[int(r.integers(8))]; bad("empty cell", df[~((df.group == k[0]) & (df.partition == k[1]) & (df.time == k[2]))])
    g.raises("unknown method", ValueError, lambda: E(estimation_method="DR")); g.raises("unknown rank action", ValueError, lambda: E(rank_deficient_action="x"))
    g.cover()
