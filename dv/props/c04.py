"""C04: 2x2 DiD equals the difference in differences of cell means."""
import warnings
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D

def ols_contract(g, k, nan=()):
    """solve_ols by contract (C02): returns b with X'(y - X b) = 0, the residuals and fitted values of b, and some covariance."""
    def solve_ols(X, y, **kw):
        b = solve_ols.b = g.reals("b", k); V = np.array([[g.real(f"V{i}{j}") for j in range(k)] for i in range(k)], dtype=object)
        fit = X @ b; u = y - fit
        g.assume_eq(X.T @ u, np.zeros(k))
        if kw.get("return_vcov", True) is False: V = None
        solve_ols.calls.append((X, y, kw, V))
        return (b, u, fit, V) if kw.get("return_fitted") else (b, u, V)
    solve_ols.calls = []
    return solve_ols

def cells(g, y, d, t):
    """sums and counts of the four cells, as (sum, count) by (d, t)"""
    one = y * 0 + 1
    S = lambda w: g.sum(w)
    out = {}
    for a in (0, 1):
        for b in (0, 1):
            w = (d if a else one - d) * (t if b else one - t)
            out[a, b] = (S(w * y), S(w))
    return out

@harness("C04", "two_by_two", ["estimators.DifferenceInDifferences.fit", "linalg.LinearRegression.fit"], trials=120, deep=1500)
def _(g):
    """for every table with four occupied cells: att is the difference in differences of cell means; n_obs, n_treated, n_control count rows."""
    n = g.axis("n", 5, 40); y = g.vec("y", n); d = g.binary("d", n); t = g.binary("t", n)
    C = cells(g, y, d, t)
    for k, (s, m) in C.items(): g.assume(m > 0)
    robust = g.choice("robust", [True, False])
    df = g.table(n, out=y, trt=d, post=t)
    if g.symbolic:
        g.stub("linalg", "solve_ols", ols_contract(g, 4))
        g.stub("utils", "validate_binary", lambda a, name: None)      # its contract: raises iff a value is not 0/1 (see `rejects`)
    est = g.fn("estimators", "DifferenceInDifferences")(robust=robust)
    how = g.choice("interface", ["columns", "formula *", "formula :"])
    if g.symbolic: g.assume(n.sint() > 4)
    if how == "columns": res = est.fit(df, outcome="out", treatment="trt", time="post")
    elif how == "formula *": res = est.fit(df, formula="out ~ trt * post")
    else: res = est.fit(df, formula="out ~ trt + post + trt:post")
    if g.symbolic:
        b = est._coefficients
        # the normal equations in cell form
        eqs = {(0, 0): b[0], (0, 1): b[0] + b[2], (1, 0): b[0] + b[1], (1, 1): b[0] + b[1] + b[2] + b[3]}
        for k, v in eqs.items():
            s, m = C[k]; g.lemma_eq(f"cell sum {k} is count times fitted cell value", s, m * v)
            g.lemma_eq(f"fitted value of cell {k} is its mean", v, s / m)
    mean = {k: s / m for k, (s, m) in C.items()}
    g.eq("att is the double difference of cell means", res.att, (mean[1, 1] - mean[1, 0]) - (mean[0, 1] - mean[0, 0]), rtol=1e-6, atol=1e-8)
    g.eq("n_obs", res.n_obs, g.sum(y * 0 + 1)); g.eq("n_treated + n_control = n_obs", res.n_treated + res.n_control, res.n_obs)
    if not g.symbolic: g.eq("n_treated", res.n_treated, np.sum(d))
    g.eq("coefficient table", res.coefficients["trt:post"], res.att)
    g.cover()

def rows(ind, x): return sum(ind[1:], ind[0]) if len(ind) > 1 else ind[0]

@harness("C04", "multi_period", ["estimators.MultiPeriodDiD.fit"], bound="three periods (any number of rows)", trials=120, deep=1500, timeout=200)
def _(g):
    """each post-period effect is the treated-control gap of that period minus the pre-period gap (precision-weighted over pre-periods, so the reference gap when there is one); average effect is their plain mean; counts and periods."""
    n = g.axis("n", 8, 50); y = g.vec("y", n); d = g.binary("d", n)
    per = g.choice("codes", [[1, 2, 3], [2001, 2004, 2005], [-1, 0, 5]]) if not g.symbolic else [1, 2, 3]
    t, I = g.codes("t", n, per)
    one = y * 0 + 1
    m = {}; c = {}
    for j, p in enumerate(per):
        for a in (0, 1):
            w = (d if a else one - d) * I[j]; c[a, j] = g.sum(w); g.assume(c[a, j] > 0); m[a, j] = g.sum(w * y) / c[a, j]
    npre = g.choice("pre", [1, 2]); pre = list(range(npre)); post = list(range(npre, 3))
    ref = g.choice("reference", [None] + pre)
    robust = True if g.symbolic else g.choice("robust", [True, False])
    df = g.table(n, out=y, trt=d, t=t)
    if g.symbolic:
        f = ols_contract(g, 4 + len(post)); g.stub("linalg", "solve_ols", f)
        g.stub("utils", "validate_binary", lambda a, name: None)
        g.assume(n.sint() > 6)
        est = g.fn("estimators", "MultiPeriodDiD")(robust=robust)
        g.stub("utils", "compute_p_value", lambda *a, **k: g.real("pv")); g.stub("utils", "compute_confidence_interval", lambda *a, **k: (g.real("lo"), g.real("hi")))
    else: est = g.fn("estimators", "MultiPeriodDiD")(robust=robust)
    res = est.fit(df, outcome="out", treatment="trt", time="t", post_periods=[per[j] for j in post], reference_period=None if ref is None else per[ref])
    gap = {j: m[1, j] - m[0, j] for j in range(3)}
    if g.symbolic:
        b = est._coefficients; co = res.coefficients
        r = per[pre[0] if ref is None else ref]
        base = lambda j: b[0] + (co[f"period_{per[j]}"] if per[j] != r else 0)
        eff = lambda j: co[f"trt:period_{per[j]}"] if j in post else 0
        for j in post:
            g.lemma_eq("control mean of a post period is fitted", m[0, j] * c[0, j], c[0, j] * base(j)); g.lemma_eq("control post mean", m[0, j], base(j))
            g.lemma_eq("treated mean of a post period is fitted", m[1, j] * c[1, j], c[1, j] * (base(j) + b[1] + eff(j))); g.lemma_eq("treated post mean", m[1, j], base(j) + b[1] + eff(j))
        if npre == 1:
            g.lemma_eq("control pre mean is fitted", m[0, 0] * c[0, 0], c[0, 0] * base(0)); g.lemma_eq("control pre mean", m[0, 0], base(0))
            g.lemma_eq("treated pre mean is fitted", m[1, 0] * c[1, 0], c[1, 0] * (base(0) + b[1])); g.lemma_eq("treated pre mean", m[1, 0], base(0) + b[1])
        else:
            for j in pre: g.lemma_eq("pre-period mean is fitted", m[0, j] * c[0, j] + m[1, j] * c[1, j], c[0, j] * base(j) + c[1, j] * (base(j) + b[1]))
            g.lemma_eq("treated pre rows are fitted", sum(m[1, j] * c[1, j] for j in pre), sum(c[1, j] * (base(j) + b[1]) for j in pre))
    if npre == 1: pregap = gap[0]
    else:
        w = {j: c[0, j] * c[1, j] / (c[0, j] + c[1, j]) for j in pre}
        pregap = sum(w[j] * gap[j] for j in pre) / sum(w[j] for j in pre)
        if g.symbolic:
            for j in pre: g.lemma_eq("pre-period gap identity", w[j] * gap[j] - w[j] * b[1], c[1, j] * (m[1, j] - base(j) - b[1]) )
            g.lemma_eq("treatment coefficient balances the gaps", sum(w[j] * gap[j] for j in pre), b[1] * sum(w[j] for j in pre))
            for j in pre: g.lemma("positive precision", w[j] > 0)
            g.lemma_eq("treatment coefficient is the pooled pre gap", b[1], pregap)
    for j in post:
        g.eq("effect of a post period", res.period_effects[per[j]].effect, gap[j] - pregap, rtol=1e-6, atol=1e-8)
    g.ensure("one effect per post period, in order", list(res.period_effects) == [per[j] for j in post])
    g.eq("average effect is the plain mean", res.avg_att, sum(res.period_effects[per[j]].effect for j in post) / len(post))
    g.eq("pre periods", list(res.pre_periods), [per[j] for j in pre]); g.eq("post periods", list(res.post_periods), [per[j] for j in post])
    g.eq("counts add up", res.n_treated + res.n_control, res.n_obs)
    names = list(res.coefficients)
    ix = [names.index(f"trt:period_{per[j]}") for j in post]
    V = res.vcov
    var = sum(V[i, k] for i in ix for k in ix) / len(post) ** 2
    if g.symbolic: g.ensure("average variance is the plain quadratic form", g.implies(var > 0, g.same(res.avg_se, g.sqrt(var))))
    else: g.eq("average variance is the plain quadratic form", res.avg_se ** 2, var)
    for i, j in zip(ix, post):
        if not g.symbolic: g.eq("period se is the root of its variance", res.period_effects[per[j]].se ** 2, V[i, i])
    g.cover()

# ------------------------------------------------------------------ concrete stand-ins: every option of fit
from .. import oracle as O

def draw_did(g, r, need_cells=True, T=None):
    """random unbalanced table with cells, covariates, a categorical and a cluster column, odd names, index and row order"""
    n = int(r.integers(14, 60)); d = (r.random(n) < r.uniform(.25, .75)).astype(int); p = (r.random(n) < r.uniform(.25, .75)).astype(int)
    df = pd.DataFrame({"trt": d, "post": p, "x0": r.normal(size=n), "x1": r.integers(0, 4, n) * 1.0,
                       "fe": r.integers(0, 4, n), "state": np.array(list("pqrs"))[r.integers(0, 4, n)], "cl": r.integers(0, 6, n)})
    df["y"] = r.normal(size=n) * 10 ** r.uniform(-1, 2) + 2 * d - p + 3 * d * p + df.x0 * 1.7 + df.fe * .4 + r.normal() * 30
    if r.random() < .3: df["y"] = df["y"].round().astype(int)
    if r.random() < .3: df["trt"] = df["trt"].astype(bool).astype(float)
    if r.random() < .3: df.index = r.permutation(n) * 3 + 11
    if r.random() < .2: df["cl"] = df["cl"].map(lambda v: "c%d" % (9 - v))
    if any(((d == a) & (p == b)).sum() < 2 for a in (0, 1) for b in (0, 1)): raise Skip()
    return df

@harness("C04", "full_regression", ["estimators.DifferenceInDifferences.fit", "estimators.DifferenceInDifferences._parse_formula"], sym=False, trials=220, deep=2500)
def _(g):
    """with covariates and fixed-effect dummies: estimate, se, t, p, ci, degrees of freedom, R2 and coefficient table are those of the full regression (classical, robust, clustered)."""
    r = g.rng; df = draw_did(g, r); before = df.copy()
    covs = [["x0"], ["x0", "x1"], ["x1"], None][int(r.integers(4))]; fes = [["fe"], ["state"], ["fe", "state"], None, None][int(r.integers(5))]
    mode = g.choice("mode", ["classical", "robust", "cluster"]); alpha = float(r.choice([.05, .1, .01, .2]))
    kw = dict(robust=mode != "classical", alpha=alpha, cluster="cl" if mode == "cluster" else None)
    if mode == "cluster" and r.random() < .3: kw["robust"] = False
    if df.cl.nunique() < 2: raise Skip()
    est = g.fn("estimators", "DifferenceInDifferences")(**kw); how = g.choice("interface", ["columns", "*", ":", ": reversed"])
    if how == "columns": res = est.fit(df, outcome="y", treatment="trt", time="post", covariates=covs, fixed_effects=fes)
    else:
        cv = "".join(f" + {c}" for c in covs or [])
        f = {"*": "y ~ trt * post" + cv, ":": "y ~ trt + post + trt:post" + cv, ": reversed": "y~post+trt" + cv + "+trt:post"}[how]
        res = est.fit(df, formula=f, fixed_effects=fes)
    d = df.trt.to_numpy(float); p = df.post.to_numpy(float)
    X = np.column_stack([np.ones(len(df)), d, p, d * p] + [df[c].to_numpy(float) for c in covs or []] + [O.dummies(df[f]) for f in fes or []])
    keep = O.independent(X)
    if len(keep) < X.shape[1] or 3 not in keep or len(df) <= len(keep) + 2 or np.linalg.cond(X) > 1e6: raise Skip()
    b, u, V = O.ols(X, df.y.to_numpy(float), mode, df.cl if mode == "cluster" else None)
    se = np.sqrt(V[3, 3]); t, pv, ci = O.inference(b[3], se, len(df) - X.shape[1], alpha)
    if se < 1e-9 * (abs(df.y).max() + 1): raise Skip()
    for nm, a, c in (("att", res.att, b[3]), ("se", res.se, se), ("t", res.t_stat, t), ("p", res.p_value, pv), ("ci", res.conf_int, ci), ("alpha", res.alpha, alpha),
                     ("n_obs", res.n_obs, len(df)), ("n_treated", res.n_treated, d.sum()), ("n_control", res.n_control, (1 - d).sum()),
                     ("residuals", res.residuals, u), ("fitted", res.fitted_values, df.y - u), ("vcov", res.vcov, V),
                     ("R2", res.r_squared, 1 - u @ u / np.sum((df.y - df.y.mean()) ** 2))):
        g.eq(nm + " is that of the full regression", a, c, rtol=1e-5, atol=1e-7)
    names = ["const", "trt", "post", "trt:post"] + (covs or [])
    for i, nm in enumerate(names): g.eq("coefficient " + nm, res.coefficients[nm], b[i], rtol=1e-5, atol=1e-7)
    g.ensure("method label", res.inference_method == "analytical")
    g.ensure("data untouched", df.equals(before))

@harness("C04", "shift_scale_order", ["estimators.DifferenceInDifferences.fit", "estimators.MultiPeriodDiD.fit", "twfe.TwoWayFixedEffects.fit"], sym=False, trials=120, deep=1200)
def _(g):
    """shifting the outcome changes nothing; scaling by c scales effect, se and interval; row order and index labels do not matter."""
    r = g.rng; which = g.choice("estimator", ["did", "did cov", "multi", "twfe"])
    c = float(r.choice([2.0, .5, -3.0, 1e3, 1e-3])); s = float(r.choice([1.0, -7.5, 1e4])); robust = g.choice("robust", [True, False]); cl = g.choice("cluster", [None, "cl"])
    if which.startswith("did"):
        df = draw_did(g, r)
        if cl and df.cl.nunique() < 2: raise Skip()
        go = lambda d: g.fn("estimators", "DifferenceInDifferences")(robust=robust, cluster=cl).fit(d, outcome="y", treatment="trt", time="post", covariates=["x0"] if "cov" in which else None, fixed_effects=["fe"] if "cov" in which else None)
        view = lambda q: [q.att, q.se, *q.conf_int], lambda q: [q.t_stat, q.p_value, q.r_squared]
    else:
        df = D.did_panel(r, int(r.integers(6, 14)), int(r.integers(1, 4)), int(r.integers(1, 3))); df["cl"] = df.unit // 2
        if which == "multi":
            go = lambda d: g.fn("estimators", "MultiPeriodDiD")(robust=robust, cluster=cl).fit(d, "y", "treated", "time", post_periods=sorted(d.time[d.post == 1].unique()))
            view = lambda q: [q.avg_att, q.avg_se, *q.avg_conf_int] + [v for e in q.period_effects.values() for v in (e.effect, e.se, *e.conf_int)], lambda q: [q.avg_t_stat, q.avg_p_value]
        else:
            go = lambda d: g.fn("twfe", "TwoWayFixedEffects")(robust=robust, cluster=cl).fit(d, "y", "treated", "post", "unit")
            view = lambda q: [q.att, q.se, *q.conf_int], lambda q: [q.t_stat, q.p_value]
    a = go(df); sc = abs(df.y).max() + 1
    if not np.isfinite(a.se if hasattr(a, "se") else a.avg_se) or (a.se if hasattr(a, "se") else a.avg_se) < 1e-6 * sc: raise Skip()
    va, ia = np.array(view[0](a), float), np.array(view[1](a), float)
    b = go(df.assign(y=df.y + s)); g.eq("shift leaves effect, se, interval", np.array(view[0](b)), va, rtol=1e-5, atol=1e-7); g.eq("shift leaves t and p", view[1](b)[:2], ia[:2], rtol=1e-5)
    b = go(df.assign(y=df.y * c)); vb = np.array(view[0](b), float); want = va * c
    # intervals swap their ends under a negative scale
    want = want.copy()
    k = 4
    for i in range(0, len(want), k): want[i + 1] = abs(want[i + 1]); want[i + 2:i + 4] = sorted(want[i + 2:i + 4])
    g.eq("scale", vb, want, rtol=1e-5, atol=1e-7); g.eq("scale keeps |t| and p", np.abs(view[1](b)), np.abs(ia), rtol=1e-5, atol=1e-6)
    perm = df.sample(frac=1, random_state=int(r.integers(1 << 30)));
    if r.random() < .5: perm = perm.reset_index(drop=True)
    b = go(perm); g.eq("row order", np.array(view[0](b)), va, rtol=1e-6, atol=1e-8); g.eq("row order (t, p)", view[1](b), ia, rtol=1e-6, atol=1e-8)

@harness("C04", "multi_full_regression", ["estimators.MultiPeriodDiD.fit"], sym=False, trials=160, deep=1500)
def _(g):
    """multi-period with covariates, fixed effects, clusters: period effects, ses, t, p, intervals and the average come from the full regression; default post periods are the later half; default reference is the first pre-period."""
    r = g.rng; n = int(r.integers(30, 90)); T = int(r.integers(2, 6)); codes = [list(range(T)), list(range(2000, 2000 + T)), list(range(-1, T - 1)), [3 * i + 1 for i in range(T)]][int(r.integers(4))]
    t = np.concatenate([np.arange(T), np.arange(T), r.integers(0, T, n - 2 * T)]); d = np.concatenate([np.zeros(T), np.ones(T), (r.random(n - 2 * T) < .5)]).astype(int)
    df = pd.DataFrame(dict(trt=d, t=np.array(codes)[t], x0=r.normal(size=n), fe=r.integers(0, 3, n), cl=r.integers(0, 7, n)))
    df["y"] = r.normal(size=n) + t * .3 + d + d * t * .5 + df.x0 + r.normal() * 5
    df = df.sample(frac=1, random_state=int(r.integers(1 << 30)))
    mode = g.choice("mode", ["classical", "robust", "cluster"]); covs = [None, ["x0"]][int(r.integers(2))]; fes = [None, ["fe"]][int(r.integers(2))]; alpha = float(r.choice([.05, .1, .01]))
    if T > 2 and r.random() < .6:
        post = sorted(r.choice(T, size=int(r.integers(1, T)), replace=False)); 
        if r.random() < .5: post = post[::-1]
        post = [codes[i] for i in post]; arg = list(post)
    else: arg = None; post = codes[T // 2:]
    pre = [c for c in codes if c not in post]; ref = None if r.random() < .5 else pre[int(r.integers(len(pre)))]
    res = g.fn("estimators", "MultiPeriodDiD")(robust=mode != "classical", cluster="cl" if mode == "cluster" else None, alpha=alpha).fit(df, outcome="y", treatment="trt", time="t", post_periods=arg, covariates=covs, fixed_effects=fes, reference_period=ref)
    r0 = pre[0] if ref is None else ref; D_ = df.trt.to_numpy(float)
    nonref = [c for c in codes if c != r0]
    X = np.column_stack([np.ones(n), D_] + [(df.t == c).to_numpy(float) for c in nonref] + [D_ * (df.t == c) for c in post] + [df[c] for c in covs or []] + [O.dummies(df[f]) for f in fes or []]).astype(float)
    if len(O.independent(X)) < X.shape[1] or n <= X.shape[1] + 2: raise Skip()
    b, u, V = O.ols(X, df.y.to_numpy(), mode, df.cl if mode == "cluster" else None); dfr = n - X.shape[1]
    ix = [2 + len(nonref) + i for i in range(len(post))]
    g.ensure("one effect per post period", list(res.period_effects) == list(post)); g.eq("pre and post lists", list(res.pre_periods) + list(res.post_periods), pre + list(post))
    for i, c in zip(ix, post):
        e = res.period_effects[c]; tt, pv, ci = O.inference(b[i], np.sqrt(V[i, i]), dfr, alpha)
        g.eq(f"period effect row", [e.effect, e.se, e.t_stat, e.p_value, *e.conf_int], [b[i], np.sqrt(V[i, i]), tt, pv, *ci], rtol=1e-5, atol=1e-7); g.ensure("period label", e.period == c)
    m = len(ix); av = b[ix].mean(); se = np.sqrt(V[np.ix_(ix, ix)].sum()) / m; tt, pv, ci = O.inference(av, se, dfr, alpha)
    if se > 1e-8: g.eq("average row", [res.avg_att, res.avg_se, res.avg_t_stat, res.avg_p_value, *res.avg_conf_int], [av, se, tt, pv, *ci], rtol=1e-5, atol=1e-7)
    g.eq("counts", [res.n_obs, res.n_treated, res.n_control], [n, d.sum(), n - d.sum()]); g.eq("vcov", res.vcov, V, rtol=1e-5, atol=1e-8); g.eq("residuals", res.residuals, u, rtol=1e-5, atol=1e-7)
    g.eq("R2", res.r_squared, 1 - u @ u / np.sum((df.y - df.y.mean()) ** 2), rtol=1e-6)

@harness("C04", "absorb_balanced", ["estimators.DifferenceInDifferences.fit", "estimators.MultiPeriodDiD.fit", "utils.demean_by_group"], sym=False, trials=80, deep=600)
def _(g):
    """absorb on a balanced panel gives the interaction coefficient of the regression with dummies (unit, unit and period; also with a time-varying covariate when it is demeaned alike)."""
    r = g.rng; df = D.did_panel(r, int(r.integers(4, 12)), int(r.integers(1, 4)), int(r.integers(1, 4)), cov=1)
    df = df.sample(frac=1, random_state=int(r.integers(1 << 30))); ab = [["unit"], ["time"], ["unit", "time"]][int(r.integers(3))]
    cov = ["x0"] if len(ab) == 1 and r.random() < .5 else []
    d, p = df.treated.to_numpy(float), df.post.to_numpy(float)
    multi = r.random() < .4
    if multi:
        codes = sorted(df.time.unique()); post = sorted(df.time[df.post == 1].unique())
        res = g.fn("estimators", "MultiPeriodDiD")().fit(df, "y", "treated", "time", post_periods=post, absorb=ab, covariates=cov)
        X = np.column_stack([np.ones(len(df)), d] + [(df.time == c) for c in codes[1:]] + [d * (df.time == c) for c in post] + [df[c] for c in cov] + [O.dummies(df[a]) for a in ab]).astype(float)
        ix = list(range(2 + len(codes) - 1, 2 + len(codes) - 1 + len(post))); got = [res.period_effects[c].effect for c in post]
    else:
        res = g.fn("estimators", "DifferenceInDifferences")().fit(df, "y", "treated", "post", absorb=ab, covariates=cov)
        X = np.column_stack([np.ones(len(df)), d, p, d * p] + [df[c] for c in cov] + [O.dummies(df[a]) for a in ab]); ix = [3]; got = [res.att]
    order = ix + [j for j in range(X.shape[1]) if j not in ix]       # the interaction is kept, nuisance columns may be redundant
    Xo = X[:, order]; keep = O.independent(Xo); b = np.zeros(X.shape[1]); b[keep] = np.linalg.lstsq(Xo[:, keep], df.y.to_numpy(float), rcond=None)[0]
    g.eq("absorbed estimate is the dummy-regression coefficient", got, b[:len(ix)], rtol=1e-6, atol=1e-8)

@harness("C04", "rejects", ["estimators.DifferenceInDifferences._validate_data", "utils.validate_binary", "estimators.DifferenceInDifferences._parse_formula"], sym=False, trials=60, deep=200)
def _(g):
    """non-binary treatment or time, missing values, unknown columns, single-group data and malformed formulas are rejected; nothing is fitted."""
    r = g.rng; df = draw_did(g, r); est = g.fn("estimators", "DifferenceInDifferences")(); k = g.choice("defect", ["treat2", "post2", "nan y", "nan trt", "no col", "no cov", "one group", "one time", "formula", "fe", "absorb"])
    kw = dict(outcome="y", treatment="trt", time="post"); bad = df.copy(); err = ValueError
    i = int(r.integers(len(df)))
    if k == "treat2": bad["trt"] = bad["trt"].astype(float); bad.iloc[i, bad.columns.get_loc("trt")] = float(r.choice([2, -1, .5]))
    elif k == "post2": bad["post"] = bad["post"].astype(float); bad.iloc[i, bad.columns.get_loc("post")] = float(r.choice([2, -1, .5]))
    elif k == "nan y": bad["y"] = bad["y"].astype(float); bad.iloc[i, bad.columns.get_loc("y")] = np.nan
    elif k == "nan trt": bad["trt"] = bad["trt"].astype(float); bad.iloc[i, bad.columns.get_loc("trt")] = np.nan
    elif k == "no col": kw["outcome"] = "nope"
    elif k == "no cov": kw["covariates"] = ["nope"]
    elif k == "one group": bad["trt"] = 1
    elif k == "one time": bad["post"] = 0
    elif k == "formula": kw = dict(formula=["y trt post", "y ~ trt + post", "y ~ trt * post * x0", "y ~ trt * nope", "y ~ trt*post + nope"][int(r.integers(5))])
    elif k == "fe": kw["fixed_effects"] = ["nope"]
    else: kw["absorb"] = ["nope"]
    g.raises("rejected: " + k, err, lambda: est.fit(bad, **kw)); g.ensure("not marked as fitted", est.is_fitted_ is False)

@harness("C04", "absorb_unbalanced", ["estimators.DifferenceInDifferences.fit", "utils.demean_by_group"], sym=False, trials=1, deep=1)
def _(g):
    """absorb on an unbalanced panel against the regression with unit dummies (fixed input; a recorded finding)."""
    r = np.random.default_rng(5); df = D.did_panel(r, 8, 2, 2, treated=4); df = df[r.random(len(df)) < .75]
    res = g.fn("estimators", "DifferenceInDifferences")().fit(df, "y", "treated", "post", absorb=["unit"])
    d, p = df.treated.to_numpy(float), df.post.to_numpy(float)
    X = np.column_stack([d * p, p, O.dummies(df.unit, False)]); b = np.linalg.lstsq(X, df.y.to_numpy(float), rcond=None)[0]
    g.log["estimate, dummy regression"] = [float(res.att), float(b[0])]
    g.eq("absorbed estimate on an unbalanced panel is the dummy-regression coefficient", res.att, b[0], rtol=1e-6)
