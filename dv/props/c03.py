"""C03: robust and clustered variance equal the sandwich formulas."""
import numpy as np, pandas as pd
from ..harness import harness
from .. import data as D, oracle as O

def sandwich(g, X, u, G, n, k):
    """the variance formula the property states"""
    A = g.inv(X.T @ X)
    if G is None:
        W = X * u[:, None]
        return (A @ (W.T @ W) @ A) * (n / (n - k))
    S = G.T @ (X * u[:, None]); m = G.shape[1]
    return (A @ (S.T @ S) @ A) * ((m / (m - 1)) * ((n - 1) / (n - k)))

@harness("C03", "robust_vcov", ["linalg.compute_robust_vcov", "linalg._compute_robust_vcov_numpy", "utils.compute_robust_se"])
def _(g):
    """HC1: (X'X)^-1 X' diag(u^2) X (X'X)^-1 * n/(n-k) for every n > k, every full-rank design, every residual vector."""
    n = g.axis("n", 2, 25); k = g.axis("k", 1, 5)
    X = g.fullrank("X", n, k); u = g.vec("u", n)
    g.assume(X.shape[0] > X.shape[1])
    for mod, f in (("linalg", "compute_robust_vcov"), ("linalg", "_compute_robust_vcov_numpy"), ("utils", "compute_robust_se")):
        V = g.fn(mod, f)(X, u)
        g.eq(f + " equals HC1", V, sandwich(g, X, u, None, X.shape[0], X.shape[1]), rtol=1e-5)
        g.eq(f + " symmetric", V, V.T, rtol=1e-6)
    g.cover()

@harness("C03", "cluster_vcov", ["linalg.compute_robust_vcov", "linalg._compute_robust_vcov_numpy", "utils.compute_robust_se"])
def _(g):
    """clustered: sum over clusters of outer products of score sums, times G/(G-1)*(n-1)/(n-k); labels enter only through the partition."""
    n = g.axis("n", 2, 25); k = g.axis("k", 1, 4); m = g.axis("m", 2, 8)
    X = g.fullrank("X", n, k); u = g.vec("u", n); lab, G = g.labels("c", n, m)
    g.assume(X.shape[0] > X.shape[1]); g.assume(G.shape[1] >= 2)
    for mod, f in (("linalg", "compute_robust_vcov"), ("linalg", "_compute_robust_vcov_numpy"), ("utils", "compute_robust_se")):
        V = g.fn(mod, f)(X, u, lab)
        g.eq(f + " equals the clustered sandwich", V, sandwich(g, X, u, G, X.shape[0], X.shape[1]), rtol=1e-5)
        g.eq(f + " symmetric", V, V.T, rtol=1e-6)
    g.cover()

@harness("C03", "scaling", ["linalg._compute_robust_vcov_numpy"])
def _(g):
    """covariance scales with the square of the residual scale (both variants)."""
    n = g.axis("n", 3, 20); k = g.axis("k", 1, 3); m = g.axis("m", 2, 6)
    X = g.fullrank("X", n, k); u = g.vec("u", n); lab, G = g.labels("c", n, m); s = g.real("s")
    g.assume(X.shape[0] > X.shape[1]); g.assume(G.shape[1] >= 2)
    f = g.fn("linalg", "_compute_robust_vcov_numpy")
    g.eq("HC1 scales", f(X, u * s), f(X, u) * (s * s), rtol=1e-6)
    g.eq("clustered scales", f(X, u * s, lab), f(X, u, lab) * (s * s), rtol=1e-6)

@harness("C03", "one_cluster_rejected", ["linalg._compute_robust_vcov_numpy"])
def _(g):
    """fewer than two clusters: ValueError."""
    n = g.axis("n", 3, 12); m = g.axis("m", 1, 1)
    X = g.fullrank("X", n, 1); u = g.vec("u", n); lab, G = g.labels("c", n, m)
    g.assume(G.shape[1] == 1)
    g.raises("ValueError for one cluster", ValueError, lambda: g.fn("linalg", "_compute_robust_vcov_numpy")(X, u, lab))

@harness("C03", "psd_small", ["linalg._compute_robust_vcov_numpy"], bound="designs with one or two columns", trials=60)
def _(g):
    """diagonal entries (variances) are non-negative and the 2x2 determinant is non-negative."""
    n = g.axis("n", 3, 20)
    X = g.fullrank("X", n, g.choice("k", [1, 2]) if not g.symbolic else 1); u = g.vec("u", n)
    g.assume(X.shape[0] > X.shape[1])
    V = g.fn("linalg", "_compute_robust_vcov_numpy")(X, u)
    for i in range(V.shape[0] if not g.symbolic else 1): g.le("variance non-negative", 0.0, V[i, i])
    if not g.symbolic:
        ev = np.linalg.eigvalsh((V + V.T) / 2); g.le("eigenvalues non-negative", -1e-9 * max(1.0, ev.max()), ev.min())

@harness("C03", "psd_any", ["linalg._compute_robust_vcov_numpy"], sym=False, trials=120)
def _(g):
    """all eigenvalues non-negative, robust and clustered, any number of columns; invariance under row order and relabelling."""
    n = g.axis("n", 4, 30); k = g.axis("k", 1, 5); m = g.axis("m", 2, 9)
    X = g.fullrank("X", n, k); u = g.vec("u", n); lab, G = g.labels("c", n, m); g.assume(n.n > k.n)
    f = g.fn("linalg", "_compute_robust_vcov_numpy")
    p = g.rng.permutation(n.n)
    for c in (None, lab):
        V = f(X, u, c)
        ev = np.linalg.eigvalsh((V + V.T) / 2); g.le("eigenvalues non-negative", -1e-8 * max(1.0, ev.max()), ev.min())
        g.eq("row order is irrelevant", f(X[p], u[p], None if c is None else c[p]), V, rtol=1e-6)
    g.eq("labels are irrelevant", f(X, u, np.array([f"z{hash(str(v)) % 1000}_{v}" for v in lab])), f(X, u, lab), rtol=1e-6)
    import pandas as pd
    g.eq("categorical and series labels", f(X, u, pd.Series(lab, index=np.arange(len(lab))[::-1]).values), f(X, u, lab), rtol=1e-6)

@harness("C03", "classical", ["linalg.LinearRegression.fit"], bound="design with an intercept and two further columns; any number of rows")
def _(g):
    """robust=False: residual variance times (X'X)^-1, with n - k in the denominator; robust=True and clusters agree with the sandwich."""
    n = g.axis("n", 5, 25); kk = 2
    X = g.fullrank("X", n, kk); y = g.vec("y", n)
    g.assume(X.shape[0] > 3)
    if g.symbolic:
        from .. import shims, core
        g.stub("linalg", "_detect_rank_deficiency", lambda X, rcond=None: (X.shape[1], np.array([], dtype=int), np.arange(X.shape[1])))
    LR = g.fn("linalg", "LinearRegression")
    mode = g.choice("mode", ["classical", "robust", "cluster"])
    lab = None; G = None
    if mode == "cluster":
        m = g.axis("m", 2, 5); lab, G = g.labels("c", n, m); g.assume(G.shape[1] >= 2)
    inter = g.choice("intercept", [True, False])
    if inter: g.assume(True if g.symbolic else np.linalg.matrix_rank(np.column_stack([np.ones(n.n), X])) == 3)
    if g.symbolic and inter:
        from .. import shims as sh, tensor as T
        g.notsingular(sh.column_stack([sh.filled(X.shape[0], 1.0), X]))
    r = LR(include_intercept=inter, robust=mode == "robust" or (mode == "cluster" and g.choice("rob", [True, False])), cluster_ids=lab).fit(X, y)
    k = kk + (1 if inter else 0); N = X.shape[0]
    D = r._X
    if not g.symbolic: g.eq("design", D, np.column_stack([np.ones(N), X]) if inter else X)
    A = g.inv(D.T @ D)
    u = r.residuals_
    if mode == "classical":
        s2 = g.sum(u * u) / (N - k)
        g.eq("classical covariance", r.vcov_, A * s2, rtol=1e-5)
    else:
        g.eq(mode + " covariance", r.vcov_, sandwich(g, D, u, G, N, k), rtol=1e-5)
    g.eq("degrees of freedom", r.df_, N - k)
    g.cover()

def cluster_table():
    r = np.random.default_rng(11); rows = []; m = r.normal(size=12) * 2
    for s in range(12):
        for i in range(6):
            a = r.normal()
            for t in (0, 1): rows.append((6 * s + i, s, t, s % 2, i % 2, 2.0 if s % 2 else 0.0, a + t * (1 + m[s] + (2 if s % 2 else 0)) + r.normal()))
    return pd.DataFrame(rows, columns=["id", "state", "t", "grp", "part", "first", "y"])

@harness("C03", "staggered_cluster", ["staggered.CallawaySantAnna.fit"], sym=False, trials=1, deep=1)
def _(g):
    """CallawaySantAnna with a cluster column coarser than the unit (fixed input; a recorded finding)."""
    d = cluster_table(); d["t"] += 1; res = g.fn("staggered", "CallawaySantAnna")(cluster="state").fit(d, "y", "id", "t", "first")
    w = d.pivot(index="id", columns="t", values="y"); dy = (w[2] - w[1]).to_numpy(); u = d.groupby("id")[["state", "first"]].first(); T = (u["first"] > 0).to_numpy()
    psi = np.where(T, (dy - dy[T].mean()) / T.sum(), -(dy - dy[~T].mean()) / (~T).sum()); v = (pd.Series(psi).groupby(u.state.to_numpy()).sum() ** 2).sum(); plain = (psi ** 2).sum()
    e = res.group_time_effects[2.0, 2]; g.log["standard error, clustered, unit level"] = [float(e["se"]), float(v ** .5), float(plain ** .5)]
    g.le("group-time standard error uses the cluster column", .8 * v ** .5, e["se"])

@harness("C03", "triple_cluster", ["triple_diff.TripleDifference.fit"], sym=False, trials=1, deep=1)
def _(g):
    """TripleDifference with a cluster column (fixed input; a recorded finding)."""
    d = cluster_table(); m = np.random.default_rng(2).normal(size=12) * 2; d["y"] += m[d.state] * d.part * d.t
    res = g.fn("triple_diff", "TripleDifference")(estimation_method="reg", cluster="state").fit(d, "y", "grp", "part", "t")
    G, P, T = d.grp.to_numpy(float), d.part.to_numpy(float), d.t.to_numpy(float); X = np.column_stack([np.ones(len(d)), G, P, T, G * P, G * T, P * T, G * P * T])
    b, u, V = O.ols(X, d.y.to_numpy(float), cluster=d.state.to_numpy()); g.log["standard error, clustered"] = [float(res.se), float(V[7, 7] ** .5)]
    g.eq("triple-difference standard error uses the cluster column", res.se, V[7, 7] ** .5, rtol=1e-6)

@harness("C03", "redundant_columns", ["linalg.LinearRegression.fit", "linalg.solve_ols", "linalg._expand_vcov_with_nan"], sym=False, trials=60, deep=600)
def _(g):
    """designs with redundant columns: the covariance of the kept coefficients is that of the design without the dropped columns (classical, robust or clustered), and the degrees of freedom count kept columns only."""
    r = g.rng; n, k = int(r.integers(12, 40)), int(r.integers(1, 4)); B = r.normal(size=(n, k)); X = np.column_stack([B] + [B @ r.integers(-2, 3, size=k) for _ in range(int(r.integers(1, 3)))])[:, :]; X = X[:, r.permutation(X.shape[1])]
    y = X.sum(axis=1) + r.normal(size=n) * (1 + abs(X[:, 0])); mode = g.choice("variance", ["classical", "robust", "cluster"]); cl = r.integers(0, 6, size=n) if mode == "cluster" else None; adj = int(r.choice([0, 2]))
    if cl is not None and len(set(cl)) < 3: return
    reg = g.fn("linalg", "LinearRegression")(include_intercept=False, robust=mode != "classical", cluster_ids=cl, rank_deficient_action="silent"); reg.fit(X, y, df_adjustment=adj)
    keep = np.isfinite(reg.coefficients_); kk = int(keep.sum()); g.ensure("kept columns span the design", kk == np.linalg.matrix_rank(X))
    if kk == 0 or np.linalg.cond(X[:, keep]) > 1e6: return
    b, u, V = O.ols(X[:, keep], y, mode, cluster=cl) if cl is None else O.ols(X[:, keep], y, cluster=cl)
    g.eq("covariance of the kept coefficients", reg.vcov_[np.ix_(keep, keep)], V, rtol=1e-6, atol=1e-10); g.nan("dropped coefficients have no variance", np.diag(reg.vcov_)[~keep])
    g.eq("degrees of freedom", [reg.df_, reg.n_params_effective_], [n - kk - adj, kk])

@harness("C03", "estimator_cluster", ["estimators.DifferenceInDifferences.fit", "estimators.MultiPeriodDiD.fit"], sym=False, trials=40, deep=400)
def _(g):
    """difference-in-differences estimators given a cluster column report the clustered sandwich of their own regression."""
    d = cluster_table(); r = g.rng; d["y"] = r.normal(size=len(d)) + r.normal(size=12)[d.state] * d.t; d["state"] = d.state.map(dict(enumerate(r.permutation(12) * 3)))
    if r.random() < .5: d = d.iloc[r.permutation(len(d))]
    G, T = d.grp.to_numpy(float), d.t.to_numpy(float); b, u, V = O.ols(np.column_stack([np.ones(len(d)), G, T, G * T]), d.y.to_numpy(float), cluster=d.state.to_numpy())
    if g.choice("estimator", ["did", "multi"]) == "did": q = g.fn("estimators", "DifferenceInDifferences")(cluster="state").fit(d, "y", "grp", "t"); g.eq("clustered standard error", [q.att, q.se], [b[3], V[3, 3] ** .5], rtol=1e-7)
    else: q = g.fn("estimators", "MultiPeriodDiD")(cluster="state").fit(d, "y", "grp", "t", post_periods=[1]); g.eq("clustered standard error of a period", [q.period_effects[1].effect, q.period_effects[1].se, q.avg_att, q.avg_se], [b[3], V[3, 3] ** .5] * 2, rtol=1e-7)
