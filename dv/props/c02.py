"""C02: least squares returns the true least-squares solution, NaN for redundant columns."""
import warnings, itertools
import numpy as np
from ..harness import harness, Skip
from .c03 import sandwich

def qr_contract(g, k, rank, pivot):
    """assumed contract of the pivoted QR: pivot is a permutation; |diag R| is non-increasing; exactly the first
    `rank` entries exceed 1e-7 times the first one (that is what the numerical rank means)."""
    from .. import shims, core
    def qr(X, *a, **kw):
        core.ctx().notes.add("scipy.linalg.qr(pivoting=True): pivot permutation, non-increasing |diag R|; columns behind the numerical rank lie in the span of the ones before it")
        R = np.zeros((k, k), dtype=object); prev = None
        for i in range(k):
            r = g.real(f"R{i}"); R[i, i] = r; a_ = abs(r)
            if prev is not None: core.ctx().assume(a_ <= prev)
            if rank == 0: core.ctx().assume(r == 0)
            elif i < rank: core.ctx().assume(a_ > abs(R[0, 0]) * 1e-7 if i else a_ > 0)
            else: core.ctx().assume(a_ <= abs(R[0, 0]) * 1e-7)
            prev = a_
        return None, R, np.array(pivot)
    shims_hook = __import__("dv.shims", fromlist=["x"]).lib_hook
    shims_hook("scipy.linalg.qr", qr)

@harness("C02", "solve_full_rank", ["linalg.solve_ols", "linalg._solve_ols_numpy", "linalg._detect_rank_deficiency"], bound="one to three columns; any number of rows", timeout=200)
def _(g):
    """full column rank: residuals = y - X b, fitted = X b, X'residuals = 0, no NaN, covariance is the sandwich of these residuals."""
    k = g.choice("k", [1, 2, 3])
    n = g.axis("n", 2, 25); X = g.fullrank("X", n, k); y = g.vec("y", n)
    g.assume(X.shape[0] > k)
    if g.symbolic: qr_contract(g, k, k, list(range(k)))
    cl = g.choice("clusters", [False, True]); lab = G = None
    if cl: lab, G = g.labels("c", n, g.axis("m", 2, 6)); g.assume(G.shape[1] >= 2)
    rv = g.choice("vcov", [True, False]); rf = g.choice("fitted", [True, False])
    kw = dict(skip_rank_check=True) if g.choice("skip", [False, True]) else {}
    out = g.fn("linalg", "solve_ols")(X, y, cluster_ids=lab, return_vcov=rv, return_fitted=rf, rank_deficient_action=g.choice("action", ["warn", "error", "silent"]) if not g.symbolic else "error", **kw)
    g.ensure("tuple layout", len(out) == (4 if rf else 3))
    b, u, V = out[0], out[1], out[-1]
    fit = X @ b
    if rf: g.eq("fitted = X b", out[2], fit)
    g.eq("residuals = y - X b", u, y - fit, rtol=1e-6, atol=1e-8)
    if g.symbolic: g.eq("residuals orthogonal to every column", X.T @ u, np.zeros(k))
    else: g.eq("residuals orthogonal to every column", (X.T @ u) / (np.linalg.norm(X, axis=0) * (np.linalg.norm(y) + 1e-30)), np.zeros(k), atol=1e-7)
    if rv: g.eq("covariance", V, sandwich(g, X, u, G, X.shape[0], k), rtol=1e-4)
    else: g.ensure("no covariance when not asked", V is None)
    g.cover()

@harness("C02", "solve_rank_deficient", ["linalg.solve_ols", "linalg._solve_ols_numpy", "linalg._detect_rank_deficiency", "linalg._expand_coefficients_with_nan", "linalg._expand_vcov_with_nan"],
         bound="three columns, every pivot order and every rank; any number of rows", conc=False, timeout=200)
def _(g):
    """rank-deficient: NaN exactly on the columns behind the numerical rank, the rest is the least-squares fit without them."""
    k = 3; rank = g.choice("rank", [0, 1, 2]); pivot = g.choice("pivot", list(itertools.permutations(range(3))))
    n = g.axis("n", 2); X = g.mat("X", n, k); y = g.vec("y", n)
    kept = sorted(pivot[:rank]); dropped = sorted(pivot[rank:])
    g.assume(X.shape[0] > k); Xk = X[:, kept]; (g.notsingular(Xk) if rank else None)
    qr_contract(g, k, rank, pivot)
    act = g.choice("action", ["warn", "error", "silent"])
    f = g.fn("linalg", "solve_ols")
    if act == "error":
        g.raises("error action raises ValueError", ValueError, lambda: f(X, y, rank_deficient_action="error")); return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        b, u, fit, V = f(X, y, return_fitted=True, rank_deficient_action=act)
    g.ensure("warning iff asked for", (len([x for x in w if "rank" in str(x.message).lower()]) > 0) == (act == "warn"))
    for j in dropped: g.nan("NaN on dropped coefficient", b[j])
    bk = np.array([b[j] for j in kept], dtype=object)
    for v in bk: g.ensure("kept coefficient is a number", g.not_(g.isnan(v)))
    g.eq("fitted from kept columns", fit, Xk @ bk); g.eq("residuals", u, y - Xk @ bk)
    g.eq("orthogonal to kept columns", Xk.T @ u, np.zeros(rank))
    for j in dropped:
        for i in range(k): g.nan("NaN rows and columns of the covariance", V[i, j]); g.nan("NaN rows and columns of the covariance", V[j, i])
    g.eq("covariance of the reduced fit", V[np.ix_(kept, kept)], sandwich(g, Xk, u, None, X.shape[0], rank))
    g.cover()

def int_design(rng, n, k, rank):
    """integer design with known dependency structure: -> X (n x k), rank"""
    if rank == 0: return np.zeros((n, k))
    for _ in range(60):
        B = rng.integers(-4, 5, (n, rank)).astype(float)
        if rng.random() < 0.5: B[:, 0] = 1.0
        if np.linalg.matrix_rank(B) != rank or np.linalg.cond(B) > 1e3: continue
        cols = [B[:, i] for i in range(rank)]
        for _ in range(k - rank):
            t = rng.random()
            if t < 0.3: cols.append(cols[int(rng.integers(rank))] * float(rng.choice([1, -2, 0.5, 1e3])))
            elif t < 0.4: cols.append(np.zeros(n))
            else: cols.append(B @ rng.integers(-3, 4, rank))
        X = np.column_stack(cols)[:, rng.permutation(k)]
        nz = np.abs(X).max(axis=0); 
        if np.linalg.matrix_rank(X) == rank: return X
    raise Skip()

@harness("C02", "any_design", ["linalg.solve_ols", "linalg.LinearRegression.fit"], sym=False, trials=250, deep=3000)
def _(g):
    """any integer design with known rank: orthogonality to every column, number of NaNs = k - rank, reproduction of fitted values, action semantics."""
    r = g.rng; n = int(r.integers(4, 30)); k = int(r.integers(1, min(n, 7))); rank = int(r.integers(0, k + 1)) if r.random() < 0.7 else k
    X = int_design(r, n, k, rank); y = r.normal(size=n) * 10 ** r.uniform(-2, 3)
    f = g.fn("linalg", "solve_ols"); act = g.choice("action", ["warn", "error", "silent"])
    g.log.update(X=X, y=y, rank=rank)
    cl = None
    if r.random() < 0.5: cl = r.integers(0, 4, n); 
    if cl is not None and len(set(cl)) < 2: cl = None
    if n == rank and True: raise Skip()
    X0, y0 = X.copy(), y.copy()
    if rank < k and act == "error":
        g.raises("error action raises ValueError", ValueError, lambda: f(X, y, rank_deficient_action="error", cluster_ids=cl)); return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        b, u, fit, V = f(X, y, return_fitted=True, rank_deficient_action=act, cluster_ids=cl)
    warned = any("rank-deficient" in str(x.message).lower() for x in w)
    g.ensure("warning iff deficient and asked for", warned == (rank < k and act == "warn"))
    g.ensure("inputs untouched", np.array_equal(X, X0) and np.array_equal(y, y0))
    nan = np.isnan(b)
    g.ensure("number of NaN coefficients = k - rank", int(nan.sum()) == k - rank, f"{int(nan.sum())} NaN, k={k}, rank={rank}")
    kept = np.where(~nan)[0]
    g.ensure("kept columns are independent", rank == 0 or np.linalg.matrix_rank(X[:, kept]) == rank)
    Q = np.linalg.svd(X, full_matrices=False); Uk = Q[0][:, :rank]; proj = Uk @ (Uk.T @ y)
    sc = np.linalg.norm(y) + 1e-30
    g.eq("fitted values are the projection", fit / sc, proj / sc, atol=1e-6)
    g.eq("residuals", u / sc, (y - fit) / sc, atol=1e-9)
    g.eq("coefficients reproduce the fitted values", (X[:, kept] @ b[kept]) / sc, fit / sc, atol=1e-6)
    g.eq("NaN pattern of the covariance", np.isnan(V), nan[:, None] | nan[None, :])
    from .c03 import sandwich as sw
    Gm = None if cl is None else (cl[:, None] == np.unique(cl)[None, :]).astype(float)
    g.eq("covariance of the reduced fit", V[np.ix_(kept, kept)], sw(g, X[:, kept], u, Gm, n, rank), rtol=1e-4, atol=1e-7)

@harness("C02", "regression_object", ["linalg.LinearRegression.fit", "linalg.LinearRegression.predict", "linalg.LinearRegression.r_squared", "linalg.LinearRegression.get_se", "linalg.LinearRegression.get_coefficient", "linalg.compute_r_squared", "linalg.LinearRegression.get_inference_batch", "linalg.LinearRegression.get_all_inference"], sym=False, trials=200, deep=2000)
def _(g):
    """LinearRegression: coefficients, df, R-squared (plain, adjusted), prediction and accessors belong to one fit, whatever the rank."""
    r = g.rng; n = int(r.integers(5, 30)); k = int(r.integers(1, min(n - 1, 6))); rank = int(r.integers(0, k + 1)) if r.random() < 0.5 else k
    X = int_design(r, n, k, rank); y = r.normal(size=n) * 3 + r.normal() * 10
    inter = g.choice("intercept", [True, False]); mode = g.choice("mode", ["classical", "robust", "cluster"]); adj = g.choice("df_adjustment", [0, 1, 2])
    g.log.update(X=X, y=y)
    D = np.column_stack([np.ones(n), X]) if inter else X
    rk = np.linalg.matrix_rank(D); p = D.shape[1]
    if n <= rk + adj: raise Skip()
    cl = np.arange(n) % 3 if mode == "cluster" else None
    LR = g.fn("linalg", "LinearRegression")
    where = g.choice("cluster given", ["init", "fit"])
    a0 = float(r.choice([0.01, 0.05, 0.1, 0.32]))
    m = LR(include_intercept=inter, robust=mode == "robust", cluster_ids=cl if where == "init" else None, rank_deficient_action="silent", alpha=a0)
    q = m.fit(X, y, cluster_ids=cl if where == "fit" else None, df_adjustment=adj)
    g.ensure("fit returns the object", q is m)
    b = m.coefficients_; kept = np.where(~np.isnan(b))[0]
    g.ensure("NaN count", p - len(kept) == p - rk)
    proj = D @ np.linalg.lstsq(D, y, rcond=1e-9)[0]
    sc = np.linalg.norm(y)
    g.eq("fitted", m.fitted_values_ / sc, proj / sc, atol=1e-6); g.eq("residuals", m.residuals_ / sc, (y - proj) / sc, atol=1e-6)
    u = y - proj
    g.eq("n", m.n_obs_, n); g.eq("params", m.n_params_, p); g.eq("effective params", m.n_params_effective_, rk); g.eq("df", m.df_, n - rk - adj)
    sst = ((y - y.mean()) ** 2).sum(); r2 = 1 - (u @ u) / sst
    g.eq("R squared", m.r_squared(), r2, atol=1e-6)
    g.eq("adjusted R squared", m.r_squared(adjusted=True), 1 - (1 - r2) * (n - 1) / (n - rk), atol=1e-6)
    Dk = D[:, kept]; A = np.linalg.inv(Dk.T @ Dk)
    if mode == "classical": Vk = A * (u @ u) / (n - rk)
    else:
        Gm = None if cl is None else (cl[:, None] == np.unique(cl)[None, :]).astype(float)
        Vk = sandwich(g, Dk, u, Gm, n, rk)
    g.eq("covariance", m.vcov_[np.ix_(kept, kept)], Vk, rtol=1e-4, atol=1e-7)
    g.eq("NaN pattern of the covariance", np.isnan(m.vcov_), np.isnan(b)[:, None] | np.isnan(b)[None, :])
    X2 = r.integers(-3, 4, (6, k)).astype(float); D2 = np.column_stack([np.ones(6), X2]) if inter else X2
    g.eq("prediction", m.predict(X2), D2[:, kept] @ b[kept], rtol=1e-6); g.ensure("predict leaves coefficients alone", np.isnan(m.coefficients_).sum() == p - len(kept))
    for i in range(p):
        g.eq("get_coefficient", m.get_coefficient(i), b[i]); g.eq("get_se", m.get_se(i), np.sqrt(m.vcov_[i, i]))
    al = g.choice("alpha", [None, 0.2]); dfv = g.choice("df", [None, 4])
    al_ = m.get_all_inference(alpha=al, df=dfv); bt = m.get_inference_batch(list(range(p)), alpha=al, df=dfv)
    g.ensure("one inference per coefficient", len(al_) == p and sorted(bt) == list(range(p)))
    for i in range(p):
        one = m.get_inference(i, alpha=al, df=dfv)
        for z in (al_[i], bt[i]):
            g.eq("batch = single", [z.coefficient, z.se, z.t_stat, z.p_value, *z.conf_int, z.alpha], [one.coefficient, one.se, one.t_stat, one.p_value, *one.conf_int, one.alpha])
        g.eq("level used", one.alpha, a0 if al is None else al); g.eq("df used", one.df, (n - rk - adj) if dfv is None else dfv)

@harness("C02", "r_squared", ["linalg.compute_r_squared"])
def _(g):
    """R^2 = 1 - SSR/SST, zero when the outcome is constant; adjusted 1-(1-R^2)(n-1)/(n-p) when n > p."""
    n = g.axis("n", 2, 20); y = g.vec("y", n); u = g.vec("u", n); adj = g.choice("adjusted", [False, True]); p = g.int("p", 0, None if g.symbolic else 25)
    r2 = g.fn("linalg", "compute_r_squared")(y, u, adjusted=adj, n_params=p)
    N = y.shape[0]; d = y - y.mean(); sst = g.sum(d * d)
    if bool(sst == 0): g.eq("constant outcome", r2, 0); return
    v = 1 - g.sum(u * u) / sst
    if adj and bool(N > p): v = 1 - (1 - v) * (N - 1) / (N - p)
    g.eq("value", r2, v); g.cover()

@harness("C02", "validation", ["linalg.solve_ols"], sym=False, trials=12)
def _(g):
    """malformed inputs are rejected: dimensions, fewer rows than columns, non-finite values, unknown action."""
    f = g.fn("linalg", "solve_ols"); r = g.rng; X = r.normal(size=(6, 2)); y = r.normal(size=6)
    for bad in (np.nan, np.inf, -np.inf):
        X2 = X.copy(); X2[int(r.integers(6)), int(r.integers(2))] = bad; y2 = y.copy(); y2[int(r.integers(6))] = bad
        g.raises("non-finite design rejected", ValueError, lambda: f(X2, y)); g.raises("non-finite outcome rejected", ValueError, lambda: f(X, y2))
    g.raises("length mismatch", ValueError, lambda: f(X, y[:-1])); g.raises("1-d design", ValueError, lambda: f(X[:, 0], y)); g.raises("2-d outcome", ValueError, lambda: f(X, y[:, None]))
    g.raises("more columns than rows", ValueError, lambda: f(r.normal(size=(2, 3)), y[:2])); g.raises("unknown action", ValueError, lambda: f(X, y, rank_deficient_action="drop"))
    m = g.fn("linalg", "LinearRegression")()
    for q in (lambda: m.predict(X), lambda: m.get_se(0), lambda: m.get_coefficient(0), lambda: m.get_inference(0), lambda: m.r_squared()):
        g.raises("unfitted model rejected", ValueError, q)
