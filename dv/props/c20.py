"""C20: the wild cluster bootstrap perturbs whole clusters and yields a valid test."""
import math, warnings
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D, oracle as O
from .c08 import check_law
TYPES = ["rademacher", "webb", "mammen"]

def equal(a, b):
    """the two arrays are the same polynomials of their atoms"""
    import z3
    from .. import tensor as T
    return all(z3.is_true(z3.simplify(q)) if not isinstance(q, bool) else q for q in T.polyeq(a, b))
def call(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); return f(*a, **k)

class Solver:
    """least squares by contract (C02, C03): coefficients and residuals are linear in the outcome; a fit plus X c has the coefficients plus c; each redrawn outcome gets arbitrary coefficients and variance"""
    def __init__(self, g, X, y, ids, j, k, null):
        self.g, self.X, self.y, self.ids, self.j, self.k = g, X, y, ids, j, k; z = np.zeros(k).astype(object); e = z.copy(); e[j] = null; self.shifts = [z, -e, e]; self.b = g.reals("b", k); self.e = y - X @ self.b; self.V = self.cov("V"); self.weights = []; self.draws = {}; self.odd = 0
    def cov(self, n):
        g, k = self.g, self.k; V = np.array([[g.real(f"{n}{r}{c}") for c in range(k)] for r in range(k)], dtype=object); V[self.j, self.j] = g.nonneg(f"{n}jj"); return V
    def __call__(self, X, y, **kw):
        g = self.g; g.eq("every fit uses the same design", X, self.X)
        if kw.get("return_vcov", True): g.ensure("variances are clustered by the given clusters", kw.get("cluster_ids") is self.ids); 
        b = u = V = None
        for c in self.shifts:
            if equal(y, self.y + self.X @ c): b, u, V = self.b + c, self.e, self.V
        for d, w in enumerate(self.weights):
            if b is not None or d in self.draws: continue
            for base in [self.b + c for c in self.shifts] + [self.shifts[0]]:
                if b is None and equal(y, self.X @ base + self.e * w):
                    delta = g.reals(f"d{d}_", self.k); V = self.cov(f"V{d}_"); self.draws[d] = (base, delta, V); b, u = base + delta, self.e * w
        if b is None: self.odd += 1; g.ensure("a redrawn outcome is the fit plus residuals times one weight per cluster", False); b, u, V = g.reals(f"odd{self.odd}_", self.k), self.e, self.cov(f"odd{self.odd}V")
        V = V if kw.get("return_vcov", True) else None
        return (b, u, y - u, V) if kw.get("return_fitted") else (b, u, V)

def draw(g):
    """a design with clusters, no perfect fits"""
    r = g.rng; n = int(r.integers(24, 60)); k = int(r.integers(2, 5)); m = int(r.integers(4, 10)); c = np.concatenate([np.arange(m), r.integers(0, m, n - m)]); r.shuffle(c)
    X = np.column_stack([np.ones(n), r.normal(size=(n, k - 1))]); y = X @ r.normal(size=k) + r.normal(size=m)[c] + r.normal(size=n)
    names = [c, c * 10 - 35, np.array([f"c{v:02d}" for v in range(m)])[c], c + .5][int(r.integers(4))]
    return X, y, c, names, int(r.integers(k))
def replay(g, X, y, c, j, W, null, alpha):
    """the statistics of these weights, computed directly"""
    b, u, V = O.ols(X, y, "cluster", c); t = (b[j] - null) / math.sqrt(V[j, j]); co, ts = [], []
    for w in W:
        bb, uu, VV = O.ols(X, X @ b + u * w[c], "cluster", c)
        if VV[j, j] <= 1e-12 * V[j, j]: raise Skip()
        co.append(bb[j]); ts.append((bb[j] - b[j]) / math.sqrt(VV[j, j]))
    B = len(co); ts = np.abs(ts); p = [max(np.mean(ts >= abs(t) * (1 + s)), 1 / (B + 1)) for s in (1e-7, -1e-7)]
    return dict(se=np.std(co, ddof=1), t=t, p=p, ci=(np.percentile(co, 100 * alpha / 2), np.percentile(co, 100 * (1 - alpha / 2))), co=np.array(co))
def record(g):
    """the weights actually drawn"""
    rec = []; m = g.mod("utils")
    for nm in TYPES:
        f = g.fn("utils", f"_generate_{nm}_weights")
        def wrap(n, rng, f=f, nm=nm):
            w = f(n, rng); rec.append((nm, np.array(w))); return w
        g.stub("utils", f"_generate_{nm}_weights", wrap)
    return rec
def drawn(g, rec, B, m, typ):
    if len(rec) != B or any(w.shape != (m,) for _, w in rec): raise Skip()          # drawn in some other way: not observable here
    g.ensure("weights of the chosen type", all(n == typ for n, _ in rec)); return [w for _, w in rec]

@harness("C20", "draws", ["utils.wild_bootstrap_se", "utils._generate_rademacher_weights", "utils._generate_webb_weights", "utils._generate_mammen_weights"], trials=60, deep=900, timeout=240, bound="two or three clusters, two redraws, two or three columns; any number of rows")
def _(g):
    """each draw is the fit plus the residuals times one documented weight per cluster, on the same design; standard error, interval, p-value and statistic are those of the redrawn coefficients, centred where they were generated."""
    f = g.fn("utils", "wild_bootstrap_se"); typ = g.choice("type", TYPES)
    if g.symbolic:
        m, B, k, j = g.choice("sizes", [(2, 2, 2, 1), (3, 2, 2, 0), (2, 2, 3, 2)]); null = g.choice("null", [0.0, 1]); null = g.pyreal("null") if null == 1 else null; alpha = g.pyreal("alpha", 0, 1)
        ax = g.axis("n", 4); ids, I = g.codes("cl", ax, [10, 20, 30][:m]); X = g.mat("X", ax, k); y = g.vec("y", ax); S = Solver(g, X, y, ids, j, k, null)
        def hook(rng, kind, *a):
            from ..core import Unsupported
            if kind != "choice": raise Unsupported("weights are drawn by " + kind)
            v, size, rep, p = a; v = [float(x) for x in np.asarray(v)]; p = [1 / len(v)] * len(v) if p is None else [float(x) for x in p]; law = {}
            for x, q in zip(v, p): law[x] = law.get(x, 0) + q
            g.ensure("drawn with replacement", rep is True); check_law(g, typ, law); W = np.array([g.real(f"w{len(S.weights)}_{i}") for i in range(int(np.prod(size)))], dtype=object).reshape(size); g.ensure("one weight per cluster", W.shape[-1] == m)
            for w in W.reshape(-1, m): S.weights.append(sum(I[i] * w[i] for i in range(m)))
            return W
        g.c.cache["rng_hook"] = hook; g.stub("linalg", "solve_ols", S); r = call(f, X, y, S.e, ids, j, n_bootstrap=B, weight_type=typ, null_hypothesis=null, alpha=alpha, seed=3, return_distribution=True)
        g.ensure("one set of weights and one refit per draw", len(S.weights) == B == len(S.draws)); co = [S.b[j] + S.draws[d][1][j] for d in range(B)]; one = lambda c: g.ite(c, 1.0, 0.0)
        def ts(d): v = S.draws[d][2][j, j]; return S.draws[d][1][j] / g.sqrt(v) if bool(v > 0) else 0.0
        g.assume(S.V[j, j] > 0); t0 = (S.b[j] - null) / g.sqrt(S.V[j, j]); g.eq("observed statistic", r.t_stat_original, t0); sh = (one(g.abs(ts(0)) >= g.abs(t0)) + one(g.abs(ts(1)) >= g.abs(t0))) / 2; g.eq("p-value", r.p_value, g.max(sh, 1 / 3)); g.le("p at most one", r.p_value, 1.0); g.le("p at least 1/(B+1)", 1 / 3, r.p_value)
        for a, b in zip(r.bootstrap_distribution, co): g.eq("redrawn coefficients", a, b)
        mean = (co[0] + co[1]) / 2; g.eq("variance of the draws", r.se * r.se, (co[0] - mean) ** 2 + (co[1] - mean) ** 2); g.le("se non-negative", 0.0, r.se); q = g.np().percentile; x = np.array(co, dtype=object); g.eq("interval", [r.ci_lower, r.ci_upper], [q(x, alpha / 2 * 100), q(x, (1 - alpha / 2) * 100)]); g.le("interval is ordered", r.ci_lower, r.ci_upper)
        g.ensure("settings", r.n_clusters == m and r.n_bootstrap == B and r.weight_type == typ); g.eq("level", r.alpha, alpha); g.cover(); return
    X, y, c, names, j = draw(g); m = len(set(c)); B = int(g.rng.choice([2, 9, 39])); null = float(g.rng.choice([0, 0, 1.5])); alpha = float(g.rng.choice([.05, .2])); rec = record(g); ids = pd.Series(names).values
    r = call(f, X, y, y - X @ O.ols(X, y)[0], ids, j, n_bootstrap=B, weight_type=typ, null_hypothesis=null, alpha=alpha, seed=int(g.rng.integers(1 << 20)), return_distribution=True); W = drawn(g, rec, B, m, typ); w = replay(g, X, y, c, j, W, null, alpha); s = max(abs(w["co"]).max(), 1e-8)
    g.eq("redrawn coefficients", r.bootstrap_distribution, w["co"], rtol=1e-7, atol=1e-8 * s); g.eq("standard error", r.se, w["se"], rtol=1e-6, atol=1e-9 * s); g.eq("observed statistic", r.t_stat_original, w["t"], rtol=1e-6); g.eq("interval", [r.ci_lower, r.ci_upper], list(w["ci"]), rtol=1e-6, atol=1e-8 * s); g.ensure("p-value", w["p"][0] - 1e-12 <= r.p_value <= w["p"][1] + 1e-12, f"{r.p_value} {w['p']}"); g.ensure("p within 1/(B+1) and 1", 1 / (B + 1) - 1e-12 <= r.p_value <= 1); g.ensure("settings", (r.n_clusters, r.n_bootstrap, r.weight_type, r.alpha) == (m, B, typ, alpha)); g.cover()

@harness("C20", "weights", [f"utils._generate_{t}_weights" for t in TYPES], sym=False, trials=30, deep=300)
def _(g):
    """drawn weights take only the documented values, with the documented frequencies, one per cluster."""
    from .c08 import DOC
    t = g.choice("type", TYPES); f = g.fn("utils", f"_generate_{t}_weights"); r = np.random.default_rng(g.rng.integers(1 << 30)); W = np.array([f(8, r) for _ in range(3000)]); g.ensure("one per cluster", W.shape == (3000, 8)); vs = np.array(sorted(DOC[t])); k = np.argmin(abs(W[..., None] - vs), axis=-1); g.ensure("documented values", float(abs(W - vs[k]).max()) < 1e-12)
    for i, v in enumerate(vs): q = DOC[t][v]; g.ensure("documented frequencies", abs((k == i).mean() - q) < 7 * math.sqrt(q * (1 - q) / W.size))
    g.ensure("clusters are not tied", float(abs(np.corrcoef(W.T) - np.eye(8)).max()) < .2); g.cover()

@harness("C20", "invariance", ["utils.wild_bootstrap_se"], sym=False, trials=50, deep=700)
def _(g):
    """renaming clusters in the same order and reordering rows leave every number unchanged; the same seed repeats, arguments are left alone."""
    f = g.fn("utils", "wild_bootstrap_se"); X, y, c, names, j = draw(g); typ = g.choice("type", TYPES); r = g.rng; null = float(r.choice([0., .7])); al = .1; B = 39; kw = dict(n_bootstrap=B, weight_type=typ, null_hypothesis=null, alpha=al, seed=int(r.integers(1 << 20)), return_distribution=True); u = y - X @ O.ols(X, y)[0]; rec = record(g)
    a = call(f, X, y, u, c, j, **kw); W = drawn(g, rec, B, len(set(c)), typ); replay(g, X, y, c, j, W, null, al)
    def cmp(nm, b): g.eq(nm, [b.se, b.t_stat_original, b.ci_lower, b.ci_upper], [a.se, a.t_stat_original, a.ci_lower, a.ci_upper], rtol=1e-6, atol=1e-8); g.eq(nm + " (p)", b.p_value, a.p_value, rtol=1e-9); g.ensure(nm + " (clusters)", b.n_clusters == a.n_clusters)
    w = replay(g, X, y, c, j, W, null, al)
    if w["p"][0] != w["p"][1]: raise Skip()                       # a tie decided by rounding
    cmp("same seed", call(f, X, y, u, c, j, **kw)); cmp("renamed clusters", call(f, X, y, u, pd.Series(names).values, j, **kw)); o = r.permutation(len(y)); cmp("reordered rows", call(f, X[o], y[o], u[o], c[o], j, **kw)); cmp("shifted outcome", call(f, X, y + 3 * X[:, 0] if j else y, u, c, j, **kw)); g.cover()

@harness("C20", "rejects", ["utils.wild_bootstrap_se"], sym=False, trials=20, deep=60)
def _(g):
    """one cluster, an unknown weight type or an unidentified coefficient is rejected; few clusters are warned about; an undefined statistic has no p-value; dropped collinear columns leave the result of the remaining design."""
    f = g.fn("utils", "wild_bootstrap_se"); X, y, c, names, j = draw(g); kw = dict(n_bootstrap=9, seed=1); g.raises("one cluster", ValueError, lambda: f(X, y, y, c * 0, j, **kw)); g.raises("unknown type", ValueError, lambda: f(X, y, y, c, j, weight_type=["normal", "", "Webb2"][int(g.rng.integers(3))], **kw))
    with warnings.catch_warnings(record=True) as w: warnings.simplefilter("always"); f(X, y, y, c % 3, j, **kw)
    g.ensure("few clusters are warned about", any("clusters" in str(x.message) for x in w))
    z = call(f, X, y * 0, y * 0, c, j, **kw); g.ensure("an undefined statistic has no p-value", not (math.isnan(z.t_stat_original) and not math.isnan(z.p_value)), f"t={z.t_stat_original} p={z.p_value}")
    a = call(f, X, y, y, c, j, **kw); X2 = np.column_stack([X, X[:, 0] + X[:, 1]])
    try: b = call(f, X2, y, y, c, j, **kw)
    except ValueError as e: g.ensure("collinear design: only an unidentified coefficient is refused", "identified" in str(e), str(e)); raise Skip()
    if b.t_stat_original is not None and abs(b.t_stat_original - a.t_stat_original) < 1e-8: g.eq("collinear columns", [b.se, b.ci_lower, b.ci_upper], [a.se, a.ci_lower, a.ci_upper], rtol=1e-6, atol=1e-8)
    g.cover()

@harness("C20", "estimators", ["estimators.DifferenceInDifferences.fit", "estimators.DifferenceInDifferences._run_wild_bootstrap_inference", "twfe.TwoWayFixedEffects.fit"], sym=False, trials=40, deep=500)
def _(g):
    """the estimators report exactly the bootstrap of their own interaction coefficient under the configured clusters, weights, draws, level and seed; the estimate itself is untouched; collinear covariates are dropped first."""
    r = g.rng; kind = g.choice("estimator", ["did", "did covariates", "did collinear", "twfe"]); df = D.did_panel(r, int(r.integers(8, 14)), 2, 2, cov=1); df["state"] = df.unit % int(r.integers(5, 8)) if kind != "twfe" else df.unit; df = df.sample(frac=1, random_state=int(r.integers(1 << 30))).reset_index(drop=True); al = float(r.choice([.05, .2])); B = int(r.choice([9, 29])); typ = str(r.choice(TYPES)); kw = dict(alpha=al, inference="wild_bootstrap", n_bootstrap=B, bootstrap_weights=typ, seed=int(r.integers(1 << 20)), cluster="state"); rec = record(g)
    d, p = df.treated.to_numpy(float), df.post.to_numpy(float); y = df.y.to_numpy(); n = len(df)
    if kind == "twfe":
        res = call(g.fn("twfe", "TwoWayFixedEffects")(**kw).fit, df, "y", "treated", "post", unit="unit"); x = O.double_demean(d * p, df.unit, df.post); X = np.column_stack([np.ones(n), x]); yy = O.double_demean(y, df.unit, df.post); j = 1
    else:
        cov = dict(did=None).get(kind, ["x0"]); 
        if kind == "did collinear": df["x1"] = 2 * df.x0 - 1; cov = ["x0", "x1"]
        res = call(g.fn("estimators", "DifferenceInDifferences")(rank_deficient_action="silent", **kw).fit, df, "y", "treated", "post", covariates=cov); X = np.column_stack([np.ones(n), d, p, d * p] + ([df.x0] if cov else [])); j = 3; yy = y
    c = pd.factorize(df.state, sort=True)[0]; m = c.max() + 1; b, u, V = O.ols(X, yy, "cluster", c)
    W = drawn(g, rec, B, m, typ); w = replay(g, X, yy, c, j, W, 0.0, al); g.eq("estimate", res.att, b[j], rtol=1e-6, atol=1e-8); g.eq("standard error", res.se, w["se"], rtol=1e-5, atol=1e-8); g.eq("statistic", res.t_stat, w["t"], rtol=1e-5); g.eq("interval", list(res.conf_int), list(w["ci"]), rtol=1e-5, atol=1e-7); g.ensure("p-value", w["p"][0] - 1e-12 <= res.p_value <= w["p"][1] + 1e-12, f"{res.p_value} {w['p']}"); g.ensure("labels", (res.inference_method, res.n_bootstrap, res.n_clusters) == ("wild_bootstrap", B, m)); g.cover()

@harness("C20", "estimator_wiring", ["estimators.DifferenceInDifferences.fit", "estimators.DifferenceInDifferences._run_wild_bootstrap_inference"])
def _(g):
    """for every table: the bootstrap is run for the interaction column of the fitted design with the configured settings, and its numbers are the reported ones."""
    from .c04 import ols_contract
    if not g.symbolic: raise Skip()
    n = g.axis("n", 5); y = g.vec("y", n); d = g.binary("d", n); t = g.binary("t", n); df = g.table(n, out=y, trt=d, post=t, st=g.codes("cl", n, [1, 2, 3])[0]); s = ols_contract(g, 4); g.stub("linalg", "solve_ols", s); g.stub("utils", "validate_binary", lambda a, nm: None); g.assume(n.sint() > 4)
    W = g.fn("utils", "WildBootstrapResults"); v = {k: g.pyreal(k) for k in ("se", "p_value", "t_stat_original", "ci_lower", "ci_upper")}; got = []; typ = g.choice("type", TYPES); B = g.choice("B", [9, 99]); al = g.pyreal("alpha", 0, 1)
    def boot(X, y, residuals, cluster_ids, coefficient_index, **kw): got.append((X, y, residuals, cluster_ids, coefficient_index, kw)); return W(**v, n_clusters=3, n_bootstrap=B, weight_type=typ, alpha=al)
    g.stub("utils", "wild_bootstrap_se", boot); r = call(g.fn("estimators", "DifferenceInDifferences")(cluster="st", inference="wild_bootstrap", bootstrap_weights=typ, n_bootstrap=B, alpha=al, seed=5).fit, df, outcome="out", treatment="trt", time="post"); g.ensure("run once", len(got) == 1); X, yy, u, c, j, kw = got[0]
    g.eq("interaction column", X[:, j], d * t); g.eq("outcome", yy, y); g.eq("design of the fit", X, s.calls[0][0]); g.eq("clusters", g.sum(y * (c == 2)), g.sum(y * (df["st"].values == 2))); g.ensure("settings", kw.get("n_bootstrap") == B and kw.get("weight_type") == typ and kw.get("seed") == 5 and kw.get("null_hypothesis", 0.0) == 0.0); g.eq("level", kw.get("alpha"), al)
    for a, b in (("se", "se"), ("p_value", "p_value"), ("t_stat", "t_stat_original")): g.eq("reported " + a, getattr(r, a), v[b])
    g.eq("reported interval", list(r.conf_int), [v["ci_lower"], v["ci_upper"]]); g.ensure("labels", (r.inference_method, r.n_bootstrap, r.n_clusters) == ("wild_bootstrap", B, 3)); g.cover()
