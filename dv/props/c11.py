"""C11: synthetic difference in differences."""
import warnings, math
from types import SimpleNamespace as NS
import numpy as np, pandas as pd
from ..harness import harness
from .. import data as D, oracle as O

# ---------------------------------------------------------------- simplex projection
@harness("C11", "projection", ["utils._project_simplex"], conc=False, timeout=200)
def _(g):
    """for every vector of any length: the result is max(v - theta, 0) for the one theta at which it sums to one, hence the nearest point of the simplex."""
    import z3
    from .. import seqs
    from ..core import F, SInt, toB, boolexpr
    c = g.c; n = z3.Int("len"); c.pc.append(n >= 1); c.vars["len"] = SInt(n); c.cache["seq_size"] = n
    v = seqs.Named(n, "v"); w = g.fn("utils", "_project_simplex")(v)
    # specification: u descending, C its running sum, r the last index with u_r > (C_r - 1)/(r + 1), theta = (C_r - 1)/(r + 1)
    u = seqs.Sorted(v).reversed(); C = seqs.cumsum(u); h = seqs.Hits(u > (C - 1) / seqs.arange(1, SInt(n) + 1)); r = h.last
    g.ensure("some index qualifies", SInt(h.k) > 0)
    th = (C.at(r) - 1) / SInt(r + 1)
    i = z3.Int("i"); c.pc += [i >= 0, i < n]; ui = u.at(i); C.at(r + 1)
    g.lemma("entry after the last hit", g.implies(SInt(r) + 1 < SInt(n), u.at(r + 1) <= th))
    g.lemma("kept entries exceed theta", g.implies(SInt(i) <= SInt(r), ui > th)); g.lemma("dropped entries do not", g.implies(SInt(i) > SInt(r), ui <= th))
    g.eq("kept mass: sum over the first r+1 sorted entries minus theta is one", C.at(r) - th * SInt(r + 1), 1.0)
    vi = v.at(i); wi = w.at(i); g.eq("entry is max(v - theta, 0)", wi, g.max(vi - th, 0.0)); g.ensure("non-negative", wi >= 0)
    # nearest point: for every x on the simplex the termwise variational inequality, which sums to <x - w, v - w> <= 0
    x = g.real("x", 0); g.ensure("x_i (v_i - w_i) <= theta x_i", x * (vi - wi) <= th * x); g.eq("w_i (v_i - w_i) = theta w_i", wi * (vi - wi), th * wi); g.cover()

@harness("C11", "projection_small", ["utils._project_simplex"], sym=False, trials=300, deep=5000, bound="vectors of length up to 40")
def _(g):
    """result on the simplex; no vertex or random simplex point is nearer."""
    k = g.choice("length", [1, 2, 3]) if g.symbolic else g.int("length", 1, 40)
    v = np.array([g.real(f"v{i}") for i in range(k)], dtype=object if g.symbolic else float)
    if not g.symbolic and g.choice("ties", [0, 1]): v = np.round(v)
    w = g.fn("utils", "_project_simplex")(v.copy())
    for x in w: g.ensure("non-negative", x >= 0)
    g.eq("sums to one", sum(w), 1.0, rtol=1e-8)
    for j in range(k):      # nearest: <e_j - w, v - w> <= 0 for every vertex e_j
        t = (v[j] - w[j]) - sum((v[i] - w[i]) * w[i] for i in range(k)); g.le("no vertex improves", t, 0.0, tol=1e-8 * (1 if g.symbolic else 1 + float(np.abs(v).max())))
    g.cover()

# ---------------------------------------------------------------- unit and time weights
def simplex(g, nm, n, zeros=True):
    """an arbitrary point of the simplex: non-negative entries with unit sum"""
    v = g.vec(nm, n, nonneg=True)
    if g.symbolic: g.assume(g.sum(v) == 1); return v
    if zeros: v = v * (g.rng.random(len(v)) < .7)
    v = v if v.sum() > 0 else np.ones(len(v))
    return v / v.sum()

@harness("C11", "unit_weights", ["utils.compute_synthetic_weights"], timeout=200)
def _(g):
    """for every optimiser output on the simplex, any number of controls and threshold: final weights are non-negative, sum to one, vanish below the threshold, keep their ratios; uniform when nothing survives."""
    n = g.axis("ctrl", 2); T = g.axis("pre", 1); Y = g.mat("Y", T, n); t = g.vec("t", T); lam = g.nonneg("lam", 5, py=True); mw = g.nonneg("min_weight", 1, py=True); seen = []
    w0 = simplex(g, "raw", n)
    def stub(Yc, Yt, l=0.0, *a, **k): seen.append((Yc, Yt, l)); return w0.copy()
    g.stub("utils", "_compute_synthetic_weights_numpy", stub); g.assume(n.sint() > 1) if g.symbolic else None
    w = g.fn("utils", "compute_synthetic_weights")(Y, t, lam, mw)
    g.each("non-negative", lambda x: x >= (0 if g.symbolic else -1e-12), w); g.eq("sums to one", g.sum(w), 1.0)
    if not g.symbolic or not mask_empty(g, w0, mw):
        kept = g.sum(w0 * (w0 >= mw)); g.each("surviving weights renormalised, the others zero", lambda a, b: g.iff(True, eqz(g, a, g.ite(b >= mw, b, 0.0) / kept)), w, w0) if bool(kept > 0) else g.each("uniform", lambda a: eqz(g, a, 1 / (n.n if not g.symbolic else n.sint())), w)
    g.ensure("optimiser called once", len(seen) == 1); g.eq("penalty", seen[0][2], lam); g.eq("controls", seen[0][0], Y); g.eq("target", seen[0][1], t); g.cover()
def mask_empty(g, w, m): return False
def eqz(g, a, b): return a == b if g.symbolic else abs(a - b) <= 1e-9 * (1 + abs(b))

@harness("C11", "descent_step", ["utils._compute_synthetic_weights_numpy"], timeout=200, trials=60)
def _(g):
    """loop contract of the optimiser: weights are on the simplex before and after every iteration; each iteration projects w - step * gradient of the penalised pre-period distance (two iterations from an arbitrary point stand for every iteration)."""
    n = g.axis("ctrl", 2); T = g.axis("pre", 1); Y = g.mat("Y", T, n); t = g.vec("t", T); lam = g.nonneg("lam", 5, py=True); U = g.mod("utils"); pts = []; args = []
    if not g.symbolic:
        real = U._project_simplex
        def spy(v): args.append(v.copy()); pts.append(real(v)); return pts[-1].copy()
        g.stub("utils", "_project_simplex", spy); U._OPTIMIZATION_MAX_ITER, old = 5, U._OPTIMIZATION_MAX_ITER
        try: w = U._compute_synthetic_weights_numpy(Y.copy(), t.copy(), lam)
        finally: U._OPTIMIZATION_MAX_ITER = old
        K = Y.shape[1]; step = 1 / (np.linalg.norm(Y.T @ Y + lam * np.eye(K), 2) + U._NUMERICAL_EPS)
    else:
        g.c.cache["lib"] = g.c.cache.get("lib", {}); nrm = g.nonneg("spectral norm"); dist = [g.nonneg("move0"), g.nonneg("move1")]; it = iter(dist)
        def norm(self, x, ord=None, *a, **k): return nrm if ord == 2 else next(it)
        from ..shims import NPLinalg
        def spy(v): args.append(v); pts.append(simplex(g, f"w{len(pts)}", n)); return pts[-1].copy()
        g.stub("utils", "_project_simplex", spy); g.set_const("utils", "_OPTIMIZATION_MAX_ITER", 2); g.stub_method(NPLinalg, "s_norm", norm)
        w = U._compute_synthetic_weights_numpy(Y, t, lam); step = 1 / (nrm + U._NUMERICAL_EPS)
    K = n.n if not g.symbolic else n.sint(); one = pts[0] * 0 + 1; cur = one / K
    for a, p in zip(args, pts):
        grad = Y.T @ (Y @ cur - t) + lam * (cur - one / K); g.eq("projected gradient step", a, cur - grad * step, rtol=1e-6); cur = p
    g.eq("returns the last point", w, pts[-1]); g.ensure("iterates", len(args) >= 1); g.cover()

@harness("C11", "weights_quality", ["utils.compute_synthetic_weights", "utils._compute_synthetic_weights_numpy"], sym=False, trials=60, deep=600)
def _(g):
    """end to end: weights on the simplex, the penalised distance is no worse than with uniform weights, and a control that equals the target gets the fit to zero when the problem is well conditioned."""
    n = g.int("n", 1, 12); T = g.int("T", 1, 10); r = g.rng; Y = r.normal(size=(T, n)) * r.choice([.5, 3]) + r.choice([0, 10]); t = Y @ r.dirichlet(np.ones(n)) + r.normal(size=T) * r.choice([0, 1]); lam = float(r.choice([0, .1, 2.]))
    w = g.fn("utils", "compute_synthetic_weights")(Y.copy(), t.copy(), lam)
    g.ensure("length", w.shape == (n,)); g.ensure("non-negative", bool((w >= 0).all())); g.eq("sums to one", w.sum(), 1.0)
    f = lambda w: ((Y @ w - t) ** 2).sum() + lam * ((w - 1 / n) ** 2).sum(); u = np.ones(n) / n
    g.ensure("no worse than uniform weights", f(w) <= f(u) * (1 + 1e-3) + 1e-3); g.cover()

@harness("C11", "time_weights", ["utils.compute_time_weights"], timeout=200)
def _(g):
    """for every outcome matrix, number of periods and zeta >= 0: time weights are positive, sum to one, and are proportional to the inverse of gap plus zeta times the gaps' spread."""
    n = g.axis("ctrl", 1); T = g.axis("pre", 2); Y = g.mat("Y", T, n); t = g.vec("t", T); z = g.nonneg("zeta", 5, py=True)
    if g.symbolic: g.assume(T.sint() > 1)
    w = g.fn("utils", "compute_time_weights")(Y, t, z)
    g.each("positive", lambda x: x > 0, w); g.eq("sums to one", g.sum(w), 1.0)
    K = n.n if not g.symbolic else n.sint(); np_ = g.np(); gap = np_.abs(t - Y.sum(axis=1) / K); sd = np_.std(gap); eps = g.mod("utils")._NUMERICAL_EPS
    inv = 1 / (gap + z * sd + eps); g.eq("inverse-gap weights", w, inv / g.sum(inv)); g.cover()

@harness("C11", "one_period", ["utils.compute_time_weights", "utils.compute_synthetic_weights"])
def _(g):
    """a single pre-period has time weight one; a single control has unit weight one; no control gives no weights."""
    n = g.axis("ctrl", 1); Y = g.mat("Y", 1, n) if not g.symbolic else np.array([[g.real("a"), g.real("b")]], dtype=object)
    w = g.fn("utils", "compute_time_weights")(Y, np.array([g.real("t")], dtype=object if g.symbolic else float), g.nonneg("z", 3, py=True)); g.ensure("one weight", len(w) == 1); g.eq("one", w[0], 1.0)
    T = g.axis("pre", 1); y = g.vec("y", T); u = g.fn("utils", "compute_synthetic_weights")(np.array([[g.real("p")], [g.real("q")]], dtype=object if g.symbolic else float), np.zeros(2), 0.0); g.ensure("one weight", len(u) == 1); g.eq("one", u[0], 1.0)
    g.ensure("none", len(g.fn("utils", "compute_synthetic_weights")(np.zeros((3, 0)), np.zeros(3))) == 0); g.cover()

# ---------------------------------------------------------------- estimator
def sdid(g, Yp, Yq, tp, tq, w, l):
    """treated change (mean post minus weighted pre) minus the weighted average of the controls' changes"""
    K = 1.0
    return tq - l @ tp - w @ (Yq - l @ Yp)
@harness("C11", "estimator", ["utils.compute_sdid_estimator"], timeout=200)
def _(g):
    """for all matrices of any size: the estimate is the doubly weighted contrast, unchanged by unit effects and period effects given weights that sum to one, and moved by exactly a constant added to treated post cells."""
    n = g.axis("ctrl", 1); P = g.axis("pre", 1); Q = g.axis("post", 1); Yp, Yq = g.mat("Yp", P, n), g.mat("Yq", Q, n); tp, tq = g.vec("tp", P), g.vec("tq", Q)
    w, l = simplex(g, "w", n), simplex(g, "l", P); f = g.fn("utils", "compute_sdid_estimator"); tau = f(Yp, Yq, tp, tq, w, l); q = Q.n if not g.symbolic else Q.sint()
    g.eq("weighted contrast", tau, (g.sum(tq) / q - g.sum(l * tp)) - g.sum(w * (Yq.sum(axis=0) / q - l @ Yp)), rtol=1e-8)
    a = g.vec("a", n); a0 = g.real("a0"); bp, bq = g.vec("bp", P), g.vec("bq", Q); c = g.real("c")
    t = 1e-7 if not g.symbolic else 1e-7
    g.eq("additive unit effects do not matter", f(Yp + a, Yq + a, tp + a0, tq + a0, w, l), tau, atol=t)
    g.eq("common period effects do not matter", f(Yp + bp[:, None], Yq + bq[:, None], tp + bp, tq + bq, w, l), tau, atol=t)
    g.eq("an effect on treated post cells is recovered exactly", f(Yp, Yq, tp, tq + c, w, l), tau + c, atol=t); g.cover()

def block(g, nc, nt, T, seed=None, extra=False):
    r = g.rng if not g.symbolic else np.random.default_rng(5); rows = []
    for u in range(nc + nt):
        a = r.normal()
        for t in range(T): rows.append((f"u{u}", t, int(u < nt), a + .3 * t + r.normal() + (2. if u < nt and t >= T - 2 else 0), r.normal()))
    return pd.DataFrame(rows, columns=["unit", "time", "treated", "y", "x"])

@harness("C11", "fit", ["synthetic_did.SyntheticDiD.fit"], timeout=300, trials=40, bound="up to 3 controls, 2 treated, 3 pre- and 2 post-periods (symbolic outcomes)")
def _(g):
    """the fit reports the weighted contrast of the outcome matrices with the weights it reports, keyed by control unit and pre-period; fit error, counts and periods are those used; inference follows the standard error and, for placebos, their tail share."""
    nc, nt, np_, nq = 3, g.choice("treated", [1, 2]), g.choice("pre", [1, 3]), 2; vm = g.choice("variance", ["bootstrap", "placebo"])
    df = block(g, nc, nt, np_ + nq); lam = g.nonneg("lam", 3, py=True); zeta = g.nonneg("zeta", 3, py=True); alpha = g.pyreal("alpha", 0, 1); obj = object if g.symbolic else float
    S = g.mod("synthetic_did"); est = S.SyntheticDiD(lambda_reg=lam, zeta=zeta, alpha=alpha, variance_method=vm, n_bootstrap=3, seed=4)
    M = lambda nm, a, b: np.array([[g.real(f"{nm}{i}{j}") for j in range(b)] for i in range(a)], dtype=obj)
    Yp, Yq, Tp, Tq = M("c", np_, nc), M("d", nq, nc), M("s", np_, nt), M("t", nq, nt); calls = {}
    w = np.array([g.nonneg(f"w{i}") for i in range(nc)], dtype=obj); l = np.array([g.nonneg(f"l{i}") for i in range(np_)], dtype=obj)
    def mats(self, data, o, u, t, pre, post, tr, co): calls["m"] = (o, u, t, list(pre), list(post), list(tr), list(co)); return Yp.copy(), Yq.copy(), Tp.copy(), Tq.copy()
    g.stub("synthetic_did", "SyntheticDiD._create_outcome_matrices", mats)
    def uw(Y, t, lambda_reg=0.0, *a, **k): calls["u"] = (Y, t, lambda_reg); return w.copy()
    def tw(Y, t, zeta=1.0, *a, **k): calls["t"] = (Y, t, zeta); return l.copy()
    g.stub("utils", "compute_synthetic_weights", uw); g.stub("utils", "compute_time_weights", tw)
    se = g.nonneg("se", nan=True); dist = np.array([g.real(f"b{i}") for i in range(3)], dtype=obj)
    g.stub("synthetic_did", "SyntheticDiD._bootstrap_se", lambda self, *a, **k: (calls.__setitem__("v", "bootstrap"), (se, dist))[1]); g.stub("synthetic_did", "SyntheticDiD._placebo_variance_se", lambda self, *a, **k: (calls.__setitem__("v", "placebo"), (se, dist))[1])
    given = g.choice("post periods given", [True, False]) if (np_, nq) == (3, 2) else True
    post = [np_, np_ + 1] if given else [2, 3, 4]
    r = est.fit(df, "y", "treated", "unit", "time", **({"post_periods": post} if given else {}))
    mp, mq = Tp.mean(axis=1), Tq.mean(axis=1)
    tau = (sum(mq) / nq - sum(l[i] * mp[i] for i in range(np_))) - sum(w[j] * (sum(Yq[:, j]) / nq - sum(l[i] * Yp[i, j] for i in range(np_))) for j in range(nc))
    g.eq("estimate", r.att, tau); g.ensure("matrices asked for", calls["m"] == ("y", "unit", "time", [t for t in range(np_ + nq) if t not in post], post, [f"u{i}" for i in range(nt)], [f"u{nt + i}" for i in range(nc)]))
    for k in "ut": g.eq("weights fitted to the pre-period controls", calls[k][0], Yp); g.eq("weights fitted to the treated mean", calls[k][1], mp)
    g.eq("penalty", calls["u"][2], lam); g.eq("zeta", calls["t"][2], zeta); g.ensure("variance method", calls["v"] == vm == r.variance_method)
    g.ensure("weight keys", list(r.unit_weights) == [f"u{nt + i}" for i in range(nc)] and list(r.time_weights) == [t for t in range(np_ + nq) if t not in post][:np_])
    for j in range(nc): g.eq("reported unit weight", r.unit_weights[f"u{nt + j}"], w[j])
    for k, t in enumerate(r.time_weights): g.eq("reported time weight", r.time_weights[t], l[k])
    g.eq("fit error", r.pre_treatment_fit, g.sqrt(sum((mp[i] - sum(Yp[i, j] * w[j] for j in range(nc))) * (mp[i] - sum(Yp[i, j] * w[j] for j in range(nc))) for i in range(np_)) / np_))
    g.ensure("counts and periods", (r.n_obs, r.n_treated, r.n_control, list(r.post_periods), list(r.pre_periods)) == (len(df), nt, nc, post, [t for t in range(np_ + nq) if t not in post])); g.eq("standard error", r.se, se); g.eq("level", r.alpha, alpha)
    if not bool(se > 0): [g.nan("undefined inference", v) for v in (r.t_stat, r.p_value, r.conf_int[0], r.conf_int[1])]; return
    g.eq("t", r.t_stat, tau / se); z = g.dist("norm", "ppf", 1 - alpha / 2); g.eq("interval", r.conf_int[0], tau - z * se); g.eq("interval", r.conf_int[1], tau + z * se)
    if vm == "bootstrap": g.eq("p", r.p_value, 2 * g.dist("norm", "sf", g.abs(tau / se)), atol=1e-12)
    else: g.eq("p is the placebo tail share, at least 1/(B+1)", r.p_value, g.max(sum(g.ite(g.abs(b) >= g.abs(tau), 1.0, 0.0) for b in dist) / 3, .25))
    g.cover()

@harness("C11", "placebo_variance", ["synthetic_did.SyntheticDiD._placebo_variance_se"], timeout=200, bound="4 controls, 2 permutations")
def _(g):
    """each placebo splits the controls by a seeded permutation into pseudo treated (as many as real ones) and pseudo controls with renormalised weights; the standard error is sqrt((B-1)/B) times their sample deviation."""
    nc, P, Q, obj = 4, 2, 2, object if g.symbolic else float; nt = g.choice("treated", [1, 2, 4]); S = g.mod("synthetic_did")
    Yp = np.array([[g.real(f"c{i}{j}") for j in range(nc)] for i in range(P)], dtype=obj); Yq = np.array([[g.real(f"d{i}{j}") for j in range(nc)] for i in range(Q)], dtype=obj)
    w = np.array([g.nonneg(f"w{i}") for i in range(nc)], dtype=obj); l = np.array([g.nonneg(f"l{i}") for i in range(P)], dtype=obj); perms = [[2, 0, 3, 1], [1, 3, 0, 2]]; seen = []
    if g.symbolic:
        def hook(rng, *rec): seen.append((rng.seed, rec[0], rec[1])); return np.array(perms[len(seen) - 1])
        g.c.cache["rng_hook"] = hook
    else: rng = np.random.default_rng(9); perms = [list(rng.permutation(nc)) for _ in range(2)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); se, est = S.SyntheticDiD(seed=9)._placebo_variance_se(Yp, Yq, np.zeros(P), np.zeros(Q), w, l, nt, 2)
    if nt == 4: g.eq("no pseudo control left", se, 0.0); g.ensure("no placebo", len(est) == 0); return
    ref = []
    for p in perms:
        C, Tr = p[:nc - nt], p[nc - nt:]; tot = sum(w[j] for j in C); u = {j: w[j] / tot if bool(tot > 0) else 1.0 / len(C) for j in C}
        ch = lambda j: sum(Yq[:, j]) / Q - sum(l[i] * Yp[i, j] for i in range(P))
        ref.append(sum(ch(j) for j in Tr) / nt - sum(u[j] * ch(j) for j in C))
    g.ensure("placebos", len(est) == 2)
    for a, b in zip(est, ref): g.eq("placebo estimate", a, b)
    m = (ref[0] + ref[1]) / 2; g.eq("standard error", se * se, ((ref[0] - m) * (ref[0] - m) + (ref[1] - m) * (ref[1] - m)) / 2); g.ensure("non-negative", se >= 0)
    if g.symbolic: g.ensure("seeded permutations of the controls", all(s == 9 and k == "permutation" and a[0] == nc for s, k, a in seen))
    g.cover()

def sd_est(g, U, wide, pre, post, tr, co, lam, zeta):
    Yp, Yq = wide.loc[pre, co].values, wide.loc[post, co].values; tp, tq = wide.loc[pre, tr].values.mean(1), wide.loc[post, tr].values.mean(1)
    w, l = U.compute_synthetic_weights(Yp, tp, lam), U.compute_time_weights(Yp, tp, zeta)
    return tq.mean() - l @ tp - w @ (Yq.mean(0) - l @ Yp), w, l

@harness("C11", "end_to_end", ["synthetic_did.SyntheticDiD.fit", "synthetic_did.SyntheticDiD._create_outcome_matrices", "synthetic_did.SyntheticDiD._bootstrap_se", "synthetic_did.SyntheticDiD._residualize_covariates"], sym=False, trials=12, deep=120, timeout=300)
def _(g):
    """on shuffled panels: the estimate is the contrast of the table's outcomes (after removing covariates, unit and period effects when covariates are given); bootstrap replicates resample whole units."""
    nc, nt, T = g.int("nc", 2, 7), g.int("nt", 1, 3), g.int("T", 3, 6); df = block(g, nc, nt, T); U = g.mod("utils"); B = 8; s = g.int("seed", 0, 10**6)
    cov = g.choice("covariates", [None, ["x"]]); lam, zeta = g.nonneg("lam", 2, py=True), g.nonneg("zeta", 2, py=True); tab = df.sample(frac=1, random_state=s).reset_index(drop=bool(s % 2)); post = [T - 2, T - 1]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: r = g.fn("synthetic_did", "SyntheticDiD")(lambda_reg=lam, zeta=zeta, n_bootstrap=B, seed=s).fit(tab, "y", "treated", "unit", "time", post_periods=post, covariates=cov)
        except ValueError as e: g.assume(not "bootstrap iterations failed" in str(e)); raise
    d = df.copy()
    if cov:
        X = np.column_stack([np.ones(len(d)), d.x, O.dummies(d.unit), O.dummies(d.time)]); d["y"] = d.y - X @ np.linalg.lstsq(X, d.y, rcond=None)[0] + d.y.mean()
    wide = d.pivot(index="time", columns="unit", values="y"); pre = list(range(T - 2)); tr, co = [f"u{i}" for i in range(nt)], [f"u{nt + i}" for i in range(nc)]
    tau, w, l = sd_est(g, U, wide, pre, post, tr, sorted(co), lam, zeta)
    g.eq("estimate", r.att, tau, rtol=1e-6, atol=1e-6); g.eq("weights", [r.unit_weights[c] for c in sorted(co)], w, rtol=1e-5, atol=1e-6); g.eq("time weights", [r.time_weights[p] for p in pre], l, rtol=1e-5, atol=1e-6)
    rng = np.random.default_rng(s); units = sorted(tr) + sorted(co); ests = []
    for _ in range(B):
        k = list(rng.choice(units, size=len(units), replace=True)); a, b = [u for u in k if u in tr], [u for u in k if u in co]
        if a and b: ests.append(sd_est(g, U, wide, pre, post, a, b, lam, zeta)[0])
    g.eq("bootstrap replicates refit on resampled units", np.sort(r.placebo_effects), np.sort(ests), rtol=1e-5, atol=1e-5)
    g.eq("bootstrap standard error", r.se, np.std(ests, ddof=1) if len(ests) > 1 else 0.0, rtol=1e-5, atol=1e-6); g.cover()

@harness("C11", "placebo_contract", ["utils.compute_placebo_effects", "utils.compute_sdid_estimator"], trials=60, deep=400, bound="one to three controls, two pre and two post periods; all outcomes and weights")
def _(g):
    """whatever weights the solver delivers: control j in turn is the treated unit, the weights are asked for its pre-period path from those of the other controls, and the effect is its change net of the weighted change of the others, in the order of the controls, up to the limit."""
    nc, lim = g.choice("controls and limit", [(3, None), (3, 2), (2, 5), (1, None)]); O = object if g.symbolic else float; M = lambda nm: np.array([[g.real(f"{nm}{i}{j}") for j in range(nc)] for i in range(2)], dtype=O)
    A, B = M("a"), M("b"); l = np.array(g.reals("l", 2), dtype=O); ws = [g.reals(f"w{j}", nc - 1) for j in range(nc)]; asked = []
    def solver(Yc, yt, *a, **k):
        j = len(asked); o = [i for i in range(nc) if i != j]; asked.append(j); g.ensure("shape of the donor pool", Yc.shape == (2, nc - 1) and yt.shape == (2,))
        for t in range(2): g.eq("path of the placebo unit", yt[t], A[t, j]); [g.eq("paths of the donors", Yc[t, q], A[t, i]) for q, i in enumerate(o)]
        return np.array(ws[j], dtype=O)
    g.stub("utils", "compute_synthetic_weights", solver); e = g.fn("utils", "compute_placebo_effects")(A, B, A[:, 0] * 0, np.ones(nc) / nc, l, list(range(nc)), lim); m = min(lim or nc, nc) if nc > 1 else 0; g.ensure("one effect per placebo unit", len(e) == m and asked == list(range(m)))
    ch = [(B[0, i] + B[1, i]) / 2 - l[0] * A[0, i] - l[1] * A[1, i] for i in range(nc)]
    for j in range(m): g.eq("placebo effect", e[j], ch[j] - sum(w * ch[i] for w, i in zip(ws[j], [i for i in range(nc) if i != j]))); g.cover()

@harness("C11", "placebo_effects", ["utils.compute_placebo_effects"], sym=False, trials=30, deep=300)
def _(g):
    """every placebo effect treats one control as treated against the synthetic control of the others."""
    nc, P, Q = g.int("nc", 1, 6), g.int("P", 1, 5), g.int("Q", 1, 3); r = g.rng; U = g.mod("utils"); Yp, Yq = r.normal(size=(P, nc)), r.normal(size=(Q, nc)); l = r.dirichlet(np.ones(P)); k = g.choice("limit", [None, 2])
    e = U.compute_placebo_effects(Yp, Yq, Yp.mean(1), np.ones(nc) / nc, l, list(range(nc)), k); m = min(k or nc, nc); ref = []
    for j in range(m):
        o = [i for i in range(nc) if i != j]
        if o: w = U.compute_synthetic_weights(Yp[:, o], Yp[:, j]); ref.append(Yq[:, j].mean() - l @ Yp[:, j] - w @ (Yq[:, o].mean(0) - l @ Yp[:, o]))
    g.eq("placebo effects", e, np.array(ref)) if ref else g.ensure("none", len(e) == 0); g.cover()

@harness("C11", "rejects", ["synthetic_did.SyntheticDiD.fit", "synthetic_did.SyntheticDiD.__init__"], sym=False, trials=1)
def _(g):
    """unusable designs are rejected."""
    S = g.fn("synthetic_did", "SyntheticDiD"); d = block(g, 3, 2, 4); f = lambda x=d, **k: S(n_bootstrap=2, seed=1).fit(x, "y", "treated", "unit", "time", **k)
    g.raises("variance method", ValueError, lambda: S(variance_method="x")); g.raises("unknown post period", ValueError, lambda: f(post_periods=[99])); g.raises("no pre-period", ValueError, lambda: f(post_periods=[0, 1, 2, 3])); g.raises("no post period", ValueError, lambda: f(post_periods=[]))
    g.raises("no treated", ValueError, lambda: f(d.assign(treated=0))); g.raises("no control", ValueError, lambda: f(d.assign(treated=1))); g.raises("not binary", ValueError, lambda: f(d.assign(treated=2))); g.raises("missing column", ValueError, lambda: f(d.drop(columns="y"))); g.cover()
