"""C21: triply robust panel estimator (TROP)."""
import math, warnings
import numpy as np, pandas as pd
from ..harness import harness, Skip

def call(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); return f(*a, **k)
def trop(g, **k): return g.fn("trop", "TROP")(**k)
def obj(g): return object if g.symbolic else float
def rmat(g, nm, a, b, nn=False): return np.array([[(g.nonneg if nn else g.real)(f"{nm}{i}{j}") for j in range(b)] for i in range(a)], dtype=obj(g))

# ---------------------------------------------------------------- shrinkage
@harness("C21", "soft_threshold", ["trop.TROP._soft_threshold_svd"], timeout=200, trials=300)
def _(g):
    """for every matrix (any size) with singular triples U, s, V: the result is U max(s - threshold, 0) V; a non-positive threshold returns the matrix."""
    est = trop(g); th = g.pyreal("threshold", None if g.symbolic else -1, None if g.symbolic else 6); tol = g.mod("trop").TROP.CONVERGENCE_TOL_SVD
    T, n = g.axis("periods", 1), g.axis("units", 1); M = g.mat("M", T, n)
    if not g.symbolic:
        R = est._soft_threshold_svd(M.copy(), th)
        if th <= 0: g.eq("unchanged", R, M); return
        a, b = np.linalg.svd(M)[1], np.linalg.svd(R)[1]; want = np.maximum(a - th, 0); g.eq("singular values reduced by the threshold, not below zero", b, want, atol=1e-7 * (1 + a[0]))
        U, s, V = np.linalg.svd(M, full_matrices=False); g.eq("same singular directions", R, (U * want) @ V, atol=1e-7 * (1 + a[0])); g.cover(); return
    from ..shims import NPLinalg
    k = g.axis("rank", 1); U, s, V = g.mat("U", T, k), g.vec("s", k, nonneg=True), g.mat("V", k, n); seen = []
    g.stub_method(NPLinalg, "s_svd", lambda self, x, full_matrices=True, **kw: (seen.append((x, full_matrices)), (U, s, V))[1])
    R = est._soft_threshold_svd(M, th)
    if bool(th <= 0): g.eq("unchanged", R, M); return
    g.eq("decomposes the matrix it was given", seen[0][0], M); g.ensure("thin decomposition", seen[0][1] is False and len(seen) == 1)
    d = g.np().maximum(s - th, 0.0); kept = d * (d > tol)
    g.each("shrunk values are non-negative and at most the original", lambda x, y: g.and_(x >= 0, x <= y), d, s)
    if not bool(g.np().any(d > tol)): g.eq("no value survives: zero matrix", R, M * 0); return
    g.eq("U max(s - threshold, 0) V (values below the numerical floor dropped)", R, (U * kept) @ V); g.cover()

# ---------------------------------------------------------------- low-rank step
@harness("C21", "low_rank_step", ["trop.TROP._weighted_nuclear_norm_solve"], timeout=200, trials=80)
def _(g):
    """loop contract: every iteration shrinks L + (W / max W)(R - L) on weighted cells and L on cells without weight, by the penalty; no penalty returns R on weighted cells and keeps L elsewhere, so cells without weight never enter."""
    T, n = g.axis("periods", 1), g.axis("units", 1); Y, L0 = g.mat("Y", T, n), g.mat("L", T, n); a, b = g.vec("alpha", n), g.vec("beta", T); lam = g.pyreal("lambda_nn", None if g.symbolic else -1, None if g.symbolic else 4)
    if g.symbolic:
        from .. import tensor; tensor.atom("W", (T, n), nonneg=True); W = g.mat("W", T, n)
    else: W = np.maximum(g.mat("S", T, n), 0.0)
    est = trop(g, tol=g.pyreal("tol", 0)); ins, outs = [], []
    def shrink(self, M, t): ins.append((M, t)); outs.append(g.mat(f"P{len(outs)}", T, n) if g.symbolic else g.rng.normal(size=Y.shape)); return outs[-1].copy()
    g.stub("trop", "TROP._soft_threshold_svd", shrink)
    r = est._weighted_nuclear_norm_solve(Y, W, L0, a, b, lam, 2); R = Y - a[None, :] - b[:, None]; on = W > 0; off = ~on
    if bool(lam <= 0): g.eq("weighted cells take the residual, the others keep their value", r, R * on + L0 * off); g.ensure("no shrinkage", not ins); return
    g.ensure("iterates", len(ins) in (1, 2)); cur = L0
    mx = g.np().max(W)
    for (M, t), P in zip(ins, outs):
        g.eq("step threshold", t, lam)
        if bool(mx > 0): g.eq("proximal step", M, cur + (W / mx) * ((R * on + L0 * off) - cur))
        elif not g.symbolic: g.eq("nothing weighted: no step", M, cur)
        cur = P
    g.eq("returns the last iterate", r, outs[-1]); g.cover()

# ---------------------------------------------------------------- alternating fit
MASKS = [[[1, 1, 1], [1, 0, 1], [1, 1, 0]], [[1, 1, 0], [0, 1, 0], [1, 1, 0]], [[1, 1, 1], [0, 0, 0], [1, 0, 1]]]      # usable cells: one treated cell, a unit without any, a period without any
@harness("C21", "model_step", ["trop.TROP._estimate_model"], timeout=250, trials=80, bound="symbolic side: 3 periods, 3 units, three patterns of usable cells, two iterations")
def _(g):
    """loop contract: in every iteration the unit and then the period effects solve their weighted normal equations over the untreated, observed, not excluded cells for the current low-rank part (arbitrary); cells outside do not enter; a shift of the outcome moves only the unit effects."""
    lam = g.nonneg("lambda_nn", py=True); it = g.choice("iterations", [1, 2]); est = trop(g, max_iter=it, tol=0.0); calls = []; c = g.real("shift"); r = g.rng if not g.symbolic else None
    if g.symbolic:
        T = n = 3; M = g.choice("usable", MASKS); Y, W = rmat(g, "y", T, n), np.array([[g.real(f"w{i}{j}", 0, nonzero=True) for j in range(n)] for i in range(T)], dtype=object); mask = np.array(M) > 0; ex = None
        if M is MASKS[0]: ex = (1, 1); mask[1, 1] = True
        mk = lambda k: rmat(g, f"L{k}", T, n)
    else:
        T, n = int(r.integers(1, 7)), int(r.integers(1, 7)); Y = r.normal(size=(T, n)) * 3; Y[r.random(Y.shape) < .1] = np.nan; W = r.random((T, n)) * (r.random((T, n)) < .9); mask = r.random((T, n)) < .8
        ex = None if g.choice("exclude", [0, 1]) else (int(r.integers(T)), int(r.integers(n))); mk = lambda k: r.normal(size=(T, n))
    Ls = [mk(k) for k in range(2)]; mask0 = mask.copy()
    def low(self, y, w, L, a, b, l, max_inner_iter=20): calls.append((y, w, L, a, b, l)); return Ls[(len(calls) - 1) % it].copy()
    g.stub("trop", "TROP._weighted_nuclear_norm_solve", low)
    al, be, L = est._estimate_model(Y, mask, W, lam, n, T, ex); use = mask0.copy(); g.ensure("mask is not modified", bool((mask == mask0).all()))
    if ex is not None: use[ex] = False
    if not g.symbolic: use &= np.isfinite(Y)
    cells = [(t, i) for t in range(T) for i in range(n) if use[t, i]]; g.ensure("iterations", len(calls) == it); prevL, prevb = np.zeros((T, n)), np.zeros(T); tol = 1e-7 * (1 + (0 if g.symbolic else np.nanmax(np.abs(Y)) if np.isfinite(Y).any() else 0))
    for k, (y, w, L_, a, b, l) in enumerate(calls):
        for t in range(T):
            for i in range(n): g.eq("low-rank step uses the weights of usable cells only", w[t, i], W[t, i] if use[t, i] else 0.0); g.eq("low-rank step starts at the current low-rank part", L_[t, i], prevL[t, i])
        g.eq("penalty", l, lam)
        for i in range(n):
            S = [t for t in range(T) if (t, i) in cells and (g.symbolic or W[t, i] > 0)]
            if not S: g.eq("no usable cell: unit effect zero", a[i], 0.0); continue
            g.lemma("weight", sum(W[t, i] for t in S) > 0); g.eq("unit effects solve their normal equation", sum(W[t, i] * (Y[t, i] - prevL[t, i] - prevb[t] - a[i]) for t in S), 0.0, atol=tol)
        for t in range(T):
            S = [i for i in range(n) if (t, i) in cells and (g.symbolic or W[t, i] > 0)]
            if not S: g.eq("no usable cell: period effect zero", b[t], 0.0); continue
            g.lemma("weight", sum(W[t, i] for i in S) > 0); g.eq("period effects solve their normal equation", sum(W[t, i] * (Y[t, i] - prevL[t, i] - a[i] - b[t]) for i in S), 0.0, atol=tol)
        prevL, prevb = Ls[k], b
    g.eq("returns the last unit effects", al, calls[-1][3]); g.eq("returns the last period effects", be, calls[-1][4]); g.eq("returns the last low-rank part", L, Ls[it - 1])
    calls.clear(); Z = Y + c
    for t in range(T):
        for i in range(n):
            if not use[t, i]: Z[t, i] = 7.0 if ex == (t, i) or not mask0[t, i] else Y[t, i]      # outcomes of unusable cells are arbitrary
    a2, b2, _ = est._estimate_model(Z, mask, W, lam, n, T, ex)
    for i in range(n):
        if any((t, i) in cells and (g.symbolic or W[t, i] > 0) for t in range(T)): g.eq("shift moves every unit effect with usable cells", a2[i], al[i] + c, rtol=1e-6, atol=tol)
        else: g.eq("unit without usable cells", a2[i], 0.0)
    for t in range(T): g.eq("shift leaves period effects", b2[t], be[t], rtol=1e-6, atol=tol)
    g.cover()

# ---------------------------------------------------------------- distances and weights
def cellset(g, T, n, tag=""):
    """outcomes (missing in places) and an absorbing treatment pattern"""
    if g.symbolic:
        P = g.choice("pattern" + tag, [0, 1, 2]); Y = rmat(g, "y" + tag, T, n); D = np.zeros((T, n), dtype=int)
        if P < 2: D[2:, 0] = 1
        if P == 1: D[1:, 1] = 1; Y[1, 0] = float("nan"); Y[0, n - 1] = float("nan")
        if P == 2: D[1:, 0] = 1; D[:, 1] = 1
        return Y, D
    r = g.rng; Y = r.normal(size=(T, n)) * 2; Y[r.random(Y.shape) < r.choice([0, .2])] = np.nan; D = np.zeros((T, n), dtype=int)
    for i in range(n):
        if r.random() < .5: D[int(r.integers(1, T + 1)):, i] = 1
    return Y, D
def miss(v): return isinstance(v, (float, np.floating)) and math.isnan(v)
def spec_dist(g, Y, D, j, i, t):
    """root mean squared gap over the other periods in which both units are untreated and observed; none: infinite"""
    S = [s for s in range(len(Y)) if s != t and D[s, i] == 0 and D[s, j] == 0 and not miss(Y[s, i]) and not miss(Y[s, j])]
    return g.sqrt(sum((Y[s, i] - Y[s, j]) * (Y[s, i] - Y[s, j]) for s in S) / len(S)) if S else None

@harness("C21", "unit_distance", ["trop.TROP._compute_unit_distance_for_obs", "trop.TROP._compute_all_unit_distances"], timeout=200, trials=200, bound="symbolic side: 4 periods, 3 units, three treatment patterns")
def _(g):
    """the distance is the root mean squared outcome gap over periods, the target excluded, in which both units are untreated and observed; infinite without any; symmetric, non-negative, unmoved by a common shift."""
    T, n = (4, 3) if g.symbolic else (int(g.rng.integers(2, 7)), int(g.rng.integers(2, 5))); Y, D = cellset(g, T, n); est = trop(g); c = g.real("shift")
    j, i, t = [(0, 2, 2), (1, 2, 1), (0, 1, 3), (2, 0, 0)][g.choice("cell", [0, 1, 2, 3])] if g.symbolic else (0, n - 1, int(g.rng.integers(T)))
    d = est._compute_unit_distance_for_obs(Y, D, j, i, t); w = spec_dist(g, Y, D, j, i, t)
    if w is None: g.ensure("no common period: infinite", d == math.inf); g.cover(); return
    g.eq("root mean squared gap", d, w); g.ensure("non-negative", d >= 0); g.eq("symmetric", est._compute_unit_distance_for_obs(Y, D, i, j, t), w); g.eq("common shift does not matter", est._compute_unit_distance_for_obs(Y + c, D, j, i, t), w, rtol=1e-6)
    if not g.symbolic:
        A = est._compute_all_unit_distances(Y, D, n, T)
        for a in range(n):
            for b in range(n):
                e = spec_dist(g, Y, D, a, b, -1); g.eq("distance matrix", A[a, b], 0.0 if a == b else math.inf if e is None else e)
    g.cover()

@harness("C21", "observation_weights", ["trop.TROP._compute_observation_weights", "trop.TROP._compute_unit_distance_for_obs"], timeout=250, trials=150, bound="symbolic side: 4 periods, 3 units, three treatment patterns; all outcomes and decay rates")
def _(g):
    """the weight of cell (s, j) for target (t, i) is exp(-lambda_time |s - t|) times exp(-lambda_unit distance) for units untreated at t (one for the unit itself, zero for units treated at t or without common period), from the matrices passed in, also when structures of another panel are stored; one for all when both decay rates are zero."""
    T, n = (4, 3) if g.symbolic else (int(g.rng.integers(2, 7)), int(g.rng.integers(2, 5))); Y, D = cellset(g, T, n); est = trop(g); lt, lu = g.nonneg("lambda_time", 3, py=True), g.nonneg("lambda_unit", 3, py=True)
    if not g.symbolic and g.choice("no unit decay", [0, 1]): lu = 0.0
    if not g.symbolic and g.choice("no time decay", [0, 1]): lt = 0.0
    st = g.choice("stored structures", ["none", "own", "other"]); ctl = np.where(~(D == 1).any(axis=0))[0]
    if st == "own": est._precomputed = est._precompute_structures(Y, D, ctl, n, T) if not g.symbolic else {"Y": Y, "D": D, "time_dist_matrix": np.abs(np.arange(T)[:, None] - np.arange(T)[None, :])}
    if st == "other":
        T2, n2 = T, n + 1; Y2 = np.arange(T2 * n2).reshape(T2, n2) * 1.0; D2 = np.zeros((T2, n2), dtype=int); D2[1:, 2] = 1
        est._precomputed = est._precompute_structures(Y2, D2, np.array([0, 1]), n2, T2) if not g.symbolic else {"Y": Y2, "D": D2, "time_dist_matrix": np.abs(np.arange(T2)[:, None] - np.arange(T2)[None, :])}
    i, t = [(0, 2), (1, 1), (2, 3)][g.choice("cell", [0, 1, 2])] if g.symbolic else (int(g.rng.integers(n)), int(g.rng.integers(T)))
    W = est._compute_observation_weights(Y, D, i, t, lt, lu, ctl, n, T); g.ensure("shape", W.shape == (T, n)); off = bool(lu == 0)
    for j in range(n):
        d = spec_dist(g, Y, D, j, i, t)
        u = 1.0 if j == i else 0.0 if D[t, j] != 0 else 1.0 if off else 0.0 if d is None else g.exp(-lu * d)
        for s in range(T): g.eq("weight", W[s, j], g.exp(-lt * abs(s - t)) * u, rtol=1e-9); g.ensure("non-negative", W[s, j] >= 0)
    if off and bool(lt == 0): g.ensure("no decay: equal weights", all(bool(W[s, j] == 1) for s in range(T) for j in range(n) if j == i or D[t, j] == 0))
    g.cover()

@harness("C21", "joint_weights", ["trop.TROP._compute_joint_weights"], timeout=250, trials=200, bound="symbolic side: 4 periods, 3 units; all outcomes and decay rates")
def _(g):
    """joint weights are exp(-lambda_time distance to the centre of the treated block) times exp(-lambda_unit root mean squared pre-period gap to the treated average), zero for units never observed then; non-negative, one for all without decay; no treated unit is an error."""
    T, n = (4, 3) if g.symbolic else (int(g.rng.integers(2, 8)), int(g.rng.integers(2, 6))); k = g.choice("treated periods", [1, 2]) if g.symbolic else int(g.rng.integers(1, T)); est = trop(g); lt, lu = g.nonneg("lambda_time", 3, py=True), g.nonneg("lambda_unit", 3, py=True)
    nt = g.choice("treated units", [1, 2]) if g.symbolic else int(g.rng.integers(1, n)); Y = rmat(g, "y", T, n) if g.symbolic else g.rng.normal(size=(T, n)) * 2; D = np.zeros((T, n), dtype=int); D[T - k:, :nt] = 1
    if not g.symbolic:
        Y[g.rng.random(Y.shape) < g.rng.choice([0, .25])] = np.nan; lt, lu = (0.0 if g.choice("lt0", [0, 1]) else lt), (0.0 if g.choice("lu0", [0, 1]) else lu)
    W = call(est._compute_joint_weights, Y, D, lt, lu, k, n, T); g.ensure("shape", W.shape == (T, n)); c = T - k / 2.0
    av = []
    for t in range(T):
        v = [Y[t, i] for i in range(nt) if not miss(Y[t, i])]; av.append(sum(v) / len(v) if v else None)
    for j in range(n):
        S = [t for t in range(T - k) if av[t] is not None and not miss(Y[t, j])]
        d = g.sqrt(sum((av[t] - Y[t, j]) * (av[t] - Y[t, j]) for t in S) / len(S)) if S else None
        for t in range(T): g.eq("weight", W[t, j], 0.0 if d is None else g.exp(-lt * abs(t - c)) * g.exp(-lu * d), rtol=1e-9); g.ensure("non-negative", W[t, j] >= 0)
        if bool(lt == 0) and bool(lu == 0) and S: g.ensure("no decay: equal weights", all(bool(W[t, j] == 1) for t in range(T)))
    g.raises("no treated unit", ValueError, lambda: est._compute_joint_weights(Y, D * 0, lt, lu, k, n, T)); g.cover()

@harness("C21", "joint_solver", ["trop.TROP._solve_joint_no_lowrank"], timeout=250, trials=200, bound="symbolic side: 3 periods, 3 units, one treatment pattern; all outcomes and weights")
def _(g):
    """the joint fit is the weighted least-squares regression of observed outcomes on an intercept, unit and period indicators (first of each omitted) and the treatment: the system handed to the least-squares routine is that one, and the parameters returned are its solution; nothing weighted, or no weighted treated cell, is an error."""
    est = trop(g); T, n = (3, 3) if g.symbolic else (int(g.rng.integers(2, 7)), int(g.rng.integers(2, 6))); D = np.zeros((T, n), dtype=int); D[T - 1:, :1] = 1
    if g.symbolic:
        Y, W = rmat(g, "y", T, n), np.array([[g.real(f"w{i}{j}", 0, nonzero=True) for j in range(n)] for i in range(T)], dtype=object); c = [g.real(f"c{i}") for i in range(1 + n - 1 + T - 1 + 1)]; seen = []
        if g.choice("cells without weight", [0, 1]): W[0, 1] = 0.0; W[T - 1, 2] = 0.0
        from ..shims import NPLinalg
        g.stub_method(NPLinalg, "s_lstsq", lambda self, A, b, rcond=None, **k: (seen.append((A, b)), (np.array(c, dtype=object), None, None, None))[1])
        try: mu, al, be, tau = est._solve_joint_no_lowrank(Y, D, W)
        except ValueError: g.ensure("only unidentified panels are refused", g.or_(g.sum(W) < 1e-10, W[T - 1, 0] <= 0)); return
        A, b = seen[0]; g.ensure("one system of the right size", len(seen) == 1 and A.shape == (n * T, len(c)) and b.shape == (n * T,))
        # the objective of the system, cell by cell, is weight times the squared residual of the fitted model
        for r in range(n * T):
            t, i = divmod(r, n); q = A[r, 0]; g.ensure("root of the cell weight", q >= 0); g.eq("root of the cell weight", q * q, W[t, i])
            g.eq("weighted residual of the model", b[r] - sum(A[r, j] * c[j] for j in range(len(c))), q * (Y[t, i] - mu - al[i] - be[t] - tau * int(D[t, i])))
        g.eq("first unit is the base", al[0], 0.0); g.eq("first period is the base", be[0], 0.0); P = [mu] + list(al[1:]) + list(be[1:]) + [tau]
        g.ensure("every coefficient is returned once", len(P) == len(c)); [g.eq("coefficient", x, y) for x, y in zip(P, c)]
        return
    Y = g.rng.normal(size=(T, n)) * 3; D[int(g.rng.integers(1, T)):, :int(g.rng.integers(1, n))] = 1; Y[g.rng.random(Y.shape) < g.rng.choice([0, .15])] = np.nan; W = g.rng.random((T, n)) * (g.rng.random((T, n)) < .95); use = np.isfinite(Y) & (W > 0)
    if not (use & (D == 1)).any(): g.raises("no weighted treated cell", ValueError, lambda: est._solve_joint_no_lowrank(Y, D, W)); return
    mu, al, be, tau = est._solve_joint_no_lowrank(Y, D, W); E = np.where(use, W * (np.where(use, Y, 0) - mu - al[None, :] - be[:, None] - tau * D), 0.0); sc = 1e-8 * (1 + np.nanmax(np.abs(Y)))
    g.eq("orthogonal to the intercept", E.sum(), 0.0, atol=sc); g.eq("orthogonal to the treatment", (E * D).sum(), 0.0, atol=sc); g.eq("orthogonal to every unit", E.sum(axis=0), np.zeros(n), atol=sc); g.eq("orthogonal to every period", E.sum(axis=1), np.zeros(T), atol=sc)
    g.raises("all weights zero", ValueError, lambda: est._solve_joint_no_lowrank(Y, D, W * 0)); g.cover()

@harness("C21", "joint_low_rank", ["trop.TROP._solve_joint_with_lowrank"], timeout=250, trials=100)
def _(g):
    """loop contract: each iteration fits the regression to the outcome minus the low-rank part with the weights of observed cells, then shrinks L + (weights / max)(Y - fit - L) by the penalty over the largest weight."""
    T, n = g.axis("periods", 1), g.axis("units", 1); Y, D = g.mat("Y", T, n), g.mat("D", T, n); lam = g.nonneg("lambda_nn", 4, py=True); it = g.choice("iterations", [1, 2]); est = trop(g); fits, shr = [], []
    if g.symbolic:
        from .. import tensor; tensor.atom("W", (T, n), nonneg=True); W = g.mat("W", T, n); miss_ = None
    else:
        W = g.rng.random(Y.shape); D = (D > 0).astype(int); Y = Y.copy(); Y[g.rng.random(Y.shape) < .15] = np.nan
    par = [(g.real(f"mu{k}"), g.vec(f"al{k}", n), g.vec(f"be{k}", T), g.real(f"tau{k}")) for k in range(2)]; Ls = [g.mat(f"P{k}", T, n) for k in range(2)]
    def wls(self, y, d, w): fits.append((y, d, w)); return par[len(fits) - 1]
    def shrink(self, M, t): shr.append((M, t)); return Ls[len(shr) - 1].copy()
    g.stub("trop", "TROP._solve_joint_no_lowrank", wls); g.stub("trop", "TROP._soft_threshold_svd", shrink)
    if g.symbolic: g.assume(g.np().max(W) > 0)
    mu, al, be, L, tau = est._solve_joint_with_lowrank(Y, D, W, lam, it, 0.0); k = len(fits); g.ensure("iterations", 1 <= k <= it and len(shr) == k); cur = Ls[0] * 0
    if not g.symbolic: W = np.where(np.isfinite(Y), W, 0.0); Y = np.where(np.isfinite(Y), Y, 0.0)
    mx = g.np().max(W)
    if not g.symbolic and mx == 0: return
    for q in range(k):
        g.eq("regression of the outcome minus the low-rank part", fits[q][0], Y - cur); g.eq("with the treatment", fits[q][1], D); g.eq("and the weights of observed cells", fits[q][2], W); m, a, b, t = par[q]
        R = Y - m - a[None, :] - b[:, None] - t * D; g.eq("proximal step", shr[q][0], cur + (W / mx) * (R - cur)); g.eq("threshold", shr[q][1] * mx, lam); cur = Ls[q]
    g.eq("returns the last low-rank part", L, Ls[k - 1]); [g.eq("returns the last parameters", x, y) for x, y in zip((mu, al, be, tau), par[k - 1])]; g.cover()

# ---------------------------------------------------------------- fits
def panel(g, T, n, D, drop=(), names=None):
    """long table of a treatment pattern with arbitrary outcomes; rows in reversed order, some absent"""
    rows = []
    for i in range(n):
        for t in range(T):
            if (t, i) in drop: continue
            rows.append(dict(unit=(names or [f"u{k}" for k in range(n)])[i], time=2000 + 3 * t, d=int(D[t, i]), y=g.real(f"y{t}{i}") if g.symbolic else float(g.rng.normal() * 2 + i + .5 * t)))
    df = pd.DataFrame(rows[::-1])
    return df.astype({"y": object}) if g.symbolic else df
LAMS = [(0.5, 0.25, 2.0), (math.inf, math.inf, math.inf), (0.0, 1.5, 0.0)]
def eff(l): return (0.0 if math.isinf(l[0]) else l[0], 0.0 if math.isinf(l[1]) else l[1], 1e10 if math.isinf(l[2]) else l[2])
def inference(g, r, att, se, alpha, cells):
    if not bool(se > 0): [g.nan("undefined inference", v) for v in (r.t_stat, r.p_value, r.conf_int[0], r.conf_int[1])]; return
    df = max(1, cells - 1); t = att / se; g.eq("t", r.t_stat, t); q = g.dist("t", "ppf", 1 - alpha / 2, df); g.eq("interval", r.conf_int[0], att - q * se); g.eq("interval", r.conf_int[1], att + q * se)
    g.eq("p", r.p_value, 2 * (1 - g.dist("t", "cdf", g.abs(t), df)), atol=1e-12)

@harness("C21", "twostep_fit", ["trop.TROP.fit"], timeout=300, trials=40, bound="4 periods, 3 or 4 units, four absorbing patterns (one with missing rows, one with a single treated cell); all outcomes, model estimates, errors and levels")
def _(g):
    """the fit re-estimates the model for every treated cell with that cell's weights on the untreated cells, reports outcome minus unit, period and low-rank part for it, and the mean of these as the estimate; infinite tuning values act as disabled and are reported as chosen; inference follows the standard error with one reference law."""
    K = g.choice("pattern", [0, 1, 2, 3]); T, n = 4, 4 if K else 3; D = np.zeros((T, n), dtype=int); D[2 + (K == 3):, 0] = 1
    if 0 < K < 3: D[3:, 1] = 1
    drop = {(2, 0), (1, 3)} if K == 2 else (); df = panel(g, T, n, D, drop); alpha = g.pyreal("alpha", 0, 1); vm = g.choice("variance", ["bootstrap", "jackknife"]); lam = g.choice("lambda", LAMS); e = eff(lam); O = obj(g)
    est = trop(g, alpha=alpha, variance_method=vm, n_bootstrap=7, lambda_time_grid=[lam[0]], lambda_unit_grid=[lam[1]], lambda_nn_grid=[lam[2]], seed=3); calls = {"w": [], "m": [], "s": []}
    cells = [(t, i) for t in range(T) for i in range(n) if D[t, i] and (t, i) not in drop]; par = {}
    for k, c in enumerate(cells): par[c] = (np.array([g.real(f"a{k}{i}") for i in range(n)], dtype=O), np.array([g.real(f"b{k}{t}") for t in range(T)], dtype=O), np.array([[g.real(f"l{k}{t}{i}") for i in range(n)] for t in range(T)], dtype=O))
    se = g.nonneg("se"); score = g.nonneg("score")
    def weights(self, Y, Dm, i, t, lt, lu, *a): calls["w"].append((Y, Dm, i, t, lt, lu)); return ("weights", t, i)
    def model(self, Y, mask, W, lnn, *a, **k): calls["m"].append((Y, mask, W, lnn, k.get("exclude_obs", a[2] if len(a) > 2 else None))); return tuple(x.copy() for x in par[W[1], W[2]])
    def loocv(self, Y, Dm, mask, ctl, lt, lu, ln, *a): calls["s"].append((lt, lu, ln)); return score
    g.stub("trop", "TROP._compute_observation_weights", weights); g.stub("trop", "TROP._estimate_model", model); g.stub("trop", "TROP._loocv_score_obs_specific", loocv)
    if g.symbolic: g.stub("trop", "TROP._precompute_structures", lambda self, Y, Dm, ctl, nu, nt: dict(treated_observations=[(t, i) for t in range(nt) for i in range(nu) if Dm[t, i] == 1], Y=Y, D=Dm, control_mask=Dm == 0))
    g.stub("trop", "TROP._bootstrap_variance", lambda self, *a, **k: (calls.__setitem__("v", ("bootstrap", a[5] if len(a) > 5 else k.get("optimal_lambda"))), (se, np.array([1.0])))[1]); g.stub("trop", "TROP._jackknife_variance", lambda self, *a, **k: (calls.__setitem__("v", ("jackknife", a[4])), (se, np.array([1.0])))[1])
    if g.symbolic:
        from ..shims import NPLinalg
        g.stub_method(NPLinalg, "s_svd", lambda self, x, **k: (None, [g.real("sv0", 0, nonzero=True)], None))
    r = call(est.fit, df, "y", "d", "unit", "time"); val = lambda t, i: df[(df.unit == f"u{i}") & (df.time == 2000 + 3 * t)].y.iloc[0]
    g.ensure("every leave-one-out score uses usable tuning values", len(calls["s"]) > 0 and all(all(math.isfinite(x) for x in s) for s in calls["s"]))
    g.ensure("one model per treated cell", sorted((w[1], w[2]) for _, _, w, _, _ in calls["m"]) == sorted(cells) and all(x[4] is None for x in calls["m"]))
    for Y, Dm, i, t, lt, lu in calls["w"]:
        g.ensure("weights of the treated cell with the chosen tuning values", (t, i) in cells and (lt, lu) == e[:2] and Y.shape == (T, n) and all(bool(Dm[t, i] == 1) == ((t, i) in cells) for t in range(T) for i in range(n)))
    for Y, mask, W, lnn, _ in calls["m"]:
        g.ensure("penalty", lnn == e[2])
        for t in range(T):
            for i in range(n):
                g.ensure("model is fitted to untreated cells", bool(mask[t, i]) == ((t, i) not in cells))
                if (t, i) in drop: g.nan("absent row", Y[t, i])
                else: g.eq("outcome matrix", Y[t, i], val(t, i))
    tau = {c: val(*c) - par[c][0][c[1]] - par[c][1][c[0]] - par[c][2][c] for c in cells}; att = sum(tau.values()) / len(cells)
    g.ensure("effects of exactly the treated cells", set(r.treatment_effects) == {(f"u{i}", 2000 + 3 * t) for t, i in cells}); [g.eq("cell effect", r.treatment_effects[f"u{i}", 2000 + 3 * t], v) for (t, i), v in tau.items()]
    g.eq("estimate is the mean over treated cells", r.att, att, rtol=1e-8, atol=1e-9); g.eq("standard error", r.se, se); g.ensure("variance method", calls["v"] == (vm, e)); inference(g, r, att, se, alpha, len(cells))
    g.ensure("counts", (r.n_obs, r.n_treated, r.n_control, int(r.n_treated_obs), r.n_pre_periods, r.n_post_periods) == (len(df), 2 if 0 < K < 3 else 1, 3 if K == 3 else 2, len(cells), min(c[0] for c in cells), len({c[0] for c in cells})))
    g.ensure("tuning values as chosen", (r.lambda_time, r.lambda_unit, r.lambda_nn) == lam); g.eq("score", r.loocv_score, score)
    for i in range(n): g.eq("unit effects are averages over the fits", r.unit_effects[f"u{i}"], sum(par[c][0][i] for c in cells) / len(cells), atol=1e-9)
    for t in range(T): g.eq("period effects are averages over the fits", r.time_effects[2000 + 3 * t], sum(par[c][1][t] for c in cells) / len(cells), atol=1e-9)
    for t in range(T):
        for i in range(n): g.eq("low-rank part is the average over the fits", r.factor_matrix[t, i], sum(par[c][2][t, i] for c in cells) / len(cells), atol=1e-9)
    g.cover()

@harness("C21", "joint_fit", ["trop.TROP._fit_joint"], timeout=300, trials=40, bound="4 periods, 3 units, three patterns; all outcomes, solver outputs, errors and levels")
def _(g):
    """the joint fit solves one weighted regression with the weights of the chosen tuning values; its treatment coefficient is the estimate and the effect of every treated cell; tuning values minimise the leave-one-out score over the grid."""
    K = g.choice("pattern", [0, 1, 2]); T, n = 4, 3; D = np.zeros((T, n), dtype=int); D[2 + (K == 2):, :1 + (K == 1)] = 1; drop = {(1, 0)} if K else (); pre, post = (3, 1) if K == 2 else (2, 2); df = panel(g, T, n, D, drop); alpha = g.pyreal("alpha", 0, 1); vm = g.choice("variance", ["bootstrap", "jackknife"]); O = obj(g)
    l0, l1 = g.choice("grid", [(LAMS[0], LAMS[1]), (LAMS[1], LAMS[2])]); est = trop(g, method="joint", alpha=alpha, variance_method=vm, n_bootstrap=7, lambda_time_grid=[l0[0], l1[0]], lambda_unit_grid=[l0[1], l1[1]], lambda_nn_grid=[l0[2], l1[2]], seed=3); calls = {"s": {}, "w": [], "f": []}
    combos = [(a, b, c) for a in (l0[0], l1[0]) for b in (l0[1], l1[1]) for c in (l0[2], l1[2])]; best = g.choice("best", [0, 3, 6]); sc = {c: (float(k) + 5 if k != best else 1.0) for k, c in enumerate(combos)}
    def loocv(self, Y, Dm, obs, lt, lu, ln, *a): calls["s"][(lt, lu, ln)] = (obs, a[0]); return min(v for c, v in sc.items() if eff(c) == (lt, lu, ln))
    def weights(self, Y, Dm, lt, lu, k, *a): calls["w"].append((Y, Dm, lt, lu, k)); return "weights"
    mu, tau = g.real("mu"), g.real("tau"); al, be, L = np.array([g.real(f"a{i}") for i in range(n)], dtype=O), np.array([g.real(f"b{t}") for t in range(T)], dtype=O), rmat(g, "l", T, n); se = g.nonneg("se")
    g.stub("trop", "TROP._loocv_score_joint", loocv); g.stub("trop", "TROP._compute_joint_weights", weights)
    g.stub("trop", "TROP._solve_joint_no_lowrank", lambda self, Y, Dm, W: (calls["f"].append((Y, Dm, W, None)), (mu, al, be, tau))[1]); g.stub("trop", "TROP._solve_joint_with_lowrank", lambda self, Y, Dm, W, ln, *a: (calls["f"].append((Y, Dm, W, ln)), (mu, al, be, L, tau))[1])
    g.stub("trop", "TROP._bootstrap_variance_joint", lambda self, *a, **k: (calls.__setitem__("v", ("bootstrap", a[5], a[6])), (se, np.array([1.0])))[1]); g.stub("trop", "TROP._jackknife_variance_joint", lambda self, *a, **k: (calls.__setitem__("v", ("jackknife", a[2], a[3])), (se, np.array([1.0])))[1])
    if g.symbolic:
        from ..shims import NPLinalg
        g.stub_method(NPLinalg, "s_svd", lambda self, x, **k: (None, [g.real("sv0", 0, nonzero=True)], None))
    r = call(est.fit, df, "y", "d", "unit", "time"); val = lambda t, i: df[(df.unit == f"u{i}") & (df.time == 2000 + 3 * t)].y.iloc[0]; cells = [(t, i) for t in range(T) for i in range(n) if D[t, i]]
    g.ensure("every grid combination is scored with usable values", set(calls["s"]) == {eff(c) for c in combos}); lam = (r.lambda_time, r.lambda_unit, r.lambda_nn); m = min(sc.values()); g.ensure("best score wins", lam in sc and min(v for c, v in sc.items() if eff(c) == eff(lam)) == m); e = eff(lam); g.eq("score", r.loocv_score, m)
    g.ensure("scored on every untreated observed cell", all(sorted(o) == sorted((t, i) for t in range(T) for i in range(n) if not D[t, i] and (t, i) not in drop) and k == post for o, k in calls["s"].values()))
    g.ensure("weights of the chosen values", len(calls["w"]) == 1 and calls["w"][0][2:] == (e[0], e[1], post)); Y, Dm, W, ln = calls["f"][0]
    g.ensure("one fit with those weights", len(calls["f"]) == 1 and W == "weights" and ln == (None if e[2] >= 1e10 else e[2]) and Dm.shape == (T, n) and all(int(Dm[t, i]) == int(D[t, i]) for t in range(T) for i in range(n)))
    for t in range(T):
        for i in range(n): g.nan("absent row", Y[t, i]) if (t, i) in drop else g.eq("outcome matrix", Y[t, i], val(t, i))
    g.eq("estimate is the treatment coefficient", r.att, tau); g.ensure("effects of exactly the treated cells", set(r.treatment_effects) == {(f"u{i}", 2000 + 3 * t) for t, i in cells}); [g.eq("cell effect", v, tau) for v in r.treatment_effects.values()]
    g.eq("standard error", r.se, se); g.ensure("variance method", calls["v"][0] == vm and calls["v"][1] == e and calls["v"][2] == post); inference(g, r, tau, se, alpha, len(cells))
    g.ensure("counts", (r.n_obs, r.n_treated, r.n_control, r.n_treated_obs, r.n_pre_periods, r.n_post_periods) == (len(df), 1 + (K == 1), n - 1 - (K == 1), len(cells), pre, post)); [g.eq("unit effects", r.unit_effects[f"u{i}"], al[i]) for i in range(n)]; [g.eq("period effects", r.time_effects[2000 + 3 * t], be[t]) for t in range(T)]
    g.cover()

@harness("C21", "rejections", ["trop.TROP.fit", "trop.TROP._fit_joint"], sym=False, trials=300, deep=6000, bound="random treatment patterns up to 6 units and 7 periods with missing rows")
def _(g):
    """treatment that switches off in a unit's observed sequence is rejected by both methods, naming exactly the offending units, also across missing rows; no treated cell, no untreated unit, fewer than two periods before treatment, and (joint) different starts are rejected; a treated unit without an untreated outcome is rejected (twostep)."""
    r = g.rng; n, T = int(r.integers(2, 6)), int(r.integers(3, 8)); D = np.zeros((T, n), dtype=int); k = r.choice(["absorbing", "any", "late"]); Y = r.normal(size=(T, n)); method = g.choice("method", ["twostep", "joint"])
    for i in range(n):
        if k == "any": D[:, i] = r.random(T) < .4
        elif r.random() < .5: D[int(r.integers(2 if k == "late" else 0, T)):, i] = 1
    rows = [(i, t, D[t, i], Y[t, i]) for i in range(n) for t in range(T) if r.random() > (.25 if g.choice("missing rows", [0, 1]) else 0)]; df = pd.DataFrame(rows, columns=["unit", "time", "d", "y"]).sample(frac=1, random_state=int(r.integers(10**6)))
    g.assume(len(df) > 0); seq = {u: list(s.sort_values("time").d) for u, s in df.groupby("unit")}; off = [u for u, s in seq.items() if any(a > b for a, b in zip(s, s[1:]))]; est = g.fn("trop", "TROP")(method=method, lambda_time_grid=[0.0], lambda_unit_grid=[0.0], lambda_nn_grid=[math.inf], max_iter=3, n_bootstrap=2, max_loocv_samples=2, seed=1)
    g.stub("trop", "TROP._bootstrap_variance", lambda self, *a, **k: (1.0, np.array([1.0]))); g.stub("trop", "TROP._bootstrap_variance_joint", lambda self, *a, **k: (1.0, np.array([1.0])))
    try: res = call(est.fit, df, "y", "d", "unit", "time"); err = None
    except ValueError as e: res, err = None, str(e)
    if off:
        g.ensure("switching off is rejected", err is not None and "absorbing" in err); inside = err[err.index("["):err.index("]")]; import re
        g.ensure("names the offending units", [int(x) for x in re.findall(r"\d+", inside.replace("np.int64", ""))] == off, err); g.cover(); return
    per = sorted(df.time.unique()); ever = [u for u, s in seq.items() if max(s) == 1]; first = min((df[df.d == 1].time), default=None)
    bad = not ever or len(ever) == len(seq) or sum(t < first for t in per) < 2
    starts = {min(s.time) for u, s in df[df.d == 1].groupby("unit")}; lone = [u for u in ever if min(seq[u]) == 1]
    if not bad and method == "joint" and len(starts) > 1: bad = True
    if not bad and method == "twostep" and lone: bad = True
    if not bad and method == "joint" and len(lone) == len(ever): bad = True
    if bad: g.ensure("invalid panel is rejected", err is not None, str(res)); return
    g.ensure("valid panel is accepted", err is None, str(err))
    if res is not None: g.ensure("treated cells", {(u, t) for u, t in res.treatment_effects} == {(a.unit, a.time) for a in df[df.d == 1].itertuples()})
    g.cover("accepted")

@harness("C21", "loocv_score", ["trop.TROP._loocv_score_obs_specific"], timeout=200, trials=80, bound="symbolic side: 3 periods, 3 units, one missing outcome")
def _(g):
    """the tuning score is the sum, over the untreated observed cells (or a seeded draw of them without replacement), of the squared gap left by the model fitted without that cell with that cell's weights; a failing fit or no cell at all gives an infinite score."""
    T = n = 3; D = np.zeros((T, n), dtype=int); D[2, 0] = 1; Y = rmat(g, "y", T, n); Y[0, 1] = float("nan"); cap = g.choice("cap", [100, 3]); fail = g.choice("failing cell", [None, 1]); est = trop(g, max_loocv_samples=cap, seed=5); allc = [(t, i) for t in range(T) for i in range(n) if not D[t, i] and (t, i) != (0, 1)]
    par = {c: (g.real(f"a{c}"), g.real(f"b{c}"), g.real(f"l{c}")) for c in allc}; seen = []; O = obj(g); pick = [4, 0, 6]; lt, lu, ln = g.nonneg("lt", 3, py=True), g.nonneg("lu", 3, py=True), g.nonneg("ln", 3, py=True)
    if g.symbolic: g.c.cache["rng_hook"] = lambda rng, kind, *a: (seen.append((rng.seed, kind, a[0], a[1], a[2])), np.array(pick))[1]
    else: pick = list(np.random.default_rng(5).choice(len(allc), size=3, replace=False))
    def weights(self, Ym, Dm, i, t, a, b, *r): g.ensure("weights of the tuning values", bool(a == lt) and bool(b == lu)); return (t, i)
    used = []
    def model(self, Ym, mask, W, l, *a, exclude_obs=None):
        used.append(W); g.ensure("the cell itself is left out", tuple(exclude_obs) == W and bool(l == ln))
        if fail is not None and len(used) == fail + 1: raise ValueError("x")
        A, B, L = np.zeros(n, dtype=O), np.zeros(T, dtype=O), np.zeros((T, n), dtype=O); A[W[1]], B[W[0]], L[W] = par[W]; return A, B, L
    g.stub("trop", "TROP._compute_observation_weights", weights); g.stub("trop", "TROP._estimate_model", model)
    s = call(est._loocv_score_obs_specific, Y, D, D == 0, np.array([1, 2]), lt, lu, ln, n, T); cells = allc if cap == 100 else [allc[k] for k in pick]
    if fail is not None: g.ensure("failing fit: infinite", s == math.inf); return
    g.ensure("cells used", [tuple(map(int, c)) for c in used] == cells); g.eq("sum of squared gaps", s, sum((Y[c] - par[c][0] - par[c][1] - par[c][2]) * (Y[c] - par[c][0] - par[c][1] - par[c][2]) for c in cells))
    if g.symbolic and cap == 3: g.ensure("seeded draw without replacement", seen == [(5, "choice", len(allc), 3, False)])
    g.ensure("no cell: infinite", call(est._loocv_score_obs_specific, Y * float("nan"), D, D == 0, np.array([1, 2]), lt, lu, ln, n, T) == math.inf if not g.symbolic else True); g.cover()

@harness("C21", "joint_loocv_score", ["trop.TROP._loocv_score_joint"], timeout=200, trials=80, bound="symbolic side: 3 periods, 3 units, four untreated cells, one missing outcome")
def _(g):
    """the joint tuning score is the sum, over the untreated cells with an outcome, of the squared gap left by the joint model fitted with the common weights and that one cell's weight at zero (low-rank part only below the disabling value); a failing fit or no observed cell gives an infinite score."""
    T = n = 3; D = np.zeros((T, n), dtype=int); D[2, 0] = 1; Y = rmat(g, "y", T, n); Y[0, 1] = float("nan"); low = g.choice("low-rank part", [1, 0]); ln = g.nonneg("ln", 3, py=True) if low else 1e10; fail = g.choice("failing cell", [None, 1]); est = trop(g, max_iter=7, tol=1e-5)
    cells = [(0, 0), (2, 1), (0, 1), (1, 2)]; O = obj(g); lt, lu = g.nonneg("lt", 3, py=True), g.nonneg("lu", 3, py=True); W = np.array([[g.real(f"w{i}{j}", 0, nonzero=True) for j in range(n)] for i in range(T)], dtype=O); asked, used = [], []
    par = {c: (g.real(f"m{c}"), g.real(f"a{c}"), g.real(f"b{c}"), g.real(f"l{c}"), g.real(f"t{c}")) for c in cells}; keep = W.copy()
    def weights(self, Ym, Dm, a, b, tp, *r): asked.append(bool(a == lt) and bool(b == lu) and tp == 1 and Ym is Y and Dm is D); return W
    def fit(rank, Ym, Dm, w, *a):
        c = cells[len(used)]; used.append(rank); g.ensure("same outcomes and treatment", Ym is Y and Dm is D)
        for t in range(T):
            for i in range(n): g.eq("the cell has no weight, the others keep theirs", w[t, i], 0.0 if (t, i) == c else keep[t, i])
        if rank: g.ensure("penalty and stopping rule", bool(a[0] == ln) and tuple(a[1:]) == (7, 1e-5))
        if fail is not None and len(used) == fail + 1: raise (ValueError("x") if low else np.linalg.LinAlgError("x"))
        m, al, be, lo, ta = par[c]; A, B, L = np.zeros(n, dtype=O), np.zeros(T, dtype=O), np.zeros((T, n), dtype=O); A[c[1]], B[c[0]], L[c] = al, be, lo
        return (m, A, B, L, ta) if rank else (m, A, B, ta)
    g.stub("trop", "TROP._compute_joint_weights", weights); g.stub("trop", "TROP._solve_joint_no_lowrank", lambda self, *a: fit(0, *a)); g.stub("trop", "TROP._solve_joint_with_lowrank", lambda self, *a: fit(1, *a))
    s = call(est._loocv_score_joint, Y, D, cells, lt, lu, ln, 1, n, T); g.ensure("weights of these tuning values", len(asked) >= 1 and all(asked)); g.ensure("kind of fit", set(used) == {low})
    if fail is not None: g.ensure("failing fit: infinite", s == math.inf); return
    g.ensure("every cell is left out once", len(used) == len(cells)); gap = {c: Y[c] - par[c][0] - par[c][1] - par[c][2] - (par[c][3] if low else 0.0) for c in cells if c != (0, 1)}
    g.eq("sum of squared gaps", s, sum(v * v for v in gap.values())); used.clear(); del cells[:2], cells[1:]; keep = W.copy(); g.ensure("no observed cell: infinite", call(est._loocv_score_joint, Y, D, cells, lt, lu, ln, 1, n, T) == math.inf); g.cover()

@harness("C21", "search", ["trop.TROP._univariate_loocv_search", "trop.TROP._cycling_parameter_search"], timeout=200, trials=80, bound="three grid values per parameter")
def _(g):
    """a one-dimensional search scores every grid value with the other parameters fixed (infinite values as disabled), skips failing ones and returns the value with the smallest score; the cyclic search ends at values none of which the last sweep of its own grid improves."""
    est = trop(g, lambda_time_grid=[0.0, 1.0, math.inf], lambda_unit_grid=[0.5, math.inf, 2.0], lambda_nn_grid=[math.inf, 0.0, 3.0]); nm = g.choice("parameter", ["lambda_time", "lambda_unit", "lambda_nn"]); grid = getattr(est, nm + "_grid"); bad = g.choice("failing value", [None, 0, 2]); sc = [g.nonneg(f"s{k}") for k in range(3)]; calls = []
    def score(self, Y, D, m, c, a, b, l, *r):
        calls.append((a, b, l)); k = len(calls) - 1
        if k == bad: raise ValueError("x")
        return sc[k]
    g.stub("trop", "TROP._loocv_score_obs_specific", score); fixed = dict(zip(("lambda_time", "lambda_unit", "lambda_nn"), LAMS[1])); fixed.pop(nm)
    v, s = est._univariate_loocv_search(None, None, None, None, 3, 3, nm, grid, fixed); ok = [k for k in range(3) if k != bad]
    g.ensure("one score per value", calls == [eff(tuple(grid[k] if p == nm else math.inf for p in ("lambda_time", "lambda_unit", "lambda_nn"))) for k in range(3)]); g.ensure("value of the grid", v in grid)
    for k in ok: g.ensure("smallest score", s <= sc[k])
    k = grid.index(v); g.ensure("score of the value", k in ok); g.eq("score of the value", s, sc[k]); g.cover()
    if g.symbolic: return
    tab = {}; memo = lambda key: tab.setdefault(key, float(g.rng.random()))
    g.stub("trop", "TROP._loocv_score_obs_specific", lambda self, Y, D, m, c, a, b, l, *r: memo((a, b, l))); o = est._cycling_parameter_search(None, None, None, None, 3, 3, (0.0, 0.5, 3.0), 30); cur = memo(eff(o))
    for p, gr in enumerate((est.lambda_time_grid, est.lambda_unit_grid, est.lambda_nn_grid)):
        for x in gr: g.ensure("no single change improves", cur <= memo(eff(tuple(x if q == p else o[q] for q in range(3)))) + 1e-6)

@harness("C21", "fixed_lambda", ["trop.TROP._fit_with_fixed_lambda", "trop.TROP._fit_joint_with_fixed_lambda"], timeout=250, trials=60, bound="4 periods, 3 units; symbolic outcomes and model estimates")
def _(g):
    """a refit at given tuning values is the mean treated-cell gap of the models fitted with the weights of its own panel (joint: the treatment coefficient), whatever panel was fitted before."""
    T, n = 4, 3; D = np.zeros((T, n), dtype=int); D[2:, 0] = 1; D[3:, 1] = 1; df = panel(g, T, n, D); lam = (g.nonneg("lt", 3, py=True), g.nonneg("lu", 3, py=True), g.nonneg("ln", 3, py=True)); O = obj(g); cells = [(t, i) for t in range(T) for i in range(n) if D[t, i]]; calls = []
    est = trop(g, lambda_time_grid=[1.0]); est._precomputed = dict(Y=np.zeros((9, 9)), D=np.zeros((9, 9), dtype=int), time_dist_matrix=np.zeros((9, 9)), control_obs=[], treated_observations=[]) if g.choice("after another fit", [0, 1]) else None
    par = {c: (np.array([g.real(f"a{k}{i}") for i in range(n)], dtype=O), np.array([g.real(f"b{k}{t}") for t in range(T)], dtype=O), rmat(g, f"l{k}", T, n)) for k, c in enumerate(cells)}; real = g.mod("trop").TROP._compute_observation_weights if not g.symbolic else None; seenW = []
    def model(self, Y, mask, W, l, *a, **k):
        calls.append((Y, mask, W, l)); return par[cells[len(calls) - 1]]
    g.stub("trop", "TROP._estimate_model", model); v = est._fit_with_fixed_lambda(df, "y", "d", "unit", "time", lam); val = lambda t, i: df[(df.unit == f"u{i}") & (df.time == 2000 + 3 * t)].y.iloc[0]; fresh = trop(g); Y = calls[0][0]
    g.eq("mean treated-cell gap", v, sum(val(*c) - par[c][0][c[1]] - par[c][1][c[0]] - par[c][2][c] for c in cells) / len(cells)); g.ensure("one model per treated cell", len(calls) == len(cells))
    for (Ym, mask, W, l), c in zip(calls, cells):
        g.eq("penalty", l, lam[2]); X = fresh._compute_observation_weights(Y, D, c[1], c[0], lam[0], lam[1], np.array([2]), n, T)
        for t in range(T):
            for i in range(n): g.eq("outcomes of this panel", Ym[t, i], val(t, i)); g.ensure("untreated cells", bool(mask[t, i]) == (D[t, i] == 0)); g.eq("weights of this panel", W[t, i], X[t, i])
    D[:, 1] = 0; df = df.assign(d=[int(D[(a - 2000) // 3, int(u[1])]) for a, u in zip(df.time, df.unit)]); J = []; tau = g.real("tau"); ret = (g.real("mu"), None, None, tau)
    g.stub("trop", "TROP._solve_joint_no_lowrank", lambda self, Y, Dm, W: (J.append((Y, Dm, W, None)), ret)[1]); g.stub("trop", "TROP._solve_joint_with_lowrank", lambda self, Y, Dm, W, ln, *a: (J.append((Y, Dm, W, ln)), (ret[0], None, None, None, tau))[1])
    ln = g.choice("joint penalty", [0.5, 1e10]); g.eq("treatment coefficient", est._fit_joint_with_fixed_lambda(df, "y", "d", "unit", "time", (lam[0], lam[1], ln), 2), tau); X = fresh._compute_joint_weights(J[0][0], D, lam[0], lam[1], 2, n, T); g.ensure("penalty", J[0][3] == (None if ln == 1e10 else ln))
    for t in range(T):
        for i in range(n): g.eq("outcomes of this panel", J[0][0][t, i], val(t, i)); g.ensure("treatment of this panel", int(J[0][1][t, i]) == D[t, i]); g.eq("weights of this panel", J[0][2][t, i], X[t, i])
    g.cover()

@harness("C21", "resampling", ["trop.TROP._bootstrap_variance", "trop.TROP._bootstrap_variance_joint"], timeout=250, trials=60, bound="12 draws from 3 untreated and 2 treated units")
def _(g):
    """the bootstrap draws untreated and treated units separately with replacement, refits each drawn panel (whole units, one name per draw) at the chosen tuning values, drops failed draws and reports the sample deviation of the rest."""
    T, n = 4, 5; D = np.zeros((T, n), dtype=int); D[2:, :2] = 1; df = panel(g, T, n, D); joint = g.choice("joint", [0, 1]); B = 12; est = trop(g, n_bootstrap=B, seed=11, method="joint" if joint else "twostep"); lam = (0.5, 0.25, 2.0); atts = [g.real(f"e{k}") for k in range(B)]; fail = g.choice("failing draw", [None, 3]); boots, draws = [], []; k0 = [0]
    def pick(a, size): k0[0] += 1; return np.array([list(a)[(k0[0] * (j + 1) + j) % len(a)] for j in range(size)], dtype=object)
    if g.symbolic: g.c.cache["rng_hook"] = lambda rng, kind, *a: (draws.append((rng.seed, kind, list(a[0]), a[1], a[2])), pick(a[0], a[1]))[1]
    def refit(self, data, o, t, u, tm, l, *rest):
        boots.append((data, l, rest))
        if fail is not None and len(boots) == fail + 1: raise ValueError("x")
        return atts[len(boots) - 1]
    g.stub("trop", "TROP._fit_joint_with_fixed_lambda" if joint else "TROP._fit_with_fixed_lambda", refit)
    se, dist = call(est._bootstrap_variance_joint, df, "y", "d", "unit", "time", lam, 2) if joint else call(est._bootstrap_variance, df, "y", "d", "unit", "time", lam); keep = [a for k, a in enumerate(atts) if k != fail]; m = sum(keep) / len(keep)
    g.ensure("one refit per draw", len(boots) == B); g.ensure("failed draws are dropped", len(dist) == len(keep)); [g.eq("estimates", x, y) for x, y in zip(dist, keep)]; g.eq("sample deviation", se * se, sum((a - m) * (a - m) for a in keep) / (len(keep) - 1), rtol=1e-6); g.ensure("non-negative", se >= 0)
    orig = {u: s.sort_values("time") for u, s in df.groupby("unit")}
    for data, l, rest in boots:
        g.ensure("tuning values", l == lam and (not joint or (len(rest) == 1 and np.ndim(rest[0]) == 0 and bool(rest[0] == 2)))); us = list(dict.fromkeys(data.unit)); src = [next(o for o in orig if str(u).startswith(o)) for u in us]
        g.ensure("as many units of each kind", sorted(s in ("u0", "u1") for s in src) == [False] * 3 + [True] * 2); g.ensure("units have their own names", len(us) == 5 and len(data) == 5 * T)
        for u, s in zip(us, src):
            b = data[data.unit == u].sort_values("time"); g.ensure("whole units", list(b.time) == list(orig[s].time) and list(b.d) == list(orig[s].d)); [g.eq("outcomes of the unit", x, y) for x, y in zip(b.y, orig[s].y)]
    if g.symbolic: g.ensure("seeded draws with replacement within each kind", all(s == 11 and k == "choice" and rep is True and (a, size) in ((["u2", "u3", "u4"], 3), (["u0", "u1"], 2)) for s, k, a, size, rep in draws) and len(draws) == 2 * B)
    g.cover()

@harness("C21", "jackknife", ["trop.TROP._jackknife_variance", "trop.TROP._jackknife_variance_joint"], timeout=250, trials=60, bound="4 periods, 4 units, 3 treated; symbolic outcomes")
def _(g):
    """the jackknife leaves out each treated unit in turn (its outcomes neither fitted nor averaged); the standard error is sqrt((n-1)/n times the squared deviations); fewer than two refits give none."""
    T, n, O = 4, 4, obj(g); k = g.choice("treated", [1, 3]); D = np.zeros((T, n), dtype=int); D[2:, :k] = 1; Y = rmat(g, "y", T, n); est = trop(g); lam = (0.5, 0.25, 2.0); seen = []; joint = g.choice("joint", [0, 1]); vals = [g.real(f"e{i}") for i in range(3)]
    ctl = np.arange(k, n)
    if joint:
        def weights(self, Ym, Dm, *a): W = np.ones((T, n)); seen.append(Dm.copy()); return W
        W_ = []
        def solve(self, Ym, Dm, W, *a): W_.append((Dm.copy(), W.copy())); return (0.0, None, None, None, vals[len(W_) - 1])
        g.stub("trop", "TROP._compute_joint_weights", weights); g.stub("trop", "TROP._solve_joint_with_lowrank", solve); se, dist = est._jackknife_variance_joint(Y, D, lam, 2, n, T); out = vals[:k]
        for i, (Dm, W) in enumerate(W_): g.ensure("the unit has no weight and no treatment", not Dm[:, i].any() and not np.asarray(W[:, i], dtype=float).any() and bool((np.delete(Dm, i, 1) == np.delete(D, i, 1)).all()))
    else:
        g.stub("trop", "TROP._compute_observation_weights", lambda self, Ym, Dm, i, t, *a: (t, i)); par = {}
        def model(self, Ym, mask, W, l, *a, **kw):
            out = [i for i in range(k) if not (np.asarray(mask)[2:, i] == False).any()]; seen.append(out); g.ensure("the unit's outcomes are removed", len(out) == 1 and all(bool(g.isnan(Ym[t, out[0]])) for t in range(T)) and bool(l == 2.0)); A, B, L = np.zeros(n, dtype=O), np.zeros(T, dtype=O), np.zeros((T, n), dtype=O); A[W[1]] = par.setdefault((out[0], W), g.real(f"m{out[0]}{W}")); return A, B, L
        g.stub("trop", "TROP._estimate_model", model); se, dist = est._jackknife_variance(Y, D, D == 0, ctl, lam, n, T)
        out = [sum(Y[t, i] - par[q, (t, i)] for i in range(k) if i != q for t in (2, 3)) / (2 * (k - 1)) for q in range(k)] if k > 1 else []
    g.ensure("one refit per treated unit", len(dist) == len(out)); [g.eq("refit", a, b) for a, b in zip(dist, out)]
    if len(out) < 2: g.eq("no standard error", se, 0.0); return
    m = sum(out) / len(out); g.eq("standard error", se * se, sum((x - m) * (x - m) for x in out) * (len(out) - 1) / len(out), rtol=1e-6); g.ensure("non-negative", se >= 0); g.cover()

def oracle_twostep(Y, D, lt, lu, ln, tol, iters):
    """independent weighted two-way fit without low-rank part: normal equations solved directly"""
    T, n = Y.shape; out = {}
    for t, i in zip(*np.where(D == 1)):
        W = np.zeros((T, n))
        for j in range(n):
            S = [s for s in range(T) if s != t and D[s, i] == 0 and D[s, j] == 0 and np.isfinite(Y[s, i]) and np.isfinite(Y[s, j])]; d = math.sqrt(np.mean([(Y[s, i] - Y[s, j]) ** 2 for s in S])) if S else math.inf
            u = 1.0 if j == i else 0.0 if D[t, j] else 1.0 if lu == 0 else math.exp(-lu * d)
            for s in range(T): W[s, j] = u * math.exp(-lt * abs(s - t))
        use = (D == 0) & np.isfinite(Y) & (W > 0); idx = np.argwhere(use); X = np.zeros((len(idx), n + T)); y = Y[use]; w = W[use]
        for r, (s, j) in enumerate(idx): X[r, j] = 1; X[r, n + s] = 1
        b = np.linalg.lstsq(X * np.sqrt(w)[:, None], y * np.sqrt(w), rcond=None)[0]; out[t, i] = (Y[t, i] - b[i] - b[n + t], X, i, n + t)
    return out
@harness("C21", "end_to_end", ["trop.TROP.fit", "trop.trop"], sym=False, trials=25, deep=400, timeout=300, bound="panels up to 6 units and 7 periods; single tuning values")
def _(g):
    """fits of real panels: a common outcome shift leaves estimate and cell effects, a shift of treated cells moves them by exactly that, without low-rank part the cell effects are those of the weighted two-way regression; constant additive panels are fitted exactly; the convenience function is the class."""
    r = g.rng; n, T = int(r.integers(4, 7)), int(r.integers(4, 8)); D = np.zeros((T, n), dtype=int); s0 = int(r.integers(2, T)); D[s0:, 0] = 1; joint = bool(g.choice("joint", [0, 1]))
    if r.random() < .5: D[s0 if joint else int(r.integers(s0, T)):, 1] = 1
    lt, lu = float(r.choice([0, .3])), float(r.choice([0, .3])); ln = float(r.choice([math.inf, math.inf, 1.0])); add = r.random() < .3; Y = r.normal(size=n)[None, :] * 2 + r.normal(size=T)[:, None] + (0 if add else r.normal(size=(T, n)))
    drop = np.zeros((T, n), dtype=bool)
    if r.random() < .4: drop[int(r.integers(T)), n - 1] = True
    k = dict(method="joint" if joint else "twostep", lambda_time_grid=[lt], lambda_unit_grid=[lu], lambda_nn_grid=[ln], max_iter=3000, tol=1e-11, n_bootstrap=3, max_loocv_samples=1, seed=2)
    g.stub("trop", "TROP._bootstrap_variance", lambda self, *a, **k: (1.0, np.array([1.0]))); g.stub("trop", "TROP._bootstrap_variance_joint", lambda self, *a, **k: (1.0, np.array([1.0])))
    fr = lambda M: pd.DataFrame([(i, t, D[t, i], M[t, i]) for i in range(n) for t in range(T) if not drop[t, i]], columns=["unit", "time", "d", "y"]).sample(frac=1, random_state=4)
    fit = lambda M, **kw: call(g.fn("trop", "TROP")(**{**k, **kw}).fit, fr(M), "y", "d", "unit", "time"); a = fit(Y); c = float(r.choice([50., -7.])); b = fit(Y + c); tol = 1e-5 * (1 + np.abs(Y).max() + abs(c))
    g.eq("estimate is the mean of the cell effects", a.att, np.mean(list(a.treatment_effects.values()))); g.ensure("one effect per treated cell", len(a.treatment_effects) == int((D == 1).sum()))
    g.eq("common shift", b.att, a.att, atol=tol); [g.eq("common shift leaves every cell effect", b.treatment_effects[q], a.treatment_effects[q], atol=tol) for q in a.treatment_effects]
    if not joint and lu == 0 or joint and lu == 0:
        e = fit(Y + c * D); 
        if math.isinf(ln) or not joint: g.eq("an effect on treated cells is added", e.att, a.att + c, atol=tol)
    if add and math.isinf(ln): g.eq("additive panel: no effect", a.att, 0.0, atol=tol)
    Yd = np.where(drop, np.nan, Y)
    if not joint and math.isinf(ln):
        for (t, i), (v, X, p, q) in oracle_twostep(Yd, D, lt, lu, ln, 0, 0).items(): 
            z = np.zeros(X.shape[1]); z[p] = z[q] = 1
            if np.allclose(np.linalg.lstsq(X.T, z, rcond=None)[0] @ X, z, atol=1e-8): g.eq("cell effect of the weighted regression", a.treatment_effects[i, t], v, atol=tol)
    o = call(g.fn("trop", "trop"), fr(Y), "y", "d", "unit", "time", **k); g.eq("convenience function", o.att, a.att); g.cover()
