"""C13: honest difference-in-differences bounds."""
import math, warnings
from types import SimpleNamespace as NS
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D, oracle as O

def z_(g, a): return g.dist("norm", "ppf", 1 - a / 2)

@harness("C13", "interval", ["honest_did._compute_flci"])
def _(g):
    """for every identified set, standard error and level: the interval is the set widened by the normal critical value times the standard error, so it contains the set; a non-positive standard error or a level outside (0,1) is rejected."""
    lb, ub, se, a = g.real("lb"), g.real("ub"), g.real("se"), g.real("alpha"); f = g.fn("honest_did", "_compute_flci"); g.assume(lb <= ub)
    ok = bool(se > 0) and bool(a > 0) and bool(a < 1)
    if not ok: g.raises("rejected", ValueError, lambda: f(lb, ub, se, a)); return
    lo, hi = f(lb, ub, se, a); z = z_(g, a); g.eq("lower end", lo, lb - z * se); g.eq("upper end", hi, ub + z * se); g.le("contains the lower end", lo, lb); g.le("contains the upper end", ub, hi); g.cover()

@harness("C13", "relative_magnitude_kernel", ["honest_did._compute_clf_ci"])
def _(g):
    """for any number of post periods, weights, covariance, pre-period violation >= 0 and bound >= 0: set = estimate +- bound times violation; contains the estimate; is the estimate at bound zero; interval adds the critical value times sqrt(l'Sl); both widen with the bound."""
    n = g.axis("post", 1); b = g.vec("beta", n); l = g.vec("l", n); a = g.real("alpha", 0, 1); v = g.nonneg("violation"); M = g.nonneg("M"); M2 = g.nonneg("M2"); g.assume(M <= M2)
    S = g.mat("S", n, n) if g.symbolic else None
    if not g.symbolic: A = g.rng.normal(size=(len(b), len(b))); S = A @ A.T
    q = l @ S @ l; g.assume(q >= 0); f = g.fn("honest_did", "_compute_clf_ci"); lb, ub, lo, hi = f(b, S, l, M, v, a); lb2, ub2, lo2, hi2 = f(b, S, l, M2, v, a); th = l @ b; se = g.sqrt(q); z = z_(g, a)
    g.eq("lower bound", lb, th - M * v); g.eq("upper bound", ub, th + M * v); g.eq("interval, lower", lo, lb - z * se); g.eq("interval, upper", hi, ub + z * se)
    g.le("contains the estimate from below", lb, th); g.le("contains the estimate from above", th, ub); g.le("interval contains the set", lo, lb); g.le("interval contains the set", ub, hi)
    g.le("widens", lb2, lb); g.le("widens", ub, ub2); g.le("interval widens", lo2, lo); g.le("interval widens", hi, hi2); g.implies(M == 0, lb == th)
    lb, ub, lo, hi = f(b, S, l, 0.0, v, a); g.eq("point at bound zero", [lb, ub], [th, th]); g.cover()

@harness("C13", "constraints", ["honest_did._construct_A_sd", "honest_did._construct_constraints_sd", "honest_did._construct_constraints_rm"], bound="up to 5 periods; bounds and violation paths arbitrary")
def _(g):
    """A x <= b holds exactly for the violation paths the restriction describes: second differences within M (smoothness), post violations within Mbar times the pre violation (relative magnitudes)."""
    p, q = g.choice("pre", [0, 1, 2]), g.choice("post", [1, 2, 3]); T = p + q; M = g.nonneg("M"); v = g.nonneg("v"); x = g.reals("x", T); H = g.mod("honest_did")
    A, b = H._construct_constraints_sd(p, q, M); sd = g.and_(True, *[g.and_(x[i] - 2 * x[i + 1] + x[i + 2] <= M, -(x[i] - 2 * x[i + 1] + x[i + 2]) <= M) for i in range(T - 2)])
    ok = lambda A, b: g.and_(True, *[sum(A[i, j] * x[j] for j in range(T)) <= b[i] for i in range(A.shape[0])])
    g.ensure("shape", A.shape[1] == T and len(b) == A.shape[0]); g.ensure("smoothness set", g.iff(ok(A, b), sd))
    A, b = H._construct_constraints_rm(p, q, M, v); g.ensure("shape", A.shape[1] == T and len(b) == A.shape[0]); g.ensure("relative-magnitude set", g.iff(ok(A, b), g.and_(*[g.and_(x[p + i] <= M * v, -x[p + i] <= M * v) for i in range(q)]))); g.cover()

@harness("C13", "linear_program", ["honest_did._solve_bounds_lp", "honest_did._construct_constraints_sd"], conc=False, bound="up to 4 periods; coefficients, weights and bounds arbitrary")
def _(g):
    """with the linear program entering by its contract (returns the minimum over the polytope, or no success when unbounded): the bounds contain the estimate, widen with M, and are the extreme values of l'(beta - delta)."""
    p, q = g.choice("sizes", [(1, 2), (2, 2), (0, 3), (2, 1)]); H = g.mod("honest_did"); b = g.reals("beta", q); l = g.reals("l", q); M = g.nonneg("M"); M2 = g.nonneg("M2"); g.assume(M <= M2); T = p + q; sols = []
    def linprog(c, A_ub=None, b_ub=None, bounds=None, method=None, **k):
        g.ensure("variables are free", bounds == (None, None)); i = len(sols); x = g.reals(f"x{i}_", T); dot = lambda a, y: sum(a[j] * y[j] for j in range(T)); feas = lambda y: g.and_(True, *[dot(A_ub[r], y) <= b_ub[r] for r in range(A_ub.shape[0])])
        ok = g.choice(f"bounded{i % 2}", [True, False]) if i < 2 else sols[i - 2][0]     # the recession cone does not depend on M
        fun = dot(c, x); g.assume(feas(x)) if ok else None; sols.append((ok, c, x, fun, feas))
        if ok:
            for y in [[0.0] * T] + [s[2] for s in sols if s[0]]: g.assume(g.implies(feas(y), dot(c, y) >= fun))
            if i >= 2: g.assume(g.implies(feas(sols[i - 2][2]), dot(c, sols[i - 2][2]) >= fun))
        return NS(success=ok, fun=fun, x=x)
    g.set_const("honest_did", "optimize", NS(linprog=linprog)); r = []
    for m in (M, M2): r.append(H._solve_bounds_lp(b, l, *H._construct_constraints_sd(p, q, m), p))
    th = sum(x * y for x, y in zip(l, b)); (lb, ub), (lb2, ub2) = r
    g.le("contains the estimate", lb, th); g.le("contains the estimate", th, ub); g.le("widens", lb2, lb); g.le("widens", ub, ub2); g.ensure("two programs per bound", len(sols) == 4)
    for s, sign in ((sols[0], 1), (sols[1], -1)):
        for j in range(T): g.eq("objective is the weighted post violation", s[1][j], -sign * l[j - p] if j >= p else 0.0)
    if sols[0][0]: g.eq("lower bound attained", lb, th - sum(l[j] * sols[0][2][p + j] for j in range(q)))
    if sols[1][0]: g.eq("upper bound attained", ub, th - sum(l[j] * sols[1][2][p + j] for j in range(q)))
    g.ensure("unbounded means infinite", (sols[0][0] or bool(lb == -math.inf)) and (sols[1][0] or bool(ub == math.inf))); g.cover()

def psd(g, nm, k):
    if not g.symbolic: A = g.rng.normal(size=(k, k)); return A @ A.T * 10 ** g.rng.uniform(-2, 1)
    S = np.empty((k, k), dtype=object)
    for i in range(k):
        for j in range(i + 1): S[i, j] = S[j, i] = g.real(f"{nm}{i}_{j}")
    return S
KINDS = ["full covariance", "post covariance", "no covariance", "event study"]
def results(g, kind):
    """an event-study result object -> (object, post effects, their covariance, largest pre-period violation)"""
    q = g.choice("post", [1, 2, 3]); p = g.choice("pre", [1, 2]); b = g.reals("b", q); post = [2005 + i for i in range(q)]; pre = [2004 - i for i in range(p)][::-1]
    if kind == "event study":
        C = g.fn("staggered_results", "CallawaySantAnnaResults"); pe = g.reals("p", p); se = [g.real(f"s{i}", 0) for i in range(q)]; ps = [g.real(f"ps{i}", 0) for i in range(p)]
        ev = {i: dict(effect=b[i], se=se[i], n_groups=1 + i) for i in range(q)}; ev.update({-2 - i: dict(effect=pe[i], se=ps[i], n_groups=1) for i in range(p)}); ev[-1] = dict(effect=0.0, se=math.nan, n_groups=0)
        if g.choice("undefined", [0, 1]): ev[9] = dict(effect=g.real("drop"), se=math.nan, n_groups=1)
        ks = sorted(ev, key=lambda e: (e * 7) % 5)
        obj = g.internal(lambda: C(group_time_effects={}, overall_att=0.0, overall_se=1.0, overall_t_stat=0.0, overall_p_value=1.0, overall_conf_int=(0., 0.), groups=[], time_periods=[], n_obs=0, n_treated_units=0, n_control_units=0, event_study_effects={e: ev[e] for e in ks}))
        S = np.empty((q, q), dtype=object if g.symbolic else float); S[:] = 0.0
        for i in range(q): S[i, i] = se[i] * se[i]
        v = pe[0] * 0
        for x in pe: v = g.max(v, g.abs(x))
        return obj, b, S, v
    R, P = g.fn("results", "MultiPeriodDiDResults"), g.fn("results", "PeriodEffect"); coef = {}; tr = g.choice("treatment name", ["treated", "D"])
    names = ["const", tr] + [f"period_{t}" for t in pre[1:] + post] + [f"{tr}:period_{t}" for t in post]
    full = psd(g, "V", len(names)) if kind == "full covariance" else psd(g, "V", q); S = full[-q:, -q:]
    se = [g.real(f"s{i}", 0) for i in range(q)]
    if kind == "no covariance":
        S = np.empty((q, q), dtype=object if g.symbolic else float); S[:] = 0.0
        for i in range(q): S[i, i] = se[i] * se[i]
    avse = g.real("avg_se", 0); coef = {nm: (b[i - len(names) + q] if i >= len(names) - q else g.real("c" + nm)) for i, nm in enumerate(names)}; v = avse
    if g.choice("pre coefficients", [0, 1]) and kind != "full covariance":
        pe = [g.real(f"pre{t}") for t in pre]; coef.update({f"{tr}:period_{t}": x for t, x in zip(pre, pe)}); v = g.abs(pe[0])
        for x in pe[1:]: v = g.max(v, g.abs(x))
    obj = g.internal(lambda: R(period_effects={t: P(period=t, effect=b[i], se=se[i], t_stat=0.0, p_value=1.0, conf_int=(0., 0.)) for i, t in enumerate(post)}, avg_att=0.0, avg_se=avse, avg_t_stat=0.0, avg_p_value=1.0, avg_conf_int=(0., 0.), n_obs=1, n_treated=1, n_control=1, pre_periods=pre, post_periods=post, coefficients=coef, vcov=None if kind == "no covariance" else full))
    return obj, b, S, v

@harness("C13", "fit", ["honest_did.HonestDiD.fit", "honest_did._extract_event_study_params", "honest_did.HonestDiD._compute_rm_bounds", "honest_did.HonestDiD._estimate_max_pre_violation"], bound="one to three post and one or two pre periods; effects, covariances, bounds and levels arbitrary", trials=120, deep=800, timeout=300)
def _(g):
    """relative magnitudes: estimate and standard error are those of the weighted post effects; the set is the estimate +- bound times the largest pre-period coefficient; interval and settings as stated; negative bounds are rejected."""
    kind = g.choice("kind", KINDS); obj, b, S, v = results(g, kind); q = len(b); a = g.pyreal("alpha", 0, 1); M = g.nonneg("M", py=True); l = None if g.choice("weights", [0, 1]) else g.reals("l", q); w = [1 / q] * q if l is None else l
    var = sum(w[i] * w[j] * S[i, j] for i in range(q) for j in range(q)); g.assume(var >= 0); H = g.fn("honest_did", "HonestDiD"); h = H(method="relative_magnitude", alpha=a, l_vec=l)
    r = h.fit(obj, M=M); th = sum(x * y for x, y in zip(w, b)); z = z_(g, a)
    g.eq("estimate", r.original_estimate, th); g.eq("variance of the estimate", r.original_se * r.original_se, var, rtol=1e-6); g.le("se is not negative", 0.0, r.original_se)
    g.eq("lower bound", r.lb, th - M * v); g.eq("upper bound", r.ub, th + M * v); g.eq("interval", [r.ci_lb, r.ci_ub], [r.lb - z * r.original_se, r.ub + z * r.original_se])
    g.le("set contains the estimate", r.lb, r.original_estimate); g.le("set contains the estimate", r.original_estimate, r.ub); g.le("interval contains the set", r.ci_lb, r.lb); g.le("interval contains the set", r.ub, r.ci_ub)
    g.eq("bound reported", r.M, M); g.eq("level reported", r.alpha, a); g.ensure("method", r.method == "relative_magnitude"); g.ensure("significance", g.iff(r.is_significant, g.or_(r.ci_lb > 0, r.ci_ub < 0))); g.cover()

@harness("C13", "other_methods", ["honest_did.HonestDiD.fit", "honest_did.HonestDiD._compute_smoothness_bounds", "honest_did.HonestDiD._compute_combined_bounds"], bound="two post periods, one pre period; program values, effects and covariances arbitrary", trials=60, deep=400)
def _(g):
    """smoothness: the program's bounds with the interval around them; combined: the intersection with the relative-magnitude set."""
    b = g.reals("b", 2); R, P = g.fn("results", "MultiPeriodDiDResults"), g.fn("results", "PeriodEffect"); S = psd(g, "V", 2); av = g.real("avg_se", 0); w = [.5, .5]; var = sum(w[i] * w[j] * S[i, j] for i in range(2) for j in range(2)); g.assume(var > 0); M = g.nonneg("M", py=True); a = g.pyreal("alpha", 0, 1)
    obj = g.internal(lambda: R(period_effects={t: P(period=t, effect=b[t - 1], se=1.0, t_stat=0.0, p_value=1.0, conf_int=(0., 0.)) for t in (1, 2)}, avg_att=0.0, avg_se=av, avg_t_stat=0.0, avg_p_value=1.0, avg_conf_int=(0., 0.), n_obs=1, n_treated=1, n_control=1, pre_periods=[0], post_periods=[1, 2], coefficients={"c": 1.0}, vcov=S))
    th = (b[0] + b[1]) / 2; dl, du = g.nonneg("dl"), g.nonneg("du"); lp = (th - dl, th + du) if g.choice("bounded", [1, 0]) else (-math.inf, math.inf); calls = []
    g.stub("honest_did", "_solve_bounds_lp", lambda *x, **k: calls.append(x) or lp); z = z_(g, a); H = g.fn("honest_did", "HonestDiD"); m = g.choice("method", ["smoothness", "combined"]); r = H(method=m, alpha=a).fit(obj, M=M); e = (lp if m == "smoothness" else (g.max(lp[0], th - M * av), g.min(lp[1], th + M * av)))
    g.eq("lower bound", r.lb, e[0]); g.eq("upper bound", r.ub, e[1]); g.eq("interval", [r.ci_lb, r.ci_ub], [e[0] - z * r.original_se, e[1] + z * r.original_se]); g.le("contains the estimate", r.lb, th); g.le("contains the estimate", th, r.ub); g.eq("variance", r.original_se * r.original_se, var, rtol=1e-6)
    A, c = g.fn("honest_did", "_construct_constraints_sd")(1, 2, M); g.eq("smoothness constraints", calls[0][2], A); g.eq("their bounds", calls[0][3], c); g.cover()

@harness("C13", "curve", ["honest_did.HonestDiD.sensitivity_analysis", "honest_did.HonestDiD._find_breakdown"], bound="grids of up to four bounds; reported bounds and intervals of the single fits arbitrary", trials=60, deep=600, timeout=300)
def _(g):
    """the curve reports for every bound exactly what a separate fit reports; no breakdown exactly when no interval of the grid includes zero; otherwise the value lies between the last excluding and the first including bound."""
    grid = g.choice("grid", [[0.0, 1.0, 2.0], [1.0, 3.0], [2.0, .5, 1.0, 0.0], [.25]]); H = g.fn("honest_did", "HonestDiD"); C = g.real("crit", -1, 4, nonzero=True); fits = []
    if g.symbolic: near = g.choice("near", [-.5, .1, .3, .6, 1.7, 2.8, 3.5]); g.assume(g.and_(C > near, C < near + 1e-7))
    def fit(self, obj, M=None):
        k = float(M); inc = k >= C; r = NS(lb=k * 3 - 50, ub=k * 3 + 50, ci_lb=g.ite(inc, -1.0 - k, 1.0 + k), ci_ub=100 + k, original_estimate=7.25, original_se=.5); fits.append(k); return r
    g.stub("honest_did", "HonestDiD.fit", fit); h = H(alpha=.1); r = h.sensitivity_analysis("results", M_grid=grid)
    g.ensure("bounds of every fit", list(r.M_values) == grid and [tuple(x) for x in r.bounds] == [(k * 3 - 50, k * 3 + 50) for k in grid])
    for k, ci in zip(grid, r.robust_cis): g.eq("interval of every fit", list(ci), [g.ite(k >= C, -1.0 - k, 1.0 + k), 100 + k])
    g.ensure("estimate and settings", r.original_estimate == 7.25 and r.original_se == .5 and r.method == h.method and r.alpha == .1); d = r.to_dataframe(); g.ensure("table", list(d["M"]) == grid and len(d) == len(grid))
    some = any(bool(k >= C) for k in grid); g.ensure("breakdown exists exactly when some interval includes zero", (r.breakdown_M is not None) == some and r.has_breakdown == some)
    if some: g.le("breakdown value", g.abs(r.breakdown_M - g.max(C, 0.0)), 1e-5)
    g.cover()

@harness("C13", "breakdown", ["honest_did.HonestDiD.breakdown_value"], bound="breakdown values up to 70, tolerance 3; every value in between", trials=100, deep=1000, timeout=300)
def _(g):
    """for every effect whose interval includes zero exactly from some bound on, the reported value is within half the tolerance of it; zero when never significant."""
    H = g.fn("honest_did", "HonestDiD"); C = g.real("crit", -5, 70); g.stub("honest_did", "HonestDiD.fit", lambda self, obj, M=None: NS(ci_lb=g.ite(M >= C, -1.0, 1.0), ci_ub=2.0)); tol = 3.0 if g.symbolic else g.pyreal("tol", 1e-3, 5); r = H().breakdown_value("results", tol=tol)
    g.ensure("exists", r is not None); g.le("within tolerance", g.abs(r - g.max(C, 0.0)), tol / 2 if bool(C > 0) else 0.0); g.cover()

@harness("C13", "end_to_end", ["honest_did.HonestDiD.fit", "honest_did.HonestDiD.sensitivity_analysis", "honest_did.HonestDiD.breakdown_value", "honest_did.compute_honest_did"], sym=False, trials=60, deep=600)
def _(g):
    """real estimator results: estimate and standard error are the estimator's average post effect, sets nest, the curve equals separate fits, breakdown has its closed form."""
    r = g.rng; al = float(r.choice([.05, .1, .01])); H = g.fn("honest_did", "HonestDiD"); kind = int(r.integers(2))
    if kind == 0:
        df = D.did_panel(r, n_units=int(r.integers(6, 14)), n_pre=int(r.integers(1, 4)), n_post=int(r.integers(1, 4)), effect=float(r.choice([0, 1, 4.])), noise=float(r.choice([.3, 1]))); df = df.rename(columns={"treated": "D"}); res = g.fn("estimators", "MultiPeriodDiD")().fit(df, "y", "D", "time", post_periods=sorted(df.time[df.post == 1].unique())); est, se, v = res.avg_att, res.avg_se, res.avg_se
    else:
        df = D.staggered(r, cohorts=((0, 6), (3, 4), (5, 4)), T=7, effect=float(r.choice([0, 2.])), noise=.7); res = g.fn("staggered", "CallawaySantAnna")(base_period=str(r.choice(["varying", "universal"]))).fit(df, "y", "unit", "time", "first_treat", aggregate="event_study"); ev = {e: x for e, x in res.event_study_effects.items() if x["n_groups"] > 0 and np.isfinite(x["se"])}; post = [e for e in ev if e >= 0]
        est = np.mean([ev[e]["effect"] for e in post]); se = np.sqrt(sum(ev[e]["se"] ** 2 for e in post)) / len(post); v = max(abs(ev[e]["effect"]) for e in ev if e < 0)
    g.assume(np.isfinite(se) and se > 1e-9); last = None; z = O.inference(1, 1, None, al)[2][1] - 1; Ms = sorted(r.choice([0, .3, .5, 1, 1.7, 2.5], 4, replace=False).tolist())
    for m in ("relative_magnitude", "smoothness", "combined"):
        h = H(method=m, alpha=al); last = None
        for M in [0.0] + Ms:
            o = h.fit(res, M=M); g.eq("estimate", o.original_estimate, est); g.eq("standard error", o.original_se, se, rtol=1e-6)
            if m == "relative_magnitude": g.eq("set", [o.lb, o.ub], [est - M * v, est + M * v]); g.eq("interval", [o.ci_lb, o.ci_ub], [o.lb - z * se, o.ub + z * se])
            g.le("contains", o.lb, est); g.le("contains", est, o.ub); g.le("interval", o.ci_lb, o.lb); g.le("interval", o.ub, o.ci_ub)
            if last is not None: g.ensure("nested", o.lb <= last.lb + 1e-9 and o.ub >= last.ub - 1e-9 and o.ci_lb <= last.ci_lb + 1e-9 and o.ci_ub >= last.ci_ub - 1e-9)
            last = o
        s = h.sensitivity_analysis(res, M_grid=Ms)
        for M, bd, ci in zip(Ms, s.bounds, s.robust_cis): o = h.fit(res, M=M); g.eq("curve", [*bd, *ci], [o.lb, o.ub, o.ci_lb, o.ci_ub])
        if m == "relative_magnitude":
            c = (abs(est) - z * se) / v if v > 0 else math.inf; bv = h.breakdown_value(res)
            if c <= 0: g.ensure("never significant", bv == 0.0)
            elif c < 1e5: g.ensure("breakdown", bv is not None and abs(bv - c) <= .005 + 1e-9 * c, lambda: f"{bv} {c}")
            c = max(c, 0.0); g.ensure("breakdown of the curve", (s.breakdown_M is None) == (c > Ms[-1]) if abs(c - Ms[-1]) > 1e-6 else True)
            if s.breakdown_M is not None: g.eq("breakdown of the curve", s.breakdown_M, c, atol=1e-4)
    o, q = g.fn("honest_did", "compute_honest_did")(res, method="relative_magnitude", M=Ms[1], alpha=al), H(alpha=al).fit(res, M=Ms[1]); g.eq("convenience function", [o.lb, o.ub, o.ci_lb, o.ci_ub], [q.lb, q.ub, q.ci_lb, q.ci_ub]); g.cover()

@harness("C13", "smoothness_information", ["honest_did.HonestDiD.fit", "honest_did._solve_bounds_lp"], sym=False, trials=1, deep=1)
def _(g):
    """smoothness with a clear pre-trend (fixed input; a recorded finding): the estimated pre-period deviations are part of the program, so the set is bounded."""
    r = np.random.default_rng(0); df = pd.DataFrame([(i, t, int(i < 30), (i < 30) * (.5 * t + 2 * (t >= 3)) + r.normal() * .1) for i in range(60) for t in range(6)], columns=["u", "t", "d", "y"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); res = g.fn("estimators", "MultiPeriodDiD")().fit(df, "y", "d", "t", post_periods=[3, 4, 5], reference_period=2); h = g.fn("honest_did", "HonestDiD")(method="smoothness", M=.5).fit(res)
    g.log["bounds"] = [float(h.lb), float(h.ub)]; g.ensure("smoothness bounds use the pre-period estimates", bool(np.isfinite([h.lb, h.ub]).all()))

@harness("C13", "rejects", ["honest_did.HonestDiD.__init__", "honest_did.HonestDiD.fit"])
def _(g):
    """every negative bound and every level outside (0,1) is rejected, at construction, by set_params and at fit; unknown methods and wrong weight lengths too."""
    H = g.fn("honest_did", "HonestDiD"); x = g.real("x"); m = g.choice("method", ["smoothness", "relative_magnitude", "combined"])
    for cls, kw in (("DeltaSD", "M"), ("DeltaRM", "Mbar"), ("DeltaSDRM", "M"), ("DeltaSDRM", "Mbar")):
        c = g.fn("honest_did", cls); f = lambda: c(**{kw: x})
        if bool(x < 0): g.raises("negative " + cls, ValueError, f)
        else: g.eq(cls, getattr(f(), kw), x)
    obj = results(g, "post covariance")[0]
    if bool(x < 0):
        g.raises("negative bound", ValueError, lambda: H(method=m, M=x)); g.raises("negative bound at fit", ValueError, lambda: H(method=m).fit(obj, M=x)); g.raises("negative bound in a grid", ValueError, lambda: H(method=m).sensitivity_analysis(obj, M_grid=[float(x) if not g.symbolic else x]))
        g.raises("set_params", ValueError, lambda: H(method=m).set_params(M=x))
    if bool(x <= 0) or bool(x >= 1): g.raises("level", ValueError, lambda: H(method=m, alpha=x))
    else: g.eq("level kept", H(method=m, alpha=x).alpha, x)
    g.raises("method", ValueError, lambda: H(method="other")); g.raises("weights length", ValueError, lambda: H(l_vec=np.ones(7)).fit(obj)); g.cover()
