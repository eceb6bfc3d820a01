"""C01: reported inference is internally coherent."""
import math
import numpy as np, pandas as pd
from ..harness import harness, getpath, Skip, MissingTarget
from .. import data as D

# ---------------------------------------------------------------- specification
def spec_p(g, t, df):
    """two-sided tail probability of the reference distribution"""
    a = g.abs(t)
    return (g.dist("t", "sf", a, df) if df is not None else g.dist("norm", "sf", a)) * 2
def spec_crit(g, alpha, df):
    return g.dist("t", "ppf", 1 - alpha / 2, df) if df is not None else g.dist("norm", "ppf", 1 - alpha / 2)
def spec_ci(g, est, se, alpha, df):
    z = spec_crit(g, alpha, df)
    return est - z * se, est + z * se

def coherent(g, tag, est, se, t, p, ci, alpha, df):
    """the contract between the reported fields of one effect (standard error positive or NaN)"""
    bad = g.or_(g.isnan(est), g.isnan(se))
    if bool(bad):
        g.nan(tag + ".t is NaN", t); g.nan(tag + ".p is NaN", p); g.nan(tag + ".ci is NaN", ci[0]); g.nan(tag + ".ci is NaN", ci[1])
        return
    g.eq(tag + ".t = estimate/se", t, est / se)
    g.eq(tag + ".p = two-sided tail of t", p, spec_p(g, est / se, df), atol=1e-12)
    g.ensure(tag + ".p in [0,1]", g.and_(p >= 0, p <= 1))
    lo, hi = spec_ci(g, est, se, alpha, df)
    g.eq(tag + ".ci lower", ci[0], lo); g.eq(tag + ".ci upper", ci[1], hi)

def pick_df(g, allow_none=True):
    k = g.choice("df kind", (["none"] if allow_none else []) + ["finite"])
    return None if k == "none" else g.int("df", 1, None if g.symbolic else 60)

@harness("C01", "compute_p_value", ["utils.compute_p_value"])
def _(g):
    """p = 2*sf(|t|) under t(df) or normal, in [0,1], NaN iff t is NaN; one-sided variant is sf(|t|)."""
    f = g.fn("utils", "compute_p_value")
    t = g.real("t", nan=True, inf=True); df = pick_df(g); two = g.choice("two_sided", [True, False])
    p = f(t, df=df, two_sided=two)
    if bool(g.isnan(t)): g.nan("NaN in, NaN out", p); return
    g.eq("tail probability", p, spec_p(g, t, df) / (1 if two else 2), atol=1e-13)
    g.ensure("in [0,1]", g.and_(p >= 0, p <= 1)); g.cover()

@harness("C01", "compute_confidence_interval", ["utils.compute_confidence_interval"])
def _(g):
    """interval = estimate -/+ critical value * se, ordered, containing the estimate; NaN se or estimate gives NaN."""
    f = g.fn("utils", "compute_confidence_interval")
    e = g.real("e", nan=True); se = g.real("se", nan=True); a = g.pyreal("alpha", 0, 1); df = pick_df(g)
    g.assume(g.or_(g.isnan(se), se >= 0))
    lo, hi = f(e, se, a, df)
    if bool(g.or_(g.isnan(e), g.isnan(se))): g.nan("NaN", lo); g.nan("NaN", hi); return
    l2, h2 = spec_ci(g, e, se, a, df)
    g.eq("lower", lo, l2); g.eq("upper", hi, h2); g.le("ordered", lo, hi); g.le("contains the estimate", lo, e); g.le("contains the estimate", e, hi); g.cover()

@harness("C01", "linalg_helpers", ["linalg._compute_p_value", "linalg._compute_confidence_interval"])
def _(g):
    """same contracts for the copies used by LinearRegression; a non-positive df means the normal reference."""
    e = g.real("e", nan=True); se = g.real("se", nan=True); a = g.pyreal("alpha", 0, 1); t = g.real("t", nan=True, inf=True)
    k = g.choice("df kind", ["none", "pos", "nonpos"])
    df = None if k == "none" else (g.int("df", 1, None if g.symbolic else 60) if k == "pos" else g.int("df", -3, 0))
    eff = df if k == "pos" else None
    p = g.fn("linalg", "_compute_p_value")(t, df=df)
    lo, hi = g.fn("linalg", "_compute_confidence_interval")(e, se, a, df=df)
    g.eq("p", p, spec_p(g, t, eff), atol=1e-13)
    l2, h2 = spec_ci(g, e, se, a, eff)
    g.eq("lower", lo, l2); g.eq("upper", hi, h2)

@harness("C01", "get_inference", ["linalg.LinearRegression.get_inference", "linalg._compute_p_value", "linalg._compute_confidence_interval", "linalg.InferenceResult"])
def _(g):
    """LinearRegression.get_inference: fields of the InferenceResult cohere for every coefficient, variance, df and level."""
    LR = g.fn("linalg", "LinearRegression")
    b = g.real("coef", nan=True); v = g.real("var", 0, None, nan=True); a0 = g.pyreal("alpha0", 0, 1)
    r = LR(alpha=a0)
    r.coefficients_ = np.array([b], dtype=object if g.symbolic else float); r.vcov_ = np.array([[v]], dtype=object if g.symbolic else float)
    dfo = g.choice("own df", ["none", "pos", "nonpos"])
    r.df_ = None if dfo == "none" else (g.int("df0", 1, None if g.symbolic else 50) if dfo == "pos" else g.int("df0", -2, 0))
    r._X = r._y = r.residuals_ = np.zeros(1)
    use_a = g.choice("level given", [False, True]); use_df = g.choice("df given", [False, True])
    a = g.pyreal("alpha1", 0, 1) if use_a else None; df = g.int("df1", 1, None if g.symbolic else 50) if use_df else None
    q = r.get_inference(0, alpha=a, df=df)
    alpha = a if use_a else a0; dff = df if use_df else (r.df_ if dfo == "pos" else None)
    se = g.sqrt(v)
    g.eq("coefficient", q.coefficient, b); g.eq("se", q.se, se)
    coherent(g, "inference", q.coefficient, q.se, q.t_stat, q.p_value, q.conf_int, alpha, dff)
    g.ensure("reports the level used", q.alpha == alpha)
    g.ensure("reports the df used", (q.df is None) if dff is None else (q.df is not None and q.df == dff))
    sig = q.is_significant()
    if bool(g.isnan(q.p_value)): g.ensure("NaN is not significant", g.not_(sig)); g.ensure("no stars", q.significance_stars() == "")
    else: g.ensure("significant iff p < level", g.iff(sig, q.p_value < alpha))
    g.cover()

def spec_stars(p):
    return "***" if p < 0.001 else "**" if p < 0.01 else "*" if p < 0.05 else "." if p < 0.1 else ""

@harness("C01", "stars", ["results._get_significance_stars", "linalg.InferenceResult.significance_stars"])
def _(g):
    """stars follow the 0.001/0.01/0.05/0.1 thresholds, none for NaN."""
    k = g.choice("band", ["***", "**", "*", ".", "", "nan"])
    band = {"***": (-1, 0.001), "**": (0.001, 0.01), "*": (0.01, 0.05), ".": (0.05, 0.1), "": (0.1, 2), "nan": None}[k]
    if band is None: p = float("nan") if g.choice("kind", [0, 1]) else np.float64("nan"); want = ""
    else:
        p = g.pyreal("p", band[0], band[1])
        if g.choice("edge", [False, True]): p = max(band[0], 0.0)
        want = k if band[0] >= 0 or k == "***" else k
    g.ensure("stars", g.fn("results", "_get_significance_stars")(p) == want)
    IR = g.fn("linalg", "InferenceResult")
    g.ensure("stars of InferenceResult", IR(1.0, 1.0, 1.0, p, (0.0, 1.0)).significance_stars() == want)

RESULTS = [  # module, class, p field, level (None: the object's alpha)
    ("results", "DiDResults", "p_value"), ("results", "MultiPeriodDiDResults", "avg_p_value"), ("results", "SyntheticDiDResults", "p_value"),
    ("staggered_results", "CallawaySantAnnaResults", "overall_p_value"), ("sun_abraham", "SunAbrahamResults", "overall_p_value"),
    ("triple_diff", "TripleDifferenceResults", "p_value"), ("trop", "TROPResults", "p_value")]
def bare(cls, **kw):
    import dataclasses
    o = object.__new__(cls)
    for f in dataclasses.fields(cls):
        if f.name in kw: setattr(o, f.name, kw[f.name])
        elif f.default is not dataclasses.MISSING: setattr(o, f.name, f.default)
        elif f.default_factory is not dataclasses.MISSING: setattr(o, f.name, f.default_factory())
        else: setattr(o, f.name, None)
    return o

@harness("C01", "result_verdicts", [f"{m}.{c}.is_significant" for m, c, _ in RESULTS] + [f"{m}.{c}.significance_stars" for m, c, _ in RESULTS])
def _(g):
    """every result class: is_significant iff p < alpha (never for NaN); stars by the common thresholds."""
    m, c, pf = g.choice("class", RESULTS)
    p = g.pyreal("p", -0.001, 1.001, nan=True); a = g.pyreal("alpha", 0, 1)
    o = bare(g.fn(m, c), **{pf: p, "alpha": a})
    s = o.is_significant
    if bool(g.isnan(p)):
        g.ensure("NaN is not significant", g.not_(s)); g.ensure("NaN has no stars", o.significance_stars == ""); return
    g.ensure("significant iff p < alpha", g.iff(s, p < a))
    g.ensure("stars", o.significance_stars == spec_stars(p))

@harness("C01", "period_verdicts", ["results.PeriodEffect.is_significant", "staggered_results.GroupTimeEffect.is_significant"])
def _(g):
    """per-period and per-cell objects use the documented 0.05 level."""
    m, c = g.choice("class", [("results", "PeriodEffect"), ("staggered_results", "GroupTimeEffect")])
    p = g.pyreal("p", -0.001, 1.001, nan=True)
    o = bare(g.fn(m, c), p_value=p)
    if bool(g.isnan(p)): g.ensure("NaN is not significant", g.not_(o.is_significant)); g.ensure("no stars", o.significance_stars == ""); return
    g.ensure("significant iff p < 0.05", g.iff(o.is_significant, p < 0.05)); g.ensure("stars", o.significance_stars == spec_stars(p))

# ---------------------------------------------------------------- the inline blocks of the estimators
def est_se(g, tag, nan=True):
    e = g.real("est_" + tag, nan=nan); s = g.real("se_" + tag, 0, None, nan=nan)
    return e, s

@harness("C01", "callaway_santanna_fit", ["staggered.CallawaySantAnna.fit", "staggered_aggregation.CallawaySantAnnaAggregationMixin._aggregate_event_study", "staggered_aggregation.CallawaySantAnnaAggregationMixin._aggregate_by_group"],
         bound="cohort structure of the scaffold (2 cohorts, 4 periods, 3 cells given by the callee contract); all effect, se values and levels", trials=30)
def _(g):
    """CallawaySantAnna.fit: with the callee contracts (any effect, any positive or NaN se) every group-time, event-time, cohort and overall row coheres."""
    CS = g.fn("staggered", "CallawaySantAnna")
    cells = {(3, 3): est_se(g, "a", nan=False), (3, 4): est_se(g, "b", nan=False), (4, 4): est_se(g, "c")}
    oa, os_ = est_se(g, "o"); agg = g.real("se_agg", 0, None, nan=True)
    def cell(self, pre, gg, t, cov=None, *a, **k):
        if (gg, t) not in cells: return (None, 0.0, 0, 0, None)
        e, s = cells[(gg, t)]
        return e, s, 3, 4, {"treated_units": [], "control_units": [], "treated_inf": np.zeros(0), "control_inf": np.zeros(0)}
    g.stub("staggered", "CallawaySantAnna._compute_att_gt_fast", cell)
    g.stub("staggered", "CallawaySantAnna._aggregate_simple", lambda self, *a, **k: (oa, os_))
    g.stub("staggered", "CallawaySantAnna._compute_aggregated_se", lambda self, *a, **k: agg)
    alpha = g.pyreal("alpha", 0, 1)
    df = D.staggered(np.random.default_rng(0), cohorts=((0, 4), (3, 3), (4, 2)), T=4)
    r = CS(alpha=alpha).fit(df, outcome="y", unit="unit", time="time", first_treat="first_treat", aggregate="all")
    g.ensure("every cell reported", sorted(r.group_time_effects) == sorted(cells))
    for k, (e, s) in cells.items():
        q = r.group_time_effects[k]
        g.eq("cell effect", q["effect"], e); g.eq("cell se", q["se"], s)
        coherent(g, "cell", q["effect"], q["se"], q["t_stat"], q["p_value"], q["conf_int"], alpha, None)
    g.eq("overall", r.overall_att, oa); g.eq("overall se", r.overall_se, os_)
    coherent(g, "overall", r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value, r.overall_conf_int, alpha, None)
    for nm, tab in (("event", r.event_study_effects), ("group", r.group_effects)):
        for k, q in tab.items():
            if q.get("n_groups", 1) == 0 : continue     # the universal-base reference row is a normalisation, not an estimate
            coherent(g, nm, q["effect"], q["se"], q["t_stat"], q["p_value"], q["conf_int"], alpha, None)
    g.cover()

@harness("C01", "sun_abraham_fit", ["sun_abraham.SunAbraham.fit", "sun_abraham.SunAbraham._compute_iw_effects"],
         bound="cohort structure of the scaffold (2 cohorts, 4 periods); all coefficients, variances and levels", trials=30)
def _(g):
    """SunAbraham: event-time rows and the overall row cohere for any cohort coefficients and covariance returned by the regression."""
    SA = g.fn("sun_abraham", "SunAbraham")
    keys = [(3, 0), (3, 1), (4, 0), (3, -2)]
    co = {k: g.real(f"b{k[0]}_{k[1]}") for k in keys}
    n = len(keys); V = np.zeros((n, n), dtype=object if g.symbolic else float)
    nanv = g.choice("variance", ["finite", "nan"])
    for i in range(n): V[i, i] = g.real(f"v{i}", 0, None)
    if nanv == "nan": V[0, 0] = float("nan")
    idx = {k: i for i, k in enumerate(keys)}
    g.stub("sun_abraham", "SunAbraham._fit_saturated_regression", lambda self, *a, **k: (dict(co), {k: g.sqrt(V[i, i]) for k, i in idx.items()}, V, dict(idx)))
    alpha = g.pyreal("alpha", 0, 1)
    df = D.staggered(np.random.default_rng(0), cohorts=((0, 4), (3, 3), (4, 2)), T=4)
    r = SA(alpha=alpha).fit(df, outcome="y", unit="unit", time="time", first_treat="first_treat")
    for e, q in r.event_study_effects.items():
        coherent(g, "event", q["effect"], q["se"], q["t_stat"], q["p_value"], q["conf_int"], alpha, None)
    coherent(g, "overall", r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value, r.overall_conf_int, alpha, None)
    g.cover()

@harness("C01", "triple_difference_fit", ["triple_diff.TripleDifference.fit"], bound="scaffold table with 16 rows; all effect, se values and levels", trials=30)
def _(g):
    """TripleDifference.fit: t, p and interval cohere with the (att, se) returned by each estimation method, t(n-8-k) reference."""
    TD = g.fn("triple_diff", "TripleDifference")
    e, s = est_se(g, "o"); m = g.choice("method", ["dr", "reg", "ipw"])
    for q in ("_regression_adjustment", "_ipw_estimation", "_doubly_robust"):
        g.stub("triple_diff", "TripleDifference." + q, lambda self, *a, **k: (e, s, 0.5, None))
    alpha = g.pyreal("alpha", 0, 1)
    ncov = g.choice("covariates", [0, 2])
    n_cell = g.choice("rows per cell", [1, 2])
    df = D.ddd(np.random.default_rng(0), sizes=np.full((2, 2, 2), n_cell), cov=ncov)
    r = TD(estimation_method=m, alpha=alpha).fit(df, outcome="y", group="group", partition="partition", time="time", covariates=[f"x{i}" for i in range(ncov)] or None)
    coherent(g, "att", r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, max(8 * n_cell - 8 - ncov, 1))
    g.eq("att is the callee's", r.att, e); g.eq("se is the callee's", r.se, s)

@harness("C01", "did_fit", ["estimators.DifferenceInDifferences.fit", "linalg.LinearRegression.get_inference"],
         bound="scaffold table with 4 cells; all coefficients, variances and levels", trials=30)
def _(g):
    """DifferenceInDifferences.fit reports the inference of the interaction coefficient (t reference with the regression's df)."""
    Dd = g.fn("estimators", "DifferenceInDifferences")
    e, s = est_se(g, "o"); alpha = g.pyreal("alpha", 0, 1); dfv = g.int("dof", 1, None if g.symbolic else 30)
    LR = g.fn("linalg", "LinearRegression")
    def fit(self, X, y, **k):
        self.coefficients_ = np.array([1.0, 2.0, 3.0, e], dtype=object if g.symbolic else float)
        V = np.eye(4).astype(object if g.symbolic else float); V[3, 3] = s * s; self.vcov_ = V
        self.residuals_ = np.zeros(X.shape[0]); self.fitted_values_ = np.asarray(y, dtype=float); self.df_ = dfv; self._X = X; self._y = y
        self.n_obs_ = X.shape[0]; self.n_params_ = 4; self.n_params_effective_ = 4
        return self
    g.stub("linalg", "LinearRegression.fit", fit)
    df = D.did_panel(np.random.default_rng(0), n_units=4, treated=2)
    r = Dd(alpha=alpha).fit(df, outcome="y", treatment="treated", time="post")
    g.eq("att", r.att, e)
    se = g.sqrt(s * s)
    g.eq("se", r.se, se)
    coherent(g, "att", r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, dfv)

@harness("C01", "twfe_fit", ["twfe.TwoWayFixedEffects.fit", "linalg.LinearRegression.get_inference"],
         bound="scaffold panels with four or six units and two or three periods; all coefficients, variances and levels", trials=30)
def _(g):
    """TwoWayFixedEffects.fit reports the inference of the treatment coefficient; the degrees of freedom leave out the absorbed effects (units + periods - 2)."""
    Tw = g.fn("twfe", "TwoWayFixedEffects"); e, s = est_se(g, "o"); alpha = g.pyreal("alpha", 0, 1); base = g.int("dof", 1, None if g.symbolic else 30); nu, nt = g.choice("shape", [(4, 2), (6, 2), (4, 3)]); seen = {}
    def fit(self, X, y, **k):
        seen["adj"] = k.get("df_adjustment"); kx = X.shape[1]
        self.coefficients_ = np.array([1.0, e] + [0.5] * (kx - 2), dtype=object if g.symbolic else float)
        V = np.eye(kx).astype(object if g.symbolic else float); V[1, 1] = s * s; self.vcov_ = V
        self.residuals_ = np.zeros(X.shape[0]); self.fitted_values_ = np.asarray(y, dtype=float); self.df_ = base; self._X = X; self._y = y
        self.n_obs_ = X.shape[0]; self.n_params_ = kx; self.n_params_effective_ = kx
        return self
    g.stub("linalg", "LinearRegression.fit", fit)
    df = pd.DataFrame([(u, t, int(u < nu // 2), u * 0.5 + t * 1.25 + (u * t) % 3) for u in range(nu) for t in range(nt)], columns=["unit", "post", "treated", "y"]); df["post"] = df.post.clip(upper=1) if nt == 2 else df.post
    if nt == 3: df["treated"] = ((df.unit < nu // 2) & (df.post > 0)).astype(int)
    run = lambda: Tw(alpha=alpha).fit(df, outcome="y", treatment="treated", time="post", unit="unit")
    if bool(g.isnan(e)): g.raises("an unidentified effect is rejected", ValueError, run); g.cover(); return
    r = run()
    g.ensure("absorbed effects leave the degrees of freedom", seen["adj"] == nu + nt - 2); g.eq("att", r.att, e); g.eq("se", r.se, g.sqrt(s * s)); g.ensure("counts", r.n_obs == nu * nt and r.n_treated + r.n_control == nu)
    coherent(g, "att", r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, base); g.cover()

@harness("C01", "multiperiod_fit", ["estimators.MultiPeriodDiD.fit"], bound="scaffold table with 3 periods (2 post); all coefficients, variances and levels", trials=30)
def _(g):
    """MultiPeriodDiD.fit: every post-period row and the average row cohere for any coefficients and covariance from the solver."""
    M = g.fn("estimators", "MultiPeriodDiD")
    o = object if g.symbolic else float
    b1, v1 = g.real("b1"), g.real("v1", 0, None); b2, v2 = g.real("b2", nan=True), g.real("v2", 0, None, nan=True); c = g.real("cov12", nan=False)
    if not g.symbolic: c = 0.3 * np.sqrt(v1 * v2)
    else: g.assume(c * c < v1 * v2)
    alpha = g.pyreal("alpha", 0, 1)
    lay = {}
    def solve(X, y, **k):
        kk = X.shape[1]; lay["k"] = kk
        beta = np.zeros(kk).astype(o); beta[kk - 2] = b1; beta[kk - 1] = b2
        V = np.eye(kk).astype(o); V[kk - 2, kk - 2] = v1; V[kk - 1, kk - 1] = v2; V[kk - 2, kk - 1] = V[kk - 1, kk - 2] = c
        return beta, np.zeros(X.shape[0]), np.asarray(y, dtype=float), V
    g.stub("estimators", "solve_ols", solve)
    df = D.did_panel(np.random.default_rng(0), n_units=6, n_pre=1, n_post=2, treated=3)
    r = M(alpha=alpha).fit(df, outcome="y", treatment="treated", time="time", post_periods=[1, 2])
    dof = len(df) - (lay["k"] - (1 if bool(g.isnan(b2)) else 0))
    for p, q in r.period_effects.items():
        coherent(g, "period", q.effect, q.se, q.t_stat, q.p_value, q.conf_int, alpha, dof)
    coherent(g, "average", r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, r.avg_conf_int, alpha, dof)
