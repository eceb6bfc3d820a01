"""Every public call of the library on small random data: used to check frame conditions, randomness and refits."""
import numpy as np, pandas as pd
from . import data as D

class Call:
    """fn(**args) is the public call; args are the caller's own objects"""
    def __init__(self, name, fn, args, stochastic=False): self.name, self.fn, self.args, self.stochastic = name, fn, args, stochastic

def messy(r, df, index=True):
    """the same rows with an arbitrary order, index, dtypes and extra columns"""
    df = df.copy()
    if r.random() < .6: df = df.sample(frac=1.0, random_state=int(r.integers(1 << 30)))
    k = int(r.integers(4))
    if index:
        if k == 1: df.index = [f"r{i}" for i in range(len(df))]
        elif k == 2: df.index = r.integers(0, max(2, len(df) // 2), len(df))
        elif k == 3: df = df.reset_index(drop=True)
    elif k: df = df.reset_index(drop=True)
    df["note"] = ["n%d" % (i % 3) for i in range(len(df))]
    if r.random() < .3: df = df[list(df.columns[::-1])]
    return df
def opt(r, *v): return v[int(r.integers(len(v)))]
def seedval(r): return opt(r, 0, 1, int(r.integers(1 << 20)))

ESTIMATORS = ["DifferenceInDifferences", "TwoWayFixedEffects", "MultiPeriodDiD", "SyntheticDiD", "CallawaySantAnna", "SunAbraham", "TripleDifference", "BaconDecomposition", "TROP"]
MODULE = dict(DifferenceInDifferences="estimators", TwoWayFixedEffects="twfe", MultiPeriodDiD="estimators", SyntheticDiD="synthetic_did", CallawaySantAnna="staggered", SunAbraham="sun_abraham", TripleDifference="triple_diff", BaconDecomposition="bacon", TROP="trop", HonestDiD="honest_did", PreTrendsPower="pretrends", PowerAnalysis="power")

def params(r, name):
    """random constructor parameters"""
    a = float(opt(r, .05, .1, .2)); rd = opt(r, "warn", "silent")
    if name in ("DifferenceInDifferences", "TwoWayFixedEffects", "MultiPeriodDiD"):
        wild = name != "MultiPeriodDiD" and r.random() < .3
        return dict(robust=bool(r.integers(2)), cluster=opt(r, None, "unit") if not wild else "unit", alpha=a, inference="wild_bootstrap" if wild else "analytical", n_bootstrap=int(opt(r, 20, 39)), bootstrap_weights=opt(r, "rademacher", "webb", "mammen"), seed=seedval(r), rank_deficient_action=rd)
    if name == "SyntheticDiD": return dict(lambda_reg=float(opt(r, 0., .5)), zeta=float(opt(r, 1., 2.)), alpha=a, variance_method=opt(r, "bootstrap", "placebo"), n_bootstrap=6, seed=seedval(r))
    if name == "CallawaySantAnna": return dict(control_group=opt(r, "never_treated", "not_yet_treated"), anticipation=int(opt(r, 0, 1)), estimation_method=opt(r, "dr", "ipw", "reg"), alpha=a, n_bootstrap=int(opt(r, 0, 25)), bootstrap_weights=opt(r, None, "rademacher", "webb", "mammen"), seed=seedval(r), rank_deficient_action=rd, base_period=opt(r, "varying", "universal"))
    if name == "SunAbraham": return dict(control_group="never_treated", anticipation=int(opt(r, 0, 1)), alpha=a, cluster=opt(r, None, "unit"), n_bootstrap=int(opt(r, 0, 4)), seed=seedval(r), rank_deficient_action=rd)
    if name == "TripleDifference": return dict(estimation_method=opt(r, "dr", "reg", "ipw"), robust=bool(r.integers(2)), alpha=a, pscore_trim=.02, rank_deficient_action=rd)
    if name == "BaconDecomposition": return dict(weights=opt(r, "approximate", "exact"))
    if name == "TROP": return dict(method=opt(r, "twostep", "joint"), lambda_time_grid=[0., .5], lambda_unit_grid=[0., .5], lambda_nn_grid=[0., 1.], max_iter=20, alpha=a, variance_method="bootstrap" if r.random() < .5 else "jackknife", n_bootstrap=20, max_loocv_samples=4, seed=seedval(r))
    raise KeyError(name)

def fit_args(r, name, p):
    """arguments of a fit call"""
    if name == "DifferenceInDifferences":
        df = messy(r, D.did_panel(r, n_units=int(r.integers(6, 12)), n_pre=2, n_post=2, cov=2), index=p["inference"] == "analytical"); a = dict(data=df, outcome="y"); k = int(r.integers(3))
        if r.random() < .3: a["formula"] = opt(r, "y ~ treated * post", "y ~ treated + post + treated:post + x0")
        else: a.update(treatment="treated", time="post", covariates=opt(r, None, ["x0"], ["x0", "x1"]))
        if k == 1 and "formula" not in a: a["absorb"] = ["unit"]
        if k == 2 and "formula" not in a: a["fixed_effects"] = ["note"]
        return a
    if name == "TwoWayFixedEffects": return dict(data=messy(r, D.did_panel(r, n_units=int(r.integers(6, 12)), n_pre=2, n_post=2, cov=1), index=p["inference"] == "analytical"), outcome="y", treatment="treated", time="post", unit="unit", covariates=opt(r, None, ["x0"]))
    if name == "MultiPeriodDiD": return dict(data=messy(r, D.did_panel(r, n_units=int(r.integers(6, 12)), n_pre=3, n_post=2, cov=1)), outcome="y", treatment="treated", time="time", post_periods=opt(r, [3, 4], [4, 3]), covariates=opt(r, None, ["x0"]), absorb=opt(r, None, ["unit"]), reference_period=opt(r, None, 1))
    if name == "SyntheticDiD": return dict(data=messy(r, D.block_panel(r).assign(x0=r.normal(size=42))), outcome="y", treatment="treated", unit="unit", time="time", post_periods=[4, 5], covariates=opt(r, None, ["x0"]))
    if name == "CallawaySantAnna": return dict(data=messy(r, D.staggered(r, cov=1)), outcome="y", unit="unit", time="time", first_treat="first_treat", covariates=opt(r, None, None, ["x0"]), aggregate=opt(r, None, "simple", "event_study", "group", "all"), balance_e=opt(r, None, 0))
    if name == "SunAbraham": return dict(data=messy(r, D.staggered(r, cov=1).assign(x0=lambda d: r.normal(size=len(d)))), outcome="y", unit="unit", time="time", first_treat="first_treat", covariates=opt(r, None, ["x0"]))
    if name == "TripleDifference": return dict(data=messy(r, D.ddd(r, sizes=r.integers(5, 9, (2, 2, 2)), cov=1)), outcome="y", group="group", partition="partition", time="time", covariates=opt(r, None, ["x0"]))
    if name == "BaconDecomposition": return dict(data=messy(r, D.staggered(r)), outcome="y", unit="unit", time="time", first_treat="first_treat")
    if name == "TROP": return dict(data=messy(r, D.block_panel(r, n_control=4, n_treated=2, n_pre=4, n_post=2)), outcome="y", treatment="D", unit="unit", time="time")
    raise KeyError(name)

def est(F, name): return F(MODULE[name], name)

def estimator_call(r, F, name):
    p = params(r, name); a = fit_args(r, name, p); c = est(F, name)
    stoch = p.get("inference") == "wild_bootstrap" or bool(p.get("n_bootstrap")) and name in ("SyntheticDiD", "CallawaySantAnna", "SunAbraham", "TROP")
    return Call(name, lambda params, fit: c(**params).fit(**fit), dict(params=p, fit=a), stoch)

def did_results(r, F, kind=None):
    """a fitted multi-period result for the sensitivity tools"""
    k = kind if kind is not None else int(r.integers(3))
    if k == 0: return F("estimators", "MultiPeriodDiD")().fit(D.did_panel(r, n_units=10, n_pre=3, n_post=2), "y", "treated", "time", post_periods=[3, 4], reference_period=2)
    df = D.staggered(r, cohorts=((0, 5), (4, 4), (6, 4)), T=7)
    if k == 1: return F("staggered", "CallawaySantAnna")().fit(df, "y", "unit", "time", "first_treat", aggregate="event_study")
    return F("sun_abraham", "SunAbraham")().fit(df, "y", "unit", "time", "first_treat")

def others(r, F):
    """name -> builder of one public call that is not an estimator's fit"""
    def panel(**k): return messy(r, D.did_panel(r, **{**dict(n_units=int(r.integers(6, 10)), n_pre=3, n_post=2, cov=1), **k}))
    B = {}
    def reg(name, f, stochastic=False, **args): B[name] = Call(name, f, args, stochastic)
    def predict(data, p): 
        e = F("estimators", "DifferenceInDifferences")(**p); e.fit(data, "y", "treated", "post", covariates=["x0"])
        return e.results_.to_dict()
    def lin(X, y, cl, Xn):
        m = F("linalg", "LinearRegression")(include_intercept=False, cluster_ids=cl).fit(X, y); return [m.coefficients_, m.vcov_, m.predict(Xn), m.r_squared(), [i.to_dict() for i in m.get_all_inference()]]
    n = int(r.integers(12, 20)); X = np.column_stack([np.ones(n), r.normal(size=(n, 2))]); y = r.normal(size=n); cl = np.arange(n) % 5
    if r.random() < .3: X = np.column_stack([X, X[:, 1]])
    if r.random() < .4: X = np.asfortranarray(X)
    q0 = opt(r, "", "_d")
    q1 = opt(r, "treated", "note", "z")
    q2 = opt(r, "treated", "z")
    q3 = bool(r.integers(2))
    q4 = opt(r, "post", "z")
    q5 = opt(r, "event_time", "first_treat")
    q6 = bool(r.integers(2))
    return {
        "LinearRegression": lambda: Call("LinearRegression", lin, dict(X=X, y=y, cl=opt(r, None, cl), Xn=r.normal(size=(3, X.shape[1])))),
        "solve_ols": lambda: Call("solve_ols", lambda X, y, cl: F("linalg", "solve_ols")(X, y, cluster_ids=cl, return_fitted=True), dict(X=X, y=y, cl=opt(r, None, cl))),
        "compute_robust_vcov": lambda: Call("compute_robust_vcov", lambda X, e, cl: F("linalg", "compute_robust_vcov")(X, e, cl), dict(X=X[:, :3], e=y, cl=opt(r, None, cl))),
        "compute_robust_se": lambda: Call("compute_robust_se", lambda X, e, cl: F("utils", "compute_robust_se")(X, e, cl), dict(X=X[:, :3], e=y, cl=opt(r, None, cl))),
        "wild_bootstrap_se": lambda: Call("wild_bootstrap_se", lambda X, y, e, cl, kw: F("utils", "wild_bootstrap_se")(X, y, e, cl, 1, n_bootstrap=25, **kw), dict(X=X[:, :3], y=y, e=y - X[:, :3] @ np.linalg.lstsq(X[:, :3], y, rcond=None)[0], cl=cl, kw=dict(weight_type=opt(r, "rademacher", "webb", "mammen"), seed=seedval(r), return_distribution=True)), True),
        "check_parallel_trends": lambda: Call("check_parallel_trends", lambda data, pre: F("utils", "check_parallel_trends")(data, "y", "time", "treated", pre), dict(data=panel(), pre=opt(r, None, [0, 1, 2], [2, 0, 1]))),
        "check_parallel_trends_robust": lambda: Call("check_parallel_trends_robust", lambda data, pre, seed: F("utils", "check_parallel_trends_robust")(data, "y", "time", "treated", unit="unit", pre_periods=pre, n_permutations=20, seed=seed), dict(data=panel(), pre=opt(r, None, [0, 1, 2], [2, 0, 1]), seed=seedval(r)), True),
        "equivalence_test_trends": lambda: Call("equivalence_test_trends", lambda data, pre: F("utils", "equivalence_test_trends")(data, "y", "time", "treated", unit="unit", pre_periods=pre), dict(data=panel(), pre=opt(r, None, [0, 1, 2], [2, 0, 1]))),
        "demean_by_group": lambda: Call("demean_by_group", lambda data, variables: F("utils", "demean_by_group")(data, variables, "unit", suffix=q0), dict(data=panel(), variables=["y", "x0"])),
        "within_transform": lambda: Call("within_transform", lambda data, variables: F("utils", "within_transform")(data, variables, "unit", "time"), dict(data=panel(), variables=["y", "x0"])),
        "compute_synthetic_weights": lambda: Call("compute_synthetic_weights", lambda A, b, lam: F("utils", "compute_synthetic_weights")(A, b, lam), dict(A=r.normal(size=(4, 5)), b=r.normal(size=4), lam=float(opt(r, 0., 1.)))),
        "compute_time_weights": lambda: Call("compute_time_weights", lambda A, b, z: F("utils", "compute_time_weights")(A, b, z), dict(A=r.normal(size=(4, 5)), b=r.normal(size=4), z=1.)),
        "compute_placebo_effects": lambda: Call("compute_placebo_effects", lambda A, B_, t, w, l, ids: F("utils", "compute_placebo_effects")(A, B_, t, w, l, ids), dict(A=r.normal(size=(4, 3)), B_=r.normal(size=(2, 3)), t=r.normal(size=4), w=np.ones(3) / 3, l=np.ones(4) / 4, ids=[1, 2, 3])),
        "validate_binary": lambda: Call("validate_binary", lambda arr: F("utils", "validate_binary")(arr, "x"), dict(arr=r.integers(0, 2, 6).astype(float))),
        "placebo_timing_test": lambda: Call("placebo_timing_test", lambda data, post: F("diagnostics", "placebo_timing_test")(data, "y", "treated", "time", 1, post_periods=post), dict(data=panel(), post=opt(r, [3, 4], [4, 3]))),
        "placebo_group_test": lambda: Call("placebo_group_test", lambda data, fake, post: F("diagnostics", "placebo_group_test")(data[data.treated == 0], "y", "time", "unit", fake, post_periods=post), dict(data=panel(n_units=10, treated=4), fake=opt(r, [4, 5], [5, 4]), post=opt(r, [3, 4], [4, 3]))),
        "placebo_group_test_all": lambda: Call("placebo_group_test_all", lambda data, fake, post: F("diagnostics", "run_placebo_test")(data, "y", "treated", "time", unit="unit", test_type="fake_group", fake_treatment_group=fake, post_periods=post), dict(data=panel(n_units=10, treated=4), fake=opt(r, [4, 5], [5, 4]), post=opt(r, [3, 4], [4, 3]))),
        "permutation_test": lambda: Call("permutation_test", lambda data, seed: F("diagnostics", "permutation_test")(data, "y", "treated", "post", "unit", n_permutations=8, seed=seed), dict(data=panel(treated=3), seed=seedval(r)), True),
        "leave_one_out_test": lambda: Call("leave_one_out_test", lambda data: F("diagnostics", "leave_one_out_test")(data, "y", "treated", "post", "unit"), dict(data=panel(treated=3))),
        "run_all_placebo_tests": lambda: Call("run_all_placebo_tests", lambda data, pre, post, seed: F("diagnostics", "run_all_placebo_tests")(data, "y", "treated", "time", "unit", pre, post, n_permutations=5, seed=seed), dict(data=panel(treated=3), pre=opt(r, [0, 1, 2], [1, 2, 0]), post=opt(r, [3, 4], [4, 3]), seed=seedval(r)), True),
        "make_treatment_indicator": lambda: Call("make_treatment_indicator", lambda data, v: F("prep", "make_treatment_indicator")(data, "note", treated_values=v, new_column=q1), dict(data=panel(), v=opt(r, "n1", ["n0", "n2"]))),
        "make_treatment_indicator_threshold": lambda: Call("make_treatment_indicator_threshold", lambda data: F("prep", "make_treatment_indicator")(data, "x0", threshold=0.1, above_threshold=q3, new_column=q2), dict(data=panel())),
        "make_post_indicator": lambda: Call("make_post_indicator", lambda data, kw: F("prep", "make_post_indicator")(data, "time", new_column=q4, **kw), dict(data=panel(), kw=opt(r, dict(post_periods=opt(r, [3, 4], [4, 3])), dict(treatment_start=3)))),
        "wide_to_long": lambda: Call("wide_to_long", lambda data, cols, tv: F("prep", "wide_to_long")(data, cols, "id", time_values=tv), dict(data=pd.DataFrame({"id": range(4), "s": list("abcd"), "v1": r.normal(size=4), "v2": r.normal(size=4)}), cols=["v1", "v2"], tv=opt(r, None, [2000, 2001]))),
        "balance_panel": lambda: Call("balance_panel", lambda data, m, fv: F("prep", "balance_panel")(data, "unit", "time", method=m, fill_value=fv), dict(data=messy(r, D.did_panel(r, n_units=6, n_pre=2, n_post=2, balanced=False)), m=opt(r, "inner", "outer", "fill"), fv=opt(r, None, 0.))),
        "validate_did_data": lambda: Call("validate_did_data", lambda data: F("prep", "validate_did_data")(data, "y", "treated", "post", unit="unit", raise_on_error=False), dict(data=panel())),
        "summarize_did_data": lambda: Call("summarize_did_data", lambda data: F("prep", "summarize_did_data")(data, "y", "treated", "post", unit="unit"), dict(data=panel())),
        "create_event_time": lambda: Call("create_event_time", lambda data: F("prep", "create_event_time")(data, "time", "first_treat", new_column=q5), dict(data=messy(r, D.staggered(r)))),
        "aggregate_to_cohorts": lambda: Call("aggregate_to_cohorts", lambda data, cov: F("prep", "aggregate_to_cohorts")(data, "unit", "time", "treated", "y", covariates=cov), dict(data=panel(), cov=opt(r, None, ["x0"]))),
        "rank_control_units": lambda: Call("rank_control_units", lambda data, kw: F("prep", "rank_control_units")(data, "unit", "time", "y", treatment_column="treated", **kw), dict(data=panel(n_units=10, treated=3), kw=dict(covariates=opt(r, None, ["x0"]), exclude_units=opt(r, None, [5], [8, 5]), require_units=opt(r, None, [6], [9, 6]), pre_periods=opt(r, None, [0, 1, 2], [2, 0, 1]), suggest_treatment_candidates=False))),
        "rank_treatment_candidates": lambda: Call("rank_treatment_candidates", lambda data: F("prep", "rank_control_units")(data, "unit", "time", "y", suggest_treatment_candidates=True), dict(data=panel(n_units=10))),
        "triple_difference": lambda: Call("triple_difference", lambda data, cov: F("triple_diff", "triple_difference")(data, "y", "group", "partition", "time", covariates=cov), dict(data=messy(r, D.ddd(r, sizes=r.integers(5, 9, (2, 2, 2)), cov=1)), cov=opt(r, None, ["x0"]))),
        "bacon_decompose": lambda: Call("bacon_decompose", lambda data: F("bacon", "bacon_decompose")(data, "y", "unit", "time", "first_treat"), dict(data=messy(r, D.staggered(r)))),
        "twfe_decompose": lambda: Call("twfe_decompose", lambda data: F("twfe", "TwoWayFixedEffects")().decompose(data, "y", "unit", "time", "first_treat"), dict(data=messy(r, D.staggered(r)))),
        "HonestDiD": lambda: Call("HonestDiD", lambda res, l, kw: (lambda h: [h.fit(res), h.sensitivity_analysis(res, M_grid=kw["grid"]), h.breakdown_value(res)])(F("honest_did", "HonestDiD")(method=kw["method"], l_vec=l)), dict(res=did_results(r, F, 0), l=opt(r, None, np.array([.7, .6])), kw=dict(method=opt(r, "relative_magnitude", "smoothness", "combined"), grid=opt(r, [0., .5, 1.], [1., 0., .5])))),
        "compute_honest_did": lambda: Call("compute_honest_did", lambda res: F("honest_did", "compute_honest_did")(res), dict(res=did_results(r, F))),
        "PreTrendsPower": lambda: Call("PreTrendsPower", lambda res, w, grid: (lambda h: [h.fit(res), h.power_curve(res, M_grid=grid), h.power_at(res, .5), h.sensitivity_to_honest_did(res), h.fit(res).power_at(1.)])(F("pretrends", "PreTrendsPower")(violation_type="custom" if w is not None else "linear", violation_weights=w)), dict(res=did_results(r, F, 2), w=opt(r, None, np.array([3., 4.]), np.array([1., 2., 3.]), np.array([3., 4., 1., 1.])), grid=[.1, .5])),
        "compute_pretrends_power": lambda: Call("compute_pretrends_power", lambda res: [F("pretrends", "compute_pretrends_power")(res), F("pretrends", "compute_mdv")(res)], dict(res=did_results(r, F))),
        "PowerAnalysis": lambda: Call("PowerAnalysis", lambda kw, sizes: (lambda h: [h.power(.5, 20, 20, 1., **kw), h.mde(20, 20, 1., **kw), h.sample_size(.5, 1., **kw), h.power_curve(20, 20, 1., effect_sizes=sizes, **kw)])(F("power", "PowerAnalysis")()), dict(kw=dict(n_pre=2, n_post=3, rho=.2), sizes=opt(r, [.1, .4], [.4, .1]))),
        "simulate_power": lambda: Call("simulate_power", lambda kw, grid, gen: F("power", "simulate_power")(F("estimators", "DifferenceInDifferences")(), n_units=12, n_simulations=4, effect_sizes=grid, progress=False, data_generator_kwargs=gen, **kw), dict(kw=dict(seed=seedval(r)), grid=opt(r, [.5, 1.], [1., .5]), gen=opt(r, None, dict(unit_fe_sd=1.))), True),
        "generate_did_data": lambda: Call("generate_did_data", lambda kw: F("prep_dgp", "generate_did_data")(n_units=8, n_periods=4, **kw), dict(kw=dict(seed=seedval(r))), True),
        "generate_staggered_data": lambda: Call("generate_staggered_data", lambda kw, cp: F("prep_dgp", "generate_staggered_data")(n_units=8, n_periods=6, cohort_periods=cp, **kw), dict(kw=dict(seed=seedval(r)), cp=opt(r, [3, 4], [4, 3])), True),
        "generate_factor_data": lambda: Call("generate_factor_data", lambda kw: F("prep_dgp", "generate_factor_data")(n_units=8, n_pre=4, n_post=2, n_treated=2, **kw), dict(kw=dict(seed=seedval(r))), True),
        "generate_ddd_data": lambda: Call("generate_ddd_data", lambda kw: F("prep_dgp", "generate_ddd_data")(n_per_cell=5, add_covariates=q6, **kw), dict(kw=dict(seed=seedval(r))), True),
        "generate_panel_data": lambda: Call("generate_panel_data", lambda kw: F("prep_dgp", "generate_panel_data")(n_units=8, n_periods=5, **kw), dict(kw=dict(seed=seedval(r))), True),
        "generate_event_study_data": lambda: Call("generate_event_study_data", lambda kw: F("prep_dgp", "generate_event_study_data")(n_units=8, n_pre=3, n_post=2, **kw), dict(kw=dict(seed=seedval(r))), True),
        "load_dataset": lambda: Call("load_dataset", lambda name: getattr(__import__("importlib").import_module("diff_diff.datasets"), "_construct_" + name + "_data")(), dict(name=opt(r, "card_krueger", "castle_doctrine", "divorce_laws", "mpdta")), True),
    }

# ------------------------------------------------------------------ snapshots
def snap(x, depth=0):
    """a value that equals another snapshot iff the objects are bitwise the same to a caller"""
    if isinstance(x, pd.DataFrame): return ("df", tuple(x.columns), str(list(x.dtypes)), tuple(map(repr, x.index)), tuple(tuple(map(repr, x.iloc[:, i].tolist())) for i in range(x.shape[1])), repr(x.attrs), repr(x.index.names))
    if isinstance(x, pd.Series): return ("s", x.name, str(x.dtype), tuple(map(repr, x.index)), tuple(map(repr, x.tolist())))
    if isinstance(x, np.ndarray): return ("a", x.shape, str(x.dtype), x.tobytes() if x.dtype != object else tuple(map(repr, x.ravel())))
    if isinstance(x, dict): return ("d",) + tuple((repr(k), snap(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)): return (type(x).__name__,) + tuple(snap(v, depth + 1) for v in x)
    if isinstance(x, (set, frozenset)): return ("set",) + tuple(sorted(map(repr, x)))
    if hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x) and depth < 8: return ("o", type(x).__name__, tuple((k, snap(v, depth + 1)) for k, v in sorted(vars(x).items())))
    return ("v", repr(x))
def diff(a, b, path=""):
    if a == b: return ""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y: return diff(x, y, f"{path}/{i}" if not (isinstance(x, tuple) and x and isinstance(x[0], str) and len(x) == 2) else f"{path}/{x[0]}")
    return f"{path}: {str(a)[:80]} -> {str(b)[:80]}"
