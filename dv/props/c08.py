"""C08: multiplier bootstrap weights and statistics are well formed."""
import warnings, math
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D, oracle as O
from .c06 import draw_staggered
from .c07 import build, STRUCT

S3 = math.sqrt(1.5); S1 = math.sqrt(.5); R5 = math.sqrt(5)
DOC = {"rademacher": {-1.0: .5, 1.0: .5}, "mammen": {(1 - R5) / 2: (R5 + 1) / (2 * R5), (1 + R5) / 2: 1 - (R5 + 1) / (2 * R5)},
       "webb": {v: 1 / 6 for v in (-S3, -1.0, -S1, S1, 1.0, S3)}}
GEN = {"unit weights": ("staggered_bootstrap", "_generate_bootstrap_weights"), "batch": ("staggered_bootstrap", "_generate_bootstrap_weights_batch"), "batch (numpy)": ("staggered_bootstrap", "_generate_bootstrap_weights_batch_numpy"),
       "cluster rademacher": ("utils", "_generate_rademacher_weights"), "cluster mammen": ("utils", "_generate_mammen_weights"), "cluster webb": ("utils", "_generate_webb_weights")}

def check_law(g, dist, law):
    """law: value -> probability"""
    doc = DOC[dist]; vs = sorted(law)
    g.ensure("the documented values", len(vs) == len(doc) and all(abs(a - b) < 1e-12 for a, b in zip(vs, sorted(doc))), lambda: f"{vs}")
    g.ensure("the documented probabilities", all(abs(law[a] - doc[b]) < 1e-12 for a, b in zip(vs, sorted(doc))), lambda: f"{law}")
    g.ensure("probabilities add to one, mean zero, variance one", abs(sum(law.values()) - 1) < 1e-12 and abs(sum(v * p for v, p in law.items())) < 1e-12 and abs(sum(v * v * p for v, p in law.items()) - 1) < 1e-12)

@harness("C08", "weight_law", ["staggered_bootstrap._generate_bootstrap_weights", "staggered_bootstrap._generate_bootstrap_weights_batch", "staggered_bootstrap._generate_bootstrap_weights_batch_numpy", "utils._generate_rademacher_weights", "utils._generate_mammen_weights", "utils._generate_webb_weights"], trials=36, deep=300)
def _(g):
    """the values and probabilities requested from the generator are the documented ones with mean zero and variance one, one independent draw per unit (and replicate); unknown names are rejected."""
    which = g.choice("generator", list(GEN)); mod, fn = GEN[which]; f = g.fn(mod, fn)
    dist = which.split()[1] if which.startswith("cluster") else g.choice("distribution", list(DOC))
    n = 7; B = 3; size = (B, n) if which.startswith("batch") else n
    if g.symbolic:
        rng = g.np().random.default_rng(3); got = []
        g.c.cache["rng_hook"] = lambda r, kind, *a: (got.append((kind, *a)), np.zeros(a[1] if kind == "choice" else 1))[1]
        call = lambda rng, d, B, n: f(B, n, d, rng) if which.startswith("batch") else (f(n, rng) if which.startswith("cluster") else f(n, d, rng))
        call(rng, dist, B, n)
        from ..core import Unsupported
        if len(got) != 1 or got[0][0] != "choice" or got[0][3] is not True: raise Unsupported("weights are not drawn by one choice with replacement")
        _, vals, sz, _, p = got[0]; vals = [float(v) for v in np.asarray(vals)]; p = [1 / len(vals)] * len(vals) if p is None else [float(x) for x in p]
        law = {}
        for v, q in zip(vals, p): law[v] = law.get(v, 0) + q
        g.ensure("one draw per unit and replicate", (tuple(sz) if isinstance(sz, (tuple, list)) else sz) == size)
        check_law(g, dist, law)
        g.cover(); return
    rng = np.random.default_rng(g.rng.integers(1 << 30)); n, B = 400, 60
    call = lambda d, rng, B, n: f(B, n, d, rng) if which.startswith("batch") else (f(n, rng) if which.startswith("cluster") else f(n, d, rng))
    if which.startswith("batch"):
        W = np.asarray(call(dist, rng, B, n)); g.ensure("one draw per unit and replicate", W.shape == (B, n))
    else:
        W = [np.asarray(call(dist, rng, B, n)) for _ in range(B)]; g.ensure("one draw per unit", all(w.shape == (n,) for w in W)); W = np.array(W)
    doc = DOC[dist]; vs = np.array(sorted(doc)); k = np.argmin(np.abs(W[..., None] - vs), axis=-1)
    g.ensure("only documented values", float(np.abs(W - vs[k]).max()) < 1e-12)
    N = W.size
    for j, v in enumerate(vs): g.ensure("frequencies match the documented probabilities", abs((k == j).mean() - doc[v]) < 7 * np.sqrt(doc[v] * (1 - doc[v]) / N), lambda: f"{(k == j).mean()} {doc[v]}")
    c = np.corrcoef(W.T[:12]) - np.eye(12); g.ensure("weights of different units are not tied", float(np.abs(c).max()) < .95)
    c = np.corrcoef(W[:12]) - np.eye(12); g.ensure("weights of different replicates are not tied", float(np.abs(c).max()) < .5)
    if not which.startswith("cluster"): g.raises("unknown distribution is rejected", ValueError, lambda: call("normal", rng, B, n))

CLS = {"CallawaySantAnna": ("staggered", "CallawaySantAnna"), "SunAbraham": ("sun_abraham", "SunAbraham")}
@harness("C08", "percentile_interval", ["staggered_bootstrap.CallawaySantAnnaBootstrapMixin._compute_percentile_ci", "sun_abraham.SunAbraham._compute_percentile_ci"], trials=40, deep=300)
def _(g):
    """the interval is the alpha/2 and 1-alpha/2 percentiles of the draws and is ordered, for any number of draws and any level."""
    est = g.fn(*CLS[g.choice("class", list(CLS))])(); ax = g.axis("draws", 2); x = g.vec("d", ax); a = g.pyreal("alpha", 0, 1)
    lo, hi = g.internal(lambda: est._compute_percentile_ci(x, a))
    g.eq("lower end is the alpha/2 percentile", lo, g.np().percentile(x, a / 2 * 100)); g.eq("upper end is the 1-alpha/2 percentile", hi, g.np().percentile(x, (1 - a / 2) * 100))
    g.le("interval is ordered", lo, hi); g.cover()

@harness("C08", "bootstrap_pvalue", ["staggered_bootstrap.CallawaySantAnnaBootstrapMixin._compute_bootstrap_pvalue", "sun_abraham.SunAbraham._compute_bootstrap_pvalue"], trials=60, deep=400)
def _(g):
    """p-value: twice the share of draws on the other side of zero, capped at one, never below 1/(draws+1); any number of draws."""
    k = g.choice("class", list(CLS)); est = g.fn(*CLS[k])(); ax = g.axis("draws", 2); x = g.vec("d", ax); e = g.real("effect")
    n = x.shape[0]; sh = (lambda m: g.sum(m) / n) if g.symbolic else np.mean
    if k == "CallawaySantAnna": p = g.internal(lambda: est._compute_bootstrap_pvalue(e, x, n_valid=n))
    else: est.n_bootstrap = n; p = g.internal(lambda: est._compute_bootstrap_pvalue(e, x))
    one = 1.0
    side = g.ite(e >= 0, g.sum((x <= 0) * one) / n, g.sum((x >= 0) * one) / n)
    want = g.max(g.min(2 * side, 1.0), 1 / (n * one + 1))
    g.eq("tail share", p, want); g.le("at most one", p, 1.0); g.le("at least 1/(B+1)", 1 / (n * one + 1), p)
    g.cover()

@harness("C08", "effect_statistics", ["staggered_bootstrap.CallawaySantAnnaBootstrapMixin._compute_effect_bootstrap_stats", "staggered_bootstrap.CallawaySantAnnaBootstrapMixin._compute_percentile_ci", "staggered_bootstrap.CallawaySantAnnaBootstrapMixin._compute_bootstrap_pvalue"], trials=60, deep=500, bound="non-finite patterns: 4 or 5 draws; all-finite: any number of draws")
def _(g):
    """se is the sample standard deviation (divisor draws-1) of the finite draws, the interval their percentiles at the estimator's level, the p-value their tail share with floor 1/(valid+1); fewer than half finite gives NaN everywhere; any drop is warned about."""
    est = g.fn("staggered", "CallawaySantAnna")(alpha=g.choice("alpha", [.05, .1, .2])); est.n_bootstrap = 50; e = g.real("effect"); one = 1.0
    K, drop = g.choice("draws", [("finite", 0), (4, 1), (4, 2), (4, 3), (4, 4), (5, 2), (5, 3)]); case = K
    if case == "finite": ax = g.axis("draws", 2); x = v = g.vec("d", ax); n = x.shape[0]; drop = 0
    else:
        xs = g.reals("d", K); bad = [math.nan, math.inf, -math.inf]
        x = np.empty(K, dtype=object) if g.symbolic else np.zeros(K)
        for i in range(K): x[i] = bad[i % 3] if i < drop else xs[i]
        v = xs[drop:]; n = K - drop
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always"); se, ci, p = g.internal(lambda: est._compute_effect_bootstrap_stats(e, x, context="x"))
    g.ensure("dropped draws are warned about", bool(w) == (drop > 0))
    if drop and 2 * drop > K: g.nan("undefined statistics", [se, ci[0], ci[1], p]); g.cover(); return
    mean = g.sum(v) / n; dev = g.sum((v - mean) * (v - mean)) / (n - 1)
    g.eq("variance of the draws", se * se, dev); g.le("se is non-negative", 0.0, se)
    q = g.np().percentile; a = est.alpha
    g.eq("interval", [ci[0], ci[1]], [q(v, a / 2 * 100), q(v, (1 - a / 2) * 100)]); g.le("interval is ordered", ci[0], ci[1])
    side = g.ite(e >= 0, g.sum((v <= 0) * one) / n, g.sum((v >= 0) * one) / n)
    g.eq("p-value", p, g.max(g.min(2 * side, 1.0), 1 / (n * one + 1))); g.le("p at most one", p, 1.0); g.le("p at least 1/(B+1)", 1 / (n * one + 1), p)
    g.cover()

@harness("C08", "pairs_statistics", ["sun_abraham.SunAbraham._run_bootstrap", "sun_abraham.SunAbraham._compute_percentile_ci", "sun_abraham.SunAbraham._compute_bootstrap_pvalue"], trials=60, deep=400, timeout=250, bound="three (concrete side: five) replicates, patterns of failing replicates and missing event times; all re-estimates; symbolic side: level 0.1")
def _(g):
    """pairs bootstrap of the event study: replicates that fail or lack an event time give no draw; standard error, interval and p-value of every event time and of the overall effect are those of the remaining draws (divisor draws-1, level percentiles, tail share with floor), NaN when fewer than half remain; the seeded draw is of as many units as there are, with replacement."""
    B = 3 if g.symbolic else 5; alpha = .1 if g.symbolic else g.choice("alpha", [.05, .1, .2]); est = g.fn("sun_abraham", "SunAbraham")(n_bootstrap=B, seed=11, alpha=alpha); rel = [1] if g.symbolic else [-2, 0, 1]; one = 1.0
    fails, lacks = g.choice("failing replicates and replicates without event time 1", [((), (0, 2)), ((1,), ()), ((0, 2), ())] if g.symbolic else [((), ()), ((0, 3), ()), ((1,), (4,)), ((2,), (0, 3)), ((0, 1, 4), ())])
    df = pd.DataFrame([dict(id=f"u{i}", t=t, g=0, y=float(i * t)) for i in (3, 0, 2, 1) for t in (1, 2, 3)]); val = {(b, e): g.real(f"v{b},{e}") for b in range(B) for e in rel + ["o"]}; e0 = {e: g.real(f"e{e}") for e in rel}; o0 = g.real("o"); n, draws, at = df.id.nunique(), [], []
    if g.symbolic: g.c.cache["rng_hook"] = lambda rng, kind, *a: (draws.append((rng.seed, kind, list(a[0]), a[1], a[2])), np.array(["u1", "u0", "u1", "u3"], dtype=object))[1]
    def sat(self, d, *a, **k):
        at.append(d)
        if len(at) - 1 in fails: raise (ValueError if len(at) % 2 else np.linalg.LinAlgError)("no")
        return {}, {}, None, {}
    def iw(self, *a, **k): b = len(at) - 1; return {e: {"effect": val[b, e]} for e in rel if not (e == 1 and b in lacks)}, {}
    g.stub("sun_abraham", "SunAbraham._fit_saturated_regression", sat); g.stub("sun_abraham", "SunAbraham._compute_iw_effects", iw); g.stub("sun_abraham", "SunAbraham._compute_overall_att", lambda self, *a, **k: (val[len(at) - 1, "o"], 1.0))
    r = g.internal(lambda: est._run_bootstrap(df=df, outcome="y", unit="id", time="t", first_treat="g", treatment_groups=[2], rel_periods_to_estimate=rel, covariates=None, cluster_var="id", original_event_study={e: {"effect": v} for e, v in e0.items()}, original_overall_att=o0))
    g.ensure("one re-estimation per replicate", len(at) == B); g.ensure("as many units as in the data", all(d.id.nunique() == n and len(d) == len(df) for d in at))
    if g.symbolic: g.ensure("seeded draws of units with replacement", all(d[0] == 11 and d[1] == "choice" and sorted(d[2]) == ["u0", "u1", "u2", "u3"] and d[3] == n and d[4] is True for d in draws) and len(draws) == B)
    q = g.np().percentile
    for e in rel + ["o"]:
        keep = [b for b in range(B) if b not in fails and not (e == 1 and b in lacks)]; x, (se, ci, p) = (o0 if e == "o" else e0[e]), ((r.overall_att_se, r.overall_att_ci, r.overall_att_p_value) if e == "o" else (r.event_study_ses[e], r.event_study_cis[e], r.event_study_p_values[e]))
        if 2 * len(keep) < B: g.nan("undefined statistics", [se, ci[0], ci[1], p]); continue
        v = np.array([val[b, e] for b in keep], dtype=object if g.symbolic else float); m = len(keep); mean = g.sum(v) / m; g.eq("variance of the draws", se * se, g.sum((v - mean) * (v - mean)) / (m - 1)); g.le("se is non-negative", 0.0, se)
        g.eq("interval", [ci[0], ci[1]], [q(v, alpha / 2 * 100), q(v, (1 - alpha / 2) * 100)]); side = g.ite(x >= 0, g.sum((v <= 0) * one) / m, g.sum((v >= 0) * one) / m)
        g.le("p at most one", p, 1.0); g.le("p at least 1/(B+1)", 1 / (B + one), p); g.eq("p-value", p, g.max(g.min(2 * side, 1.0), 1 / (B + one)))
    ov = list(r.bootstrap_distribution); g.ensure("one value per replicate", len(ov) == B); [g.nan("failed replicate has no value", ov[b]) if b in fails else g.eq("overall draw", ov[b], val[b, "o"]) for b in range(B)]; g.ensure("settings", r.n_bootstrap == B and r.alpha == alpha and r.weight_type == "pairs"); g.cover()

@harness("C08", "multiplier_draws", ["staggered_bootstrap.CallawaySantAnnaBootstrapMixin._run_multiplier_bootstrap", "staggered_bootstrap.CallawaySantAnnaBootstrapMixin._prepare_event_study_aggregation", "staggered_bootstrap.CallawaySantAnnaBootstrapMixin._prepare_group_aggregation"], trials=60, deep=400, timeout=300, bound="three fixed cell/unit structures, two replicates; effects, influence values, cell sizes and bootstrap weights arbitrary")
def _(g):
    """every redrawn cell effect is the estimate plus the weighted influence of its units with one common weight per unit across all cells; aggregates are redrawn with the weights of the point aggregates; every statistic is the one of its own draws and stored under its own key."""
    s = STRUCT[g.choice("structure", list(STRUCT))]; gte, inf = build(g, s); ant = g.choice("anticipation", [0, 1]); agg = g.choice("aggregate", [None, "event_study", "group", "all"]); bal = g.choice("balance_e", [None, 0]) if agg in ("event_study", "all") else None
    B = 2; est = g.fn("staggered", "CallawaySantAnna")(anticipation=ant, n_bootstrap=B, seed=1, alpha=.1, bootstrap_weight_type="mammen")
    units = sorted({u for v in inf.values() for u in v["treated_units"] + v["control_units"]}); W = np.array([list(g.reals(f"W{b}_", len(units))) for b in range(B)])
    asked, stats = [], []
    def weights(nb, nu, typ, rng): asked.append((nb, nu, typ)); return W
    def st(self, effect, dist, context=""):
        k = len(stats); stats.append((effect, dist)); return (("se", k), ("lo", k), ("p", k)) if False else ((1000.0 + k), (2000.0 + k, 3000.0 + k), 4000.0 + k)
    g.stub("staggered_bootstrap", "_generate_bootstrap_weights_batch", weights)
    g.stub("staggered_bootstrap", "CallawaySantAnnaBootstrapMixin._compute_effect_bootstrap_stats", st)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = g.internal(lambda: est._run_multiplier_bootstrap(gte, inf, agg, bal, sorted({c for c, t in gte}), sorted({t for c, t in gte})))
    if asked != [(B, len(units), "mammen")]:
        if len(asked) == 1 and asked[0][:2] == (B, len(units)): g.ensure("weights of the configured distribution", False)
        raise Skip() if not g.symbolic else __import__("dv.core", fromlist=["x"]).Unsupported("weights are drawn differently")
    ix = {u: i for i, u in enumerate(units)}
    cell = {k: [gte[k]["effect"] + sum(W[b, ix[u]] * v for us, vs in ((inf[k]["treated_units"], inf[k]["treated_inf"]), (inf[k]["control_units"], inf[k]["control_inf"])) for u, v in zip(us, vs)) for b in range(B)] for k in gte}
    def comb(ks, w): return sum(x * gte[k]["effect"] for k, x in zip(ks, w)), [sum(x * cell[k][b] for k, x in zip(ks, w)) for b in range(B)]
    def row(name, se, ci, p, effect, draws):
        k = int(se) - 1000
        g.ensure(name + ": statistics come from one set of draws", 0 <= k < len(stats) and tuple(ci) == (2000.0 + k, 3000.0 + k) and p == 4000.0 + k)
        g.eq(name + ": centre", stats[k][0], effect)
        d = stats[k][1]
        for b in range(B): g.eq(name + ": draws", d[b], draws[b])
    for k in gte: row("cell", r.group_time_ses[k], r.group_time_cis[k], r.group_time_p_values[k], gte[k]["effect"], cell[k])
    g.ensure("one entry per cell", set(r.group_time_ses) == set(gte))
    nw = lambda ks: [gte[k]["n_treated"] / sum(gte[q]["n_treated"] * 1.0 for q in ks) for k in ks]
    ks = [k for k in gte if k[1] >= k[0] - ant]; row("overall", r.overall_att_se, r.overall_att_ci, r.overall_att_p_value, *comb(ks, nw(ks)))
    if agg in ("event_study", "all"):
        keep = [k for k in gte if bal is None or any(q[0] == k[0] and q[1] - q[0] == bal for q in gte)]; es = {t - c for c, t in keep}
        g.ensure("one entry per event time", set(r.event_study_ses) == es)
        for e in es:
            q = [k for k in keep if k[1] - k[0] == e]; row("event time", r.event_study_ses[e], r.event_study_cis[e], r.event_study_p_values[e], *comb(q, nw(q)))
    else: g.ensure("no event study unless asked for", r.event_study_ses is None)
    if agg in ("group", "all"):
        for c in {c for c, t in gte}:
            q = [k for k in ks if k[0] == c]
            if not q: g.ensure("no cohort row", c not in r.group_effect_ses); continue
            row("cohort", r.group_effect_ses[c], r.group_effect_cis[c], r.group_effect_p_values[c], *comb(q, [1 / len(q)] * len(q)))
    else: g.ensure("no cohort rows unless asked for", r.group_effect_ses is None)
    g.ensure("settings are reported", r.n_bootstrap == B and r.weight_type == "mammen" and r.alpha == .1)
    g.cover()

@harness("C08", "fit_bootstrap", ["staggered.CallawaySantAnna.fit", "staggered_bootstrap.CallawaySantAnnaBootstrapMixin._run_multiplier_bootstrap"], sym=False, trials=40, deep=400)
def _(g):
    """fit(n_bootstrap=B): reported se, interval and p-value of cells, overall, event times and cohorts equal those recomputed from the unit-level weights that were drawn; t = effect/se; same seed same result; another seed other draws."""
    r = g.rng; df = draw_staggered(r); typ = g.choice("weights", list(DOC)); agg = g.choice("aggregate", ["all", "event_study", "group", None]); alpha = float(r.choice([.05, .1])); B = int(r.choice([60, 120])); ctl = g.choice("control_group", ["never_treated", "not_yet_treated"])
    CS = g.fn("staggered", "CallawaySantAnna"); kw = dict(n_bootstrap=B, seed=int(r.integers(1000)), bootstrap_weight_type=typ, alpha=alpha, control_group=ctl)
    rec = []; orig = g.fn("staggered_bootstrap", "CallawaySantAnnaBootstrapMixin._compute_effect_bootstrap_stats")
    def spy(self, effect, dist, context=""): rec.append((float(effect), np.array(dist, float))); return orig(self, effect, dist, context)
    g.stub("staggered_bootstrap", "CallawaySantAnnaBootstrapMixin._compute_effect_bootstrap_stats", spy)
    fit = lambda **o: CS(**{**kw, **o}).fit(df, "y", "id", "t", "g", aggregate=agg)
    from .c06 import cs_cells
    if not cs_cells(df, ctl, "varying", 0, "dr"): raise Skip()
    a0 = CS(**{**kw, "n_bootstrap": 0}).fit(df, "y", "id", "t", "g", aggregate=agg)
    res = fit(); n = len(rec); res2 = fit()
    def flat(x):
        out = [x.overall_att, x.overall_se, x.overall_t_stat, x.overall_p_value, *x.overall_conf_int]
        for d in (x.group_time_effects, x.event_study_effects or {}, x.group_effects or {}):
            for k in sorted(d): out += [d[k]["effect"], d[k]["se"], d[k]["t_stat"], d[k]["p_value"], *d[k]["conf_int"]]
        return out
    g.eq("same seed, same results", flat(res), flat(res2), rtol=0, atol=0)
    g.eq("point estimates do not depend on the bootstrap", [v for i, v in enumerate(flat(res)) if i % 6 == 0], [v for i, v in enumerate(flat(a0)) if i % 6 == 0])
    br = res.bootstrap_results; g.ensure("settings", br.n_bootstrap == B and br.weight_type == typ and br.alpha == alpha)
    def check(name, o, s, ci, p):
        eff, se, t, pv, c = o
        m = [d for e, d in rec[:n] if abs(e - eff) <= 1e-12 * max(1, abs(eff)) and abs(np.std(d, ddof=1) - se) <= 1e-9 * max(1, se)]
        if np.isnan(se): return
        g.ensure(name + ": se is the sample standard deviation of its draws", bool(m), lambda: f"{eff} {se}")
        ok = [d for d in m if np.allclose(np.percentile(d, [100 * alpha / 2, 100 * (1 - alpha / 2)]), c, atol=1e-9)]
        g.ensure(name + ": interval is the percentiles of its draws", bool(ok))
        sh = min(2 * (np.mean(ok[0] <= 0) if eff >= 0 else np.mean(ok[0] >= 0)), 1.0); g.eq(name + ": p-value is the tail share of its draws", pv, max(sh, 1 / (B + 1)))
        if se > 0: g.eq(name + ": t statistic", t, eff / se)
    tup = lambda d: (d["effect"], d["se"], d["t_stat"], d["p_value"], d["conf_int"])
    check("overall", (res.overall_att, res.overall_se, res.overall_t_stat, res.overall_p_value, res.overall_conf_int), 0, 0, 0)
    for k, d in res.group_time_effects.items(): check("cell", tup(d), 0, 0, 0)
    for k, d in (res.event_study_effects or {}).items():
        if d["n_groups"]: check("event time", tup(d), 0, 0, 0)
    for k, d in (res.group_effects or {}).items(): check("cohort", tup(d), 0, 0, 0)
    if B >= 60 and np.isfinite(res.overall_se) and res.overall_se > 1e-9:
        g.ensure("another seed, other draws", not np.allclose(flat(fit(seed=kw["seed"] + 1)), flat(res), rtol=0, atol=0, equal_nan=True))
        # scale of the draws: variance one weights reproduce the variance of the weighted influence
        for k, d in a0.group_time_effects.items():
            if d["se"] > 1e-6 and d["n_treated"] >= 4 and d["n_control"] >= 4: g.ensure("bootstrap and analytical se are of the same order", .4 < res.group_time_effects[k]["se"] / d["se"] < 1.8, lambda: f"{res.group_time_effects[k]['se']} {d['se']}")
