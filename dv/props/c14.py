"""C14: power, detectable effect and sample size."""
import warnings, math
from types import SimpleNamespace as NS
import numpy as np, pandas as pd
from ..harness import harness
from .. import data as D

CAP = 2**31 - 1
# ---------------------------------------------------------------- specification
def spec_var(sigma, nt, nc, pre, post, rho):
    """variance of the contrast: four group means (two periods); unit averages over T periods with intracluster correlation (panel)"""
    T = pre + post
    if bool(T > 2): return sigma * sigma * (1 / nt + 1 / nc) * (1 + (T - 1) * rho) / T
    return 2 * sigma * sigma * (1 / nt + 1 / nc)
def spec_power(g, x, alpha, alt):
    """rejection probability when the standardised effect is x"""
    z = g.dist("norm", "ppf", 1 - (alpha / 2 if alt == "two-sided" else alpha))
    up, lo = 1 - g.dist("norm", "cdf", z - x), g.dist("norm", "cdf", -z - x)
    return up + lo if alt == "two-sided" else (up if alt == "greater" else lo)
def anderson(g, alpha, a, b):
    """assumed fact about the normal law: an interval symmetric about zero loses mass as it is shifted away: |a| <= |b| implies P(|N+a| <= z) >= P(|N+b| <= z), strictly when strict"""
    if not g.symbolic: return
    z = g.dist("norm", "ppf", 1 - alpha / 2); c = lambda x: g.dist("norm", "cdf", x)
    g.c.notes.add("normal law (Anderson): the mass of an interval symmetric about 0, shifted by x, decreases in |x|")
    acc = lambda x: c(z - x) - c(-z - x)
    g.assume(g.implies(g.and_(z >= 0, g.abs(a) <= g.abs(b)), acc(a) >= acc(b)))
def setup(g, n=""):
    alpha = g.pyreal("alpha", 0, 1); pw = g.pyreal("target", 0, 1); alt = g.choice("alternative", ["two-sided", "greater", "less"])
    return g.fn("power", "PowerAnalysis")(alpha=alpha, power=pw, alternative=alt), alpha, pw, alt
def design(g, tag=""):
    sig = g.pyreal("sigma" + tag, 0, None if g.symbolic else 20); nt = g.int("nt" + tag, 1, None if g.symbolic else 400); nc = g.int("nc" + tag, 1, None if g.symbolic else 400)
    g.assume(sig > 0)
    return (sig, nt, nc) + periods(g)
def periods(g):
    pre = g.int("pre", 1, None if g.symbolic else 6); post = g.int("post", 1, None if g.symbolic else 6); rho = g.pyreal("rho", -1, 1)
    g.assume(1 + (pre + post - 1) * rho > 0)
    return pre, post, rho
def zsum(g, pa): 
    a = pa.alternative == "two-sided"
    return g.dist("norm", "ppf", 1 - (pa.alpha / 2 if a else pa.alpha)) + g.dist("norm", "ppf", pa.target_power)

@harness("C14", "variance", ["power.PowerAnalysis._compute_variance"])
def _(g):
    """the design variance is sigma^2 times the inverse group sizes with the stated two-period and panel factors; unknown designs are rejected."""
    pa = g.fn("power", "PowerAnalysis")(); sig, nt, nc, pre, post, rho = design(g)
    T = pre + post
    v = pa._compute_variance(nt, nc, pre, post, sig, rho, "basic_did"); w = pa._compute_variance(nt, nc, pre, post, sig, rho, "panel")
    g.eq("two periods", v, 2 * sig * sig * (1 / nt + 1 / nc)); g.eq("panel", w, sig * sig * (1 / nt + 1 / nc) * (1 + (T - 1) * rho) / T)
    g.raises("unknown design", ValueError, lambda: pa._compute_variance(nt, nc, pre, post, sig, rho, "other")); g.cover()

@harness("C14", "power", ["power.PowerAnalysis.power", "power.PowerAnalysis._compute_variance", "power.PowerAnalysis.mde", "power.PowerAnalysis._compute_mde_from_se", "power.PowerAnalysis._get_critical_values"], timeout=240)
def _(g):
    """power is the rejection probability at the standardised effect, in [0,1], the level at zero effect; the reported detectable effect is the one of `mde`; every field echoes its argument."""
    pa, alpha, pw, alt = setup(g); sig, nt, nc, pre, post, rho = design(g); d = g.pyreal("effect", -30, 30) if not g.symbolic else g.pyreal("effect")
    if g.symbolic: g.stub("power", "PowerAnalysis._compute_required_n", lambda self, *a, **k: 7)      # its contract: `sample_size`
    r = pa.power(d, nt, nc, sig, pre, post, rho); V = spec_var(sig, nt, nc, pre, post, rho); g.assume(V > 0); se = g.sqrt(V)
    g.eq("power", r.power, spec_power(g, d / se, alpha, alt), rtol=1e-7, atol=1e-12)
    if bool(g.eqz(d)) if hasattr(g, "eqz") else bool(d == 0): g.eq("level at zero effect", r.power, alpha, rtol=1e-9)
    g.ensure("power in [0,1]", g.and_(r.power >= 0, r.power <= 1 + (0 if g.symbolic else 1e-12)))
    g.eq("detectable effect", r.mde, zsum(g, pa) * se, rtol=1e-9)
    for f, v in (("effect_size", d), ("alpha", alpha), ("n_treated", nt), ("n_control", nc), ("n_pre", pre), ("n_post", post), ("sigma", sig), ("rho", rho)): g.eq("echo " + f, getattr(r, f), v)
    g.ensure("echo labels", r.alternative == alt and r.design == ("panel" if bool(pre + post > 2) else "basic_did")); g.cover()

@harness("C14", "level_at_zero", ["power.PowerAnalysis.power"])
def _(g):
    """zero effect: power is exactly the level, for each alternative."""
    pa, alpha, pw, alt = setup(g); sig, nt, nc, pre, post, rho = design(g); g.assume(spec_var(sig, nt, nc, pre, post, rho) > 0)
    if g.symbolic: g.stub("power", "PowerAnalysis._compute_required_n", lambda self, *a, **k: 7)
    g.eq("level at zero effect", pa.power(0.0, nt, nc, sig, pre, post, rho).power, alpha, rtol=1e-9); g.cover()

@harness("C14", "mde_inverts_power", ["power.PowerAnalysis.mde", "power.PowerAnalysis.power"], timeout=240)
def _(g):
    """power at the reported detectable effect (in the direction of the alternative) is the target, plus the far tail when two-sided."""
    pa, alpha, pw, alt = setup(g); sig, nt, nc, pre, post, rho = design(g); V = spec_var(sig, nt, nc, pre, post, rho); g.assume(V > 0)
    if g.symbolic: g.stub("power", "PowerAnalysis._compute_required_n", lambda self, *a, **k: 7)
    r = pa.mde(nt, nc, sig, pre, post, rho); se = g.sqrt(V); z = zsum(g, pa)
    g.eq("detectable effect", r.mde, z * se, rtol=1e-9); g.eq("reports the target power", r.power, pw); g.eq("sample", r.required_n, nt + nc)
    q = pa.power(r.mde if alt != "less" else -r.mde, nt, nc, sig, pre, post, rho)
    g.lemma_eq("standardised detectable effect", r.mde / se, z)
    za = g.dist("norm", "ppf", 1 - (alpha / 2 if alt == "two-sided" else alpha))
    g.eq("power at the detectable effect", q.power, pw + (g.dist("norm", "cdf", -za - z) if alt == "two-sided" else 0), rtol=1e-7, atol=1e-12)
    g.eq("reported detectable effect agrees", q.mde, r.mde); g.cover()

@harness("C14", "required_n", ["power.PowerAnalysis._compute_required_n"], timeout=240)
def _(g):
    """the total is the smallest integer (at least 4) for which real-valued group sizes reach the target; zero effect gives the cap."""
    pa, alpha, pw, alt = setup(g); sig = g.pyreal("sigma", 0, None if g.symbolic else 5); g.assume(sig > 0); pre, post, rho = periods(g); f = g.pyreal("frac", 0, 1)
    g.assume(g.and_(f > 0, f < 1)); d = g.pyreal("effect", None if g.symbolic else -3, None if g.symbolic else 3); z = zsum(g, pa)
    panel = bool(pre + post > 2); T = pre + post
    n = pa._compute_required_n(d, sig, pre, post, rho, "panel" if panel else "basic_did", f)
    if bool(d == 0): g.eq("zero effect", n, CAP); return
    need = sig * sig * z * z * ((1 + (T - 1) * rho) / T if panel else 2) / (d * d * f * (1 - f))
    tol = 0 if g.symbolic else 1e-6 * (1 + abs(need))
    g.ensure("enough", n >= need - tol); g.ensure("not more than needed", g.or_(n < need + 1 + tol, n == 4)); g.ensure("at least four", n >= 4); g.cover()

@harness("C14", "sample_size", ["power.PowerAnalysis.sample_size", "power.PowerAnalysis._compute_required_n", "power.PowerAnalysis.mde"], timeout=400, trials=600, deep=6000)
def _(g):
    """group sizes reach the fraction, and the detectable effect at the reported sample does not exceed the requested effect in magnitude."""
    pa, alpha, pw, alt = setup(g); sig = g.pyreal("sigma", 0, None if g.symbolic else 5); g.assume(sig > 0); pre, post, rho = periods(g); f = g.pyreal("frac", 0, 1)
    g.assume(g.and_(f > 0, f < 1)); d = g.pyreal("effect", None if g.symbolic else -3, None if g.symbolic else 3)
    z = zsum(g, pa); panel = bool(pre + post > 2); T = pre + post; k = ((1 + (T - 1) * rho) / T if panel else 2)
    if g.symbolic:
        g.assume(g.not_(d == 0)); N = g.int("N", 4, CAP - 5); g.stub("power", "PowerAnalysis._compute_required_n", lambda self, *a, **kw: N)   # contract `required_n`
        g.assume(N * (d * d * f * (1 - f)) >= sig * sig * z * z * k)
    else:
        g.assume(abs(d) > 1e-3)
        N = pa._compute_required_n(d, sig, pre, post, rho, "panel" if panel else "basic_did", f); g.assume(N <= CAP - 5)
    r = pa.sample_size(d, sig, pre, post, rho, f)
    g.ensure("treated share", r.n_treated >= N * f - (0 if g.symbolic else 1e-6)); g.ensure("control share", r.n_control >= N * (1 - f) - (0 if g.symbolic else 1e-6))
    g.ensure("not more than needed", g.and_(g.or_(r.n_treated < N * f + 1 + 1e-6, r.n_treated == 2), g.or_(r.n_control < N * (1 - f) + 1 + 1e-6, r.n_control == 2)))
    g.eq("total", r.required_n, r.n_treated + r.n_control)
    nt, nc = r.n_treated * 1.0, r.n_control * 1.0
    V = spec_var(sig, nt, nc, pre, post, rho); g.eq("detectable effect", r.mde, z * g.sqrt(V), rtol=1e-9)
    if g.symbolic:
        u, v = 1 / nt + 1 / nc, 1 / (f * N) + 1 / ((1 - f) * N)
        g.lemma("inverse sizes", g.and_(1 / nt <= 1 / (f * N), 1 / nc <= 1 / ((1 - f) * N))); g.lemma_eq("inverse shares", v, 1 / (N * f * (1 - f)))
        q = g.c.fresh_real("q") if hasattr(g.c, "fresh_real") else None
        g.lemma_eq("variance", V, sig * sig * k * u); g.lemma("sum", u <= 1 / (N * f * (1 - f)))
        A = z * z * sig * sig * k; g.lemma("scaled", A * u <= A / (N * f * (1 - f))); g.lemma("target", A / (N * f * (1 - f)) <= d * d)
        g.lemma_eq("square", r.mde * r.mde, A * u); g.lemma("square is bounded", r.mde * r.mde <= d * d)
    g.le("detectable effect at the reported size is at most the requested effect", r.mde, g.abs(d) * (1 if g.symbolic else 1 + 1e-7))
    m = pa.mde(r.n_treated, r.n_control, sig, pre, post, rho); g.eq("same as mde()", r.mde, m.mde); g.eq("reports the target", r.power, pw); g.eq("echo", r.effect_size, d); g.cover()

def monotone(g, alt):
    """power grows with the effect in the direction of the alternative, with either sample size and with the level, and falls with noise."""
    alpha = g.pyreal("alpha", 0, 1); PA = g.fn("power", "PowerAnalysis")
    sig, nt, nc, pre, post, rho = design(g); d = g.pyreal("effect", None if g.symbolic else -9, None if g.symbolic else 9)
    if alt == "greater": g.assume(d >= 0)
    elif alt == "less": g.assume(d <= 0)
    what = g.choice("what", ["effect", "treated", "control", "level", "noise"])
    if g.symbolic: g.stub("power", "PowerAnalysis._compute_required_n", lambda self, *a, **k: 7)
    d2, nt2, nc2, sig2, a2 = d, nt, nc, sig, alpha
    if what == "effect": d2 = d * (1 + g.pyreal("more", 0, 5))
    elif what == "treated": nt2 = nt + g.int("more", 0, None if g.symbolic else 300)
    elif what == "control": nc2 = nc + g.int("more", 0, None if g.symbolic else 300)
    elif what == "noise": sig2 = sig / (1 + g.pyreal("less", 0, 5))
    else: a2 = g.pyreal("alpha2", 0, 1); g.assume(a2 >= alpha)
    V, V2 = spec_var(sig, nt, nc, pre, post, rho), spec_var(sig2, nt2, nc2, pre, post, rho); g.assume(V > 0); g.assume(V2 > 0)
    p, q = PA(alpha=alpha, alternative=alt).power(d, nt, nc, sig, pre, post, rho).power, PA(alpha=a2, alternative=alt).power(d2, nt2, nc2, sig2, pre, post, rho).power
    s, s2 = g.sqrt(V), g.sqrt(V2); x, x2 = d / s, d2 / s2
    if g.symbolic:
        if what in ("treated", "control"): g.lemma("inverse size", (1 / nt2 <= 1 / nt) if what == "treated" else (1 / nc2 <= 1 / nc))
        if what in ("treated", "control"): g.lemma("inverse sizes", 1 / nt2 + 1 / nc2 <= 1 / nt + 1 / nc)
        if what == "noise": g.lemma("noise", sig2 <= sig); g.lemma("noise squared", sig2 * sig2 <= sig * sig)
        if what not in ("level", "effect"):
            T = pre + post; k = (1 + (T - 1) * rho) / T if bool(T > 2) else 2
            g.lemma_eq("variance factor", V, sig * sig * (1 / nt + 1 / nc) * k); g.lemma_eq("variance factor", V2, sig2 * sig2 * (1 / nt2 + 1 / nc2) * k)
            g.lemma("factor is positive", k > 0)
            g.lemma("product", sig2 * sig2 * (1 / nt2 + 1 / nc2) <= sig * sig * (1 / nt + 1 / nc))
            g.lemma("variance falls", V2 <= V); g.lemma("standard error falls", s2 <= s)
        if what != "level": g.lemma("standardised effect grows", g.abs(x) <= g.abs(x2)); anderson(g, alpha, x, x2)
    g.le("power", p, q, tol=1e-10); g.cover()

for _alt in ("two-sided", "greater", "less"):
    harness("C14", "monotone_" + _alt.replace("-", "_"), ["power.PowerAnalysis.power", "power.PowerAnalysis._compute_variance"], timeout=300, trials=150)((lambda a: lambda g: monotone(g, a))(_alt))

@harness("C14", "wrappers", ["power.compute_power", "power.compute_mde", "power.compute_sample_size", "power.PowerAnalysis.__init__"])
def _(g):
    """the convenience functions return the field of the class call with the same arguments; invalid levels, targets and alternatives are rejected."""
    P = g.mod("power"); PA = P.PowerAnalysis; alpha = g.pyreal("alpha", 0, 1); pw = g.pyreal("target", 0, 1); sig, nt, nc, pre, post, rho = design(g); d = g.pyreal("effect", None if g.symbolic else -5, None if g.symbolic else 5); f = g.pyreal("frac", .1, .9)
    if g.symbolic:
        N = g.int("N", 4, 10**6); g.stub("power", "PowerAnalysis._compute_required_n", lambda self, *a, **k: N)
    g.assume(spec_var(sig, nt, nc, pre, post, rho) > 0); g.assume(g.not_(d == 0))
    g.eq("compute_power", P.compute_power(d, nt, nc, sig, alpha, pre, post, rho), PA(alpha=alpha).power(d, nt, nc, sig, pre, post, rho).power)
    g.eq("compute_mde", P.compute_mde(nt, nc, sig, pw, alpha, pre, post, rho), PA(alpha=alpha, power=pw).mde(nt, nc, sig, pre, post, rho).mde)
    g.eq("compute_sample_size", P.compute_sample_size(d, sig, pw, alpha, pre, post, rho, f), PA(alpha=alpha, power=pw).sample_size(d, sig, pre, post, rho, f).required_n)
    for bad in (0, 1, -.1, 1.5):
        g.raises(f"alpha {bad}", ValueError, lambda: PA(alpha=bad)); g.raises(f"power {bad}", ValueError, lambda: PA(power=bad))
    g.raises("alternative", ValueError, lambda: PA(alternative="both")); g.cover()

@harness("C14", "curves", ["power.PowerAnalysis.power_curve", "power.PowerAnalysis.sample_size_curve"], sym=False, trials=60, deep=600)
def _(g):
    """every row of a power curve is the power of a separate call; sample-size rows split n by the fraction, minimum two per group."""
    pa, alpha, pw, alt = setup(g); sig, nt, nc, pre, post, rho = design(g); d = g.pyreal("effect", .2, 5); f = g.pyreal("frac", .05, .95)
    es = None if g.choice("grid", [0, 1]) else [g.pyreal(f"e{i}", -9, 9) for i in range(4)]
    c = pa.power_curve(nt, nc, sig, es, pre, post, rho)
    if es is not None: g.ensure("effects", list(c.effect_size) == es)
    else: g.eq("default grid starts at zero effect", c.effect_size.iloc[0], 0.0); g.eq("default grid ends", c.effect_size.iloc[-1], 2.5 * pa.mde(nt, nc, sig, pre, post, rho).mde)
    for _, r in c.iterrows(): g.eq("row", r.power, pa.power(r.effect_size, nt, nc, sig, pre, post, rho).power)
    ns = None if g.choice("sizes", [0, 1]) else [g.int(f"n{i}", 4, 500) for i in range(4)]
    c = pa.sample_size_curve(d, sig, ns, pre, post, rho, f)
    if ns is not None: g.ensure("sizes", list(c.sample_size) == ns)
    g.ensure("rows", len(c) > 0)
    for _, r in c.iterrows():
        a = max(2, int(r.sample_size * f)); g.eq("row", r.power, pa.power(d, a, max(2, int(r.sample_size) - a), sig, pre, post, rho).power)
    g.cover()

def fake(name, fit): return type(name, (), {"fit": fit})()
@harness("C14", "simulated_power", ["power.simulate_power"], timeout=400, trials=80, deep=600, bound="three simulations per effect")
def _(g):
    """simulated power is the share of successful fits with p below the level; mean, spread, mean standard error and coverage are those of the same fits; each simulation gets its own seed from the seeded generator."""
    kind = g.choice("estimator", ["Other", "DifferenceInDifferences", "TwoWayFixedEffects", "MultiPeriodDiD"]); alpha = g.pyreal("alpha", 0, 1)
    fails = g.choice("failing simulation", [None, 1]); eff = g.pyreal("effect", -5, 5); two = g.choice("effects", [1, 2]); R = []; calls = []
    for i in range(3 * two):
        e, s, p = g.real(f"e{i}"), g.real(f"s{i}", 0), g.real(f"p{i}", 0, 1); lo = g.real(f"lo{i}"); hi = lo + g.real(f"w{i}", 0); R.append((e, s, p, lo, hi))
    class Fail(Exception): pass
    def fit(self, data, **k):
        calls.append((data, k)); i = len(calls) - 1
        if fails is not None and i % 3 == fails: raise Fail("x")
        e, s, p, lo, hi = R[i]; q = "avg_" if kind == "MultiPeriodDiD" else ""
        return NS(**{q + "att": e, q + "se": s, q + "p_value": p, q + "conf_int": (lo, hi)})
    gen = lambda **k: k
    seeds = [11, 22, 33, 44, 55, 66]; reqs = []
    if g.symbolic:
        def hook(rng, *rec): reqs.append((rng.seed, rec)); return seeds[len(reqs) - 1]
        g.c.cache["rng_hook"] = hook
    effs = [eff] if two == 1 else [eff + 10, eff]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = g.fn("power", "simulate_power")(fake(kind, fit), n_units=40, n_periods=5, treatment_effect=eff, treatment_fraction=.3, treatment_period=3, sigma=2.5, n_simulations=3, alpha=alpha, effect_sizes=None if two == 1 else effs, seed=77, data_generator=gen, data_generator_kwargs={"extra": "E"}, estimator_kwargs={"opt": "O"}, progress=False)
    g.ensure("one fit per simulation", len(calls) == 3 * two)
    if g.symbolic: g.ensure("one generator", all(s == 77 and q[0] == "integers" for s, q in reqs) and len(reqs) == 3 * two); want = seeds
    else: rng = np.random.default_rng(77); want = [rng.integers(0, 2**31) for _ in range(6)]
    for i, (dta, k) in enumerate(calls):
        g.eq("simulated effect", dta["treatment_effect"], effs[i // 3])
        g.ensure("generator arguments", {q: v for q, v in dta.items() if q not in ("treatment_effect", "seed")} == dict(n_units=40, n_periods=5, treatment_fraction=.3, treatment_period=3, noise_sd=2.5, extra="E") and dta["seed"] == want[i])
        base = dict(outcome="outcome", treatment="treated", opt="O")
        base.update({"TwoWayFixedEffects": dict(time="period", unit="unit"), "MultiPeriodDiD": dict(time="period", post_periods=[3, 4])}.get(kind, dict(time="post")))
        g.ensure("fit arguments", k == base)
    ok = [i for i in range(3) if i != fails]; n = len(ok)
    share = lambda j: sum(g.ite(R[3 * j + i][2] < alpha, 1.0, 0.0) for i in ok) / n
    for j in range(two): g.eq("share of rejections", r.powers[j], share(j))
    j = two - 1; X = [R[3 * j + i] for i in ok]
    g.eq("power", r.power, share(j)); g.eq("rejection rate", r.rejection_rate, share(j)); g.eq("primary effect", r.true_effect, eff); g.ensure("count", r.n_simulations == n)
    m = sum(x[0] for x in X) / n; g.eq("mean estimate", r.mean_estimate, m); g.eq("spread", r.std_estimate, g.sqrt(sum((x[0] - m) * (x[0] - m) for x in X) / (n - 1)))
    g.eq("mean standard error", r.mean_se, sum(x[1] for x in X) / n)
    g.eq("coverage", r.coverage, sum(g.ite(g.and_(x[3] <= eff, eff <= x[4]), 1.0, 0.0) for x in X) / n)
    pse = g.sqrt(share(j) * (1 - share(j)) / n); g.eq("binomial standard error", r.power_se, pse)
    g.ensure("interval is in [0,1] and contains the power", g.and_(r.power_ci[0] >= 0, r.power_ci[1] <= 1, r.power_ci[0] <= r.power, r.power <= r.power_ci[1]))
    g.ensure("per-simulation records", len(r.simulation_results) == n)
    for q, x in zip(r.simulation_results, X): g.eq("record", q["estimate"], x[0]); g.eq("record", q["se"], x[1]); g.eq("record", q["p_value"], x[2])
    g.cover()

@harness("C14", "simulated_end_to_end", ["power.simulate_power"], sym=False, trials=4, deep=30, timeout=300)
def _(g):
    """with real estimators: rejections are those of refitting data regenerated from the same seeds; equal seeds give equal results."""
    dd = g.mod("power"); import diff_diff as dl
    from diff_diff.prep import generate_did_data
    nm = g.choice("estimator", ["DifferenceInDifferences", "TwoWayFixedEffects", "MultiPeriodDiD", "CallawaySantAnna"]); s = g.int("seed", 0, 10**6); K = 6
    kw = dict(n_units=30, n_periods=4, treatment_effect=g.pyreal("effect", 0, 2), treatment_period=2, sigma=1.0, n_simulations=K, seed=s, progress=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = dd.simulate_power(getattr(dl, nm)(), **kw); b = dd.simulate_power(getattr(dl, nm)(), **kw)
        g.ensure("same seed, same answer", a.simulation_results == b.simulation_results)
        rng = np.random.default_rng(s)
        for q in a.simulation_results:
            df = generate_did_data(n_units=30, n_periods=4, treatment_effect=kw["treatment_effect"], treatment_fraction=.5, treatment_period=2, noise_sd=1.0, seed=rng.integers(0, 2**31)); e = getattr(dl, nm)()
            if nm == "DifferenceInDifferences": z = e.fit(df, "outcome", "treated", "post"); v = z.att, z.se, z.p_value
            elif nm == "TwoWayFixedEffects": z = e.fit(df, "outcome", "treated", "period", "unit"); v = z.att, z.se, z.p_value
            elif nm == "MultiPeriodDiD": z = e.fit(df, "outcome", "treated", "period", post_periods=[2, 3]); v = z.avg_att, z.avg_se, z.avg_p_value
            else:
                df["first_treat"] = np.where(df.treated == 1, 2, 0); z = e.fit(df, "outcome", "unit", "period", "first_treat"); v = z.overall_att, z.overall_se, z.overall_p_value
            g.eq("estimate", q["estimate"], v[0]); g.eq("se", q["se"], v[1]); g.eq("p", q["p_value"], v[2])
        g.eq("power", a.power, np.mean([q["p_value"] < .05 for q in a.simulation_results]))
    g.cover()
