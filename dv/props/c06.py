"""C06: group-time effects compare a cohort with valid controls only."""
import warnings
from types import SimpleNamespace as NS
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D, oracle as O

def change_spec(g, t, c, method):
    """effect, variance and signed influence values of one cell without covariates"""
    nt, nc = t.shape[0], c.shape[0]
    mt, mc = t.mean(), c.mean(); st, sc = g.devsq(t), g.devsq(c)
    vt = st / (nt - 1) if nt > 1 else 0.0; vc = sc / (nc - 1) if nc > 1 else 0.0
    return mt - mc, vt / nt + vc / nc, (t - mt) / nt, (c - mc) / nc * -1

@harness("C06", "cell_kernels", ["staggered.CallawaySantAnna._outcome_regression", "staggered.CallawaySantAnna._ipw_estimation", "staggered.CallawaySantAnna._doubly_robust"], trials=90, deep=900)
def _(g):
    """one cell without covariates, any number of treated and comparison units: effect is the difference of mean changes; variance var_t/n_t + var_c/n_c; influence values are the signed deviations over the group size and sum to zero in each group."""
    a, b = g.axis("treated", 1, 12), g.axis("controls", 1, 12); t, c = g.vec("dt", a), g.vec("dc", b)
    m = g.choice("method", ["reg", "ipw", "dr"]); est = g.fn("staggered", "CallawaySantAnna")(estimation_method=m)
    nt, nc = t.shape[0], c.shape[0]
    att, se, inf = g.internal(lambda: {"reg": lambda: est._outcome_regression(t, c), "ipw": lambda: est._ipw_estimation(t, c, nt, nc), "dr": lambda: est._doubly_robust(t, c)}[m]())
    att0, var, it, ic = change_spec(g, t, c, m)
    g.eq("effect is the difference of mean changes", att, att0)
    g.le("variance is non-negative", 0.0, var); g.eq("squared standard error", se * se, var); g.le("standard error is non-negative", 0.0, se)
    g.eq("influence of treated units", inf[:nt], it); g.eq("influence of comparison units", inf[nt:], ic)
    g.eq("influence sums to zero among treated", g.sum(inf[:nt]), 0.0); g.eq("influence sums to zero among comparison units", g.sum(inf[nt:]), 0.0)
    g.cover()

@harness("C06", "adjusted_kernels", ["staggered.CallawaySantAnna._outcome_regression", "staggered.CallawaySantAnna._ipw_estimation", "staggered.CallawaySantAnna._doubly_robust"], conc=False, bound="two covariates; any number of treated and comparison units (at least two each)", timeout=200)
def _(g):
    """one cell with covariates, any number of units, whatever the outcome regression and the propensity scores are (both by contract: coefficients with normal equations; scores strictly between 0 and 1): the effect is that of the method, its variance the sum over the two groups, the influence values the matching signed ones."""
    a, b = g.axis("treated", 2), g.axis("controls", 2); t, c = g.vec("dt", a), g.vec("dc", b); m = g.choice("method", ["reg", "ipw", "dr"]); P = g.np()
    Xt, Xc = [g.vec(f"xt{i}", a) for i in range(2)], [g.vec(f"xc{i}", b) for i in range(2)]; beta = g.reals("beta", 3); pt, pc = g.vec("pt", a), g.vec("pc", b); nt, nc = t.shape[0], c.shape[0]
    g.stub("staggered", "_logistic_regression", lambda X, y, *k, **q: (None, P.concatenate([pt, pc])))
    mt, mc = (beta[0] + beta[1] * x[0] + beta[2] * x[1] for x in (Xt, Xc))
    def regress(X, y, *k, **q): return P.array(list(beta)), y - mc
    g.stub("staggered", "_linear_regression", regress)
    est = g.fn("staggered", "CallawaySantAnna")(estimation_method=m); A = dict(X_treated=P.column_stack(Xt), X_control=P.column_stack(Xc))
    att, se, inf = g.internal(lambda: {"reg": lambda: est._outcome_regression(t, c, **A), "ipw": lambda: est._ipw_estimation(t, c, nt, nc, **A), "dr": lambda: est._doubly_robust(t, c, **A)}[m]())
    q = P.clip(pc, .01, .99); w = q / (1 - q)
    if m == "reg":
        u, v = t - mt, c - mc; g.eq("outcome regression effect", att, u.mean()); g.eq("outcome regression variance", se * se, g.devsq(u) / (nt - 1) / nt + g.devsq(v) / (nc - 1) / nc); it, ic = (u - u.mean()) / nt, v / nc * -1
    if m == "ipw":
        W = g.sum(w); mean = g.sum(w * c) / W; r = w / W * (c - mean); g.eq("weighted effect", att, t.mean() - mean); g.eq("weighted variance", se * se, g.devsq(t) / (nt - 1) / nt + g.sumsq(r)); it, ic = (t - t.mean()) / nt, r * -1
    if m == "dr":
        at = (t - mt).mean() + g.sum(w * (mc - c)) / nt; it, ic = (t - mt - at) / nt, w * (mc - c) / nt; g.eq("doubly robust effect", att, at); g.eq("doubly robust variance", se * se, g.sumsq(it) + g.sumsq(ic))
    g.eq("influence of treated units", inf[:nt], it); g.eq("influence of comparison units", inf[nt:], ic); g.le("standard error is non-negative", 0.0, se)
    g.cover()

def logit_kernel(g, mod):
    """whatever point the optimiser stops at: it minimises minus the log-likelihood of the intercept-and-covariates logit from zero, its gradient is minus X'(y - p), and the coefficients and scores returned are those of that point, strictly between 0 and 1"""
    from ..shims import lib_hook; from ..core import Unsupported
    n, k = 3, g.choice("covariates", [1, 2]); x = [[g.real(f"x{i}{j}") for j in range(k)] for i in range(n)]; y = [1.0, 0.0, g.choice("last outcome", [0.0, 1.0])]; b, c = g.reals("b", k + 1), g.reals("c", k + 1); A = lambda v: np.array(v, dtype=object); calls = []
    z = lambda q, i: q[0] + sum(q[1 + j] * x[i][j] for j in range(k))
    for q in (b, c):
        for i in range(n): g.assume(z(q, i) <= 500); g.assume(z(q, i) >= -500)
    p = lambda q, i: 1 / (1 + g.exp(-z(q, i)))
    def minimize(fun, x0, *a, jac=None, **kw):
        calls.append(1); g.ensure("starts from zero", len(x0) == k + 1 and all(bool(v == 0) for v in x0))
        if not callable(jac): raise Unsupported("no gradient function")
        g.eq("minus the log-likelihood", fun(A(c)), -sum(y[i] * z(c, i) - g.np().log(1 + g.exp(z(c, i))) for i in range(n))); r = jac(A(c)); g.ensure("one gradient entry per coefficient", len(r) == k + 1)
        for j in range(k + 1): g.eq("gradient", r[j], -sum((x[i][j - 1] if j else 1.0) * (y[i] - p(c, i)) for i in range(n)))
        return NS(x=A(b), success=True, fun=0.0, message="", nit=1)
    lib_hook("scipy.optimize.minimize", minimize); beta, pr = g.fn(mod, "_logistic_regression")(A(x), A(y))
    if len(calls) != 1: raise Unsupported("another way of fitting")
    for j in range(k + 1): g.eq("coefficients of the minimiser", beta[j], b[j])
    for i in range(n): g.eq("score", pr[i], p(b, i)); g.ensure("score strictly between 0 and 1", g.and_(pr[i] > 0, pr[i] < 1))
    g.cover()
@harness("C06", "logit_kernel", ["staggered._logistic_regression"], conc=False, bound="three rows, one or two covariates; all values with linear predictors within 500 (the overflow clip)")
def _(g):
    """whatever point the optimiser stops at: it is asked to minimise minus the log-likelihood of the intercept-and-covariates logit from zero with its gradient -X'(y - p); the coefficients and scores returned are those of that point, strictly between 0 and 1."""
    logit_kernel(g, "staggered")

PER = [1, 2, 3, 4, 5]; COH = [0, 2, 3, 6]
@harness("C06", "cell", ["staggered.CallawaySantAnna._compute_att_gt_fast"], conc=False, bound="five periods, cohorts 0, 2, 3, 6; any number of units", timeout=400)
def _(g):
    """choice of base period and comparison units: the cell (g, t) is handed to the chosen estimation method (by its contract, see cell_kernels) with exactly the outcome changes from base to t of the cohort and of the units never treated or (not-yet-treated) of other cohorts first treated after max(t, base)+anticipation; effect, se, counts, units and influence values are those of that cell; cells with unobserved base are omitted."""
    n = g.axis("units", 1); coh, I = g.codes("first_treat", n, COH); Y = g.np().column_stack([g.vec(f"y{p}", n) for p in PER]); ids = g.vec("ids", n)
    control = g.choice("control_group", ["never_treated", "not_yet_treated"]); ant = g.choice("anticipation", [0, 1]); base = g.choice("base_period", ["varying", "universal"])
    c = g.choice("cohort", [2, 3, 6]); t = g.choice("t", PER); method = "reg"
    if c == 3: method = g.choice("method", ["reg", "ipw", "dr"])
    calls = []
    def contract(name):
        def f(tr, co, *a, **k):
            calls.append(name); att = tr.mean() - co.mean(); nt, nc = tr.shape[0], co.shape[0]
            f.se = g.real("se")
            return att, f.se, g.np().concatenate([(tr - tr.mean()) / nt, (co - co.mean()) / nc * -1])
        return lambda self, *a, **k: f(*a, **k), f
    fs = {}
    for nm, path in (("reg", "_outcome_regression"), ("ipw", "_ipw_estimation"), ("dr", "_doubly_robust")):
        s, fs[nm] = contract(nm); g.stub("staggered", "CallawaySantAnna." + path, s)
    est = g.fn("staggered", "CallawaySantAnna")(control_group=control, anticipation=ant, base_period=base, estimation_method=method)
    pre = dict(all_units=ids, unit_to_idx=None, unit_cohorts=coh, outcome_matrix=Y, period_to_col={p: i for i, p in enumerate(PER)}, cohort_masks={k: coh == k for k in (2, 3, 6)},
               never_treated_mask=coh == 0, covariate_by_period=None, time_periods=PER)
    r = g.internal(lambda: est._compute_att_gt_fast(pre, c, t, None))
    b = c - 1 - ant if base == "universal" or t >= c - ant else t - 1
    if b not in PER: g.ensure("cell with an unobserved base period is omitted", r[0] is None); return
    ok = [0] + ([k for k in (2, 3, 6) if k != c and k > max(t, b) + ant] if control == "not_yet_treated" else [])
    T = I[COH.index(c)]; C = sum([I[COH.index(k)] for k in ok[1:]], I[0])
    dy = Y[:, PER.index(t)] - Y[:, PER.index(b)]
    nt, nc = g.sum(T), g.sum(C)
    g.ensure("cell is reported", r[0] is not None)
    g.ensure("the chosen method is used", calls == [method])
    mt, mc = g.sum(T * dy) / nt, g.sum(C * dy) / nc
    g.eq("effect is the difference of mean changes", r[0], mt - mc); g.eq("standard error is that of the method", r[1], fs[method].se)
    g.eq("treated count", r[2], nt); g.eq("comparison count", r[3], nc)
    info = r[4]
    g.eq("influence of treated units sums to zero", g.sum(info["treated_inf"] * 1.0), 0.0); g.eq("influence of comparison units sums to zero", g.sum(info["control_inf"] * 1.0), 0.0)
    # the listed units are exactly the units of the cell, each with its own influence value
    g.eq("treated units", g.sum(info["treated_units"] * info["treated_inf"]), g.sum(T * ids * (dy - mt)) / nt)
    g.eq("comparison units", g.sum(info["control_units"] * info["control_inf"]), -1 * g.sum(C * ids * (dy - mc)) / nc)
    g.cover()

# ------------------------------------------------------------------ concrete stand-ins: the whole fit against an independent computation
def draw_staggered(r, cov=0, missing=True, small=False):
    T = int(r.integers(3, 8)); t0 = int(r.choice([0, 1, 2000, -3])); step = 1 if r.random() < .85 else 2
    times = [t0 + step * i for i in range(T)]
    cand = [t for t in times + [times[-1] + 1, times[-1] + 3, times[0] - 1] if t > 0]
    if not cand: raise Skip()
    k = int(r.integers(1, min(4, len(cand)) + 1)); cohorts = sorted(r.choice(cand, size=k, replace=False).tolist())
    rows = []; u = 0
    never = [0.0, np.inf]; mix = r.random()
    for c in cohorts + [0]:
        for _ in range(int(r.integers(1, 5)) + (cov * 4 + 4 if cov else 0) + (2 if c == 0 else 0)):
            a = r.normal() * 3; x = r.normal(size=3); ft = c if c else (0.0 if mix < .4 else np.inf if mix < .7 else never[int(r.integers(2))])
            for i, t in enumerate(times):
                eff = (1 + .4 * (t - c)) if c and t >= c else 0
                rows.append((u, t, ft, a + .3 * i * (1 + .2 * (c or 0) % 3) + eff + r.normal(), x[0], x[1] + .1 * i, x[2]))
            u += 1
    df = pd.DataFrame(rows, columns=["id", "t", "g", "y", "x0", "x1", "x2"])
    if missing and r.random() < .5: df = df[r.random(len(df)) < .9]
    if missing and r.random() < .4: df.loc[r.random(len(df)) < .06, "y"] = np.nan
    if not np.isinf(df.g).any() and r.random() < .5: df["g"] = df.g.astype(int)
    m = int(r.integers(4))
    if m == 1: df["id"] = ["u%03d" % (991 - 3 * i) for i in df.id]
    if m == 2: df["id"] = 100 - 7 * df.id
    if r.random() < .6: df = df.sample(frac=1, random_state=int(r.integers(1 << 30)))
    if r.random() < .4: df = df.reset_index(drop=True)
    if not ((df.g == 0) | np.isinf(df.g)).any(): raise Skip()
    return df

def cs_cells(df, control, base, ant, method="dr"):
    """independent group-time effects: {(g, t): dict(effect, se, nt, nc, inf={unit: value})}"""
    w = df.pivot(index="id", columns="t", values="y"); co = df.groupby("id").g.first().loc[w.index].to_numpy(float)
    times = sorted(df.t.unique()); out = {}
    for c in sorted(x for x in set(co) if x > 0 and np.isfinite(x)):
        for t in times:
            if base == "universal" and t == c - 1 - ant: continue
            if base == "varying" and t < c - ant and t == times[0]: continue
            b = c - 1 - ant if (base == "universal" or t >= c - ant) else t - 1
            if b not in times: continue
            ok = (w[t].notna() & w[b].notna()).to_numpy(); dy = (w[t] - w[b]).to_numpy()
            never = (co == 0) | np.isinf(co)
            ctl = never if control == "never_treated" else never | ((co != c) & (co > max(t, b) + ant))
            T, C = (co == c) & ok, ctl & ok
            if not T.any() or not C.any(): continue
            nt, nc = T.sum(), C.sum()
            vt = dy[T].var(ddof=1) if nt > 1 else 0.0; vc = dy[C].var(ddof=1) if nc > 1 else 0.0
            inf = {}
            for u, v in zip(w.index[T], (dy[T] - dy[T].mean()) / nt): inf[u] = v
            for u, v in zip(w.index[C], -(dy[C] - dy[C].mean()) / nc): inf[u] = v
            out[c, t] = dict(effect=dy[T].mean() - dy[C].mean(), se=np.sqrt(vt / nt + vc / nc), nt=nt, nc=nc, inf=inf, T=list(w.index[T]), C=list(w.index[C]))
    return out

@harness("C06", "fit", ["staggered.CallawaySantAnna.fit", "staggered.CallawaySantAnna._precompute_structures", "staggered.CallawaySantAnna._compute_att_gt_fast"], sym=False, trials=220, deep=2500)
def _(g):
    """group-time table of fit: exactly the cells of the definition with their effect, se, t, p, interval and counts (unbalanced and missing data, 0 and infinity codes, string or unordered unit labels, gaps in time, anticipation, any method)."""
    r = g.rng; df = draw_staggered(r); before = df.copy()
    control = g.choice("control_group", ["never_treated", "not_yet_treated"]); base = g.choice("base_period", ["varying", "universal"]); m = g.choice("method", ["reg", "ipw", "dr"])
    ant = int(r.choice([0, 0, 1, 2])); alpha = float(r.choice([.05, .1, .01]))
    want = cs_cells(df, control, base, ant, m)
    est = g.fn("staggered", "CallawaySantAnna")(control_group=control, base_period=base, anticipation=ant, estimation_method=m, alpha=alpha)
    kw = dict(outcome="y", unit="id", time="t", first_treat="g")
    if not want: g.raises("no estimable cell is an error", ValueError, lambda: est.fit(df, **kw)); return
    res = est.fit(df, **kw)
    g.ensure("cells", set(res.group_time_effects) == set(want), lambda: f"extra {sorted(set(res.group_time_effects) - set(want))} missing {sorted(set(want) - set(res.group_time_effects))}")
    for k, w in want.items():
        e = res.group_time_effects[k]
        g.eq(f"effect", e["effect"], w["effect"], rtol=1e-8, atol=1e-8); g.eq("se", e["se"], w["se"], rtol=1e-8, atol=1e-8)
        g.eq("counts of the cell", [e["n_treated"], e["n_control"]], [w["nt"], w["nc"]])
        if w["se"] > 1e-12:
            t, p, ci = O.inference(w["effect"], w["se"], None, alpha); g.eq("t, p, interval", [e["t_stat"], e["p_value"], *e["conf_int"]], [t, p, *ci], rtol=1e-6, atol=1e-9)
        elif e["se"] == 0: g.nan("t is undefined without a standard error", e["t_stat"])
    first = df.groupby("id").g.first(); tr = ((first > 0) & np.isfinite(first)).sum()
    g.eq("unit counts", [res.n_treated_units, res.n_control_units, res.n_obs], [tr, len(first) - tr, len(df)])
    g.eq("groups", list(res.groups), sorted(x for x in set(df.g) if x > 0 and np.isfinite(x))); g.eq("periods", list(res.time_periods), sorted(set(df.t)))
    g.ensure("data untouched", df.equals(before))

@harness("C06", "influence", ["staggered.CallawaySantAnna._compute_att_gt_fast", "staggered.CallawaySantAnna.fit"], sym=False, trials=120, deep=900)
def _(g):
    """the influence values of every cell, caught at the aggregation interface, are those of its own units, sum to zero within the groups, and (for one group of any size) give the reported variance up to the n/(n-1) factor."""
    r = g.rng; df = draw_staggered(r); control = g.choice("control_group", ["never_treated", "not_yet_treated"]); base = g.choice("base_period", ["varying", "universal"]); m = g.choice("method", ["reg", "ipw", "dr"]); ant = int(r.choice([0, 0, 1]))
    want = cs_cells(df, control, base, ant, m)
    if not want: raise Skip()
    seen = {}
    cls = g.fn("staggered", "CallawaySantAnna"); old = g.fn("staggered", "CallawaySantAnna._aggregate_simple")
    def spy(self, gte, infl, *a, **k): seen.update(infl); return old(self, gte, infl, *a, **k)
    g.stub("staggered", "CallawaySantAnna._aggregate_simple", spy)
    cls(control_group=control, base_period=base, anticipation=ant, estimation_method=m).fit(df, "y", "id", "t", "g")
    if not seen: raise Skip()
    for k, w in want.items():
        q = g.internal(lambda: (list(seen[k]["treated_units"]), list(seen[k]["control_units"]), np.asarray(seen[k]["treated_inf"]), np.asarray(seen[k]["control_inf"])))
        g.ensure("treated units of the cell", sorted(map(str, q[0])) == sorted(map(str, w["T"]))); g.ensure("comparison units of the cell", sorted(map(str, q[1])) == sorted(map(str, w["C"])))
        g.eq("influence values", np.concatenate([q[2], q[3]]), [w["inf"][u] for u in q[0] + q[1]], rtol=1e-7, atol=1e-9)
        g.eq("sums to zero", [q[2].sum(), q[3].sum()], [0, 0], atol=1e-8)

def logit(X, d):
    b = np.zeros(X.shape[1])
    for _ in range(60):
        p = 1 / (1 + np.exp(-X @ b)); H = (X * (p * (1 - p))[:, None]).T @ X; s = np.linalg.solve(H, X.T @ (d - p)); b = b + s
        if not np.isfinite(b).all() or abs(b).max() > 20: raise Skip()
        if abs(s).max() < 1e-12: break
    return 1 / (1 + np.exp(-X @ b))

@harness("C06", "covariates", ["staggered.CallawaySantAnna._outcome_regression", "staggered.CallawaySantAnna._ipw_estimation", "staggered.CallawaySantAnna._doubly_robust", "staggered._linear_regression", "staggered._logistic_regression"], sym=False, trials=60, deep=500)
def _(g):
    """with covariates measured at the base period: outcome regression, inverse-probability and doubly robust effects of every cell equal an independent computation; a redundant covariate changes nothing; missing covariates fall back to no covariates."""
    r = g.rng; df = draw_staggered(r, cov=2, missing=False); m = g.choice("method", ["reg", "ipw", "dr"]); control = g.choice("control_group", ["never_treated", "not_yet_treated"])
    cov = [["x0"], ["x1"], ["x0", "x1"]][int(r.integers(3))]
    cells = cs_cells(df, control, "varying", 0, m)
    if not cells: raise Skip()
    hole = r.random() < .2
    if hole:
        bad = df.id.unique()[int(r.integers(df.id.nunique()))]; df.loc[df.id == bad, cov[0]] = np.nan
    res = g.fn("staggered", "CallawaySantAnna")(control_group=control, estimation_method=m).fit(df, "y", "id", "t", "g", covariates=cov)
    if r.random() < .5:      # a redundant covariate changes nothing
        cov2 = cov + ["dup"]; r.shuffle(cov2); extra = df.assign(dup=float(r.choice([2.0, -1.0])) * df[cov[0]] + float(r.choice([0, 3.0])))
        with warnings.catch_warnings(): warnings.simplefilter("ignore"); q = g.fn("staggered", "CallawaySantAnna")(control_group=control, estimation_method=m).fit(extra, "y", "id", "t", "g", covariates=cov2)
        for k, e in res.group_time_effects.items():
            if np.isfinite(e["effect"]) and min(e["n_treated"], e["n_control"]) > 2 * len(cov2) + 2: g.eq("a redundant covariate leaves the effect unchanged", [q.group_time_effects[k]["effect"], q.group_time_effects[k]["se"]], [e["effect"], e["se"]], rtol=2e-3, atol=2e-3)
    w = df.set_index(["id", "t"])
    for (c, t), q in list(cells.items())[:6]:
        b = c - 1 if t >= c else t - 1
        ch = lambda us: np.array([w.y[u, t] - w.y[u, b] for u in us]); X = lambda us: np.column_stack([np.ones(len(us))] + [[w[k][u, b] for u in us] for k in cov])
        dt, dc, Xt, Xc = ch(q["T"]), ch(q["C"]), X(q["T"]), X(q["C"]); e = res.group_time_effects[c, t]
        if np.isnan(Xt).any() or np.isnan(Xc).any():
            g.eq("missing covariates: unconditional cell", [e["effect"], e["se"]], [q["effect"], q["se"]], rtol=1e-7); continue
        if len(Xc) <= Xc.shape[1] + 1 or np.linalg.cond(Xc) > 1e4: continue
        beta = np.linalg.lstsq(Xc, dc, rcond=None)[0]
        if m == "reg":
            rt, rc = dt - Xt @ beta, dc - Xc @ beta
            g.eq("outcome regression effect", e["effect"], rt.mean(), rtol=1e-6, atol=1e-8)
            g.eq("outcome regression se", e["se"], np.sqrt((rt.var(ddof=1) / len(rt) if len(rt) > 1 else 0) + rc.var(ddof=1) / len(rc)), rtol=1e-6)
            continue
        p = logit(np.vstack([Xt, Xc]), np.r_[np.ones(len(Xt)), np.zeros(len(Xc))])[len(Xt):]
        if (p < .02).any() or (p > .98).any(): continue
        wc = p / (1 - p)
        if m == "ipw":
            wc = wc / wc.sum(); g.eq("weighted effect", e["effect"], dt.mean() - wc @ dc, rtol=2e-3, atol=2e-3)
            g.eq("weighted standard error", e["se"], np.sqrt((dt.var(ddof=1) / len(dt) if len(dt) > 1 else 0.0) + ((wc * (dc - wc @ dc)) ** 2).sum()), rtol=1e-2, atol=2e-3)
        else:
            at = (dt - Xt @ beta).mean() + wc @ (Xc @ beta - dc) / len(dt); g.eq("doubly robust standard error", e["se"], np.sqrt(((dt - Xt @ beta - at) ** 2).sum() + ((wc * (Xc @ beta - dc)) ** 2).sum()) / len(dt), rtol=1e-2, atol=2e-3)
            g.eq("doubly robust effect", e["effect"], (dt - Xt @ beta).mean() + wc @ (Xc @ beta - dc) / len(dt), rtol=2e-3, atol=2e-3)

@harness("C06", "invariances", ["staggered.CallawaySantAnna.fit"], sym=False, trials=70, deep=600)
def _(g):
    """a cell depends only on its own cohort and comparison units in base and target period: changing outcomes of units that are treated then, or of other periods, leaves it unchanged; unit shifts, common period shifts, row order and labels do not matter."""
    r = g.rng; df = draw_staggered(r, missing=False); control = g.choice("control_group", ["never_treated", "not_yet_treated"]); base = g.choice("base_period", ["varying", "universal"]); ant = int(r.choice([0, 1]))
    want = cs_cells(df, control, base, ant)
    if not want: raise Skip()
    go = lambda d: g.fn("staggered", "CallawaySantAnna")(control_group=control, base_period=base, anticipation=ant).fit(d, "y", "id", "t", "g").group_time_effects
    a = go(df); ks = list(want); k = ks[int(r.integers(len(ks)))]; c, t = k
    b = c - 1 - ant if (base == "universal" or t >= c - ant) else t - 1
    d2 = df.copy(); used = d2.id.isin(want[k]["T"] + want[k]["C"]) & d2.t.isin([t, b])
    d2.loc[~used, "y"] += r.normal(size=(~used).sum()) * 50
    # any unit treated at the target period of another cohort must not be used
    q = go(d2)[k]; g.eq("cell ignores other units and periods", [q["effect"], q["se"]], [a[k]["effect"], a[k]["se"]], rtol=1e-7, atol=1e-8)
    sh = {u: r.normal() * 40 for u in df.id.unique()}; th = {x: r.normal() * 40 for x in df.t.unique()}
    d3 = df.assign(y=df.y + df.id.map(sh) + df.t.map(th)); q = go(d3)
    for k in ks: g.eq("additive unit and period shifts", [q[k]["effect"], q[k]["se"]], [a[k]["effect"], a[k]["se"]], rtol=1e-6, atol=1e-7)
    late = df.groupby("id").g.first(); late = late[(late > 0) & np.isfinite(late)]
    q = go(df.sample(frac=1, random_state=int(r.integers(1 << 30)))); g.eq("row order", [q[k]["effect"] for k in ks], [a[k]["effect"] for k in ks], rtol=1e-9)
    sgn = df.assign(g=np.where((df.g == 0) | np.isinf(df.g), np.inf if r.random() < .5 else 0, df.g)); q = go(sgn)
    g.eq("never-treated code", [q[k]["effect"] for k in ks], [a[k]["effect"] for k in ks], rtol=1e-9)
