"""C05: within transformation and two-way fixed effects match the dummy regression."""
import warnings
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D, oracle as O

def col(df, c): return df[c].values if not hasattr(df[c], "to_numpy") or True else None

@harness("C05", "demean", ["utils.demean_by_group"], trials=80, deep=600)
def _(g):
    """demean_by_group: every group sum of the result is zero; result = value - group mean; other columns, the number of effects and (not in place) the input are untouched."""
    n = g.axis("n", 1, 30); m = g.axis("m", 1, 6); lab, G = g.labels("grp", n, m); x = g.vec("x", n); z = g.vec("z", n); w = g.vec("w", n)
    df = g.table(n, x=x, z=z, w=w, grp=lab)
    inplace = g.choice("inplace", [False, True]); suffix = g.choice("suffix", ["", "_dm"])
    cols0 = list(df.columns)
    out, ne = g.fn("utils", "demean_by_group")(df, ["x", "z"], "grp", inplace=inplace, suffix=suffix)
    cnt = G.T @ (x * 0 + 1)
    for nm, v in (("x", x), ("z", z)):
        r = out[nm + suffix].values
        g.eq("group sums are zero", G.T @ r, (G.T @ x) * 0, atol=1e-8)
        g.eq("exactly the group mean is removed", r, v - G @ ((G.T @ v) / cnt), atol=1e-8)
        if suffix: g.eq("original column kept", out[nm].values, v)
        if not inplace: g.eq("caller's column untouched", df[nm].values, v)
    g.eq("other column untouched", out["w"].values, w); g.eq("number of effects", ne, G.shape[1] - 1)
    g.ensure("columns", list(out.columns) == cols0 + (["x_dm", "z_dm"] if suffix else []))
    if not inplace: g.ensure("caller's columns", list(df.columns) == cols0)
    else: g.ensure("in place", out is df)
    g.cover()

@harness("C05", "within", ["utils.within_transform"], trials=80, deep=600)
def _(g):
    """two-way transformation of a balanced panel of any size: zero sum within every unit and every period; equals x - unit mean - period mean + mean; other columns and the input unchanged."""
    n, u, t, U, T = g.panel(("units", 1), ("times", 1)); x = g.vec("x", n); w = g.vec("w", n)
    df = g.table(n, x=x, w=w, unit=u, time=t)
    inplace = g.choice("inplace", [False, True])
    out = g.fn("utils", "within_transform")(df, ["x"], "unit", "time", inplace=inplace)
    r = out["x" if inplace else "x_demeaned"].values
    NU, NT = U.shape[1], T.shape[1]
    g.eq("sum within every unit is zero", U.T @ r, (U.T @ x) * 0, atol=1e-8); g.eq("sum within every period is zero", T.T @ r, (T.T @ x) * 0, atol=1e-8)
    um = U @ ((U.T @ x) / (U.T @ (x * 0 + 1))); tm = T @ ((T.T @ x) / (T.T @ (x * 0 + 1)))
    g.eq("two-way within value", r, x - um - tm + x.mean(), atol=1e-8)
    g.eq("other column untouched", out["w"].values, w)
    if not inplace: g.eq("caller's column untouched", df["x"].values, x); g.eq("original kept", out["x"].values, x)
    g.cover()

@harness("C05", "twfe_two_periods", ["twfe.TwoWayFixedEffects.fit", "twfe.TwoWayFixedEffects._within_transform", "utils.within_transform", "linalg.LinearRegression.fit"], conc=False, timeout=200)
def _(g):
    """balanced two-period panel with any number of units: att is the coefficient on treatment x post in the regression with all unit and period dummies (outcome written as its dummy-regression fit plus residual)."""
    from .c04 import ols_contract
    from .. import tensor as T
    rows, UA, unit, U, t, e = g.two_period_panel(("units", 2), "post", "e")
    d = g.binary("d", rows); a = g.vec("a", UA); l0, l1, b = g.real("l0"), g.real("l1"), g.real("b")
    Dv = d * t
    y = U @ a + (1 - t) * l0 + t * l1 + Dv * b + e
    g.assume_eq((Dv * e).sum(), 0.0)                       # third normal equation of the dummy regression
    np_ = g.np()
    one = t * 0 + 1
    Dw = Dv - U @ ((U.T @ Dv) / (U.T @ one)) - ((1 - t) * (((1 - t) * Dv).sum() / (1 - t).sum()) + t * ((t * Dv).sum() / t.sum())) + Dv.mean()
    ss = (Dw * Dw).sum(); g.assume(ss > 0)
    g.assume(np_.max(np_.abs(Dw)) > 1e-10 * np_.max(Dv)); g.assume(np_.max(np_.abs(Dw)) > 1e-10)
    g.stub("linalg", "solve_ols", ols_contract(g, 2)); g.stub("twfe", "TwoWayFixedEffects._check_staggered_treatment", lambda *a, **k: None)
    g.assume(rows.sint() > 4)
    df = g.table(rows, out=y, trt=d, post=t, unit=unit)
    est = g.fn("twfe", "TwoWayFixedEffects")(robust=True)
    res = est.fit(df, outcome="out", treatment="trt", time="post", unit="unit")
    g.lemma_eq("within interaction sums to zero", Dw.sum(), 0.0)
    g.lemma_eq("residual is orthogonal to the within interaction", (Dw * e).sum(), 0.0)
    yw = Dw * b + e
    g.lemma_eq("score identity", b * ss, res.att * ss)
    g.eq("att is the dummy-regression coefficient", res.att, b)
    g.eq("n_obs counts rows", res.n_obs, rows.sint())
    g.cover()

@harness("C05", "twfe_dummies", ["twfe.TwoWayFixedEffects.fit", "utils.within_transform", "linalg.LinearRegression.fit"], sym=False, trials=160, deep=1500)
def _(g):
    """panels with and without missing rows: att, clustered se, t, p, interval, counts equal those of the within regression and att equals the dummy-regression coefficient; covariates, redundant covariates, unit or other clusters, row order, odd labels and index."""
    r = g.rng; N = int(r.integers(4, 12)); T = 2 if r.random() < .6 else int(r.integers(3, 6))
    df = D.did_panel(r, N, 1, T - 1, cov=2) if T > 2 else D.did_panel(r, N, 1, 1, cov=2)
    df["per"] = df.time if T > 2 or r.random() < .5 else df.post
    lab = g.choice("unit labels", ["int", "str", "neg"])
    if lab == "str": df["unit"] = df.unit.map(lambda v: "u%02d" % (37 * v % 100))
    if lab == "neg": df["unit"] = -5 * df.unit + 3
    df["cl"] = df.groupby("unit").ngroup() // 2
    df["y"] = df.y + .8 * df.x0 + df.post * df.x1 * .2; df["x2"] = df.x0 * 2; df["const_u"] = df.groupby("unit").ngroup() * 1.0
    df = df.sample(frac=1, random_state=int(r.integers(1 << 30)));
    if r.random() < .5: df = df.reset_index(drop=True)
    if r.random() < .3:      # rows missing at random: the equality holds on unbalanced panels as well
        df = df[r.random(len(df)) < .85]; N, T = df.unit.nunique(), df.per.nunique()
        if len(df) < N + T + 5 or T < 2 or not (df.treated * df.per).any(): raise Skip()
    cov = [None, ["x0"], ["x0", "x1"], ["x0", "x2"], ["const_u", "x1"]][int(r.integers(5))]; cl = g.choice("cluster", [None, "cl"]); alpha = float(r.choice([.05, .1, .01]))
    before = df.copy(); action = g.choice("rank action", ["warn", "silent"])
    est = g.fn("twfe", "TwoWayFixedEffects")(cluster=cl, alpha=alpha, rank_deficient_action=action, robust=g.choice("robust", [True, False]))
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always"); res = est.fit(df, "y", "treated", "per", "unit", covariates=cov)
    inter = (df.treated * df.per).to_numpy(float)
    X = np.column_stack([inter] + [df[c].to_numpy(float) for c in cov or []] + [O.dummies(df.unit, False), O.dummies(df.per)])
    nc = 1 + len(cov or [])
    # redundant columns: fixed effects first, then the interaction, then covariates in order
    order = list(range(nc, X.shape[1])) + list(range(nc)); keep = [order[i] for i in O.independent(X[:, order], 1e-8)]
    if 0 not in keep: raise Skip()
    b = np.linalg.lstsq(X[:, keep], df.y.to_numpy(float), rcond=None)[0]
    g.eq("att is the dummy-regression coefficient", res.att, b[keep.index(0)], rtol=1e-6, atol=1e-8)
    W = np.column_stack([np.ones(len(df))] + [O.double_demean(X[:, j], df.unit, df.per) for j in range(nc)])
    kw = [j for j in O.independent(W, 1e-8)]; kw = [0] + [1 + j for j in range(nc) if j in keep]
    bb, u, V = O.ols(W[:, kw], O.double_demean(df.y.to_numpy(float), df.unit, df.per), cluster=df[cl or "unit"])
    se = np.sqrt(V[1, 1]); dfr = len(df) - len(kw) - (N + T - 2)
    if np.linalg.norm(u) < 1e-8 or df[cl or "unit"].nunique() < 2 or se < 1e-9: raise Skip()
    t, p, ci = O.inference(bb[1], se, dfr if dfr > 0 else None, alpha)
    g.eq("se is the clustered se of the within regression", res.se, se, rtol=1e-5)
    g.eq("t, p, interval", [res.t_stat, res.p_value, *res.conf_int], [t, p, *ci], rtol=1e-5, atol=1e-8)
    g.eq("counts", [res.n_obs, res.n_treated, res.n_control], [len(df), df[df.treated == 1].unit.nunique(), N - df[df.treated == 1].unit.nunique()])
    g.eq("residuals", res.residuals, u, atol=1e-7); g.ensure("data untouched", df.equals(before)); g.eq("coefficient table", res.coefficients["ATT"], res.att)
    g.ensure("collinear covariates are announced iff asked for", any("collinear" in str(w.message) for w in wl) == (len(kw) < 1 + nc and action == "warn"))

@harness("C05", "unbalanced", ["utils.within_transform"], sym=False, trials=80, deep=800)
def _(g):
    """unbalanced panels (missing rows, repeated rows, single observations, disconnected parts): the transformed variables are the residuals of the regression on all unit and period dummies; rows, index and other columns unchanged."""
    r = g.rng; df = D.did_panel(r, int(r.integers(2, 12)), 1, int(r.integers(1, 6)), cov=1); df["y"] = df.y * 10 ** float(r.integers(-3, 5)); df = df[r.random(len(df)) < r.uniform(.4, 1)]
    if r.random() < .3: df = pd.concat([df, df.sample(frac=.3, random_state=1)])
    if len(df) < 2: raise Skip()
    df = df.sample(frac=1, random_state=int(r.integers(1 << 30))); df["t2"] = df.time * 3 + 2000
    if r.random() < .5: df["unit"] = df.unit.map(lambda v: "u%d" % v)
    before = df.copy(); wt = g.fn("utils", "within_transform"); o = wt(df, ["y", "x0"], "unit", "t2"); A = np.column_stack([O.dummies(df.unit, False), O.dummies(df.t2)])
    g.ensure("input untouched", df.equals(before)); g.ensure("old columns, rows and index kept", o[list(df.columns)].equals(before) and list(o.columns) == list(df.columns) + ["y_demeaned", "x0_demeaned"])
    w = df.copy(); q = wt(w, ["y", "x0"], "unit", "t2", inplace=True); g.ensure("in place", q is w and list(w.columns) == list(df.columns))
    for v in ("y", "x0"):
        x = df[v].to_numpy(float); e = x - A @ np.linalg.lstsq(A, x, rcond=None)[0]; s = abs(x).max()
        g.eq("residual of the dummy regression", o[v + "_demeaned"].to_numpy() / s, e / s, atol=1e-7); g.eq("in place as well", w[v].to_numpy() / s, e / s, atol=1e-7)

@harness("C05", "transform_tables", ["utils.within_transform", "utils.demean_by_group", "twfe.TwoWayFixedEffects._within_transform"], sym=False, trials=120, deep=1000)
def _(g):
    """tables with other columns, odd indices, missing or categorical labels: rows, order, index, dtypes and other columns unchanged; several variables at once; unbalanced demeaning by group."""
    r = g.rng; N, T = int(r.integers(2, 7)), int(r.integers(2, 6)); df = D.did_panel(r, N, 1, T - 1, cov=2); df["s"] = ["k%d" % v for v in r.integers(0, 3, len(df))]
    df = df.sample(frac=1, random_state=int(r.integers(1 << 30))); kind = g.choice("index", ["shuffled", "range", "duplicated", "str"])
    if kind == "range": df = df.reset_index(drop=True)
    if kind == "duplicated": df.index = np.zeros(len(df), int)
    if kind == "str": df.index = ["i%d" % i for i in range(len(df))]
    if r.random() < .4: df["unit"] = df.unit.map(lambda v: "u%d" % v)
    before = df.copy(); wt = g.fn("utils", "within_transform"); dg = g.fn("utils", "demean_by_group"); vs = ["y", "x1"]
    if kind != "duplicated" or True:
        suf = g.choice("suffix", ["_demeaned", "_w"]); o = wt(df, vs, "unit", "time", suffix=suf)
        g.ensure("input untouched", df.equals(before)); g.ensure("rows, order and index kept", list(o.index) == list(df.index) and len(o) == len(df)); g.ensure("old columns kept", o[list(df.columns)].equals(before)); g.ensure("new columns", list(o.columns) == list(df.columns) + [v + suf for v in vs])
        for v in vs: g.eq("two-way residual", o[v + suf].to_numpy(), O.double_demean(df[v].to_numpy(), df.unit, df.time), atol=1e-8)
    work = df.copy(); o = wt(work, vs, "unit", "time", inplace=True)
    g.ensure("in place returns the table", o is work and list(o.columns) == list(df.columns))
    for v in vs: g.eq("in-place residual", o[v].to_numpy(), O.double_demean(df[v].to_numpy(), df.unit, df.time), atol=1e-8)
    for c in df.columns:
        if c not in vs: g.ensure("other columns kept in place", o[c].equals(before[c]))
    ub = df[r.random(len(df)) < .7].copy()
    if len(ub) == 0: raise Skip()
    by = g.choice("by", ["unit", "time", "s"]); q, ne = dg(ub, vs, by)
    for v in vs:
        want = np.array([x - ub[v].to_numpy()[ub[by].to_numpy() == k].mean() for x, k in zip(ub[v].to_numpy(), ub[by].to_numpy())])
        g.eq("group mean removed (unbalanced)", q[v].to_numpy(), want, atol=1e-8)
    g.eq("number of absorbed effects", ne, ub[by].nunique() - 1); g.ensure("table kept", q.drop(columns=vs).equals(ub.drop(columns=vs)))
