"""C07: aggregated effects are cohort-size weighted averages of group-time effects."""
import warnings
import numpy as np, pandas as pd
from ..harness import harness, Skip
from .. import data as D, oracle as O
from .c06 import draw_staggered, cs_cells

# concrete structures (cells, units); effects, influence values and cell sizes are symbolic
STRUCT = {
    "two cohorts": dict(cells=[(3, 2), (3, 3), (3, 4), (4, 2), (4, 3), (4, 4)], cohort={"a": 3, "b": 3, "c": 4, "d": 0, "e": 0}),
    "unequal cohorts, holes": dict(cells=[(5, 6), (5, 5), (7, 5), (7, 7), (9, 5)], cohort={11: 5, 2: 5, 30: 5, 4: 7, 5: 0, 6: 9}),
    "one cohort": dict(cells=[(2, 2), (2, 3)], cohort={1: 2, 2: 2, 3: 0}),
}
def build(g, spec):
    gte, inf = {}, {}
    for (c, t) in spec["cells"]:
        T = [u for u, k in spec["cohort"].items() if k == c]; C = [u for u, k in spec["cohort"].items() if k == 0 or k > t]
        C = [u for u in C if u not in T]
        gte[c, t] = dict(effect=g.real(f"e{c},{t}"), se=1.0, t_stat=0.0, p_value=1.0, conf_int=(0.0, 0.0), n_treated=g.int(f"n{c},{t}", lo=1, hi=None if g.symbolic else 9), n_control=len(C))
        inf[c, t] = dict(treated_units=T, control_units=C, treated_inf=g.reals(f"a{c},{t}_", len(T)), control_inf=g.reals(f"b{c},{t}_", len(C)))
    return gte, inf
def psi(cells, w, inf):
    out = {}
    for (k, x) in zip(cells, w):
        for us, vs in ((inf[k]["treated_units"], inf[k]["treated_inf"]), (inf[k]["control_units"], inf[k]["control_inf"])):
            for u, v in zip(us, vs): out[u] = out.get(u, 0.0) + x * v
    return out

@harness("C07", "aggregated_se", ["staggered_aggregation.CallawaySantAnnaAggregationMixin._compute_aggregated_se"], bound="three fixed cell/unit structures; influence values and weights arbitrary", trials=60, deep=400, timeout=120)
def _(g):
    """the standard error of a weighted combination of cells is the root of the sum over units of the squared weighted influence; cells outside the combination do not enter."""
    s = STRUCT[g.choice("structure", list(STRUCT))]; gte, inf = build(g, s); k = g.choice("subset", ["all", "first", "last two"])
    ks = {"all": s["cells"], "first": s["cells"][:1], "last two": s["cells"][-2:]}[k]; w = g.reals("w", len(ks))
    est = g.fn("staggered", "CallawaySantAnna")()
    se = g.internal(lambda: est._compute_aggregated_se(list(ks), w, inf))
    g.eq("variance is that of the weighted influence", se * se, sum(v * v for v in psi(ks, w, inf).values())); g.le("se is non-negative", 0.0, se)
    g.cover()

@harness("C07", "event_study", ["staggered_aggregation.CallawaySantAnnaAggregationMixin._aggregate_event_study"], bound="three fixed cell/unit structures; effects, cell sizes and the standard errors of the callee arbitrary", trials=80, deep=600, timeout=300)
def _(g):
    """every event-time row is the n_treated-weighted mean of exactly the cells with t - g = e (of the cohorts seen at balance_e when given); its se is that of the same cells and weights (contract of _compute_aggregated_se); n_groups counts its cells; t, p, interval follow; a universal base adds the reference row (0, undefined inference) only if absent."""
    s = STRUCT[g.choice("structure", list(STRUCT))]; gte, inf = build(g, s); bal = g.choice("balance_e", [None, 0, 1]); base = g.choice("base_period", ["varying", "universal"]); ant = g.choice("anticipation", [0, 1])
    est = g.fn("staggered", "CallawaySantAnna")(base_period=base, anticipation=ant, alpha=.1)
    calls = []
    if g.symbolic:
        free = g.choice("row whose se may be zero or undefined", range(3))
        def se_contract(self, ks, w, infl):
            i = len(calls); v = g.real(f"se{i}", nan=True) if i == free else g.real(f"se{i}", lo=0)
            if i == free: g.assume(g.or_(g.isnan(v), v >= 0))
            calls.append((list(ks), w, infl, v)); return v
        g.stub("staggered_aggregation", "CallawaySantAnnaAggregationMixin._compute_aggregated_se", se_contract)
        g.stub("utils", "compute_p_value", lambda t, *a, **k: ("p", t)); g.stub("utils", "compute_confidence_interval", lambda e, se, alpha, *a, **k: ("ci", e, se, alpha))
    out = g.internal(lambda: est._aggregate_event_study(gte, inf, sorted({c for c, t in gte}), sorted({t for c, t in gte}), bal))
    keep = [k for k in gte if bal is None or any(q[0] == k[0] and q[1] - q[0] == bal for q in gte)]
    es = sorted({t - c for c, t in keep}); ref = -1 - ant
    want = set(es) | ({ref} if base == "universal" and es else set())
    g.ensure("rows", set(out) == want, lambda: f"{sorted(out)} {sorted(want)}")
    for e in es:
        ks = [k for k in keep if k[1] - k[0] == e]; N = sum(gte[k]["n_treated"] * 1.0 for k in ks); w = [gte[k]["n_treated"] / N for k in ks]; o = out[e]
        g.eq("event-time effect is the weighted mean of its cells", o["effect"], sum(x * gte[k]["effect"] for k, x in zip(ks, w)))
        g.eq("number of cells", o["n_groups"], len(ks))
        if g.symbolic:
            c = [q for q in calls if q[3] is o["se"]]
            g.ensure("se of this row comes from one call", len(c) == 1)
            if len(c) == 1:
                g.ensure("se is for exactly the cells of the row", sorted(c[0][0]) == sorted(ks) and c[0][2] is inf)
                for q, x in zip(c[0][0], list(c[0][1])): g.eq("se uses the weights of the row", x, gte[q]["n_treated"] / N)
            g.ensure("interval and p-value are those of this row", o["conf_int"][1:2] == (o["effect"],) and o["conf_int"][2] is o["se"] and o["conf_int"][3] == .1 and o["p_value"][1] is o["t_stat"])
            g.ensure("t statistic", g.and_(g.implies(o["se"] > 0, g.same(o["t_stat"] * o["se"], o["effect"])), g.implies(g.not_(o["se"] > 0), g.isnan(o["t_stat"]))))
        else:
            g.eq("event-time variance is that of the weighted influence", o["se"] * o["se"], sum(v * v for v in psi(ks, w, inf).values())); g.le("se is non-negative", 0.0, o["se"])
    if base == "universal" and ref not in es and es:
        g.eq("reference row is zero", out[ref]["effect"], 0.0); g.ensure("reference row has no inference", bool(np.isnan(out[ref]["se"])) and bool(np.isnan(out[ref]["t_stat"])) and bool(np.isnan(out[ref]["p_value"])) and out[ref]["n_groups"] == 0)
    g.cover()

@harness("C07", "by_group", ["staggered_aggregation.CallawaySantAnnaAggregationMixin._aggregate_by_group", "staggered_aggregation.CallawaySantAnnaAggregationMixin._compute_aggregated_se"], bound="three fixed cell/unit structures; effects and influence values arbitrary", trials=60, deep=400, timeout=200)
def _(g):
    """every cohort row is the plain mean of the cohort's cells from treatment (less anticipation) on; variance from the averaged influence; cohorts without such cells have no row."""
    s = STRUCT[g.choice("structure", list(STRUCT))]; gte, inf = build(g, s); ant = g.choice("anticipation", [0, 1])
    est = g.fn("staggered", "CallawaySantAnna")(anticipation=ant)
    if g.symbolic:
        g.stub("utils", "compute_p_value", lambda t, *a, **k: ("p", t)); g.stub("utils", "compute_confidence_interval", lambda e, se, alpha, *a, **k: ("ci", e, se, alpha))
    groups = sorted({c for c, t in gte})
    out = g.internal(lambda: est._aggregate_by_group(gte, inf, groups))
    for c in groups:
        ks = [k for k in gte if k[0] == c and k[1] >= c - ant]
        if not ks: g.ensure("no row for a cohort without treated cells", c not in out); continue
        w = [1.0 / len(ks)] * len(ks); p = psi(ks, w, inf)
        g.eq("cohort effect is the mean of its treated cells", out[c]["effect"], sum(gte[k]["effect"] for k in ks) / len(ks))
        g.eq("cohort variance is that of the averaged influence", out[c]["se"] * out[c]["se"], sum(v * v for v in p.values())); g.eq("number of periods", out[c]["n_periods"], len(ks))
        if g.symbolic: g.ensure("interval and p-value are those of this row", out[c]["conf_int"][1:2] == (out[c]["effect"],) and out[c]["conf_int"][2] is out[c]["se"] and out[c]["conf_int"][3] == .05 and out[c]["p_value"][1] is out[c]["t_stat"])
    g.ensure("no other rows", set(out) <= set(groups))
    g.cover()

def overall_psi(ks, w, eff, inf, cohort):
    """unit-level influence of the overall effect: weighted cell influence plus the effect of estimating the cohort shares"""
    base = psi(ks, w, inf); units = list(base); n = len(units)
    size = lambda c: sum(1 for u in cohort if cohort[u] == c)
    pg = [size(c) / n for c, t in ks]; S = sum(pg); out = {}
    for u in units:
        ind = [1.0 if cohort[u] == c else 0.0 for c, t in ks]; tot = sum(i - q for i, q in zip(ind, pg))
        out[u] = base[u] + sum(e * ((i - q) / S - q * tot / S ** 2) for e, i, q in zip(eff, ind, pg)) / n
    return out

@harness("C07", "overall", ["staggered_aggregation.CallawaySantAnnaAggregationMixin._aggregate_simple", "staggered_aggregation.CallawaySantAnnaAggregationMixin._compute_aggregated_se_with_wif"], bound="three fixed cell/unit structures; effects, influence values and cell sizes arbitrary", trials=80, deep=600, timeout=300)
def _(g):
    """overall effect: n_treated-weighted mean of exactly the cells from treatment (less anticipation) on; its variance is the sum over units of the squared weighted influence including the cohort-share term."""
    s = STRUCT[g.choice("structure", list(STRUCT))]; gte, inf = build(g, s); ant = g.choice("anticipation", [0, 1]); co = s["cohort"]
    est = g.fn("staggered", "CallawaySantAnna")(anticipation=ant)
    df = pd.DataFrame(dict(id=[u for u in co for _ in range(2)], first_treat=[co[u] for u in co for _ in range(2)]))
    us = sorted(co); pre = g.choice("precomputed", [True, False])
    pc = dict(all_units=np.array(us), unit_cohorts=np.array([co[u] for u in us]), unit_to_idx={u: i for i, u in enumerate(us)}) if pre else None
    att, se = g.internal(lambda: est._aggregate_simple(gte, inf, df, "id", pc))
    ks = [k for k in gte if k[1] >= k[0] - ant]; N = sum(gte[k]["n_treated"] * 1.0 for k in ks); w = [gte[k]["n_treated"] / N for k in ks]; eff = [gte[k]["effect"] for k in ks]
    g.eq("overall effect is the weighted mean of the treated cells", att, sum(x * e for x, e in zip(w, eff)))
    p = overall_psi(ks, w, eff, inf, co); var = sum(v * v for v in p.values())
    g.eq("overall variance", se * se, var, atol=1e-7); g.le("overall se is non-negative", 0.0, se)
    for x in w: g.ensure("weights are positive", x > 0)
    g.cover()

@harness("C07", "fit_aggregates", ["staggered.CallawaySantAnna.fit", "staggered_aggregation.CallawaySantAnnaAggregationMixin._aggregate_simple", "staggered_aggregation.CallawaySantAnnaAggregationMixin._aggregate_event_study", "staggered_aggregation.CallawaySantAnnaAggregationMixin._aggregate_by_group"], sym=False, trials=160, deep=1500)
def _(g):
    """fit(aggregate=...): overall, event-time and cohort rows with se, t, p, interval equal the weighted combination of an independent cell table and its influence values; what is not asked for is None; balance_e; anticipation; universal base."""
    r = g.rng; df = draw_staggered(r); control = g.choice("control_group", ["never_treated", "not_yet_treated"]); base = g.choice("base_period", ["varying", "universal"]); m = g.choice("method", ["reg", "ipw", "dr"])
    ant = int(r.choice([0, 0, 1])); alpha = float(r.choice([.05, .1])); agg = g.choice("aggregate", ["all", "all", "event_study", "group", None]); bal = None if r.random() < .6 else int(r.choice([0, 1, 2, -1]))
    cells = cs_cells(df, control, base, ant, m)
    if not cells: raise Skip()
    res = g.fn("staggered", "CallawaySantAnna")(control_group=control, base_period=base, anticipation=ant, estimation_method=m, alpha=alpha).fit(df, "y", "id", "t", "g", aggregate=agg, balance_e=bal)
    co = df.groupby("id").g.first().to_dict()
    inf = {k: dict(treated_units=q["T"], control_units=q["C"], treated_inf=[q["inf"][u] for u in q["T"]], control_inf=[q["inf"][u] for u in q["C"]]) for k, q in cells.items()}
    def row(name, got, att, var):
        se = np.sqrt(var); g.eq(name + " effect", got[0], att, rtol=1e-7, atol=1e-8)
        if not np.isfinite(se) or se < 1e-9: return
        t, p, ci = O.inference(att, se, None, alpha); g.eq(name + " se, t, p, interval", got[1:], [se, t, p, *ci], rtol=1e-6, atol=1e-7)
    ks = [k for k in cells if k[1] >= k[0] - ant]
    if ks:
        N = sum(cells[k]["nt"] for k in ks); w = [cells[k]["nt"] / N for k in ks]; eff = [cells[k]["effect"] for k in ks]
        row("overall", [res.overall_att, res.overall_se, res.overall_t_stat, res.overall_p_value, *res.overall_conf_int], np.dot(w, eff), sum(v * v for v in overall_psi(ks, w, eff, inf, co).values()))
    else: g.nan("no treated cell: overall undefined", [res.overall_att, res.overall_se, res.overall_t_stat])
    if agg in ("all", "event_study"):
        keep = [k for k in cells if bal is None or (k[0], k[0] + bal) in cells]; es = sorted({t - c for c, t in keep}); ref = -1 - ant
        want = set(es) | ({ref} if base == "universal" and es else set())
        g.ensure("event times", set(res.event_study_effects) == want, lambda: f"{sorted(res.event_study_effects)} {sorted(want)}")
        for e in es:
            q = [k for k in keep if k[1] - k[0] == e]; N = sum(cells[k]["nt"] for k in q); w = [cells[k]["nt"] / N for k in q]; o = res.event_study_effects[e]
            row("event time", [o["effect"], o["se"], o["t_stat"], o["p_value"], *o["conf_int"]], sum(x * cells[k]["effect"] for x, k in zip(w, q)), sum(v * v for v in psi(q, w, inf).values())); g.eq("cells of the event time", o["n_groups"], len(q))
    else: g.ensure("event study not asked for", res.event_study_effects is None)
    if agg in ("all", "group"):
        for c in {c for c, t in cells}:
            q = [k for k in ks if k[0] == c]
            if not q: g.ensure("no cohort row", c not in res.group_effects); continue
            w = [1 / len(q)] * len(q); o = res.group_effects[c]
            row("cohort", [o["effect"], o["se"], o["t_stat"], o["p_value"], *o["conf_int"]], np.mean([cells[k]["effect"] for k in q]), sum(v * v for v in psi(q, w, inf).values())); g.eq("periods of the cohort", o["n_periods"], len(q))
    else: g.ensure("cohort effects not asked for", res.group_effects is None)
