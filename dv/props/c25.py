"""C25: plots draw the numbers of the results."""
import math
import numpy as np, pandas as pd
from types import SimpleNamespace as NS
from ..harness import harness, MissingTarget
from .c01 import bare
INF = math.inf
class Bar:
    def __init__(s, i, h): s.i, s.h = i, h
    def get_height(s): return s.h
    def get_x(s): return s.i - 0.5
    def get_width(s): return 1.0
class Rec:
    """an axes object that records what is drawn; at run time every call also goes to a real matplotlib axes"""
    def __init__(s, real=None): s.__dict__.update(calls=[], real=real, fig=NS(tight_layout=lambda *a, **k: None) if real is None else real.get_figure())
    def get_figure(s): return s.fig
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        if s.real is not None and not callable(getattr(s.real, n)): return getattr(s.real, n)
        if s.real is None and n in ("yaxis", "xaxis"): return NS(set_major_formatter=lambda *a, **k: None)
        if s.real is None and n.startswith("trans"): return None
        def f(*a, **k):
            s.calls.append((n, a, k))
            if s.real is not None: return getattr(s.real, n)(*a, **k)
            if n == "bar": return [Bar(i, h) for i, h in enumerate(k["height"] if "height" in k else a[1])]
        return f
    def points(s):
        out = []
        for n, a, k in s.calls:
            if n == "plot" and (k.get("marker") or np.ndim(a[0]) == 0): out += [(x, y, k.get("markerfacecolor") == "white") for x, y in zip(np.atleast_1d(np.asarray(a[0], dtype=object)), np.atleast_1d(np.asarray(a[1], dtype=object)))]
            if n == "errorbar" and k.get("marker"): out += [(x, y, False) for x, y in zip(a[0], a[1])]
        return out
    def intervals(s):
        """one list per errorbar call: (x, centre, lower, upper), label"""
        out = []
        for n, a, k in s.calls:
            if n == "errorbar": 
                lo, hi = [list(v) for v in k["yerr"]]; out.append(([(x, y, y - l, y + h) for x, y, l, h in zip(list(a[0]), list(a[1]), lo, hi)], k.get("label")))
            if n == "vlines": out.append(([(x, None, l, h) for x, l, h in zip(list(a[0]), list(a[1]), list(a[2]))], k.get("label")))
        return out
    def lines(s, which): v = {"axhline": "y", "axvline": "x"}[which]; return [(k[v] if v in k else a[0], k.get("label")) for n, a, k in s.calls if n == which]
    def curves(s): return [(list(a[0]), list(a[1]), k.get("label")) for n, a, k in s.calls if n == "plot" and np.ndim(a[0]) > 0]
    def get(s, name): return [(a, k) for n, a, k in s.calls if n == name]
def axes(g):
    if g.symbolic: return Rec()
    import matplotlib; matplotlib.use("Agg")
    from matplotlib.figure import Figure
    return Rec(Figure().subplots())
def same(g, name, a, b, **k):
    g.ensure(name + ": number", len(a) == len(b))
    for x, y in zip(a, b): g.eq(name, x, y, **k)
def once(f):
    """memoise a drawn input"""
    c = {}
    def h(n): 
        if n not in c: c[n] = f(n)
        return c[n]
    return h
def opt(g, n, kind):
    """a standard error: a number, missing or infinite"""
    return g.nonneg(n) if kind == 0 else (float("nan") if kind == 1 else INF)

@harness("C25", "event_study", ["visualization.plot_event_study", "visualization._extract_plot_data"], timeout=300, trials=150, deep=2000, bound="three periods; every effect, standard error and level, any of them missing")
def _(g):
    """one mark per period that has an effect, at its place in the period order and at its effect (relative to an explicitly given reference period); intervals at the effect -/+ the normal critical value of the level times the standard error, none where the standard error is undefined; hollow mark for the reference; ticks name the periods; shading and lines where stated; nothing valid is rejected."""
    V = g.mod("visualization"); src = g.choice("source", ["dicts", "frame", "multi", "staggered"]); P = [[-2, -1, 1], [2001, 2003, 2004], ["a", "b", "c"]][{"dicts": 0, "frame": 1, "multi": 2}[src] if g.symbolic else g.choice("labels", [0, 1, 2])] if src in ("dicts", "frame", "multi") else [-2, -1, 1]
    mode = g.choice("effects", [0, 1] + ([2] if src == "dicts" or not g.symbolic else [])); E = {p: g.real(f"e{i}") if not (mode == 1 and i == 0 or mode == 2) else float("nan") for i, p in enumerate(P)}; kinds = g.choice("errors", [(0, 0, 0), (0, 1, 2), (1, 0, 0)] if mode == 0 or not g.symbolic else [(0, 1, 0)]); S = {p: opt(g, f"s{i}", k) for i, (p, k) in enumerate(zip(P, kinds))}; alpha = g.pyreal("alpha", 0, 1)
    ref = g.choice("reference", [None, 0, 1, "absent"]); refp = None if ref is None else (9 if ref == "absent" else P[ref]); few = g.symbolic and (mode > 0 or kinds[0] > 0); order = None if few else g.choice("order", [None, [2, 0, 1]]); per = None if order is None else [P[i] for i in order]; pre = [0, 1] if few or (g.symbolic and order) else g.choice("pre", [None, [0, 1], []]); prep = None if pre is None else [P[i] for i in pre]; opts = dict(show_zero_line=g.choice("zero line", [True, False]), show_reference_line=g.choice("reference line", [True, False]), shade_pre=g.choice("shade", [True, False])) if g.symbolic is False or src == "dicts" and mode == 0 and kinds == (0, 0, 0) and order is None else dict()
    kw = dict(reference_period=refp, pre_periods=prep, alpha=alpha, periods=per, show=False, **opts); inferred = None; E0, S0 = dict(E), dict(S)
    if src == "dicts": args, kw = (), dict(kw, effects=E, se=S); shown = per or sorted(P); dpre = prep
    elif src == "frame": O = object if g.symbolic else float; args = (pd.DataFrame({"period": pd.Series(P, dtype=object if isinstance(P[0], str) else int), "effect": pd.Series([E[p] for p in P], dtype=O), "se": pd.Series([S[p] for p in P], dtype=O)}),); shown = per or P; dpre = prep
    elif src == "multi":
        PE = g.fn("results", "PeriodEffect"); R = bare(g.fn("results", "MultiPeriodDiDResults"), period_effects={p: bare(PE, period=p, effect=E[p], se=S[p]) for p in P}, pre_periods=["z"], post_periods=list(P), alpha=0.5); args = (R,); shown = per or P; dpre = ["z"] if prep is None else prep
    else:
        zero = g.choice("universal base", [False, True]); R = bare(g.fn("staggered_results", "CallawaySantAnnaResults"), event_study_effects={p: dict(effect=E[p], se=S[p], n_groups=0 if zero and p == -2 else 2) for p in P[::-1]}, alpha=0.5); args = (R,); shown = per or sorted(P); dpre = [p for p in shown if p < 0] if prep is None else prep
        if refp is None: inferred = -2 if zero else -1
    ax = axes(g); run = lambda: V.plot_event_study(*args, ax=ax, **kw); keep = [p for p in shown if not bool(g.isnan(E[p]))]
    if not keep: g.raises("nothing to plot", ValueError, run); g.cover(); return
    out = run(); g.ensure("drawn on the given axes", out is ax); base = 0.0
    if refp in E and not bool(g.isnan(E[refp])): base = E[refp]; S[refp] = float("nan")
    z = g.dist("norm", "ppf", 1 - alpha / 2); mark = inferred if refp is None else refp; X = {p: i for i, p in enumerate(keep)}; pts = ax.points(); g.ensure("one mark per period", len(pts) == len(keep)); T = dict(atol=1e-9, rtol=1e-8)
    for p, (x, y, hollow) in zip(keep, pts): g.ensure("place", bool(x == X[p])); g.eq("effect", y, E[p] - base, **T); g.ensure("hollow exactly for the reference", hollow == (p == mark))
    ci = [q for w, _ in ax.intervals() for q in w]; want = [p for p in keep if bool(g.isfinite(S[p]))]; g.ensure("intervals exactly where the standard error is defined", [int(q[0]) for q in ci] == [X[p] for p in want])
    for p, (x, c, lo, hi) in zip(want, ci): g.eq("lower end", lo, E[p] - base - z * S[p], **T); g.eq("upper end", hi, E[p] - base + z * S[p], **T)
    a, _ = ax.get("set_xticks")[-1]; b, _ = ax.get("set_xticklabels")[-1]; g.ensure("ticks name the periods", list(a[0]) == list(range(len(keep))) and list(b[0]) == [str(p) for p in keep])
    g.ensure("zero line", [v for v, _ in ax.lines("axhline")] == ([0] if opts.get("show_zero_line", True) else [])); g.ensure("reference line", [int(v) for v, _ in ax.lines("axvline")] == ([X[mark]] if opts.get("show_reference_line", True) and mark in X else []))
    sh = [X[p] for p in (dpre or []) if p in X]; g.ensure("shaded pre-periods", [tuple(a[:2]) for a, k in ax.get("axvspan")] == ([(min(sh) - .5, max(sh) + .5)] if sh and opts.get("shade_pre", True) else [])); g.ensure("inputs unchanged", all(E0[p] is E[p] for p in P)); g.cover()

@harness("C25", "event_study_rejects", ["visualization.plot_event_study", "visualization._extract_plot_data"], trials=20)
def _(g):
    """missing inputs, non-dictionaries, tables without the needed columns and unknown result objects are rejected."""
    f = g.fn("visualization", "plot_event_study"); x = g.real("x"); ax = axes(g); d = {1: x}
    for k in (dict(), dict(effects=d), dict(se=d)): g.raises("needs effects and errors", ValueError, lambda: f(ax=ax, show=False, **k))
    for k in (dict(effects=[x], se=d), dict(effects=d, se=[x])): g.raises("needs dictionaries", TypeError, lambda: f(ax=ax, show=False, **k))
    for c in ("period", "effect", "se"): g.raises("needs the column", ValueError, lambda: f(pd.DataFrame({k: [1.0] for k in ("period", "effect", "se") if k != c}), ax=ax, show=False))
    g.raises("unknown object", TypeError, lambda: f(NS(), ax=ax, show=False)); g.raises("no event study computed", TypeError, lambda: f(NS(event_study_effects=None), ax=ax, show=False)); g.ensure("nothing drawn", not ax.points()); g.cover()

@harness("C25", "group_effects", ["visualization.plot_group_effects"], timeout=200, trials=100, deep=1000, bound="two cohorts with three and one periods; all effects, errors and levels")
def _(g):
    """one labelled series per cohort in time order, at its group-time effects, with intervals effect -/+ critical value times standard error."""
    keys = [(2004, 2005), (2004, 2003), (2007, 2007), (2004, 2004)]; D = {k: dict(effect=g.real(f"e{i}"), se=g.nonneg(f"s{i}")) for i, k in enumerate(keys)}; alpha = g.pyreal("alpha", 0, 1); R = bare(g.fn("staggered_results", "CallawaySantAnnaResults"), group_time_effects=D); gr = g.choice("groups", [None, [2007], [2007, 2004], [2007, 1999]]); ax = axes(g); f = g.fn("visualization", "plot_group_effects")
    g.ensure("drawn on the given axes", f(R, groups=gr, alpha=alpha, ax=ax, show=False) is ax); z = g.dist("norm", "ppf", 1 - alpha / 2); want = [c for c in (gr or [2004, 2007]) if c != 1999]; I = ax.intervals(); g.ensure("one series per cohort", len(I) == len(want) and all(str(c) in l for c, (_, l) in zip(want, I))); T = dict(atol=1e-9, rtol=1e-8)
    for c, (w, _) in zip(want, I):
        ts = sorted(t for k, t in keys if k == c); g.ensure("times in order", [int(q[0]) for q in w] == ts)
        for t, q in zip(ts, w): e, s = D[c, t]["effect"], D[c, t]["se"]; g.eq("effect", q[1], e, **T); g.eq("lower end", q[2], e - z * s, **T); g.eq("upper end", q[3], e + z * s, **T)
    g.raises("other objects", TypeError, lambda: f(NS(), ax=ax, show=False)); g.cover()

@harness("C25", "sensitivity", ["visualization.plot_sensitivity", "honest_did.SensitivityResults.plot"], timeout=200, trials=100, deep=1000, bound="three grid points; all bounds, intervals, estimate and breakdown")
def _(g):
    """the band is the identified sets, the two curves are the robust interval's ends, the lines are the original estimate, zero and the breakdown value; the method draws the same."""
    O = object if g.symbolic else float; M = np.array([0.0, 0.5, 1.5]); B = [(g.real(f"l{i}"), g.real(f"u{i}")) for i in range(3)]; C = [(g.real(f"a{i}"), g.real(f"b{i}")) for i in range(3)]; est = g.real("est"); bd = g.choice("breakdown", [None, 0.0, 0.75]); R = bare(g.fn("honest_did", "SensitivityResults"), M_values=M, bounds=B, robust_cis=C, original_estimate=est, breakdown_M=bd); o = {k: g.choice(k, [True, False]) for k in ("show_bounds", "show_ci", "breakdown_line")}
    for nm in ("plot_sensitivity", "method"):
        ax = axes(g); out = g.fn("visualization", "plot_sensitivity")(R, ax=ax, show=False, **o) if nm != "method" else R.plot(ax=ax, **o); g.ensure("drawn on the given axes", out is ax); h = [v for v, _ in ax.lines("axhline")]; same(g, "original estimate and zero", h, [est, 0.0]); same(g, "breakdown line", [v for v, _ in ax.lines("axvline")], [bd] if bd is not None and o["breakdown_line"] else [])
        F = ax.get("fill_between"); g.ensure("band drawn on request", len(F) == int(o["show_bounds"]))
        for a, k in F: same(g, "grid", list(a[0]), list(M)); same(g, "band", list(a[1]) + list(a[2]), [x for x, _ in B] + [x for _, x in B])
        K = ax.curves(); g.ensure("interval drawn on request", len(K) == 2 * int(o["show_ci"]))
        for j, (x, y, _) in enumerate(K): same(g, "grid", x, list(M)); same(g, "interval end", y, [c[j] for c in C])
    g.cover()

@harness("C25", "honest_event_study", ["visualization.plot_honest_event_study"], timeout=200, trials=150, deep=1500, bound="three periods; all effects, errors and bounds")
def _(g):
    """marks at the effects, standard intervals effect -/+ critical value (level of the honest result) times standard error, honest intervals at the reported robust bounds."""
    kind = g.choice("original", ["multi", "staggered", None, "other"]); P = [-1, 1, 2]; E, S = [g.real(f"e{i}") for i in range(3)], [g.nonneg(f"s{i}") for i in range(3)]; alpha = g.pyreal("alpha", 0, 1); lo, hi = g.real("lo"), g.nonneg("width"); own = g.choice("per-period bounds", [False, True]); order = g.choice("order", [None, [2, 0]]); ref = g.choice("reference", [None, 1]); per = None if order is None else [P[i] for i in order]
    o = {"multi": lambda: bare(g.fn("results", "MultiPeriodDiDResults"), period_effects={p: bare(g.fn("results", "PeriodEffect"), effect=E[i], se=S[i]) for i, p in enumerate(P)}), "staggered": lambda: bare(g.fn("staggered_results", "CallawaySantAnnaResults"), event_study_effects={P[i]: dict(effect=E[i], se=S[i]) for i in (2, 0, 1)}), None: lambda: None, "other": lambda: NS()}[kind]()
    W = {p: dict(ci_lb=g.real(f"cl{i}"), ci_ub=g.nonneg(f"cw{i}")) for i, p in enumerate(P)}
    for w in W.values(): w["ci_ub"] = w["ci_lb"] + w["ci_ub"]
    R = bare(g.fn("honest_did", "HonestDiDResults"), original_results=o, alpha=alpha, ci_lb=lo, ci_ub=lo + hi, M=0.5, event_study_bounds=W if own else None); ax = axes(g); run = lambda: g.fn("visualization", "plot_honest_event_study")(R, periods=per, reference_period=ref, ax=ax, show=False)
    if kind is None: g.raises("no event study", ValueError, run); g.cover(); return
    if kind == "other": g.raises("unknown original result", TypeError, run); g.cover(); return
    g.ensure("drawn on the given axes", run() is ax); idx = order or [0, 1, 2]; z = g.dist("norm", "ppf", 1 - alpha / 2); T = dict(atol=1e-9, rtol=1e-8); pts = ax.points(); g.ensure("one mark per period", [int(p[0]) for p in pts] == list(range(len(idx)))); I = ax.intervals(); std, hon = [next((w for w, l in I if l and l.startswith(t)), None) for t in ("Standard", "Honest")]
    if std is None or hon is None: raise MissingTarget("labelled error bars")
    for j, i in enumerate(idx):
        g.eq("effect", pts[j][1], E[i], **T); g.ensure("hollow exactly for the reference", pts[j][2] == (P[i] == ref)); g.ensure("places", int(std[j][0]) == j and int(hon[j][0]) == j); g.eq("standard lower", std[j][2], E[i] - z * S[i], **T); g.eq("standard upper", std[j][3], E[i] + z * S[i], **T)
        g.eq("honest lower", hon[j][2], W[P[i]]["ci_lb"] if own else lo, **T); g.eq("honest upper", hon[j][3], W[P[i]]["ci_ub"] if own else lo + hi, **T)
    g.cover()

@harness("C25", "bacon", ["visualization.plot_bacon", "visualization._plot_bacon_scatter", "visualization._plot_bacon_bar", "bacon.BaconDecompositionResults.effect_by_type", "bacon.BaconDecompositionResults.weight_by_type"], timeout=200, trials=120, deep=1200, bound="two comparison types with two and one comparisons; all estimates and weights")
def _(g):
    """each comparison is a point at (estimate, weight) in the colour and series of its type; dashed lines at the weighted average of each type, the solid one at the two-way estimate; bars are the total weights per type, annotated with share and weighted effect."""
    CT = g.fn("bacon", "Comparison2x2"); ty = ["treated_vs_never", "later_vs_earlier", "treated_vs_never"]; C = [bare(CT, comparison_type=t, estimate=g.real(f"e{i}"), weight=g.real(f"w{i}", 0.02)) for i, t in enumerate(ty)]; tw = g.real("twfe"); tot = {t: sum(c.weight for c in C if c.comparison_type == t) for t in set(ty)}; avg = {t: sum(c.weight * c.estimate for c in C if c.comparison_type == t) / tot[t] for t in set(ty)}
    R = bare(g.fn("bacon", "BaconDecompositionResults"), comparisons=C, twfe_estimate=tw, total_weight_treated_vs_never=tot[ty[0]], total_weight_earlier_vs_later=0.0, total_weight_later_vs_earlier=tot[ty[1]], weighted_avg_treated_vs_never=avg[ty[0]], weighted_avg_earlier_vs_later=None, weighted_avg_later_vs_earlier=avg[ty[1]]); ax = axes(g); f = g.fn("visualization", "plot_bacon"); kind = g.choice("type", ["scatter", "bar"]); T = dict(atol=1e-9, rtol=1e-8); col = {"treated_vs_never": "#111111", "earlier_vs_later": "#222222", "later_vs_earlier": "#333333"}
    if kind == "scatter":
        a1, a2 = g.choice("averages", [True, False]), g.choice("twfe line", [True, False]); g.ensure("drawn on the given axes", f(R, colors=col, show_weighted_avg=a1, show_twfe_line=a2, ax=ax, show=False) is ax); got = {k["c"]: (list(a[0]), list(a[1])) for a, k in ax.get("scatter")}; g.ensure("one series per occurring type", set(got) == {col[t] for t in set(ty)})
        for t in set(ty): x, y = got[col[t]]; same(g, "estimates", x, [c.estimate for c in C if c.comparison_type == t], **T); same(g, "weights", y, [c.weight for c in C if c.comparison_type == t], **T)
        L = [(k.get("x", a[0] if a else None), k.get("color")) for a, k in ax.get("axvline")]; dash = {c: v for v, c in L if c in col.values()}; g.ensure("averages on request", set(dash) == ({col[t] for t in set(ty)} if a1 else set()))
        for t in set(ty):
            if a1: g.eq("weighted average of the type", dash[col[t]], avg[t], **T)
        same(g, "two-way line and zero", [v for v, c in L if c not in col.values()], ([tw] if a2 else []) + [0], **T)
    else:
        f(R, colors=col, plot_type="bar", ax=ax, show=False); a, k = ax.get("bar")[0]; same(g, "total weights", list(a[1]), [tot["treated_vs_never"], 0.0, tot["later_vs_earlier"]], **T); g.ensure("colours", list(k["color"]) == list(col.values()))
        if not g.symbolic: tx = [q[0][0] for q in ax.get("annotate")]; g.ensure("annotated", all(f"{tot[t]:.1%}" in tx and f"β = {avg[t]:.3f}" in tx for t in tot) and any(f"{tw:.4f}" in q[0][2] for q in ax.get("text")))
    g.raises("unknown type", ValueError, lambda: f(R, plot_type="other", ax=axes(g), show=False)); g.cover()

@harness("C25", "power_curve", ["visualization.plot_power_curve"], timeout=200, trials=120, deep=1200, bound="three grid points; all powers")
def _(g):
    """the curve is the given powers over the given grid, lines at the target power and the detectable effect, whose mark lies on the curve."""
    X = [0.0, 1.0, 2.0]; P = [g.real(f"p{i}") for i in range(3)]; src = g.choice("source", ["lists", "effect table", "sample table", "simulation"]); mde = g.choice("mde", [None, 1.0, 0.25, 1.75, 5.0]); tgt = g.pyreal("target", 0, 1); O = object if g.symbolic else float; f = g.fn("visualization", "plot_power_curve"); ax = axes(g); k = dict(mde=mde, target_power=tgt, show=False, ax=ax); o = {n: g.choice(n, [True, False]) for n in ("show_mde_line", "show_target_line")}; k.update(o)
    if src == "lists": k.update(effect_sizes=X, powers=P); a = ()
    elif src == "simulation": a = (bare(g.fn("power", "SimulationPowerResults"), effect_sizes=X, powers=P, true_effect=1.5),); mde = 1.5 if mde is None else mde
    else: a = (pd.DataFrame({"effect_size" if src[0] == "e" else "sample_size": X, "power": pd.Series(P, dtype=O)}),)
    g.ensure("drawn on the given axes", f(*a, **k) is ax); K = ax.curves(); g.ensure("one curve", len(K) == 1); same(g, "grid", K[0][0], X); same(g, "powers", K[0][1], P); same(g, "target line", [v for v, _ in ax.lines("axhline")], [tgt] if o["show_target_line"] else []); on = o["show_mde_line"] and mde is not None; same(g, "detectable effect line", [v for v, _ in ax.lines("axvline")], [mde] if on else []); S = ax.get("scatter"); g.ensure("mark inside the grid only", len(S) == int(on and mde <= 2.0))
    for q, _ in S: i = min(int(mde), 1); g.eq("mark at the detectable effect", list(q[0])[0], mde); g.eq("mark on the curve", list(q[1])[0], P[i] + (P[i + 1] - P[i]) * (mde - i), atol=1e-9, rtol=1e-8)
    xl = ax.get("set_xlabel")[-1][0][0]; g.ensure("axis named after the grid", ("Sample" in xl) == (src == "sample table")); g.raises("needs data", ValueError, lambda: f(ax=ax, show=False)); g.raises("a table without grid", ValueError, lambda: f(pd.DataFrame({"power": [1.0]}), ax=ax, show=False)); g.raises("unknown object", TypeError, lambda: f(NS(), ax=ax, show=False)); g.cover()

@harness("C25", "pretrends_power", ["visualization.plot_pretrends_power", "pretrends.PreTrendsPowerCurve.plot"], timeout=200, trials=120, deep=1200, bound="three grid points; all powers")
def _(g):
    """the curve is the powers over the violation grid, lines at the target power and the detectable violation (when finite), whose mark lies on the curve; the method draws the same."""
    X = [0.0, 1.0, 2.0]; P = [g.real(f"p{i}") for i in range(3)]; src = g.choice("source", ["lists", "table", "curve", "method", "point"]); mdv = g.choice("mdv", [1.0, 0.25, 1.75, 5.0, INF]); tgt = g.pyreal("target", 0, 1); O = object if g.symbolic else float; f = g.fn("visualization", "plot_pretrends_power"); ax = axes(g); k = dict(target_power=tgt, show=False, ax=ax); o = {n: g.choice(n, [True, False]) for n in ("show_mdv_line", "show_target_line")}; k.update(o)
    Pa = np.array(P, dtype=O); cur = bare(g.fn("pretrends", "PreTrendsPowerCurve"), M_values=np.array(X), powers=Pa, mdv=mdv, target_power=tgt if src == "method" else 0.5)
    if src == "method": out = cur.plot(ax=ax, show_mdv=o["show_mdv_line"], show_target=o["show_target_line"])
    elif src == "lists": out = f(M_values=X, powers=P, mdv=mdv, **k)
    elif src == "table": out = f(pd.DataFrame({"M": X, "power": pd.Series(P, dtype=O)}), mdv=mdv, **k)
    elif src == "curve": out = f(cur, **k)
    else: out = f(bare(g.fn("pretrends", "PreTrendsPowerResults"), mdv=mdv, power=P[0], target_power=0.5), **k)
    g.ensure("drawn on the given axes", out is ax); K = ax.curves(); g.ensure("one curve", len(K) == (0 if src == "point" else 1))
    for x, y, _ in K: same(g, "grid", x, X); same(g, "powers", y, P)
    same(g, "target line", [v for v, _ in ax.lines("axhline")], [tgt] if o["show_target_line"] else []); on = o["show_mdv_line"] and math.isfinite(mdv); same(g, "detectable violation line", [v for v, _ in ax.lines("axvline")], [mdv] if on else []); S = ax.get("scatter"); g.ensure("mark inside the grid only", len(S) == int(on and mdv <= 2.0 and src not in ("point", "method")))
    for q, _ in S: i = min(int(mdv), 1); g.eq("mark at the detectable violation", list(q[0])[0], mdv); g.eq("mark on the curve", list(q[1])[0], P[i] + (P[i + 1] - P[i]) * (mdv - i), atol=1e-9, rtol=1e-8)
    g.raises("needs data", ValueError, lambda: f(ax=ax, show=False)); g.raises("a table without grid", ValueError, lambda: f(pd.DataFrame({"power": [1.0]}), ax=ax, show=False)); g.raises("unknown object", TypeError, lambda: f(NS(), ax=ax, show=False)); g.cover()
