"""C18: every view of a result shows the same numbers."""
import re, math, io, contextlib
import numpy as np, pandas as pd
from ..harness import harness, Skip
TOK = re.compile(r"⟦(\d+):([^⟧]*)⟧|([-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)\b)(%?)")

def shown(g, text):
    """the values printed in a piece of text, in order; symbolic: the terms themselves; concrete: (value, half unit of the last digit)"""
    out = []
    for m in TOK.finditer(text):
        if m.group(1) is not None:
            from .. import core
            out.append((core.ctx().cache["tokens"][int(m.group(1))][0], 0.0)); continue
        s = m.group(3); k = len(s.split(".")[1]) if "." in s and "e" not in s else 0; q = 100.0 if m.group(4) else 1.0
        v = float(s); out.append((v / q, .5000001 * 10.0 ** -k / q if ("." in s or q == 100.0) and math.isfinite(v) else 0.0))
    return out
def matches(g, nm, got, want):
    """the printed values are these values"""
    g.ensure(nm + ": values printed", len(got) == len(want), f"{got} {want}")
    for (v, tol), w in zip(got, want):
        if g.symbolic: g.eq(nm, v, w)
        else:
            w = float(w); ok = (math.isnan(v) and math.isnan(w)) or v == w or abs(v - w) <= tol + 1e-9 * abs(w); g.ensure(nm, ok, f"shows {v}, field is {w}")
def line(g, text, label):
    """the rest of the only line that starts with the label"""
    hit = [l for l in text.split("\n") if l.strip().startswith(label)]; g.ensure(f"summary shows '{label}'", len(hit) >= 1, text)
    return hit[0].strip()[len(label):] if hit else ""
def shows(g, text, label, *want): matches(g, f"summary: {label.strip(':')}", shown(g, line(g, text, label)), want)
def shows_text(g, text, label, want): g.ensure(f"summary: {label.strip(':')}", line(g, text, label).strip() == want, line(g, text, label))
HEAD = {"Estimate": "e", "Std. Err.": "s", "t-stat": "t", "P>|t|": "p"}
def rows(g, text, title):
    """the effect rows of a section, with the columns in the order of its header -> [(label text, rest)]"""
    L = text.split("\n"); start = 0
    if title: 
        i = [k for k, l in enumerate(L) if l.strip() == title]; g.ensure(f"section '{title}'", len(i) == 1, text); start = i[0]
    h = [k for k in range(start, len(L)) if "Estimate" in L[k] and "Std. Err." in L[k]][0]; order = sorted(HEAD, key=L[h].index); out = []
    for l in L[h + 2:]:
        if l.startswith("---"): break
        out.append(l)
    return [HEAD[k] for k in order], out
def effect_row(g, nm, order, l, label, e, s, t, p):
    label = str(label); g.ensure(f"{nm}: row label", l.split()[0] == label, l); rest = l.strip()[len(label):]; st = re.search(r"(\*+|\.)\s*$", rest); star = ""
    if st and (st.group(1) != "." or rest.rstrip().endswith(" .")): star = st.group(1); rest = rest.rstrip()[:-len(star)]
    v = dict(e=e, s=s, t=t, p=p); matches(g, nm, shown(g, rest), [v[k] for k in order]); g.ensure(f"{nm}: stars", star == stars(g, p), l)
def stars(g, p):
    """significance stars by their legend"""
    if g.isnan(p): return ""
    for c, s in ((.001, "***"), (.01, "**"), (.05, "*"), (.1, ".")):
        if p < c: return s
    return ""
def level(g, text, alpha, ci, tag="Confidence Interval"):
    """the interval line: the bounds and the level at which they were computed"""
    l = [x for x in text.split("\n") if tag in x and "%" in x.split(tag)[0]]; g.ensure("summary shows the interval", len(l) == 1, text); a, b = l[0].split(tag, 1); v = shown(g, a.replace("%", ""))[-1][0]
    if g.symbolic: g.eq("interval labelled with its level", v, (1 - alpha) * 100)
    else: g.ensure("interval labelled with its level", abs(v - 100 * (1 - alpha)) <= 1e-3, f"{l[0].strip()} alpha={alpha}")
    matches(g, "summary interval", shown(g, b), list(ci))
def val(g, n, **k): return g.pyreal(n, nan=True, **k)
def opt(g, n, xs):
    """an option: every combination in concrete runs; in proofs, one option at a time departs from its first value"""
    if not g.symbolic: return g.choice(n, xs)
    if getattr(g, "varied", False): return xs[0]
    v = g.choice(n, xs)
    if v is not xs[0]: g.varied = True
    return v
def alpha_(g):
    if g.symbolic: return g.pyreal("alpha", 0, 1)
    return g.choice("alpha", [.05, .1, .01, .07, .025, .2, .001, .32, .123, .29])
def other_alpha(g, K): return opt(g, "summary(alpha=...)", [(), (.1,), (.32,)])
def asdict(g, nm, d, want, exact=True):
    g.ensure(nm + " keys", set(want) <= set(d) and (not exact or set(d) <= set(want)), f"missing {set(want) - set(d)}, new {set(d) - set(want)}")
    for k, w in want.items():
        if k in d: same(g, f"{nm} {k}", d[k], w)
def same(g, nm, a, w):
    if isinstance(w, (str, type(None), list, tuple, dict, bool)):
        if isinstance(w, tuple): g.ensure(nm, len(a) == len(w)); [same(g, nm, x, y) for x, y in zip(a, w)]
        else: g.ensure(nm, (a == w) if w is not None else (a is None or (not isinstance(a, str) and a != a)), f"{a!r} {w!r}")
    else: g.eq(nm, a, w, rtol=1e-12, atol=1e-300)
def frame(g, nm, df, want):
    """want: list of rows (dict)"""
    g.ensure(nm + ": one row each", len(df) == len(want), f"{len(df)} rows, {len(want)} expected")
    for i, w in enumerate(want): asdict(g, f"{nm} row", dict(zip(df.columns, df.iloc[i])), w)
def printing(g, r, *a):
    """print_summary prints the summary"""
    if g.symbolic:
        s, out = g.stdout(lambda: r.print_summary(*a)); strip = lambda x: re.sub(r"\s+", " ", TOK.sub("#", x)).strip()     # the padding depends on the length of the token, not of the number
        g.ensure("print_summary prints the summary", strip(out) == strip(r.summary(*a)))
    else:
        _, out = g.stdout(lambda: r.print_summary(*a)); g.ensure("print_summary prints the summary", out.strip() == r.summary(*a).strip())
def sig(g, nm, r, p, alpha): g.ensure(nm, g.iff(bool(r.is_significant), bool(p < alpha)) if not g.isnan(p) else not r.is_significant)
def basic(g, extra=""):
    p = val(g, "p"); 
    return dict(att=val(g, "att"), se=val(g, "se"), t_stat=val(g, "t"), p_value=p, conf_int=(val(g, "lo"), val(g, "hi")), alpha=alpha_(g))
def cnt(g, n): return g.int(n, 0, 500)
FLAT = lambda f: {"att": f["att"], "se": f["se"], "t_stat": f["t_stat"], "p_value": f["p_value"], "conf_int_lower": f["conf_int"][0], "conf_int_upper": f["conf_int"][1]}
def common(g, r, f, a):
    """views shared by the single-estimate results"""
    s = r.summary(*a); order, L = rows(g, s, None); g.ensure("one estimate row", len(L) == 1); effect_row(g, "estimate row", order, L[0], "ATT", f["att"], f["se"], f["t_stat"], f["p_value"]); level(g, s, f["alpha"], f["conf_int"]); sig(g, "is_significant", r, f["p_value"], f["alpha"]); g.ensure("significance_stars", r.significance_stars == stars(g, f["p_value"]))
    q = repr(r); matches(g, "repr", [shown(g, q.split(k, 1)[1])[0] for k in ("ATT=", "SE=", ", p=")], [f["att"], f["se"], f["p_value"]]); printing(g, r, *a); return s
def optional(g, s, label, v):
    """a line is shown exactly when the optional field is there"""
    if v is None: g.ensure(f"summary: no {label}", not any(l.strip().startswith(label) for l in s.split("\n")), s)
    else: shows(g, s, label, v)

@harness("C18", "did", ["results.DiDResults." + m for m in ("to_dict", "to_dataframe", "summary", "print_summary", "__repr__", "is_significant", "significance_stars")], trials=120, deep=1200)
def _(g):
    """DiDResults: dictionary, one-row frame, text, properties."""
    K = g.fn("results", "DiDResults"); f = basic(g); r2 = None if opt(g, "r2", [0, 1]) else val(g, "r2"); m = opt(g, "inference", ["analytical", "wild_bootstrap"]); nb, nc = (cnt(g, "nb"), cnt(g, "nc")) if m != "analytical" else (None, None); c = dict(n_obs=cnt(g, "n"), n_treated=cnt(g, "n1"), n_control=cnt(g, "n0"))
    r = K(**f, **c, r_squared=r2, inference_method=m, n_bootstrap=nb, n_clusters=nc); want = {**FLAT(f), **c, "r_squared": r2, "inference_method": m, **({"n_bootstrap": nb, "n_clusters": nc} if nb is not None else {})}; asdict(g, "to_dict", r.to_dict(), want); frame(g, "to_dataframe", r.to_dataframe(), [want])
    s = common(g, r, f, other_alpha(g, K)); shows(g, s, "Observations:", c["n_obs"]); shows(g, s, "Treated units:", c["n_treated"]); shows(g, s, "Control units:", c["n_control"]); optional(g, s, "R-squared:", r2); optional(g, s, "Bootstrap replications:", nb); optional(g, s, "Number of clusters:", nc)
    if m != "analytical": shows_text(g, s, "Inference method:", m)
    g.cover()

@harness("C18", "synthetic", ["results.SyntheticDiDResults." + m for m in ("to_dict", "to_dataframe", "summary", "print_summary", "__repr__", "get_unit_weights_df", "get_time_weights_df")], trials=120, deep=1200, timeout=400, bound="up to two unit weights")
def _(g):
    """SyntheticDiDResults: the same views, and the weight tables hold every unit and period once."""
    K = g.fn("results", "SyntheticDiDResults"); f = basic(g); c = dict(n_obs=cnt(g, "n"), n_treated=cnt(g, "n1"), n_control=cnt(g, "n0")); lam, fit = (val(g, "lam"), val(g, "fit")) if opt(g, "extras", [0, 1]) else (None, None); vm = opt(g, "method", ["bootstrap", "placebo"]); nb = cnt(g, "nb") if opt(g, "nb?", [0, 1]) else None
    k = opt(g, "weights", [2, 1]) if g.symbolic else opt(g, "weights", [1, 2, 3, 8]); w = {u: g.nonneg(f"w{u}", 1.0, py=True) for u in [["B", 7, "A", "c", 2, 9, "zz", 5][i] for i in range(k)]}; tw = {t: g.pyreal(f"v{t}") for t in (2, 1)}
    r = K(**f, **c, unit_weights=w, time_weights=tw, pre_periods=[1, 2], post_periods=[3, 4, 5], variance_method=vm, lambda_reg=lam, pre_treatment_fit=fit, n_bootstrap=nb); want = {**FLAT(f), **c, "n_pre_periods": 2, "n_post_periods": 3, "variance_method": vm, "lambda_reg": lam, "pre_treatment_fit": fit, **({"n_bootstrap": nb} if nb is not None else {})}; asdict(g, "to_dict", r.to_dict(), want); frame(g, "to_dataframe", r.to_dataframe(), [want])
    s = common(g, r, f, other_alpha(g, K)); shows(g, s, "Observations:", c["n_obs"]); shows(g, s, "Treated units:", c["n_treated"]); shows(g, s, "Control units:", c["n_control"]); shows(g, s, "Pre-treatment periods:", 2); shows(g, s, "Post-treatment periods:", 3); optional(g, s, "Regularization (lambda):", lam); optional(g, s, "Pre-treatment fit (RMSE):", fit); shows_text(g, s, "Variance method:", vm); optional(g, s, "Bootstrap replications:", nb if vm == "bootstrap" else None)
    df = r.get_time_weights_df(); g.ensure("time weights", list(df["period"]) == list(tw)); [g.eq("time weight", a, tw[t]) for t, a in zip(df["period"], df["weight"])]
    ls = [l.strip() for l in s.split("\n") if l.strip().startswith("Unit ")]; shownu = [l[5:].split(":")[0] for l in ls]; big = [u for u in w if w[u] > 0.001]; g.ensure("number of weights shown", len(ls) == min(5, len(big)), s); seen = {str(u): u for u in w}
    for l, u in zip(ls, shownu): matches(g, "unit weight", shown(g, l.split(":", 1)[1]), [w[seen[u]]]); g.ensure("shown weights are the largest", all(bool(w[seen[u]] >= w[v]) for v in w if str(v) not in shownu))
    n = [l for l in s.split("\n") if "units with weight > 0.001" in l]; g.ensure("count of weights", len(n) == 1 and int(re.search(r"\((\d+) ", n[0]).group(1)) == len(big), s)
    if not g.symbolic: df = r.get_unit_weights_df(); g.ensure("unit weights, largest first", dict(zip(df["unit"], df["weight"])) == w and list(df["weight"]) == sorted(w.values(), reverse=True) and len(df) == len(w))
    g.cover()

@harness("C18", "triple", ["triple_diff.TripleDifferenceResults." + m for m in ("to_dict", "to_dataframe", "summary", "print_summary", "__repr__")], trials=120, deep=1200)
def _(g):
    """TripleDifferenceResults."""
    K = g.fn("triple_diff", "TripleDifferenceResults"); f = basic(g); ns = ["n_treated_eligible", "n_treated_ineligible", "n_control_eligible", "n_control_ineligible"]; c = {"n_obs": cnt(g, "n"), **{k: cnt(g, k) for k in ns}}; r2 = None if opt(g, "r2", [0, 1]) else val(g, "r2"); m = opt(g, "method", ["dr", "ipw", "reg"]); im = opt(g, "inference", ["analytical", "other"]); nb, nc = (cnt(g, "nb"), cnt(g, "nc")) if im != "analytical" else (None, None); gm = {"Treated, Eligible, Pre": val(g, "m1"), "Control, Ineligible, Post": val(g, "m2")} if opt(g, "means", [0, 1]) else None; ps = {"P(x) mean": val(g, "s1")} if gm else None
    r = K(**f, **c, estimation_method=m, r_squared=r2, inference_method=im, n_bootstrap=nb, n_clusters=nc, group_means=gm, pscore_stats=ps); want = {**FLAT(f), **c, "estimation_method": m, "inference_method": im, **({"r_squared": r2} if r2 is not None else {}), **({"n_bootstrap": nb, "n_clusters": nc} if nb is not None else {})}; asdict(g, "to_dict", r.to_dict(), want); frame(g, "to_dataframe", r.to_dataframe(), [want])
    s = common(g, r, f, other_alpha(g, K)); shows(g, s, "Total observations:", c["n_obs"]); shows_text(g, s, "Estimation method:", m)
    for k, l in zip(ns, ("Treated group, Eligible:", "Treated group, Ineligible:", "Control group, Eligible:", "Control group, Ineligible:")): shows(g, s, l, c[k])
    optional(g, s, "R-squared:", r2); optional(g, s, "Bootstrap replications:", nb); optional(g, s, "Number of clusters:", nc); [shows(g, s, k, v) for k, v in {**(gm or {}), **(ps or {})}.items()]; g.cover()

@harness("C18", "trop", ["trop.TROPResults." + m for m in ("to_dict", "to_dataframe", "summary", "print_summary", "__repr__", "get_treatment_effects_df", "get_unit_effects_df", "get_time_effects_df")], trials=120, deep=1200)
def _(g):
    """TROPResults."""
    K = g.fn("trop", "TROPResults"); f = basic(g); c = {k: cnt(g, k) for k in ("n_obs", "n_treated", "n_control", "n_treated_obs", "n_pre_periods", "n_post_periods")}; p = {k: val(g, k) for k in ("lambda_time", "lambda_unit", "lambda_nn", "effective_rank", "loocv_score")}; vm = opt(g, "variance", ["bootstrap", "jackknife"]); nb = cnt(g, "nb") if opt(g, "nb?", [0, 1]) else None; ue, te, tt = {"a": val(g, "ua"), 3: val(g, "u3")}, {1: val(g, "t1"), 2: val(g, "t2")}, {("a", 2): val(g, "x1"), (3, 1): val(g, "x2"), ("a", 1): val(g, "x3")}
    r = K(**f, **c, **p, unit_effects=ue, time_effects=te, treatment_effects=tt, factor_matrix=np.zeros((2, 2)), variance_method=vm, n_bootstrap=nb); want = {**FLAT(f), **c, **p, "variance_method": vm}; d = r.to_dict(); asdict(g, "to_dict", d, want, exact=False); frame(g, "to_dataframe", r.to_dataframe(), [{**d, **want}])
    for k in set(d) - set(want): g.ensure("further entries are fields", k in vars(r)); same(g, f"to_dict {k}", d[k], vars(r)[k])
    frame(g, "treatment effects", r.get_treatment_effects_df(), [dict(unit=u, time=t, effect=v) for (u, t), v in tt.items()]); frame(g, "unit effects", r.get_unit_effects_df(), [dict(unit=u, effect=v) for u, v in ue.items()]); frame(g, "time effects", r.get_time_effects_df(), [dict(time=u, effect=v) for u, v in te.items()])
    s = common(g, r, f, other_alpha(g, K)); [shows(g, s, l, {**c, **p}[k]) for k, l in (("n_obs", "Observations:"), ("n_treated", "Treated units:"), ("n_control", "Control units:"), ("n_treated_obs", "Treated observations:"), ("n_pre_periods", "Pre-treatment periods:"), ("n_post_periods", "Post-treatment periods:"), ("lambda_time", "Lambda (time decay):"), ("lambda_unit", "Lambda (unit distance):"), ("lambda_nn", "Lambda (nuclear norm):"), ("effective_rank", "Effective rank:"), ("loocv_score", "LOOCV score:"))]; shows_text(g, s, "Variance method:", vm); optional(g, s, "Bootstrap replications:", nb if vm == "bootstrap" else None); g.cover()

def eff(g, n): return dict(effect=val(g, "e" + n), se=val(g, "s" + n), t_stat=val(g, "t" + n), p_value=val(g, "p" + n), conf_int=(val(g, "l" + n), val(g, "h" + n)))
def flat(d, **k): return {**k, "effect": d["effect"], "se": d["se"], "t_stat": d["t_stat"], "p_value": d["p_value"], "conf_int_lower": d["conf_int"][0], "conf_int_upper": d["conf_int"][1]}
@harness("C18", "multi_period", ["results.MultiPeriodDiDResults." + m for m in ("to_dict", "to_dataframe", "summary", "print_summary", "get_effect", "is_significant", "significance_stars")] + ["results.PeriodEffect.is_significant", "results.PeriodEffect.significance_stars"], trials=120, deep=1200, timeout=400, bound="one post period")
def _(g):
    """MultiPeriodDiDResults: one row per post period; the average; lookups."""
    K, P = g.fn("results", "MultiPeriodDiDResults"), g.fn("results", "PeriodEffect"); per = opt(g, "periods", [[4], ["q3"]] + ([] if g.symbolic else [[4, 5, 2], ["q3", "q4"], [np.int64(7), np.int64(9)]])); E = {k: eff(g, str(k)) for k in per}; f = dict(avg_att=val(g, "att"), avg_se=val(g, "se"), avg_t_stat=val(g, "t"), avg_p_value=val(g, "p"), avg_conf_int=(val(g, "lo"), val(g, "hi")), alpha=alpha_(g)); c = dict(n_obs=cnt(g, "n"), n_treated=cnt(g, "n1"), n_control=cnt(g, "n0")); r2 = None if opt(g, "r2", [0, 1]) else val(g, "r2")
    r = K(period_effects={k: P(period=k, **E[k]) for k in per}, **f, **c, pre_periods=[1, 2], post_periods=list(per), r_squared=r2)
    want = {"avg_att": f["avg_att"], "avg_se": f["avg_se"], "avg_t_stat": f["avg_t_stat"], "avg_p_value": f["avg_p_value"], "avg_conf_int_lower": f["avg_conf_int"][0], "avg_conf_int_upper": f["avg_conf_int"][1], **c, "n_pre_periods": 2, "n_post_periods": len(per), "r_squared": r2}
    for k in per: want.update({f"effect_period_{k}": E[k]["effect"], f"se_period_{k}": E[k]["se"], f"pval_period_{k}": E[k]["p_value"]})
    asdict(g, "to_dict", r.to_dict(), want); df = r.to_dataframe(); g.ensure("significance column", "is_significant" in df.columns); frame(g, "to_dataframe", df.drop(columns=["is_significant"]), [flat(E[k], period=k) for k in per])
    for k, q in zip(per, df["is_significant"]): g.ensure("row significance", g.iff(bool(q), (not g.isnan(E[k]["p_value"])) and bool(E[k]["p_value"] < .05))); x = r.get_effect(k); g.ensure("lookup", x.period == k); g.eq("lookup", x.effect, E[k]["effect"]); g.ensure("effect stars", x.significance_stars == stars(g, E[k]["p_value"]))
    g.raises("unknown period", KeyError, lambda: r.get_effect("none")); s = r.summary(*other_alpha(g, K)); order, L = rows(g, s, "Period-Specific Treatment Effects"); g.ensure("one line per period", len(L) == len(per), s)
    for k, l in zip(per, L): effect_row(g, "period row", order, l, k, E[k]["effect"], E[k]["se"], E[k]["t_stat"], E[k]["p_value"])
    order, L = rows(g, s, "Average Treatment Effect (across post-periods)"); g.ensure("one average line", len(L) == 1); effect_row(g, "average row", order, L[0].replace("Avg ATT", "Avg_ATT"), "Avg_ATT", f["avg_att"], f["avg_se"], f["avg_t_stat"], f["avg_p_value"]); level(g, s, f["alpha"], f["avg_conf_int"]); sig(g, "is_significant", r, f["avg_p_value"], f["alpha"]); g.ensure("stars", r.significance_stars == stars(g, f["avg_p_value"])); optional(g, s, "R-squared:", r2)
    for l, v in (("Observations:", c["n_obs"]), ("Treated observations:", c["n_treated"]), ("Control observations:", c["n_control"]), ("Pre-treatment periods:", 2), ("Post-treatment periods:", len(per))): shows(g, s, l, v)
    printing(g, r); g.cover()

def staggered(g, mod, nm):
    K = g.fn(mod, nm); cs = nm.startswith("Call"); f = dict(overall_att=val(g, "att"), overall_se=val(g, "se"), overall_t_stat=val(g, "t"), overall_p_value=val(g, "p"), overall_conf_int=(val(g, "lo"), val(g, "hi")), alpha=alpha_(g)); c = dict(n_obs=cnt(g, "n"), n_treated_units=cnt(g, "n1"), n_control_units=cnt(g, "n0")); many = not g.symbolic
    ev = opt(g, "event study", [None, [-1, 0], [2, -2, 0]] if many else [None, [0]]) if cs else opt(g, "event study", [[-1, 0], [2, -2, 0]] if many else [[0]]); ev = None if ev is None else {k: {**eff(g, f"v{k}"), "n_groups": 1} for k in ev}; gr = opt(g, "groups", [None, [5, 3]] if many else ([None, [3]] if ev is None else [None])) if cs else None; gr = None if gr is None else {k: {**eff(g, f"g{k}"), "n_periods": 2} for k in gr}; cg = opt(g, "control", ["never_treated", "not_yet_treated"])
    if cs:
        gt = {(3, 4): eff(g, "a"), (5, 4): eff(g, "b"), (3, 3): eff(g, "c")}; bp = opt(g, "base", ["varying", "universal"]); r = K(group_time_effects={k: {**v, "n_treated": 1, "n_control": 2} for k, v in gt.items()}, **f, **c, groups=[3, 5], time_periods=[1, 2, 3, 4], control_group=cg, base_period=bp, event_study_effects=ev, group_effects=gr)
    else:
        ce = opt(g, "cohort effects", [None, 1]); ce = {(3, 1): dict(effect=val(g, "c1"), se=val(g, "d1"), weight=val(g, "w1")), (3, 0): dict(effect=val(g, "c2"), se=val(g, "d2"), weight=val(g, "w2"))} if ce else None; r = K(event_study_effects=ev, **f, **c, cohort_weights={}, groups=[3, 5], time_periods=[1, 2, 3, 4], control_group=cg, cohort_effects=ce)
    a = other_alpha(g, K); s = r.summary(*a); order, L = rows(g, s, "Overall Average Treatment Effect on the Treated"); g.ensure("one overall line", len(L) == 1); effect_row(g, "overall row", order, L[0], "ATT", f["overall_att"], f["overall_se"], f["overall_t_stat"], f["overall_p_value"]); level(g, s, f["alpha"], f["overall_conf_int"])
    for l, v in (("Total observations:", c["n_obs"]), ("Treated units:", c["n_treated_units"]), ("Control units:", c["n_control_units"]), ("Treatment cohorts:", 2), ("Time periods:", 4)): shows(g, s, l, v)
    shows_text(g, s, "Control group:", cg)
    if cs: shows_text(g, s, "Base period:", bp)
    for tab, title, lab in ((ev, "Event Study (Dynamic) Effects", "relative_period"), (gr, "Effects by Treatment Cohort", "group")):
        lvl = "event_study" if lab == "relative_period" else "group"
        if tab is None:
            g.ensure(f"no section '{title}'", title not in s)
            if cs: g.raises(f"level {lvl} not computed", ValueError, lambda: r.to_dataframe(lvl))
            continue
        order, L = rows(g, s, title); g.ensure(f"{title}: one line each", len(L) == len(tab), s)
        for k, l in zip(sorted(tab), L): effect_row(g, title, order, l, k, tab[k]["effect"], tab[k]["se"], tab[k]["t_stat"], tab[k]["p_value"])
        frame(g, f"to_dataframe({lvl})", r.to_dataframe(lvl), [flat(tab[k], **{lab: k}) for k in sorted(tab)])
    if cs: frame(g, "to_dataframe(group_time)", r.to_dataframe(), [flat(v, group=k[0], time=k[1]) for k, v in gt.items()])
    elif ce is None: g.raises("cohort effects not stored", ValueError, lambda: r.to_dataframe("cohort"))
    else: frame(g, "to_dataframe(cohort)", r.to_dataframe("cohort"), [dict(cohort=k[0], relative_period=k[1], **ce[k]) for k in sorted(ce)])
    g.raises("unknown level", ValueError, lambda: r.to_dataframe("other")); sig(g, "is_significant", r, f["overall_p_value"], f["alpha"]); g.ensure("stars", r.significance_stars == stars(g, f["overall_p_value"])); q = repr(r); matches(g, "repr", [shown(g, q.split(k, 1)[1])[0] for k in ("ATT=", "SE=", "n_groups=")], [f["overall_att"], f["overall_se"], 2]); printing(g, r, *a); g.cover()
@harness("C18", "callaway_santanna", ["staggered_results.CallawaySantAnnaResults." + m for m in ("to_dataframe", "summary", "print_summary", "__repr__", "is_significant", "significance_stars")], trials=120, deep=1200, timeout=400, bound="three group-time cells, one event time or cohort")
def _(g):
    """CallawaySantAnnaResults: group-time, event-study and cohort tables; text."""
    staggered(g, "staggered_results", "CallawaySantAnnaResults")
@harness("C18", "sun_abraham", ["sun_abraham.SunAbrahamResults." + m for m in ("to_dataframe", "summary", "print_summary", "__repr__", "is_significant", "significance_stars")], trials=120, deep=1200, timeout=400, bound="one event time, two cohort cells")
def _(g):
    """SunAbrahamResults: event-study and cohort tables; text."""
    staggered(g, "sun_abraham", "SunAbrahamResults")

@harness("C18", "bacon", ["bacon.BaconDecompositionResults." + m for m in ("to_dataframe", "summary", "print_summary", "weight_by_type", "effect_by_type")], trials=120, deep=1200, bound="three comparisons")
def _(g):
    """Bacon decomposition: one row per comparison; type totals; text."""
    C, K = g.fn("bacon", "Comparison2x2"), g.fn("bacon", "BaconDecompositionResults"); kinds = ["treated_vs_never", "earlier_vs_later", "later_vs_earlier"]; X = [dict(treated_group=3 + i, control_group=["never_treated", 5, 3][i], comparison_type=k, estimate=g.pyreal(f"b{i}"), weight=g.nonneg(f"w{i}", 1, py=True), n_treated=cnt(g, f"n{i}"), n_control=cnt(g, f"m{i}"), time_window=(1.0 + i, 4.0 + i)) for i, k in enumerate(kinds)]; tw = [g.nonneg(f"tw{i}", 1, py=True) for i in range(3)]; we = [g.pyreal(f"we{i}") if opt(g, f"has{i}", [1, 1, 0] if not g.symbolic else [1]) else None for i in range(3)]; tw = [t if w is not None else 0.0 for t, w in zip(tw, we)]
    f = dict(twfe_estimate=val(g, "twfe"), n_timing_groups=cnt(g, "ng"), n_never_treated=cnt(g, "nn"), n_obs=cnt(g, "n"), decomposition_error=val(g, "err")); r = K(comparisons=[C(**x) for x in X], total_weight_treated_vs_never=tw[0], total_weight_earlier_vs_later=tw[1], total_weight_later_vs_earlier=tw[2], weighted_avg_treated_vs_never=we[0], weighted_avg_earlier_vs_later=we[1], weighted_avg_later_vs_earlier=we[2], timing_groups=[3, 4, 5], **f)
    frame(g, "to_dataframe", r.to_dataframe(), [{**{k: v for k, v in x.items() if k != "time_window"}, "time_start": x["time_window"][0], "time_end": x["time_window"][1]} for x in X]); asdict(g, "weight_by_type", r.weight_by_type(), dict(zip(kinds, tw))); asdict(g, "effect_by_type", r.effect_by_type(), dict(zip(kinds, we)))
    s = r.summary(); tot = X[0]["weight"] * X[0]["estimate"] + X[1]["weight"] * X[1]["estimate"] + X[2]["weight"] * X[2]["estimate"]; tws = X[0]["weight"] + X[1]["weight"] + X[2]["weight"]
    for l, v in (("Total observations:", f["n_obs"]), ("Treatment timing groups:", f["n_timing_groups"]), ("Never-treated units:", f["n_never_treated"]), ("Total 2x2 comparisons:", 3), ("TWFE Estimate:", f["twfe_estimate"]), ("Weighted Sum of 2x2 Estimates:", tot), ("Decomposition Error:", f["decomposition_error"])): shows(g, s, l, v)
    for l, t, w in zip(("Treated vs Never-treated", "Earlier vs Later treated", "Later vs Earlier (forbidden)"), tw, we):
        if t > 0: shows(g, s, l, t, w, t * w)
        else: g.ensure(f"no line for {l}", not any(x.startswith(l) for x in s.split("\n")))
    tl = [x for x in s.split("\n") if re.match(r"Total +[^ 2]*[⟦\d]", x) and "comparisons" not in x and "observations" not in x]; g.ensure("total line", len(tl) == 1, s); matches(g, "total line", shown(g, tl[0][5:]), [tws, tot]); g.ensure("warning exactly when forbidden comparisons matter", g.iff("WARNING" in s, bool(tw[2] > .01))); printing(g, r); g.cover()

@harness("C18", "honest", ["honest_did.HonestDiDResults." + m for m in ("to_dict", "to_dataframe", "summary", "print_summary", "significance_stars", "is_significant", "identified_set_width", "ci_width")] + ["honest_did.SensitivityResults." + m for m in ("to_dataframe", "summary", "print_summary", "__repr__", "has_breakdown")], trials=160, deep=1600, bound="two grid points")
def _(g):
    """Honest-DiD results and sensitivity grid."""
    K, S = g.fn("honest_did", "HonestDiDResults"), g.fn("honest_did", "SensitivityResults"); b = {k: val(g, k) for k in ("lb", "ub", "ci_lb", "ci_ub")}; f = dict(M=g.nonneg("M", py=True), method=opt(g, "method", ["smoothness", "relative_magnitude", "combined"]), original_estimate=val(g, "e"), original_se=val(g, "s"), alpha=alpha_(g), ci_method=opt(g, "ci", ["FLCI", "C-LF"])); r = K(**b, **f)
    if not g.isnan(b["lb"] + b["ub"] + b["ci_lb"] + b["ci_ub"]): pass
    out = lambda lo, hi: bool(lo > 0) or bool(hi < 0); sg = out(b["ci_lb"], b["ci_ub"]); g.ensure("is_significant", bool(r.is_significant) == sg); g.ensure("stars", r.significance_stars == ("*" if sg else "")); g.eq("width", r.identified_set_width, b["ub"] - b["lb"]); g.eq("ci width", r.ci_width, b["ci_ub"] - b["ci_lb"])
    want = {**b, **f, "is_significant": sg, "identified_set_width": b["ub"] - b["lb"], "ci_width": b["ci_ub"] - b["ci_lb"]}; asdict(g, "to_dict", {**r.to_dict(), "is_significant": bool(r.to_dict()["is_significant"])}, want); d = r.to_dataframe(); g.ensure("one row", len(d) == 1 and set(d.columns) == set(want)); [same(g, f"to_dataframe {k}", d[k].iloc[0], v) for k, v in want.items() if k != "is_significant"]
    s = r.summary(); shows(g, s, "Restriction parameter (M):", f["M"]); shows_text(g, s, "CI method:", f["ci_method"]); shows(g, s, "Point estimate:", f["original_estimate"]); shows(g, s, "Standard error:", f["original_se"]); shows(g, s, "Identified set:", b["lb"], b["ub"]); level(g, s, f["alpha"], (b["ci_lb"], b["ci_ub"]), "Robust CI:"); shows_text(g, s, "Effect robust to violations:", "Yes" if sg else "No"); g.ensure("direction", ("POSITIVE" in s) == bool(sg and b["ci_lb"] > 0) and ("NEGATIVE" in s) == bool(sg and not b["ci_lb"] > 0), s); g.ensure("method", {"smoothness": "Delta^SD)", "relative_magnitude": "Delta^RM)", "combined": "Delta^SDRM)"}[f["method"]] in line(g, s, "Method:")); printing(g, r)
    Ms = [0.0, 1.5]; B = [(val(g, f"lb{i}"), val(g, f"ub{i}")) for i in (0, 1)]; CI = [(val(g, f"cl{i}"), val(g, f"cu{i}")) for i in (0, 1)]; bd = opt(g, "breakdown", [None, 0.0, 1]); bd = g.nonneg("bd", py=True) if bd == 1 else bd; q = S(M_values=np.array(Ms), bounds=B, robust_cis=CI, breakdown_M=bd, method=f["method"], original_estimate=f["original_estimate"], original_se=f["original_se"], alpha=f["alpha"]); g.ensure("has_breakdown", q.has_breakdown == (bd is not None)); d = q.to_dataframe(); g.ensure("significance column", "is_significant" in d.columns); frame(g, "grid", d.drop(columns=["is_significant"]), [dict(M=m, lb=l[0], ub=l[1], ci_lb=c[0], ci_ub=c[1]) for m, l, c in zip(Ms, B, CI)])
    for c, v in zip(CI, d["is_significant"]): g.ensure("row significance", bool(v) == out(*c))
    s = q.summary(); shows_text(g, s, "Method:", f["method"]); shows(g, s, "Original estimate:", f["original_estimate"]); shows(g, s, "Original SE:", f["original_se"]); shows(g, s, "M values tested:", 2); L = s.split("\n"); h = [i for i, l in enumerate(L) if "Lower Bound" in l][0]; tab = L[h + 2:h + 4]; [matches(g, "grid line", shown(g, l), [m, *bb, *cc]) for l, m, bb, cc in zip(tab, Ms, B, CI)]; rep = repr(q).split("breakdown_M=")[1]
    if bd is None: g.ensure("no breakdown", "None" in line(g, s, "Breakdown value:") and rep.startswith("None"))
    else: shows(g, s, "Breakdown value:", bd); g.ensure("breakdown in repr", not rep.startswith("None"), repr(q)); matches(g, "repr breakdown", shown(g, rep)[:1], [bd])
    printing(g, q); g.cover()

@harness("C18", "placebo", ["diagnostics.PlaceboTestResults." + m for m in ("to_dict", "to_dataframe", "summary", "print_summary", "significance_stars")], trials=160, deep=1600, bound="three leave-one-out effects")
def _(g):
    """placebo test results."""
    K = g.fn("diagnostics", "PlaceboTestResults"); al = alpha_(g); p = val(g, "p"); f = dict(test_type=opt(g, "type", ["fake_timing", "permutation"]), placebo_effect=val(g, "e"), se=val(g, "s"), t_stat=val(g, "t"), p_value=p, conf_int=(val(g, "lo"), val(g, "hi")), n_obs=cnt(g, "n"), is_significant=(not g.isnan(p)) and bool(p < al)); k = opt(g, "extras", [0, 1, 2]); o = dict(original_effect=val(g, "oe") if k else None, original_se=val(g, "os") if k == 2 else None, n_permutations=cnt(g, "np") if k == 2 else None, leave_one_out_effects={u: g.pyreal(f"x{u}") for u in ("a", 2, 3)} if k == 1 else None, fake_period=7 if k == 1 else None)
    r = K(**f, alpha=al, **o); d = {k: v for k, v in f.items() if k != "conf_int"}; d.update(conf_int_lower=f["conf_int"][0], conf_int_upper=f["conf_int"][1]); d.update({k: o[k] for k in ("original_effect", "original_se", "n_permutations") if o[k] is not None}); asdict(g, "to_dict", r.to_dict(), d); frame(g, "to_dataframe", r.to_dataframe(), [{**d, "is_significant": np.bool_(d["is_significant"]) if False else d["is_significant"]}]); g.ensure("stars", r.significance_stars == stars(g, p))
    s = r.summary(); shows(g, s, "Placebo effect:", f["placebo_effect"]); shows(g, s, "Standard error:", f["se"]); shows(g, s, "T-statistic:", f["t_stat"]); shows(g, s, "P-value:", p); level(g, s, al, f["conf_int"], "CI:"); shows(g, s, "Observations:", f["n_obs"]); optional(g, s, "Original ATT:", o["original_effect"]); optional(g, s, "Original SE:", o["original_se"]); optional(g, s, "Number of permutations:", o["n_permutations"]); optional(g, s, "Fake treatment period:", o["fake_period"]); g.ensure("title", f["test_type"] in s)
    if k == 1:
        x = list(o["leave_one_out_effects"].values()); m = (x[0] + x[1] + x[2]) / 3; shows(g, s, "Units analyzed:", 3); shows(g, s, "Mean effect:", m); shows(g, s, "Std. dev.:", g.sqrt(((x[0] - m) ** 2 + (x[1] - m) ** 2 + (x[2] - m) ** 2) / 2)); shows(g, s, "Min effect:", g.min(g.min(x[0], x[1]), x[2])); shows(g, s, "Max effect:", g.max(g.max(x[0], x[1]), x[2]))
    w = [l for l in s.split("\n") if "placebo effect detected" in l]; g.ensure("interpretation", len(w) == 1 and w[0].strip().startswith("WARNING") == f["is_significant"], s); lv = shown(g, w[0].split("p ", 1)[1])[-1:]; matches(g, "interpretation states the level used", lv, [al]); printing(g, r); g.cover()

@harness("C18", "power", ["power.PowerResults." + m for m in ("to_dict", "to_dataframe", "summary", "print_summary", "__repr__")] + ["power.SimulationPowerResults." + m for m in ("to_dict", "to_dataframe", "summary", "print_summary", "power_curve_df", "__post_init__")], trials=120, deep=1200)
def _(g):
    """power analysis results."""
    K, S = g.fn("power", "PowerResults"), g.fn("power", "SimulationPowerResults"); f = {**{k: val(g, k) for k in ("power", "mde", "effect_size", "alpha", "sigma", "rho")}, **{k: cnt(g, k) for k in ("required_n", "n_treated", "n_control", "n_pre", "n_post")}, "alternative": opt(g, "alt", ["two-sided", "greater"]), "design": opt(g, "design", ["basic_did", "panel"])}; r = K(**f); asdict(g, "to_dict", r.to_dict(), f); frame(g, "to_dataframe", r.to_dataframe(), [f]); s = r.summary()
    for l, v in (("Significance level (alpha):", "alpha"), ("Treated units:", "n_treated"), ("Control units:", "n_control"), ("Pre-treatment periods:", "n_pre"), ("Post-treatment periods:", "n_post"), ("Residual SD (sigma):", "sigma"), ("Intra-cluster correlation:", "rho"), ("Effect size:", "effect_size"), ("Power:", "power"), ("Minimum detectable effect:", "mde"), ("Required sample size:", "required_n")): shows(g, s, l, f[v])
    shows(g, s, "Total units:", f["n_treated"] + f["n_control"]); shows_text(g, s, "Design:", f["design"]); shows_text(g, s, "Alternative hypothesis:", f["alternative"]); printing(g, r); q = repr(r); matches(g, "repr", [shown(g, q.split(k, 1)[1])[0] for k in ("power=", "mde=", "required_n=")], [f["power"], f["mde"], f["required_n"]])
    f = {k: val(g, "q" + k) for k in ("power", "power_se", "rejection_rate", "mean_estimate", "std_estimate", "mean_se", "coverage", "true_effect", "alpha")}; ci = (val(g, "pl"), val(g, "ph")); n = cnt(g, "ns"); x, y = [0.5, 1.0], [val(g, "y0"), val(g, "y1")]; r = S(**f, power_ci=ci, n_simulations=n, effect_sizes=x, powers=y, estimator_name="E"); bias = f["mean_estimate"] - f["true_effect"]; g.eq("bias", r.bias, bias); rm = g.sqrt(bias * bias + f["std_estimate"] * f["std_estimate"]); g.eq("rmse", r.rmse, rm)
    want = {**f, "power_ci_lower": ci[0], "power_ci_upper": ci[1], "bias": bias, "rmse": rm, "n_simulations": n, "estimator_name": "E"}; asdict(g, "to_dict", r.to_dict(), want); frame(g, "to_dataframe", r.to_dataframe(), [want]); frame(g, "power curve", r.power_curve_df(), [dict(effect_size=a, power=b) for a, b in zip(x, y)]); s = r.summary(); shows_text(g, s, "Estimator:", "E"); shows(g, s, "Number of simulations:", n)
    for l, v in (("True treatment effect:", f["true_effect"]), ("Significance level (alpha):", f["alpha"]), ("Power (rejection rate):", f["power"]), ("Standard error:", f["power_se"]), ("Mean estimate:", f["mean_estimate"]), ("Bias:", bias), ("Std. deviation of estimates:", f["std_estimate"]), ("RMSE:", rm), ("Mean standard error:", f["mean_se"]), ("Coverage (CI contains true):", f["coverage"])): shows(g, s, l, v)
    level(g, s, .05, ci, "CI:"); printing(g, r); g.cover()

@harness("C18", "pretrends", ["pretrends.PreTrendsPowerResults." + m for m in ("to_dict", "to_dataframe", "summary", "print_summary", "is_informative", "power_adequate")] + ["pretrends.PreTrendsPowerCurve.to_dataframe"], trials=120, deep=1200)
def _(g):
    """pre-trends power results and curve."""
    K, C = g.fn("pretrends", "PreTrendsPowerResults"), g.fn("pretrends", "PreTrendsPowerCurve"); f = {k: val(g, k) for k in ("power", "mdv", "violation_magnitude", "alpha", "target_power", "test_statistic", "critical_value", "noncentrality")}; se = g.reals("se", 2, lo=0); f.update(violation_type=opt(g, "type", ["linear", "custom"]), n_pre_periods=2); r = K(**f, pre_period_effects=np.zeros(2), pre_period_ses=np.array(list(se)), vcov=np.eye(2)); inf, ok = bool(f["mdv"] < 2 * g.max(se[0], se[1])), bool(f["power"] >= f["target_power"]); g.ensure("informative", bool(r.is_informative) == inf); g.ensure("adequate", bool(r.power_adequate) == ok)
    want = {**f, "is_informative": inf, "power_adequate": ok}; asdict(g, "to_dict", r.to_dict(), want); d = r.to_dataframe(); g.ensure("one row", len(d) == 1 and set(d.columns) == set(want)); [same(g, f"to_dataframe {k}", d[k].iloc[0], f[k]) for k in f]; s = r.summary(); shows_text(g, s, "Violation type:", f["violation_type"])
    for l, v in (("Number of pre-periods:", "n_pre_periods"), ("Significance level (alpha):", "alpha"), ("Target power:", "target_power"), ("Violation magnitude (M):", "violation_magnitude"), ("Power to detect this violation:", "power"), ("Minimum detectable violation:", "mdv"), ("Test statistic (expected):", "test_statistic"), ("Critical value:", "critical_value"), ("Non-centrality parameter:", "noncentrality")): shows(g, s, l, f[v])
    shows(g, s, "Minimum detectable violation (MDV):", f["mdv"]); g.ensure("verdict", ("meets target" in s) == ok and ("below target" in s) == (not ok), s); printing(g, r); pw = [val(g, "p0"), val(g, "p1")]; c = C(M_values=np.array([0.0, 2.0]), powers=np.array(pw, dtype=object if g.symbolic else float), mdv=f["mdv"], alpha=f["alpha"], target_power=f["target_power"], violation_type="linear"); frame(g, "curve", c.to_dataframe(), [dict(M=a, power=b) for a, b in zip((0.0, 2.0), pw)]); g.cover()

@harness("C18", "inference", ["linalg.InferenceResult." + m for m in ("to_dict", "is_significant", "significance_stars")] + ["utils.WildBootstrapResults.summary", "utils.WildBootstrapResults.print_summary", "staggered_results.GroupTimeEffect.significance_stars"], trials=160, deep=1600)
def _(g):
    """coefficient inference, wild-bootstrap and group-time records."""
    K = g.fn("linalg", "InferenceResult"); al = alpha_(g); p = val(g, "p"); f = dict(coefficient=val(g, "b"), se=val(g, "s"), t_stat=val(g, "t"), p_value=p, conf_int=(val(g, "lo"), val(g, "hi")), df=opt(g, "df", [None, 7]), alpha=al); r = K(**f); asdict(g, "to_dict", r.to_dict(), f); g.ensure("significant", bool(r.is_significant()) == ((not g.isnan(p)) and bool(p < al))); g.ensure("significant at a level", bool(r.is_significant(.2)) == ((not g.isnan(p)) and bool(p < .2))); g.ensure("stars", r.significance_stars() == stars(g, p))
    W = g.fn("utils", "WildBootstrapResults"); f = dict(se=val(g, "ws"), p_value=val(g, "wp"), t_stat_original=val(g, "wt"), ci_lower=val(g, "wl"), ci_upper=val(g, "wu"), n_clusters=cnt(g, "nc"), n_bootstrap=cnt(g, "nb"), weight_type=opt(g, "wtype", ["webb", "mammen"]), alpha=al); w = W(**f); s = w.summary()
    for l, v in (("Bootstrap SE:", "se"), ("Bootstrap p-value:", "p_value"), ("Original t-stat:", "t_stat_original"), ("Number of clusters:", "n_clusters"), ("Bootstrap reps:", "n_bootstrap")): shows(g, s, l, f[v])
    shows_text(g, s, "Weight type:", f["weight_type"]); ci = [l for l in s.split("\n") if l.startswith("CI (")]; g.ensure("interval line", len(ci) == 1); a, b = ci[0].split(":", 1) if not g.symbolic else re.split(r":\s+\[", ci[0], maxsplit=1); v = shown(g, a.replace("%", ""))[-1][0]
    if g.symbolic: g.eq("interval labelled with its level", v, (1 - al) * 100)
    else: g.ensure("interval labelled with its level", abs(v - 100 * (1 - al)) <= 1e-3, ci[0])
    matches(g, "interval", shown(g, b), [f["ci_lower"], f["ci_upper"]]); printing(g, w); g.cover()

@harness("C18", "estimator_summaries", ["estimators.DifferenceInDifferences.summary", "estimators.MultiPeriodDiD.summary", "staggered.CallawaySantAnna.summary", "sun_abraham.SunAbraham.summary", "triple_diff.TripleDifference.summary", "bacon.BaconDecomposition.summary"], sym=False, trials=20, deep=100)
def _(g):
    """an estimator's summary is the summary of the result it returned; before fitting it is refused; views of fitted results agree with their fields."""
    import warnings
    from .. import calls as C
    r = g.rng; nm = g.choice("estimator", ["DifferenceInDifferences", "TwoWayFixedEffects", "MultiPeriodDiD", "SyntheticDiD", "CallawaySantAnna", "SunAbraham", "TripleDifference", "BaconDecomposition"]); K = g.fn(C.MODULE[nm], nm)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); p = C.params(r, nm); e = K(**p); g.raises("not fitted", (RuntimeError, ValueError), lambda: e.summary()); a = C.fit_args(r, nm, p)
        if p.get("inference") == "wild_bootstrap": raise Skip()
        x = e.fit(**a); g.ensure("summary of the result", e.summary() == x.summary()); _, out = g.stdout(lambda: e.print_summary()); g.ensure("printed", out.strip() == x.summary().strip())
        if hasattr(x, "to_dict"):
            d = x.to_dict()
            for k, v in d.items():
                if k in vars(x): same(g, f"fitted {nm} {k}", v, vars(x)[k])
            if hasattr(x, "conf_int"): same(g, "interval", (d["conf_int_lower"], d["conf_int_upper"]), tuple(x.conf_int))
    g.cover()
