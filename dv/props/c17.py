"""C17: data preparation builds exactly the documented indicators and panels."""
import itertools, warnings
import numpy as np, pandas as pd
from ..harness import harness, Skip

def same_columns(g, nm, df, out, new):
    """every original column is unchanged and exactly the named ones are added"""
    g.ensure(nm + ": columns", list(out.columns) == list(df.columns) + [c for c in new if c not in df.columns], str(list(out.columns)))
    for c in df.columns:
        if c in new: continue
        a, b = df[c], out[c]
        if g.symbolic: g.eq(f"{nm}: {c} unchanged", b.values if not hasattr(b.a, "G") else b.a.G, a.values if not hasattr(a.a, "G") else a.a.G)
        else: g.ensure(f"{nm}: {c} unchanged", a.equals(b), c); g.ensure(f"{nm}: row labels unchanged", a.index.equals(b.index))

@harness("C17", "threshold_indicator", ["prep.make_treatment_indicator"], trials=60, deep=600)
def _(g):
    """for any number of rows, any column and threshold: the new column is 1 exactly where the value is on the stated side of the threshold (threshold included), 0 elsewhere, other columns unchanged."""
    n = g.axis("rows", 1); x = g.vec("x", n); c = g.real("c"); df = g.table(n, x=x, z=g.vec("z", n)); above = g.choice("above", [True, False]); new = g.choice("name", ["treated", "trt"])
    if not g.symbolic and g.choice("at a value", [False, True]): c = x[0]
    out = g.fn("prep", "make_treatment_indicator")(df, "x", threshold=c, above_threshold=above, new_column=new)
    same_columns(g, "table", df, out, [new]); d = out[new].values; one = 1.0
    g.each("1 exactly on the stated side", lambda v, w: g.and_(g.or_(w == 0, w == 1), g.iff(w == one, v >= c if above else v <= c)), x, d * 1.0)
    g.ensure("input not changed", list(df.columns) == ["x", "z"]); g.cover()

@harness("C17", "membership_indicator", ["prep.make_treatment_indicator", "prep.make_post_indicator"], trials=80, deep=800)
def _(g):
    """for any number of rows and every subset of values: the treatment (post) column is 1 exactly on rows whose value (period) is in the list; a single value acts as a one-element list."""
    n = g.axis("rows", 3); t, I = g.codes("t", n, [2.0, 3.0, 5.0]); sub = g.choice("values", [[2.0], [3.0], [5.0], [2.0, 5.0], [3.0, 5.0], [2.0, 3.0, 5.0], [7.0], [7.0, 3.0], []]); scalar = g.choice("as", ["list", "tuple", "set", "scalar"])
    vals = sub[0] if scalar == "scalar" and len(sub) == 1 else {"tuple": tuple, "set": set}.get(scalar, list)(sub)
    df = g.table(n, t=t, z=g.vec("z", n)); post = g.choice("function", [False, True]); f = g.fn("prep", "make_post_indicator" if post else "make_treatment_indicator")
    out = f(df, "t", post_periods=vals) if post else f(df, "t", treated_values=vals); new = "post" if post else "treated"; same_columns(g, "table", df, out, [new])
    want = sum([i for i, v in zip(I, [2.0, 3.0, 5.0]) if v in sub], I[0] * 0.0); g.eq("1 exactly on the listed values", out[new].values * 1.0, want); g.cover()

@harness("C17", "start_indicator", ["prep.make_post_indicator"], trials=60, deep=600)
def _(g):
    """for any number of rows and any start: post is 1 exactly from the start period on."""
    n = g.axis("rows", 1); x = g.vec("t", n); c = g.real("start"); df = g.table(n, t=x)
    if not g.symbolic and g.choice("at a value", [False, True]): c = x[0]
    out = g.fn("prep", "make_post_indicator")(df, "t", treatment_start=c, new_column="after"); same_columns(g, "table", df, out, ["after"])
    g.each("1 exactly from the start on", lambda v, w: g.and_(g.or_(w == 0, w == 1), g.iff(w == 1.0, v >= c)), x, out["after"].values * 1.0); g.cover()

@harness("C17", "event_time", ["prep.create_event_time"], trials=60, deep=600)
def _(g):
    """for any number of rows: event time is period minus first-treatment time."""
    n = g.axis("rows", 1); x = g.vec("t", n); f = g.vec("f", n); df = g.table(n, t=x, first=f); out = g.fn("prep", "create_event_time")(df, "t", "first", new_column="rel"); same_columns(g, "table", df, out, ["rel"]); g.eq("period minus first treatment", out["rel"].values, x - f); g.cover()

@harness("C17", "cohorts", ["prep.aggregate_to_cohorts"], trials=60, deep=600)
def _(g):
    """for any number of rows: one row per treatment level and period holding the mean outcome, the mean covariates and the number of distinct units of the cell."""
    n = g.axis("rows", 6, 30); d = g.binary("trt", n); t, I = g.codes("t", n, [1.0, 2.0, 4.0]); y, x = g.vec("y", n), g.vec("x", n); u, U = g.labels("u", n, g.axis("units", 1, 5)); df = g.table(n, unit=u, t=t, trt=d, y=y, x=x)
    covs = g.choice("covariates", [None, ["x"], []]); cells = [(a, k) for a in (0.0, 1.0) for k in range(3)]
    ind = {(a, k): (d if a else 1 - d) * I[k] for a, k in cells}
    for a, k in cells: g.assume(g.sum(ind[a, k]) > 0)
    out = g.fn("prep", "aggregate_to_cohorts")(df, "unit", "t", "trt", "y", covariates=covs)
    g.ensure("columns", list(out.columns) == ["trt", "t", "mean_y", "n_units"] + (["x"] if covs else []), str(list(out.columns))); g.ensure("one row per cell", len(out) == 6)
    from ..frames import nunique_in
    for r, (a, k) in enumerate(cells):
        row = out.iloc[r]; w = ind[a, k]; m = g.sum(w); g.ensure("cell", bool(row["trt"] == a) and bool(row["t"] == [1.0, 2.0, 4.0][k])); g.eq("mean outcome", row["mean_y"], g.sum(w * y) / m)
        g.eq("number of units", row["n_units"], nunique_in(u, w) if g.symbolic else len(set(np.asarray(u)[np.asarray(w) == 1])))
        if covs: g.eq("mean covariate", row["x"], g.sum(w * x) / m)
    g.cover()

@harness("C17", "reshape", ["prep.wide_to_long"], trials=80, deep=800, bound="3 units, 1 to 3 value columns, any cell values")
def _(g):
    """wide to long: one row per unit and value column holding exactly that cell, its time label and the unit's other columns, sorted by unit and time."""
    o = object if g.symbolic else float; nu = 3 if g.symbolic else g.int("units", 1, 6); k = g.choice("columns", [1, 2, 3]); V = np.array([[g.real(f"v{i}{j}") for j in range(k)] for i in range(nu)], dtype=o); Z = np.array([g.real(f"z{i}") for i in range(nu)], dtype=o)
    ids = [[5, 2, 9, 1, 7, 3][i] for i in range(nu)] if g.choice("ids", ["int", "str"]) == "int" else ["cabfed"[i] for i in range(nu)]; tv = g.choice("times", [None, [2001, 2003, 2002], ["a", "c", "b"]])
    cols = [f"y{j}" for j in range(k)]; df = pd.DataFrame({"id": ids, "z": pd.Series(list(Z), dtype=o)}); [df.__setitem__(c, pd.Series(list(V[:, j]), dtype=o)) for j, c in enumerate(cols)]; df.index = [10 * i + 3 for i in range(nu)]; order = g.choice("order", [1, -1])
    out = g.fn("prep", "wide_to_long")(df, cols[::order], "id", time_name="when", value_name="val", time_values=None if tv is None else tv[:k][::order]); g.ensure("columns", list(out.columns) == ["id", "when", "val", "z"], str(list(out.columns))); g.ensure("one row per unit and column", len(out) == nu * k)
    lab = {(tv[:k] if tv is not None else (list(range(k)) if order == 1 else list(range(k))[::-1]))[j]: j for j in range(k)}
    seen = [(i, w) for i, w in zip(out["id"], out["when"])]; g.ensure("sorted, no pair repeated", seen == sorted(itertools.product(ids, lab)), str(seen))
    for i, w, v, z in out.itertuples(index=False): r = ids.index(i); g.eq("value of the wide cell", v, V[r, lab[w]]); g.eq("other columns carried over", z, Z[r])
    g.cover()

def panel_cells(g, nu, nt, shuffle):
    cells = list(itertools.product(range(nu), range(nt))); miss = g.choice("absent", [(), ((0, 0),), ((1, 1),), ((0, 1), (2, 0)), ((0, nt - 1), (1, 0), (1, nt - 1)), ((2, 0), (2, 1))]); keep = [c for c in cells if c not in miss and c[0] < nu and c[1] < nt]
    if shuffle == 1: keep = keep[::-1]
    if shuffle == 2: keep = sorted(keep, key=lambda c: (c[1], -c[0]))
    return keep
@harness("C17", "balance", ["prep.balance_panel"], trials=120, deep=1200, bound="3 units, 3 periods, six patterns of missing pairs, any cell values")
def _(g):
    """balancing: inner keeps exactly the rows of units seen in every period; outer creates every unit-period pair once; fill completes missing cells with the value (or the nearest earlier, else later, cell of the unit); observed cells keep their values."""
    o = object if g.symbolic else float; keep = panel_cells(g, 3, 3, g.choice("rows", [0, 1, 2])); uid, tid = g.choice("labels", [([4, 1, 2], [10, 20, 30]), (["b", "a", "c"], [3, 1, 2])]); v = {c: g.real(f"v{c[0]}{c[1]}") for c in keep}; how = g.choice("method", ["inner", "outer", "fill value", "fill"])
    df = pd.DataFrame({"u": [uid[a] for a, b in keep], "t": [tid[b] for a, b in keep], "v": pd.Series([v[c] for c in keep], dtype=o)}); df.index = [7 * i for i in range(len(df))]; c0 = g.real("fill")
    tset = sorted({tid[b] for a, b in keep}); uset = list(dict.fromkeys(uid[a] for a, b in keep)); ob = {(uid[a], tid[b]): v[a, b] for a, b in keep}
    out = g.fn("prep", "balance_panel")(df, "u", "t", method=how.split()[0], **({"fill_value": c0} if how == "fill value" else {}))
    g.ensure("columns", list(out.columns) == ["u", "t", "v"])
    pairs = list(zip(out["u"], out["t"])); g.ensure("no pair repeated", len(set(pairs)) == len(pairs))
    if how == "inner":
        full = [u for u in uset if all((u, t) in ob for t in tset)]; g.ensure("exactly the rows of complete units, in their order", pairs == [(u, t) for u, t in zip(df["u"], df["t"]) if u in full], str(pairs)); g.ensure("row labels kept", list(out.index) == [i for i, u in zip(df.index, df["u"]) if u in full])
    else: g.ensure("every unit-period pair", set(pairs) == set(itertools.product(uset, tset)), str(pairs))
    for (u, t), x in zip(pairs, out["v"]):
        if (u, t) in ob: g.eq("observed value kept", x, ob[u, t]); continue
        if how == "outer": g.nan("absent pair is missing", x)
        elif how == "fill value":
            if g.symbolic: continue            # object columns are not numeric for pandas: decided by the concrete runs
            g.eq("absent pair filled with the value", x, c0)
        else:
            i = tset.index(t); near = [ob[u, s] for s in tset[:i][::-1] if (u, s) in ob] + [ob[u, s] for s in tset[i + 1:] if (u, s) in ob]; g.eq("absent pair filled from the nearest earlier, else later, cell", x, near[0])
    g.cover()

@harness("C17", "tables", ["prep.make_treatment_indicator", "prep.make_post_indicator", "prep.create_event_time", "prep.wide_to_long", "prep.balance_panel", "prep.aggregate_to_cohorts"], sym=False, trials=150, deep=2500)
def _(g):
    """the same contracts on random tables of numbers, strings, dates, booleans and missing values, with the error cases."""
    r = g.rng; n = int(r.integers(1, 15)); kind = g.choice("kind", ["int", "float", "str", "date", "bool"]); f = g.choice("function", ["treat", "post", "event", "balance", "cohort", "errors"])
    pool = {"int": [0, 1, 2, 5, -3], "float": [.5, 1.0, -2.25, 1e6, np.nan], "str": ["a", "b", "", "zz", "1"], "date": list(pd.to_datetime(["2020-01-01", "2020-06-30", "2021-01-01", "2019-12-31", "2020-01-02"])), "bool": [True, False, True, False, True]}[kind]
    pick = lambda: pool[int(r.integers(len(pool)))]; x = [pick() for _ in range(n)]; df = pd.DataFrame({"x": x, "w": r.normal(size=n)}); df.index = r.permutation(n) * 2; before = df.copy(deep=True); M = g.mod("prep"); isna = lambda v: v is None or v is pd.NaT or v != v
    if f in ("treat", "post"):
        if r.random() < .5 or kind in ("str", "bool"):
            vals = [pick() for _ in range(int(r.integers(1, 4)))]; q = vals if r.random() < .6 else (tuple(vals) if r.random() < .5 else vals[0]); use = q if isinstance(q, (list, tuple)) else [q]
            out = M.make_treatment_indicator(df, "x", treated_values=q, new_column="new") if f == "treat" else M.make_post_indicator(df, "x", post_periods=q, new_column="new"); want = [int(any((v == k) or (isna(v) and isna(k)) for k in use)) for v in x]
        else:
            c = pick(); c = pool[0] if isna(c) else c
            if f == "treat": up = bool(r.integers(2)); out = M.make_treatment_indicator(df, "x", threshold=c, above_threshold=up, new_column="new"); want = [int(v >= c if up else v <= c) for v in x]
            else: out = M.make_post_indicator(df, "x", treatment_start=str(c.date()) if kind == "date" and r.random() < .6 else c, new_column="new"); want = [int(v >= c) for v in x]
        g.ensure("indicator", list(out["new"]) == want, f"{list(out['new'])} {want} {x}"); g.ensure("integer column", out["new"].dtype.kind in "iu"); same_columns(g, "table", before, out, ["new"])
    elif f == "event":
        t = r.integers(0, 9, n).astype(float if r.random() < .5 else int); ft = np.where(r.random(n) < .3, np.nan, r.integers(0, 9, n).astype(float)); ft = np.where(r.random(n) < .2, np.inf, ft)
        if r.random() < .3: ft = np.where(np.isfinite(ft), ft, 4).astype(int)
        df["t"] = t; df["ft"] = ft; before = df.copy(deep=True)
        if kind == "date": df["t"] = pd.to_datetime("2020-01-01") + pd.to_timedelta(t, unit="D"); df["ft"] = pd.to_datetime("2020-01-01") + pd.to_timedelta(np.where(np.isfinite(ft), ft, np.nan), unit="D"); before = df.copy(deep=True)
        out = M.create_event_time(df, "t", "ft"); same_columns(g, "table", before, out, ["event_time"]); e = out["event_time"]
        for a, b, v in zip(t, ft, e):
            if not np.isfinite(b): g.ensure("missing for never-treated rows", pd.isna(v), repr(v))
            elif kind == "date": g.ensure("event time", v == pd.Timedelta(days=int(a - b)), repr(v))
            else: g.eq("event time", float(v), float(a - b))
    elif f == "balance":
        u = r.integers(0, 4, n); t = r.integers(0, 3, n); d = pd.DataFrame({"u": u, "t": t, "y": r.normal(size=n), "k": r.integers(0, 9, n), "s": [f"s{i}" for i in range(n)]}); d.loc[r.random(n) < .2, "y"] = np.nan; how = g.choice("method", ["inner", "outer", "value", "fill"]); d = d if how == "inner" else d.drop_duplicates(["u", "t"]); b4 = d.copy(deep=True)
        out = M.balance_panel(d, "u", "t", method="fill" if how == "value" else how, **({"fill_value": -7.5} if how == "value" else {})); g.ensure("input unchanged", d.equals(b4)); ps, us = sorted(set(d.t)), list(dict.fromkeys(d.u)); row = {(a, b): (y, k, s) for a, b, y, k, s in d.itertuples(index=False)}
        if how == "inner": g.ensure("rows of complete units", out.equals(d[[all((a, p) in row for p in ps) for a in d.u]])); g.cover(); return
        g.ensure("every pair once", sorted(zip(out.u, out.t)) == sorted(itertools.product(us, ps))); g.ensure("columns", list(out.columns) == list(d.columns))
        for a, b, y, k, s in out.itertuples(index=False):
            for j, v in enumerate((y, k, s)):
                w = row.get((a, b), (np.nan,) * 3)[j]
                if not pd.isna(w): g.ensure("observed value kept", v == w, f"{v} {w}")
                elif how == "outer": g.ensure("missing stays missing", pd.isna(v))
                elif how == "value": g.ensure("filled with the value", (v == -7.5) if j < 2 else pd.isna(v), repr(v))
                else:
                    i = ps.index(b); near = [row[a, p][j] for p in ps[:i][::-1] + ps[i + 1:] if (a, p) in row and not pd.isna(row[a, p][j])]; g.ensure("filled from the nearest earlier, else later, cell", (pd.isna(v) if not near else v == near[0]), f"{v} {near}")
    elif f == "cohort":
        d = pd.DataFrame({"u": r.integers(0, 4, n), "t": [pick() for _ in range(n)], "d": r.integers(0, 2, n), "y": r.normal(size=n), "c": r.normal(size=n)}); out = M.aggregate_to_cohorts(d, "u", "t", "d", "y", covariates=["c"] if r.random() < .5 else None); d = d[~d.t.isna()]; cells = sorted(set(zip(d.d, d.t))); g.ensure("one row per cell", list(zip(out.d, out.t)) == cells)
        for _, q in out.iterrows():
            w = d[(d.d == q.d) & (d.t == q.t)]; g.eq("mean", q["mean_y"], np.mean(w.y)); g.ensure("units", q.n_units == len(set(w.u)))
            if "c" in out: g.eq("mean covariate", q["c"], np.mean(w.c))
    else:
        V = ValueError
        g.raises("unknown column", V, lambda: M.make_treatment_indicator(df, "nope", threshold=1)); g.raises("both rules", V, lambda: M.make_treatment_indicator(df, "x", treated_values=[1], threshold=1)); g.raises("no rule", V, lambda: M.make_treatment_indicator(df, "x"))
        g.raises("unknown column", V, lambda: M.make_post_indicator(df, "nope", treatment_start=1)); g.raises("both rules", V, lambda: M.make_post_indicator(df, "x", post_periods=[1], treatment_start=1)); g.raises("no rule", V, lambda: M.make_post_indicator(df, "x"))
        g.raises("unknown column", V, lambda: M.create_event_time(df, "x", "nope")); g.raises("unknown column", V, lambda: M.create_event_time(df, "nope", "x")); g.raises("unknown method", V, lambda: M.balance_panel(df, "x", "w", method="other")); g.raises("unknown column", V, lambda: M.balance_panel(df, "nope", "w")); g.raises("unknown column", V, lambda: M.balance_panel(df, "x", "nope"))
        g.raises("no value columns", V, lambda: M.wide_to_long(df, [], "x")); g.raises("unknown id", V, lambda: M.wide_to_long(df, ["w"], "nope")); g.raises("unknown value column", V, lambda: M.wide_to_long(df, ["nope"], "x")); g.raises("wrong number of labels", V, lambda: M.wide_to_long(df, ["w"], "x", time_values=[1, 2]))
    g.ensure("input unchanged", df.equals(before)); g.cover()

@harness("C17", "validation", ["prep.validate_did_data"], sym=False, trials=150, deep=2000)
def _(g):
    """validation calls a table valid exactly when the columns exist, the outcome is numeric, treatment is 0/1, nothing required is missing, both groups occur and every required cell (two periods) or at least two periods per group (more) is observed; the summary counts are exact; raising and reporting agree."""
    r = g.rng; n = int(r.integers(1, 16)); P = int(r.integers(1, 4)); V = g.fn("prep", "validate_did_data"); df = pd.DataFrame({"y": r.normal(size=n), "d": r.integers(0, 2, n), "t": r.integers(0, P, n), "u": r.integers(0, 5, n)}); why = g.choice("defect", [None, None, "nan y", "nan d", "nan u", "text", "three", "column", "all treated"]); unit = "u" if r.random() < .6 else None
    i = int(r.integers(n)); ok = True
    if why == "nan y": df.loc[i, "y"] = np.nan; ok = False
    if why == "nan d": df["d"] = df["d"].astype(float); df.loc[i, "d"] = np.nan; ok = False
    if why == "nan u": df["u"] = df["u"].astype(float); df.loc[i, "u"] = np.nan; ok = unit is None
    if why == "text": df["y"] = [str(v) for v in df.y]; ok = False
    if why == "three": df.loc[i, "d"] = 2; ok = False
    if why == "column": df = df.drop(columns=["t"]); ok = False
    if why == "all treated": df["d"] = 1
    if ok:
        a, b = df[df.d == 1], df[df.d == 0]; ts = sorted(set(df.t)); ok = len(a) > 0 and len(b) > 0 and (all(len(q[q.t == p]) > 0 for q in (a, b) for p in ts) if len(ts) == 2 else all(q.t.nunique() >= 2 for q in (a, b)))
    out = V(df, "y", "d", "t", unit=unit, raise_on_error=False); g.ensure("valid exactly when usable", out["valid"] == ok, f"{why} {out}"); g.ensure("errors listed exactly when invalid", (len(out["errors"]) == 0) == ok)
    if ok:
        s = out["summary"]; g.ensure("counts", s["n_obs"] == n and s["n_treated"] == int((df.d == 1).sum()) and s["n_control"] == int((df.d == 0).sum()) and s["n_periods"] == df.t.nunique() and (unit is None or s["n_units"] == df.u.nunique()), str(s)); q = V(df, "y", "d", "t", unit=unit); g.ensure("same when raising", q["valid"])
        if unit: g.ensure("warns on unbalanced panels and varying treatment", len([w for w in out["warnings"] if "nbalanced" in w]) == int(df.groupby("u").t.nunique().nunique() > 1) and len([w for w in out["warnings"] if "aries" in w]) == int((df.groupby("u").d.nunique() > 1).any()), str(out["warnings"]))
    else: g.raises("raises", ValueError, lambda: V(df, "y", "d", "t", unit=unit))
    g.cover()

@harness("C17", "summary_table", ["prep.summarize_did_data"], sym=False, trials=60, deep=600)
def _(g):
    """the summary lists count, mean, standard deviation, minimum and maximum of every group and period, and for two periods the difference in differences of the cell means."""
    r = g.rng; n = int(r.integers(8, 20)); P = int(r.integers(2, 4)); df = pd.DataFrame({"y": r.normal(size=n) * 10, "d": r.permutation(np.arange(n) % 2), "t": r.integers(0, P, n) * 3 + 1}); cells = sorted(set(zip(df.d, df.t))); T = sorted(set(df.t)); 
    if len(T) == 2 and len(cells) < 4: raise Skip()
    out = g.fn("prep", "summarize_did_data")(df, "y", "d", "t"); M = {}; g.ensure("rows", len(out) == len(cells) + (len(T) == 2), str(out))
    for d, t in cells:
        nm = ("Treated" if d else "Control") + (" - " + ("Post" if t == T[1] else "Pre") if len(T) == 2 else f" - Period {t}"); q = out.loc[nm]; w = df[(df.d == d) & (df.t == t)].y; M[d, t] = w.mean(); g.ensure("count", q["n"] == len(w))
        for k, v in (("mean", w.mean()), ("min", w.min()), ("max", w.max())) + ((("std", w.std()),) if len(w) > 1 else ()): g.ensure(k, abs(q[k] - v) <= 6e-5, f"{nm} {k} {q[k]} {v}")
    if len(T) == 2: g.eq("difference in differences", out.loc["DiD Estimate", "mean"], M[1, T[1]] - M[1, T[0]] - M[0, T[1]] + M[0, T[0]])
    g.cover()

@harness("C17", "ranking", ["prep.rank_control_units"], sym=False, trials=150, deep=2000)
def _(g):
    """control ranking against an independent computation: candidates are exactly the untreated, not excluded units with pre-period data; scores are in [0,1], best 1 and worst 0; quality is the weighted score; rows are in decreasing quality; requirements are kept, the rest is the best of the others; weights are a point of the simplex."""
    r = g.rng; nu, T = int(r.integers(3, 9)), int(r.integers(2, 7)); kind = g.choice("panel", ["full", "full", "gaps"]); lab = [int(v) for v in r.permutation(50)[:nu]] if r.random() < .5 else [f"u{i}" for i in r.permutation(nu)]; nt = int(r.integers(1, nu - 1)); tr = lab[:nt]
    df = pd.DataFrame([(u, t * 2 + 1, float(r.normal() * 2 + i), float(r.normal()), 2.0 if nu % 3 == 0 else float(i % 3), int(u in tr)) for i, u in enumerate(lab) for t in range(T)], columns=["u", "t", "y", "x", "z", "d"])
    if kind == "gaps":
        df = df[r.random(len(df)) < .8]; df.loc[r.random(len(df)) < .05, "y"] = np.nan
    df = df.sample(frac=1, random_state=int(r.integers(1 << 30))); 
    if not len(df) or not set(df.u) & set(tr): raise Skip()
    per = sorted(set(df.t)); pre = None if r.random() < .4 else [int(p) for p in r.permutation(per)[:int(r.integers(1, len(per) + 1))]]; use = per[:len(per) // 2] if pre is None else pre; cov = [None, ["x"], ["x", "z"], []][int(r.integers(4))]; ex = [u for u in lab[nt:] if r.random() < .2] if r.random() < .4 else None; rq = [u for u in lab[nt:] if r.random() < .3 and u not in (ex or [])] if r.random() < .5 else None; top = None if r.random() < .5 else int(r.integers(0, nu + 1)); a, b = [(0.7, 0.3), (1.0, 0.5), (0.2, 0.0), (0.0, 1.0), (0.0, 0.0)][int(r.integers(5))]; f = g.fn("prep", "rank_control_units"); explicit = r.random() < .5
    call = lambda d: f(d, "u", "t", "y", pre_periods=pre, covariates=cov, outcome_weight=a, covariate_weight=b, exclude_units=ex, require_units=rq, n_top=top, **({"treated_units": tr} if explicit else {"treatment_column": "d"}))
    d = df[df.t.isin(use)]; val = {(u, t): y for u, t, y in zip(d.u, d.t, d.y) if y == y}; tm = {}
    for t in use:
        w = [val[u, t] for u in tr if (u, t) in val]
        if w: tm[t] = np.mean(w)
    cand = [u for u in dict.fromkeys(df.u) if u not in tr and u not in (ex or []) and any((u, t) in val and t in tm for t in use)]
    if not use or not tm or not cand: g.raises("unusable input is rejected", ValueError, lambda: call(df)); g.cover(); return
    out = call(df); rm = {u: np.sqrt(np.mean([(val[u, t] - tm[t]) ** 2 for t in use if (u, t) in val and t in tm])) for u in cand}; lo, hi = min(rm.values()), max(rm.values()); S = {u: 1.0 if hi - lo < 1e-10 else 1 - (rm[u] - lo) / (hi - lo) for u in cand}; Q, C = dict(S), {u: np.nan for u in cand}
    if cov:
        tab = d.groupby("u")[cov].mean(); sd = [np.std(tab[c], ddof=1) if len(tab) > 1 else np.nan for c in cov]; tt = tab.loc[[u for u in lab if u in tr and u in {q[0] for q in zip(d.u)}]].mean()
        D = {u: np.sqrt(sum(((tab.loc[u, c] - tt[c]) / (s if s != 0 else 1.0)) ** 2 for c, s in zip(cov, sd))) for u in cand}; l, h = min(D.values()), max(D.values())
        if not 1e-7 < h - l: raise Skip()
        C = {u: 1 - (D[u] - l) / (h - l) for u in cand}; wa, wb = (a / (a + b), b / (a + b)) if a + b > 0 else (1.0, 0.0); Q = {u: wa * S[u] + wb * C[u] for u in cand}
    g.ensure("columns", list(out.columns) == ["unit", "quality_score", "outcome_trend_score", "covariate_score", "synthetic_weight", "pre_trend_rmse", "is_required"]); q = out["quality_score"].tolist(); g.ensure("scores in [0,1]", all(-1e-12 <= v <= 1 + 1e-12 for v in q + out["outcome_trend_score"].tolist() + (out["covariate_score"].tolist() if cov else []))); g.ensure("decreasing quality", all(x >= y for x, y in zip(q, q[1:])), str(q)); g.ensure("each unit once", out["unit"].is_unique); need = {u for u in (rq or []) if u in cand}; got = set(out["unit"])
    g.ensure("only candidates", got <= set(cand), str(got - set(cand))); g.ensure("required units present", need <= got); g.ensure("number of rows", len(out) == (len(cand) if top is None or top >= len(cand) else max(top, len(need))), f"{len(out)} {top} {len(cand)}")
    rest = [Q[u] for u in got - need]; left = [Q[u] for u in set(cand) - got]; g.ensure("the best of the others", not rest or not left or min(rest) >= max(left) - 1e-9)
    for _, w in out.iterrows():
        u = w["unit"]; g.eq("pre-period distance", w["pre_trend_rmse"], rm[u]); g.eq("outcome score", w["outcome_trend_score"], S[u], atol=1e-7); g.eq("quality score", w["quality_score"], Q[u], atol=1e-7); g.eq("covariate score", w["covariate_score"], C[u], atol=1e-7); g.ensure("required flag", bool(w["is_required"]) == (u in need)); g.ensure("weights in [0,1]", -1e-12 <= w["synthetic_weight"] <= 1 + 1e-12)
    if len(out) == len(cand) and kind == "full": g.eq("weights sum to one", out["synthetic_weight"].sum(), 1.0)
    g.cover()

@harness("C17", "candidates", ["prep.rank_control_units", "prep._suggest_treatment_candidates"], sym=False, trials=60, deep=600)
def _(g):
    """suggested treatment candidates: pre-period mean, least-squares slope in time order, number of similar units; scores in [0,1] and decreasing; the number asked for; independent of the order of rows."""
    r = g.rng; nu, T = int(r.integers(1, 8)), int(r.integers(2, 7)); df = pd.DataFrame([(u, t, float(r.normal() * 2 + u)) for u in range(nu) for t in range(T)], columns=["u", "t", "y"]).sample(frac=1, random_state=int(r.integers(1 << 30))); k = int(r.integers(1, nu + 2)); out = g.fn("prep", "rank_control_units")(df, "u", "t", "y", suggest_treatment_candidates=True, n_treatment_candidates=k); g.ensure("number of rows", len(out) == min(k, nu)); s = out["treatment_candidate_score"].tolist(); g.ensure("scores in [0,1], decreasing", all(0 <= v <= 1 for v in s) and all(a >= b for a, b in zip(s, s[1:])), str(s)); g.ensure("each unit once", out["unit"].is_unique)
    pre = df[df.t < T // 2]; mu = pre.groupby("u").y.mean(); res = {}
    for u in range(nu):
        o = mu.drop(u); sd = np.std(o, ddof=1) if len(o) > 1 else np.nan; res[u] = len(o) if not sd > 0 else int((np.abs(o - mu[u]) < .5 * sd).sum())
    mx = max(res.values()); sd = np.std(mu, ddof=1) if nu > 1 else 0.0; sc = {u: min(1, max(0, (res[u] / mx if mx else 0) - (.3 * abs(mu[u] - mu.mean()) / sd if sd > 0 else 0))) for u in res}
    for _, w in out.iterrows():
        u = w["unit"]; y = pre[pre.u == u].sort_values("t").y.values; t = np.arange(len(y)) - (len(y) - 1) / 2; g.eq("mean", w["avg_outcome_level"], y.mean()); g.eq("slope in time order", w["outcome_trend"], (t @ y) / (t @ t) if len(y) > 1 else 0.0, atol=1e-7); g.ensure("similar units", w["n_similar_controls"] == res[u]); g.eq("score", w["treatment_candidate_score"], sc[u], atol=1e-7)
    if len(out) < nu: g.ensure("the best ones", min(s) >= max(sc[u] for u in sc if u not in set(out["unit"])) - 1e-9)
    g.cover()
