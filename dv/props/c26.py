"""C26: the bundled data sets have the documented structure, online, cached or offline."""
import os, shutil, tempfile, http.client, urllib.error, resource
import numpy as np, pandas as pd
from types import SimpleNamespace as NS
from ..harness import harness, MissingTarget
def serve(g, df):
    """the loader receives this table from its source"""
    g.stub("datasets", "_download_with_cache", lambda *a, **k: "" if g.symbolic else df.to_csv(index=False))
    if g.symbolic:
        m = g.mod("datasets")
        class P:
            def __getattr__(s, n): return getattr(pd, n)
        p = P(); p.read_csv = lambda *a, **k: df.copy(); g.set_const("datasets", "pd", p)
def col(g, v): return pd.Series(v, dtype=object if g.symbolic else float)
def same(g, name, a, b): g.ensure(name + ": rows", len(a) == len(b)); [g.eq(name, x, y, rtol=1e-12) for x, y in zip(a, b)]

@harness("C26", "card_krueger", ["datasets.load_card_krueger"], trials=80, bound="tables of three stores")
def _(g):
    """state and treatment follow the New Jersey indicator, the change is after minus before, columns already there are kept."""
    nj = [g.choice(f"nj{i}", [0, 1]) for i in range(3)]; a, b, w = [[g.real(f"{n}{i}") for i in range(3)] for n in "abw"]; d = {g.choice("id", ["sheet", "store_id"]): [7, 3, 5], "emp_pre": col(g, a), "emp_post": col(g, b), "wage_pre": col(g, w)}; has = g.choice("given", ["nj", "state", "both", "treated"])
    if has in ("nj", "both"): d["nj"] = nj
    if has != "nj": d["state"] = ["NJ" if x else "PA" for x in nj]
    if has == "treated": d["treated"] = nj
    own = g.choice("change given", [False, True]); c = [g.real(f"c{i}") for i in range(3)]
    if own: d["emp_change"] = col(g, c)
    serve(g, pd.DataFrame(d)); r = g.fn("datasets", "load_card_krueger")()
    g.ensure("rows", len(r) == 3 and list(r["store_id"]) == [7, 3, 5]); g.ensure("state", list(r["state"]) == ["NJ" if x else "PA" for x in nj]); g.ensure("treated", [int(x) for x in r["treated"]] == nj); same(g, "change", list(r["emp_change"]), c if own else [y - x for x, y in zip(a, b)])
    for n, v in zip(("emp_pre", "emp_post", "wage_pre"), (a, b, w)): same(g, n, list(r[n]), v)
    g.cover()

@harness("C26", "staggered_tables", ["datasets.load_castle_doctrine", "datasets.load_divorce_laws", "datasets.load_mpdta"], trials=150, bound="tables of two or three units and three years, every adoption year")
def _(g):
    """adoption year (0 = never), cohort alias and treatment indicator agree with the source's adoption information."""
    which = g.choice("data", ["castle", "divorce", "mpdta"]); Y = [2004, 2005, 2006]; n = 2 if g.symbolic else g.choice("units", [2, 3]); G = [g.choice(f"g{i}", [0, 2004, 2005, 2006] if i else [0, 2005]) for i in range(n)]; y = [g.real(f"y{i}") for i in range(3 * n)]; on = [int(f > 0 and t >= f) for f in G for t in Y]; ft = [f for f in G for t in Y]; base = dict(state=[s for s in "BAC"[:n] for t in Y], year=Y * n, out=col(g, y))
    if which == "castle":
        k = g.choice("source", ["effyear", "effyear and cdl", "first_treat"])
        if k == "first_treat": base["first_treat"] = ft
        else: base["effyear"] = [np.nan if f == 0 else float(f) for f in ft]
        if k == "effyear and cdl": base["cdl"] = on
        base["sid"] = [i for i in range(n) for t in Y]
    elif which == "divorce":
        k = g.choice("source", ["unilateral", "first_treat", "both"])
        if k != "first_treat": base["unilateral"] = on
        if k != "unilateral": base["first_treat"] = ft
        base["stfips"] = [i for i in range(n) for t in Y]
    else: base["first.treat"] = ft; base["treat"] = [int(f > 0) for f in ft]
    df = pd.DataFrame(base)
    if not g.symbolic: p = g.rng.permutation(len(df)); df = df.iloc[p].reset_index(drop=True); y, on, ft = [[v[i] for i in p] for v in (y, on, ft)]
    serve(g, df); r = g.fn("datasets", {"castle": "load_castle_doctrine", "divorce": "load_divorce_laws", "mpdta": "load_mpdta"}[which])(); g.ensure("rows", len(r) == len(df) and list(r["year"]) == list(df["year"])); same(g, "outcome", list(r["out"]), y)
    g.ensure("adoption year", [int(x) for x in r["first_treat"]] == ft); g.ensure("cohort alias", [int(x) for x in r["cohort"]] == ft)
    if which == "mpdta": g.ensure("ever treated", [int(x) for x in r["treat"]] == [int(f > 0) for f in ft])
    else: g.ensure("treated", [int(x) for x in r["treated"]] == on); g.ensure("identifier", list(r["state_id"]) == list(df["sid" if which == "castle" else "stfips"]))
    g.cover()

@harness("C26", "constructed", ["datasets._construct_card_krueger_data", "datasets._construct_castle_doctrine_data", "datasets._construct_divorce_laws_data", "datasets._construct_mpdta_data", "datasets.load_dataset", "datasets.list_datasets"], sym=False, trials=4, bound="the constructors take no input: one run decides them")
def _(g):
    """without network and cache: documented columns, one row per unit (and year), consistent adoption, treatment and change columns, no missing or negative values, the same table every time, random state untouched."""
    d = g.mod("datasets"); g.stub("datasets", "_download_with_cache", lambda *a, **k: (_ for _ in ()).throw(RuntimeError("offline"))); names = list(d.list_datasets()); g.ensure("listed", set(names) >= {"card_krueger", "castle_doctrine", "divorce_laws", "mpdta"}); st = np.random.get_state()[1].copy()
    T = {n: d.load_dataset(n) for n in names}; g.ensure("random state untouched", (np.random.get_state()[1] == st).all())
    for n in names: g.ensure("same table again", T[n].equals(d.load_dataset(n, force_download=True)) and T[n].equals(getattr(d, "load_" + n)())); g.ensure("nothing missing", not T[n].isna().any().any())
    g.raises("unknown name", ValueError, lambda: d.load_dataset("nothing"))
    c = T["card_krueger"]; g.ensure("columns", {"store_id", "state", "chain", "emp_pre", "emp_post", "wage_pre", "wage_post", "treated", "emp_change"} <= set(c)); g.ensure("stores", c.store_id.is_unique and set(c.chain) == {"bk", "kfc", "roys", "wendys"} and set(c.state) == {"NJ", "PA"}); g.ensure("treated", (c.treated == (c.state == "NJ")).all()); g.eq("change", c.emp_change, c.emp_post - c.emp_pre, atol=1e-9); g.ensure("nonnegative", (c[["emp_pre", "emp_post", "wage_pre", "wage_post"]] >= 0).all().all()); m = c.groupby("treated").emp_change.mean(); g.ensure("no negative effect (original finding)", m[1] > m[0])
    for n, u, yrs, cols in (("castle_doctrine", "state", range(2000, 2011), ["homicide_rate", "population", "income"]), ("divorce_laws", "state", range(1968, 1989), ["divorce_rate", "female_lfp", "suicide_rate"]), ("mpdta", "countyreal", range(2003, 2008), ["lpop", "lemp"])):
        t = T[n]; g.ensure("columns", set(cols) | {u, "year", "first_treat", "cohort"} <= set(t)); g.ensure("one row per unit and year", not t.duplicated([u, "year"]).any() and len(t) == t[u].nunique() * len(yrs) and set(t.year) == set(yrs)); g.ensure("one adoption year per unit", (t.groupby(u).first_treat.nunique() == 1).all()); g.ensure("cohort", (t.cohort == t.first_treat).all()); g.ensure("adoption within the years or never", ((t.first_treat == 0) | t.first_treat.isin(yrs)).all() and (t.first_treat == 0).any() and t.first_treat.nunique() > 3); g.ensure("nonnegative", (t[cols] >= 0).all().all())
        g.ensure("treatment", (t["treat"] == (t.first_treat > 0)).all() if n == "mpdta" else (t.treated == ((t.first_treat > 0) & (t.year >= t.first_treat))).all())
    g.ensure("rate", T["divorce_laws"].female_lfp.between(0, 1).all()); g.ensure("counties", T["mpdta"].countyreal.nunique() == 500); g.cover()

class Resp:
    def __init__(s, text, fault): s.text, s.fault = text, fault
    def __enter__(s): return s
    def __exit__(s, *a): return False
    def close(s): pass
    status = 200
    def read(s, *a):
        if s.fault: raise s.fault
        t, s.text = s.text, ""; return t.encode()
@harness("C26", "cache", ["datasets._download_with_cache", "datasets._get_cache_path", "datasets.clear_cache", "datasets.load_dataset"], sym=False, trials=160, deep=600, bound="every combination of cache state, force flag and fault point; fault injection in a scratch folder")
def _(g):
    """a cached entry is used without network unless forced; a download is stored for later loads; any network failure falls back to the cached, else to the built-in data; a write that fails part way never leaves a partial entry for later loads; clearing removes exactly the entries."""
    r = g.rng; d = g.mod("datasets"); tmp = tempfile.mkdtemp(prefix="dvcache"); n = ["card_krueger", "castle_doctrine", "divorce_laws", "mpdta"][int(r.integers(4))]; dirs = os.path.join(tmp, "a", "b"); import pathlib
    if not hasattr(d, "_CACHE_DIR") or not hasattr(d, "urlopen"): raise MissingTarget("datasets cache folder")
    old, oldu = d._CACHE_DIR, d.urlopen; lim = resource.getrlimit(resource.RLIMIT_FSIZE); calls = []; mk = lambda k: "state,year,first_treat,nj,emp_pre,emp_post\n" + "".join(f"S{i},{2000 + i},0,{i % 2},{i + k},{i}\n" for i in range(200)); new, prev = mk(1), mk(2)
    fault = [None, urllib.error.URLError("down"), urllib.error.HTTPError("u", 404, "gone", {}, None), TimeoutError("open"), ConnectionResetError("reset"), http.client.RemoteDisconnected("x"), "disk"][int(r.integers(7))]; late = bool(r.integers(2)); rf = [TimeoutError("read"), http.client.IncompleteRead(b"x", 9), ConnectionResetError("r")][int(r.integers(3))]; cached = bool(r.integers(2)); force = bool(r.integers(2)); net = fault not in (None, "disk")
    def up(*a, **k): calls.append(a); return Resp(new, None)
    def faulty(*a, **k):
        calls.append(a)
        if net and not late: raise fault
        return Resp(new, rf if net else None)
    def down(*a, **k): calls.append(a); raise urllib.error.URLError("down")
    import contextlib, io
    home = os.environ.get("HOME"); os.environ["HOME"] = tmp
    try:
        d._CACHE_DIR = pathlib.Path(dirs); ref = lambda text: (setattr(d, "urlopen", lambda *a, **k: Resp(text, None)), d.load_dataset(n, force_download=True))[1]
        d.urlopen = down; off = d.load_dataset(n); A, B = ref(new), ref(prev); shutil.rmtree(dirs)
        if cached: ref(prev)
        calls.clear(); d.urlopen = faulty
        if fault == "disk": resource.setrlimit(resource.RLIMIT_FSIZE, (int(r.integers(10, 1500)), lim[1]))
        try: out = d.load_dataset(n, force_download=force)
        except OSError:
            if fault != "disk": raise
            out = None
        finally: resource.setrlimit(resource.RLIMIT_FSIZE, lim)
        want = B if cached and (net or not force) else off if net else A
        if out is not None: g.ensure("the right table", out.equals(want))
        g.ensure("network used exactly when needed", (len(calls) > 0) == (force or not cached)); calls.clear(); d.urlopen = down; later = d.load_dataset(n)
        if fault == "disk" and (force or not cached): g.ensure("never a partial entry", any(later.equals(x) for x in ([A, B] if cached else [A, off])))
        else: g.ensure("stored for later loads", later.equals(want)); g.ensure("used without network", net and not cached or not calls)
        other = os.path.join(dirs, "keep.txt"); open(other, "w").close()
        with contextlib.redirect_stdout(io.StringIO()): d.clear_cache(); d.clear_cache()
        g.ensure("cleared exactly", os.listdir(dirs) == ["keep.txt"]); g.ensure("built-in after clearing", d.load_dataset(n).equals(off))
    finally:
        d._CACHE_DIR, d.urlopen = old, oldu; shutil.rmtree(tmp)
        if home is None: os.environ.pop("HOME", None)
        else: os.environ["HOME"] = home
    g.cover()
