"""C16: estimation never modifies caller data or global random state."""
import random, copy, warnings
import numpy as np
from ..harness import harness, Skip
from .. import calls as C

def lib(g):
    from .. import ownership as O
    import os
    L = O.Lib(os.environ.get("DV_REPO", "/repo"))
    g.c.notes.add("frame conditions: third-party functions write only the arguments listed in dv/ownership.py; pandas selections are copies (copy on write)")
    g.c.cache["static"] = "ownership"
    return L
DECLARED = {"power.simulate_power": {"p:estimator"}}     # the estimator handed in is fitted, as documented
def bad(L, f, flag, roots):
    """roots of a write that belong to the caller"""
    out = {x for x in roots if x.startswith("p:") or x.startswith("a:") and (x[2:] in L.attr_taint)} - DECLARED.get(f.sig(), set())
    if L.setter(f) or flag is True and "inplace" in f.params + f.kwonly: return set()
    return out

@harness("C16", "frames", ["every function and method of the library"], conc=False, timeout=120)
def _(g):
    """modular frame contracts: every write of every function hits an object created by that call or the instance's own state; helpers may write a parameter only where every caller passes an owned object; inplace=True is the only declared exception."""
    L = lib(g)
    if L.errors: g.c.notes.add("; ".join(L.errors))
    for (m, n), f in sorted(L.funcs.items()):
        for fl in f.summ:
            w = f.summ[fl][0]
            if f.public: g.ensure(f"frame of {f.sig()}{'' if fl is None else f' (inplace={fl})'}: writes only its own objects", not bad(L, f, fl, w), f"may write {sorted(bad(L, f, fl, w))}")
    for k, s in sorted(L.sites.items(), key=lambda x: str(x[0])):
        b = bad(L, s.fn, k[1], s.roots)
        if b and not s.fn.public: continue            # part of the helper's frame: checked at each of its calls
        g.ensure(f"{s.fn.sig()}: {s.text}", not b, f"may write {sorted(b)}")
    g.cover()

@harness("C16", "no_global_randomness", ["every function and method of the library"], conc=False, timeout=120)
def _(g):
    """every use of a random module is the construction of an explicit generator; no unseeded sample()/rvs()."""
    L = lib(g)
    for fn, line, what, ok in sorted(set((a, 0, c, d) for a, b, c, d in L.rng)): g.ensure(f"{fn}: {what}", ok)
    g.cover()

def run(c, args):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: return c.fn(**args)
        except Exception as e: return ("raised", type(e).__name__, str(e))
def check(g, c):
    r = g.rng; before = C.snap(c.args); np.random.seed(int(r.integers(1 << 30))); random.seed(int(r.integers(1 << 30))); st, sp = np.random.get_state(), random.getstate()
    one = run(c, c.args); after = C.snap(c.args); st2, sp2 = np.random.get_state(), random.getstate()
    g.log["call"] = c.name
    g.ensure(f"{c.name}: arguments unchanged", before == after, C.diff(before, after))
    g.ensure(f"{c.name}: global random state untouched", st[0] == st2[0] and bool((st[1] == st2[1]).all()) and st[2:] == st2[2:] and sp == sp2)
    np.random.seed(int(r.integers(1 << 30))); random.seed(int(r.integers(1 << 30))); two = run(c, c.args)
    a, b = C.snap(one), C.snap(two); g.ensure(f"{c.name}: repeating the call gives identical results", a == b, C.diff(a, b))
    g.ensure(f"{c.name}: arguments unchanged by the second call", before == C.snap(c.args))
def tolerant_fn(g):
    def F(mod, path): return g.fn(mod, path)
    return F

@harness("C16", "estimators", ["estimators", "twfe", "synthetic_did", "staggered", "sun_abraham", "triple_diff", "bacon"], sym=False, trials=120, deep=1500, timeout=200)
def _(g):
    """every estimator with random options on random tables (shuffled rows, odd indices, extra columns): table and lists unchanged, global random state untouched, identical on repetition."""
    nm = g.choice("estimator", C.ESTIMATORS[:-1]); check(g, C.estimator_call(g.rng, tolerant_fn(g), nm)); g.cover()

@harness("C16", "trop", ["trop"], sym=False, trials=6, deep=60, timeout=250)
def _(g):
    """the same for TROP (slow)."""
    check(g, C.estimator_call(g.rng, tolerant_fn(g), "TROP")); g.cover()

@harness("C16", "other_calls", ["prep", "prep_dgp", "utils", "diagnostics", "linalg", "honest_did", "pretrends", "power"], sym=False, trials=200, deep=2500, timeout=250)
def _(g):
    """the same for every other public function."""
    B = C.others(g.rng, tolerant_fn(g)); nm = g.choice("call", sorted(B)); check(g, B[nm]()); g.cover()
