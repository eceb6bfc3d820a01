"""Contract harnesses.

A harness states the contract of one or more functions of /repo once and is executed in two modes:
  * symbolic - inputs are symbolic (extended reals, integers, arrays of unbounded length); g.ensure emits proof
    obligations, one set per explored path;
  * concrete - inputs are drawn at random (or taken from a solver model) and the real, unmodified modules run under
    CPython; g.ensure evaluates the same condition.  Used to replay counterexamples, to search for a failing input
    when an obligation fails, to cross-check the engine, and as the labelled bounded stand-in.
"""
import os, sys, math, random, importlib, hashlib, traceback, time, warnings, contextlib
import numpy as np

class Skip(Exception): "the drawn input does not satisfy the precondition"
class MissingTarget(Exception): "a function under contract is not there (renamed or removed)"
class Violation(Exception):
    def __init__(self, name, detail): super().__init__(f"{name}: {detail}"); self.name = name; self.detail = detail

REG = {}
class H: pass
def harness(prop, name, fns=(), sym=True, conc=True, trials=40, deep=400, timeout=150, bound="", requires="", catch=(), sampled=False, setup=None):
    """fns: functions under contract; bound: '' if the symbolic obligations are unbounded, else the stated bound."""
    def deco(f):
        h = H(); h.prop, h.name, h.fns, h.sym, h.conc, h.trials, h.deep = prop, name, list(fns), sym, conc, trials, deep
        h.timeout, h.bound, h.requires, h.fn, h.catch, h.doc = timeout, bound, requires, f, catch, (f.__doc__ or "").strip()
        REG[(prop, name)] = h
        return f
    return deco

def getpath(mod, path):
    o = mod
    for p in path.split("."):
        if not hasattr(o, p): raise MissingTarget(f"{getattr(mod, '__name__', mod)}.{path}")
        o = getattr(o, p)
    return o

# ---------------------------------------------------------------- concrete mode
NICE = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 10.0, 1e-3, 100.0]
class ConcG:
    symbolic = False
    def __init__(self, seed, over=None, quiet=False):
        self.seed = seed; self._rng = np.random.default_rng(seed); self.over = over or {}
        self.log = {}; self.nchecks = 0; self.undo = []; self.axes = {}
        self.covered = set(); self.private = False   # private: the harness uses internal functions or replaces some
    @property
    def rng(self):
        """random source of this case (the case is then identified by its seed)"""
        self.log["seed"] = self.seed
        return self._rng
    def _in(self, name, f):
        v = self.over[name] if name in self.over else f()
        self.log[name] = v
        return v
    # inputs
    def real(self, name, lo=None, hi=None, nan=False, inf=False, nonzero=False, py=False):
        def draw():
            r = self._rng
            if nan and r.random() < 0.12: return math.nan
            if inf and r.random() < 0.08: return math.inf if r.random() < 0.5 else -math.inf
            u = r.random()
            if u < 0.3: x = float(r.choice(NICE))
            elif u < 0.8: x = float(r.normal() * 2)
            else: x = float(r.normal() * 10.0 ** r.integers(-3, 4))
            if lo is not None and hi is not None:
                if not (lo < x < hi): x = float(lo + (hi - lo) * r.uniform(0.001, 0.999))
            elif lo is not None and not x > lo: x = lo + abs(x) + 1e-3
            elif hi is not None and not x < hi: x = hi - abs(x) - 1e-3
            if nonzero and x == 0: x = 1.5
            return x
        v = self._in(name, draw)
        return float(v) if py else np.float64(v)
    def pyreal(self, name, lo=None, hi=None, **k): return self.real(name, lo, hi, py=True, **k)
    def nonneg(self, name, hi=None, **k):
        """a real number >= 0 (zero included)"""
        z = self._in("zero:" + name, lambda: int(self._rng.random() < .25)); x = self.real(name, 0, hi, **k)
        return x * 0 if z else x
    def int(self, name, lo=0, hi=12):
        return int(self._in(name, lambda: int(self._rng.integers(lo, (hi if hi is not None else lo + 40) + 1))))
    def choice(self, name, options):
        options = list(options)
        i = self._in("choice:" + name, lambda: int(self._rng.integers(len(options))))
        return options[i]
    def axis(self, name, min=1, max=14):
        n = int(self._in("n_" + name, lambda: int(self._rng.integers(min, max + 1))))
        a = ConcAxis(name, n); self.axes[name] = a; return a
    def _arr(self, shape):
        r = self._rng; a = r.normal(size=shape) * 10 ** r.uniform(-1, 1)
        if r.random() < 0.3: a = np.round(a)
        return a
    def vec(self, name, axis, **k):
        v = np.asarray(self._in(name, lambda: self._arr(axis.n)), dtype=float)
        return np.abs(v) + (1e-3 if k.get("pos") else 0) if k.get("nonneg") or k.get("pos") else v
    def binary(self, name, axis, as_bool=False):
        v = np.asarray(self._in(name, lambda: (self._rng.random(axis.n) < self._rng.uniform(0.2, 0.8)).astype(float)))
        return v.astype(bool) if as_bool else v
    def mat(self, name, a1, a2):
        n2 = a2 if isinstance(a2, int) else a2.n
        n1 = a1 if isinstance(a1, int) else a1.n
        return np.asarray(self._in(name, lambda: self._arr((n1, n2))), dtype=float)
    def fullrank(self, name, axis, k):
        """n x k design of full column rank (k: number or axis)"""
        k = k if isinstance(k, int) else k.n
        X = np.asarray(self._in(name, lambda: self._arr((axis.n, k))), dtype=float)
        self.assume(axis.n >= k and np.linalg.matrix_rank(X) == k and (k == 0 or np.linalg.cond(X) < 1e5)); return X
    def labels(self, name, axis, groups):
        """labels of the rows; every one of the groups occurs. -> (labels, one-hot matrix)"""
        n, m = axis.n, groups.n; self.assume(n >= m)
        kind = self._in(name + "#kind", lambda: int(self._rng.integers(3)))
        def draw():
            c = np.concatenate([np.arange(m), self._rng.integers(0, m, n - m)]); self._rng.shuffle(c); return c
        c = np.asarray(self._in(name, draw)).astype(int)
        perm = np.random.default_rng(len(c) + m).permutation(m)
        lab = c if kind == 0 else (np.array([7 * int(perm[i]) - 3 for i in c]) if kind == 1 else np.array(["c" + str(perm[i]) for i in c], dtype=object))
        return lab, (c[:, None] == np.arange(m)[None, :]).astype(float)
    def table(self, axis, **cols):
        """a table with these columns; the row labels are arbitrary but distinct"""
        import pandas as pd
        df = pd.DataFrame(cols); kind = self._in("#index", lambda: int(self._rng.integers(3)))
        if kind == 1: df.index = np.arange(len(df))[::-1] * 3 + 5
        if kind == 2: df.index = ["r%d" % ((7 * i) % 97 + 100 * i) for i in range(len(df))]
        return df
    def panel(self, units, times, D=None, e=None):
        N, T = int(self._in("n_" + units[0], lambda: int(self._rng.integers(units[1], units[1] + 7)))), int(self._in("n_" + times[0], lambda: int(self._rng.integers(times[1], times[1] + 5))))
        u, t = np.repeat(np.arange(N), T), np.tile(np.arange(T), N)
        p = np.random.default_rng(N * 100 + T).permutation(N * T); u, t = u[p], t[p]
        ax = ConcAxis("rows", N * T)
        one = lambda c, m: (c[:, None] == np.arange(m)[None, :]).astype(float)
        return ax, u, t, one(u, N), one(t, T)
    def codes(self, name, axis, values):
        """a column with exactly these values -> (column, one indicator per value)"""
        n, m = axis.n, len(values); self.assume(n >= m)
        def draw():
            c = np.concatenate([np.arange(m), self._rng.integers(0, m, n - m)]); self._rng.shuffle(c); return c
        c = np.asarray(self._in("codes:" + name, draw)).astype(int)
        return np.asarray(values)[c], [(c == j).astype(float) for j in range(m)]
    def lemma(self, name, c): self.ensure(name, c)
    def lemma_eq(self, name, a, b, **k): self.eq(name, a, b, **k)
    def assume_eq(self, a, b): pass
    def inv(self, A): return np.linalg.inv(A)
    def colsum(self, M): return M.sum(axis=0)
    def reals(self, name, k, **kw): return np.array([self.real(f"{name}{i}", **kw) for i in range(k)], dtype=float)
    # logic
    def assume(self, c):
        if not bool(np.all(c)): raise Skip()
    def cover(self, name="reach"): self.covered.add(name)
    def fail(self, name, detail=""): raise Violation(name, detail)
    def ensure(self, name, c, detail=""):
        self.nchecks += 1
        if callable(detail): detail = detail()
        if not bool(np.all(c)): raise Violation(name, detail)
    def eq(self, name, a, b, rtol=1e-7, atol=1e-9):
        self.nchecks += 1
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
        if a.shape != b.shape and not (a.ndim == 0 or b.ndim == 0): raise Violation(name, f"shapes {a.shape} and {b.shape}")
        sc = max(1.0, float(np.max(np.abs(b[np.isfinite(b)]), initial=0.0)))
        if not np.allclose(a, b, rtol=rtol, atol=atol * sc, equal_nan=True):
            raise Violation(name, f"got {_s(a)}, contract requires {_s(b)}")
    def le(self, name, a, b, tol=1e-9):
        self.nchecks += 1
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
        sc = max(1.0, float(np.max(np.abs(b[np.isfinite(b)]), initial=0.0)))
        if not bool(np.all(a <= b + tol * sc)): raise Violation(name, f"{_s(a)} > {_s(b)}")
    def nan(self, name, a):
        self.nchecks += 1
        if not bool(np.all(np.isnan(np.asarray(a, dtype=float)))): raise Violation(name, f"expected NaN, got {_s(a)}")
    def isnan(self, x): return bool(np.isnan(x))
    def isfinite(self, x): return bool(np.isfinite(x))
    def and_(self, *c): return all(bool(x) for x in c)
    def or_(self, *c): return any(bool(x) for x in c)
    def not_(self, c): return not bool(c)
    def iff(self, a, b): return bool(a) == bool(b)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def ite(self, c, a, b): return a if bool(c) else b
    def value(self, x): return x
    def raises(self, name, exc, f):
        self.nchecks += 1
        try: f()
        except exc: return
        except Exception as e: raise Violation(name, f"raised {type(e).__name__}: {e}")
        raise Violation(name, f"did not raise {exc}")
    # functions of the specification
    def sqrt(self, x): return np.sqrt(x)
    def exp(self, x): return np.exp(x)
    def abs(self, x): return np.abs(x)
    def max(self, a, b): return np.maximum(a, b)
    def min(self, a, b): return np.minimum(a, b)
    def sum(self, x): return np.sum(x)
    def devsq(self, x): return np.sum((x - np.mean(x)) ** 2)
    def sumsq(self, x): return np.sum(x ** 2)
    def each(self, name, f, *arrs):
        """f holds of the entries at every index of arrays over the same axes (symbolic: one arbitrary index)"""
        bs = np.broadcast_arrays(*[np.asarray(a, dtype=float) for a in arrs])
        for v in zip(*[b.ravel() for b in bs]): self.ensure(name, f(*v))
    def dist(self, fam, meth, x, *pars):
        import scipy.stats as st
        return getattr(getattr(st, fam), meth)(x, *pars)
    def np(self): return np
    # code under contract
    def mod(self, name):
        importlib.import_module("diff_diff")
        return importlib.import_module("diff_diff." + name)
    def fn(self, mod, path):
        if any(p.startswith("_") for p in path.split(".")): self.private = True
        return getpath(self.mod(mod), path)
    def stub(self, mod, path, repl):
        self.private = True; m = self.mod(mod); parent = m
        ps = path.split(".")
        for p in ps[:-1]: parent = getattr(parent, p, None) if parent is not None else None
        if parent is None or not hasattr(parent, ps[-1]): raise MissingTarget(f"{mod}.{path}")
        old = getattr(parent, ps[-1]); repl = adapt(repl, old)
        if len(ps) == 1:
            for mm in list(sys.modules.values()):
                if getattr(mm, "__name__", "").startswith("diff_diff"):
                    for k, v in list(vars(mm).items()):
                        if v is old: setattr(mm, k, repl); self.undo.append((mm, k, old))
        else:
            setattr(parent, ps[-1], repl); self.undo.append((parent, ps[-1], old))
    def internal(self, f):
        """a call that builds internal data structures: a changed internal interface is a missing target, not a violation"""
        self.private = True
        try: return f()
        except (TypeError, KeyError, AttributeError) as e: raise MissingTarget(f"internal interface: {type(e).__name__}: {e}")
    def close(self):
        for o, k, v in reversed(self.undo): setattr(o, k, v)
        self.undo = []
    def stdout(self, f):
        import io
        b = io.StringIO()
        with contextlib.redirect_stdout(b): r = f()
        return r, b.getvalue()
    def printed(self, text, x, spec=None): return None
def adapt(repl, old):
    """a stub called with keywords (or positions) it does not know by name gets its arguments in the order of the signature it stands for"""
    import inspect, functools, types
    if not isinstance(repl, types.FunctionType): return repl
    try: rs, sig = inspect.signature(repl), getattr(old, "__dv_sig__", None) or inspect.signature(old)
    except (TypeError, ValueError): return repl
    P = inspect.Parameter
    kinds = {p.kind for p in rs.parameters.values()}
    loose = P.VAR_POSITIONAL in kinds and P.VAR_KEYWORD not in kinds      # reads its arguments by position
    konly = {n for n, p in rs.parameters.items() if p.kind == P.KEYWORD_ONLY}
    @functools.wraps(repl)
    def w(*a, **k):
        if k:
            try:
                if loose and any(n not in konly for n in k): raise TypeError
                rs.bind(*a, **k)
            except TypeError:
                kk = {n: v for n, v in k.items() if n in konly}
                try: b = sig.bind(*a, **k)
                except TypeError: b = None
                if b is not None:
                    pos = []
                    for n, p in sig.parameters.items():
                        if n in kk: continue
                        if n in b.arguments:
                            if p.kind == P.VAR_POSITIONAL: pos.extend(b.arguments[n])
                            elif p.kind == P.VAR_KEYWORD: kk.update(b.arguments[n])
                            else: pos.append(b.arguments[n])
                        elif p.default is not P.empty and any(m in b.arguments for m in list(sig.parameters)[list(sig.parameters).index(n) + 1:] if m not in kk):
                            pos.append(p.default)      # a gap before a later argument
                    try: rs.bind(*pos, **kk)
                    except TypeError: pass
                    else: return repl(*pos, **kk)
        return repl(*a, **k)
    w.__dv_sig__ = sig
    return w
class ConcAxis:
    def __init__(self, name, n): self.name, self.n = name, n
def _s(a):
    a = np.asarray(a)
    return repr(a.tolist())[:300] if a.ndim else repr(float(a))

def run_concrete(h, seed, over=None):
    """-> ('ok', n) | ('skip',) | ('missing', what) | ('viol', name, detail, log)"""
    g = ConcG(seed, over)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with np.errstate(all="ignore"):
                h.fn(g)
            return ("ok", g.nchecks, g.log)
        except Skip: return ("skip",)
        except MissingTarget as e: return ("missing", str(e))
        except Violation as v: return ("viol", v.name, v.detail, g.log)
        except (ImportError, SyntaxError) as e: return ("error", f"{type(e).__name__}: {e}")
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            inrepo = [f for f in tb if "/diff_diff/" in f.filename]
            repo_last = any(REPO_DIR in f.filename for f in tb)
            where = f" at {os.path.basename(inrepo[-1].filename)}:{inrepo[-1].lineno} in {inrepo[-1].name}" if inrepo else ""
            if isinstance(e, TypeError) and g.private and ("positional argument" in str(e) or "keyword argument" in str(e)):
                return ("missing", f"internal interface: {e}{where}")
            if inrepo and "/dv/props/" in tb[-1].filename and isinstance(e, (TypeError, IndexError, KeyError, AttributeError)):
                # a contract standing in for a function could not read the arguments it was given: its interface changed
                return ("missing", f"internal interface: {type(e).__name__}: {e}{where}")
            if not repo_last and not g.private and g.nchecks:
                # only public calls were made: a result that cannot be read as documented
                return ("viol", "result readable", f"{type(e).__name__}: {e} ({os.path.basename(tb[-1].filename)}:{tb[-1].lineno})", g.log)
            if not repo_last:
                return ("error", f"harness error {type(e).__name__}: {e} ({tb[-1].filename}:{tb[-1].lineno})")
            return ("viol", "no-exception", f"{type(e).__name__}: {e}{where}", g.log)
        finally:
            g.close()
REPO_DIR = os.environ.get("DV_REPO", "/repo") + "/diff_diff/"

# ---------------------------------------------------------------- symbolic mode
def make_symg():
    import z3
    from . import core, tensor as T, shims, loader
    from .core import F, SInt, SBool, boolexpr, bAnd, bOr, bNot, toB, mkbool
    class SymG:
        symbolic = True
        def __init__(self, c):
            self.c = c; self.L = SymG.L0; self.L.reset(); self.nchecks = 0
            self.obls = []
        # inputs
        def real(self, name, lo=None, hi=None, nan=False, inf=False, nonzero=False, py=False):
            v = z3.Real(name)
            nanb = z3.Bool(name + ".nan") if nan else False
            pi = z3.Bool(name + ".+inf") if inf else False
            ni = z3.Bool(name + ".-inf") if inf else False
            if inf: self.c.pc.append(z3.AtMost(*([pi, ni] + ([nanb] if nan else [])), 1))
            if lo is not None: self.c.pc.append(v > core.fracval(float(lo)))
            if lo is not None and lo >= 0 and not (nan or inf): self.known_nonneg(v)
            if hi is not None: self.c.pc.append(v < core.fracval(float(hi)))
            if nonzero: self.c.pc.append(v != 0)
            f = F(v, nanb, pi, ni, not py)
            self.c.vars[name] = f
            return f
        def pyreal(self, name, lo=None, hi=None, **k): return self.real(name, lo, hi, py=True, **k)
        def nonneg(self, name, hi=None, **k):
            x = self.real(name, None, hi, **k); self.c.pc.append(x.v >= 0)
            if not (k.get("nan") or k.get("inf")): self.known_nonneg(x.v)
            return x
        def known_nonneg(self, v): self.c.cache.setdefault("nonneg_ids", {})[v.get_id()] = v
        def int(self, name, lo=0, hi=None):
            e = z3.Int(name); self.c.pc.append(e >= lo)
            if hi is not None: self.c.pc.append(e <= hi)
            s = SInt(e); self.c.vars[name] = s; return s
        def choice(self, name, options):
            options = list(options); k = self.c.choose(len(options))
            self.c.vars["choice:" + name] = k
            return options[k]
        def axis(self, name, min=1, max=None):
            a = T.Axis(name); self.c.cache.setdefault("axes", []).append(a); self.c.axiom(a.size >= min)
            self.c.vars["n_" + name] = F(a.size)
            return a
        def vec(self, name, axis, **k): return T.vec(name, axis, **k)
        def binary(self, name, axis, as_bool=False):
            b = T.binary(name, axis, as_bool); b._binary = True; return b
        def onehot(self, name, axis, groups): return T.onehot(name, axis, groups)
        def mat(self, name, a1, a2):
            if isinstance(a2, int):
                if isinstance(a1, int): return np.array([[self.real(f"{name}_{i}_{j}") for j in range(a2)] for i in range(a1)], dtype=object)
                return shims.column_stack([T.vec(f"{name}_{j}", a1) for j in range(a2)])
            return T.mat(name, a1, a2)
        def fullrank(self, name, axis, k):
            X = self.mat(name, axis, k)
            if isinstance(k, int) and k: self.notsingular(X)
            return X
        def notsingular(self, X):
            A = shims.asobj(X.T @ X); k = A.shape[0]
            for i in range(k): self.c.assume(A[i, i] > 0)
            if k > 1: self.c.assume(shims._det([[F.lift(A[i, j]) for j in range(k)] for i in range(k)]) > 0)
        def labels(self, name, axis, groups):
            G = T.onehot(name, axis, groups)
            self.c.axiom(groups.size <= axis.size)
            from . import frames
            return frames.GroupCol(name, G), G
        def table(self, axis, **cols):
            from . import frames
            for k, v in cols.items():
                if isinstance(v, T.Arr) and getattr(v, "_binary", False): self.c.cache.setdefault("uniques", {})[k] = [0.0, 1.0]
            return frames.SymDF(cols, axis)
        def panel(self, units, times, D=None, e=None):
            """a balanced panel: every unit is seen exactly once in every period.  -> (row axis, unit column, time column, unit one-hot, time one-hot)"""
            from . import frames
            U0, T0 = self.axis(units[0], units[1]), self.axis(times[0], times[1])
            rows = T.Axis("rows", size=U0.size * T0.size); self.c.vars["n_rows"] = F(rows.size)
            self.c.axiom(rows.size >= 1); self.c.cache.setdefault("axes", []).append(rows)
            u, t = units[0], times[0]
            Gu, Gt = T.onehot("U", rows, U0), T.onehot("T", rows, T0)
            for nm, ax in (("U", U0), ("T", T0)): T.atom("one:" + nm, (ax,), pos=True); T.atom("rcp#" + nm, ()); T.atom("cnt:" + nm, (ax,), pos=True); T.atom("rcp:cnt:" + nm, (ax,), pos=True)
            nb = lambda ix: "b" + str(90 + len(ix))
            T.panel_facts({("U", "T"): lambda ix, jx: [("one:U", (ix[1],)), ("one:T", (jx[1],))], ("T", "U"): lambda ix, jx: [("one:T", (ix[1],)), ("one:U", (jx[1],))],
                           "cnt:U": lambda ix: [("one:U", ix), ("num#T", ())], "cnt:T": lambda ix: [("one:T", ix), ("num#U", ())],
                           "rcp:cnt:U": lambda ix: [("one:U", ix), ("rcp#T", ())], "rcp:cnt:T": lambda ix: [("one:T", ix), ("rcp#U", ())]},
                          zero=set() if e is None else {(a, b) for a, b in (("U", e), (e, "U"), ("T", e), (e, "T"))},
                          sums={"one:U": U0.size, "one:T": T0.size, "rcp#U": 1 / U0.size, "rcp#T": 1 / T0.size, "num#U": U0.size, "num#T": T0.size})
            T.atom("num#U", ()); T.atom("num#T", ())
            self.c.cache.setdefault("unique_rows", []).append((rows, {frames.colkey(Gu), frames.colkey(Gt)}))
            return rows, frames.GroupCol("unit", Gu), frames.GroupCol("time", Gt), Gu, Gt
        def two_period_panel(self, units, post, e):
            """balanced panel with two periods: each unit has exactly one row with post=0 and one with post=1; e: atom of
            the residual of the dummy regression (sums to zero in every unit and every period)"""
            from . import frames
            U0 = self.axis(units[0], units[1]); rows = T.Axis("rows", size=2 * U0.size); self.c.vars["n_rows"] = F(rows.size)
            self.c.cache.setdefault("axes", []).append(rows)
            Gu = T.onehot("U", rows, U0); t = self.binary(post, rows); ev = T.vec(e, rows)
            for nm, axs in (("one:U", (U0,)), ("cnt:U", (U0,)), ("rcp:cnt:U", (U0,)), ("num#2", ()), ("rcp#2", ())): T.atom(nm, axs, pos=True)
            T.panel_facts({("U", post): lambda ix, jx: [("one:U", (ix[1],))], "cnt:U": lambda ix: [("one:U", ix), ("num#2", ())], "rcp:cnt:U": lambda ix: [("one:U", ix), ("rcp#2", ())]},
                          zero={("U", e), (e, "U"), (post, e), (e, post)}, sums={"one:U": U0.size, "num#2": z3.RealVal(2), "rcp#2": z3.RealVal("1/2"), e: z3.RealVal(0), post: U0.size})
            self.c.cache.setdefault("unique_rows", []).append((rows, {frames.colkey(Gu), frames.colkey(t)}))
            return rows, U0, frames.GroupCol("unit", Gu), Gu, t, ev
        def codes(self, name, axis, values):
            from . import frames
            return frames.codes(name, axis, values)
        def lemma(self, name, c):
            """prove c, then use it"""
            c = boolexpr(c); self.ensure(name, mkbool(toB(c))); self.c.cache.setdefault("exact", set()).add(len(self.obls) - 1); self.c.axiom(c)
        def lemma_eq(self, name, a, b, **k):
            A, B = np.broadcast_arrays(shims.asobj(a), shims.asobj(b))
            for ix in np.ndindex(A.shape): self.lemma(name, self.same(A[ix], B[ix]))
        def assume_eq(self, a, b):
            A, B = np.broadcast_arrays(shims.asobj(a), shims.asobj(b))
            for ix in np.ndindex(A.shape): self.c.assume(self.same(A[ix], B[ix]))
        def inv(self, A): return shims.np_shim.linalg.inv(A)
        def reals(self, name, k, **kw):
            out = np.empty(k, dtype=object)
            for i in range(k): out[i] = self.real(f"{name}{i}", **kw)
            return out
        # logic
        def assume(self, c): self.c.assume(c)
        def cover(self, name="reach"): self.c.covers.append(name)
        def ensure(self, name, c, detail=""):
            if isinstance(c, (list, tuple)):
                for x in c: self.ensure(name, x, detail)
                return
            self.obls.append((name, boolexpr(c), len(self.c.pc), len(self.c.ax)))
        def fail(self, name, detail=""): self.ensure(name, False, detail)
        def eq(self, name, a, b, **k):
            if isinstance(a, (T.Arr, T.CatArr)) or isinstance(b, (T.Arr, T.CatArr)):
                if isinstance(a, T.CatArr) or isinstance(b, T.CatArr):
                    if not (isinstance(a, T.CatArr) and isinstance(b, T.CatArr)): raise core.Unsupported("comparison of concatenations")
                    for x, y in zip(a.parts, b.parts): self.eq(name, x, y)
                    return
                gs = T.polyeq(a, b)
                self.ensure(name, mkbool(toB(bAnd(*[g if not isinstance(g, bool) else g for g in gs]))) if gs else True)
                return
            if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
                A, B = np.broadcast_arrays(shims.asobj(a), shims.asobj(b))
                for ix in np.ndindex(A.shape): self.eq(name, A[ix], B[ix])
                return
            self.ensure(name, self.same(a, b))
        def same(self, a, b):
            a, b = F.lift(a), F.lift(b)
            both = bAnd(a.fin(), b.fin())
            fin = bAnd(both, True if a.v.eq(b.v) else a.v == b.v)
            return mkbool(toB(bOr(bAnd(toB(a.nan), toB(b.nan)), bAnd(toB(a.pi), toB(b.pi)), bAnd(toB(a.ni), toB(b.ni)), bAnd(bNot(bOr(a.nan, a.pi, a.ni)), fin))))
        def le(self, name, a, b, tol=0):
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                A, B = np.broadcast_arrays(shims.asobj(a), shims.asobj(b))
                for ix in np.ndindex(A.shape): self.le(name, A[ix], B[ix])
                return
            self.ensure(name, F.lift(a) <= b)
        def nan(self, name, a):
            if isinstance(a, (np.ndarray, list, tuple)):
                for x in np.asarray(a, dtype=object).ravel(): self.nan(name, x)
                return
            self.ensure(name, mkbool(toB(F.lift(a).nan)))
        def isnan(self, x): return mkbool(toB(F.lift(x).nan))
        def isfinite(self, x): return mkbool(toB(F.lift(x).fin()))
        def and_(self, *c): return mkbool(toB(bAnd(*[boolexpr(x) for x in c])))
        def or_(self, *c): return mkbool(toB(bOr(*[boolexpr(x) for x in c])))
        def not_(self, c): return mkbool(toB(bNot(boolexpr(c))))
        def iff(self, a, b): return mkbool(toB(boolexpr(a)) == toB(boolexpr(b)))
        def implies(self, a, b): return mkbool(toB(bOr(bNot(boolexpr(a)), boolexpr(b))))
        def ite(self, c, a, b): return shims.h_where(c if not isinstance(c, bool) else c, a, b)
        def value(self, x): return x
        def raises(self, name, exc, f):
            try: f()
            except exc: self.ensure(name, True); return
            except (core.Unsupported, core.PathLimit, MissingTarget): raise
            except Exception as e: self.ensure(name, False); return
            self.ensure(name, False)
        def sqrt(self, x): return core.fsqrt(x)
        def exp(self, x): return core.fexp(x)
        def abs(self, x): return shims.HANDLERS["abs"](x)
        def max(self, a, b): return shims.smax2(a, b)
        def min(self, a, b): return shims.smin2(a, b)
        def sum(self, x): return shims.h_sum(x)
        def devsq(self, x): return T.devsq(x)
        def sumsq(self, x):
            """sum of squares over an axis: non-negative, whatever the entries"""
            s = shims.h_sum(x * x); self.c.axiom(boolexpr(s >= 0)); return s
        def each(self, name, f, *arrs):
            for a in arrs: T.toarr(a)
            vs = [T.entry(a) for a in arrs]
            if any(isinstance(v, np.ndarray) for v in vs):
                for v in zip(*[b.ravel() for b in np.broadcast_arrays(*[shims.asobj(v) for v in vs])]): self.ensure(name, f(*v))
            else: self.ensure(name, f(*vs))
        def set_const(self, mod, name, v):
            m = self.mod(mod)
            if not hasattr(m, name): raise MissingTarget(f"{mod}.{name}")
            self.L.setattr(m, name, v)
        def stub_method(self, cls, name, f): self.L.setattr(cls, name, f)
        def dist(self, fam, meth, x, *pars):
            return getattr(shims.Dist(fam), meth)(F.lift(x), *[F.lift(p) for p in pars])
        def np(self): return shims.np_shim
        def mod(self, name):
            return self.L.load("diff_diff." + name)
        def fn(self, mod, path): return getpath(self.mod(mod), path)
        def stub(self, mod, path, repl):
            m = self.mod(mod); parent = m; ps = path.split(".")
            for p in ps[:-1]:
                parent = getattr(parent, p, None)
                if parent is None: raise MissingTarget(f"{mod}.{path}")
            if not hasattr(parent, ps[-1]): raise MissingTarget(f"{mod}.{path}")
            repl = adapt(repl, getattr(parent, ps[-1]))
            if len(ps) == 1:
                if not self.L.patch(getattr(m, ps[0]), repl): raise MissingTarget(path)
            else: self.L.setattr(parent, ps[-1], repl)
        def internal(self, f):
            try: return f()
            except (TypeError, KeyError, AttributeError) as e: raise core.Unsupported(f"internal interface: {type(e).__name__}: {e}")
        def close(self): pass
        def stdout(self, f):
            o = self.c.cache.setdefault("stdout", []); k = len(o)
            r = f(); return r, "\n".join(o[k:])
    core.Ctx.cur = core.Ctx()
    SymG.L0 = loader.SymModules(__import__("dv.frames", fromlist=["x"]).pd_shim)
    SymG.L0.preload()
    return SymG

def run_symbolic(h, budget=120.0, obl_ms=10000, max_paths=600):
    """Explore all paths; returns a dict with obligations and coverage."""
    import z3
    from . import core
    SymG = make_symg()
    t0 = time.time()
    res = {"paths": 0, "obls": [], "unsupported": [], "notes": [], "missing": None, "covers": [], "incomplete": False, "sources": []}
    notes = set(); covers = set(); unsup = {}
    work = [[]]
    cachekey = {}
    while work:
        if time.time() - t0 > budget or res["paths"] >= max_paths:
            res["incomplete"] = True; unsup["path or time budget exhausted"] = unsup.get("path or time budget exhausted", 0) + 1
            break
        pre = work.pop()
        c = core.Ctx(pre); core.Ctx.cur = c
        g = SymG(c)
        err = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                h.fn(g)
        except core.Infeasible:
            work.extend(c.pending); continue
        except MissingTarget as e:
            res["missing"] = str(e); break
        except core.Unsupported as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            rp = [f for f in tb if f.filename.startswith(REPO_DIR)]
            err = f"unsupported: {e}" + (f" ({os.path.basename(rp[-1].filename)}:{rp[-1].lineno})" if rp else "")
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            rp = [f for f in tb if f.filename.startswith(REPO_DIR)]
            err = f"{type(e).__name__}: {e}" + (f" ({os.path.basename(rp[-1].filename)}:{rp[-1].lineno})" if rp else f" ({os.path.basename(tb[-1].filename)}:{tb[-1].lineno})")
        work.extend(c.pending)
        if c.feasible(z3.BoolVal(True), 3000) is False:      # contradictory premises: nothing is claimed from this path
            res["vacuous"] = res.get("vacuous", 0) + 1; continue
        notes |= c.notes; covers |= set(c.covers)
        res["paths"] += 1
        if err:
            # is the path even feasible?
            unsup[err] = unsup.get(err, 0) + 1
        pcf, axf = list(c.pc), list(c.ax)
        for io, (name, goal, npc, nax) in enumerate(g.obls):
            # obligations hold under what was known when they were stated plus all axioms (sound: axioms are facts)
            c.pc = pcf[:npc]
            st, be, secs, model = core.prove(c, name, goal, obl_ms, exact=io in c.cache.get("exact", ()))
            o = {"name": name, "status": st, "backend": be, "t": round(secs, 4), "path": res["paths"] - 1}
            if st == "refuted" and model is not None:
                o["model"] = model_values(c, model)
            if st != "proved":
                o["goal"] = str(goal)[:600]
            res["obls"].append(o)
        c.pc = pcf
    res["unsupported"] = [f"{k} [x{v}]" for k, v in unsup.items()]
    res["notes"] = sorted(notes); res["covers"] = sorted(covers)
    res["secs"] = round(time.time() - t0, 3)
    return res

def model_values(c, m):
    import z3
    from .core import F, SInt
    out = {}
    for name, x in c.vars.items():
        try:
            if isinstance(x, int): out[name] = x; continue
            if isinstance(x, SInt):
                out[name] = m.eval(x.e, model_completion=True).as_long(); continue
            for flag, val in (("nan", math.nan), ("pi", math.inf), ("ni", -math.inf)):
                b = getattr(x, flag)
                if b is True or (b is not False and z3.is_true(m.eval(b, model_completion=True))):
                    out[name] = val; break
            else:
                v = m.eval(x.v, model_completion=True)
                if z3.is_algebraic_value(v): v = v.approx(20)
                out[name] = float(v.as_fraction())
        except Exception:
            pass
    return out
