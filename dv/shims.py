"""numpy / scipy / builtins as seen by the symbolically executed code.

Calls without symbolic operands go to the real libraries.  Calls with symbolic operands are answered by the
assumed contracts below (listed as the trusted base); anything else raises Unsupported.
"""
import builtins, types, math
import numpy as np
import z3
from .core import *
from .tensor import *
from . import tensor as T

SYMT = (F, SInt, SBool, Arr, CatArr, IndexArr)

def issym(x, depth=0):
    if isinstance(x, SYMT) or getattr(x, "__dv_sym__", False): return True
    if isinstance(x, np.ndarray) and x.dtype == object and depth < 3:
        return any(issym(v, depth + 1) for v in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(issym(v, depth + 1) for v in x)
    if isinstance(x, dict) and depth < 2:
        return any(issym(v, depth + 1) for v in x.values())
    return False

def deobj(x):
    """object arrays that hold no symbolic value behave like ordinary arrays"""
    if isinstance(x, np.ndarray) and x.dtype == object and not issym(x):
        try: return x.astype(bool) if all(isinstance(v, (bool, np.bool_)) for v in x.ravel()) and x.size else x.astype(float)
        except (TypeError, ValueError): return x
    if isinstance(x, (list, tuple)) and any(isinstance(v, np.ndarray) for v in x):
        return type(x)(deobj(v) for v in x)
    return x

def objmap(f, x):
    out = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(x.shape): out[ix] = f(x[ix])
    return out
def asobj(x):
    if isinstance(x, np.ndarray): return x if x.dtype == object else x.astype(object)
    return np.array(x, dtype=object)

def axis_of_size(n):
    e = F.lift(n).v
    for a in ctx().cache.setdefault("axes", []):
        if z3.simplify(a.size).eq(z3.simplify(e)): return a
    for a in ctx().cache.get("subaxes", {}).values():
        if z3.simplify(a.size).eq(z3.simplify(e)): return a
    raise Unsupported(f"no axis of size {e}")

def filled(shape, v):
    if not isinstance(shape, (tuple, list)): shape = (shape,)
    shape = tuple(shape)
    if any(isinstance(s, (SInt, F)) for s in shape):
        axes = []
        for s in shape:
            if isinstance(s, (SInt, F)):
                try: axes.append(int(s))
                except Unsupported: axes.append(axis_of_size(s))
            else: axes.append(int(s))
        if any(isinstance(a, Axis) for a in axes):
            c = [a for a in axes if isinstance(a, int)]
            d = np.empty(c, dtype=object)
            for ix in np.ndindex(*c): d[ix] = Poly.const(F.lift(v).v)
            return Arr(axes, d)
        shape = tuple(axes)
    out = np.empty(tuple(int(s) for s in shape), dtype=object)
    out[...] = v
    return out

def classify(x, f):
    x2 = x
    if isinstance(x, (Arr, CatArr)):
        return x2, True
    return x2, False

class NPRandom:
    def __getattr__(self, n):
        if n == "default_rng":
            return lambda seed=None: SymRNG(seed)
        if n in ("Generator", "RandomState", "BitGenerator", "SeedSequence"):
            return getattr(np.random, n)
        if n == "seed" or hasattr(np.random, n):
            def g(*a, **k):
                ctx().cache.setdefault("global_random", []).append(n)
                raise Unsupported("global random state used: np.random." + n)
            return g
        raise AttributeError(n)

class SymRNG:
    """a random generator: records requests; the harness decides what the draws are"""
    def __init__(self, seed): self.seed = seed; self.log = []
    def choice(self, a, size=None, replace=True, p=None, **k):
        rec = ("choice", a, size, replace, p); self.log.append(rec)
        h = ctx().cache.get("rng_hook")
        if h: return h(self, *rec)
        raise Unsupported("random draw")
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        def f(*a, **k):
            rec = (n, a, k); self.log.append(rec)
            h = ctx().cache.get("rng_hook")
            if h: return h(self, *rec)
            raise Unsupported("random draw " + n)
        return f

def _ew1(fscalar, farr):
    def f(x, *a, **k):
        if isinstance(x, CatArr): return x._m(lambda p: f(p))
        if isinstance(x, Arr): return farr(x)
        if isinstance(x, np.ndarray): return objmap(lambda v: fscalar(v), asobj(x))
        if isinstance(x, (list, tuple)): return objmap(lambda v: fscalar(v), asobj(x))
        return fscalar(x)
    return f

def _constbool(x, val):
    if isinstance(x, (Arr, CatArr)):
        if isinstance(x, CatArr): return x._m(lambda p: _constbool(p, val))
        return Arr(x.axes, x.mapdata(lambda P: Poly.const(Z1 if val else Z0)), "bool")

def sisnan(v): return mkbool(toB(F.lift(v).nan))
def sisinf(v): return mkbool(toB(F.lift(v).inf()))
def sisfin(v): return mkbool(toB(F.lift(v).fin()))

def smax2(a, b, nanprop=True):
    a, b = F.lift(a), F.lift(b)
    if isconst(b.v) and a.isfinite_const() and b.isfinite_const() and b.v.as_fraction() <= 0 and nonneg(a.v): return a
    c = a._cmp(b, lambda x, y: x >= y, "le") if False else (a >= b)
    c = boolexpr(c)
    nan = bOr(a.nan, b.nan)
    return F(rIte(c, a.v, b.v), nan, bAnd(bNot(nan), bIte(c, a.pi, b.pi)), bAnd(bNot(nan), bIte(c, a.ni, b.ni)), True)
def smin2(a, b):
    return -smax2(-F.lift(a), -F.lift(b))

def arrmax(f, a, b):
    """np.maximum / np.minimum with a symbolic array"""
    if isinstance(a, CatArr): return a._m(lambda p: arrmax(f, p, b))
    if isinstance(b, CatArr): return b._m(lambda p: arrmax(f, a, p))
    a, b = toarr(a), toarr(b)
    d = a - b
    # max(a,b) = b + pos(a-b);  min(a,b) = a - pos(a-b)
    pos = T.elementwise(lambda P: _pos(P, d), d)
    return b + pos if f == "max" else a - pos
def _pos(P, d):
    if P.isscalar():
        v = P.scalar(); return Poly.const(z3.If(v >= 0, v, Z0))
    if P.isind(): return P
    if P.neg().isind(): return Poly()
    return T.opaque("pos", P, lambda l: d.axes[int(l[1:])], nonneg=True)

def reduce_obj(fn, x, axis, **k):
    x = asobj(x)
    if axis is None: return fn(list(x.ravel()))
    return np.apply_along_axis(lambda v: fn(list(v)), axis, x) if x.ndim > 1 else fn(list(x))

def boolmap(f, x):
    """a boolean array: an ordinary one when every entry is decided, else one of symbolic booleans (never bare bools, whose ~ is an integer)"""
    out = objmap(f, x)
    if all(isinstance(v, (bool, np.bool_)) for v in out.ravel()): return out.astype(bool)
    return objmap(lambda v: SBool(bool(v)) if isinstance(v, (bool, np.bool_)) else v, out)
def _ewb(fscalar, farr):
    def f(x, *a, **k):
        if isinstance(x, CatArr): return x._m(lambda p: f(p))
        if isinstance(x, Arr): return farr(x)
        if hasattr(x, "__dv_array__") and hasattr(x, "_w"): return x._w(farr(x._arr()))
        if isinstance(x, (np.ndarray, list, tuple)): return boolmap(fscalar, asobj(x))
        return fscalar(x)
    return f

def osum(vs):
    r = F(Z0)
    for v in vs: r = r + F.lift(v)
    return r
def omean(vs): return osum(vs) / F(z3.RealVal(len(vs))) if vs else F(Z0, nan=True)
def ovar(vs, ddof=0):
    m = omean(vs); return osum([(F.lift(v) - m) * (F.lift(v) - m) for v in vs]) / F(z3.RealVal(len(vs) - ddof))
def omax(vs):
    r = F.lift(vs[0])
    for v in vs[1:]: r = smax2(r, v)
    return r
def omin(vs):
    r = F.lift(vs[0])
    for v in vs[1:]: r = smin2(r, v)
    return r
def oany(vs):
    e = False
    for v in vs: e = bOr(e, boolexpr(v) if not isinstance(v, (F, SInt)) else boolexpr(v != 0))
    return mkbool(toB(e))
def oall(vs):
    e = True
    for v in vs: e = bAnd(e, boolexpr(v) if not isinstance(v, (F, SInt)) else boolexpr(v != 0))
    return mkbool(toB(e))

class NPLinalg:
    LinAlgError = np.linalg.LinAlgError
    def __getattr__(self, n):
        real = getattr(np.linalg, n)
        def f(*a, **k):
            if not issym(a) and not issym(k) and not (a and callable(a[0]) and self._n + "." + n in ctx().cache.get("lib", {})): return real(*[deobj(x) for x in a], **k)
            h = getattr(self, "s_" + n, None)
            if h is None: raise Unsupported("numpy.linalg." + n)
            return h(*a, **k)
        return f
    def s_solve(self, A, B):
        if isinstance(A, Arr): return inverse(A) @ B
        return csolve(asobj(A), asobj(B))
    def s_inv(self, A):
        if isinstance(A, Arr): return inverse(A)
        A = asobj(A); n = A.shape[0]
        return cinverse(A).copy()
    def s_norm(self, x, ord=None, *a, **k):
        if isinstance(x, Arr) and x.ndim == 1 and ord in (None, 2): return fsqrt((x * x).sumaxis(None))
        if isinstance(x, np.ndarray) and ord in (None, 2) and (x.ndim == 1 or ord is None): return fsqrt(osum([F.lift(v) * F.lift(v) for v in x.ravel()]))
        if isinstance(x, Arr) and ord == 2:
            c = ctx(); r = F(z3.Real(c.fresh("specnorm"))); c.axiom(r.v >= 0); return r
        raise Unsupported("norm")
    def s_svd(self, A, *a, **k): raise Unsupported("svd")
    def s_pinv(self, A, *a, **k): raise Unsupported("pinv")

def csolve(A, B):
    """solution of A x = B for a small concrete shape, through the entries of the inverse: fresh reals, the same for
    equal matrices, constrained by A inv(A) = I.  A singular matrix raises LinAlgError (decided by the determinant)."""
    c = ctx(); n = A.shape[0]
    return (cinverse(A) @ B.reshape(n, -1)).reshape(B.shape)
def cinverse(A):
    c = ctx(); n = A.shape[0]
    c.notes.add("numpy.linalg.solve/inv: exact inverse of a non-singular matrix (singular input raises LinAlgError)")
    E = [[F.lift(A[i, j]) for j in range(n)] for i in range(n)]
    key = tuple(z3.simplify(x.v, som=True).sexpr() for r in E for x in r)
    tbl = c.cache.setdefault("cinv", {})
    if key not in tbl:
        det = _det(E)
        if any(not x.isfinite_const() for r in E for x in r): raise Unsupported("inverse of a matrix with possibly non-finite entries")
        if c.decide(z3.simplify(det.v == 0)): raise np.linalg.LinAlgError("Singular matrix")
        out = np.empty((n, n), dtype=object)
        sym = all(key[i * n + j] == key[j * n + i] for i in range(n) for j in range(n))
        if n == 1: out[0, 0] = F(Z1 / E[0][0].v)
        else:
            for i in range(n):
                for j in range(n):
                    out[i, j] = out[j, i] if sym and j < i else F(z3.Real(c.fresh("inv")))
            for i in range(n):
                for j in range(n):
                    c.axiom(osum([E[i][k] * out[k, j] for k in range(n)]).v == (1 if i == j else 0))
        tbl[key] = out
    return tbl[key]

def _det(M):
    n = len(M)
    if n == 1: return M[0][0]
    if n == 2: return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    r = F(Z0)
    for j in range(n):
        mnr = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = M[0][j] * _det(mnr)
        r = r + t if j % 2 == 0 else r - t
    return r

class NP:
    """the module object bound to `np` in the executed code"""
    linalg = NPLinalg()
    random = NPRandom()
    def __getattr__(self, n):
        real = getattr(np, n)
        if not callable(real) or isinstance(real, type): return real
        h = HANDLERS.get(n)
        def f(*a, **k):
            for x in a:
                if hasattr(x, "__dv_np__"): return x.__dv_np__(n, *a, **k)
            if n in CREATORS: return CREATORS[n](*a, **k)
            if n == "arange" and "seq_size" in ctx().cache:
                from .seqs import arange
                r = arange(*a)
                if r is not None: return r
            if not issym(a) and not issym(k):
                return real(*[deobj(x) for x in a], **{q: deobj(v) for q, v in k.items()})
            if h is None: raise Unsupported("numpy." + n)
            return h(*a, **k)
        f.__name__ = n
        if isinstance(real, np.ufunc) and n in ("add", "subtract", "maximum", "minimum"): f.at = uf_at(n, real)
        return f
def uf_at(n, real):
    def at(a, idx, v):
        if not issym((a, idx, v)) and not (isinstance(a, np.ndarray) and a.dtype == object): return real.at(a, idx, v)
        if isinstance(a, Arr) or isinstance(v, Arr): raise Unsupported(f"np.{n}.at")
        idx = np.asarray(idx).astype(int).ravel(); v = np.broadcast_to(asobj(v), idx.shape)
        op = {"add": lambda x, y: x + y, "subtract": lambda x, y: x - y, "maximum": smax2, "minimum": smin2}[n]
        for i, w in zip(idx, v): a[i] = op(a[i], w)
    return at

def h_array(x, dtype=None, copy=None, **k):
    if isinstance(x, (Arr, CatArr, IndexArr)): return x.copy() if isinstance(x, (Arr, CatArr)) else x
    if hasattr(x, "__dv_array__"): return x.__dv_array__()
    if isinstance(x, (list, tuple)) and any(isinstance(v, Arr) for v in x):
        if all(isinstance(v, Arr) and v.ndim == 1 for v in x):
            return column_stack(x).T
        raise Unsupported("array of arrays")
    if isinstance(x, np.ndarray) and x.dtype != object: return np.array(x)
    r = np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x.copy()
    return r
def h_asarray(x, dtype=None, **k):
    if isinstance(x, (Arr, CatArr, IndexArr)): return x
    if isinstance(x, np.ndarray): return x
    return h_array(x)

def creator_array(x, dtype=None, **k):
    if getattr(x, "__dv_labels__", False): return x
    if issym(x) or hasattr(x, "__dv_array__"): return h_array(x, dtype)
    r = np.array(x, dtype=dtype, **k)
    return r
def creator_asarray(x, dtype=None, **k):
    if getattr(x, "__dv_labels__", False): return x
    if issym(x) or hasattr(x, "__dv_array__"): return h_asarray(x, dtype)
    if isinstance(x, np.ndarray) and x.dtype == object: return deobj(x)
    return np.asarray(x, dtype=dtype, **k)
def creator_full(shape, v, dtype=None, **k): return filled(shape, v)
def creator_like(v):
    def f(x, dtype=None, **k):
        if isinstance(x, Arr): return Arr(x.axes, x.mapdata(lambda P: Poly.const(F.lift(v).v)))
        if isinstance(x, CatArr): return x._m(lambda p: f(p))
        return filled(np.shape(x), v)
    return f
def creator_eye(n, *a, **k):
    if isinstance(n, np.ndarray) and n.ndim == 0: n = n.item()
    if isinstance(n, (SInt, F)):
        try: n = int(n)
        except Unsupported:
            ax = axis_of_size(n)
            nm = "delta_" + ax.key
            T.atom(nm, (ax, ax), sym=True)
            return Arr.from_poly((ax, ax), Poly({((nm, ("f0", "f1")),): Z1}))
    return np.eye(n, *a, **k).astype(object)
def creator_full_like(x, v, **k): return creator_like(v)(x)
def isbool(d): return d is not None and (d is builtins.bool or getattr(d, "__name__", "") in ("bool", "bool_", "boolcls_"))
def creator_bool(shape, dtype, v):
    r = filled(shape, v)
    return r.astype(builtins.bool) if isinstance(r, np.ndarray) else r
def creator_zeros(shape, dtype=None, **k): return creator_bool(shape, dtype, False) if isbool(dtype) else filled(shape, 0.0)
CREATORS = {"array": creator_array, "asarray": creator_asarray, "zeros": creator_zeros,
            "ascontiguousarray": creator_asarray, "full_like": creator_full_like,
            "empty": creator_zeros, "ones": lambda shape, dtype=None, **k: creator_bool(shape, dtype, True) if isbool(dtype) else filled(shape, 1.0), "full": creator_full,
            "zeros_like": creator_like(0.0), "ones_like": creator_like(1.0), "empty_like": creator_like(0.0), "eye": creator_eye}

def column_stack(xs):
    xs = [h_asarray(x) if not isinstance(x, np.ndarray) else x for x in xs]
    if not any(isinstance(x, Arr) for x in xs):
        return np.column_stack([asobj(x) for x in xs])
    row = next(x.axes[0] for x in xs if isinstance(x, Arr))
    cols = []
    for x in xs:
        if not isinstance(x, Arr): raise Unsupported("column_stack of mixed arrays")
        if x.ndim == 1:
            if x.axes[0] is not row: raise Unsupported("column_stack over different axes")
            cols.append(x.data[()])
        elif isinstance(x.axes[1], int):
            cols.extend(x.data[j] for j in range(x.axes[1]))
        else: raise Unsupported("column_stack with a symbolic number of columns")
    d = np.empty(len(cols), dtype=object)
    for i, c in enumerate(cols): d[i] = c
    return Arr((row, len(cols)), d)
def h_concat(xs, axis=0, **k):
    xs = list(xs)
    parts = []
    for x in xs:
        if isinstance(x, CatArr): parts += x.parts
        elif isinstance(x, Arr): parts.append(x)
        elif isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (list, np.ndarray)): parts.append(x)
        else: raise Unsupported("concatenate")
    if any(isinstance(p, Arr) for p in parts):
        if not all(isinstance(p, Arr) and p.ndim == 1 for p in parts): raise Unsupported("concatenate")
        return CatArr(parts)
    return np.concatenate([asobj(p) for p in parts], axis=axis)

def nan_to_num(x):
    if isinstance(x, Arr): return x
    if isinstance(x, np.ndarray) and x.ndim == 1: return asobj([0.0 if isinstance(v, float) and v != v else v for v in x])      # symbolic reals are numbers
    raise Unsupported("nan_to_num")

class Rows:
    """rows of matrices over different axes: may be handed on, not computed with"""
    def __init__(self, parts): self.parts = parts
    @property
    def shape(self): return (sum_([p.shape[0] for p in self.parts]), self.parts[0].shape[1])
    def __len__(self): raise Unsupported("rows of several axes")
    def __getattr__(self, a): raise Unsupported(f"rows of several axes: {a}")

def vstack(xs, *a, **k):
    xs = list(xs)
    if any(isinstance(x, (Arr, CatArr)) for x in xs):
        if not all(isinstance(x, Arr) and x.ndim == 2 for x in xs): raise Unsupported("vstack")
        return Rows(xs)
    return np.vstack([asobj(x) for x in xs])

def h_sum(x, axis=None, keepdims=False, **k):
    if isinstance(x, (Arr, CatArr)): return x.sumaxis(axis, keepdims)
    if isinstance(x, SYMT): return x
    return reduce_obj(osum, x, axis)
def h_mean(x, axis=None, **k):
    if isinstance(x, (Arr, CatArr)): return x.mean(axis)
    if isinstance(x, SYMT): return F.lift(x)
    return reduce_obj(omean, x, axis)
def h_var(x, axis=None, ddof=0, **k):
    if isinstance(x, (Arr, CatArr)): return x.var(axis, ddof)
    return reduce_obj(lambda v: ovar(v, ddof), x, axis)
def h_std(x, axis=None, ddof=0, **k):
    if isinstance(x, (Arr, CatArr)): return x.std(axis, ddof)
    return reduce_obj(lambda v: fsqrt(ovar(v, ddof)), x, axis)
def h_any(x, axis=None, **k):
    if isinstance(x, Arr): return anyall(x, True)
    if isinstance(x, CatArr):
        e = False
        for p in x.parts: e = bOr(e, boolexpr(anyall(p, True)))
        return mkbool(toB(e))
    if isinstance(x, SYMT): return mkbool(toB(boolexpr(x) if isinstance(x, SBool) else boolexpr(x != 0)))
    return reduce_obj(oany, x, axis)
def h_all(x, axis=None, **k):
    if isinstance(x, Arr): return anyall(x, False)
    if isinstance(x, CatArr):
        e = True
        for p in x.parts: e = bAnd(e, boolexpr(anyall(p, False)))
        return mkbool(toB(e))
    if isinstance(x, SYMT): return mkbool(toB(boolexpr(x) if isinstance(x, SBool) else boolexpr(x != 0)))
    return reduce_obj(oall, x, axis)
def h_minmax(which):
    def f(x, axis=None, **k):
        if isinstance(x, Arr): return extremum(x, which)
        if isinstance(x, SYMT): return x
        return reduce_obj(omax if which == "max" else omin, x, axis)
    return f
def h_maximum(which):
    def f(a, b, **k):
        if isinstance(a, (Arr, CatArr)) or isinstance(b, (Arr, CatArr)): return arrmax(which, a, b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            A, B = np.broadcast_arrays(asobj(a), asobj(b))
            out = np.empty(A.shape, dtype=object)
            for ix in np.ndindex(A.shape): out[ix] = (smax2 if which == "max" else smin2)(A[ix], B[ix])
            return out
        return (smax2 if which == "max" else smin2)(a, b)
    return f
def h_clip(x, lo=None, hi=None, **k):
    r = x
    if isinstance(x, Arr):
        # elementwise clipping is a single opaque function so that identical clips agree
        P = x.data[()] if x.data.shape == () else None
        if P is None: raise Unsupported("clip")
        if P.isscalar():
            v = F(P.scalar())
            v = h_clip(v, lo, hi)
            return Arr.from_poly(x.axes, Poly.const(v.v))
        lo_, hi_ = F.lift(lo), F.lift(hi)
        if not (isconst(z3.simplify(lo_.v)) and isconst(z3.simplify(hi_.v))): raise Unsupported("clip to symbolic bounds")
        at = T.opaque(f"clip[{z3.simplify(lo_.v)},{z3.simplify(hi_.v)}]", P, lambda l: x.axes[int(l[1:])], pos=isconst(z3.simplify(lo_.v)) and lo_.v.as_fraction() > 0 if isconst(lo_.v) else False)
        return Arr.from_poly(x.axes, at)
    if lo is not None: r = h_maximum("max")(r, lo)
    if hi is not None: r = h_maximum("min")(r, hi)
    return r
def h_where(c, *ab):
    if not ab:
        if isinstance(c, Arr) and c.kind == "bool" and c.ndim == 1: return (IndexArr(subaxis(c.axes[0], c)),)
        if isinstance(c, np.ndarray): return np.where(np.array([bool(v) for v in c]))
        raise Unsupported("np.where")
    a, b = ab
    if any(isinstance(v, Arr) for v in (c, a, b)): return T.where(c, a, b)
    if isinstance(c, (SBool, bool, np.bool_)):
        a, b = F.lift(a), F.lift(b); e = boolexpr(c)
        return F(rIte(e, a.v, b.v), bIte(e, a.nan, b.nan), bIte(e, a.pi, b.pi), bIte(e, a.ni, b.ni))
    C, A, B = np.broadcast_arrays(asobj(c), asobj(a), asobj(b))
    out = np.empty(C.shape, dtype=object)
    for ix in np.ndindex(C.shape): out[ix] = h_where(C[ix], A[ix], B[ix]) if issym((C[ix], A[ix], B[ix])) else (A[ix] if C[ix] else B[ix])
    return out
def h_dot(a, b):
    if isinstance(a, Arr) or isinstance(b, Arr): return matmul(a, b)
    a, b = asobj(a), asobj(b)
    return a @ b if a.ndim and b.ndim else a * b
def h_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if any(isinstance(x, (Arr, CatArr, np.ndarray, list, tuple)) for x in (a, b)): raise Unsupported("isclose of arrays")
    a, b = F.lift(a), F.lift(b); d = (a - b).__abs__()
    return d <= F.lift(atol) + F.lift(rtol) * b.__abs__()
def h_diag(x):
    if isinstance(x, Arr): raise Unsupported("diag")
    return np.diag(x)
def h_sign(x):
    x = F.lift(x); return F(rIte(x.v > 0, Z1, rIte(x.v < 0, z3.RealVal(-1), Z0)) if x.isfinite_const() else 1 / 0)
def h_diff(x, n=1, axis=-1, *a, **k):
    if isinstance(x, np.ndarray) and x.ndim == 1 and n == 1: return x[1:] - x[:-1]
    raise Unsupported("differences of a symbolic array")
def h_cumsum(x, *a, **k):
    if isinstance(x, np.ndarray):
        out = np.empty(len(x), dtype=object); r = F(Z0)
        for i, v in enumerate(x): r = r + v; out[i] = r
        return out
    raise Unsupported("cumsum of a symbolic-length array")
def h_square(x): return x * x
def h_isin(x, vals, **k):
    if isinstance(x, Arr):
        r = None
        for v in list(vals):
            e = x == v
            r = e if r is None else (r | e)
        return r if r is not None else _constbool(x, False)
    raise Unsupported("isin")
def h_percentile(x, q, *a, **k):
    """Percentiles of a sample: assumed contract — monotone in q, between the extremes, q=0/100 the extremes,
    and a function of the (multi)set of values and q only."""
    if isinstance(q, (list, tuple, np.ndarray)):
        qs = list(q); out = np.empty(len(qs), dtype=object)
        for i, v in enumerate(qs): out[i] = h_percentile(x, v, *a, **k)
        return out
    if a or k: raise Unsupported("percentile with options")
    c = ctx(); nanb = False; lim = ()
    if isinstance(x, Arr):
        if x.ndim != 1 or x.kind == "bool": raise Unsupported("percentile of a matrix")
        key = ("arr", x.axes[0].key if isinstance(x.axes[0], Axis) else x.axes[0], x.data[()].key() if x.data.shape == () else str([x.data[ix].key() for ix in np.ndindex(x.data.shape)]))
    else:
        v = [F.lift(u) for u in asobj(x).ravel()]
        if not v: raise Unsupported("percentile of an empty sample")
        if any(u.pi is not False or u.ni is not False for u in v): raise Unsupported("percentile of infinite values")
        nanb = bOr(*[u.nan for u in v]); key = ("set", tuple(sorted(u.v.sexpr() for u in v))); lim = [u.v for u in v]
    q = F.lift(q); tbl = c.cache.setdefault("percentiles", {}).setdefault(key, [])
    ctx().notes.add("numpy.percentile: a function of the sample (as a multiset) and q, monotone in q, between the extremes")
    for qq, r in tbl:
        if z3.simplify(qq).eq(z3.simplify(q.v)): return F(r, nan=nanb)
    r = z3.Real(c.fresh("pct"))
    for qq, rr in tbl:
        c.axiom(z3.Implies(qq <= q.v, rr <= r)); c.axiom(z3.Implies(q.v <= qq, r <= rr)); c.axiom(z3.Implies(q.v == qq, r == rr))
    if lim:
        c.axiom(z3.Or(*[l <= r for l in lim])); c.axiom(z3.Or(*[l >= r for l in lim]))
    tbl.append((q.v, r)); return F(r, nan=nanb)
def h_interp(x, xp, fp, left=None, right=None, period=None):
    """piecewise linear interpolation at given numbers over a given grid (the values may be symbolic)"""
    if isinstance(x, Arr) or isinstance(fp, Arr) or period is not None: raise Unsupported("interp")
    try: x = float(deobj(x)); xs = [float(v) for v in np.ravel(deobj(xp))]
    except Exception: raise Unsupported("interp at symbolic points")
    f = [F.lift(v) for v in asobj(fp).ravel()]
    if x != x or not xs or len(xs) != len(f): raise Unsupported("interp")
    if x < xs[0]: return F.lift(f[0] if left is None else left)
    if x > xs[-1]: return F.lift(f[-1] if right is None else right)
    i = max(j for j, v in enumerate(xs) if v <= x)
    return f[i] if xs[i] == x else f[i] + (f[i + 1] - f[i]) * ((x - xs[i]) / (xs[i + 1] - xs[i]))
def h_ix(*a): return np.ix_(*[np.asarray(deobj(x)).astype(int) for x in a])
HANDLERS = {
    "sqrt": _ew1(fsqrt, lambda x: T.unary("sqrt", x)), "abs": _ew1(lambda v: abs(F.lift(v)), lambda x: T.unary("abs", x)),
    "absolute": _ew1(lambda v: abs(F.lift(v)), lambda x: T.unary("abs", x)), "fabs": _ew1(lambda v: abs(F.lift(v)), lambda x: T.unary("abs", x)),
    "exp": _ew1(fexp, lambda x: T.unary("exp", x)), "log": _ew1(flog, lambda x: T.unary("log", x)),
    "isnan": _ewb(sisnan, lambda x: _constbool(x, False)), "isinf": _ewb(sisinf, lambda x: _constbool(x, False)),
    "isfinite": _ewb(sisfin, lambda x: _constbool(x, True)),
    "sum": h_sum, "mean": h_mean, "var": h_var, "std": h_std, "any": h_any, "all": h_all,
    "max": h_minmax("max"), "min": h_minmax("min"), "amax": h_minmax("max"), "amin": h_minmax("min"),
    "maximum": h_maximum("max"), "minimum": h_maximum("min"), "clip": h_clip, "where": h_where,
    "array": h_array, "asarray": h_asarray, "ascontiguousarray": h_asarray, "concatenate": h_concat, "hstack": h_concat, "column_stack": column_stack,
    "dot": h_dot, "matmul": h_dot, "isclose": h_isclose, "ceil": lambda x: h_ceil(x), "floor": lambda x: h_floor(x), "diag": h_diag, "sign": h_sign, "cumsum": h_cumsum, "diff": h_diff, "square": h_square,
    "isin": h_isin, "percentile": h_percentile, "interp": h_interp, "float64": lambda x: F.lift(x), "multiply": lambda a, b: a * b, "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b, "divide": lambda a, b: a / b, "negative": lambda a: -a, "power": lambda a, b: a ** b,
    "unique": lambda x, *a, **k: x.unique(*a, **k), "logical_and": lambda a, b: a & b, "logical_or": lambda a, b: a | b, "logical_not": lambda a: ~a, "ravel": lambda x: x,
    "nan_to_num": lambda x, *a, **k: nan_to_num(x), "vstack": vstack,
    "isscalar": lambda x: isinstance(x, (F, SInt)), "ndim": lambda x: x.ndim, "shape": lambda x: x.shape, "transpose": lambda x: x.T,
    "nanmean": lambda x, axis=None, **k: h_mean(x, axis) if isinstance(x, Arr) else nanfun(omean, x) if axis is None else reduce_obj(lambda v: nanfun(omean, v), x, axis),
    "nansum": lambda x, axis=None, **k: h_sum(x, axis) if isinstance(x, Arr) else nanfun(osum, x) if axis is None else reduce_obj(lambda v: nanfun(osum, v), x, axis), "nanstd": lambda x, ddof=0, **k: h_std(x, ddof=ddof) if isinstance(x, Arr) else nanfun(lambda v: fsqrt(ovar(v, ddof)), x),
    "atleast_1d": lambda x: x if getattr(x, "ndim", 0) else np.array([x], dtype=object), "outer": lambda a, b: np.array([[x * y for y in b] for x in a], dtype=object),
}
def h_average(x, axis=None, weights=None, returned=False, **k):
    if returned or k: raise Unsupported("np.average")
    if weights is None: return h_mean(x, axis)
    if axis not in (None, 0) or len(x.shape) != 1: raise Unsupported("np.average of a table")
    w = h_array(weights); W = h_sum(w)
    if bool(W == 0): raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return h_sum(x * w) / W
def h_hstack(xs, **k):
    xs = list(xs)
    if all(getattr(x, "ndim", 1) == 1 for x in xs): return h_concat(xs)
    if any(isinstance(x, (Arr, CatArr)) for x in xs): return column_stack(xs)
    return h_concat(xs, axis=1)
_log = HANDLERS["log"]; _exp = HANDLERS["exp"]
HANDLERS.update({"average": h_average, "hstack": h_hstack, "true_divide": lambda a, b: a / b, "reciprocal": lambda a: 1 / a, "log1p": lambda x: _log(1 + x), "logaddexp": lambda a, b: _log(_exp(a) + _exp(b)), "hypot": lambda a, b: HANDLERS["sqrt"](a * a + b * b),
    "count_nonzero": lambda x, axis=None, **k: h_sum(x if getattr(x, "kind", "") == "bool" else x != 0, axis), "inner": lambda a, b: h_dot(a, b), "vdot": lambda a, b: h_dot(a, b), "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b, "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b, "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "nanvar": lambda x, ddof=0, **k: h_var(x, ddof=ddof) if isinstance(x, Arr) else nanfun(lambda v: ovar(v, ddof), x)})
def nanfun(f, x):
    v = [F.lift(u) for u in asobj(x).ravel()]
    v = [u for u in v if not bool(mkbool(toB(u.nan)))]
    return f(v)

# ------------------------------------------------------------------ scipy.stats
class Dist:
    def __init__(self, fam): self.fam = fam; self.real = getattr(__import__("scipy.stats", fromlist=["x"]), fam)
    def _d(self, meth, a, k, f):
        if not issym(a) and not issym(k): 
            r = getattr(self.real, meth)(*[deobj(x) for x in a], **k)
            # a concrete quantile/probability still has to be consistent with the symbolic axioms
            if Ctx.cur is None: return r
        x = a[0]; pars = list(a[1:])
        for q in ("df", "nc"):
            if q in k: pars.append(k[q])
        if "loc" in k or "scale" in k: raise Unsupported("loc/scale")
        if isinstance(x, np.ndarray): return objmap(lambda v: f(v, pars), asobj(x))
        if isinstance(x, Arr): raise Unsupported("distribution of a symbolic array")
        return f(x, pars)
    def cdf(self, *a, **k): return self._d("cdf", a, k, lambda x, p: fcdf(self.fam, x, p))
    def sf(self, *a, **k): return self._d("sf", a, k, lambda x, p: fcdf(self.fam, x, p, True))
    def ppf(self, *a, **k): return self._d("ppf", a, k, lambda x, p: fppf(self.fam, x, p))
    def isf(self, *a, **k): return self._d("isf", a, k, lambda x, p: fppf(self.fam, x, p, True))
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        def g(*a, **k):
            if not issym(a) and not issym(k): return getattr(self.real, n)(*a, **k)
            raise Unsupported(f"scipy.stats.{self.fam}.{n}")
        return g
class Stats:
    norm, t, chi2, ncx2 = Dist("norm"), Dist("t"), Dist("chi2"), Dist("ncx2")
    def __getattr__(self, n):
        import scipy.stats as st
        real = getattr(st, n)
        def g(*a, **k):
            if not issym(a) and not issym(k): return real(*a, **k)
            raise Unsupported("scipy.stats." + n)
        return g if callable(real) and not isinstance(real, type) else real
class Passthrough:
    """a library module: real when concrete, unsupported when symbolic, unless given a handler"""
    def __init__(self, name, handlers=None, subs=None):
        self.__dict__.update(_n=name, _h=handlers or {}, _s=subs or {})
    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__version__",): raise AttributeError(n)
        if n in self._s: return self._s[n]
        import importlib
        real = getattr(importlib.import_module(self._n), n, None)
        if real is None: real = importlib.import_module(self._n + "." + n)
        if isinstance(real, types.ModuleType): return Passthrough(real.__name__)
        if isinstance(real, type) or not callable(real): return real
        def g(*a, **k):
            if not issym(a) and not issym(k) and not (a and callable(a[0]) and self._n + "." + n in ctx().cache.get("lib", {})): return real(*[deobj(x) for x in a], **k)
            h = ctx().cache.get("lib", {}).get(self._n + "." + n) or LIB.get(self._n + "." + n)
            if h is None: raise Unsupported(self._n + "." + n)
            return h(*a, **k)
        g.__name__ = n
        return g

def lib_hook(name, fn):
    ctx().cache.setdefault("lib", {})[name] = fn

np_shim = NP()
stats_shim = Stats()

# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(c, x):
        return builtins.isinstance(x, (builtins.float, F))
    def __call__(c, x=0.0):
        if isinstance(x, F): return F(x.v, x.nan, x.pi, x.ni, False)
        if isinstance(x, (SInt, SBool)): return F.lift(x)
        if hasattr(x, "__dv_scalar__"): return x.__dv_scalar__()
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1: return c(x.ravel()[0])
        if isinstance(x, (Arr, CatArr)): raise Unsupported("float() of an array")
        return builtins.float(x)
    def __eq__(c, o): return o is builtins.float or o is c
    def __hash__(c): return hash(builtins.float)
class float_(metaclass=_FloatMeta): pass
class _IntMeta(type):
    def __instancecheck__(c, x):
        return builtins.isinstance(x, (builtins.int, SInt))
    def __call__(c, x=0, *a):
        if isinstance(x, SInt): return x
        if isinstance(x, SBool): return SInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(x, F):
            v = z3.simplify(x.v)
            if x.isfinite_const() and isconst(v): return builtins.int(v.as_fraction())
            return trunc(x)
        return builtins.int(x, *a)
    def __eq__(c, o): return o is builtins.int or o is c
    def __hash__(c): return hash(builtins.int)
class int_(metaclass=_IntMeta): pass
def trunc(x):
    bad = toB(bNot(x.fin()))
    if ctx().feasible(bad) and ctx().decide(bad): raise ValueError("cannot convert float NaN/inf to integer")
    v = z3.simplify(x.v)
    if integral(v): return SInt(v)          # counts stay as they are
    e = z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v))
    return SInt(e)

def integral(e, memo=None):
    """the term is integral by construction: sums and products of integers, axis sizes, counts of indicator rows and rounded values"""
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo: return memo[k]
    if isconst(e): r = e.as_fraction().denominator == 1
    elif z3.is_int(e): r = True
    elif z3.is_app_of(e, z3.Z3_OP_TO_REAL): r = True
    elif e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS): r = all(integral(x, memo) for x in e.children())
    elif z3.is_app_of(e, z3.Z3_OP_POWER): r = integral(e.arg(0), memo) and isconst(e.arg(1)) and e.arg(1).as_fraction() >= 0 and e.arg(1).as_fraction().denominator == 1
    elif z3.is_app_of(e, z3.Z3_OP_ITE): r = integral(e.arg(1), memo) and integral(e.arg(2), memo)
    elif z3.is_const(e):
        nm = e.decl().name(); r = nm.startswith("n_")
        if not r and nm.startswith("S{"):
            A = T.atoms()
            for key, v in ctx().cache.get("sums", {}).items():
                if v is e or v.eq(e): r = all(A[a].ind or a.startswith(("cnt:", "num#", "one:")) for a, ix in key); break
    else: r = False
    memo[k] = r
    return r

def h_ceil(x):
    if isinstance(x, (np.ndarray, list, tuple)): return objmap(h_ceil, asobj(x))
    if isinstance(x, (Arr, CatArr)): raise Unsupported("ceil of an array")
    x = F.lift(x); c = ctx(); c.notes.add("numpy.ceil/floor: the integral value within one unit above/below")
    v = z3.simplify(x.v)
    r = v if integral(v) else ufun("n_ceil", (v,), lambda a, r: [r >= a[0], r < a[0] + 1], lambda a, q, b, r: [z3.Or(q == r, q >= r + 1, r >= q + 1)])
    return F(r, x.nan, x.pi, x.ni, True)
def h_floor(x):
    if isinstance(x, (np.ndarray, list, tuple)): return objmap(h_floor, asobj(x))
    return -h_ceil(-F.lift(x))

def isinstance_(x, c):
    if isinstance(c, tuple): return any(isinstance_(x, q) for q in c)
    if builtins.isinstance(x, F):
        if c in (builtins.float, float_): return True
        if c in (np.floating, np.float64, np.number, np.generic): return x.np
        return c is F or c is object
    if builtins.isinstance(x, SInt):
        import numbers
        return c in (builtins.int, int_, numbers.Integral, numbers.Number, SInt)
    if builtins.isinstance(x, SBool): return c in (builtins.bool, np.bool_, SBool)
    if c is list_: c = builtins.list
    if builtins.isinstance(x, (Arr, CatArr, IndexArr)): return c is np.ndarray or builtins.isinstance(x, c)
    f = getattr(x, "__dv_isinstance__", None)
    if f is not None:
        r = f(c)
        if r is not None: return r
    return builtins.isinstance(x, c)
def len_(x):
    if hasattr(x, "__dvlen__"): return x.__dvlen__()
    return builtins.len(x)
def range_(*a):
    a = [x if not isinstance(x, (SInt, F)) else x.__index__() for x in a]
    return builtins.range(*a)
def max_(*a, **k):
    if k or not issym(a): return builtins.max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    r = xs[0]
    for y in xs[1:]:
        c = y > r
        if isinstance(c, SBool) and isinstance(r, (SInt, int)) and isinstance(y, (SInt, int)):
            r = SInt(z3.simplify(z3.If(c.e, SInt.l(y), SInt.l(r))))
        elif isinstance(c, SBool):
            a_, b_ = F.lift(y), F.lift(r)
            r = F(rIte(c.e, a_.v, b_.v), bIte(c.e, a_.nan, b_.nan), bIte(c.e, a_.pi, b_.pi), bIte(c.e, a_.ni, b_.ni), a_.np or b_.np)
        else: r = y if c else r
    return r
def min_(*a, **k):
    if k or not issym(a): return builtins.min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    r = xs[0]
    for y in xs[1:]:
        c = y < r
        if isinstance(c, SBool) and isinstance(r, (SInt, int)) and isinstance(y, (SInt, int)):
            r = SInt(z3.simplify(z3.If(c.e, SInt.l(y), SInt.l(r))))
        elif isinstance(c, SBool):
            a_, b_ = F.lift(y), F.lift(r)
            r = F(rIte(c.e, a_.v, b_.v), bIte(c.e, a_.nan, b_.nan), bIte(c.e, a_.pi, b_.pi), bIte(c.e, a_.ni, b_.ni), a_.np or b_.np)
        else: r = y if c else r
    return r
def sum_(it, start=0):
    if isinstance(it, (Arr, CatArr)): return it.sumaxis(None)
    r = start
    for v in it: r = r + v
    return r
def abs_(x): return x.__abs__() if hasattr(x, "__abs__") else builtins.abs(x)
def round_(x, n=None):
    if issym(x): raise Unsupported("round")
    return builtins.round(x, n) if n is not None else builtins.round(x)
def bool_(x=False):
    if isinstance(x, SBool): return x
    if isinstance(x, (F, SInt)): return mkbool(toB(boolexpr(x != 0)))
    return builtins.bool(x)
class _BoolMeta(type):
    def __instancecheck__(c, x): return builtins.isinstance(x, (builtins.bool, SBool))
    def __call__(c, x=False): return bool_(x)
    def __eq__(c, o): return o is builtins.bool or o is c
    def __hash__(c): return hash(builtins.bool)
class boolcls_(metaclass=_BoolMeta): pass
def any_(it):
    for v in it:
        if v: return True
    return False
def all_(it):
    for v in it:
        if not v: return False
    return True
def print_(*a, **k): ctx().cache.setdefault("stdout", []).append(" ".join(str(x) for x in a))
def sorted_(it, **k):
    if hasattr(it, "__dv_sorted__"): return it.__dv_sorted__()
    return builtins.sorted(it, **k)

class _ListMeta(type):
    def __instancecheck__(c, x): return builtins.isinstance(x, builtins.list)
    def __call__(c, x=()):
        if builtins.isinstance(x, (Arr, CatArr)): return x       # the sequence of its entries
        return builtins.list(x)
    def __eq__(c, o): return o is builtins.list or o is c
    def __hash__(c): return hash(builtins.list)
class list_(metaclass=_ListMeta): pass

BUILTINS = dict(vars(builtins))
BUILTINS.update(float=float_, int=int_, bool=boolcls_, isinstance=isinstance_, len=len_, range=range_, max=max_, min=min_, sum=sum_, abs=abs_, round=round_, print=print_, sorted=sorted_, list=list_)

# ------------------------------------------------------------------ least squares and label columns
def s_lstsq(X, y, *a, **k):
    """assumed contract of lstsq on a design of full column rank: the solution of the normal equations"""
    ctx().notes.add("scipy/numpy lstsq: on a design of full column rank returns the solution of the normal equations X'Xb = X'y")
    if isinstance(X, Arr):
        if isinstance(X.axes[1], int):
            A = X.T @ X; B = X.T @ y; n = X.axes[1]; c = ctx()
            key = ("lstsq", tuple(z3.simplify(F.lift(v).v, som=True).sexpr() for v in list(asobj(A).ravel()) + list(asobj(B).ravel())))
            tbl = c.cache.setdefault("lstsq", {})
            if key not in tbl:
                xs = np.empty(n, dtype=object)
                for i in range(n): xs[i] = F(z3.Real(c.fresh("beta")))
                for i in range(n):
                    c.axiom(osum([F.lift(A[i, q]) * xs[q] for q in range(n)]).v == F.lift(B[i]).v)
                tbl[key] = xs
            return (tbl[key].copy(), None, n, None)
        return (inverse(X.T @ X) @ (X.T @ y), None, X.shape[1], None)
    X = asobj(X); y = asobj(y)
    return (csolve(X.T @ X, X.T @ y), None, X.shape[1], None)
NPLinalg.s_lstsq = lambda self, X, y, *a, **k: s_lstsq(X, y)
NPLinalg.s_matrix_rank = lambda self, X, *a, **k: X.shape[1]

LIB = {"scipy.linalg.lstsq": s_lstsq}
