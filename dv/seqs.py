"""Sequences of unbounded length as functions of an index (for code that sorts, accumulates and searches).

An entry is an unknown real per index term; facts are instantiated at the indices the execution and the specification touch:
congruence, the order of a sorted sequence, the recurrence of a cumulative sum, and the defining property of the last hit of np.where.
"""
import z3
from .core import *

def _i(x):
    if isinstance(x, SInt): return z3.simplify(x.e)
    if isinstance(x, int): return z3.IntVal(x)
    return z3.simplify(x)

class Seq:
    __dv_sym__ = True; __array_ufunc__ = None; ndim = 1
    def __init__(self, n, at, watch=None): self.n, self._at = n, at
    def at(self, i): return self._at(_i(i))
    def __dvlen__(self): return SInt(self.n)
    @property
    def shape(self): return (SInt(self.n),)
    @property
    def size(self): return SInt(self.n)
    def copy(self): return Seq(self.n, self._at)
    def astype(self, t): return self
    def _op(self, o, f, rev=False):
        if isinstance(o, Seq):
            if not z3.simplify(o.n == self.n).eq(z3.BoolVal(True)): raise Unsupported("sequences of different length")
            g = o._at
        elif F.can(o): g = lambda i: F.lift(o)
        else: return NotImplemented
        return Seq(self.n, (lambda i: f(g(i), self._at(i))) if rev else (lambda i: f(self._at(i), g(i))))
    def __add__(s, o): return s._op(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(s, o): return s._op(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._op(o, lambda a, b: a - b, True)
    def __mul__(s, o): return s._op(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(s, o): return s._op(o, lambda a, b: a / b)
    def __rtruediv__(s, o): return s._op(o, lambda a, b: a / b, True)
    def __neg__(s): return Seq(s.n, lambda i: -s._at(i))
    def __gt__(s, o): return s._op(o, lambda a, b: a > b)
    def __ge__(s, o): return s._op(o, lambda a, b: a >= b)
    def __lt__(s, o): return s._op(o, lambda a, b: a < b)
    def __le__(s, o): return s._op(o, lambda a, b: a <= b)
    def __getitem__(self, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, -1): return self.reversed()
        if isinstance(k, slice): raise Unsupported("slice of a sequence")
        if isinstance(k, int) and k < 0: return self.at(self.n + k)
        return self.at(k)
    def reversed(self): return Seq(self.n, lambda i: self._at(z3.simplify(self.n - 1 - i)))
    def sort_(self): return Sorted(self)
    def __dv_np__(self, name, *a, **k):
        if k: raise Unsupported(f"numpy.{name} keywords on a sequence")
        if name == "sort": return Sorted(a[0])
        if name in ("flip", "flipud"): return a[0].reversed()
        if name in ("asarray", "array", "ascontiguousarray"): return a[0].copy()
        if name == "cumsum": return cumsum(a[0])
        if name in ("maximum", "minimum"):
            from .shims import smax2, smin2
            x, y = a; f = smax2 if name == "maximum" else smin2
            return x._op(y, f) if isinstance(x, Seq) else y._op(x, f, True)
        if name == "clip" and a[2] is None:
            from .shims import smax2
            return a[0]._op(a[1], smax2)
        if name in ("where", "nonzero", "flatnonzero"):
            if len(a) > 1: raise Unsupported("where with values")
            h = Hits(a[0]); return h if name == "flatnonzero" else (h,)
        raise Unsupported(f"numpy.{name} on a sequence")

class Named(Seq):
    """entries are unknown reals"""
    def __init__(self, n, name, pair=None, ax=None):
        self.name = name
        Seq.__init__(self, n, lambda i: F(ufun(name, (i,), ax, pair)))

class Sorted(Named):
    """the entries of v in ascending order"""
    def __init__(self, v):
        c = ctx(); k = v.name if isinstance(v, Named) else None
        if k is None: raise Unsupported("sort of a derived sequence")
        self.v = v; n = v.n
        ins = lambda i: z3.And(i >= 0, i < n)
        c.notes.add("numpy.sort: a permutation of its argument in ascending order")
        Named.__init__(self, n, "sorted_" + k, lambda a, x, b, y: [z3.Implies(z3.And(ins(a[0]), ins(b[0])), z3.And(z3.Implies(a[0] <= b[0], x <= y), z3.Implies(b[0] <= a[0], y <= x)))])
    def reversed(self):
        r = Named.__new__(Named); r.name = "rev_" + self.name; Seq.__init__(r, self.n, lambda i: self._at(z3.simplify(self.n - 1 - i))); return r

def cumsum(v):
    if not isinstance(v, Named): raise Unsupported("cumsum of a derived sequence")
    n = v.n; ctx().notes.add("numpy.cumsum: c[0] = v[0], c[i+1] = c[i] + v[i+1]")
    def pair(a, x, b, y):
        i, j = a[0], b[0]
        return [z3.Implies(z3.And(i >= 0, j == i + 1), y == x + v._at(j).v), z3.Implies(z3.And(j >= 0, i == j + 1), x == y + v._at(i).v)]
    return Named(n, "cum_" + v.name, pair, lambda a, r: [z3.Implies(a[0] == 0, r == v._at(a[0]).v)])

def arange(*a):
    n = ctx().cache["seq_size"]; one = z3.IntVal(1)
    lo, hi = (z3.IntVal(0), _i(a[0])) if len(a) == 1 else (_i(a[0]), _i(a[1])) if len(a) == 2 else (None, None)
    if lo is None or not z3.simplify(hi - lo - n).eq(z3.IntVal(0)): return None
    return Seq(n, lambda i: SInt(z3.simplify(lo + i)))

class Hits:
    """the indices at which a condition holds, ascending"""
    __dv_sym__ = True
    def __init__(self, cond):
        c = ctx(); self.c = cond; self.k = z3.Int(c.fresh("hits")); self.last = z3.Int(c.fresh("last")); self.seen = set()
        c.axiom(self.k >= 0); c.axiom(self.k <= cond.n)
        c.axiom(z3.Implies(self.k > 0, z3.And(self.last >= 0, self.last < cond.n, toB(boolexpr(cond.at(self.last))))))
        c.notes.add("numpy.where(cond)[0]: the ascending indices at which cond holds")
        for t in [z3.IntVal(0), self.last + 1]: self.touch(t)
        c.cache.setdefault("hits", []).append(self)
        for h in c.cache["hits"]:
            if h is not self: h.touch(self.last); self.touch(h.last)
    def touch(self, i):
        i = z3.simplify(i)
        if i.get_id() in self.seen: return
        self.seen.add(i.get_id())
        t = toB(boolexpr(self.c.at(i)))
        ctx().axiom(z3.Implies(z3.And(i >= 0, i < self.c.n, z3.Or(self.k == 0, i > self.last)), z3.Not(t)))
    def __dvlen__(self): return SInt(self.k)
    @property
    def size(self): return SInt(self.k)
    @property
    def shape(self): return (SInt(self.k),)
    def __getitem__(self, j):
        if isinstance(j, int) and j == -1:
            if ctx().feasible(self.k == 0) and ctx().decide(self.k == 0): raise IndexError("index -1 is out of bounds")
            return SInt(self.last)
        raise Unsupported("entry of an index list")
    def max(self): return self[-1]
