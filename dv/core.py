r"""Symbolic scalars, path exploration and proof obligations.

The code under verification is executed by CPython itself, with symbolic operands.  Scalars are
*extended reals*: a mathematical real plus NaN/+inf/-inf flags, so that the propagation of
undefined values is part of what is proved, while rounding is not (stated assumption).
Every branch on a symbolic condition is explored (depth-first re-execution); every obligation is
the validity of  path-condition /\ axiom-instances => goal,  discharged by z3, then cvc5.
"""
import itertools, time, math, subprocess, os, tempfile
import z3

class Unsupported(Exception):
    """The construct is outside the verifier's subset (never a verdict about the code)."""
class Infeasible(BaseException):
    """The current path is infeasible (an assumption failed)."""
class PathLimit(Exception):
    pass

Real, Int, Bool = z3.Real, z3.Int, z3.Bool
Z0, Z1 = z3.RealVal(0), z3.RealVal(1)

# ---------------------------------------------------------------- boolean helpers (constants folded)
def bAnd(*xs):
    out = []
    for x in xs:
        if x is False or (not isinstance(x, bool) and z3.is_false(x)): return False
        if x is True or (not isinstance(x, bool) and z3.is_true(x)): continue
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def bOr(*xs):
    out = []
    for x in xs:
        if x is True or (not isinstance(x, bool) and z3.is_true(x)): return True
        if x is False or (not isinstance(x, bool) and z3.is_false(x)): continue
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def bNot(x):
    if isinstance(x, bool): return not x
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    return z3.Not(x)
def toB(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def rIte(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a.eq(b): return a
    return z3.If(c, a, b)
def bIte(c, a, b):
    if isinstance(c, bool): return a if c else b
    return bOr(bAnd(c, a), bAnd(bNot(c), b))
def isconst(r): return z3.is_rational_value(r)

# ---------------------------------------------------------------- context
class Ctx:
    cur = None
    def __init__(self, prefix=(), limits=None):
        self.prefix = list(prefix); self.taken = []; self.pending = []
        self.pc = []            # path condition and assumptions (z3 Bools)
        self.ax = []            # axiom instances
        self.fn = {}            # Ackermann tables
        self.obls = []          # (name, goal z3, meta)
        self.names = {}
        self.notes = set()      # trusted contracts actually used
        self.vars = {}          # declared inputs, name -> F/SInt/...
        self.solver_time = 0.0
        self.covers = []
        self.limits = limits or {}
        self.cache = {}
        self.checkpoint_ms = 2000
        self.vc = None
    def fresh(self, base):
        n = self.names.get(base, 0); self.names[base] = n + 1
        return base if n == 0 else f"{base}!{n}"
    def axiom(self, e):
        if isinstance(e, bool):
            if not e: self.ax.append(z3.BoolVal(False))
            return
        self.ax.append(e)
    def assume(self, c):
        c = boolexpr(c)
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        self.pc.append(c)
    def feasible(self, extra, ms=None):
        s = z3.Solver(); s.set("timeout", ms or self.checkpoint_ms)
        s.add(*self.pc); s.add(*self.ax); s.add(extra)
        t = time.time(); r = s.check(); self.solver_time += time.time() - t
        return r != z3.unsat
    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            ft = self.feasible(cond); ff = self.feasible(z3.Not(cond))
            if not ft and not ff: raise Infeasible()
            if ft and ff:
                v = True; self.pending.append(self.taken + [False])
            else:
                v = ft
        self.taken.append(v)
        self.pc.append(cond if v else z3.Not(cond))
        return v
    def choose(self, n):
        """non-deterministic choice among n alternatives (all are explored)."""
        for k in range(n - 1):
            i = len(self.taken)
            if i < len(self.prefix): v = self.prefix[i]
            else:
                v = True; self.pending.append(self.taken + [False])
            self.taken.append(v)
            if v: return k
        return n - 1

def ctx():
    if Ctx.cur is None: raise Unsupported("no symbolic context")
    return Ctx.cur

def boolexpr(c):
    if isinstance(c, SBool): return c.e
    if isinstance(c, (bool,)): return c
    if z3.is_expr(c): return c
    try:
        import numpy as _np
        if isinstance(c, _np.bool_): return bool(c)
    except ImportError: pass
    raise Unsupported(f"not a boolean: {type(c)}")

# ---------------------------------------------------------------- symbolic booleans
class SBool:
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __bool__(self):
        if isinstance(self.e, bool): return self.e
        return ctx().decide(self.e)
    def __and__(self, o): return SBool(bAnd(self.e, boolexpr(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(bOr(self.e, boolexpr(o)))
    __ror__ = __or__
    def __invert__(self): return SBool(bNot(self.e))
    def __xor__(self, o):
        b = boolexpr(o); return SBool(bOr(bAnd(self.e, bNot(b)), bAnd(bNot(self.e), b)))
    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            b = boolexpr(o); return SBool(bOr(bAnd(self.e, b), bAnd(bNot(self.e), bNot(b))))
        return F.lift(self) == o
    def __ne__(self, o): return ~(self == o)
    def __hash__(self): return id(self)
    def all(self): return self
    def any(self): return self
    def item(self): return self
    def __mul__(self, o): return F.lift(self) * o
    __rmul__ = __mul__
    def __add__(self, o): return F.lift(self) + o
    __radd__ = __add__
    def __sub__(self, o): return F.lift(self) - o
    def __rsub__(self, o): return o - F.lift(self)
    def astype(self, t): return self if t in (bool,) else F.lift(self)

def mkbool(e):
    if isinstance(e, bool): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SBool(e)

# ---------------------------------------------------------------- extended reals
def isnd(o):
    import numpy as _np
    return isinstance(o, _np.ndarray) and o.ndim > 0
def ndmap(f, o):
    import numpy as _np
    out = _np.empty(o.shape, dtype=object)
    for ix in _np.ndindex(o.shape): out[ix] = f(o[ix])
    return out

class F:
    __slots__ = ("v", "nan", "pi", "ni", "np")
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, v, nan=False, pi=False, ni=False, np=True):
        self.v = v; self.nan = nan; self.pi = pi; self.ni = ni; self.np = np
    @staticmethod
    def lift(x):
        if isinstance(x, F): return x
        if isinstance(x, SBool):
            e = x.e
            return F(rIte(e, Z1, Z0), np=False)
        if isinstance(x, SInt): return F(z3.simplify(z3.ToReal(x.e)) if z3.is_int(x.e) else x.e, np=x.np)
        if isinstance(x, bool): return F(z3.RealVal(int(x)), np=False)
        if isinstance(x, int): return F(z3.RealVal(x), np=False)
        import numpy as _np
        if isinstance(x, (float, _np.floating)):
            isnp = isinstance(x, _np.floating)
            x = float(x)
            if math.isnan(x): return F(Z0, nan=True, np=isnp)
            if math.isinf(x): return F(Z0, pi=x > 0, ni=x < 0, np=isnp)
            return F(fracval(x), np=isnp)
        if isinstance(x, (_np.integer, _np.bool_)): return F(z3.RealVal(int(x)), np=True)
        if z3.is_expr(x) and z3.is_arith(x): return F(z3.ToReal(x) if z3.is_int(x) else x)
        if hasattr(x, "__dv_scalar__"): return x.__dv_scalar__()
        if isinstance(x, _np.ndarray) and x.ndim == 0: return F.lift(x.item())
        raise Unsupported(f"cannot lift {type(x)} to a symbolic real")
    @staticmethod
    def can(x):
        import numpy as _np
        return isinstance(x, (F, SBool, SInt, bool, int, float, _np.floating, _np.integer, _np.bool_)) or (isinstance(x, _np.ndarray) and x.ndim == 0)
    # ---- classification
    def inf(self): return bOr(self.pi, self.ni)
    def fin(self): return bNot(bOr(self.nan, self.pi, self.ni))
    def isfinite_const(self): return self.nan is False and self.pi is False and self.ni is False
    # ---- arithmetic
    def _num(self, o):
        return F.can(o) or hasattr(o, "__dv_scalar__")
    def __neg__(self): return F(z3.simplify(-self.v), self.nan, self.ni, self.pi, self.np)
    def __pos__(self): return self
    def __abs__(self):
        return F(absz(self.v), self.nan, bOr(self.pi, self.ni), False, self.np)
    def __add__(self, o):
        if isnd(o): return ndmap(lambda x: self + x, o)
        if not self._num(o): return NotImplemented
        o = F.lift(o)
        nan = bOr(self.nan, o.nan, bAnd(self.pi, o.ni), bAnd(self.ni, o.pi))
        return F(self.v + o.v if not (isz(self.v) or isz(o.v)) else (o.v if isz(self.v) else self.v), nan,
                 bAnd(bOr(self.pi, o.pi), bNot(nan)), bAnd(bOr(self.ni, o.ni), bNot(nan)), self.np or o.np)
    __radd__ = __add__
    def __sub__(self, o):
        if isnd(o): return ndmap(lambda x: self - x, o)
        if not self._num(o): return NotImplemented
        return self + (-F.lift(o))
    def __rsub__(self, o):
        if isnd(o): return ndmap(lambda x: x - self, o)
        if not self._num(o): return NotImplemented
        return F.lift(o) + (-self)
    def __mul__(self, o):
        if isnd(o): return ndmap(lambda x: self * x, o)
        if not self._num(o): return NotImplemented
        o = F.lift(o)
        if self.isfinite_const() and o.isfinite_const():
            return F(mulz(self.v, o.v), np=self.np or o.np)
        ai, bi = self.inf(), o.inf()
        nan = bOr(self.nan, o.nan, bAnd(ai, bNot(bi), o.v == 0), bAnd(bi, bNot(ai), self.v == 0))
        anyinf = bAnd(bOr(ai, bi), bNot(nan))
        pos = sgnpos(self), sgnpos(o)
        same = bOr(bAnd(pos[0], pos[1]), bAnd(bNot(pos[0]), bNot(pos[1])))
        return F(mulz(self.v, o.v), nan, bAnd(anyinf, same), bAnd(anyinf, bNot(same)), self.np or o.np)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isnd(o): return ndmap(lambda x: self / x, o)
        if not self._num(o): return NotImplemented
        return fdiv(self, F.lift(o))
    def __rtruediv__(self, o):
        if isnd(o): return ndmap(lambda x: x / self, o)
        if not self._num(o): return NotImplemented
        return fdiv(F.lift(o), self)
    def __floordiv__(self, o): raise Unsupported("floor division of symbolic reals")
    def __mod__(self, o): raise Unsupported("mod of symbolic reals")
    def __pow__(self, o):
        if isinstance(o, F) and isconst(z3.simplify(o.v)) and o.isfinite_const():
            fr = z3.simplify(o.v).as_fraction(); o = int(fr) if fr.denominator == 1 else float(fr)
        if isinstance(o, float) and o == int(o): o = int(o)
        if isinstance(o, int):
            if o == 0: return F(Z1, np=self.np)
            r = self
            for _ in range(abs(o) - 1): r = r * self
            return r if o > 0 else fdiv(F(Z1, np=self.np), r)
        if o == 0.5: return fsqrt(self)
        raise Unsupported("power with symbolic exponent")
    def __rpow__(self, o): raise Unsupported("power with symbolic exponent")
    # ---- comparisons (IEEE: anything with NaN is False)
    def _cmp(self, o, f, eqv):
        if not self._num(o): return NotImplemented
        o = F.lift(o)
        ok = bNot(bOr(self.nan, o.nan))
        if self.isfinite_const() and o.isfinite_const(): return mkbool(f(self.v, o.v))
        finres = bAnd(self.fin(), o.fin(), f(self.v, o.v))
        # order of infinities
        if eqv == "lt":
            infres = bOr(bAnd(self.ni, bNot(o.ni)), bAnd(o.pi, bNot(self.pi)))
        elif eqv == "le":
            infres = bOr(self.ni, o.pi)
        else:
            infres = bOr(bAnd(self.pi, o.pi), bAnd(self.ni, o.ni))
        return mkbool(toB(bAnd(ok, bOr(finres, infres))))
    def __lt__(self, o):
        if isnd(o): return ndmap(lambda x: self < x, o)
        return self._cmp(o, lambda a, b: a < b, "lt")
    def __le__(self, o):
        if isnd(o): return ndmap(lambda x: self <= x, o)
        return self._cmp(o, lambda a, b: a <= b, "le")
    def __gt__(self, o):
        if isnd(o): return ndmap(lambda x: self > x, o)
        if not self._num(o): return NotImplemented
        return F.lift(o).__lt__(self)
    def __ge__(self, o):
        if isnd(o): return ndmap(lambda x: self >= x, o)
        if not self._num(o): return NotImplemented
        return F.lift(o).__le__(self)
    def __eq__(self, o):
        if not self._num(o): return False
        return self._cmp(o, lambda a, b: a == b, "eq")
    def __ne__(self, o):
        if not self._num(o): return True
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    def __hash__(self): return hash(self.v)
    def __bool__(self):
        return bool(self != 0)
    # ---- numpy scalar protocol
    @property
    def real(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self):
        import numpy as _np
        return FDTYPE
    def item(self): return F(self.v, self.nan, self.pi, self.ni, False)
    def copy(self): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def all(self): return mkbool(toB(boolexpr(self != 0)))
    any = all
    def astype(self, t): return self
    def sqrt(self): return fsqrt(self)
    def conjugate(self): return self
    def is_integer(self): raise Unsupported("is_integer")
    def __float__(self):
        v = z3.simplify(self.v)
        if self.isfinite_const() and isconst(v): return float(v.as_fraction())
        raise Unsupported("concrete float() of a symbolic real")
    def __int__(self):
        v = z3.simplify(self.v)
        if self.isfinite_const() and isconst(v): return int(v.as_fraction())
        raise Unsupported("concrete int() of a symbolic real")
    def __round__(self, n=None): raise Unsupported("round of a symbolic real")
    def __format__(self, spec): return token(self, spec)
    def __str__(self): return token(self, "")
    def __repr__(self): return f"F({self.v}{', nan='+str(self.nan) if self.nan is not False else ''})"

def token(x, spec):
    """A printed symbolic value becomes a unique token, so text output can be related to values."""
    c = ctx(); tbl = c.cache.setdefault("tokens", [])
    tbl.append((x, spec))
    return f"\u27e6{len(tbl)-1}:{spec}\u27e7"

def fracval(x):
    from fractions import Fraction
    # Python literals such as 0.05 denote the decimal number under the real-arithmetic reading
    fr = Fraction(repr(x)) if abs(x) < 1e300 else Fraction(x)
    if fr.denominator > 10**12:          # a rounded quotient of small integers (1/3) denotes that quotient
        q = fr.limit_denominator(5000)
        if q and q.numerator / q.denominator == x: fr = q
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}") if fr.denominator != 1 else z3.RealVal(fr.numerator)
def isz(v): return isconst(v) and v.as_fraction() == 0
def isone(v): return isconst(v) and v.as_fraction() == 1
def mulz(a, b):
    if isz(a) or isz(b): return Z0
    if isone(a): return b
    if isone(b): return a
    return a * b
def absz(v):
    if isconst(v): return z3.RealVal(str(abs(v.as_fraction())))
    v = z3.simplify(v)
    return z3.If(v >= 0, v, -v)
def sgnpos(a): return bOr(a.pi, bAnd(bNot(a.ni), a.v > 0))
def fdiv(a, b):
    usenp = a.np or b.np
    bz = bAnd(b.fin(), b.v == 0) if not (isconst(b.v) and b.v.as_fraction() != 0) else False
    if not isinstance(bz, bool):
        bz = z3.simplify(bz)
        if z3.is_false(bz): bz = False
        elif z3.is_true(bz): bz = True
    if not usenp and bz is not False:
        if bz is True or ctx().decide(toB(bz)): raise ZeroDivisionError("float division by zero")
        bz = False
    if bz is not False and bz is not True:
        # avoid carrying flags when the divisor is provably nonzero
        if not ctx().feasible(toB(bz), 500): bz = False
    v = a.v / b.v if not isz(a.v) else Z0
    if isone(b.v): v = a.v
    elif bz is False and not isconst(a.v) and (a.v.eq(b.v) or isz(z3.simplify(a.v - b.v, som=True))): v = z3.RealVal(1)
    if a.isfinite_const() and b.isfinite_const() and bz is False: return F(v, np=usenp)
    ai, bi = a.inf(), b.inf()
    nan = bOr(a.nan, b.nan, bAnd(ai, bi), bAnd(bz, a.v == 0, bNot(ai)))
    res_inf = bAnd(bNot(nan), bOr(bAnd(ai, bNot(bi)), bz))
    pa = bOr(a.pi, bAnd(bNot(a.ni), a.v > 0)); pb = bOr(b.pi, bAnd(bNot(b.ni), b.v >= 0))
    same = bOr(bAnd(pa, pb), bAnd(bNot(pa), bNot(pb)))
    vv = rIte(toB(bi) if not isinstance(bi, bool) else bi, Z0, v) if bi is not False else v
    return F(vv, nan, bAnd(res_inf, same), bAnd(res_inf, bNot(same)), usenp)

# ---------------------------------------------------------------- symbolic integers
class _FDtype:
    """the dtype of a symbolic real: looks like float64, constructs symbolic reals"""
    kind, name, char, itemsize, str = "f", "float64", "d", 8, "<f8"
    @staticmethod
    def type(x): return F.lift(x)
    def __eq__(self, o):
        import numpy as _np
        return isinstance(o, _FDtype) or o == _np.dtype(float)
    def __hash__(self): return hash("float64")
    def __repr__(self): return "dtype('float64')"
FDTYPE = _FDtype()
class SInt:
    __slots__ = ("e", "np")
    __array_ufunc__ = None
    def __init__(self, e, np=False): self.e = e; self.np = np
    @staticmethod
    def ok(o):
        import numpy as _np
        return isinstance(o, (SInt, int, bool, _np.integer))
    @staticmethod
    def l(o): return o.e if isinstance(o, SInt) else z3.IntVal(int(o))
    def _b(self, o, f):
        if SInt.ok(o):
            r = z3.simplify(f(self.e, SInt.l(o)))
            return SInt(r)
        return None
    def __add__(self, o):
        r = self._b(o, lambda a, b: a + b); return r if r is not None else F.lift(self) + o
    __radd__ = __add__
    def __sub__(self, o):
        r = self._b(o, lambda a, b: a - b); return r if r is not None else F.lift(self) - o
    def __rsub__(self, o):
        r = self._b(o, lambda a, b: b - a); return r if r is not None else F.lift(o) - F.lift(self)
    def __mul__(self, o):
        r = self._b(o, lambda a, b: a * b); return r if r is not None else F.lift(self) * o
    __rmul__ = __mul__
    def __neg__(self): return SInt(-self.e)
    def __abs__(self): return SInt(z3.If(self.e >= 0, self.e, -self.e))
    def __truediv__(self, o):
        if isnd(o): return F.lift(self) / o
        if not F.can(o): return NotImplemented
        return F.lift(self) / o
    def __rtruediv__(self, o):
        if isnd(o): return o / F.lift(self)
        if not F.can(o): return NotImplemented
        return F.lift(o) / F.lift(self)
    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and z3.is_int(self.e): return SInt(self.e / z3.IntVal(o))
        raise Unsupported("integer floor division")
    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and z3.is_int(self.e): return SInt(self.e % z3.IntVal(o))
        raise Unsupported("integer mod")
    def __pow__(self, o): return F.lift(self) ** o
    def __lt__(self, o): return mkbool(self.e < SInt.l(o)) if SInt.ok(o) else F.lift(self) < o
    def __le__(self, o): return mkbool(self.e <= SInt.l(o)) if SInt.ok(o) else F.lift(self) <= o
    def __gt__(self, o): return mkbool(self.e > SInt.l(o)) if SInt.ok(o) else F.lift(self) > o
    def __ge__(self, o): return mkbool(self.e >= SInt.l(o)) if SInt.ok(o) else F.lift(self) >= o
    def __eq__(self, o):
        if SInt.ok(o): return mkbool(self.e == SInt.l(o))
        return (F.lift(self) == o) if F.can(o) else False
    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r
    def __hash__(self): return hash(self.e)
    def __bool__(self): return bool(self != 0)
    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v) and v.denominator_as_long() == 1: return v.numerator_as_long()
        # a unique value may be forced by the path condition
        return force_int(self)
    __int__ = __index__
    def __float__(self): return float(self.__index__())
    def item(self): return self
    def astype(self, t): return self
    def __format__(self, spec): return token(self, spec)
    def __str__(self): return token(self, "")
    def __repr__(self): return f"SInt({self.e})"

def force_int(s):
    c = ctx()
    sol = z3.Solver(); sol.set("timeout", 2000); sol.add(*c.pc); sol.add(*c.ax)
    if sol.check() == z3.sat:
        v = sol.model().eval(s.e, model_completion=True)
        sol.add(s.e != v)
        if sol.check() == z3.unsat: return int(v.as_fraction()) if z3.is_rational_value(v) else v.as_long()
    raise Unsupported(f"symbolic integer used where a concrete one is needed: {s.e}")

def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e) and e.denominator_as_long() == 1: return e.numerator_as_long()
    return SInt(e)

# ---------------------------------------------------------------- uninterpreted functions (Ackermannised)
def ufun(name, args, axioms=None, pair=None):
    """Application of an unknown function to real terms: a fresh constant per distinct argument tuple,
    with congruence, per-instance and pairwise axioms instantiated on the spot."""
    c = ctx(); tbl = c.fn.setdefault(name, [])
    args = tuple(z3.simplify(a) for a in args)
    for a, r in tbl:
        if all(x.eq(y) for x, y in zip(a, args)): return r
    r = z3.Real(c.fresh(f"{name}"))
    if axioms: 
        for e in axioms(args, r): c.axiom(e)
    for a, q in tbl:
        c.axiom(z3.Implies(z3.And(*[x == y for x, y in zip(a, args)]) if args else z3.BoolVal(True), q == r))
        if pair:
            for e in pair(a, q, args, r): c.axiom(e)
    tbl.append((args, r))
    return r

def nonneg(e, depth=0):
    """syntactically a sum, product or quotient of non-negative terms"""
    if depth > 40 or not z3.is_expr(e): return False
    if isconst(e): return e.as_fraction() >= 0
    if z3.is_app_of(e, z3.Z3_OP_ADD): return all(nonneg(x, depth + 1) for x in e.children())
    if z3.is_app_of(e, z3.Z3_OP_MUL):
        cnt = {}
        flat = []
        def fl(x):
            if z3.is_app_of(x, z3.Z3_OP_MUL):
                for y in x.children(): fl(y)
            else: flat.append(x)
        fl(e); sg = 1
        for x in flat:
            if isconst(x): sg = sg * (1 if x.as_fraction() >= 0 else -1)
            else: cnt.setdefault(x.get_id(), [x, 0])[1] += 1
        return sg > 0 and all(k % 2 == 0 or nonneg(x, depth + 1) for x, k in cnt.values())
    if z3.is_app_of(e, z3.Z3_OP_POWER):
        k = e.arg(1)
        return (isconst(k) and k.as_fraction().denominator == 1 and k.as_fraction().numerator % 2 == 0) or nonneg(e.arg(0), depth + 1)
    if z3.is_app_of(e, z3.Z3_OP_DIV): return nonneg(e.arg(0), depth + 1) and nonneg(e.arg(1), depth + 1)
    if z3.is_app_of(e, z3.Z3_OP_ITE): return nonneg(e.arg(1), depth + 1) and nonneg(e.arg(2), depth + 1)
    if z3.is_const(e) and e.decl().arity() == 0:
        nm = e.decl().name(); return e.get_id() in ctx().cache.get("nonneg_ids", ()) or nm.startswith(("devsq", "sqrt", "n_"))
    return False
def sqrtz(v, known=False):
    known = known or nonneg(v); v = z3.simplify(v)
    if isconst(v):
        fr = v.as_fraction()
        if fr >= 0:
            a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
            if a * a == fr.numerator and b * b == fr.denominator: return z3.RealVal(f"{a}/{b}")
    known = known or nonneg(v)
    def ax(a, r):
        if known: ctx().cache.setdefault("sq", []).append((r, a[0])); return [r >= 0, r * r == a[0], z3.Implies(a[0] > 0, r > 0)]
        return [z3.Implies(a[0] >= 0, z3.And(r >= 0, r * r == a[0])), z3.Implies(a[0] > 0, r > 0)]
    return ufun("sqrt", (v,), ax,
                lambda a, q, b, r: [z3.Implies(z3.And(a[0] >= 0, b[0] >= 0), (a[0] <= b[0]) == (q <= r))])
def fsqrt(x):
    x = F.lift(x)
    neg = bAnd(x.fin(), x.v < 0) if not nonneg(x.v) else False
    if not isinstance(neg, bool):
        neg = z3.simplify(neg)
        if z3.is_false(neg) or not ctx().feasible(neg, 500): neg = False
        elif z3.is_true(neg): neg = True
        elif nonneg_ask(ctx(), x.v, 300, {}): neg = False
    fin = x.fin(); fin = fin if isinstance(fin, bool) else z3.is_true(z3.simplify(fin))
    return F(sqrtz(x.v, known=neg is False and fin), bOr(x.nan, x.ni, neg), x.pi, False, True)
def expz(v):
    return ufun("exp", (v,), lambda a, r: [r > 0, z3.Implies(a[0] == 0, r == 1), z3.Implies(a[0] > 0, r > 1), z3.Implies(a[0] < 0, r < 1), r >= 1 + a[0]],
                lambda a, q, b, r: [(a[0] < b[0]) == (q < r), z3.Implies(a[0] == -b[0], q * r == 1)])
def fexp(x):
    x = F.lift(x)
    return F(rIte(x.ni, Z0, expz(x.v)) if x.ni is not False else expz(x.v), x.nan, x.pi, False, True)
def logz(v):
    return ufun("log", (v,), lambda a, r: [z3.Implies(a[0] == 1, r == 0), z3.Implies(a[0] > 1, r > 0), z3.Implies(z3.And(a[0] < 1, a[0] > 0), r < 0)],
                lambda a, q, b, r: [z3.Implies(z3.And(a[0] > 0, b[0] > 0), (a[0] < b[0]) == (q < r))])
def flog(x):
    x = F.lift(x)
    return F(logz(x.v), bOr(x.nan, x.ni, bAnd(x.fin(), x.v < 0)), x.pi, bAnd(x.fin(), x.v == 0), True)

# ---------------------------------------------------------------- distributions (assumed scipy contracts)
def cdfz(fam, x, pars):
    """strictly increasing, values in (0,1); symmetric families: F(-x) = 1 - F(x)."""
    sym = fam in ("norm", "t")
    def ax(a, r):
        out = []
        if fam in ("norm", "t"):
            out += [r > 0, r < 1, z3.Implies(a[0] == 0, r == z3.Q(1, 2)), z3.Implies(a[0] > 0, r > z3.Q(1, 2)), z3.Implies(a[0] < 0, r < z3.Q(1, 2))]
        else:
            out += [r >= 0, r < 1, z3.Implies(a[0] <= 0, r == 0), z3.Implies(a[0] > 0, r > 0)]
        return out
    def pair(a, q, b, r):
        same = z3.And(*[u == w for u, w in zip(a[1:], b[1:])]) if len(a) > 1 else z3.BoolVal(True)
        out = []
        if sym:
            out += [z3.Implies(same, (a[0] < b[0]) == (q < r)), z3.Implies(z3.And(same, a[0] == -b[0]), q + r == 1)]
        else:
            out += [z3.Implies(z3.And(same, a[0] >= 0, b[0] >= 0), (a[0] < b[0]) == (q < r))]
        return out
    ctx().notes.add(f"scipy.stats.{fam}: cdf strictly increasing into (0,1), sf = 1 - cdf" + (", symmetric" if sym else ""))
    return ufun("cdf_" + fam, (x,) + tuple(pars), ax, pair)
def fcdf(fam, x, pars, upper=False):
    x = F.lift(x); pars = [F.lift(p) for p in pars]
    bad = bOr(*[bOr(bNot(p.fin()), p.v < 0 if fam == "ncx2" and i == 1 else p.v <= 0) for i, p in enumerate(pars)]) if pars else False
    if not isinstance(bad, bool):
        bad = z3.simplify(bad)
        if z3.is_true(bad): bad = True
        elif z3.is_false(bad) or not ctx().feasible(bad, 500): bad = False
    r = cdfz(fam, z3.simplify(x.v), [p.v for p in pars])
    if fam == "ncx2": ctx().axiom(z3.Implies(pars[1].v == 0, r == cdfz("chi2", z3.simplify(x.v), [pars[0].v])))
    if upper: r = 1 - r
    lo, hi = (Z1, Z0) if upper else (Z0, Z1)
    v = r
    if x.pi is not False: v = rIte(x.pi, hi, v)
    if x.ni is not False: v = rIte(x.ni, lo, v)
    return F(v, bOr(x.nan, bad), np=True)
def fppf(fam, q, pars, upper=False):
    """quantile: defined on (0,1) as the inverse of the cdf; 0 and 1 give the ends of the support."""
    q = F.lift(q); pars = [F.lift(p) for p in pars]
    p = (1 - q.v) if upper else q.v
    p = z3.simplify(p)
    bad = bOr(*[bOr(bNot(x.fin()), x.v <= 0) for x in pars]) if pars else False
    nan = bOr(q.nan, q.pi, q.ni, p < 0, p > 1, bad)
    if not isinstance(nan, bool):
        nan = z3.simplify(nan)
        if z3.is_true(nan): nan = True
        elif z3.is_false(nan) or not ctx().feasible(nan, 500): nan = False
    sym = fam in ("norm", "t")
    def ax(a, r):
        inside = z3.And(a[0] > 0, a[0] < 1)
        out = []
        if sym:
            out += [z3.Implies(z3.And(inside, a[0] > z3.Q(1, 2)), r > 0), z3.Implies(z3.And(inside, a[0] < z3.Q(1, 2)), r < 0), z3.Implies(a[0] == z3.Q(1, 2), r == 0)]
        else:
            out += [z3.Implies(inside, r > 0)]
        return out
    def pair(a, x, b, y):
        same = z3.And(*[u == w for u, w in zip(a[1:], b[1:])]) if len(a) > 1 else z3.BoolVal(True)
        ins = z3.And(same, a[0] > 0, a[0] < 1, b[0] > 0, b[0] < 1)
        out = [z3.Implies(ins, (a[0] < b[0]) == (x < y))]
        if sym: out += [z3.Implies(z3.And(ins, a[0] + b[0] == 1), x + y == 0)]
        return out
    ctx().notes.add(f"scipy.stats.{fam}: ppf is the inverse of cdf on (0,1)")
    r = ufun("ppf_" + fam, (p,) + tuple(x.v for x in pars), ax, pair)
    # tie to the cdf:  cdf(ppf(p)) = p
    cr = cdfz(fam, r, [x.v for x in pars])
    ctx().axiom(z3.Implies(z3.And(p > 0, p < 1), cr == p))
    one, zero = bAnd(p == 1), bAnd(p == 0)
    one = z3.simplify(one) if not isinstance(one, bool) else one
    zero = z3.simplify(zero) if not isinstance(zero, bool) else zero
    pi = bAnd(one, bNot(nan)); ni = bAnd(zero, bNot(nan))
    def prune(e):
        if isinstance(e, bool): return e
        e = z3.simplify(e)
        if z3.is_false(e) or not ctx().feasible(e, 500): return False
        return e
    pi, ni = prune(pi), prune(ni)
    if not sym and ni is not False:
        r = rIte(ni, Z0, r); ni = False
    return F(r, nan, pi, ni, True)

# ---------------------------------------------------------------- obligations
class Obl:
    def __init__(self, name, status, backend="", t=0.0, detail="", path=0):
        self.name, self.status, self.backend, self.t, self.detail, self.path = name, status, backend, t, detail, path

def cvc5_check(smt2, ms):
    try:
        import cvc5
    except ImportError:
        return "unknown"
    try:
        tm = cvc5.TermManager(); slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(ms)); slv.setOption("nl-ext-tplanes", "true")
        slv.setLogic("ALL")
        prs = cvc5.InputParser(slv); prs.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, "q")
        sm = prs.getSymbolManager(); res = None
        while True:
            cmd = prs.nextCommand()
            if cmd.isNull(): break
            o = cmd.invoke(slv, sm)
            if "unsat" in o: return "unsat"
            if o.strip() == "sat": return "sat"
        return "unknown"
    except Exception as e:                               # back-end trouble is never a verdict
        return "unknown"

def relevant(pc, ax, goal):
    return pc + ax

def _coefs(d):
    """absolute numeric coefficients of a sum of monomials, or None"""
    out = []
    for t in (d.children() if z3.is_add(d) else [d]):
        if isconst(t): out.append(abs(t.as_fraction())); continue
        if z3.is_mul(t):
            k = 1; rest = []
            for f in t.children():
                if isconst(f): k *= f.as_fraction()
                else: rest.append(f)
            if any(z3.is_add(f) for f in rest): return None
            out.append(abs(k))
        else: out.append(1)
    return out
def rounding_only(goal, d):
    """the two sides of an equality differ only by coefficients of the size of float rounding of numeric constants of the code"""
    cd = _coefs(d)
    if cd is None or max(cd, default=1) > 1e-11: return False
    sc = 0
    for x in (goal.arg(0), goal.arg(1)):
        cx = _coefs(z3.simplify(x, som=True)); sc = max([sc] + cx) if cx else sc
    return bool(sc) and max(cd) <= 1e-13 * sc

class _Rat:
    """rational-function normal form of a real term: polynomial numerator over a product of polynomial factors; subterms
    that are not +, -, *, / or small powers are atoms.  Records the divisors: the reading is right where they are non-zero."""
    LIMIT = 20000
    def __init__(self): self.memo = {}; self.atoms = {}; self.divisors = {}; self.factors = {}
    @staticmethod
    def padd(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def pmul(self, a, b):
        r = {}
        if len(a) * len(b) > self.LIMIT: raise OverflowError
        for m, c in a.items():
            for q, d in b.items():
                k = dict(m)
                for x, e in q: k[x] = k.get(x, 0) + e
                k = tuple(sorted(k.items())); v = r.get(k, 0) + c * d
                if v: r[k] = v
                else: r.pop(k, None)
        return r
    # a value is a sum of quotients: {denominator (frozenset of (factor, power)): numerator polynomial}
    def split(self, p):
        """polynomial -> (leading coefficient, {atom: power}, primitive monic rest as a factor key or None)"""
        ms = [dict(m) for m in p]; com = dict(ms[0])
        for m in ms[1:]: com = {x: min(e, m[x]) for x, e in com.items() if x in m}
        rest = {tuple(sorted((x, e - com.get(x, 0)) for x, e in m if e > com.get(x, 0))): c for m, c in p.items()}
        items = sorted(rest.items()); lc = items[0][1]
        if len(items) == 1: return lc, com, None
        key = tuple((m, c / lc) for m, c in items)
        if key not in self.factors: self.factors[key] = {m: c for m, c in key}
        return lc, com, key
    def reduce(self, n, d):
        if not n: return n, frozenset()
        lc, com, key = self.split(n); dd = dict(d); ch = False
        for x in list(com):
            k = min(com[x], dd.get(x, 0))
            if k: ch = True; com[x] -= k; dd[x] -= k
        if key is not None and dd.get(key): dd[key] -= 1; key = None; ch = True
        if not ch: return n, d
        r = {tuple(sorted((x, e) for x, e in com.items() if e)): lc}
        if key is not None: r = self.pmul(r, self.factors[key])
        return r, frozenset((x, e) for x, e in dd.items() if e)
    def put(self, out, n, d):
        n, d = self.reduce(n, d)
        q = self.padd(out.get(d, {}), n) if d in out else n
        if q: out[d] = q
        else: out.pop(d, None)
    def add(self, a, b, k=1):
        out = {d: dict(n) for d, n in a.items()}
        for d, n in b.items(): self.put(out, {m: c * k for m, c in n.items()}, d)
        return out
    def mul(self, a, b):
        out = {}
        for d1, n1 in a.items():
            for d2, n2 in b.items():
                d = dict(d1)
                for x, e in d2: d[x] = d.get(x, 0) + e
                # cancel the numerators against the joint denominator before multiplying out
                d = frozenset(d.items()); n1r, d = self.reduce(n1, d); n2r, d = self.reduce(n2, d)
                self.put(out, self.pmul(n1r, n2r), d)
        return out
    def single(self, a):
        """one quotient equal to the sum"""
        if len(a) <= 1: return next(iter(a.items())) if a else (frozenset(), {})
        l = {}
        for d in a:
            for x, e in d: l[x] = max(l.get(x, 0), e)
        n = {}
        for d, p in a.items():
            q = p; dd = dict(d)
            for x, e in l.items():
                for _ in range(e - dd.get(x, 0)): q = self.pmul(q, self.factors[x] if not isinstance(x, int) else {((x, 1),): 1})
            n = self.padd(n, q)
        n, d = self.reduce(n, frozenset(l.items()))
        return d, n
    def inv(self, a):
        d, n = self.single(a)
        if not n: raise ZeroDivisionError
        from fractions import Fraction
        lc, com, key = self.split(n); num = {(): Fraction(1) / lc}
        for x, e in d:
            for _ in range(e): num = self.pmul(num, self.factors[x] if not isinstance(x, int) else {((x, 1),): 1})
        den = dict(com)
        if key is not None: den[key] = 1
        n, d = self.reduce(num, frozenset(den.items()))
        return {d: n}
    def nf(self, e):
        i = e.get_id()
        if i not in self.memo: self.memo[i] = (e, self._nf(e))
        return self.memo[i][1]
    def _nf(self, e):
        if isconst(e):
            v = e.as_fraction(); return {frozenset(): {(): v}} if v else {}
        if z3.is_app(e):
            k = e.decl().kind(); ch = e.children()
            if k == z3.Z3_OP_ADD:
                r = self.nf(ch[0])
                for x in ch[1:]: r = self.add(r, self.nf(x))
                return r
            if k == z3.Z3_OP_SUB:
                r = self.nf(ch[0])
                for x in ch[1:]: r = self.add(r, self.nf(x), -1)
                return r
            if k == z3.Z3_OP_UMINUS: return self.add({}, self.nf(ch[0]), -1)
            if k == z3.Z3_OP_MUL:
                r = self.nf(ch[0])
                for x in ch[1:]: r = self.mul(r, self.nf(x))
                return r
            if k == z3.Z3_OP_DIV:
                if not isconst(ch[1]): self.divisors[ch[1].get_id()] = ch[1]
                return self.mul(self.nf(ch[0]), self.inv(self.nf(ch[1])))
            if k == z3.Z3_OP_POWER and isconst(ch[1]) and ch[1].as_fraction() in (2, 3, 4):
                r = b = self.nf(ch[0])
                for _ in range(int(ch[1].as_fraction()) - 1): r = self.mul(r, b)
                return r
        s = e.get_id(); self.atoms[s] = e
        return {frozenset(): {((s, 1),): 1}}

def rational_identity(c, goal, ms):
    """a = b as an identity of rational functions whose divisors are provably non-zero"""
    R = _Rat()
    try:
        if z3.simplify(goal.arg(0)).sort() != z3.RealSort(): return False
        q = R.add(R.nf(goal.arg(0)), R.nf(goal.arg(1)), -1)
        for r, a in c.cache.get("sq", []):       # squares of roots are their arguments
            i = r.get_id()
            if i in R.atoms and any(dict(m).get(i, 0) >= 2 for x in q.values() for m in x):
                v = R.nf(a); out = {}
                for d, p in q.items():
                    for m, k in p.items():
                        e = dict(m); h, e[i] = divmod(e.get(i, 0), 2); t = {d: {tuple(sorted((x, y) for x, y in e.items() if y)): k}}
                        for _ in range(h): t = R.mul(t, v)
                        out = R.add(out, t)
                q = out
        n = q and R.single(q)[1]
    except (OverflowError, ZeroDivisionError, RecursionError): return False
    if n or not R.divisors: return False
    s = z3.Solver(); s.set("timeout", max(ms, 1000)); s.add(*c.pc); s.add(*c.ax)
    known = c.cache.setdefault("nonzero", set())
    for i, x in R.divisors.items():
        if i in known: continue
        s.push(); s.add(x == 0); r = s.check(); s.pop()
        if r != z3.unsat:
            # positive factors: a product of provably non-zero terms
            if not _nz(c, x, ms): return False
        known.add(i); c.cache.setdefault("keep", []).append(x)
    return True
def _nz(c, x, ms, depth=0):
    """x is a product/quotient of terms that are provably non-zero"""
    if isconst(x): return x.as_fraction() != 0
    if z3.is_mul(x) or z3.is_div(x): return all(_nz(c, y, ms, depth + 1) for y in x.children())
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS: return _nz(c, x.arg(0), ms, depth + 1)
    if not depth:
        R = _Rat()
        try: n = R.single(R.nf(x))[1]
        except (OverflowError, ZeroDivisionError): return False
        if len(n) == 1:
            (m, k), = n.items()
            return all(_nz(c, R.atoms[a], ms, 1) for a, e in m)
        # common monomial factor times a remainder
        ms_ = [dict(m) for m in n]; com = {a: min(m.get(a, 0) for m in ms_) for a in ms_[0]}; com = {a: e for a, e in com.items() if e}
        if com:
            rest = z3.Sum([z3.RealVal(str(k)) * z3.Product([z3.RealVal(1)] + [R.atoms[a] for a, e in dict(m).items() for _ in range(e - com.get(a, 0))]) for m, k in n.items()])
            return all(_nz(c, R.atoms[a], ms, 1) for a in com) and _nz(c, rest, ms, 1)
    s = z3.Solver(); s.set("timeout", max(ms, 1000)); s.add(*c.pc); s.add(*c.ax); s.add(x == 0)
    return s.check() == z3.unsat

def nonneg_ask(c, e, ms, memo, depth=0):
    """sum, product, quotient, even power or conditional of terms that are non-negative syntactically or by z3"""
    if nonneg(e): return True
    k = e.get_id()
    if k in memo: return memo[k]
    kind = e.decl().kind() if z3.is_app(e) else None; rec = lambda x: nonneg_ask(c, x, ms, memo, depth + 1); r = False
    if depth < 30:
        if kind in (z3.Z3_OP_DIV, z3.Z3_OP_MUL) : r = all(rec(x) for x in e.children())
        elif kind == z3.Z3_OP_ADD: r = _ask_ge0(c, e, min(ms, 300)) or all(rec(x) for x in e.children())
        elif kind == z3.Z3_OP_ITE: r = rec(e.arg(1)) and rec(e.arg(2))
    memo[k] = r or _ask_ge0(c, e, ms); c.cache.setdefault("keep", []).append(e)
    return memo[k]
def _ask_ge0(c, e, ms):
    s = z3.Solver(); s.set("timeout", max(ms, 200)); s.add(*c.pc); s.add(*c.ax); s.add(e < 0)
    return s.check() == z3.unsat

def snap_consts(es):
    """replace numerals that are float roundings of a quotient of small integers by that quotient; None if there are none"""
    from fractions import Fraction
    seen = set(); sub = {}; work = list(es)
    while work:
        e = work.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_rational_value(e):
            fr = Fraction(e.numerator_as_long(), e.denominator_as_long())
            if fr.denominator > 10 ** 6:
                q = fr.limit_denominator(20000)
                if q and abs(q - fr) <= abs(fr) * Fraction(1, 10 ** 13): sub[e.get_id()] = (e, z3.RealVal(f"{q.numerator}/{q.denominator}"))
        else: work.extend(e.children())
    return [z3.substitute(e, *sub.values()) for e in es] if sub else None

def prove(c, name, goal, timeout_ms=20000, exact=False):
    r = prove_exact(c, name, goal, timeout_ms, exact)
    if r[0] == "proved" or exact: return r
    goal = boolexpr(goal)
    if isinstance(goal, bool): return r
    sq = c.cache.get("sq", [])
    es = snap_consts([z3.simplify(goal), *c.pc, *c.ax, *(a for _, a in sq)])
    if es is None: return r
    c2 = Ctx.__new__(Ctx); c2.__dict__.update(c.__dict__); n = len(c.pc); c2.pc = es[1:1 + n]; m = 1 + n + len(c.ax); c2.ax = es[1 + n:m]
    c2.cache = {**c.cache, "sq": [(r_, a) for (r_, _), a in zip(sq, es[m:])], "nonzero": set()}
    q = prove_exact(c2, name, es[0], timeout_ms, exact)
    if q[0] == "proved": return "proved", q[1] + ", up to rounding of constants", r[2] + q[2], None
    return r

def prove_exact(c, name, goal, timeout_ms=20000, exact=False):
    """Returns (status, backend, seconds, model-or-None)."""
    t0 = time.time()
    goal = boolexpr(goal)
    if isinstance(goal, bool):
        if goal: return "proved", "evaluation", 0.0, None
        goal = z3.BoolVal(False)
    if z3.is_and(goal) and goal.num_args() < 12 and not exact:
        bk = []
        for x in goal.children():
            q = prove_exact(c, name, x, timeout_ms, exact)
            if q[0] == "refuted": return q
            if q[0] != "proved": break
            bk.append(q[1])
        else: return "proved", " & ".join(dict.fromkeys(bk)), time.time() - t0, None
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        d = z3.simplify(goal.arg(0) - goal.arg(1), som=True)
        if isz(d): return "proved", "ring normal form", time.time() - t0, None
        g0 = goal
        if not exact and rounding_only(g0, d): return "proved", "ring normal form, up to rounding of constants", time.time() - t0, None
        for r, a in c.cache.get("sq", []):       # squares of roots are their arguments
            B = z3.simplify(z3.substitute(d, (r, z3.RealVal(0))), som=True); A = z3.simplify(z3.substitute(d, (r, z3.RealVal(1))) - B, som=True)
            if isz(A) or not isz(z3.simplify(A * r * r + B - d, som=True)): continue
            d = z3.simplify(A * a + B, som=True)
            if isz(d): return "proved", "ring normal form", time.time() - t0, None
            if not exact and rounding_only(g0, d): return "proved", "ring normal form, up to rounding of constants", time.time() - t0, None
            goal = d == 0
    elif z3.is_le(goal) or z3.is_ge(goal):
        lo, hi = (goal.arg(0), goal.arg(1)) if z3.is_le(goal) else (goal.arg(1), goal.arg(0))
        if isconst(lo) and lo.as_fraction() <= 0 and nonneg(hi): return "proved", "sum of squares", time.time() - t0, None
        s = z3.Solver(); s.set("timeout", 1500); s.add(*c.pc); s.add(*c.ax); s.add(z3.Not(goal)); r = s.check()
        if r == z3.unsat: return "proved", "z3", time.time() - t0, None
        if r == z3.unknown and isconst(lo) and lo.as_fraction() <= 0 and nonneg_ask(c, hi, 800, {}): return "proved", "sum of non-negative terms (z3)", time.time() - t0, None
    raw = goal
    goal = z3.simplify(goal)
    if z3.is_true(goal): return "proved", "evaluation", time.time() - t0, None
    # ring identities first: a = b whose difference normalises to zero needs no assumption
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        d = z3.simplify(goal.arg(0) - goal.arg(1), som=True)
        if isz(d): return "proved", "ring normal form", time.time() - t0, None
    if z3.is_eq(raw) and z3.is_arith(raw.arg(0)) and rational_identity(c, raw, timeout_ms // 10): return "proved", "rational normal form (divisors non-zero by z3)", time.time() - t0, None
    s = z3.Solver(); s.set("timeout", timeout_ms // 2)
    s.add(*c.pc); s.add(*c.ax); s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat: return "proved", "z3", time.time() - t0, None
    if r == z3.sat:
        return "refuted", "z3", time.time() - t0, s.model()
    # second strategy: nlsat
    try:
        s2 = z3.Then("simplify", "purify-arith", "solve-eqs", "nlsat").solver() if False else z3.SolverFor("QF_NRA")
        s2.set("timeout", timeout_ms // 2)
        s2.add(*c.pc); s2.add(*c.ax); s2.add(z3.Not(goal))
        r = s2.check()
        if r == z3.unsat: return "proved", "z3-nra", time.time() - t0, None
        if r == z3.sat: return "refuted", "z3-nra", time.time() - t0, s2.model()
    except z3.Z3Exception:
        pass
    q = cvc5_check(s.to_smt2(), timeout_ms // 2)
    if q == "unsat": return "proved", "cvc5", time.time() - t0, None
    return "unknown", "z3+cvc5", time.time() - t0, None
