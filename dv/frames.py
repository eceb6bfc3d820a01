"""pandas as seen by the symbolically executed code.

SymDF / SymSeries: tables with a symbolic (unbounded) number of rows; every column is a symbolic array over the row
axis.  Tables of concrete shape are ordinary pandas tables (cells may hold symbolic scalars).  Assumed contracts of
the pandas operations: elementwise semantics, boolean selection keeps order, groupby-transform('mean') puts on every
row the mean of the rows with the same label.
"""
import builtins, types
import numpy as np, pandas as pd, z3
from .core import *
from .tensor import *
from . import tensor as T, shims

class GroupCol:
    """a label column: rows partitioned into groups by a one-hot matrix (every group non-empty)"""
    __dv_sym__ = True; __dv_labels__ = True; __array_ufunc__ = None
    def __init__(self, name, onehot, full=True): self.name, self.G, self.full = name, onehot, full
    def _labels(self):
        if self.full: return Labels(self.G.axes[1])
        n = z3.Real(ctx().fresh(f"nlabels_{self.name}")); ctx().axiom(n >= 0); ctx().axiom(n <= self.G.axes[1].size)
        rows = self.G.axes[0].size; ctx().axiom(n <= rows); ctx().axiom(z3.Implies(rows > 0, n >= 1))
        return Labels(T.Axis(ctx().fresh(f"labels_{self.name}"), size=n))
    def __dvlen__(self): return self.G.shape[0]
    @property
    def shape(self): return (self.G.shape[0],)
    ndim = 1
    def astype(self, *a, **k): return self
    def unique(self, *a, **k):
        if a or k: 
            if k.get("return_inverse") and len(k) == 1: return (self._labels(), self)
            raise Unsupported("np.unique options")
        return self._labels()
    def nunique(self): return self._labels().axis.sint()
class Labels:
    """the distinct labels of a column"""
    __dv_sym__ = True
    def __init__(self, axis): self.axis = axis
    def __dvlen__(self): return self.axis.sint()
    @property
    def shape(self): return (self.axis.sint(),)
    @property
    def size(self): return self.axis.sint()
    def __iter__(self): raise Unsupported("iteration over the labels of a symbolic column")
class ArrTable:
    """pd.DataFrame(matrix) - only grouped sums"""
    __dv_sym__ = True
    def __init__(self, a): self.a = a
    def groupby(self, by, *a, **k):
        if isinstance(by, SymSeries): by = by.a
        if not isinstance(by, GroupCol): raise Unsupported("grouping")
        ctx().notes.add("pandas: DataFrame.groupby(labels).sum() adds the rows with equal labels")
        return ArrGroup(self.a, by)
    @property
    def values(self): return self.a
    def to_numpy(self): return self.a
class ArrGroup:
    def __init__(self, a, by): self.a, self.by = a, by
    def sum(self): return ArrTable(self.by.G.T @ self.a)

class SymIndex:
    def __init__(self, axis): self.axis = axis
    def __dvlen__(self): return self.axis.sint()

class SymSeries:
    __dv_sym__ = True
    __array_ufunc__ = None
    __array_priority__ = 3000
    def __init__(self, arr, df=None, name=None): self.a = arr; self.df = df; self.name = name
    def __dv_array__(self): return self._arr()
    def _arr(self):
        if isinstance(self.a, GroupCol): raise Unsupported("numeric use of a label column")
        return self.a.copy() if isinstance(self.a, Arr) else self.a
    @property
    def values(self): return self._arr() if not isinstance(self.a, GroupCol) else self.a
    def to_numpy(self, *a, **k): return self.values
    def astype(self, t, *a, **k): return SymSeries(self._arr().astype(t), self.df, self.name)
    def copy(self, *a, **k): return SymSeries(self.a if isinstance(self.a, GroupCol) else self.a.copy(), self.df, self.name)
    @property
    def index(self): return SymIndex(self.a.axes[0])
    @property
    def dtype(self): return self._arr().dtype
    @property
    def shape(self): return self._arr().shape
    def __dvlen__(self): return (self.a.G if isinstance(self.a, GroupCol) else self.a).shape[0]
    def _l(self, o): return o._arr() if isinstance(o, SymSeries) else o
    def _w(self, r): return SymSeries(r, self.df) if isinstance(r, Arr) else r
    def __add__(self, o): return self._w(self._arr() + self._l(o))
    __radd__ = __add__
    def __sub__(self, o): return self._w(self._arr() - self._l(o))
    def __rsub__(self, o): return self._w(self._l(o) - self._arr())
    def __mul__(self, o): return self._w(self._arr() * self._l(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return self._w(self._arr() / self._l(o))
    def __neg__(self): return self._w(-self._arr())
    def __and__(self, o): return self._w(self._arr() & self._l(o))
    def __or__(self, o): return self._w(self._arr() | self._l(o))
    def __invert__(self): return self._w(~self._arr())
    def __eq__(self, o): return self._w(self._arr() == self._l(o))
    def __ne__(self, o): return self._w(self._arr() != self._l(o))
    def __lt__(self, o): return self._w(self._arr() < self._l(o))
    def __le__(self, o): return self._w(self._arr() <= self._l(o))
    def __gt__(self, o): return self._w(self._arr() > self._l(o))
    def __ge__(self, o): return self._w(self._arr() >= self._l(o))
    __hash__ = None
    def isin(self, vals): return self._w(shims.h_isin(self._arr(), vals))
    def isna(self): return self._w(shims._constbool(self._arr(), False))
    isnull = isna
    def notna(self): return self._w(shims._constbool(self._arr(), True))
    def dropna(self): return self
    def mean(self, *a, **k): return self._arr().mean()
    def sum(self, *a, **k): return self._arr().sum()
    def std(self, ddof=1, **k): return self._arr().std(ddof=ddof)
    def var(self, ddof=1, **k): return self._arr().var(ddof=ddof)
    def any(self): return self._arr().any()
    def all(self): return self._arr().all()
    def unique(self):
        if isinstance(self.a, GroupCol): return self.a.unique()
        u = ctx().cache.get("uniques", {}).get(self.name)
        if u is not None: return np.array(u)
        raise Unsupported(f"unique values of a symbolic column {self.name}")
    def nunique(self, *a, **k):
        if isinstance(self.a, GroupCol): return self.a.nunique()
        return len(self.unique())
    def count(self): return self._arr().shape[0]
    def min(self): return self._arr().min()
    def max(self): return self._arr().max()
    def groupby(self, by, *a, **k): return SymGroup(self.df, by, None, self)
    def __getitem__(self, k):
        k = k._arr() if isinstance(k, SymSeries) else k
        return SymSeries(self._arr()[k], None, self.name)
    def to_list(self): raise Unsupported("list of a symbolic column")
    tolist = to_list

class SymDF:
    __dv_sym__ = True
    def __init__(self, cols, axis): self.cols = dict(cols); self.axis = axis; self.writes = []
    def __dv_isinstance__(self, c): return True if c is pd.DataFrame else None
    @property
    def columns(self): return list(self.cols)
    def __contains__(self, k): return k in self.cols
    def __dvlen__(self): return self.axis.sint()
    @property
    def shape(self): return (self.axis.sint(), builtins.len(self.cols))
    @property
    def index(self): return SymIndex(self.axis)
    @property
    def empty(self): return len(self) == 0
    def copy(self, *a, **k): 
        return SymDF({k: v for k, v in self.cols.items()}, self.axis)
    def __getitem__(self, k):
        if isinstance(k, (str, int)) or (not isinstance(k, (list, SymSeries, Arr)) and k in self.cols):
            if k not in self.cols: raise KeyError(k)
            return SymSeries(self.cols[k], self, k)
        if isinstance(k, list):
            return SymDF({c: self.cols[c] for c in k}, self.axis)
        m = k._arr() if isinstance(k, SymSeries) else k
        if isinstance(m, Arr) and m.kind == "bool":
            sub = T.subaxis(self.axis, m)
            out = {}
            for c, v in self.cols.items():
                out[c] = GroupCol(v.name, v.G[m], False) if isinstance(v, GroupCol) else v[m]
            return SymDF(out, sub)
        raise Unsupported("table selection")
    def __setitem__(self, k, v):
        v = v.a if isinstance(v, SymSeries) else v
        if F.can(v): v = Arr.from_poly((self.axis,), Poly.const(F.lift(v).v))
        if not isinstance(v, (Arr, GroupCol)): raise Unsupported("column assignment")
        if isinstance(v, Arr) and v.axes[0] is not self.axis: raise Unsupported("column over other rows")
        self.writes.append(k); self.cols[k] = v
    @property
    def values(self): return shims.column_stack([v for v in self.cols.values()])
    def to_numpy(self, *a, **k): return self.values
    def __dv_array__(self): return self.values
    def astype(self, t): return self
    def groupby(self, by, *a, **k): return SymGroup(self, by)
    def drop(self, columns=None, **k): return SymDF({c: v for c, v in self.cols.items() if c not in columns}, self.axis)
    def dropna(self, *a, **k): return self.copy()
    def duplicated(self, subset=None, **k):
        """no row repeats another one's labels on the key columns of a panel (and on nothing else do we know)"""
        cols = list(self.cols) if subset is None else [subset] if isinstance(subset, str) else list(subset)
        ks = {colkey(self.cols[c]) for c in cols}
        if not any(ax is self.axis and u <= ks for ax, u in ctx().cache.get("unique_rows", [])): raise Unsupported("duplicated rows")
        return SymSeries(Arr.from_poly((self.axis,), Poly(), "bool"), self, "duplicated")
    def isna(self): return SymDF({c: (shims._constbool(v, False) if isinstance(v, Arr) else Arr.from_poly((self.axis,), Poly(), "bool")) for c, v in self.cols.items()}, self.axis)
    isnull = isna
    def any(self, *a, **k):
        s = pd.Series({c: v.any() if isinstance(v, Arr) else False for c, v in self.cols.items()}, dtype=object)
        return s
    def reset_index(self, *a, **k): return self.copy()
    def sort_values(self, *a, **k): raise Unsupported("sorting a symbolic table")
    @property
    def loc(self): return SymLoc(self)

def colkey(v):
    v = v.G if isinstance(v, GroupCol) else v
    return None if v.data.shape else v.data[()].key()

class SymLoc:
    """table.loc[rows, column]"""
    def __init__(self, df): self.df = df
    def _mask(self, m):
        m = m._arr() if isinstance(m, SymSeries) else m
        if not (isinstance(m, Arr) and m.kind == "bool" and m.ndim == 1): raise Unsupported("row selection")
        return m
    def __getitem__(self, k):
        if not isinstance(k, tuple): return self.df[k]
        return self.df[SymSeries(self._mask(k[0]))][k[1]]
    def __setitem__(self, k, v):
        m = self._mask(k[0]); P = m.data[()]
        if P.isscalar() and z3.is_true(z3.simplify(P.scalar() == 0)): return          # no row is selected
        if not isinstance(k[1], str) or not F.can(v): raise Unsupported("assignment to selected rows")
        f = F.lift(v)
        if f.nan is not False or f.pi is not False or f.ni is not False: raise Unsupported("missing values in a symbolic column")
        old = self.df.cols[k[1]]
        self.df[k[1]] = T.where(m, Arr.from_poly((self.df.axis,), Poly.const(f.v)), old)

class SymGroup:
    def __init__(self, df, by, col=None, series=None):
        self.df, self.by, self.col, self.series = df, by, col, series
    def _G(self):
        by = self.by
        if isinstance(by, SymSeries): g = by.a
        else: g = self.df.cols[by]
        if not isinstance(g, GroupCol):
            if isinstance(g, Arr):
                for k, vs, ii in ctx().cache.get("codes", []):
                    if k == g.data[()].key(): return [Arr.from_poly(g.axes, P) for P in ii]
                if g.data[()].isind() and not g.data[()].isscalar(): return [1 - g, g * 1.0]
            raise Unsupported("grouping by a numeric symbolic column")
        return g.G
    def __getitem__(self, c): return SymGroup(self.df, self.by, c)
    def transform(self, f):
        if f not in ("mean", "sum", "count", "size"): raise Unsupported("transform " + str(f))
        G = self._G()
        if isinstance(self.col, list):
            return SymDF({c: SymGroup(self.df, self.by, c).transform(f).a for c in self.col}, self.df.axis)
        x = self.series._arr() if self.series is not None else self.df.cols[self.col]
        return SymSeries(group_transform(G, x, f), self.df)
    def mean(self): raise Unsupported("group means as a table")
    def agg(self, spec):
        """one row per combination of the (enumerated) key values, in sorted order; every combination is assumed to occur"""
        by = self.by if isinstance(self.by, list) else [self.by]; tab = []
        for b in by:
            g = self.df.cols[b]; u = ctx().cache.get("uniques", {}).get(b); hit = None
            if isinstance(g, Arr) and u is not None:
                for k, vs, ii in ctx().cache.get("codes", []):
                    if k == g.data[()].key(): hit = dict(zip(u, [Arr.from_poly(g.axes, P) for P in ii]))
                if hit is None and g.data[()].isind() and list(u) == [0.0, 1.0]: hit = {0.0: 1 - g, 1.0: g * 1.0}
            if hit is None: raise Unsupported("grouped aggregation over a symbolic column")
            tab.append(hit)
        if not isinstance(spec, dict): raise Unsupported("aggregation options")
        import itertools
        keys = list(itertools.product(*[sorted(t) for t in tab])); rows = {c: [] for c in spec}
        for key in keys:
            I = None
            for t, v in zip(tab, key): I = t[v] if I is None else I * t[v]
            n = I.sum(); ctx().assume(n > 0)
            for c, how in spec.items():
                x = self.df.cols[c]
                if how == "nunique" and isinstance(x, GroupCol): rows[c].append(nunique_in(x, I))
                elif isinstance(x, Arr) and how in ("mean", "sum", "count"): rows[c].append({"mean": lambda: (I * x).sum() / n, "sum": lambda: (I * x).sum(), "count": lambda: n}[how]())
                else: raise Unsupported("aggregation " + str(how))
        ctx().notes.add("pandas: groupby(keys).agg gives, per combination of keys that occurs, the mean/sum/count of the rows of the combination, sorted by key")
        return pd.DataFrame({c: pd.Series(v, dtype=object) for c, v in rows.items()}).set_index(pd.MultiIndex.from_tuples(keys, names=by))
    @property
    def ngroups(self): return self._G().shape[1]
    def __iter__(self): raise Unsupported("iteration over groups")

def nunique_in(col, I):
    """number of distinct labels of the rows selected by the indicator I"""
    tbl = ctx().cache.setdefault("nunique", {}); k = (col.name, I.data[()].key())
    if k not in tbl:
        n = tbl[k] = z3.Int(ctx().fresh("nunique")); ctx().axiom(n >= 1)
    return SInt(tbl[k])
def group_transform(G, x, f):
    """(G diag(1/cnt) G' x) - every row gets the mean of its own group"""
    if isinstance(G, list):           # a column with enumerated values: one indicator per value
        out = None
        for I in G:
            n = I.sum(); v = {"mean": lambda: (I * x).sum() / n, "sum": lambda: (I * x).sum(), "count": lambda: n, "size": lambda: n}[f]()
            w = I * v; out = w if out is None else out + w
        return out
    s = G.T @ x
    if f == "sum": return G @ s
    one = Arr.from_poly((x.axes[0],), Poly.const(Z1))
    cnt = G.T @ one
    if f in ("count", "size"): return G @ cnt
    return G @ (s * T.recip(cnt))

class _Types:
    def __getattr__(self, n): return getattr(pd.api.types, n)
    def is_numeric_dtype(self, x):
        if isinstance(x, SymSeries): return isinstance(x.a, Arr)
        if isinstance(x, Arr): return True
        return pd.api.types.is_numeric_dtype(x)
    def is_datetime64_any_dtype(self, x): return False if isinstance(x, (SymSeries, Arr)) else pd.api.types.is_datetime64_any_dtype(x)
API = types.SimpleNamespace(types=_Types())
class PD:
    DataFrame_real = pd.DataFrame
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n == "api": return API
        real = getattr(pd, n)
        h = H.get(n)
        if h is None: return real
        return h
def p_isna(x):
    if isinstance(x, (F, SInt, SBool)): return mkbool(toB(F.lift(x).nan))
    if isinstance(x, Arr): return shims._constbool(x, False)
    if isinstance(x, SymSeries): return x.isna()
    return pd.isna(x)
def p_notna(x):
    r = p_isna(x)
    return ~r if not isinstance(r, bool) else (not r)
class _DFMeta(type):
    def __instancecheck__(c, x): return isinstance(x, (pd.DataFrame, SymDF))
    def __call__(c, data=None, *a, **k):
        if isinstance(data, Arr) and data.ndim <= 2: return ArrTable(data)
        if isinstance(data, dict) and any(isinstance(v, (Arr, SymSeries)) for v in data.values()):
            cols = {}; ax = None
            for q, v in data.items():
                v = v.a if isinstance(v, SymSeries) else v
                if isinstance(v, Arr): ax = v.axes[0]
                cols[q] = v
            return SymDF(cols, ax)
        return pd.DataFrame(data, *a, **k)
    def __getattr__(c, n): return getattr(pd.DataFrame, n)
class DFShim(metaclass=_DFMeta): pass
def p_factorize(x, *a, **k):
    if isinstance(x, SymSeries): x = x.a
    if isinstance(x, GroupCol): return x, Labels(x.G.axes[1])
    return pd.factorize(x, *a, **k)
def p_concat(objs, axis=0, **k):
    objs = list(objs)
    if any(isinstance(o, SymDF) for o in objs):
        if axis not in (1, "columns") or not all(isinstance(o, SymDF) and o.axis is objs[0].axis for o in objs): raise Unsupported("pd.concat")
        r = objs[0].copy()
        for o in objs[1:]: r.cols.update(o.cols)
        return r
    return pd.concat(objs, axis=axis, **k)
H = {"concat": p_concat, "factorize": p_factorize, "isna": p_isna, "isnull": p_isna, "notna": p_notna, "notnull": p_notna, "DataFrame": DFShim}
pd_shim = PD()

def codes(name, axis, values):
    """a column that takes the given values; -> (column, indicator columns).  Every value occurs."""
    from .tensor import binary, Poly
    rest = None; ind = []
    for j, v in enumerate(values):
        last = j == builtins.len(values) - 1
        z = None if last else binary(f"{name}${j}", axis)
        if rest is None: I = z
        elif last: I = rest
        else: I = rest * z
        ind.append(I)
        if not last: rest = (1 - z) if rest is None else rest * (1 - z)
    tot = None
    for v, I in zip(values, ind):
        w = I * F.lift(float(v)); tot = w if tot is None else tot + w
    reg = ctx().cache.setdefault("codes", [])
    reg.append((tot.data[()].key(), [F.lift(float(v)) for v in values], [I.data[()] for I in ind]))
    def hook(op, P, Q, axof):
        ks = {k: (vs, ii) for k, vs, ii in reg}
        flip = False
        if not Q.isscalar():
            if not P.isscalar(): return None
            P, Q, flip = Q, P, True
        hit = ks.get(P.key())
        if hit is None: return None
        c = Q.scalar(); o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op) if flip else op
        out = Poly()
        for v, I in zip(*hit):
            e = z3.simplify({"==": v.v == c, "<": v.v < c, "<=": v.v <= c, ">": v.v > c, ">=": v.v >= c}[o])
            w = rIte(True if z3.is_true(e) else (False if z3.is_false(e) else e), Z1, Z0)
            out = out + I.scale(w)
        return out
    ctx().cache["compare_hook"] = hook
    ctx().cache.setdefault("uniques", {})[name] = list(values)
    for I in ind: ctx().assume(I.sum() > 0)
    return tot, ind

# pandas reductions of object columns holding symbolic numbers: their defining sums
def _objred(name, f):
    real = getattr(pd.Series, name)
    def g(self, *a, **k):
        if self.dtype == object and builtins.any(isinstance(x, (F, SInt)) for x in self.values):
            v = [x for x in self.values if not (isinstance(x, float) and x != x)]
            if builtins.any(isinstance(x, F) and x.nan is not False for x in v): raise Unsupported("reduction of possibly missing values")
            return f(v, *a, **k)
        return real(self, *a, **k)
    setattr(pd.Series, name, g)
def _osum(v):
    t = 0.0
    for x in v: t = x + t
    return t
_objred("mean", lambda v, *a, **k: _osum(v) / builtins.len(v) if v else float("nan"))
_objred("sum", lambda v, *a, **k: _osum(v))
# symbolic numbers known to be NaN (a difference with an absent neighbour, say) are missing values of their column
def _known_nan(x): return isinstance(x, F) and x.nan is True
def _settle(s):
    if s.dtype == object and builtins.any(isinstance(x, F) for x in s.values):
        if builtins.any(isinstance(x, F) and x.nan not in (False, True) for x in s.values): raise Unsupported("a column of possibly missing values")
        if builtins.any(_known_nan(x) for x in s.values): return pd.Series([float("nan") if _known_nan(x) else x for x in s.values], index=s.index, name=s.name, dtype=object)
    return s
def _settled(cls, name):
    real = getattr(cls, name)
    def g(self, *a, **k):
        if isinstance(self, pd.Series): return real(_settle(self), *a, **k)
        obj = [c for c in self.columns if isinstance(self[c], pd.Series) and self[c].dtype == object]
        new = {c: _settle(self[c]) for c in obj}; new = {c: s for c, s in new.items() if s is not self[c] and builtins.any(isinstance(x, F) and x.nan is True for x in self[c].values)}
        return real(self.assign(**new) if new else self, *a, **k)
    setattr(cls, name, g)
for _c in (pd.Series, pd.DataFrame):
    for _n in ("dropna", "isna", "notna", "isnull", "notnull"): _settled(_c, _n)
