"""Arrays of symbolic (unbounded) length.

An array is a tensor polynomial: a sum of products of indexed atoms, with free indices for its
symbolic axes and summed (bound) indices produced by reductions and matrix products; concrete axes
(e.g. the columns of a design matrix that the code stacks explicitly) are enumerated.  All entries are
finite reals.  The normal form (bound indices canonically renamed, like terms collected, indicator
atoms idempotent, one-hot atoms orthogonal, fully contracted parts turned into real constants) decides
ring identities for every length; everything scalar is left to the SMT solver.
"""
import itertools, z3
import numpy as np
from .core import *
from . import core

class Axis:
    """A dimension of symbolic size."""
    _n = itertools.count()
    def __init__(self, name, size=None, parent=None, ind=None):
        self.name = name; self.parent = parent; self.ind = ind
        self.key = name
        if size is None:
            size = z3.Real("n_" + name)
        self.size = size                     # z3 real
    def sint(self): return mkint(self.size)
    def root(self): return self.parent.root() if self.parent is not None else self
    def __repr__(self): return f"Axis({self.name})"

class AtomInfo:
    def __init__(self, name, axes, ind=False, nonneg=False, onehot=False, sym=False, pos=False):
        self.name, self.axes, self.ind, self.nonneg, self.onehot, self.sym, self.pos = name, axes, ind, nonneg or ind or pos, onehot, sym, pos

def atoms():
    return ctx().cache.setdefault("atoms", {})
def atom(name, axes, **kw):
    t = atoms()
    if name not in t: t[name] = AtomInfo(name, tuple(a.root() for a in axes), **kw)
    return t[name]

# A monomial is a sorted tuple of factors (atom name, (labels...)); labels: 'f0'.. free, 'b0'.. bound.
# A polynomial: dict monomial -> z3 real coefficient.
def _lab(m):
    out = []
    for a, ix in m:
        for l in ix:
            if l not in out: out.append(l)
    return out

def mon_simplify(facs):
    """indicator idempotence, one-hot orthogonality, symmetric atoms.  Returns list or None (zero)."""
    A = atoms()
    facs = list(facs)
    changed = True
    while changed:
        changed = False
        seen = {}
        out = []
        for (a, ix) in facs:
            inf = A[a]
            if inf.sym and len(ix) == 2 and ix[0] > ix[1]: ix = (ix[1], ix[0])
            if inf.ind and (a, ix) in seen: changed = True; continue
            seen[(a, ix)] = 1
            out.append((a, ix))
        facs = out
        # one-hot: G[i,g] G[i,h]
        for p in range(len(facs)):
            for q in range(p + 1, len(facs)):
                (a, ix), (b, jx) = facs[p], facs[q]
                if a == b and A[a].onehot and ix[0] == jx[0] and ix[1] != jx[1]:
                    g, h = ix[1], jx[1]
                    if h.startswith("b"): old, new = h, g
                    elif g.startswith("b"): old, new = g, h
                    else: continue
                    facs = [(c, tuple(new if l == old else l for l in kx)) for c, kx in facs]
                    changed = True
                    break
            if changed: break
        # identity matrix: delta[i,b] with b summed replaces b by i
        for k, (a, ix) in enumerate(facs):
            if not a.startswith("delta_"): continue
            i, j = ix; rest = facs[:k] + facs[k + 1:]; used = {l for _, jx in rest for l in jx}
            if i == j:
                if i.startswith("b") and i not in used: continue
                facs = rest
            elif j.startswith("b"): facs = [(c, tuple(i if l == j else l for l in kx)) for c, kx in rest] + ([("delta_" + a[6:], (i, i))] if j not in used and i not in used and i.startswith("b") else [])
            elif i.startswith("b"): facs = [(c, tuple(j if l == i else l for l in kx)) for c, kx in rest]
            else: continue
            changed = True; break
        ex = ctx().cache.get("exclusive")
        if ex:
            s = set(facs)
            for (a, ix) in facs:
                for b in ex.get(a, ()):
                    if (b, ix) in s: return None
        sub = ctx().cache.get("implies")          # a*b = a when a implies b (indicators on the same index)
        if sub:
            s = set(facs)
            for (a, ix) in list(facs):
                for b in sub.get(a, ()):
                    if (b, ix) in s:
                        facs = [f for f in facs if f != (b, ix)]; changed = True; s = set(facs)
    # onehot pair contraction: Sum_g G[i,g] with g nowhere else -> 1   (g bound)
    again = True
    while again:
        again = False
        for k, (a, ix) in enumerate(facs):
            if A[a].onehot and ix[1].startswith("b"):
                if sum(l == ix[1] for _, jx in facs for l in jx) == 1:
                    facs = facs[:k] + facs[k + 1:]; again = True; break
        # delta-like: cnt/rcp pairs
        for k, (a, ix) in enumerate(facs):
            if a.startswith("rcp:"):
                b = a[4:]
                for j, (c, jx) in enumerate(facs):
                    if c == b and jx == ix:
                        facs = [f for t, f in enumerate(facs) if t not in (k, j)]; again = True; break
                if again: break
    # counts:  Sum_i G[i,g]  (i bound, nowhere else) -> cnt:G[g]
    again = True
    while again:
        again = False
        for k, (a, ix) in enumerate(facs):
            if A[a].onehot and ix[0].startswith("b") and sum(l == ix[0] for _, jx in facs for l in jx) == 1:
                cn = "cnt:" + a
                atom(cn, (A[a].axes[1],), pos=True)
                facs = facs[:k] + [(cn, (ix[1],))] + facs[k + 1:]; again = True; break
        if again:
            r = mon_simplify(facs)
            return r
    bal = ctx().cache.get("balanced")
    if bal:
        facs2 = bal(facs)
        if facs2 == "zero": return None
        if facs2 is not None and facs2 != facs: return mon_simplify(facs2)
    return facs

def components(facs):
    """split into connected components through shared labels"""
    facs = list(facs); comps = []
    while facs:
        cur = [facs.pop()]; labs = set(cur[0][1]); grew = True
        while grew:
            grew = False
            for f in facs[:]:
                if set(f[1]) & labs:
                    cur.append(f); labs |= set(f[1]); facs.remove(f); grew = True
        comps.append(cur)
    return comps

def canon(facs):
    b = [l for l in _lab(facs) if l.startswith("b")]
    if not b: return tuple(sorted(facs))
    if len(b) > 6: raise Unsupported("too many summation indices")
    best = None
    for perm in itertools.permutations(range(len(b))):
        m = {l: f"b{perm[i]}" for i, l in enumerate(b)}
        A = atoms()
        t = []
        for a, ix in facs:
            jx = tuple(m.get(l, l) for l in ix)
            if A[a].sym and len(jx) == 2 and jx[0] > jx[1]: jx = (jx[1], jx[0])
            t.append((a, jx))
        t = tuple(sorted(t))
        if best is None or t < best: best = t
    return best

def scalar_const(comp):
    """a fully contracted connected component becomes a real constant."""
    c = ctx()
    key = canon(comp)
    tbl = c.cache.setdefault("sums", {})
    if key in tbl: return tbl[key]
    A = atoms()
    known = c.cache.get("known_sums", {}).get(key[0][0]) if len(key) == 1 else None
    if known is not None: return known
    v = z3.Real("S{" + ",".join(f"{a}[{''.join(ix)}]" for a, ix in key) + "}")
    if len(key) == 1 and key[0][0].startswith("cnt:") :
        # Sum_g cnt[g] = number of rows
        g = key[0][0][4:]
        tbl[key] = A[g].axes[0].size
        return tbl[key]
    tbl[key] = v
    # sign facts
    from collections import Counter
    cnt = Counter(key)
    if all(A[a].nonneg or k % 2 == 0 for (a, ix), k in cnt.items()): c.axiom(v >= 0)
    if all(A[a].pos for a, ix in key) and not isconst(v):
        sizes = {l: A[a].axes[k].size for a, ix in key for k, l in enumerate(ix)}
        c.axiom(z3.Implies(z3.And(*[x >= 1 for x in sizes.values()]), v > 0) if sizes else v > 0)
    labs = _lab(key)
    if len(labs) == 1 and all(A[a].ind for a, ix in key):
        n = A[key[0][0]].axes[0].size
        c.axiom(v <= n)
        for k2, v2 in list(tbl.items()):
            if k2 == key: continue
            if len(_lab(k2)) == 1 and all(A[a].ind for a, ix in k2) and A[k2[0][0]].axes[0] is A[key[0][0]].axes[0]:
                if set(k2) <= set(key): c.axiom(v <= v2)
                if set(key) <= set(k2): c.axiom(v2 <= v)
    # Cauchy-Schwarz between first and second moments under the same indicator weight
    if len(labs) == 1:
        base = lambda K: (tuple(sorted(f for f in K if A[f[0]].ind)), [f for f in K if not A[f[0]].ind])
        i0, r0 = base(key)
        ax0 = A[key[0][0]].axes[0]
        def mom(k): return tbl.get(k)
        for k2, v2 in list(tbl.items()):
            if k2 == key or len(_lab(k2)) != 1: continue
            if A[k2[0][0]].axes[0] is not ax0: continue
            i2, r2 = base(k2)
            if i2 != i0: continue
            w = tbl.get(i0) if i0 else ax0.size
            if w is None and i0: w = scalar_const(list(i0))
            if len(r0) == 1 and r2 == r0 * 2: c.axiom(w * v2 >= v * v)
            if len(r2) == 1 and r0 == r2 * 2: c.axiom(w * v >= v2 * v2)
    return v

def normalise(facs, coef):
    """-> (monomial, coefficient) with contracted components folded into the coefficient; or None"""
    f = mon_simplify(facs)
    if f is None: return None
    comps = components(f)
    keep = []
    for cpt in comps:
        if all(l.startswith("b") for l in _lab(cpt)):
            coef = mulz(coef, scalar_const(cpt)) if True else coef
        else: keep.extend(cpt)
    return canon(keep), coef

class Poly:
    __slots__ = ("t",)
    def __init__(self, t=None): self.t = t or {}
    @staticmethod
    def const(v): return Poly({(): v})
    def addmon(self, m, c):
        if m in self.t:
            s = z3.simplify(self.t[m] + c, som=True)
            if isz(s): del self.t[m]
            else: self.t[m] = s
        else:
            if not isz(c): self.t[m] = c
    def __add__(self, o):
        r = Poly(dict(self.t))
        for m, c in o.t.items(): r.addmon(m, c)
        return r
    def scale(self, v):
        if isz(v): return Poly()
        return Poly({m: z3.simplify(mulz(c, v)) for m, c in self.t.items()})
    def neg(self): return self.scale(z3.RealVal(-1))
    def __mul__(self, o):
        r = Poly()
        for m1, c1 in self.t.items():
            nb = sum(1 for l in _lab(m1) if l.startswith("b"))
            for m2, c2 in o.t.items():
                m2r = tuple((a, tuple(f"b{int(l[1:]) + nb}" if l.startswith("b") else l for l in ix)) for a, ix in m2)
                q = normalise(list(m1) + list(m2r), z3.simplify(mulz(c1, c2)))
                if q is not None: r.addmon(*q)
        return r
    def relabel(self, mp):
        r = Poly()
        for m, c in self.t.items():
            q = normalise([(a, tuple(mp.get(l, l) for l in ix)) for a, ix in m], c)
            if q is not None: r.addmon(*q)
        return r
    def sum(self, lab, axis):
        """sum over the free label lab"""
        r = Poly(); P = self
        ax = axis
        while ax is not None and ax.parent is not None:
            P = P * ax.ind.relabel({"f0": lab}); ax = ax.parent
        for m, c in P.t.items():
            if lab in _lab(m):
                nb = sum(1 for l in _lab(m) if l.startswith("b"))
                q = normalise([(a, tuple(f"b{nb}" if l == lab else l for l in ix)) for a, ix in m], c)
                if q is not None: r.addmon(*q)
            else:
                r.addmon(m, z3.simplify(mulz(c, axis.root().size)))
        return r
    def isscalar(self): return all(m == () for m in self.t)
    def scalar(self):
        if not self.t: return Z0
        if not self.isscalar(): raise Unsupported("not a scalar")
        return self.t[()]
    def key(self):
        return "+".join(f"({z3.simplify(c, som=True).sexpr()})*{m}" for m, c in sorted(self.t.items(), key=lambda x: repr(x[0]))) or "0"
    def isind(self):
        """syntactically 0/1-valued"""
        A = atoms()
        if not self.t: return True
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return isone(c) and all(A[a].ind and not any(l.startswith("b") for l in ix) for a, ix in m)
        return (self * self + self.neg()).t == {}

class Arr:
    """axes: tuple of Axis | int (concrete) | None (broadcast size 1); data: object ndarray of Poly over the
    concrete axes; polys use labels f<k> for the k-th *symbolic* axis (position among all axes)."""
    __array_priority__ = 2000
    __array_ufunc__ = None
    def __init__(self, axes, data, kind="real"):
        self.axes = tuple(axes); self.data = data; self.kind = kind     # kind: real | bool | int
    # ---- construction helpers
    @staticmethod
    def from_poly(axes, poly, kind="real"):
        d = np.empty((), dtype=object); d[()] = poly
        return Arr(axes, d, kind)
    @property
    def symaxes(self): return [(k, a) for k, a in enumerate(self.axes) if isinstance(a, Axis)]
    @property
    def caxes(self): return [k for k, a in enumerate(self.axes) if isinstance(a, int)]
    @property
    def ndim(self): return len(self.axes)
    @property
    def shape(self):
        return tuple(a.sint() if isinstance(a, Axis) else (1 if a is None else a) for a in self.axes)
    @property
    def size(self):
        r = 1
        for s in self.shape: r = r * s
        return r
    @property
    def dtype(self): return np.dtype(bool if self.kind == "bool" else (int if self.kind == "int" else float))
    def __len__(self): raise Unsupported("builtin len of a symbolic array")
    def __dvlen__(self):
        return self.shape[0]
    def mapdata(self, f):
        out = np.empty(self.data.shape, dtype=object)
        for ix in np.ndindex(self.data.shape): out[ix] = f(self.data[ix])
        return out
    def copy(self, *a, **k): return Arr(self.axes, self.data.copy(), self.kind)
    def astype(self, t, *a, **k):
        return Arr(self.axes, self.data, "real" if t in (float, np.float64, "float") or getattr(t, "__name__", "") == "float_" else ("bool" if t is bool else "int"))
    @property
    def T(self):
        n = len(self.axes)
        if n < 2: return self
        return self.transpose(tuple(reversed(range(n))))
    def transpose(self, perm):
        axes = tuple(self.axes[p] for p in perm)
        mp = {f"f{p}": f"f{k}" for k, p in enumerate(perm)}
        c_old = self.caxes; c_new = [perm[k] for k in range(len(perm)) if isinstance(axes[k], int)]
        d = self.data.transpose([c_old.index(p) for p in c_new]) if c_old else self.data
        r = Arr(axes, d, self.kind)
        r.data = r.mapdata(lambda P: P.relabel(mp))
        return r
    # ---- reductions
    def sumaxis(self, axis=None, keepdims=False):
        if axis is None:
            r = self
            while isinstance(r, Arr) and r.axes: r = r.sumaxis(0)
            if isinstance(r, np.ndarray):
                tot = F(Z0)
                for v in r.ravel(): tot = tot + F.lift(v)
                return tot
            return r if not isinstance(r, Arr) else F(r.data[()].scalar())
        n = len(self.axes)
        if axis < 0: axis += n
        a = self.axes[axis]
        newaxes = self.axes[:axis] + ((None,) if keepdims else ()) + self.axes[axis + 1:]
        mp = {} if keepdims else {f"f{k}": f"f{k-1}" for k in range(axis + 1, n)}
        if isinstance(a, Axis):
            d = self.mapdata(lambda P: P.sum(f"f{axis}", a).relabel(mp))
        elif a is None:
            d = self.mapdata(lambda P: P.relabel(mp))
        else:
            ci = self.caxes.index(axis)
            shp = self.data.shape[:ci] + self.data.shape[ci + 1:]
            d = np.empty(shp, dtype=object)
            for ix in np.ndindex(shp):
                acc = Poly()
                for j in range(a): acc = acc + self.data[ix[:ci] + (j,) + ix[ci:]]
                d[ix] = acc.relabel(mp)
        return lower(Arr(newaxes, d))
    def sum(self, axis=None, keepdims=False, **k): return self.sumaxis(axis, keepdims)
    def mean(self, axis=None, keepdims=False, **k):
        if axis is None:
            tot = self.sumaxis(None); n = F(Z1)
            for s in self.shape: n = n * s
            return tot / n
        n = self.shape[axis]
        return self.sumaxis(axis, keepdims) / F.lift(n)
    def var(self, axis=None, ddof=0, **k):
        if axis is not None: raise Unsupported("var over an axis")
        n = F.lift(self.size); n.np = True
        return devsq(self) / (n - ddof)
    def std(self, axis=None, ddof=0, **k): return fsqrt(self.var(axis, ddof))
    def any(self, axis=None): return anyall(self, True)
    def all(self, axis=None): return anyall(self, False)
    def dot(self, o): return self @ o
    def min(self, *a, **k): return extremum(self, "min")
    def max(self, *a, **k): return extremum(self, "max")
    def item(self): raise Unsupported("item")
    def flatten(self): 
        if self.ndim == 1: return self.copy()
        raise Unsupported("flatten")
    ravel = flatten
    def reshape(self, *s):
        if s in ((-1, 1), ((-1, 1),)) and self.ndim == 1: return self[:, None]
        if s in ((-1,), ((-1,),)) and self.ndim == 1: return self
        raise Unsupported("reshape")
    def tolist(self): raise Unsupported("tolist of a symbolic array")
    def unique(self, *a, **k):
        """values of a column of codes (each value occurs); other columns: unsupported"""
        for key, vals, ind in ctx().cache.get("codes", []):
            if not a and not k and self.ndim == 1 and self.data.shape == () and key == self.data[()].key() and all(v.isfinite_const() for v in vals): return np.array(sorted(float(z3.simplify(v.v).as_fraction()) for v in vals))
        raise Unsupported("unique values of a symbolic array")
    def __iter__(self):
        if isinstance(self.axes[0], int):
            return iter([self[i] for i in range(self.axes[0])])
        raise Unsupported("iteration over a symbolic axis")
    # ---- arithmetic
    def _bin(self, o, f, kind="real"):
        o = toarr(o)
        if o is None: return NotImplemented
        return elementwise(f, self, o, kind=kind)
    def __add__(self, o):
        if isinstance(o, Arr) and self.kind == "bool" and o.kind == "bool": return self | o
        return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self + o
    def __sub__(self, o): return self._bin(o, lambda a, b: a + b.neg())
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, "bool" if (self.kind == "bool" and getattr(o, "kind", "") == "bool") else "real")
    __rmul__ = __mul__
    def __neg__(self): return Arr(self.axes, self.mapdata(lambda P: P.neg()))
    def __abs__(self): return unary("abs", self)
    def __truediv__(self, o):
        if isinstance(o, Arr) or F.can(o) or isinstance(o, np.ndarray): return self * recip(o)
        return NotImplemented
    def __rtruediv__(self, o): return recip(self) * o
    def __pow__(self, k):
        if isinstance(k, F): k = float(k)
        if k == 2: return self * self
        if k == 1: return self
        if k == 0.5: return unary("sqrt", self)
        if k == -1: return recip(self)
        raise Unsupported("array power")
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(toarr(o), self)
    # ---- boolean arrays (0/1-valued)
    def _chkb(self):
        if self.kind != "bool": raise Unsupported("boolean operation on a non-boolean array")
    def __and__(self, o):
        self._chkb(); o = toarr(o)
        return elementwise(lambda a, b: a * b, self, o, kind="bool")
    __rand__ = __and__
    def __or__(self, o):
        self._chkb(); o = toarr(o)
        return elementwise(lambda a, b: a + b + (a * b).neg(), self, o, kind="bool")
    __ror__ = __or__
    def __xor__(self, o):
        self._chkb(); o = toarr(o)
        return elementwise(lambda a, b: a + b + (a * b).scale(z3.RealVal(-2)), self, o, kind="bool")
    def __invert__(self):
        self._chkb(); return Arr(self.axes, self.mapdata(lambda P: Poly.const(Z1) + P.neg()), "bool")
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o):
        r = compare("==", self, o)
        return NotImplemented if r is NotImplemented else ~r
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)
    __hash__ = None
    def __bool__(self): raise ValueError("The truth value of an array is ambiguous")
    # ---- indexing
    def __getitem__(self, key):
        if not isinstance(key, tuple): key = (key,)
        if any(k is Ellipsis for k in key): raise Unsupported("ellipsis")
        axes = []; mp = {}; cidx = []; pos = 0; conv = self
        nk = sum(1 for k in key if k is not None)
        key = key + (slice(None),) * (len(self.axes) - nk)
        out_axes = []; picks = []; extra = []
        src = 0
        for k in key:
            if k is None:
                out_axes.append(None); continue
            a = self.axes[src]
            if isinstance(k, slice):
                if k == slice(None) :
                    mp[f"f{src}"] = f"f{len(out_axes)}"; out_axes.append(a); picks.append((src, slice(None)))
                elif isinstance(a, int):
                    idx = list(range(*k.indices(a))); out_axes.append(len(idx)); picks.append((src, idx))
                elif a is None: out_axes.append(None); picks.append((src, slice(None)))
                else: raise Unsupported("slice of a symbolic axis")
            elif isinstance(k, (IndexArr,)) or (isinstance(k, Arr) and k.kind == "bool"):
                if not isinstance(a, Axis): raise Unsupported("mask on a concrete axis")
                sub = k.axis if isinstance(k, IndexArr) else subaxis(a, k)
                if isinstance(k, IndexArr) and k.axis.parent is not a and k.axis is not a:
                    if k.axis.root() is not a.root(): raise Unsupported("index array from another axis")
                mp[f"f{src}"] = f"f{len(out_axes)}"; out_axes.append(sub); picks.append((src, slice(None)))
            elif isinstance(k, (list, np.ndarray)) and isinstance(a, int):
                kk = np.asarray(k)
                idx = list(np.where(kk)[0]) if kk.dtype == bool else [int(i) for i in kk]
                out_axes.append(len(idx)); picks.append((src, idx))
            elif isinstance(k, (int, np.integer, SInt)):
                if isinstance(a, int): picks.append((src, int(k)))
                else: raise Unsupported("integer index into a symbolic axis")
            else:
                raise Unsupported(f"index {type(k)}")
            src += 1
        d = self.data
        ca = self.caxes
        # apply picks on concrete axes from last to first
        for s, pk in reversed(picks):
            if s in ca:
                ci = ca.index(s)
                if isinstance(pk, int): d = np.take(d, pk, axis=ci) if d.ndim > 1 else _box(d[pk])
                elif isinstance(pk, list): d = np.take(d, pk, axis=ci)
        r = Arr(out_axes, d if isinstance(d, np.ndarray) else _box(d), self.kind)
        if any(k != v for k, v in mp.items()): r.data = r.mapdata(lambda P: P.relabel(mp))
        return lower(r)
    def __setitem__(self, key, val):
        if isinstance(key, Arr) and key.kind == "bool" and len(self.axes) > 1 and len(key.axes) == len(self.axes) and not isinstance(val, Arr):
            self.data = where(key, toarr(val), self).data; return
        if isinstance(key, Arr) and key.kind == "bool" and len(self.axes) == 1:
            w = where(key, toarr(val) if not isinstance(val, Arr) else restrict_back(val, self.axes[0]), self)
            self.data = w.data; return
        if isinstance(key, IndexArr) and len(self.axes) == 1:
            m = key.mask_on(self.axes[0])
            w = where(m, toarr(val) if not isinstance(val, Arr) else restrict_back(val, self.axes[0]), self)
            self.data = w.data; return
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice) and key[0] == slice(None) and isinstance(key[1], (int, np.integer)) and isinstance(self.axes[1], int):
            v = toarr(val)
            j = int(key[1]); v = elementwise(lambda a, b: a, v, Arr.from_poly((self.axes[0],), Poly()))
            self.data[j] = v.data[()]; return
        raise Unsupported("array assignment")

def devsq(x):
    """sum of squared deviations from the mean: a non-negative real named by its normal form"""
    if len(x.axes) == 1 and x.kind == "real" and x.data.shape == ():    # deviations do not see a constant shift
        P = x.data[()]; x = Arr(x.axes, _box(Poly({m: c for m, c in P.t.items() if "f0" in _lab(m)})), x.kind)
    n = F.lift(x.size); d = x - x.sumaxis(None) / n
    e = z3.simplify((d * d).sumaxis(None).v, som=True)
    if isconst(e): return F(e)
    c = ctx(); tbl = c.cache.setdefault("devsq", {}); k = e.sexpr()
    if k not in tbl:
        q = z3.Real(c.fresh("devsq")); c.axiom(q == e); c.axiom(q >= 0); tbl[k] = q
    return F(tbl[k])
def restrict_back(v, a):
    """values on a sub-axis seen as values on the parent (only used under the mask)"""
    if v.axes[0].root() is not a.root(): raise Unsupported("assignment from another axis")
    return Arr((a,), v.data, v.kind)

def _box(x):
    d = np.empty((), dtype=object); d[()] = x; return d

class IndexArr:
    """np.where(mask)[0]: the positions at which a mask holds."""
    def __init__(self, axis): self.axis = axis
    @property
    def shape(self): return (self.axis.sint(),)
    @property
    def size(self): return self.axis.sint()
    ndim = 1
    def __dvlen__(self): return self.axis.sint()
    def mask_on(self, a):
        P = Poly.const(Z1); x = self.axis
        while x.parent is not None and x is not a: P = P * x.ind; x = x.parent
        return Arr.from_poly((a,), P, "bool")
    def __getitem__(self, k):
        if isinstance(k, Arr) and k.kind == "bool": return IndexArr(subaxis(self.axis, k))
        raise Unsupported("indexing an index array")

class CatArr:
    """concatenation of one-dimensional arrays over different axes"""
    __array_priority__ = 2000
    __array_ufunc__ = None
    def __init__(self, parts): self.parts = parts
    def _m(self, f): return CatArr([f(p) for p in self.parts])
    def _b(self, o, f):
        if isinstance(o, CatArr):
            if len(o.parts) != len(self.parts) or any(a.axes != b.axes for a, b in zip(self.parts, o.parts)): raise Unsupported("misaligned concatenations")
            return CatArr([f(a, b) for a, b in zip(self.parts, o.parts)])
        if isinstance(o, Arr): raise Unsupported("mixing concatenated and plain arrays")
        return self._m(lambda a: f(a, o))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __neg__(self): return self._m(lambda a: -a)
    def __pow__(self, k): return self._m(lambda a: a ** k)
    def __getitem__(self, k):
        """prefix or suffix that ends at a boundary between the parts"""
        if isinstance(k, slice) and k.step is None:
            lo = 0 if k.start is None else self._cut(k.start); hi = len(self.parts) if k.stop is None else self._cut(k.stop)
            ps = self.parts[lo:hi]
            if len(ps) == 1: return ps[0]
            if ps: return CatArr(ps)
        raise Unsupported("indexing a concatenation")
    def _cut(self, n):
        tot = F(Z0)
        for j in range(len(self.parts) + 1):
            d = z3.simplify(F.lift(n).v - tot.v, som=True)
            if isz(d): return j
            if j < len(self.parts): tot = tot + F.lift(self.parts[j].shape[0])
        tot = F(Z0)
        for j in range(len(self.parts) + 1):
            if not ctx().feasible(F.lift(n).v != tot.v): return j
            if j < len(self.parts): tot = tot + F.lift(self.parts[j].shape[0])
        raise Unsupported("cut inside a part of a concatenation")
    @property
    def shape(self): return (self.__dvlen__(),)
    ndim = 1
    @property
    def size(self): return self.__dvlen__()
    def __dvlen__(self):
        r = 0
        for p in self.parts: r = r + p.shape[0]
        return r
    def sum(self, axis=None, **k):
        r = F(Z0)
        for p in self.parts: r = r + p.sumaxis(None)
        return r
    sumaxis = lambda self, axis=None, keepdims=False: self.sum()
    def mean(self, *a, **k): return self.sum() / F.lift(self.__dvlen__())
    def var(self, axis=None, ddof=0, **k):
        n = F.lift(self.__dvlen__()); n.np = True
        d = self - self.sum() / n
        return (d * d).sum() / (n - ddof)
    def std(self, axis=None, ddof=0, **k): return fsqrt(self.var(None, ddof))
    def copy(self): return CatArr([p.copy() for p in self.parts])
    def astype(self, t): return self
    __hash__ = None

def subaxis(a, mask):
    P = mask.data[()]
    if mask.axes[0] is not a:
        raise Unsupported("mask over a different axis")
    if P.isscalar() and z3.simplify(P.scalar()).eq(z3.RealVal(1)): return a      # every row is selected
    tbl = ctx().cache.setdefault("subaxes", {})
    k = (a.key, P.key())
    if k in tbl: return tbl[k]
    s = Axis(f"{a.name}|{len(tbl)}", parent=a, ind=P, size=Z0)
    s.size = P.sum("f0", a).scalar()
    s.key = str(k)
    tbl[k] = s
    return s

def lower(r):
    """no symbolic axes left -> scalar F or object ndarray of F"""
    if any(isinstance(a, Axis) for a in r.axes): return r
    k = [1 if a is None else a for a in r.axes]
    if not r.axes: return F(r.data[()].scalar())
    d = np.empty(r.data.shape, dtype=object)
    for ix in np.ndindex(d.shape): d[ix] = F(r.data[ix].scalar())
    return d.reshape(k)

def toarr(x):
    if isinstance(x, Arr): return x
    if isinstance(x, SBool):
        return Arr.from_poly((), Poly.const(rIte(x.e, Z1, Z0)), "bool")
    if F.can(x):
        f = F.lift(x)
        if not f.isfinite_const():
            bad = toB(bNot(f.fin()))
            if ctx().feasible(bad):
                if ctx().decide(bad): raise Unsupported("non-finite scalar combined with a symbolic array")
        return Arr.from_poly((), Poly.const(f.v), "bool" if isinstance(x, (bool, np.bool_)) else "real")
    if isinstance(x, (list, tuple)): x = np.asarray(x, dtype=object)
    if isinstance(x, np.ndarray):
        d = np.empty(x.shape, dtype=object)
        for ix in np.ndindex(x.shape):
            f = F.lift(x[ix])
            if not f.isfinite_const(): raise Unsupported("non-finite entry")
            d[ix] = Poly.const(f.v)
        return Arr(tuple(x.shape), d, "bool" if x.dtype == bool else "real")
    return None

def elementwise(f, *xs, kind="real"):
    nd = max(len(x.axes) for x in xs)
    axes = [None] * nd
    for x in xs:
        off = nd - len(x.axes)
        for k, a in enumerate(x.axes):
            j = off + k
            if a is None or a == 1: continue
            if axes[j] is None: axes[j] = a
            elif axes[j] is not a and axes[j] != a:
                raise Unsupported(f"shapes do not agree: {axes[j]} vs {a}")
    for j in range(nd):
        if axes[j] is None and any(len(x.axes) > j - nd + len(x.axes) >= 0 and x.axes[j - nd + len(x.axes)] == 1 for x in xs): axes[j] = 1
    cshape = [a for a in axes if isinstance(a, int)]
    out = np.empty(cshape, dtype=object)
    cpos = [j for j, a in enumerate(axes) if isinstance(a, int)]
    for ix in np.ndindex(*cshape):
        full = dict(zip(cpos, ix))
        ps = []
        for x in xs:
            off = nd - len(x.axes)
            idx = []
            for k in x.caxes:
                j = off + k
                idx.append(0 if x.axes[k] == 1 else full[j])
            P = x.data[tuple(idx)]
            if off: P = P.relabel({f"f{k}": f"f{k+off}" for k in range(len(x.axes))})
            ps.append(P)
        out[ix] = f(*ps)
    return lower(Arr(axes, out, kind)) if not any(isinstance(a, Axis) for a in axes) else Arr(axes, out, kind)

def matmul(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 or b.ndim == 0: raise ValueError("matmul: scalar operand")
    a1 = a.ndim == 1; b1 = b.ndim == 1
    A = a[None, :] if a1 else a
    B = b[:, None] if b1 else b
    if not isinstance(A, Arr): A = toarr(A)
    if not isinstance(B, Arr): B = toarr(B)
    p, q = A.axes[-1], B.axes[0]
    if not (p is q or p == q): raise Unsupported(f"matmul shapes {p} vs {q}")
    n, m = A.axes[0], B.axes[1]
    axes = (n, m)
    ca = [x for x in (n, m) if isinstance(x, int)]
    out = np.empty(ca, dtype=object)
    for ix in np.ndindex(*ca):
        it = iter(ix)
        i = next(it) if isinstance(n, int) else None
        j = next(it) if isinstance(m, int) else None
        acc = Poly()
        rng = range(p) if isinstance(p, int) else [None]
        for l in rng:
            ia = tuple(v for v, ax in ((i, A.axes[0]), (l, A.axes[1])) if isinstance(ax, int))
            ib = tuple(v for v, ax in ((l, B.axes[0]), (j, B.axes[1])) if isinstance(ax, int))
            PA = A.data[ia].relabel({"f1": "f9"}); PB = B.data[ib].relabel({"f0": "f9"})
            prod = PA * PB
            if not isinstance(p, int): prod = prod.sum("f9", p)
            acc = acc + prod
        out[ix] = acc
    r = Arr(axes, out)
    if a1 and b1: return F(r.data[()].scalar()) if not ca else lower(r)
    if a1: return lower(_squeeze(r, 0))
    if b1: return lower(_squeeze(r, 1))
    return lower(r)

def _squeeze(r, k):
    if isinstance(r.axes[k], int):
        r = Arr(r.axes, r.data, r.kind); ci = r.caxes.index(k)
        r = Arr(r.axes[:k] + (None,) + r.axes[k + 1:], np.take(r.data, 0, axis=ci) if r.data.ndim > 1 else r.data.reshape(-1)[:1].reshape(()), r.kind)
    axes = r.axes[:k] + r.axes[k + 1:]
    mp = {f"f{j}": f"f{j-1}" for j in range(k + 1, len(r.axes))}
    return Arr(axes, r.mapdata(lambda P: P.relabel(mp)) if mp else r.data, r.kind)

def freelabs(P):
    return sorted({l for m in P.t for l in _lab(m) if l.startswith("f")})

def opaque(fname, P, axes_of, **kw):
    """an elementwise function of a polynomial as a new atom"""
    fl = freelabs(P)
    if not fl:
        return None
    mp = {l: f"f{k}" for k, l in enumerate(fl)}
    Q = P.relabel(mp)
    nm = f"{fname}<{Q.key()}>"
    ctx().cache.setdefault("defs", {})[nm] = (fname, Q)
    at = atom(nm, [axes_of(l) for l in fl], **kw)
    return Poly({((nm, tuple(fl)),): Z1})

def unary(fname, x):
    x = toarr(x)
    def one(P):
        if P.isscalar():
            v = F(P.scalar())
            r = {"abs": abs, "sqrt": fsqrt, "exp": fexp, "log": flog}[fname](v)
            return Poly.const(r.v)
        if fname == "abs" and P.isind(): return P
        if fname == "sqrt" and P.isind(): return P
        return opaque(fname, P, lambda l: x.axes[int(l[1:])], nonneg=fname in ("abs", "sqrt", "exp"), pos=fname == "exp")
    return Arr(x.axes, x.mapdata(one))

def entry_value(P):
    """the value of a polynomial at one arbitrary index tuple (label f<k> = the arbitrary index of axis k): a z3 term, with the facts that
    hold of each factor there (indicators are 0/1, comparison and function atoms obey their definition)"""
    c = ctx(); A = atoms(); tbl = c.cache.setdefault("entries", {}); tot = Z0
    for m, co in P.t.items():
        term = co
        for comp in components(list(m)):
            if any(l.startswith("b") for l in _lab(comp)):
                key = ("part", canon(comp))
                if key not in tbl:
                    v = tbl[key] = z3.Real(c.fresh("part"))
                    if all(A[a].nonneg for a, ix in comp): c.axiom(v >= 0)
                term = mulz(term, tbl[key]); continue
            for a, ix in comp:
                key = (a, ix)
                if key not in tbl:
                    v = tbl[key] = z3.Real(c.fresh("at")); inf = A[a]
                    if inf.ind: c.axiom(z3.Or(v == 0, v == 1))
                    elif inf.pos: c.axiom(v > 0)
                    elif inf.nonneg: c.axiom(v >= 0)
                    if a.startswith("rcp:"):
                        w = entry_value(Poly({((a[4:], ix),): Z1})); c.axiom(z3.Implies(w != 0, v * w == 1))
                    if a in c.cache.get("defs", {}):
                        fn, Q = c.cache["defs"][a]; q = entry_value(Q.relabel({f"f{k}": l for k, l in enumerate(ix)}))
                        d = {"eq0": lambda: (v == 1) == (q == 0), "neg": lambda: (v == 1) == (q < 0), "abs": lambda: v == z3.If(q >= 0, q, -q), "pos": lambda: v == z3.If(q >= 0, q, Z0),
                             "recip": lambda: z3.Implies(q != 0, v * q == 1), "sqrt": lambda: z3.Implies(q >= 0, v * v == q)}.get(fn)
                        if d: c.axiom(d())
                        if fn.startswith("clip["):
                            lo, hi = (None if z == "None" else z3.RealVal(z) for z in fn[5:-1].split(",")); w = q
                            if hi is not None: w = z3.If(w > hi, hi, w)
                            if lo is not None: w = z3.If(w < lo, lo, w)
                            c.axiom(v == w)
                term = mulz(term, tbl[key])
        tot = tot + term
    return z3.simplify(tot)
def entry(x):
    x = toarr(x)
    if not x.data.shape: return F(entry_value(x.data[()]))
    d = np.empty(x.data.shape, dtype=object)
    for ix in np.ndindex(d.shape): d[ix] = F(entry_value(x.data[ix]))
    return d

def recip(x):
    if isinstance(x, np.ndarray):
        return 1 / x
    if not isinstance(x, Arr):
        f = F.lift(x)
        if ctx().feasible(toB(bOr(bNot(f.fin()), f.v == 0))):
            if ctx().decide(toB(bOr(bNot(f.fin()), f.v == 0))): raise Unsupported("division of an array by zero")
        return F(Z1 / f.v)
    def one(P):
        if P.isscalar():
            v = P.scalar()
            if ctx().feasible(v == 0):
                if ctx().decide(v == 0): raise Unsupported("division by zero entry")
            return Poly.const(Z1 / v)
        if len(P.t) == 1:
            (m, c), = P.t.items()
            if len(m) == 1 and not any(l.startswith("b") for l in m[0][1]):
                a, ix = m[0]
                if a.startswith("rcp:"): return Poly({((a[4:], ix),): Z1 / c})
                inf = atoms()[a]
                if not inf.pos: ctx().notes.add(f"array division: entries of {a[:40]} assumed non-zero")
                atom("rcp:" + a, inf.axes, pos=inf.pos)
                return Poly({(("rcp:" + a, ix),): z3.simplify(Z1 / c)})
        positive = not ctx().feasible(entry_value(P) <= 0, 500)
        if not positive: ctx().notes.add("array division: entries of the divisor assumed non-zero")
        return opaque("recip", P, lambda l: x.axes[int(l[1:])], pos=positive)
    return Arr(x.axes, x.mapdata(one))

def nonfinite(x):
    """'nan', '+' or '-' for a constant non-finite scalar"""
    if isinstance(x, SBool) or isinstance(x, Arr) or not F.can(x): return None
    f = F.lift(x)
    return "nan" if f.nan is True else "+" if f.pi is True else "-" if f.ni is True else None

def compare(op, a, b):
    for x, y, flip in ((a, b, False), (b, a, True)):
        if isinstance(x, Arr) and not isinstance(y, (str, Arr)) and nonfinite(y):      # entries of symbolic arrays are finite
            k = nonfinite(y); o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op) if flip else op
            r = k != "nan" and (o in ("<", "<=") if k == "+" else o in (">", ">="))
            return elementwise(lambda P: Poly.const(Z1 if r else Z0), x, kind="bool")
    a = toarr(a); b = toarr(b) if not isinstance(b, str) else None
    if b is None: raise Unsupported("comparison with a non-number")
    def one(P, Q):
        D = P + Q.neg()
        if D.isscalar():
            v = D.scalar()
            e = {"==": v == 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
            e = z3.simplify(e)
            return Poly.const(rIte(True if z3.is_true(e) else (False if z3.is_false(e) else e), Z1, Z0))
        # indicator-valued operand compared with a constant
        ind, cst = (P, Q) if Q.isscalar() else ((Q, P) if P.isscalar() else (None, None))
        if ind is not None and ind.isind():
            flip = ind is Q
            o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op) if flip else op
            c = cst.scalar()
            tr = lambda val: {"==": val == c, "<": val < c, "<=": val <= c, ">": val > c, ">=": val >= c}[o]
            w1, w0 = z3.simplify(tr(Z1)), z3.simplify(tr(Z0))
            f = lambda w: rIte(True if z3.is_true(w) else (False if z3.is_false(w) else w), Z1, Z0)
            return ind.scale(f(w1)) + (Poly.const(Z1) + ind.neg()).scale(f(w0))
        axof = lambda l: axes_for[l]
        hook = ctx().cache.get("compare_hook")
        if hook is not None:
            h = hook(op, P, Q, axof)
            if h is not None: return h
        # canonical forms: == symmetric;  a>=b is not(a<b); a>b is b<a
        if op == "==":
            k1, k2 = D.key(), D.neg().key()
            return opaque("eq0", D if k1 <= k2 else D.neg(), axof, ind=True)
        if op == "<": return opaque("neg", D, axof, ind=True)
        if op == ">": return opaque("neg", D.neg(), axof, ind=True)
        if op == ">=": return Poly.const(Z1) + opaque("neg", D, axof, ind=True).neg()
        if op == "<=": return Poly.const(Z1) + opaque("neg", D.neg(), axof, ind=True).neg()
    nd = max(a.ndim, b.ndim); axes_for = {}
    for x in (a, b):
        for k, ax in enumerate(x.axes):
            if isinstance(ax, Axis): axes_for[f"f{k + nd - x.ndim}"] = ax
    return elementwise(one, a, b, kind="bool")

def where(m, a, b):
    m, a, b = toarr(m), toarr(a), toarr(b)
    if m.kind != "bool": raise Unsupported("where on non-boolean")
    kind = "bool" if a.kind == "bool" and b.kind == "bool" else "real"
    return elementwise(lambda c, x, y: c * x + (Poly.const(Z1) + c.neg()) * y, m, a, b, kind=kind)

def anyall(x, isany):
    if x.kind != "bool": raise Unsupported("any/all of a non-boolean array")
    s = x.sumaxis(None)
    if isany: return s > 0
    n = F(Z1)
    for d in x.shape: n = n * d
    return s == n

def extremum(x, which):
    """max/min of a one-dimensional array: a constant m with  x_i <= m  kept as a pointwise fact"""
    c = ctx()
    if x.data.shape != (): raise Unsupported("extremum along a concrete axis")
    P = x.data[()]
    if P.isscalar(): return F(P.scalar())
    tbl = c.cache.setdefault("extrema", {})
    k = (which, tuple(a.key for a in x.axes), P.key())
    if k not in tbl:
        v = z3.Real(c.fresh(which)); tbl[k] = v
        if x.ndim == 1:
            n = x.axes[0].size
            S = P.sum("f0", x.axes[0]).scalar()
            c.axiom(n * v >= S if which == "max" else n * v <= S)   # mean is between the extremes
        if all(atoms()[a].nonneg for m in P.t for a, _ in m) and all(isconst(cc) and cc.as_fraction() >= 0 for cc in P.t.values()):
            c.axiom(v >= 0)
    return F(tbl[k])

def vec(name, axis, **kw):
    atom(name, (axis,), **kw)
    return Arr.from_poly((axis,), Poly({((name, ("f0",)),): Z1}), "bool" if kw.get("boolean") else "real")
def binary(name, axis, as_bool=False):
    atom(name, (axis,), ind=True)
    return Arr.from_poly((axis,), Poly({((name, ("f0",)),): Z1}), "bool" if as_bool else "real")
def mat(name, a1, a2):
    atom(name, (a1, a2))
    return Arr.from_poly((a1, a2), Poly({((name, ("f0", "f1")),): Z1}))
def onehot(name, axis, groups):
    atom(name, (axis, groups), ind=True, onehot=True)
    return Arr.from_poly((axis, groups), Poly({((name, ("f0", "f1")),): Z1}))

def inverse(Aarr):
    """inverse of a square matrix over a symbolic axis (assumed non-singular): an opaque matrix keyed by the
    normal form of its argument; symmetric when the argument is"""
    if Aarr.ndim != 2 or Aarr.axes[0] is not Aarr.axes[1]: raise Unsupported("inverse of a non-square matrix")
    P = Aarr.data[()]
    sym = P.key() == P.relabel({"f0": "f1", "f1": "f0"}).key()
    nm = f"inv<{P.key()}>"
    ctx().notes.add("numpy.linalg.solve/inv: exact inverse of a non-singular matrix (singular input raises LinAlgError)")
    a = atom(nm, Aarr.axes, sym=sym)
    return Arr.from_poly(Aarr.axes, Poly({((nm, ("f0", "f1")),): Z1}))

def polyeq(a, b):
    """list of (scalar z3) equalities sufficient for a == b; None when normal forms differ structurally"""
    a, b = toarr(a), toarr(b)
    d = elementwise(lambda x, y: x + y.neg(), a, b)
    goals = []
    if isinstance(d, F): return [d.v == 0]
    if isinstance(d, np.ndarray):
        return [F.lift(v).v == 0 for v in d.ravel()]
    for ix in np.ndindex(d.data.shape):
        for m, c in d.data[ix].t.items(): goals.append(c == 0)
    return goals

def panel_facts(rules, zero=(), sums=None):
    """facts about a panel, used as rewrite rules of the normal form.
    rules: {(atom p, atom q): [replacement factors as functions of (label of p's 2nd index, of q's 2nd index or None)]} for
           sum_i p[i,u] q[i,(t)]  (i bound and nowhere else);  zero: pairs whose contraction vanishes;
    sums: {atom: value of its full contraction} (also 0-ary constants)."""
    c = ctx(); c.cache.setdefault("known_sums", {}).update(sums or {})
    single = {k: v for k, v in rules.items() if isinstance(k, str)}
    pairs = {k: v for k, v in rules.items() if not isinstance(k, str)}
    def bal(facs):
        cnt = {}
        for a, ix in facs:
            for l in ix: cnt[l] = cnt.get(l, 0) + 1
        # unit atoms 'one:' disappear when their label is free or is used elsewhere
        for k, (a, ix) in enumerate(facs):
            if a.startswith("one:") and (ix[0].startswith("f") or cnt[ix[0]] > 1): return facs[:k] + facs[k + 1:]
        for k, (a, ix) in enumerate(facs):
            if a in single:
                return facs[:k] + single[a](ix) + facs[k + 1:]
        for p in range(len(facs)):
            (a, ix) = facs[p]
            if not ix or not ix[0].startswith("b") or cnt[ix[0]] != 2: continue
            for q in range(len(facs)):
                (b, jx) = facs[q]
                if q == p or not jx or jx[0] != ix[0]: continue
                if (a, b) in zero: return "zero"
                if (a, b) in pairs:
                    return [f for t, f in enumerate(facs) if t not in (p, q)] + pairs[(a, b)](ix, jx)
        return facs
    c.cache["balanced"] = bal
