"""Frame contracts by ownership: a modular abstract interpretation of every function of the library, re-done from the
current source on every run.

Value = (ident, content, kind): `ident` = what the object itself may be, `content` = what objects reachable from it may be,
as sets of roots  p:<parameter>  a:<attribute of self>  g:<module global>  (empty set = created here, owned).
Each function gets a summary (contract): the roots it may write, what it returns, what it stores in attributes; callers use
the summary.  Every write in the library is one obligation: its target is owned, or is in the function's declared frame
(public functions and methods: nothing but self's own state).  Third-party calls are trusted to write only what WRITES lists.
"""
import ast, os, glob

FRESH = (frozenset(), frozenset(), "any")
# methods that write their receiver
WRITES = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "fill", "put", "itemset", "partition", "resize", "setflags", "set_index_inplace", "itemset", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__", "appendleft", "popleft", "move_to_end"}
LISTY = {"append", "extend", "insert", "remove", "clear", "reverse", "setdefault", "popitem", "add", "discard", "difference_update", "intersection_update", "appendleft", "popleft"}
DFW = {"insert", "pop", "update"}      # mutators of a DataFrame
# numpy functions that write their first argument
NPW = {"fill_diagonal", "copyto", "put", "place", "putmask", "put_along_axis", "shuffle", "shuffle_inplace", "setattr", "heappush", "heappop", "heapify", "delattr"}
# functions/methods whose result may share memory with the receiver / first argument
VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "to_numpy", "get", "items", "values", "keys", "setdefault", "pop", "diagonal", "__getitem__", "popitem"}
VIEW_ATTRS = {"T", "values", "flat", "real", "array", "iloc", "loc", "at", "iat", "_values"}
VIEW_FUNCS = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "ravel", "reshape", "squeeze", "transpose", "broadcast_to", "ascontiguousarray", "asfortranarray", "cast", "iter", "reversed", "enumerate", "zip", "next", "getattr", "broadcast_arrays", "vars", "expand_dims", "diagonal", "swapaxes", "moveaxis"}
SHALLOW = {"list", "dict", "tuple", "set", "sorted", "copy", "frozenset", "defaultdict", "OrderedDict", "deque", "replace", "filter", "map"}
RNG_OK = {"default_rng", "Generator", "SeedSequence", "RandomState", "PCG64", "Philox", "MT19937", "SFC64", "BitGenerator"}
SCALARS = {"int", "float", "bool", "str", "bytes", "complex", "None", "Callable", "Number"}

def kind_of(ann):
    if ann is None: return "any"
    s = ast.unparse(ann).replace("typing.", "").replace("'", "").replace('"', "")
    for p in ("Optional[", "Union["):
        while s.startswith(p) and s.endswith("]"): s = s[len(p):-1]
    parts = [x.strip() for x in split_top(s)]
    parts = [x for x in parts if x != "None"]
    if parts and all(x.split("[")[0] in SCALARS or x.startswith("Literal[") for x in parts): return "imm"
    if parts and all(x in ("pd.DataFrame", "DataFrame", "pd.Series", "Series") for x in parts): return "df"
    return "any"
def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "[": d += 1
        if ch == "]": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        elif ch == "|" and d == 0: out.append(cur); cur = ""
        else: cur += ch
    return out + [cur]

def join(*vs):
    vs = [v for v in vs if v is not None]
    if not vs: return FRESH
    ks = {v[2] for v in vs if v[2] != "none"}; k = ks.pop() if len(ks) == 1 else ("none" if not ks else "any")
    return (frozenset().union(*[v[0] for v in vs]), frozenset().union(*[v[1] for v in vs]), k)
def inside(v):                       # an element of v
    return (v[1], v[1], "any")
def holder(*vs):                     # a new container of vs
    return (frozenset(), frozenset().union(*[v[0] | v[1] for v in vs]) if vs else frozenset(), "any")

class Site:
    __slots__ = ("fn", "line", "text", "roots", "why")
    def __init__(self, fn, line, text, roots, why): self.fn, self.line, self.text, self.roots, self.why = fn, line, text, roots, why

class Func:
    def __init__(self, mod, cls, node, parent=None):
        self.mod, self.cls, self.node, self.parent = mod, cls, node, parent
        self.name = (cls + "." if cls else "") + (parent.name.split(".")[-1] + "." if parent is not None else "") + node.name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]; self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None; self.kwarg = a.kwarg.arg if a.kwarg else None
        self.kinds = {x.arg: kind_of(x.annotation) for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.rkind = kind_of(node.returns)
        deco = [ast.unparse(d) for d in node.decorator_list]
        self.static = any("staticmethod" in d for d in deco); self.prop = any("property" in d or "cached_property" in d for d in deco)
        self.is_method = cls is not None and not self.static and parent is None
        self.summ = {}               # inplace flag -> (writes: roots, ret value)
    def sig(self): return f"{self.mod}.{self.name}"
    @property
    def public(self):
        parts = self.name.split(".")
        return self.parent is None and (not parts[-1].startswith("_") or parts[-1] in ("__init__", "__post_init__", "__call__")) and not (self.cls or "").startswith("_")

class Lib:
    def __init__(self, repo, skip=("visualization", "_backend", "__init__")):
        self.mods = {}; self.funcs = {}; self.classes = {}; self.attr_taint = {}; self.attr_kinds = {}; self.globals = {}; self.imports = {}; self.rng = []; self.sites = {}; self.errors = []; self.entropy = []
        self.bymeth = {}; self.fnfields = {}
        for path in sorted(glob.glob(os.path.join(repo, "diff_diff", "*.py"))):
            m = os.path.basename(path)[:-3]
            if m in skip: continue
            tree = ast.parse(open(path, encoding="utf-8").read()); self.mods[m] = tree; self.imports[m] = {}; self.globals[m] = {}
            for n in tree.body:
                if isinstance(n, (ast.FunctionDef,)): self.add(Func(m, None, n))
                elif isinstance(n, ast.ClassDef):
                    self.classes[(m, n.name)] = n
                    for b in n.body:
                        if isinstance(b, ast.FunctionDef): self.add(Func(m, n.name, b))
                elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name): self.globals[m][x.id] = n.value
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom) and n.module:
                    for a in n.names: self.imports[m][a.asname or a.name] = (n.module, a.name)
                elif isinstance(n, ast.Import):
                    for a in n.names: self.imports[m][a.asname or a.name.split(".")[0]] = (a.name, None)
        self.setters = {f.sig() for f in self.funcs.values() if f.name.endswith(".set_params")}
        refs = {}                    # attribute name -> functions that mention it
        for f in self.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute): refs.setdefault(n.attr, set()).add(f.sig())
        for _ in range(3):
            for f in self.funcs.values():
                nm = f.name.split(".")[-1]; u = refs.get(nm, set()) - {f.sig()}
                if f.cls and nm.startswith("_") and not nm.startswith("__") and u and u <= self.setters: self.setters.add(f.sig())
        for rounds in range(12):
            before = self.state()
            self.sites = {}; self.rng = []; self.entropy = []
            for f in list(self.funcs.values()): self.analyse(f)
            if self.state() == before: break
        else: self.errors.append("frame contracts did not stabilise")
    def add(self, f):
        self.funcs[(f.mod, f.name)] = f
        if f.cls: self.bymeth.setdefault(f.node.name, []).append(f)
    def setter(self, f):
        """set_params and the private helpers only it uses"""
        return f.sig() in self.setters
    def state(self): return repr(sorted((k, sorted((str(i), sorted(w), r) for i, (w, r) in f.summ.items())) for k, f in self.funcs.items())) + repr(sorted((k, sorted(v)) for k, v in self.attr_taint.items())) + repr(sorted((k, sorted(v)) for k, v in self.attr_kinds.items()))
    # ---- name resolution
    def resolve(self, mod, name):
        if (mod, name) in self.funcs: return self.funcs[(mod, name)]
        im = self.imports[mod].get(name)
        if im and im[0].startswith("diff_diff.") and im[1]:
            m2 = im[0].split(".")[1]
            if m2 in self.mods: return self.resolve(m2, im[1]) if (m2, im[1]) in self.funcs or im[1] in self.imports[m2] else None
        return None
    def resolve_class(self, mod, name):
        if (mod, name) in self.classes: return (mod, name)
        im = self.imports[mod].get(name)
        if im and im[0].startswith("diff_diff") and im[1]:
            m2 = im[0].split(".")[1] if "." in im[0] else None
            if m2 in self.mods and (m2, im[1]) in self.classes: return (m2, im[1])
            if m2 in self.mods and im[1] in self.imports[m2]: return self.resolve_class(m2, im[1])
            for (m, c) in self.classes:
                if c == im[1]: return (m, c)
        return None
    def mro(self, mod, cls):
        out, todo = [], [(mod, cls)]
        while todo:
            k = todo.pop(0)
            if k in out or k not in self.classes: continue
            out.append(k)
            for b in self.classes[k].bases:
                r = self.resolve_class(k[0], b.id) if isinstance(b, ast.Name) else None
                if r: todo.append(r)
        return out
    def methods(self, mod, cls, name):
        """the method in the class or its ancestors, and every override in subclasses or mixin users"""
        out = []
        for k in self.mro(mod, cls):
            if (k[0], k[1] + "." + name) in self.funcs: out.append(self.funcs[(k[0], k[1] + "." + name)]); break
        for k in self.classes:
            if k != (mod, cls) and (mod, cls) in self.mro(*k):
                f = next((self.funcs[(a, b + "." + name)] for a, b in self.mro(*k) if (a, b + "." + name) in self.funcs), None)
                if f and f not in out: out.append(f)
        return out
    def is_prop(self, mod, cls, name): return any(f.prop for f in self.methods(mod, cls, name))
    # ---- analysis of one function
    def analyse(self, f):
        flags = [None]
        if flag_of(f): flags = [True, False]
        for fl in flags:
            an = Analyser(self, f, fl); an.run()
            f.summ[fl] = (frozenset(an.writes), an.ret)
    def summary(self, f, flag):
        if not f.summ: return (frozenset(), FRESH)
        if None in f.summ: return f.summ[None]
        if flag in f.summ: return f.summ[flag]
        a, b = f.summ.get(True, (frozenset(), FRESH)), f.summ.get(False, (frozenset(), FRESH))
        return (a[0] | b[0], join(a[1], b[1]))

FLAGS = ("inplace", "in_place", "copy", "make_copy", "copy_data", "overwrite")
def flag_of(f):
    """the parameter that decides whether the caller's object is written (each of its two values has its own frame)"""
    return next((p for p in f.params + f.kwonly if p in FLAGS), None)
class Analyser:
    def __init__(self, lib, f, inplace, env=None):
        self.lib, self.f, self.inplace = lib, f, inplace; self.flag = flag_of(f); self.writes = set(); self.ret = None; self.nested = {}; self.local = set()
        self.env = dict(env or {})
        for i, p in enumerate(f.params + f.kwonly):
            if i == 0 and f.is_method: self.env[p] = (frozenset(["self"]), frozenset(["self"]), "self"); self.selfname = p
            else:
                k = f.kinds.get(p, "any"); r = frozenset() if k == "imm" else frozenset(["p:" + p])
                self.env[p] = (r, r, k)
        if not f.is_method: self.selfname = None if env is None else getattr(self, "selfname", None)
        if f.vararg: self.env[f.vararg] = (frozenset(), frozenset(["p:*" + f.vararg]), "any")
        if f.kwarg: self.env[f.kwarg] = (frozenset(), frozenset(["p:*" + f.kwarg]), "any")
        self.globalnames = set()
        # a mutable default object is shared between calls
        a = f.node.args; pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and not (isinstance(d.func, ast.Name) and d.func.id in ("float", "int", "tuple", "frozenset", "str", "bool")):
                v = self.env[x.arg]; self.env[x.arg] = (v[0] | {"d:" + x.arg}, v[1] | {"d:" + x.arg}, v[2])
    def run(self):
        self.block(self.f.node.body)
        if self.ret is None: self.ret = FRESH
    def write(self, v, node, why, deep=False):
        roots = v[0] if not deep else v[0] | v[1]
        if v[2] == "imm": return
        roots = frozenset(r for r in roots)
        out = set()
        for r in roots:
            if r.startswith("a:") : out.add(r)
            else: out.add(r)
        self.writes |= out
        key = (self.f.sig(), self.inplace, node.lineno, getattr(node, "col_offset", 0), why)
        try: txt = ast.unparse(node)[:100].split("\n")[0]
        except Exception: txt = why
        s = self.lib.sites.get(key)
        self.lib.sites[key] = Site(self.f, node.lineno, txt, (s.roots if s else frozenset()) | out, why)
    # ---- statements
    def block(self, body):
        """returns True when the end cannot be reached"""
        for s in body:
            if self.stmt(s): return True
        return False
    def branch(self, bodies):
        base = self.env; outs = []
        for b in bodies:
            self.env = dict(base)
            if not self.block(b): outs.append(self.env)
        if not outs: self.env = base; return True
        keys = set().union(*outs); self.env = {k: join(*[o[k] for o in outs if k in o]) for k in keys}
        return False
    def cond(self, t):
        """known truth value of a test on the inplace flag"""
        if isinstance(t, ast.Constant) and isinstance(t.value, bool): return t.value
        if self.inplace is None: return None
        if isinstance(t, ast.Name) and t.id == self.flag: return self.inplace
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            c = self.cond(t.operand); return None if c is None else not c
        return None
    def flagval(self, e):
        v = self.cond(e); return "?" if v is None else v
    def stmt(self, s):
        E = self.expr
        if isinstance(s, ast.Expr): E(s.value)
        elif isinstance(s, ast.Assign):
            v = E(s.value)
            for t in s.targets: self.assign(t, v, s, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = E(s.value)
                if v[2] == "any" and kind_of(s.annotation) != "any": v = (v[0], v[1], kind_of(s.annotation))
                self.assign(s.target, v, s, s.value)
        elif isinstance(s, ast.AugAssign):
            v = E(s.value); t = s.target
            if isinstance(t, ast.Name):
                cur = self.env.get(t.id, FRESH)
                scal = isinstance(s.value, ast.Constant) and not isinstance(s.value.value, (str,)) and cur[2] in ("imm",)
                if t.id in self.globalnames: self.write((frozenset(["g:" + t.id]), frozenset(), "any"), s, "rebinds a global")
                elif cur[2] != "imm" and not scal and cur[0]: self.write(cur, s, "augmented assignment")
                self.env[t.id] = join(cur, (frozenset(), v[1] | v[0] if cur[2] != "df" else frozenset(), cur[2])) if cur[0] else (frozenset(), cur[1] | ((v[0] | v[1]) if isinstance(s.op, ast.Add) and v[2] != "df" else frozenset()), cur[2])
            else: self.store(t, v, s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)): self.store(t, FRESH, s)
        elif isinstance(s, ast.Return):
            v = E(s.value) if s.value is not None else FRESH
            self.ret = v if self.ret is None else join(self.ret, v); return True
        elif isinstance(s, ast.Raise):
            if s.exc is not None: E(s.exc)
            return True
        elif isinstance(s, (ast.Break, ast.Continue)): self.loopexit.append(dict(self.env)); return True
        elif isinstance(s, ast.If):
            E(s.test); c = self.cond(s.test)
            if c is True: return self.block(s.body)
            if c is False: return self.block(s.orelse)
            # isinstance tests and None tests keep both branches
            return self.branch([s.body, s.orelse])
        elif isinstance(s, (ast.For, ast.While)):
            it = None
            if isinstance(s, ast.For): it = E(s.iter)
            saved = getattr(self, "loopexit", None); base = dict(self.env)
            for _ in range(4):
                self.loopexit = []; start = dict(self.env)
                if it is not None: self.assign(s.target, inside(it) if not self.scalar_iter(s.iter) else (frozenset(), frozenset(), "imm"), s, None)
                else: E(s.test)
                ended = self.block(s.body); outs = [start] + self.loopexit + ([] if ended else [self.env])
                keys = set().union(*outs); new = {k: join(*[o[k] for o in outs if k in o]) for k in keys}
                stable = new == start; self.env = new
                if stable: break
            self.loopexit = saved if saved is not None else []
            if s.orelse: self.block(s.orelse)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = E(i.context_expr)
                if i.optional_vars is not None: self.assign(i.optional_vars, v, s, None)
            return self.block(s.body)
        elif isinstance(s, ast.Try):
            base = dict(self.env); self.block(s.body); after = self.env
            mid = {k: join(*[o[k] for o in (base, after) if k in o]) for k in set(base) | set(after)}; outs = [after]
            for h in s.handlers:
                self.env = dict(mid)
                if h.name: self.env[h.name] = FRESH
                if not self.block(h.body): outs.append(self.env)
            self.env = {k: join(*[o[k] for o in outs if k in o]) for k in set().union(*outs)}
            self.block(s.orelse); self.block(s.finalbody)
        elif isinstance(s, (ast.FunctionDef,)):
            nf = Func(self.f.mod, None, s, parent=self.f); self.nested[s.name] = nf; self.env[s.name] = FRESH
            an = Analyser(self.lib, nf, None, env={k: v for k, v in self.env.items()})
            an.nested = dict(self.nested); an.selfname = self.selfname; an.f = nf; nf.cls_ctx = getattr(self.f, "cls_ctx", self.f.cls); an.run()
            nf.summ[None] = (frozenset(an.writes), an.ret)
            own = {"p:" + p for p in nf.params + nf.kwonly}
            outer = {w for w in an.writes if w not in own}
            if outer: self.writes |= outer
        elif isinstance(s, (ast.Global, ast.Nonlocal)):
            if isinstance(s, ast.Global): self.globalnames |= set(s.names)
        elif isinstance(s, ast.Assert): E(s.test)
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass)): pass
        elif isinstance(s, ast.ClassDef): pass
        else: self.lib.errors.append(f"{self.f.sig()}:{s.lineno} statement {type(s).__name__} not understood")
        return False
    def scalar_iter(self, it):
        return isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range"
    loopexit = []
    def assign(self, t, v, s, valnode):
        if isinstance(t, ast.Name):
            if t.id in self.globalnames: self.write((frozenset(["g:" + t.id]), frozenset(), "any"), s, "rebinds a global"); return
            self.env[t.id] = v
            if valnode is not None and isinstance(valnode, ast.Lambda): self.lam(t.id, valnode)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = valnode.elts if isinstance(valnode, (ast.Tuple, ast.List)) and len(valnode.elts) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts) else None
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred): e = e.value
                self.assign(e, self.expr(vals[i]) if vals else (v[3][i] if len(v) > 3 else inside(v)), s, vals[i] if vals else None)
        else: self.store(t, v, s)
    def lam(self, name, node):
        fd = ast.FunctionDef(name=name, args=node.args, body=[ast.Return(value=node.body, lineno=node.lineno, col_offset=0)], decorator_list=[], returns=None, lineno=node.lineno, col_offset=0)
        self.stmt(fd)
    def store(self, t, v, s):
        """t[...] = v, t.attr = v (or augmented / deleted)"""
        if isinstance(t, ast.Starred): t = t.value
        if isinstance(t, ast.Name): self.env[t.id] = v; return
        base = self.expr(t.value)
        if isinstance(t, ast.Subscript): self.expr(t.slice)
        if isinstance(t, ast.Attribute) and base[2] == "self":
            # set_params stores what the constructor would store: the kinds come from the constructor
            if not self.lib.setter(self.f): self.lib.attr_kinds.setdefault(t.attr, set()).add(v[2])
            taint = {r for r in v[0] | v[1] if r.startswith(("p:", "d:"))} if v[2] not in ("imm",) else set()
            if isinstance(s, ast.AugAssign):      # self.x += v may write the object in place
                cur = self.attr(t.attr)
                if cur[0] and not (isinstance(s.value, ast.Constant)): self.write(cur, s, "augmented assignment to an attribute")
            if taint: self.lib.attr_taint.setdefault(t.attr, set()).update((self.f.sig(), r) for r in taint)
            return
        # in pandas (copy on write) .loc/.iloc stores reach the frame itself; .values of a frame is a view
        self.write(base, s, "store")
        # the container now also holds v
        n = t.value
        while isinstance(n, (ast.Subscript, ast.Attribute)): n = n.value
        if isinstance(n, ast.Name) and n.id in self.env and base[2] != "df":
            b = self.env[n.id]
            if b[2] not in ("self", "df", "imm"): self.env[n.id] = (b[0], b[1] | (v[0] | v[1] if v[2] not in ("imm", "df") or v[2] == "df" else frozenset()), b[2])
    def attr(self, name):
        k = self.lib.attr_kinds.get(name)
        if k and k <= {"imm", "none"}: return (frozenset(), frozenset(), "imm")
        return (frozenset(["a:" + name]), frozenset(["a:" + name]), "any")
    # ---- expressions
    def expr(self, e):
        L = self.lib; E = self.expr
        if e is None: return FRESH
        if isinstance(e, ast.Constant): return (frozenset(), frozenset(), "none" if e.value is None else "imm")
        if isinstance(e, ast.Name):
            if e.id in self.env: return self.env[e.id]
            if e.id in L.globals[self.f.mod] and e.id not in L.imports[self.f.mod]:
                g = L.globals[self.f.mod][e.id]
                if isinstance(g, (ast.Dict, ast.List, ast.Set, ast.Call, ast.ListComp, ast.DictComp)): return (frozenset(["g:" + e.id]), frozenset(["g:" + e.id]), "any")
                return FRESH
            im = L.imports[self.f.mod].get(e.id)
            if im and im[0].startswith("diff_diff.") and im[1]:
                m2 = im[0].split(".")[1]
                if m2 in L.globals and isinstance(L.globals[m2].get(im[1]), (ast.Dict, ast.List, ast.Set, ast.Call)): return (frozenset(["g:" + im[1]]), frozenset(["g:" + im[1]]), "any")
            return FRESH
        if isinstance(e, ast.Attribute):
            self.rngcheck(e)
            b = E(e.value)
            if b[2] == "self":
                cls = self.f.cls or getattr(self.f, "cls_ctx", None)
                if cls and L.is_prop(self.f.mod, cls, e.attr):
                    out = FRESH
                    for m in L.methods(self.f.mod, cls, e.attr): out = join(out, L.summary(m, None)[1])
                    return out
                return self.attr(e.attr)
            if b[2] == "df":
                if e.attr in ("columns", "index", "shape", "dtypes", "empty", "size", "ndim", "name"): return FRESH
                return (b[0], b[1], "arr" if e.attr in ("values", "array", "T") else "df")
            if e.attr in ("shape", "dtype", "size", "ndim"): return (frozenset(), frozenset(), "imm")
            return (b[0] | b[1] if e.attr in VIEW_ATTRS else b[1], b[1], "any")
        if isinstance(e, ast.Subscript):
            b = E(e.value); E(e.slice)
            if b[2] == "df": # copy on write: a selection is a new object (a bare .loc/.iloc handle is not a subscript)
                return (frozenset(), frozenset(), "df" if True else "any")
            if b[2] == "imm": return (frozenset(), frozenset(), "imm")
            if b[2] == "arr": return (b[0], b[1], "arr")
            return (b[0] | b[1] if isinstance(e.slice, (ast.Slice, ast.Tuple)) else b[1] | b[0], b[1], "any")
        if isinstance(e, ast.Call): return self.call(e)
        if isinstance(e, ast.IfExp):
            E(e.test); c = self.cond(e.test)
            if c is True: return E(e.body)
            if c is False: return E(e.orelse)
            return join(E(e.body), E(e.orelse))
        if isinstance(e, ast.BoolOp): return join(*[E(v) for v in e.values])
        if isinstance(e, ast.NamedExpr): v = E(e.value); self.assign(e.target, v, e, e.value); return v
        if isinstance(e, (ast.List, ast.Set)): return holder(*[E(x) for x in e.elts])
        if isinstance(e, ast.Tuple):
            vs = [E(x) for x in e.elts]; h = holder(*vs)
            return h + (vs,) if not any(isinstance(x, ast.Starred) for x in e.elts) and False else h
        if isinstance(e, ast.Dict): return holder(*[E(x) for x in e.values], *[E(k) for k in e.keys if k is not None])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                it = E(g.iter); self.assign(g.target, inside(it) if not self.scalar_iter(g.iter) else (frozenset(), frozenset(), "imm"), e, None)
                for c in g.ifs: E(c)
            v = holder(E(e.value), E(e.key)) if isinstance(e, ast.DictComp) else holder(E(e.elt))
            self.env = saved; return v
        if isinstance(e, ast.Starred): return E(e.value)
        if isinstance(e, ast.Lambda):
            saved = dict(self.env)
            for a in e.args.args: self.env[a.arg] = FRESH
            E(e.body); self.env = saved; return FRESH
        if isinstance(e, ast.BinOp):
            a, b = E(e.left), E(e.right)      # list + list shares elements; arithmetic makes new objects
            if isinstance(e.op, (ast.Add, ast.BitOr)) and "df" not in (a[2], b[2]) and "imm" not in (a[2], b[2]): return (frozenset(), a[1] | b[1], "any")
            return (frozenset(), frozenset(), "imm" if a[2] == b[2] == "imm" else "any")
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr): E(c)
        return (frozenset(), frozenset(), "imm") if isinstance(e, (ast.Compare, ast.JoinedStr, ast.FormattedValue)) else FRESH
    def rngcheck(self, e):
        """np.random.<name>: only constructors of explicit generators"""
        s = dotted(e)
        if not s: return
        head = s.split(".")[0]; im = self.lib.imports[self.f.mod].get(head)
        full = s
        if im: full = (im[0] + ("." + im[1] if im[1] else "")) + s[len(head):]
        if full.startswith("numpy.random."):
            self.lib.rng.append((self.f.sig(), e.lineno, full, full.split(".")[2] in RNG_OK))
        elif full.split(".")[0] in ("random", "secrets", "uuid") and im: self.lib.rng.append((self.f.sig(), e.lineno, full, False))
    def call(self, c):
        L = self.lib; E = self.expr; fn = c.func
        args = [E(a) for a in c.args]; kws = {k.arg: E(k.value) for k in c.keywords}
        allv = args + list(kws.values())
        flag = None
        for k in c.keywords:
            if k.arg == "inplace":
                flag = self.flagval(k.value)
        # --- library functions
        targets, recv = [], None
        if isinstance(fn, ast.Name):
            if fn.id in self.nested: targets = [self.nested[fn.id]]
            elif fn.id not in self.env:
                t = L.resolve(self.f.mod, fn.id)
                if t is not None: targets = [t]
                else:
                    k = L.resolve_class(self.f.mod, fn.id)
                    if k is not None:
                        t = next((L.funcs[(a, b + ".__init__")] for a, b in L.mro(*k) if (a, b + ".__init__") in L.funcs), None)
                        if t is not None:
                            self.apply(t, [holder()] + args, kws, c, flag); return holder(*allv)
                        return holder(*allv)
            im = L.imports[self.f.mod].get(fn.id)
            if im and im[0].startswith("numpy.random") or fn.id in ("urandom",): L.rng.append((self.f.sig(), c.lineno, (im or ("os",))[0] + "." + fn.id, fn.id in RNG_OK))
        elif isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                cls = self.f.cls or getattr(self.f, "cls_ctx", None)
                for k in L.mro(self.f.mod, cls)[1:] if cls else []:
                    if (k[0], k[1] + "." + fn.attr) in L.funcs: targets = [L.funcs[(k[0], k[1] + "." + fn.attr)]]; break
                recv = self.env.get(self.selfname, FRESH); 
            else:
                recv = E(fn.value)
                if recv[2] == "self" and (self.f.cls or getattr(self.f, "cls_ctx", None)):
                    targets = L.methods(self.f.mod, self.f.cls or self.f.cls_ctx, fn.attr)
                    if not targets:      # a mixin calls a method of its user
                        targets = [f for f in L.bymeth.get(fn.attr, [])]
                elif isinstance(fn.value, ast.Name) and fn.value.id not in self.env and L.resolve_class(self.f.mod, fn.value.id):
                    k = L.resolve_class(self.f.mod, fn.value.id); targets = [f for f in L.methods(*k, fn.attr)]
                    if targets and not targets[0].static: recv = None
                elif fn.attr in L.bymeth and fn.attr not in ("get", "copy", "items", "values", "keys", "append", "fit", "predict", "update", "plot", "power", "summary", "mean") and not dotted(fn).startswith(("np.", "pd.", "stats.")):
                    targets = L.bymeth[fn.attr]
                elif fn.attr in ("fit", "predict", "power") and recv is not None and fn.attr in L.bymeth: targets = L.bymeth[fn.attr]
        if targets:
            out = []
            for t in targets:
                a = ([recv] if t.is_method and recv is not None else []) + args
                out.append(self.apply(t, a, kws, c, flag))
            return join(*out)
        # --- third-party calls
        self.rngcheck(fn) if isinstance(fn, ast.Attribute) else None
        name = fn.attr if isinstance(fn, ast.Attribute) else (fn.id if isinstance(fn, ast.Name) else "")
        d = dotted(fn)
        if recv is not None and recv[2] == "self" and not targets: pass
        if "out" in kws: self.write(kws["out"], c, "out=")
        first = args[0] if args else FRESH
        isfunc = not isinstance(fn, ast.Attribute) or d.split(".")[0] in L.imports[self.f.mod] and d.split(".")[0] not in self.env
        if isfunc:
            for fl in ("overwrite_a", "overwrite_b", "overwrite_x", "overwrite_y"):
                for k in c.keywords:
                    if k.arg == fl and not (isinstance(k.value, ast.Constant) and not k.value.value): self.write(join(*args), c, fl)
            if name in NPW: self.write(first, c, name)
            if name in ("DataFrame", "Series", "Index"): return (frozenset(), frozenset(), "df" if name == "DataFrame" else "any")
            if name in ("array",):
                cp = next((k.value for k in c.keywords if k.arg == "copy"), None)
                if cp is not None and not (isinstance(cp, ast.Constant) and cp.value is True): return (first[0] | first[1], first[1], "any")
                return FRESH
            if name in VIEW_FUNCS:
                j = join(*args) if args else FRESH
                return (j[0] | (j[1] if name in ("enumerate", "zip", "iter", "reversed", "next", "getattr", "vars") else frozenset()), j[0] | j[1], "any" if j[2] in ("df", "self", "imm", "none") else j[2])
            if name in SHALLOW: return (frozenset(), (first[0] | first[1]) if first[2] == "arr" or name in ("map", "filter", "replace") else first[1] , "any") if first[2] != "df" else FRESH
            if name == "deepcopy": return FRESH
            if name in ("setattr", "delattr"):
                if first[2] == "self": 
                    taint = {r for r in (args[2][0] | args[2][1] if len(args) > 2 else ()) if r.startswith("p:")}
                    if taint: L.attr_taint.setdefault("*", set()).update((self.f.sig(), r) for r in taint)
                else: self.write(first, c, name)
                return FRESH
            if name in ("min", "max", "sum", "len", "abs", "round", "float", "int", "str", "bool", "repr", "isinstance", "hasattr", "any", "all"): return (frozenset(), frozenset(), "imm")
            return FRESH
        # method of some object
        if recv is None: return FRESH
        if name == "sample" and "random_state" not in kws and recv[2] in ("df", "any"): L.rng.append((self.f.sig(), c.lineno, "sample() without random_state", False))
        if name == "rvs" and "random_state" not in kws: L.rng.append((self.f.sig(), c.lineno, "rvs() without random_state", False))
        if flag is not None and flag is not False: self.write(recv, c, f"{name}(inplace)")
        if name == "shuffle" and args: self.write(first, c, "shuffle")
        if recv[2] == "df":
            if name in DFW: self.write(recv, c, name)
            if name in ("to_numpy",): return (recv[0], recv[1], "arr")
            return (frozenset(), frozenset(), "df" if name in ("copy", "merge", "reset_index", "sort_values", "assign", "drop", "rename", "fillna", "set_index", "pivot", "reindex", "head", "query", "astype") else "any")
        if name in WRITES and recv[2] not in ("imm",):
            if name in ("pop", "remove", "sort", "update", "insert", "put", "partition", "resize", "clear", "reverse", "fill") or name in LISTY or name in WRITES: self.write(recv, c, name)
            if name in ("append", "add", "insert", "extend", "update", "setdefault", "appendleft"):
                n = fn.value
                while isinstance(n, (ast.Subscript, ast.Attribute)): n = n.value
                add = frozenset().union(*[v[0] | v[1] if name != "extend" else v[1] for v in allv]) if allv else frozenset()
                if isinstance(n, ast.Name) and n.id in self.env and self.env[n.id][2] not in ("self", "df"):
                    b = self.env[n.id]; self.env[n.id] = (b[0], b[1] | add, b[2])
        if name == "copy": return (frozenset(), recv[1] - recv[0] if recv[2] in ("arr",) else recv[1], recv[2])
        if name in VIEW_METHODS: return (recv[0] | recv[1], recv[1], "arr" if recv[2] == "arr" else "any")
        if name == "astype" and any(k.arg == "copy" for k in c.keywords): return (recv[0] | recv[1], recv[1], "any")
        return FRESH
    def apply(self, t, args, kws, c, flag):
        """the callee's contract at this call"""
        L = self.lib
        if flag is None and t.summ and None not in t.summ:
            ds = dict(zip(t.params[len(t.params) - len(t.node.args.defaults):], t.node.args.defaults)); ds.update({a.arg: d for a, d in zip(t.node.args.kwonlyargs, t.node.args.kw_defaults) if d is not None})
            nm = flag_of(t); d = ds.get(nm); i = t.params.index(nm) if nm in t.params else 99; k = next((k.value for k in c.keywords if k.arg == nm), None); off = len(args) - len(c.args)
            if k is not None: flag = self.flagval(k)
            elif i < len(args): flag = self.flagval(c.args[i - off]) if 0 <= i - off < len(c.args) and not any(isinstance(a, ast.Starred) for a in c.args) else "?"
            else: flag = d.value if isinstance(d, ast.Constant) else "?"
        w, ret = L.summary(t, flag)
        bind = {}
        for p, a in zip(t.params, args): bind[p] = a
        for k, v in kws.items():
            if k is None: # **kwargs
                for p in t.params + t.kwonly: bind.setdefault(p, inside(v))
            else: bind[k] = v
        if any(isinstance(a, ast.Starred) for a in c.args):
            j = join(*args) if args else FRESH
            for p in t.params: bind[p] = join(bind.get(p, FRESH), inside(j))
        def sub(roots):
            out = set()
            for r in roots:
                if r.startswith("p:*"):
                    for k, v in bind.items():
                        if k not in t.params + t.kwonly: out |= v[0] | v[1]
                    for a in args[len(t.params):]: out |= a[0] | a[1]
                elif r.startswith("p:"):
                    v = bind.get(r[2:])
                    if v is not None and v[2] != "imm": out |= v[0] | v[1] if t.kinds.get(r[2:]) != "df" else v[0]
                elif r == "self":
                    v = args[0] if t.is_method and args else FRESH
                    out |= v[0]
                elif r.startswith("a:"):
                    v = args[0] if t.is_method and args else FRESH
                    if v[2] == "self": out.add(r)
                    else: out |= v[0]      # part of another object: its own state
                elif r.startswith("d:"): pass      # reported in the callee
                elif t.parent is not None or r.startswith("g:"): out.add(r) if r.startswith("g:") else None
                else: out.add(r)
            return frozenset(out)
        ws = sub(r for r in w if not r.startswith(("g:", "d:")))
        ws = frozenset(r for r in ws if r != "self")
        if ws: self.write((ws, frozenset(), "any"), c, "call of " + t.sig())
        k = ret[2] if ret[2] != "self" else "self"
        if t.rkind in ("df", "imm"): k = t.rkind
        return (sub(ret[0]), sub(ret[1]), k if k != "self" else ("self" if args and args[0][2] == "self" else "any"))

def dotted(e):
    if isinstance(e, ast.Name): return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value); return b + "." + e.attr if b else ""
    return ""
