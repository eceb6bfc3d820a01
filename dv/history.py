"""History independence: which attributes of self a method reads before it has certainly written them in the same call,
and which it may write.  Modular over the methods a call reaches (resolved for the concrete class)."""
import ast
class Eff:
    """effect of one method: attributes read before being written, certainly written, possibly written; calls not understood"""
    __slots__ = ("rbw", "must", "may", "odd")
    def __init__(self): self.rbw, self.must, self.may, self.odd = {}, set(), {}, []
class History:
    def __init__(self, lib, mod, cls):
        self.L, self.mod, self.cls = lib, mod, cls; self.memo = {}; self.mro = lib.mro(mod, cls)
    def find(self, name, after=None):
        ms = self.mro
        if after in ms: ms = ms[ms.index(after) + 1:]
        for k in ms:
            f = self.L.funcs.get((k[0], k[1] + "." + name))
            if f: return f, k
        return None, None
    def class_attr(self, name):
        for k in self.mro:
            for b in self.L.classes[k].body:
                if isinstance(b, (ast.Assign, ast.AnnAssign)) and getattr(b, "value", None) is not None:
                    for t in (b.targets if isinstance(b, ast.Assign) else [b.target]):
                        if isinstance(t, ast.Name) and t.id == name: return True
        return False
    def eff(self, name, after=None):
        f, k = self.find(name, after)
        if f is None: return None
        if f.sig() in self.memo: return self.memo[f.sig()] or Eff()
        self.memo[f.sig()] = None
        e = Walk(self, f, k).run(); self.memo[f.sig()] = e
        return e
class Walk:
    def __init__(self, h, f, k):
        self.h, self.f, self.k = h, f, k; self.e = Eff(); self.done = set(); self.me = f.params[0] if f.params and not f.static else None
    def run(self):
        self.exits = []
        live = self.block(self.f.node.body)
        outs = self.exits + ([set(self.done)] if not live else [])
        self.e.must = set.intersection(*outs) if outs else set()
        return self.e
    def rd(self, a, n):
        if a in self.done: return
        f, k = self.h.find(a)
        if f is not None:
            if f.prop: self.call(a, n)
            return
        if self.h.class_attr(a): return
        self.e.rbw.setdefault(a, f"{self.f.sig()}:{n.lineno}")
    def wr(self, a, n): self.e.may.setdefault(a, f"{self.f.sig()}:{n.lineno}"); self.done.add(a)
    def call(self, name, n, after=None):
        e = self.h.eff(name, after)
        if e is None: return False
        for a, w in e.rbw.items():
            if a not in self.done: self.e.rbw.setdefault(a, w)
        for a, w in e.may.items(): self.e.may.setdefault(a, w)
        self.e.odd += [x for x in e.odd if x not in self.e.odd]
        self.done |= e.must
        return True
    def block(self, b):
        for s in b:
            if self.stmt(s): return True
        return False
    def fork(self, bodies):
        base = set(self.done); outs = []
        for b in bodies:
            self.done = set(base)
            if not self.block(b): outs.append(self.done)
        if not outs: self.done = base; return True
        self.done = set.intersection(*outs); return False
    def stmt(self, s):
        X = self.expr
        if isinstance(s, ast.Assign):
            X(s.value)
            for t in s.targets: self.target(t)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None: X(s.value); self.target(s.target)
        elif isinstance(s, ast.AugAssign): X(s.value); X(s.target); self.target(s.target)
        elif isinstance(s, ast.Return): X(s.value); self.exits.append(set(self.done)); return True
        elif isinstance(s, ast.Raise): X(s.exc); return True
        elif isinstance(s, (ast.Break, ast.Continue)): return True
        elif isinstance(s, ast.If): X(s.test); return self.fork([s.body, s.orelse])
        elif isinstance(s, (ast.For, ast.While)):
            X(s.iter if isinstance(s, ast.For) else s.test)
            if isinstance(s, ast.For): self.target(s.target)
            base = set(self.done); self.block(s.body); self.done = base; self.block(s.orelse)
        elif isinstance(s, ast.With):
            for i in s.items: X(i.context_expr)
            return self.block(s.body)
        elif isinstance(s, ast.Try):
            base = set(self.done); ended = self.block(s.body)
            if not ended: ended = self.block(s.orelse)
            outs = [] if ended else [self.done]
            for h in s.handlers:
                self.done = set(base)
                if not self.block(h.body): outs.append(self.done)
            self.done = set.intersection(*outs) if outs else base
            x = self.block(s.finalbody)
            return x or not outs
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(s, ast.FunctionDef):
                base = set(self.done); ex = self.exits; self.exits = []
                for d in s.args.defaults: X(d)
                self.block(s.body); self.done = base; self.exits = ex
        elif isinstance(s, ast.Delete):
            for t in s.targets: X(t)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr): X(c)
        return False
    def target(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: self.target(x)
        elif isinstance(t, ast.Starred): self.target(t.value)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me: self.wr(t.attr, t)
        elif isinstance(t, (ast.Attribute, ast.Subscript)): self.expr(t.value); self.expr(getattr(t, "slice", None))
    def expr(self, e):
        if e is None: return
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me: self.rd(e.attr, e); return
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute):
                for a in e.args: self.arg(a)
                for k in e.keywords: self.arg(k.value)
                if isinstance(fn.value, ast.Name) and fn.value.id == self.me:
                    if not self.call(fn.attr, e): self.rd(fn.attr, e)
                    return
                if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super": self.call(fn.attr, e, after=self.k); return
                self.expr(fn.value); return
            q = list(e.args)
            if isinstance(fn, ast.Name) and fn.id in ("getattr", "hasattr", "setattr", "delattr") and q and isinstance(q[0], ast.Name) and q[0].id == self.me: q = q[1:]
            for a in q: self.arg(a)
            for k in e.keywords: self.arg(k.value)
            if isinstance(fn, ast.Name) and fn.id in ("getattr", "hasattr") and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == self.me:
                if len(e.args) > 1 and isinstance(e.args[1], ast.Constant): self.rd(e.args[1].value, e)
                else: self.e.odd.append(f"{self.f.sig()}:{e.lineno} reads an attribute chosen at run time")
                return
            if isinstance(fn, ast.Name) and fn.id in ("setattr", "delattr") and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == self.me:
                if isinstance(e.args[1], ast.Constant): self.wr(e.args[1].value, e)
                else: self.e.odd.append(f"{self.f.sig()}:{e.lineno} writes an attribute chosen at run time")
                return
            self.expr(fn); return
        if isinstance(e, ast.IfExp):
            self.expr(e.test); base = set(self.done); self.expr(e.body); a = self.done; self.done = base; self.expr(e.orelse); self.done = a & self.done; return
        if isinstance(e, ast.Lambda): base = set(self.done); self.expr(e.body); self.done = base; return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.comprehension)): self.expr(c) if isinstance(c, ast.expr) else [self.expr(x) for x in [c.iter] + c.ifs]
    def arg(self, a):
        if isinstance(a, ast.Starred): a = a.value
        if isinstance(a, ast.Name) and a.id == self.me: self.e.odd.append(f"{self.f.sig()}:{a.lineno} hands itself to another function"); return
        self.expr(a)
