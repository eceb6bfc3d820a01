"""Loads /repo's modules for symbolic execution: the module source is parsed and executed, with the numerical
libraries and a few builtins replaced by the symbolic versions.  Nothing is dropped; the two rewrites below keep
the meaning on ordinary values and only route an operation numpy cannot do on symbolic cells through a function."""
import ast, operator, sys, types, os, builtins
from .core import *
from . import shims

REPO = os.environ.get("DV_REPO", "/repo")
TREES = {}
class AsType(ast.NodeTransformer):
    """x.astype(t) -> __dv_astype__(x, t): numpy arrays cannot be given a symbolic astype otherwise; identical on ordinary arrays"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "astype":
            return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id="__dv_astype__", ctx=ast.Load()), n), args=[n.func.value] + n.args, keywords=n.keywords), n)
        return n
    def visit_AugAssign(self, n):
        """a[s] += v -> __dv_aug__(a, s, "Add", v) where s is a slice: in-place numpy arithmetic refuses a symbolic operand"""
        self.generic_visit(n); t = n.target
        if not isinstance(t, ast.Subscript) or type(n.op).__name__ not in AUG: return n
        parts = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
        if not any(isinstance(p, ast.Slice) for p in parts): return n
        none = lambda x: x if x is not None else ast.Constant(value=None)
        conv = [ast.Call(func=ast.Name(id="__dv_slice__", ctx=ast.Load()), args=[none(p.lower), none(p.upper), none(p.step)], keywords=[]) if isinstance(p, ast.Slice) else p for p in parts]
        key = ast.Tuple(elts=conv, ctx=ast.Load()) if isinstance(t.slice, ast.Tuple) else conv[0]
        return ast.copy_location(ast.Expr(value=ast.Call(func=ast.Name(id="__dv_aug__", ctx=ast.Load()), args=[t.value, key, ast.Constant(value=type(n.op).__name__), n.value], keywords=[])), n)
AUG = {"Add": (operator.iadd, operator.add), "Sub": (operator.isub, operator.sub), "Mult": (operator.imul, operator.mul), "Div": (operator.itruediv, operator.truediv)}
def dv_aug(a, key, op, v):
    import numpy as np
    if isinstance(a, np.ndarray) and a.dtype == object and isinstance(v, (F, SInt, SBool)): a[key] = AUG[op][1](a[key], v)
    else: x = a[key]; a[key] = AUG[op][0](x, v)
def dv_astype(x, *a, **k):
    import numpy as np
    if isinstance(x, np.ndarray) and x.dtype == object and shims.issym(x):
        if not (a and a[0] in (float, shims.BUILTINS["float"], np.float64)): raise Unsupported("astype of symbolic cells")
        return shims.objmap(F.lift, x)
    return x.astype(*[{id(shims.BUILTINS["float"]): float, id(shims.BUILTINS["int"]): int, id(shims.BUILTINS["bool"]): bool}.get(id(v), v) for v in a], **k)

class SymModules:
    def __init__(self, pandas_shim=None, transform=None):
        self.undo = []; self.mods = {}; self.sources = {}
        self.pd = pandas_shim
        self.transform = transform
        self.b = dict(shims.BUILTINS); self.b["__dv_astype__"] = dv_astype; self.b["__dv_aug__"] = dv_aug; self.b["__dv_slice__"] = slice
        self.b["__import__"] = self._import
        self.scipy = shims.Passthrough("scipy", subs={"stats": shims.stats_shim, "optimize": shims.Passthrough("scipy.optimize"), "linalg": shims.Passthrough("scipy.linalg")})
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or "diff_diff"
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            name = base + ("." + name if name else "")
        if name == "numpy": return shims.np_shim
        if name == "pandas": return self.pd if self.pd is not None else __import__("pandas")
        if name == "scipy" or name.startswith("scipy."):
            if not fromlist: return self.scipy
            o = self.scipy
            for p in name.split(".")[1:]: o = getattr(o, p)
            return o
        if name == "diff_diff" or name.startswith("diff_diff."):
            return self.load(name) if name != "diff_diff" else self.package()
        return builtins.__import__(name, globals, locals, fromlist, 0)
    def package(self):
        m = types.ModuleType("diff_diff")
        me = self
        class P(types.ModuleType):
            def __getattr__(s, n):
                if n.startswith("__"): raise AttributeError(n)
                for mod in list(me.mods.values()):
                    if n in mod.__dict__: return mod.__dict__[n]
                try: return me.load("diff_diff." + n)
                except ModuleNotFoundError:
                    import re
                    src = open(os.path.join(REPO, "diff_diff", "__init__.py")).read()
                    for node in ast.parse(src).body:
                        if isinstance(node, ast.ImportFrom) and any(a.name == n or a.asname == n for a in node.names):
                            return me.load(node.module).__dict__[n]
                    raise AttributeError(n)
        return P("diff_diff")
    def preload(self):
        """import the modules in the order in which the package itself does"""
        src = open(os.path.join(REPO, "diff_diff", "__init__.py")).read()
        for node in ast.parse(src).body:
            if isinstance(node, ast.ImportFrom) and node.module and node.module.startswith("diff_diff.") and "visual" not in node.module:
                self.load(node.module)
    def load(self, name):
        if name in self.mods: return self.mods[name]
        path = os.path.join(REPO, *name.split(".")) + ".py"
        if not os.path.exists(path): raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        if path not in TREES:
            src = open(path, encoding="utf-8").read()
            TREES[path] = (src, compile(ast.fix_missing_locations(AsType().visit(ast.parse(src, path))), path, "exec"))
        src, code = TREES[path]
        self.sources[name] = src
        m = types.ModuleType("dvsym." + name)
        m.__dict__["__builtins__"] = self.b
        m.__dict__["__package__"] = "diff_diff"
        m.__dict__["__file__"] = path
        sys.modules["dvsym." + name] = m
        self.mods[name] = m
        try: exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None); raise
        return m
    def patch(self, obj, repl):
        """replace a function everywhere it is bound (calls then see the contract, not the body)"""
        n = 0
        for m in self.mods.values():
            for k, v in list(m.__dict__.items()):
                if v is obj: m.__dict__[k] = repl; self.undo.append((m, k, v)); n += 1
        return n
    def setattr(self, o, k, v):
        self.undo.append((o, k, o.__dict__[k] if k in o.__dict__ else getattr(o, k))); setattr(o, k, v)
    def reset(self):
        for o, k, v in reversed(self.undo): setattr(o, k, v)
        self.undo = []
