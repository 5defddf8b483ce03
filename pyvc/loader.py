"""Loads the real /repo/src/pymap3d sources, mechanically rewritten, into private modules.

What the rewrite changes (nothing else):
  * float literals become exact rationals (their decimal text), so arithmetic is over the reals
  * a / b and a ** b on two ints give exact rationals
  * every while loop is put in cut-point form: the loop-modified locals are replaced by arbitrary
    values, the loop condition is assumed, the body runs once, and the path continues after the
    loop only when the condition is false (sound for every number of iterations >= 1)
  * builtins float/int/isinstance are the symbolic ones; math, numpy, sys, warnings, logging are
    the symbolic stand-ins; astropy is absent
"""
from __future__ import annotations
import ast
import builtins
import os
import sys
import types

from . import symlib as sl
from . import term as tm

SRC = os.environ.get("PYMAP3D_SRC", "/repo/src/pymap3d")


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.nloop = 0
        self.fn = []

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            import decimal
            s = repr(n.value)
            if s in ("inf", "nan"):
                return n
            return ast.copy_location(ast.Call(ast.Name("__lit__", ast.Load()), [ast.Constant(s)], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__div__", ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name("__pow__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            # x /= y : keeps in-place semantics for arrays
            return ast.copy_location(ast.Assign(
                [ast.Name(n.target.id, ast.Store())],
                ast.Call(ast.Name("__idiv__", ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        n.body = [self.visit(s) for s in n.body]
        flat = []
        for s in n.body:
            flat.extend(s if isinstance(s, list) else [s])
        n.body = flat
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.fn.pop()
        return n

    def visit_While(self, n):
        self.nloop += 1
        lid = f"{'.'.join(self.fn)}#{self.nloop}"
        assigned = sorted(_assigned(n.body))
        counters = _counters(n)
        self.generic_visit(n)
        plain = ast.copy_location(_copy(n), n) if counters else None
        tmp = f"__hv{self.nloop}"
        call = ast.Call(ast.Name("__havoc__", ast.Load()),
                        [ast.Constant(lid), ast.Constant(tuple(assigned)),
                         ast.Call(ast.Name("locals", ast.Load()), [], [])], [])
        stm = [ast.Assign([ast.Name(tmp, ast.Store())], call)]
        for v in assigned:
            # only overwrite names that the havoc produced
            stm.append(ast.If(ast.Compare(ast.Constant(v), [ast.In()], [ast.Name(tmp, ast.Load())]),
                              [ast.Assign([ast.Name(v, ast.Store())],
                                          ast.Subscript(ast.Name(tmp, ast.Load()), ast.Constant(v), ast.Load()))], []))
        test2 = _copy(n.test)
        test3 = _copy(n.test)
        stm.append(ast.Expr(ast.Call(ast.Name("__assume__", ast.Load()),
                                     [ast.Lambda(ast.arguments([], [], None, [], [], None, []), test2)], [])))
        inner = ast.For(ast.Name("__once", ast.Store()), ast.Tuple([ast.Constant(1)], ast.Load()), n.body,
                        [ast.If(test3, [ast.Expr(ast.Call(ast.Name("__pathend__", ast.Load()), [], []))], [])] + n.orelse)
        stm.append(inner)
        r = ast.If(n.test, stm, n.orelse)
        if plain is not None:
            # a loop driven by a concrete counter runs as written (finitely many passes)
            r = ast.If(ast.Call(ast.Name("__counted__", ast.Load()),
                                [ast.Name(v, ast.Load()) for v in counters], []), [plain], [r])
        ast.copy_location(r, n)
        return r


def _copy(x):
    import copy
    return copy.deepcopy(x)


def _counters(loop):
    """names in the test when every one of them is local data changed only by adding integer constants"""
    names = {x.id for x in ast.walk(loop.test) if isinstance(x, ast.Name)}
    if not names or any(not isinstance(x, (ast.Compare, ast.Name, ast.Constant, ast.cmpop, ast.expr_context, ast.BoolOp, ast.boolop))
                        for x in ast.walk(loop.test)):
        return []
    aug = {}
    for s in loop.body:
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                ok = isinstance(x.op, (ast.Add, ast.Sub)) and isinstance(x.value, ast.Constant) and type(x.value.value) is int
                aug[x.target.id] = aug.get(x.target.id, True) and ok
            if isinstance(x, ast.Assign):
                v = x.value
                for t in x.targets:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            ok = (isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)) and isinstance(v.left, ast.Name)
                                  and v.left.id == y.id and isinstance(v.right, ast.Constant) and type(v.right.value) is int)
                            aug[y.id] = aug.get(y.id, True) and ok and isinstance(t, ast.Name)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in aug:
                aug.setdefault(x.id, None)
    moved = [v for v in names if v in aug]
    if not moved or any(aug[v] is not True for v in moved):
        return []
    return sorted(names)


def _counted(*vals):
    return all(type(v) is int for v in vals)


def _assigned(body):
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                out.add(x.value.id)
    return out


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


def _havoc(lid, names, loc):
    out = {}
    for v in names:
        if v not in loc:
            continue
        x = loc[v]
        out[v] = _havoc_value(f"{lid}.{v}", x)
    return out


def _havoc_value(name, x):
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        # a boolean loop variable: arbitrary
        s = sl.CTX.fresh(f"{name}?")
        return sl.decide("<", s)
    if isinstance(x, sl.SymInt):
        return sl.SymInt(sl.CTX.fresh(name))
    if isinstance(x, int):
        return sl.SymInt(sl.CTX.fresh(name))
    if isinstance(x, sl.NSym):
        return sl.NSym(sl.CTX.fresh(name))
    if isinstance(x, sl.Sym):
        return sl.Sym(sl.CTX.fresh(name))
    if isinstance(x, np.ndarray) and x.dtype == object:
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            o[i] = sl.NSym(sl.CTX.fresh(f"{name}{list(i)}"))
        return o
    if isinstance(x, np.ndarray):
        raise sl.Unsupported("havoc of boolean array")
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, (tuple, list)):
        return type(x)(_havoc_value(f"{name}[{i}]", y) for i, y in enumerate(x))
    raise sl.Unsupported(f"havoc {name}: {type(x).__name__}")


def _assume(f):
    if not f():
        raise sl.PathEnd("loop condition")


def _pathend():
    raise sl.PathEnd("loop back edge")


def _inplace_div(a, b):
    import numpy as np
    if isinstance(a, np.ndarray):
        a /= b
        return a
    return sl.idiv(a, b)


def _json():
    """json with symbolic numbers written as marks"""
    import json
    m = types.ModuleType("json")
    m.__dict__.update({k: v for k, v in vars(json).items() if not k.startswith("__")})

    def conv(x):
        if isinstance(x, sl.Sym):
            return repr(x)
        if isinstance(x, (list, tuple)):
            return [conv(v) for v in x]
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        return x
    m.dumps = lambda x, **k: json.dumps(conv(x), **k)
    m.dump = lambda x, f, **k: json.dump(conv(x), f, **k)
    return m


class World:
    """one configuration of the library: 'std' (no numpy) or 'np'"""

    def __init__(self, config, src=None):
        self.config = config
        self.src = src or SRC
        self.prefix = f"_vc_{config}_{id(self):x}_pymap3d"
        self.mods: dict = {}
        self.fakes = {"math": sl.fake_math(), "warnings": sl.fake_warnings(), "logging": sl.fake_logging()}
        from . import faketime
        self.fakes["datetime"] = faketime.module()
        fs = types.ModuleType("sys")
        fs.modules = {"math": 1, "sys": 1}
        fs.version_info = sys.version_info
        fs.float_info = types.SimpleNamespace(epsilon=sl.lit(repr(2.0 ** -52)), max=sl.lit(repr(sys.float_info.max)),
                                              min=sl.lit(repr(sys.float_info.min)))
        fs.maxsize = sys.maxsize
        fs.stdout, fs.stderr = sys.stdout, sys.stderr
        self.fakes["sys"] = fs
        self.fakes["json"] = _json()
        if config == "np":
            self.fakes["numpy"] = sl.fake_numpy()
            fs.modules["numpy"] = self.fakes["numpy"]
        self.stubs: dict = {}      # (module, function) -> replacement, applied after load
        b = types.ModuleType("builtins_vc")
        for k in dir(builtins):
            setattr(b, k, getattr(builtins, k))
        b.__import__ = self._import
        b.float = sl.SymFloat
        b.int = sl.SymIntType
        b.pow = lambda a, c, *m: sl.ipow(a, c) if not m else builtins.pow(a, c, *m)
        b.__lit__ = sl.lit
        b.__div__ = sl.idiv
        b.__idiv__ = _inplace_div
        b.__pow__ = sl.ipow
        b.__havoc__ = _havoc
        b.__counted__ = _counted
        b.__assume__ = _assume
        b.__pathend__ = _pathend
        self.b = b

    # ---- import machinery
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = (globals or {}).get("__package__", self.prefix)
            base = "pymap3d"
            if name == "":
                # from . import x
                for f in fromlist or ():
                    if os.path.exists(os.path.join(self.src, f + ".py")):
                        self.load(f)
                return self._pkg()
            m = self.load(name)
            return m
        top = name.split(".")[0]
        if top == "pymap3d":
            if name == "pymap3d":
                return self._pkg(full=True)
            m = self.load(name.split(".", 1)[1])
            return m if fromlist else self._pkg()
        if name in self.fakes:
            return self.fakes[name]
        if top in ("numpy", "astropy", "pyproj"):
            if name.startswith("numpy._core"):     # ndarray's own methods import their helpers through the caller's builtins
                return builtins.__import__(name, globals, locals, fromlist, level)
            if top == "numpy" and self.config == "np":
                m = self.fakes["numpy"]
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
                return m if fromlist else self.fakes["numpy"]
            raise ImportError(f"No module named {name!r}")
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _pkg(self, full=False):
        p = self.mods.get("")
        if p is None:
            p = types.ModuleType(self.prefix)
            p.__path__ = [self.src]
            p.__package__ = self.prefix
            self.mods[""] = p
            sys.modules[self.prefix] = p
        if full and not getattr(p, "_full", False):
            p._full = True
            self._exec(p, os.path.join(self.src, "__init__.py"))
        return p

    def _exec(self, m, path):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        code = transform(src, path)
        m.__dict__["__builtins__"] = self.b.__dict__
        m.__file__ = path
        exec(code, m.__dict__)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.src, *name.split(".")) + ".py"
        if not os.path.exists(path):
            path2 = os.path.join(self.src, *name.split("."), "__init__.py")
            if not os.path.exists(path2):
                raise ImportError(f"No module named {name!r}")
            path = path2
        m = types.ModuleType(self.prefix + "." + name)
        m.__package__ = self.prefix
        self.mods[name] = m
        sys.modules[m.__name__] = m
        setattr(self._pkg(), name, m)
        try:
            self._exec(m, path)
        except BaseException:
            self.mods.pop(name, None)
            sys.modules.pop(m.__name__, None)
            raise
        return m

    def fn(self, mod, name):
        o = self.load(mod)
        for p in name.split("."):
            o = getattr(o, p)
        return o

    def unload(self):
        for m in list(self.mods.values()):
            sys.modules.pop(m.__name__, None)


def source_hash(files=None):
    import hashlib
    h = hashlib.sha256()
    for f in sorted(os.listdir(SRC)):
        if f.endswith(".py"):
            h.update(f.encode())
            h.update(open(os.path.join(SRC, f), "rb").read())
    return h.hexdigest()[:16]
