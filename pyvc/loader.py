"""Shadow import: loads /repo/gridded modules from their current source into a private module table.

The only rewriting of the source is
  * `for` loops inside functions get a second, symbolic arm (taken only when the iterable is symbolic),
  * simple list comprehensions go through a helper with the same meaning,
  * calls of the type objects int/float/str/list/tuple/set/dict and empty list/dict displays go through wrappers that accept
    symbolic values and, where a contract states loop invariants, build symbolic containers.
Imports of numpy, netCDF4, hashlib, datetime, scipy, cell_tree2d resolve to shims.
"""
import ast
import builtins
import datetime as _dt
import hashlib as _hashlib
import importlib
import os
import types

from . import core, runtime, symnp
from .arr import Tok, has_sym
from .core import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


class _Names(ast.NodeVisitor):
    """names bound in a loop body (not descending into nested functions)"""

    def __init__(self):
        self.names, self.bad, self.bases, self.calls = set(), None, [], None
        self.loopdepth = 0

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)
        if n.id == "super":
            self.bad = self.bad or "super()"

    def visit_FunctionDef(self, n):
        self.bad = self.bad or "nested function"

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        # comprehension variables are local
        for g in n.generators:
            self.visit(g.iter)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_For(self, n):
        self.loopdepth += 1
        self.generic_visit(n)
        self.loopdepth -= 1

    visit_While = visit_For

    def visit_Break(self, n):
        if self.loopdepth == 0:
            self.bad = self.bad or "break"

    def visit_Return(self, n):
        self.bad = self.bad or "return"

    def visit_Yield(self, n):
        self.bad = self.bad or "yield"

    visit_YieldFrom = visit_Await = visit_Yield

    def visit_Global(self, n):
        self.bad = self.bad or "global"

    visit_Nonlocal = visit_Global

    def visit_Import(self, n):
        self.bad = self.bad or "import"

    visit_ImportFrom = visit_Import

    def visit_Subscript(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bases.append(n.value)
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bad = self.bad or "attribute assignment"
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in (
                "append", "extend", "insert", "add", "update", "pop", "remove", "setdefault", "popitem", "clear",
                "discard", "write", "appendleft"):
            self.calls = self.calls or f"call of .{n.func.attr}"
        self.generic_visit(n)


class _Continue(ast.NodeTransformer):
    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_For

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=ast.Constant(None)), n)


def _load(e):
    return ast.parse(ast.unparse(e), mode="eval").body


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.fn = 0
        self.n = 0
        self.declared = [set()]

    def visit_FunctionDef(self, node):
        self.fn += 1
        decl = set()
        for s in ast.walk(node):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                decl.update(s.names)
        self.declared.append(decl)
        node = self.generic_visit(node)
        self.declared.pop()
        self.fn -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("int", "float", "str", "list", "tuple", "set", "dict"):
            node.func = ast.copy_location(ast.Name(id=f"__vc_{node.func.id}__", ctx=ast.Load()), node.func)
        return node

    def visit_Dict(self, node):
        if self.fn and not node.keys:
            return ast.copy_location(ast.Call(func=ast.Name(id="__vc_dict__", ctx=ast.Load()), args=[], keywords=[]), node)
        return self.generic_visit(node)

    def visit_List(self, node):
        if self.fn and not node.elts and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=ast.Name(id="__vc_list__", ctx=ast.Load()), args=[], keywords=[]), node)
        return self.generic_visit(node)

    def visit_ListComp(self, node):
        node = self.generic_visit(node)
        if len(node.generators) != 1 or not self.fn:
            return node
        g = node.generators[0]
        if g.ifs or g.is_async:
            return node
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            return node
        if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(node)):
            return node
        t = g.target
        if isinstance(t, ast.Name):
            lam = ast.Lambda(args=_args([t.id]), body=node.elt)
        elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
            inner = ast.Lambda(args=_args([e.id for e in t.elts]), body=node.elt)
            lam = ast.Lambda(args=_args(["__vc_t"]), body=ast.Call(
                func=inner, args=[ast.Starred(value=ast.Name(id="__vc_t", ctx=ast.Load()), ctx=ast.Load())],
                keywords=[]))
        else:
            return node
        new = ast.Call(func=ast.Name(id="__vc_listcomp__", ctx=ast.Load()), args=[g.iter, lam], keywords=[])
        return ast.copy_location(new, node)

    def visit_For(self, node):
        v = _Names()                  # of the source as written, before inner loops are rewritten
        v.visit(node.target)
        for s in node.body:
            v.visit(s)
        node = self.generic_visit(node)
        if not self.fn or node.orelse:
            return node
        if v.names & self.declared[-1]:
            return node
        self.n += 1
        k = self.n
        itn, bn = f"__vc_it{k}", f"__vc_body{k}"
        bad = v.bad
        names = sorted(v.names)
        code = [ast.Assign(targets=[ast.Name(id=itn, ctx=ast.Store())], value=node.iter)]
        arm = []
        if bad is None:
            src_body = [_Continue().visit(_copy(s)) for s in node.body]
            fbody = []
            if names:
                fbody.append(ast.Nonlocal(names=names))
                for nm in names:
                    fbody.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())],
                                            value=ast.Name(id="__vc_poison__", ctx=ast.Load())))
            fbody.append(ast.Assign(targets=[_copy(node.target)], value=ast.Name(id="__vc_e", ctx=ast.Load())))
            fbody.extend(src_body)
            fd = ast.FunctionDef(name=bn, args=_args(["__vc_e"]), body=fbody, decorator_list=[], returns=None,
                                 type_params=[])
            bases = []
            for b in v.bases:
                if not any(isinstance(x, ast.Name) and x.id in v.names for x in ast.walk(b)):
                    bases.append(_load(b))
            info = ast.Dict(keys=[ast.Constant("bases"), ast.Constant("calls")], values=[ast.Lambda(
                args=_args([]), body=ast.List(elts=bases, ctx=ast.Load())), ast.Constant(v.calls)])
            arm = [fd, ast.Expr(ast.Call(func=ast.Name(id="__vc_for__", ctx=ast.Load()),
                                         args=[ast.Name(id=itn, ctx=ast.Load()), ast.Name(id=bn, ctx=ast.Load()), info],
                                         keywords=[]))]
            for nm in names:
                arm.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())],
                                      value=ast.Name(id="__vc_poison__", ctx=ast.Load())))
        else:
            info = ast.Dict(keys=[ast.Constant("impure")], values=[ast.Constant(bad)])
            arm = [ast.Expr(ast.Call(func=ast.Name(id="__vc_for__", ctx=ast.Load()),
                                     args=[ast.Name(id=itn, ctx=ast.Load()), ast.Constant(None), info], keywords=[]))]
        native = ast.For(target=node.target, iter=ast.Name(id=itn, ctx=ast.Load()), body=node.body, orelse=[])
        test = ast.Call(func=ast.Name(id="__vc_symiter__", ctx=ast.Load()),
                        args=[ast.Name(id=itn, ctx=ast.Load())], keywords=[])
        code.append(ast.If(test=test, body=arm, orelse=[native]))
        return [ast.copy_location(c, node) for c in code]


def _copy(s):
    import copy
    return copy.deepcopy(s)


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[],
                         kw_defaults=[], kwarg=None, defaults=[])


class _Sha:
    def __init__(self, data):
        self.data = data

    def hexdigest(self):
        return Tok("sha", self.data)

    digest = hexdigest


def _sha(name):
    def f(data=b"", **k):
        if isinstance(data, Tok):
            return _Sha(data)
        return getattr(_hashlib, name)(data, **k)
    return f


class Loader:
    def __init__(self, overrides=None):
        self.modules = {}
        self.np = symnp.build_np()
        dtm = types.ModuleType("datetime")
        dtm.__dict__.update({k: getattr(_dt, k) for k in dir(_dt) if not k.startswith("__")})
        dtm.timedelta = runtime.timedelta
        hm = types.ModuleType("hashlib")
        for n in ("sha1", "md5", "sha256", "blake2b"):
            setattr(hm, n, _sha(n))
        nc = types.ModuleType("netCDF4")

        class Variable:  # stand-in for netCDF4.Variable (never instantiated by numpy-backed inputs)
            pass

        class Dataset:
            def __init__(self, *a, **k):
                raise Unsupported("netCDF4.Dataset")
        nc.Variable, nc.Dataset, nc.MFDataset = Variable, Dataset, type("MFDataset", (), {})

        def num2date(*a, **k):
            from .ncfile import num2date as f
            return f(*a, **k)
        nc.num2date = num2date
        self.shims = {"numpy": self.np, "numpy.ma": self.np.ma, "datetime": dtm, "hashlib": hm, "netCDF4": nc}
        def by_contract(key):
            def make(*a, **k):
                f = core.ctx().ghost.get(key)
                if f is None:
                    raise Unsupported(f"{key} without a contract")
                return f(*a, **k)
            return make
        ct = types.ModuleType("cell_tree2d")
        ct.CellTree = by_contract("CellTree")
        si, ss, sp = types.ModuleType("scipy.interpolate"), types.ModuleType("scipy.spatial"), types.ModuleType("scipy")
        si.RegularGridInterpolator = by_contract("RegularGridInterpolator")
        ss.cKDTree = ss.KDTree = by_contract("KDTree")
        sp.interpolate, sp.spatial = si, ss
        self.shims.update({"cell_tree2d": ct, "scipy": sp, "scipy.interpolate": si, "scipy.spatial": ss})
        self.shims.update(overrides or {})
        self.builtins = runtime.builtins_dict(self._import)
        self.sources = {}

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[: len(pkg) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name in self.shims:
            if "." in name and not fromlist:
                return self.shims[name.split(".")[0]]
            return self.shims[name]
        if name == "gridded" or name.startswith("gridded."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._exists(f"{name}.{f}"):
                        setattr(m, f, self.load(f"{name}.{f}"))
                return m
            return self.load("gridded", light=True)
        if name.split(".")[0] in ("scipy", "cell_tree2d", "netCDF4"):
            raise Unsupported(f"import {name}")
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def _exists(self, name):
        return os.path.exists(self._path(name)[0])

    def load(self, name, light=False):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self._path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)          # python imports parents first
            if name in self.modules:
                return self.modules[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        with open(path) as f:
            src = f.read()
        self.sources[name] = src
        tree = ast.parse(src, path)
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent:
            setattr(self.modules[parent], name.rpartition(".")[2], m)
        return m


_cache = {}


def shadow(overrides=None):
    if overrides is None:
        if "d" not in _cache:
            _cache["d"] = Loader()
        return _cache["d"]
    return Loader(overrides)
