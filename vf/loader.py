"""Loads wildwood's modules from /repo's current source for symbolic execution.

The source is parsed on every run and executed unchanged except that: numpy / math /
numba imports bind the shims, float literals and true divisions are exact, and every
assignment to a variable whose machine type is declared in numba's `locals` goes through
that type. Nothing is cached."""
import ast
import importlib.abc
import importlib.util
import os
import sys
from fractions import Fraction

from . import shim

REPO = os.environ.get("VERIF_REPO", "/repo")
NUMERIC = ("wildwood._utils", "wildwood._impurity", "wildwood._node", "wildwood._split",
           "wildwood._tree", "wildwood._grow", "wildwood._tree_context",
           "wildwood.preprocessing.features_bitarray", "wildwood.preprocessing._binning")


def _div(a, b):
    ta, tb = type(a), type(b)
    if ta in (int, bool) and tb in (int, bool):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Fraction(a, b)
    return a / b


def _lit(x):
    return Fraction(x)


def _co(mod, fn, name, v):
    loc = shim.LOCALS.get((mod, fn))
    if not loc:
        return v
    t = loc.get(name)
    return v if t is None else shim.coerce_decl(t, v)


def _call1(fn, x):
    """float(x), round(x), np.float32(x), ... on a symbolic number."""
    if shim.is_sym(x):
        if fn is float:
            return shim.coerce(x, shim.np.dtype(shim.np.float64))
        if fn is round:
            return shim._rint(x)
        if isinstance(fn, type) and issubclass(fn, shim.np.number):
            return shim.coerce(x, shim.np.dtype(fn))
    if isinstance(fn, type) and issubclass(fn, shim.np.number) and isinstance(
            x, shim.Fraction):
        return shim.coerce(x, shim.np.dtype(fn))
    return fn(x)


def _call1n(fn, x):
    """The same in a compiled module, where every scalar is a machine number."""
    if isinstance(fn, type) and issubclass(fn, shim.np.number) and isinstance(
            x, (int, float, shim.Fraction, shim.np.generic)):
        return shim.coerce(x, shim.np.dtype(fn))
    return _call1(fn, x)


NUMBERS = ("float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint16",
           "uint32", "uint64", "intp", "uintp", "float_")


class _Rewrite(ast.NodeTransformer):
    def __init__(self, mod, numeric):
        self.mod, self.numeric = mod, numeric
        self.fn = []
        self.funcs = []

    # imports of numpy / math / numba bind the shims
    def visit_Import(self, node):
        out = []
        for a in node.names:
            root = a.name.split(".")[0]
            if root in ("numpy", "math", "numba", "pandas"):
                tgt = a.asname or root
                mod = a.name if a.asname else root
                out.append(ast.parse("%s = __vf_import__(%r)" % (tgt, mod)).body[0])
            else:
                out.append(ast.Import(names=[a]))
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module and node.module.split(".")[0] in (
                "numpy", "math", "numba", "pandas"):
            out = []
            for a in node.names:
                out.append(ast.parse("%s = __vf_from__(%r, %r)" % (
                    a.asname or a.name, node.module, a.name)).body[0])
            return out
        return node

    def visit_Constant(self, node):
        if self.numeric and self.fn and isinstance(node.value, float):
            return ast.copy_location(ast.Call(
                func=ast.Name("__vf_lit__", ast.Load()), args=[node], keywords=[]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.numeric and isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(
                func=ast.Name("__vf_div__", ast.Load()),
                args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if len(node.args) == 1 and not node.keywords and not isinstance(
                node.args[0], ast.Starred) and (
                isinstance(f, ast.Name) and f.id in ("float", "round")
                or isinstance(f, ast.Attribute) and f.attr in NUMBERS):
            return ast.copy_location(ast.Call(
                func=ast.Name("__vf_call1__", ast.Load()), args=[f, node.args[0]],
                keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_FunctionDef(self, node):
        names = set()
        if self.numeric:
            for d in node.decorator_list:
                for n in ast.walk(d):
                    if isinstance(n, ast.keyword) and n.arg == "locals" and isinstance(
                            n.value, ast.Dict):
                        for k in n.value.keys:
                            if isinstance(k, ast.Constant):
                                names.add(k.value)
        decos = node.decorator_list
        q = ".".join([f[0] for f in self.fn] + [node.name])
        self.funcs.append(q)
        self.fn.append((node.name, names))
        node.decorator_list = []
        node.args.defaults = node.args.defaults
        body = []
        for s in node.body:
            r = self.visit(s)
            if r is None:
                continue
            body.extend(r if isinstance(r, list) else [r])
        node.body = body or [ast.Pass()]
        node.decorator_list = decos
        self.fn.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.fn.append((node.name, set()))
        self.generic_visit(node)
        self.fn.pop()
        return node

    def _fix(self, name):
        q = ".".join(f[0] for f in self.fn)
        return ast.parse("%s = __vf_co__(__name__, %r, %r, %s)" % (
            name, q, name, name)).body[0]

    def _post(self, target):
        names = self.fn[-1][1] if self.fn else ()
        out = []
        for n in ast.walk(target):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names:
                out.append(self._fix(n.id))
        return out

    def visit_Assign(self, node):
        self.generic_visit(node)
        out = [node]
        for t in node.targets:
            out.extend(self._post(t))
        return out

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.numeric and isinstance(node.op, ast.Div) and isinstance(
                node.target, ast.Name):
            # x /= y on scalars: exact; on arrays: in place
            node = ast.copy_location(ast.Assign(
                targets=[ast.Name(node.target.id, ast.Store())],
                value=ast.Call(func=ast.Name("__vf_idiv__", ast.Load()),
                               args=[ast.Name(node.target.id, ast.Load()), node.value],
                               keywords=[])), node)
            return [node] + self._post(node.targets[0])
        return [node] + self._post(node.target)

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        return [node] + self._post(node.target)

    def visit_For(self, node):
        self.generic_visit(node)
        node.body = self._post(node.target) + node.body
        return node


def _idiv(a, b):
    import numpy as np
    if isinstance(a, np.ndarray):
        a /= b
        return a
    return _div(a, b)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, repo):
        self.repo = repo
        self.functions = {}
        self.numba = shim.make_numba()

    def find_spec(self, name, path=None, target=None):
        if name != "wildwood" and not name.startswith("wildwood."):
            return None
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            f, pkg = os.path.join(p, "__init__.py"), True
        else:
            f, pkg = p + ".py", False
        if not os.path.exists(f):
            return None
        spec = importlib.util.spec_from_loader(name, self, is_package=pkg, origin=f)
        if pkg:
            spec.submodule_search_locations = [p]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        with open(f) as fh:
            src = fh.read()
        tree = ast.parse(src, f)
        numeric = module.__name__ in NUMERIC
        rw = _Rewrite(module.__name__, numeric)
        tree = ast.fix_missing_locations(rw.visit(tree))
        self.functions[module.__name__] = rw.funcs
        d = module.__dict__
        d["__file__"] = f
        d["__vf_import__"] = self._imp
        d["__vf_from__"] = self._from
        d["__vf_lit__"] = _lit
        d["__vf_div__"] = _div
        d["__vf_idiv__"] = _idiv
        d["__vf_co__"] = _co
        d["__vf_call1__"] = _call1n if numeric else _call1
        if numeric:
            d["range"] = shim.s_range
            d["max"], d["min"] = shim.s_max, shim.s_min
        exec(compile(tree, f, "exec"), d)

    def _imp(self, name):
        root = name.split(".")[0]
        if root == "numba":
            return self.numba[name]
        if name == "numpy":
            return shim.NUMPY
        if name == "numpy.random":
            return shim.NUMPY.random
        if name == "math":
            return shim.MATH
        if name == "pandas":
            from . import pdshim
            return pdshim.PANDAS
        return importlib.import_module(name)

    def _from(self, mod, name):
        m = self._imp(mod)
        try:
            return getattr(m, name)
        except AttributeError:
            if mod.startswith("numba"):
                raise
            return getattr(importlib.import_module(mod), name)


_finder = None


def load():
    """Import wildwood symbolically into this process; returns the finder."""
    global _finder
    if _finder is None:
        _finder = Finder(REPO)
        sys.meta_path.insert(0, _finder)
        sys.dont_write_bytecode = True
        for k, v in _finder.numba.items():
            sys.modules[k] = v  # forest.py's `import numba` etc. never reach the real one
        import wildwood  # noqa: F401
    return _finder
