"""Loads the real `spins` sources, from the working tree, for symbolic runs.

The source text is read from $VERIF_REPO (default /repo) at import time and
executed as is, except that
  * `import numpy/scipy/math` inside spins modules yields the symbolic proxies,
  * calls of the builtins float, int, complex, bool, isinstance, max, min,
    round, range by name go to versions that understand symbolic values,
  * indexing a plain array with a symbolic mask forks on the mask.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import numbers
import os
import sys

import numpy as np
import scipy.sparse

from symx import sym as S
from symx import symnp, symsparse
from symx import terms as T
from symx.sym import Sym, SymBool
from symx.symsparse import SymSparse

REPO = os.environ.get("VERIF_REPO", "/repo")
LOADED = {}

_REPL = {
    "numpy": symnp.NP,
    "numpy.linalg": symnp.NP.linalg,
    "scipy": symsparse.SCIPY,
    "scipy.sparse": symsparse.SPARSE,
    "scipy.sparse.linalg": symsparse.SPARSE.linalg,
    "scipy.linalg": symsparse.DLINALG,
    "scipy.optimize": symsparse.OPTIMIZE,
    "math": symnp.MATH,
}
EXTRA = {}  # name -> module, installed by harnesses (stubs)


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        full = name
        if full in EXTRA:
            if fromlist:
                return EXTRA[full]
            return EXTRA.get(full.split(".")[0], EXTRA[full])
        if full in _REPL:
            if fromlist:
                return _REPL[full]
            return _REPL[full.split(".")[0]]
        if full.startswith(("numpy.", "scipy.")):
            builtins.__import__(name)
            if fromlist:
                return builtins.__import__(name, globals, locals, fromlist,
                                           level)
            return _REPL[full.split(".")[0]]
    return builtins.__import__(name, globals, locals, fromlist, level)


# ---- builtins
_SPARSE_TYPES = tuple(
    getattr(scipy.sparse, n) for n in ("spmatrix", "csr_matrix", "csc_matrix",
                                       "coo_matrix"))


def sym_isinstance(o, cls):
    if isinstance(o, (Sym, SymBool, SymSparse)):
        cs = cls if isinstance(cls, tuple) else (cls, )
        flat = []
        for c in cs:
            if isinstance(c, tuple):
                flat.extend(c)
            else:
                flat.append(c)
        for c in flat:
            if isinstance(o, SymSparse):
                if isinstance(c, type) and issubclass(
                        c, scipy.sparse.spmatrix):
                    if c is scipy.sparse.spmatrix or c.__name__.startswith(
                            o.format):
                        return True
                elif not isinstance(c, type) and getattr(
                        c, "__name__", "").endswith("_matrix"):
                    return c.__name__.startswith(o.format)
                continue
            if isinstance(o, SymBool):
                if c in (bool, int, np.bool_):
                    return True
                continue
            isint = o.im is None and T.all_int(
                o.re) and not o.re.is_const()
            if c in (float, np.floating, np.float64):
                if o.im is None and not isint:
                    return True
            elif c in (complex, np.complexfloating, np.complex128):
                if o.im is not None:
                    return True
            elif c in (int, np.integer, numbers.Integral):
                if isint:
                    return True
            elif c in (np.number, np.generic, numbers.Number,
                       numbers.Complex):
                return True
            elif c is numbers.Real:
                if o.im is None:
                    return True
            elif c in (Sym, object):
                return True
        return False
    if not isinstance(cls, (tuple, type)) and getattr(
            cls, "__name__", "").endswith("_matrix"):
        return False
    if isinstance(cls, tuple):
        cls = tuple(c for c in cls if isinstance(c, type) or hasattr(
            c, "__instancecheck__") or isinstance(c, tuple))
    return isinstance(o, cls)


def sym_float(x=0.0):
    if isinstance(x, symnp.SymArray) and x.size == 1:
        x = x.item()
    if isinstance(x, Sym):
        if x.im is not None:
            raise TypeError("float() argument must be a string or a real "
                            "number, not 'complex'")
        return x
    if isinstance(x, SymBool):
        return x.num()
    return float(x)


def sym_complex(*a):
    if symnp.has_sym(list(a)):
        if len(a) == 2:
            return S.lift(a[0]) + S.lift(a[1]) * 1j
        x = a[0].item() if isinstance(a[0], np.ndarray) else a[0]
        x = S.lift(x)
        return x if x.im is not None else Sym(x.re, T.ZERO)
    return complex(*a)


def sym_int(*a):
    if a and isinstance(a[0], symnp.SymArray) and a[0].size == 1:
        a = (a[0].item(), )
    if a and isinstance(a[0], Sym):
        x = a[0]
        if x.is_const():
            return int(x)
        return x if T.all_int(x.re) else x.trunc()
    return int(*a)


def _mm(real, pick):

    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and not k and any(isinstance(x, (Sym, SymBool)) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = pick(r, x)
            return r
        return real(xs, **k) if len(a) == 1 else real(*a, **k)

    return f


def sym_bool(x=False):
    return bool(x)


def sym_range(*a):
    return range(*[x.__index__() if isinstance(x, Sym) else x for x in a])


def sym_round(x, n=None):
    if isinstance(x, Sym):
        r = x.__round__(n)
        return int(r) if r.is_const() and n is None else r
    return round(x) if n is None else round(x, n)


# builtin max keeps the first maximal element: max(a, b) = b if b > a else a
HOOKS = {
    "float": sym_float,
    "int": sym_int,
    "complex": sym_complex,
    "isinstance": sym_isinstance,
    "max": _mm(max, lambda r, x: S.ite(symnp._cmpf("gt")(x, r), x, r)),
    "min": _mm(min, lambda r, x: S.ite(symnp._cmpf("lt")(x, r), x, r)),
    "range": sym_range,
    "round": sym_round,
}


def sym_astype(x, *a, **k):
    if type(x) is np.ndarray and x.dtype.kind in "iufcb":
        dt = a[0] if a else k.get("dtype")
        if np.dtype(dt).kind in "fc":
            return symnp.to_sym(x.tolist(), dt).reshape(x.shape)
    return x.astype(*a, **k)


def _mask(i):
    return isinstance(i, symnp.SymArray) or isinstance(
        i, np.ndarray) and i.dtype == object


def sym_index(i):
    """Symbolic index arrays of plain arrays become concrete (by forking)."""
    if _mask(i) or isinstance(i, tuple) and any(_mask(j) for j in i):
        return symnp._realise_index(i)
    return i


def sym_setitem(v, a, i):
    if type(a) is np.ndarray and a.dtype != object:
        i = sym_index(i)
    a[i] = v


class _Tr(ast.NodeTransformer):

    def __init__(self, bound):
        self.bound = bound

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in HOOKS and f.id not in self.bound:
            node.func = ast.copy_location(
                ast.Name(id="symx__hook_" + f.id, ctx=ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr == "astype":
            node.func = ast.copy_location(
                ast.Name(id="symx__hook_astype", ctx=ast.Load()), f)
            node.args = [f.value] + node.args
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        i = node.slice
        if isinstance(node.value, ast.Attribute) and node.value.attr in (
                "r_", "c_", "s_", "ix_"):
            return node
        if isinstance(i, (ast.Constant, ast.Slice, ast.UnaryOp)) or isinstance(
                i, ast.Tuple) and any(
                    isinstance(e, (ast.Slice, ast.Starred)) for e in i.elts):
            return node
        if isinstance(node.ctx, ast.Load) or getattr(node, "aug", False):
            node.slice = ast.copy_location(
                ast.Call(
                    func=ast.Name(id="symx__hook_index", ctx=ast.Load()),
                    args=[i], keywords=[]), i)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            node.target.aug = True
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        ret, node.returns = node.returns, None
        self.generic_visit(node)
        node.returns = ret
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript):
            i = t.slice
            if isinstance(i, (ast.Constant, ast.Slice)) or isinstance(
                    i, ast.Tuple) and any(
                        isinstance(e, (ast.Slice, ast.Starred))
                        for e in i.elts):
                return node
            t.value.ctx = ast.Load()
            return ast.copy_location(
                ast.Expr(
                    ast.Call(
                        func=ast.Name(id="symx__hook_setitem",
                                      ctx=ast.Load()),
                        args=[node.value, t.value, i], keywords=[])), node)
        return node


def _bound_names(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split(".")[0])
    return out


class Loader(importlib.abc.Loader):

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        # class-level method names do not shadow builtins in function bodies,
        # module-level ones do; keep it simple and treat module/func names only
        tree = _Tr(_module_bound(tree)).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec")
        b = dict(vars(builtins))
        b["__import__"] = _import
        module.__dict__["__builtins__"] = b
        for n, f in HOOKS.items():
            module.__dict__["symx__hook_" + n] = f
        module.__dict__["symx__hook_astype"] = sym_astype
        module.__dict__["symx__hook_index"] = sym_index
        module.__dict__["symx__hook_setitem"] = sym_setitem
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)


def _module_bound(tree):
    """Names bound at module level or locally in functions (not methods)."""
    out = set()

    def walk(n, in_class):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if not in_class:
                    out.add(c.name)
            elif isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                if not in_class:
                    out.add(c.id)
            elif isinstance(c, ast.arg):
                out.add(c.arg)
            elif isinstance(c, ast.alias):
                out.add((c.asname or c.name).split(".")[0])
            walk(c, isinstance(c, ast.ClassDef))

    walk(tree, False)
    return out


class Finder(importlib.abc.MetaPathFinder):

    def find_spec(self, name, path=None, target=None):
        if name != "spins" and not name.startswith("spins."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if os.path.isfile(init):
                return importlib.util.spec_from_file_location(
                    name, init, loader=Loader(init),
                    submodule_search_locations=[base])
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=Loader(base + ".py"))
        return None


def install():
    for m in list(sys.modules):
        if m == "spins" or m.startswith("spins."):
            del sys.modules[m]
    sys.meta_path.insert(0, Finder())
