"""numpy for symbolic values: `SymArray` (an object ndarray subclass) and the
module proxy that the real sources see as `numpy` while they are executed
symbolically.  Everything without symbolic content goes to the real numpy."""
import math
import types
from fractions import Fraction

import numpy as np

from symx import sym as S
from symx import terms as T
from symx.sym import Sym, SymBool, Unsupported, ite, lift

_NUM = (int, float, complex, np.number, Fraction)


def is_symval(x):
    return isinstance(x, (Sym, SymBool))


def _plain(x):
    """Plain object ndarray for any operand."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        r = to_sym(x)
        return r.view(np.ndarray)
    a = np.empty((), object)
    a[()] = x
    return a


def wrap(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(SymArray)
    return x


def _scal(x):
    """An element as returned from indexing: exact Sym for numbers."""
    if isinstance(x, (Sym, SymBool, bool, np.bool_)):
        return x
    if isinstance(x, (float, np.floating)) and (x != x or math.isinf(x)):
        return x
    l = lift(x) if isinstance(x, _NUM) else None
    return x if l is None else l


def _iscplx(x):
    return isinstance(x, (complex, np.complexfloating)) or (isinstance(
        x, Sym) and x.im is not None)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool, SymArray)):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_symval(e) for e in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    return False


def _shadow(x):
    """Same nesting with symbolic leaves replaced by plain numbers."""
    if isinstance(x, SymBool):
        return True
    if isinstance(x, Sym):
        return 0j if x.im is not None else 0.0
    if isinstance(x, SymArray):
        return np.zeros(x.shape, dtype=x.dtype)
    if isinstance(x, (list, tuple)):
        return [_shadow(e) for e in x]
    return x


def _leaves(x, out):
    if isinstance(x, np.ndarray):
        out.extend(x.view(np.ndarray).flat)
    elif isinstance(x, (list, tuple)):
        for e in x:
            _leaves(e, out)
    else:
        out.append(x)


def to_sym(x, dtype=None, copy=True, ndmin=0, order=None):
    """np.array for possibly symbolic nested data -> SymArray."""
    if isinstance(x, SymArray):
        r = x.copy() if copy else x
        if dtype is not None:
            r = r.astype(dtype)
    elif isinstance(x, np.ndarray) and x.dtype == object:
        r = (x.copy() if copy else x).view(SymArray)
        if dtype is not None and dtype is not object:
            r = r.astype(dtype)
    else:
        sh = np.array(_shadow(x))  # raises as numpy would for ragged data
        if sh.dtype == object:
            raise Unsupported("object array of non numbers")
        leaves = []
        _leaves(x, leaves)
        r = np.empty(sh.shape, object)
        flat = r.reshape(-1)
        for i, l in enumerate(leaves):
            flat[i] = l
        r = r.view(SymArray)
        r._k = sh.dtype.kind
        if dtype is not None and np.dtype(dtype) != np.dtype(object):
            r = r.astype(dtype)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1, ) * (ndmin - r.ndim) + r.shape)
    return r


def concretize(x):
    """Plain float/complex array if there is nothing symbolic inside."""
    if isinstance(x, Sym):
        if not x.is_const():
            return x
        return complex(x) if x.im is not None else float(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        vals = [_scal(e) for e in np.ndarray.view(x, np.ndarray).flat]
        if any(isinstance(v, SymBool) or
               (isinstance(v, Sym) and not v.is_const()) for v in vals):
            return x
        if all(isinstance(v, (bool, np.bool_)) for v in vals) and vals:
            return np.array([bool(v) for v in vals],
                            dtype=bool).reshape(x.shape)
        cp = any(_iscplx(v) for v in vals)
        out = np.array([complex(v) if cp else float(v) for v in vals],
                       dtype=complex if cp else float)
        return out.reshape(x.shape)
    return x


# ------------------------------------------------------------ elementwise
def _finite(*xs):
    for x in xs:
        if isinstance(x, (float, np.floating)) and (x != x or math.isinf(x)):
            return False
    return True


def _arith(name, npf):
    op = "__%s__" % name
    rop = "__r%s__" % name

    def f(a, b):
        if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
            if not _finite(a, b):
                return _inf_arith(name, a, b)
            a2 = lift(a)
            b2 = lift(b)
            if a2 is None or b2 is None:
                return getattr(a, op)(b)
            return getattr(a2, op)(b2)
        if isinstance(a, _NUM) and isinstance(b, _NUM) and _finite(a, b):
            if name == "truediv" and b == 0:
                return _num_div0(a, b)
            a2, b2 = lift(a), lift(b)
            return getattr(a2, op)(b2)
        if isinstance(a, _NUM) and isinstance(b, _NUM):
            with np.errstate(all="ignore"):
                return npf(a, b)
        import operator
        return getattr(operator, name)(a, b)

    return f


def _inf_arith(name, a, b):
    # x + inf, x - inf, inf - x, x/inf
    if name == "add":
        return a if not _finite(a) else b
    if name == "sub":
        return a if not _finite(a) else -b
    if name == "truediv" and not _finite(b):
        return 0.0
    if name == "mul":
        s, i = (a, b) if is_symval(a) else (b, a)
        return i if bool(s > 0) else -i
    raise Unsupported("inf in " + name)


def _num_div0(a, b):
    with np.errstate(all="ignore"):
        return complex(np.complex128(a) / b) if isinstance(
            a, complex) else float(np.float64(a) / b)


def _un(name, npf):

    def f(a):
        if isinstance(a, SymBool):
            a = a.num()
        if isinstance(a, Sym):
            return getattr(a, name)()
        if isinstance(a, _NUM):
            with np.errstate(all="ignore"):
                r = npf(a)
            return complex(r) if np.iscomplexobj(r) else float(r)
        return getattr(a, name)()

    return f


def _exactun(name):

    def f(a):
        a2 = lift(a)
        if a2 is None:
            raise Unsupported(name)
        return getattr(a2, name)()

    return f


def _cmpf(name):
    import operator

    def f(a, b):
        if isinstance(a, (Sym, SymBool)):
            return getattr(operator, name)(a, b)
        if isinstance(b, (Sym, SymBool)):
            rn = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(
                name, name)
            return getattr(operator, rn)(b, a)
        return bool(getattr(operator, name)(a, b))

    return f


def _land(a, b):
    return S.mk_bool(T.f_and([S.form_of(a), S.form_of(b)]))


def _lor(a, b):
    return S.mk_bool(T.f_or([S.form_of(a), S.form_of(b)]))


def _lnot(a):
    return S.mk_bool(T.f_not(S.form_of(a)))


def _lxor(a, b):
    return _lor(_land(a, _lnot(b)), _land(_lnot(a), b))


def _max(a, b):
    if is_symval(a) or is_symval(b):
        return ite(_cmpf("ge")(a, b), a, b)
    return max(a, b)


def _min(a, b):
    if is_symval(a) or is_symval(b):
        return ite(_cmpf("le")(a, b), a, b)
    return min(a, b)


def _abs(a):
    return abs(lift(a)) if isinstance(a, (Sym, SymBool)) or _finite(
        a) else abs(a)


def _conj(a):
    return a.conjugate()


def _pow(a, b):
    if isinstance(b, Sym) and b.is_const():
        b = b.re.value()
    a2 = lift(a)
    if a2 is None:
        return a**b
    if isinstance(b, Sym):
        if a2.is_const():
            return b.__rpow__(a2.re.value())
        return a2**b
    if isinstance(b, (int, Fraction)) or float(b).is_integer():
        if a2.is_const() and a2 == 0 and b < 0:
            return math.inf
        return a2**(int(b) if not isinstance(b, Fraction) else b)
    if a2.is_const():
        v = complex(a2) if a2.im is not None else float(a2)
        return v**float(b)
    return a2**b


def _arctan2(a, b):
    la, lb = lift(a), lift(b)
    if la.is_const() and lb.is_const():
        return math.atan2(float(la), float(lb))
    return Sym(T.p_fun("angle", lb.re, la.re))


def _floordiv(a, b):
    return lift(a) // lift(b)


def _mod(a, b):
    return lift(a) % lift(b)


def _neg(a):
    return -a


def _boolret(v):

    def f(a):
        if is_symval(a):
            return v
        return None

    return f


def _isnan(a):
    return False if is_symval(a) else bool(np.isnan(a))


def _isfinite(a):
    return True if is_symval(a) else bool(np.isfinite(a))


def _isinf(a):
    return False if is_symval(a) else bool(np.isinf(a))


def _add0(a, b):
    return _A(a, b)


_A = _arith("add", np.add)
_M = _arith("mul", np.multiply)
_bool01 = {
    "add": _lor,
    "mul": _land,
}


def _addb(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(
            b, (SymBool, bool, np.bool_)):
        # bool + bool is logical or for arrays; numbers when summing
        return lift(a) + lift(b)
    return _A(a, b)


ELEM = {
    "add": (_addb, 2, 0),
    "subtract": (_arith("sub", np.subtract), 2, None),
    "multiply": (_M, 2, 1),
    "divide": (_arith("truediv", np.divide), 2, None),
    "true_divide": (_arith("truediv", np.divide), 2, None),
    "floor_divide": (_floordiv, 2, None),
    "remainder": (_mod, 2, None),
    "power": (_pow, 2, None),
    "float_power": (_pow, 2, None),
    "negative": (_neg, 1, None),
    "positive": (lambda a: a, 1, None),
    "absolute": (_abs, 1, None),
    "fabs": (_abs, 1, None),
    "conjugate": (_conj, 1, None),
    "exp": (_un("exp", np.exp), 1, None),
    "log": (_un("log", np.log), 1, None),
    "sqrt": (_un("sqrt", np.sqrt), 1, None),
    "sin": (_un("sin", np.sin), 1, None),
    "cos": (_un("cos", np.cos), 1, None),
    "tan": (_un("tan", np.tan), 1, None),
    "tanh": (_un("tanh", np.tanh), 1, None),
    "arctan": (_un("arctan", np.arctan), 1, None),
    "arccos": (_un("arccos", np.arccos), 1, None),
    "arctan2": (_arctan2, 2, None),
    "floor": (_exactun("floor"), 1, None),
    "ceil": (_exactun("ceil"), 1, None),
    "rint": (_exactun("rint"), 1, None),
    "trunc": (_exactun("trunc"), 1, None),
    "sign": (_exactun("sign"), 1, None),
    "square": (_exactun("square"), 1, None),
    "reciprocal": (_exactun("reciprocal"), 1, None),
    "maximum": (_max, 2, None),
    "minimum": (_min, 2, None),
    "fmax": (_max, 2, None),
    "fmin": (_min, 2, None),
    "greater": (_cmpf("gt"), 2, None),
    "greater_equal": (_cmpf("ge"), 2, None),
    "less": (_cmpf("lt"), 2, None),
    "less_equal": (_cmpf("le"), 2, None),
    "equal": (_cmpf("eq"), 2, None),
    "not_equal": (_cmpf("ne"), 2, None),
    "logical_and": (_land, 2, True),
    "logical_or": (_lor, 2, False),
    "logical_not": (_lnot, 1, None),
    "logical_xor": (_lxor, 2, None),
    "bitwise_and": (_land, 2, None),
    "bitwise_or": (_lor, 2, None),
    "bitwise_xor": (_lxor, 2, None),
    "invert": (_lnot, 1, None),
    "isnan": (_isnan, 1, None),
    "isfinite": (_isfinite, 1, None),
    "isinf": (_isinf, 1, None),
    "hypot": (lambda a, b: (lift(a) * lift(a) + lift(b) * lift(b)).sqrt(), 2,
              None),
}
PYF = {
    k: np.frompyfunc(f, n, 1, identity=ident)
    for k, (f, n, ident) in ELEM.items()
}

INPLACE_FLOAT_ERR = ("Cannot cast ufunc '%s' output from dtype('complex128') "
                     "to dtype('float64') with casting rule 'same_kind'")


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if name == "matmul":
        ins = [_plain(x) for x in inputs]
        out = kw.pop("out", None)
        r = _matmul(*ins)
        if out is not None:
            out[0][...] = r
            return out[0]
        return wrap(r) if isinstance(r, np.ndarray) else r
    if name not in PYF:
        # nothing symbolic: run the real ufunc
        conc = [
            concretize(x) if isinstance(x, (Sym, np.ndarray)) else x
            for x in inputs
        ]
        if any(has_sym(x) for x in conc):
            raise Unsupported("ufunc " + name)
        out = kw.get("out")
        if out is not None and any(isinstance(o, SymArray) for o in out):
            kw = {k: v for k, v in kw.items() if k != "out"}
            r = getattr(ufunc, method)(*conc, **kw)
            out[0][...] = r
            return out[0]
        return getattr(ufunc, method)(*conc, **kw)
    pf = PYF[name]
    kw = dict(kw)
    out = kw.pop("out", None)
    kw.pop("casting", None)
    dt = kw.pop("dtype", None)
    where = kw.pop("where", True)
    if where is not True:
        raise Unsupported("ufunc where=")
    ins = [_plain(x) for x in inputs] if method != "at" else inputs
    if method == "__call__":
        kw.pop("subok", None)
        r = pf(*ins)
    elif method == "reduce":
        if kw.get("initial", None) is np._NoValue:
            kw.pop("initial")
        ax = kw.get("axis", 0)
        if isinstance(ax, tuple) and len(ax) > 1:
            # frompyfunc reduce is not reorderable over several axes
            arr = ins[0]
            nd = arr.ndim
            axs = sorted([a % nd for a in ax], reverse=True)
            kd = kw.pop("keepdims", False)
            kw.pop("axis")
            for a in axs:
                arr = pf.reduce(arr, axis=a, keepdims=bool(kd), **kw)
                if not isinstance(arr, np.ndarray):
                    arr = _plain(arr)
            r = arr if arr.ndim else arr[()]
        elif ax is None:
            arr = ins[0]
            kd = kw.pop("keepdims", False)
            nd = arr.ndim
            r = pf.reduce(arr.reshape(-1), axis=0,
                          **{k: v for k, v in kw.items() if k != "axis"})
            if kd:
                r = _plain(r).reshape((1, ) * nd)
        else:
            kd = kw.pop("keepdims", False)
            r = pf.reduce(ins[0], keepdims=bool(kd), **kw)
        if name == "add" and isinstance(r, (SymBool, bool)):
            r = lift(r)
    elif method in ("accumulate", "outer"):
        r = getattr(pf, method)(*ins, **kw)
    elif method == "at":
        a, idx, *b = ins
        for n_, i in enumerate(np.ndindex(np.shape(idx))):
            j = idx[i] if np.shape(idx) else idx
            a[j] = ELEM[name][0](a[j], *([b[0][i]] if b else []))
        return None
    else:
        raise Unsupported("ufunc method " + method)
    if out is not None:
        o = out[0]
        if not isinstance(o, np.ndarray):
            raise Unsupported("ufunc out")
        if isinstance(o, SymArray):
            if o._declared() == "f" and any(
                    _iscplx(e) for e in _plain(r).flat):
                raise np.core._exceptions._UFuncOutputCastingError(
                    ufunc, "same_kind", np.dtype(complex), np.dtype(float), 0)
            np.ndarray.__setitem__(o, ..., r)
            return o
        if o.dtype == object:
            o[...] = r
            return o.view(SymArray)
        rr = concretize(wrap(r)) if isinstance(r, np.ndarray) else concretize(r)
        if has_sym(rr):
            raise Unsupported("in-place update of a concrete array")
        o[...] = rr
        return o
    if isinstance(r, np.ndarray):
        r = wrap(r)
        if r.ndim == 0 and method != "outer":
            return _scal(r.view(np.ndarray)[()])
        return r
    return _scal(r)


def _matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError(
            "matmul: Input operand 0 does not have enough dimensions")
    if a.ndim <= 2 and b.ndim <= 2:
        a2 = a if a.ndim == 2 else a.reshape(1, -1)
        b2 = b if b.ndim == 2 else b.reshape(-1, 1)
        if a2.shape[1] != b2.shape[0]:
            raise ValueError("matmul: Input operand 1 has a mismatch in its "
                             "core dimension 0")
        out = np.empty((a2.shape[0], b2.shape[1]), object)
        for i in range(a2.shape[0]):
            for j in range(b2.shape[1]):
                s = 0.0
                for k in range(a2.shape[1]):
                    x, y = a2[i, k], b2[k, j]
                    if (not is_symval(x) and x == 0) or (not is_symval(y) and
                                                         y == 0):
                        continue
                    s = _A(s, _M(x, y))
                out[i, j] = s
        if a.ndim == 1 and b.ndim == 1:
            return _scal(out[0, 0])
        if a.ndim == 1:
            return out[0]
        if b.ndim == 1:
            return out[:, 0]
        return out
    # batched
    return np.matmul(a, b)


def _realise_index(idx):
    """Boolean symbolic masks and symbolic integer indices -> concrete."""
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, Sym):
        return idx.__index__()
    if isinstance(idx, tuple):
        return tuple(_realise_index(i) for i in idx)
    if isinstance(idx, slice):
        return slice(_ri(idx.start), _ri(idx.stop), _ri(idx.step))
    if isinstance(idx, np.ndarray) and idx.dtype == object or isinstance(
            idx, SymArray):
        p = np.ndarray.view(idx, np.ndarray)
        if p.size == 0:
            return p.astype(int)
        if all(isinstance(e, (SymBool, bool, np.bool_)) for e in p.flat):
            return np.array([bool(e) for e in p.flat],
                            dtype=bool).reshape(p.shape)
        return np.array([_sidx(e) for e in p.flat]).reshape(p.shape)
    if isinstance(idx, list) and has_sym(idx):
        return _realise_index(to_sym(idx))
    return idx


def _sidx(e):
    if isinstance(e, Sym):
        return e.__index__()
    if isinstance(e, float):
        raise IndexError(
            "arrays used as indices must be of integer (or boolean) type")
    return int(e)


def _ri(x):
    return x.__index__() if isinstance(x, Sym) else x


def _toint(e):
    if isinstance(e, (int, np.integer, SymBool)):
        return e
    if isinstance(e, float) and not np.isfinite(e):
        raise Unsupported("non-finite value stored in an integer array")
    return S.cast(e, np.dtype(int))


class SymArray(np.ndarray):
    """Object array of Sym / numbers that behaves like a float64 or
    complex128 array."""

    def __array_finalize__(self, obj):
        self._k = getattr(obj, "_k", None)

    # -- dtype as the real program would see it
    def _declared(self):
        return self._k

    @property
    def dtype(self):
        k = self._k
        p = np.ndarray.view(self, np.ndarray)
        if k in ("c", ):
            return np.dtype(complex)
        anyc = False
        allb = p.size > 0
        alli = p.size > 0
        for e in p.flat:
            if not isinstance(e, (SymBool, bool, np.bool_)):
                allb = False
            if _iscplx(e):
                anyc = True
            if not (isinstance(e, (int, np.integer)) or
                    (isinstance(e, Sym) and T.all_int(e.re) and
                     e.im is None and not e.is_const())):
                alli = False
        if anyc:
            return np.dtype(complex)
        if allb:
            return np.dtype(bool)
        if alli and k != "f":
            return np.dtype(int)
        return np.dtype(float)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return array_function(func, args, kwargs)

    def __array_wrap__(self, arr, context=None):
        return wrap(arr)

    @property
    def real(self):
        return _map(lambda e: e.real, self, "f")

    @real.setter
    def real(self, v):
        v = np.broadcast_to(_plain(v), self.shape)
        p = self.view(np.ndarray)
        for i in np.ndindex(self.shape):
            e = lift(p[i])
            p[i] = Sym(lift(v[i]).re, e.im)

    @property
    def imag(self):
        return _map(lambda e: e.imag, self, "f")

    def conj(self):
        return _map(_conj, self)

    conjugate = conj

    @property
    def T(self):
        return self.transpose()

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        if dt is object:
            return self.copy()
        d = np.dtype(dt)
        r = _map(lambda e: S.cast(e, d), self)
        r._k = d.kind
        if d.kind in "iub":
            c = [e for e in r.view(np.ndarray).flat]
            if not any(is_symval(e) and not (isinstance(e, Sym) and e.is_const(
            )) for e in c):
                return np.array([int(e) for e in c],
                                dtype=d).reshape(self.shape)
        return r

    def copy(self, order="C"):
        r = np.ndarray.copy(self.view(np.ndarray)).view(SymArray)
        r._k = self._k
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        return (_unpickle_arr, (self.shape, [e for e in self.view(
            np.ndarray).flat], self._k))

    def __getitem__(self, idx):
        idx = _realise_index(idx)
        r = np.ndarray.__getitem__(self, idx)
        if isinstance(r, np.ndarray):
            return r
        return _scal(r)

    def __setitem__(self, idx, v):
        if isinstance(idx, SymArray) and idx.shape == self.shape and any(
                isinstance(e, SymBool) for e in idx.view(np.ndarray).flat):
            if np.ndim(v) == 0 or np.shape(v) == self.shape:
                p = self.view(np.ndarray)
                vv = np.broadcast_to(_plain(v), self.shape)
                for i in np.ndindex(self.shape):
                    p[i] = ite(np.ndarray.view(idx, np.ndarray)[i], vv[i],
                               p[i])
                return
        idx = _realise_index(idx)
        if isinstance(v, (list, tuple)) and has_sym(v):
            v = to_sym(v)
        if self._k in ("f", "i"):
            if isinstance(v, np.ndarray):
                if any(_iscplx(e) for e in _plain(v).flat):
                    v = wrap(_plain(v)).real  # numpy: ComplexWarning, drops imag
            elif _iscplx(v):
                raise TypeError(
                    "float() argument must be a string or a real number, "
                    "not 'complex'")
        if isinstance(v, np.ndarray):
            v = _plain(v)
            if v.ndim == 0:
                v = v[()]
            elif v.size == 1 and not isinstance(
                    np.ndarray.__getitem__(self, idx), np.ndarray):
                v = v.reshape(-1)[0]
        if self._k == "i":  # stores into an integer array truncate
            if isinstance(v, np.ndarray):
                v = _plain(_map(_toint, v))
            else:
                v = _toint(v)
        np.ndarray.__setitem__(self, idx, v)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        return np.ndarray.__bool__(np.zeros(self.shape))

    def __float__(self):
        return float(self.item())

    def __complex__(self):
        return complex(self.item())

    def __int__(self):
        return int(self.item())

    def item(self, *a):
        return _scal(self.view(np.ndarray).item(*a))

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, np.ndarray) else x for x in self]

    # reductions
    def sum(self, axis=None, dtype=None, out=None, **k):
        return _sum(self, axis, k.get("keepdims", False))

    def prod(self, axis=None, dtype=None, out=None, **k):
        return np.multiply.reduce(self, axis=axis)

    def mean(self, axis=None, dtype=None, out=None, **k):
        n = self.size if axis is None else np.prod(
            [self.shape[a] for a in np.atleast_1d(axis)])
        return _sum(self, axis, k.get("keepdims", False)) / int(n)

    def max(self, axis=None, out=None, **k):
        return np.maximum.reduce(self, axis=axis)

    def min(self, axis=None, out=None, **k):
        return np.minimum.reduce(self, axis=axis)

    def any(self, axis=None, out=None, **k):
        return np.logical_or.reduce(self, axis=axis)

    def all(self, axis=None, out=None, **k):
        return np.logical_and.reduce(self, axis=axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self.flatten() if axis is None else self
        return np.add.accumulate(a, axis=axis or 0)

    def cumprod(self, axis=None, dtype=None, out=None):
        a = self.flatten() if axis is None else self
        return np.multiply.accumulate(a, axis=axis or 0)

    def dot(self, b, out=None):
        return h_dot(self, b)

    def argmax(self, axis=None, out=None, **k):
        return h_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return h_argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return h_argsort(self, axis)

    def sort(self, axis=-1, **k):
        np.ndarray.__setitem__(self, ..., h_sort(self, axis).view(np.ndarray))

    def nonzero(self):
        return h_nonzero(self)

    def clip(self, min=None, max=None, out=None, **k):
        return h_clip(self, min, max)

    def round(self, decimals=0, out=None):
        return h_round(self, decimals)

    def trace(self, *a, **k):
        return _sum(np.diagonal(self))

    def __eq__(self, o):
        return np.equal(self, o)

    def __ne__(self, o):
        return np.not_equal(self, o)

    __hash__ = None

    def __contains__(self, x):
        return bool((self == x).any())


def _unpickle_arr(shape, elems, k):
    r = np.empty(len(elems), object)
    for i, e in enumerate(elems):
        r[i] = e
    r = r.reshape(shape).view(SymArray)
    r._k = k
    return r


def _map(f, arr, k=None):
    p = _plain(arr)
    r = np.empty(p.shape, object)
    rf = r.reshape(-1)
    for i, e in enumerate(p.reshape(-1)):
        rf[i] = f(e)
    r = r.view(SymArray)
    r._k = k
    return r


def _sum(a, axis=None, keepdims=False):
    p = _plain(a)
    if p.size == 0 and axis is None:
        return 0.0
    if axis is None and not keepdims:
        s = 0.0
        for e in p.flat:
            s = _addb(s, e)
        return _scal(s)
    r = PYF["add"].reduce(p, axis=axis, keepdims=keepdims) if not isinstance(
        axis, tuple) else array_ufunc(np.add, "reduce", (p.view(SymArray), ), {
            "axis": axis,
            "keepdims": keepdims
        })
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return _scal(r[()])
        return _map(lambda e: lift(e) if isinstance(e, (SymBool, bool)) else e,
                    r)
    return _scal(r)


# ------------------------------------------------------------ functions
def h_dot(a, b, out=None):
    pa, pb = _plain(a), _plain(b)
    if pa.ndim == 0 or pb.ndim == 0:
        return np.multiply(wrap(pa), wrap(pb))
    r = _matmul(pa, pb)
    return wrap(r) if isinstance(r, np.ndarray) else r


def h_vdot(a, b):
    return h_dot(wrap(_plain(a)).conj().reshape(-1), _plain(b).reshape(-1))


def _cmp_key(a, b):
    return bool(_cmpf("lt")(a, b))


def _sort_list(xs, idx=False):
    """Stable merge sort with symbolic comparisons (forks)."""
    n = len(xs)
    if n <= 1:
        return xs
    bad = [x for x in xs if isinstance(x[0], float) and x[0] != x[0]]
    if bad:  # nan sorts last
        return _sort_list([x for x in xs
                           if not (isinstance(x[0], float) and
                                   x[0] != x[0])]) + bad
    l = _sort_list(xs[:n // 2])
    r = _sort_list(xs[n // 2:])
    out = []
    i = j = 0
    while i < len(l) and j < len(r):
        if bool(_cmpf("lt")(r[j][0], l[i][0])):
            out.append(r[j])
            j += 1
        else:
            out.append(l[i])
            i += 1
    return out + l[i:] + r[j:]


def h_argsort(a, axis=-1, **k):
    a = wrap(_plain(a))
    if a.ndim != 1:
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.zeros(m.shape, int)
        for i in np.ndindex(m.shape[:-1]):
            out[i] = h_argsort(m[i])
        return np.moveaxis(out, -1, axis)
    s = _sort_list([(_scal(e), i) for i, e in enumerate(a.view(np.ndarray))])
    return np.array([i for _, i in s], dtype=int)


def h_ediff1d(ary, to_end=None, to_begin=None):
    a = wrap(_plain(ary)).reshape(-1)
    out = [a[i + 1] - a[i] for i in range(len(a) - 1)]
    pre = [] if to_begin is None else list(np.ravel(_plain(to_begin)))
    post = [] if to_end is None else list(np.ravel(_plain(to_end)))
    return to_sym(pre + out + post)


def h_sort(a, axis=-1, **k):
    a = wrap(_plain(a))
    if a.ndim == 1:
        s = _sort_list([(_scal(e), i)
                        for i, e in enumerate(a.view(np.ndarray))])
        return to_sym([e for e, _ in s]) if len(s) else a.copy()
    r = a.copy()
    m = np.moveaxis(r.view(np.ndarray), axis, -1)
    for i in np.ndindex(m.shape[:-1]):
        s = _sort_list([(_scal(e), j) for j, e in enumerate(m[i])])
        for j, (e, _) in enumerate(s):
            m[i + (j, )] = e
    return r


def _arg(a, axis, better):
    a = wrap(_plain(a))
    if axis is None:
        p = a.view(np.ndarray).reshape(-1)
        bi = 0
        for i in range(1, len(p)):
            if bool(better(p[i], p[bi])):
                bi = i
        return bi
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.zeros(m.shape[:-1], int)
    for i in np.ndindex(m.shape[:-1]):
        out[i] = _arg(m[i], None, better)
    return out if out.ndim else int(out)


def h_argmax(a, axis=None, **k):
    return _arg(a, axis, _cmpf("gt"))


def h_argmin(a, axis=None, **k):
    return _arg(a, axis, _cmpf("lt"))


def h_nonzero(a):
    a = wrap(_plain(a))
    mask = np.array([bool(S.mk_bool(S.form_of(e))) for e in a.view(
        np.ndarray).flat], dtype=bool).reshape(a.shape)
    return np.nonzero(mask)


def h_clip(a, a_min=None, a_max=None, out=None, **k):
    r = a
    if a_min is not None:
        r = np.maximum(wrap(_plain(r)), a_min)
    if a_max is not None:
        r = np.minimum(wrap(_plain(r)), a_max)
    return r


def h_round(a, decimals=0, out=None):
    if decimals:
        return np.rint(wrap(_plain(a)) * 10**decimals) / 10**decimals
    return np.rint(wrap(_plain(a)))


def h_unique(a, return_index=False, return_inverse=False, return_counts=False,
             axis=None, **k):
    if return_index or return_inverse or return_counts or axis is not None:
        raise Unsupported("unique with extra outputs")
    s = h_sort(wrap(_plain(a)).reshape(-1))
    out = []
    for e in s:
        if not out or not bool(_cmpf("eq")(e, out[-1])):
            out.append(e)
    return to_sym(out) if out else s


def h_searchsorted(a, v, side="left", sorter=None):
    a = wrap(_plain(a)).view(np.ndarray)
    lt = _cmpf("lt") if side == "left" else _cmpf("le")

    def one(x):
        lo, hi = 0, len(a)
        while lo < hi:
            m = (lo + hi) // 2
            if bool(lt(a[m], x)):
                lo = m + 1
            else:
                hi = m
        return lo

    if np.ndim(v) == 0:
        return one(v if not isinstance(v, np.ndarray) else v[()])
    v = wrap(_plain(v))
    return np.array([one(x) for x in v.view(np.ndarray).reshape(-1)],
                    dtype=int).reshape(v.shape)


def h_digitize(x, bins, right=False):
    return h_searchsorted(bins, x, side="left" if right else "right")


def h_interp(x, xp, fp, left=None, right=None, period=None):
    xp = [_scal(e) for e in _plain(xp)]
    fp = [_scal(e) for e in _plain(fp)]

    def one(x):
        r = fp[-1] if right is None else right
        out = r
        for i in reversed(range(len(xp) - 1)):
            seg = fp[i] + (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) * (x -
                                                                      xp[i])
            out = ite(_cmpf("lt")(x, xp[i + 1]), seg, out)
        out = ite(_cmpf("eq")(x, xp[-1]), fp[-1], out)
        return ite(_cmpf("lt")(x, xp[0]), fp[0] if left is None else left, out)

    if np.ndim(x) == 0:
        return one(x)
    return _map(one, x)


def h_norm(x, ord=None, axis=None, keepdims=False):
    if axis is not None:
        a = np.abs(wrap(_plain(x)))
        if ord in (None, 2):
            return np.sqrt(_sum(a * a, axis, keepdims))
        if ord == 1:
            return _sum(a, axis, keepdims)
        if ord in (np.inf, ):
            return np.maximum.reduce(a, axis=axis)
        raise Unsupported("norm")
    v = wrap(_plain(x)).reshape(-1)
    if ord in (None, 2, "fro"):
        s = lift(0)
        for e in v.view(np.ndarray):
            l = lift(e)
            s = s + Sym(l.re * l.re +
                        (l.im * l.im if l.im is not None else T.ZERO))
        return s.sqrt()
    if ord == np.inf:
        return np.abs(v).max()
    if ord == 1:
        return _sum(np.abs(v))
    p = S.exact(ord)
    return _sum(np.abs(v)**p)**(Fraction(1) / Fraction(p))


def h_inv(a):
    a = wrap(_plain(a))
    n = a.shape[0]
    if n == 1:
        return to_sym([[1 / a[0, 0]]])
    if n == 2:
        d = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        return to_sym([[a[1, 1] / d, -a[0, 1] / d],
                       [-a[1, 0] / d, a[0, 0] / d]])
    if n == 3:
        def m(i, j):
            r = [k for k in range(3) if k != i]
            c = [k for k in range(3) if k != j]
            return a[r[0], c[0]] * a[r[1], c[1]] - a[r[0], c[1]] * a[r[1],
                                                                     c[0]]
        d = sum((-1)**j * a[0, j] * m(0, j) for j in range(3))
        return to_sym([[(-1)**(i + j) * m(j, i) / d for j in range(3)]
                       for i in range(3)])
    raise Unsupported("matrix inverse n>3")


def h_where(c, x=None, y=None):
    if x is None and y is None:
        return h_nonzero(c)
    c, x, y = np.broadcast_arrays(_plain(c), _plain(x), _plain(y))
    r = np.empty(c.shape, object)
    for i in np.ndindex(c.shape):
        r[i] = ite(c[i], x[i], y[i])
    if r.ndim == 0:
        return to_sym(r)
    return r.view(SymArray)


def h_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = wrap(_plain(a)), wrap(_plain(b))
    return np.less_equal(np.abs(a - b), atol + rtol * np.abs(b))


def h_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.logical_and.reduce(wrap(_plain(h_isclose(a, b, rtol, atol))),
                                      axis=None))


def h_array_equal(a, b, **k):
    if np.shape(a) != np.shape(b):
        return False
    return bool(
        np.logical_and.reduce(np.equal(wrap(_plain(a)), wrap(_plain(b))),
                              axis=None))


def h_iscomplexobj(x):
    if isinstance(x, Sym):
        return x.im is not None
    return wrap(_plain(x)).dtype.kind == "c"


def h_isreal(x):
    f = lambda e: S.mk_bool(T.f_cmp("eq", S._im(lift(e))))
    if np.ndim(x) == 0:
        return f(_plain(x)[()])
    return _map(f, x)


def h_angle(z, deg=False):
    f = lambda e: lift(e).angle() if not lift(e).is_const() else float(
        np.angle(complex(lift(e))))
    if np.ndim(z) == 0:
        return f(_plain(z)[()])
    return _map(f, z)


def h_diff(a, n=1, axis=-1, prepend=None, append=None):
    a = wrap(_plain(a))
    if prepend is not None or append is not None:
        raise Unsupported("diff prepend")
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


def h_average(a, axis=None, weights=None, **k):
    a = wrap(_plain(a))
    if weights is None:
        return a.mean(axis=axis)
    w = wrap(_plain(weights))
    return _sum(a * w, axis) / _sum(w, axis)


def h_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
               axis=0):
    num = int(num)
    div = num - 1 if endpoint else num
    step = (stop - start) / div if div > 0 else float("nan")
    if np.ndim(start) or np.ndim(stop):
        raise Unsupported("linspace arrays")
    out = [start + i * step if div > 0 else lift(start) for i in range(num)]
    if endpoint and num > 1:
        out[-1] = stop
    r = to_sym(out) if out else np.zeros(0)
    return (r, step) if retstep else r


def h_arange(*args, dtype=None):
    if len(args) == 1:
        a, b, st = 0, args[0], 1
    elif len(args) == 2:
        (a, b), st = args, 1
    else:
        a, b, st = args
    n = ((lift(b) - lift(a)) / lift(st)).ceil()
    n = max(int(n), 0)
    return to_sym([a + i * st for i in range(n)]) if n else np.zeros(0)


def h_zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    k = np.dtype(dtype).kind if dtype is not None else wrap(_plain(a)).dtype.kind
    return _filled(np.shape(a), 0, k)


def h_ones_like(a, dtype=None, order="K", subok=True, shape=None):
    k = np.dtype(dtype).kind if dtype is not None else wrap(_plain(a)).dtype.kind
    return _filled(np.shape(a), 1, k)


def h_full_like(a, fill_value, dtype=None, **kk):
    k = np.dtype(dtype).kind if dtype is not None else wrap(_plain(a)).dtype.kind
    return _filled(np.shape(a), fill_value, k)


def _filled(shape, v, k):
    if isinstance(shape, (Sym, )):
        shape = shape.__index__()
    elif isinstance(shape, (tuple, list, np.ndarray)):
        shape = tuple(
            x.__index__() if isinstance(x, Sym) else int(x) for x in shape)
    if k in "iub":
        return np.full(shape, v, dtype={"i": int, "u": int, "b": bool}[k])
    r = np.empty(shape, object)
    if not is_symval(v):
        v = complex(v) if k == "c" else float(v)
    r[...] = _plain(v)
    r = r.view(SymArray)
    r._k = k
    return r


def h_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = wrap(_plain(a)), wrap(_plain(b))
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.moveaxis(a, axisa, 0)
    b = np.moveaxis(b, axisb, 0)
    r = [
        a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0]
    ]
    return np.moveaxis(h_stack(r), 0, axisc)


def h_outer(a, b, out=None):
    a, b = wrap(_plain(a)).reshape(-1), wrap(_plain(b)).reshape(-1)
    return a[:, None] * b[None, :]


def h_kron(a, b):
    a, b = wrap(_plain(a)), wrap(_plain(b))
    if a.ndim == 1 and b.ndim == 1:
        return h_outer(a, b).reshape(-1)
    if a.ndim == 2 and b.ndim == 2:
        r = a[:, None, :, None] * b[None, :, None, :]
        return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])
    raise Unsupported("kron nd")


def _seq(arrs):
    return [_plain(a) for a in arrs]


def h_concatenate(arrs, axis=0, **k):
    return wrap(np.concatenate(_seq(arrs), axis=axis))


def h_stack(arrs, axis=0, **k):
    return wrap(np.stack(_seq(arrs), axis=axis))


def h_hstack(arrs, **k):
    return wrap(np.hstack(_seq(arrs)))


def h_vstack(arrs, **k):
    return wrap(np.vstack(_seq(arrs)))


def h_meshgrid(*xi, **k):
    return [wrap(x) for x in np.meshgrid(*[_plain(x) for x in xi], **k)]


def h_append(arr, values, axis=None):
    a, v = _plain(arr), _plain(values)
    if axis is None:
        return wrap(np.concatenate([a.reshape(-1), v.reshape(-1)]))
    return wrap(np.concatenate([a, v], axis=axis))


def _kind(a):
    if isinstance(a, SymArray):
        return a._k
    if has_sym(a):
        return None
    return np.asarray(a).dtype.kind


def h_insert(arr, obj, values, axis=None):
    k = _kind(arr)
    if k in ("i", "u"):  # numpy casts the values to the type of the array
        values = _map(lambda e: S.cast(e, np.dtype(int)),
                      to_sym(values)) if np.ndim(values) else S.cast(
                          values, np.dtype(int))
    r = wrap(np.insert(_plain(arr), obj, _plain(values), axis=axis))
    if isinstance(r, SymArray) and k in ("i", "u"):
        r._k = "i"
    return r


def h_real(x):
    if isinstance(x, Sym):
        return x.real
    return wrap(_plain(x)).real


def h_imag(x):
    if isinstance(x, Sym):
        return x.imag
    return wrap(_plain(x)).imag


def h_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _sum(_plain(a), axis, bool(keepdims) and keepdims is not np._NoValue)


def h_prod(a, axis=None, **k):
    p = _plain(a)
    if p.size == 0:
        return np.prod(np.zeros(p.shape), axis=axis)
    return np.multiply.reduce(wrap(p), axis=axis)


def h_max(a, axis=None, *r, **k):
    return wrap(_plain(a)).max(axis=axis)


def h_min(a, axis=None, *r, **k):
    return wrap(_plain(a)).min(axis=axis)


def h_any(a, axis=None, *r, **k):
    return wrap(_plain(a)).any(axis=axis)


def h_all(a, axis=None, *r, **k):
    return wrap(_plain(a)).all(axis=axis)


def h_mean(a, axis=None, *r, **k):
    return wrap(_plain(a)).mean(axis=axis)


def h_cumsum(a, axis=None, *r, **k):
    return wrap(_plain(a)).cumsum(axis=axis)


def h_copy(a, *r, **k):
    return wrap(_plain(a)).copy()


def h_einsum(spec, *ops, **k):
    return wrap(np.einsum(spec, *[_plain(o) for o in ops], optimize=False))


def h_trapz(y, x=None, dx=1.0, axis=-1):
    y = wrap(_plain(y))
    d = h_diff(x) if x is not None else dx
    return _sum((y[1:] + y[:-1]) / 2 * d)


def h_count_nonzero(a, axis=None, **k):
    return len(h_nonzero(a)[0])


def h_interp_guard(*a, **k):
    raise Unsupported("function")


def h_round_(a, decimals=0, out=None):
    return h_round(a, decimals)


def h_vander(*a, **k):
    raise Unsupported("vander")


def h_flip(m, axis=None):
    return wrap(np.flip(_plain(m), axis=axis))


def h_nan_to_num(x, *a, **k):
    return x


def h_shape(a):
    return np.shape(_plain(a))


def h_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def h_diag(v, k=0):
    return wrap(np.diag(_plain(v), k))


def h_tensordot(a, b, axes=2):
    return wrap(np.tensordot(_plain(a), _plain(b), axes=axes))


def h_broadcast_to(a, shape, **k):
    return wrap(np.broadcast_to(_plain(a), shape))


HAND = {
    "real": h_real, "imag": h_imag, "sum": h_sum, "prod": h_prod,
    "max": h_max, "amax": h_max, "min": h_min, "amin": h_min,
    "any": h_any, "all": h_all, "mean": h_mean, "cumsum": h_cumsum,
    "argmax": h_argmax, "argmin": h_argmin, "argsort": h_argsort,
    "sort": h_sort, "nonzero": h_nonzero, "clip": h_clip,
    "round": h_round, "around": h_round_, "round_": h_round_,
    "ediff1d": h_ediff1d,
    "unique": h_unique, "searchsorted": h_searchsorted,
    "digitize": h_digitize, "interp": h_interp, "where": h_where,
    "isclose": h_isclose, "allclose": h_allclose,
    "array_equal": h_array_equal, "iscomplexobj": h_iscomplexobj,
    "isrealobj": lambda x: not h_iscomplexobj(x), "isreal": h_isreal,
    "iscomplex": lambda x: ~wrap(_plain(h_isreal(x))),
    "angle": h_angle, "diff": h_diff, "average": h_average,
    "linspace": h_linspace, "arange": h_arange,
    "zeros_like": h_zeros_like, "ones_like": h_ones_like,
    "empty_like": h_zeros_like, "full_like": h_full_like,
    "cross": h_cross, "outer": h_outer, "kron": h_kron,
    "dot": h_dot, "vdot": h_vdot, "inner": lambda a, b: h_dot(a, b),
    "concatenate": h_concatenate, "stack": h_stack, "hstack": h_hstack,
    "vstack": h_vstack, "row_stack": h_vstack, "meshgrid": h_meshgrid,
    "append": h_append, "insert": h_insert, "copy": h_copy,
    "einsum": h_einsum, "trapz": h_trapz, "count_nonzero": h_count_nonzero,
    "norm": h_norm, "inv": h_inv, "flip": h_flip, "shape": h_shape,
    "diag": h_diag, "nan_to_num": h_nan_to_num, "tensordot": h_tensordot,
    "broadcast_to": h_broadcast_to, "isscalar": h_isscalar,
}


def array_function(func, args, kwargs):
    h = HAND.get(func.__name__)
    if h is not None:
        return h(*args, **kwargs)
    return _default(func, args, kwargs)


def _strip(x, depth=0):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (Sym, SymBool)):
        return _plain(x)
    if isinstance(x, (list, tuple)) and depth < 4 and has_sym(x):
        return type(x)(_strip(e, depth + 1) for e in x)
    return x


def _rewrap(r):
    if isinstance(r, np.ndarray):
        return wrap(r)
    if isinstance(r, list):
        return [_rewrap(x) for x in r]
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(_rewrap(x) for x in r)
    return r


# functions that only move elements around: the real implementation is used
STRUCTURAL = {
    "reshape", "ravel", "squeeze", "expand_dims", "transpose", "moveaxis",
    "swapaxes", "roll", "rot90", "flipud", "fliplr", "tile", "repeat",
    "split", "array_split", "hsplit", "vsplit", "delete", "pad", "take",
    "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_arrays", "size",
    "ndim", "diagonal", "triu", "tril", "column_stack", "dstack", "block",
    "rollaxis", "resize", "ix_", "asfortranarray", "ascontiguousarray",
    "copyto", "compress", "may_share_memory", "shares_memory", "matrix_power"
}


def _default(func, args, kwargs):
    if func.__name__ not in STRUCTURAL:
        # nothing symbolic left after all?
        cargs = [
            concretize(a) if isinstance(a, (Sym, np.ndarray)) else a
            for a in args
        ]
        if not any(has_sym(a) for a in cargs) and not any(
                has_sym(v) for v in kwargs.values()):
            return func(*cargs, **kwargs)
        raise Unsupported("numpy function " + func.__name__)
    if func.__name__ == "copyto":
        args[0][...] = args[1]
        return None
    args = [_strip(a) for a in args]
    kwargs = {k: _strip(v) for k, v in kwargs.items()}
    return _rewrap(func(*args, **kwargs))


# ------------------------------------------------------------ module proxy
class _Proxy(types.ModuleType):
    """Attribute access falls through to the real module."""

    def __init__(self, real, name=None):
        super().__init__(name or real.__name__)
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


def _mk_func(f, handler):

    def g(*args, **kwargs):
        if any(has_sym(a) for a in args) or any(
                has_sym(v) for v in kwargs.values()):
            if handler is not None:
                return handler(*args, **kwargs)
            return _default(f, args, kwargs)
        return wrap(f(*args, **kwargs))

    g.__name__ = f.__name__
    return g


class _UfuncProxy:
    """A ufunc that also accepts lists with symbolic content."""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def _prep(self, args):
        return [
            to_sym(a) if isinstance(a, (list, tuple)) and has_sym(a) else a
            for a in args
        ]

    def __call__(self, *args, **kw):
        return self._uf(*self._prep(args), **kw)

    def reduce(self, *args, **kw):
        return self._uf.reduce(*self._prep(args), **kw)

    def __getattr__(self, n):
        return getattr(self._uf, n)


def _shape_arg(shape):
    if isinstance(shape, Sym):
        return shape.__index__()
    if isinstance(shape, (tuple, list)) and has_sym(shape):
        return tuple(x.__index__() if isinstance(x, Sym) else x
                     for x in shape)
    if isinstance(shape, SymArray):
        return tuple(int(x) for x in shape)
    return shape


def _dk(dtype):
    return np.dtype(dtype).kind if dtype is not None else "f"


def np_zeros(shape, dtype=float, order="C"):
    shape = _shape_arg(shape)
    if dtype is object:
        return np.zeros(shape, dtype)
    k = _dk(dtype)
    if k in "fc":
        return _filled(shape, 0, k)
    return np.zeros(shape, dtype)


def np_ones(shape, dtype=None, order="C"):
    shape = _shape_arg(shape)
    k = _dk(dtype)
    if k in "fc":
        return _filled(shape, 1, k)
    return np.ones(shape, dtype)


def np_full(shape, fill_value, dtype=None, order="C"):
    shape = _shape_arg(shape)
    if dtype is None:
        k = "c" if _iscplx(fill_value) else (
            "f" if is_symval(fill_value) else np.array(fill_value).dtype.kind)
    else:
        k = _dk(dtype)
    if k in "fc":
        return _filled(shape, fill_value, k)
    return np.full(shape, fill_value, dtype)


def np_array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0,
             like=None):
    if has_sym(obj):
        return to_sym(obj, dtype, copy, ndmin)
    kw = {}
    r = np.array(obj, dtype=dtype, copy=copy, order=order, ndmin=ndmin)
    if r.dtype == object:
        return wrap(r) if r.size and all(
            isinstance(e, _NUM) for e in r.flat) else r
    if r.dtype.kind in "fc" and r.size <= 4096:
        k = r.dtype.kind
        r = r.astype(object).view(SymArray)
        r._k = k
    return r


def np_asarray(obj, dtype=None, order=None, **k):
    if has_sym(obj):
        return to_sym(obj, dtype, copy=False)
    if isinstance(obj, (list, tuple, float, complex)):
        return np_array(obj, dtype=dtype)
    return np.asarray(obj, dtype=dtype, order=order)


def np_like(v):

    def f(a, dtype=None, **k):
        if has_sym(a):
            return (h_zeros_like if v == 0 else h_ones_like)(a, dtype)
        kind = np.dtype(dtype).kind if dtype is not None else np.asarray(
            a).dtype.kind
        if kind in "fc":
            return _filled(np.shape(a), v, kind)
        return (np.zeros_like if v == 0 else np.ones_like)(a, dtype)

    return f


def np_full_like(a, fill_value, dtype=None, **k):
    kind = np.dtype(dtype).kind if dtype is not None else wrap(
        _plain(a)).dtype.kind if has_sym(a) else np.asarray(a).dtype.kind
    if kind in "fc":
        return _filled(np.shape(a), fill_value, kind)
    if is_symval(fill_value):
        fill_value = fill_value.__int__()
    return np.full_like(a, fill_value, dtype)


def np_eye(n, m=None, k=0, dtype=float, **kw):
    r = np.eye(int(n), None if m is None else int(m), k)
    return to_sym(r.tolist()) if r.size else r


class _RClass:

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key, )
        if has_sym(list(key)):
            parts = []
            for x in key:
                parts.append(
                    np.atleast_1d(_plain(x)) if not isinstance(x, slice) else
                    _plain(np.r_[x]))
            return wrap(np.concatenate(parts))
        return np.r_[key]


class _LinalgProxy(_Proxy):

    def __init__(self):
        super().__init__(np.linalg)
        self.norm = _mk_func(np.linalg.norm, h_norm)
        self.inv = _mk_func(np.linalg.inv, h_inv)


class SymMatrix(SymArray):
    """np.matrix of symbols: only transposes and conversion."""

    @property
    def H(self):
        return np.conjugate(np.ndarray.view(
            np.ndarray.transpose(self), SymArray)).view(SymMatrix)

    getH = H

    def __mul__(self, o):
        raise Unsupported("matrix product")

    __rmul__ = __pow__ = __mul__


def np_matrix(data, *a, **k):
    if isinstance(data, np.ndarray) and has_sym(data):
        r = wrap(np.array(data.view(np.ndarray), dtype=object))
        if r.ndim < 2:
            r = np.reshape(r, (1, -1))
        return r.view(SymMatrix)
    return np.matrix(data, *a, **k)


class NumpyProxy(_Proxy):

    def __init__(self):
        super().__init__(np)
        d = self.__dict__
        self.linalg = _LinalgProxy()
        self.zeros = np_zeros
        self.empty = np_zeros
        self.ones = np_ones
        self.full = np_full
        self.array = np_array
        self.asarray = np_asarray
        self.asanyarray = np_asarray
        self.zeros_like = np_like(0)
        self.empty_like = np_like(0)
        self.ones_like = np_like(1)
        self.full_like = np_full_like
        self.eye = np_eye
        self.identity = lambda n, dtype=None: np_eye(n)
        self.r_ = _RClass()
        self.vectorize = np.vectorize
        self.matrix = np_matrix
        self.isscalar = h_isscalar
        for n, h in HAND.items():
            if n in d or n in ("norm", "inv"):
                continue
            if hasattr(np, n):
                d[n] = _mk_func(getattr(np, n), h)

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            v = _UfuncProxy(v)
            self.__dict__[name] = v
        elif name in STRUCTURAL:
            v = _mk_func(v, None)
            self.__dict__[name] = v
        return v


NP = NumpyProxy()


class MathProxy(_Proxy):

    def __init__(self):
        super().__init__(math)
        for n, (f, k, _) in ELEM.items():
            if n in ("floor", "ceil", "sqrt", "exp", "log", "sin", "cos",
                     "tan", "tanh", "trunc", "isnan", "isinf", "isfinite",
                     "hypot", "fabs"):
                self.__dict__[n] = self._w(n, f)
        self.__dict__["pow"] = lambda a, b: _pow(a, b) if has_sym(
            [a, b]) else math.pow(a, b)
        self.__dict__["atan"] = lambda a: a.arctan() if is_symval(
            a) else math.atan(a)
        self.__dict__["acos"] = lambda a: a.arccos() if is_symval(
            a) else math.acos(a)
        self.__dict__["isclose"] = self._isclose

    @staticmethod
    def _w(n, f):
        real = getattr(math, n)

        def g(*a):
            if has_sym(list(a)):
                r = f(*a)
                if n in ("floor", "ceil", "trunc") and r.is_const():
                    return int(r)
                return r
            return real(*a)

        return g

    @staticmethod
    def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if has_sym([a, b]):
            return _cmpf("le")(_abs(a - b),
                               _max(rel_tol * _max(_abs(a), _abs(b)), abs_tol))
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


MATH = MathProxy()
