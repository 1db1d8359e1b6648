"""scipy.sparse for symbolic values: a dictionary-of-keys matrix `SymSparse`
and the module proxies the real sources see as `scipy`, `scipy.sparse`, ..."""
import numpy as np
import scipy
import scipy.linalg
import scipy.sparse
import scipy.sparse.linalg

from symx import symnp
from symx.sym import Sym, SymBool, Unsupported, lift
from symx.symnp import SymArray, _Proxy, _plain, concretize, to_sym, wrap


def _nz(v):
    if isinstance(v, Sym):
        return bool(v.re.t) or (v.im is not None and bool(v.im.t))
    return v != 0


def _ex(v):
    l = lift(v)
    if l is None:
        raise Unsupported("sparse entry %r" % (v, ))
    return l


class SymSparse:
    __array_ufunc__ = None
    __array_priority__ = 10.1
    ndim = 2

    def __init__(self, shape, d=None, cplx=False, fmt="csr"):
        self.shape = (int(shape[0]), int(shape[1]))
        self.d = d if d is not None else {}
        self.cplx = cplx
        self.format = fmt

    # -- basic
    def _new(self, d, shape=None, cplx=None):
        return SymSparse(self.shape if shape is None else shape, d,
                         self.cplx if cplx is None else cplx, self.format)

    @property
    def dtype(self):
        return np.dtype(complex if self.cplx or any(
            v.im is not None for v in self.d.values()) else float)

    @property
    def nnz(self):
        return len(self.d)

    def getnnz(self, axis=None):
        return len(self.d)

    def copy(self):
        return self._new(dict(self.d))

    def __deepcopy__(self, memo):
        return self.copy()

    def _fmt(fmt):

        def f(self, copy=False):
            r = self.copy()
            r.format = fmt
            return r

        return f

    tocsr, tocsc, tocoo, tolil, todok, todia = (_fmt("csr"), _fmt("csc"),
                                                _fmt("coo"), _fmt("lil"),
                                                _fmt("dok"), _fmt("dia"))

    def asformat(self, fmt, copy=False):
        return self.copy()

    def astype(self, dt, **k):
        k = np.dtype(dt).kind
        if k == "c":
            r = self.copy()
            r.cplx = True
            return r
        return self._new({i: Sym(v.re) for i, v in self.d.items()}, cplx=False)

    def sort_indices(self):
        pass

    def sum_duplicates(self):
        pass

    def eliminate_zeros(self):
        self.d = {k: v for k, v in self.d.items() if _nz(v)}

    def transpose(self, axes=None, copy=False):
        return self._new({(j, i): v for (i, j), v in self.d.items()},
                         (self.shape[1], self.shape[0]))

    @property
    def T(self):
        return self.transpose()

    def conjugate(self, copy=True):
        return self._new({k: v.conjugate() for k, v in self.d.items()})

    conj = conjugate

    @property
    def H(self):
        return self.transpose().conjugate()

    def getH(self):
        return self.H

    @property
    def real(self):
        return self._new({k: lift(v.real) for k, v in self.d.items()},
                         cplx=False)

    @property
    def imag(self):
        return self._new({k: lift(v.imag) for k, v in self.d.items()},
                         cplx=False)

    def toarray(self, *a, **k):
        r = symnp._filled(self.shape, 0, "c" if self.cplx else "f")
        p = r.view(np.ndarray)
        for (i, j), v in self.d.items():
            p[i, j] = v
        return r

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def diagonal(self, k=0):
        n = min(self.shape[0], self.shape[1] - k) if k >= 0 else min(
            self.shape[0] + k, self.shape[1])
        return to_sym([
            self.d.get((i, i + k) if k >= 0 else (i - k, i), lift(0))
            for i in range(n)
        ])

    def _coo(self):
        return sorted(self.d.items())

    @property
    def row(self):
        return np.array([i for (i, j), _ in self._coo()], dtype=int)

    @property
    def col(self):
        return np.array([j for (i, j), _ in self._coo()], dtype=int)

    @property
    def data(self):
        return to_sym([v for _, v in self._coo()])

    @property
    def indices(self):
        if self.format == "csc":
            return np.array([
                i for (i, j), _ in sorted(self.d.items(),
                                          key=lambda t: (t[0][1], t[0][0]))
            ], dtype=int)
        return self.col

    @indices.setter
    def indices(self, new):
        new = [int(v) for v in new]
        csc = self.format == "csc"
        old = sorted(self.d.items(), key=lambda t: (t[0][1], t[0][0])
                     if csc else t[0])
        d = {}
        for ((i, j), v), k in zip(old, new):
            q = (k, j) if csc else (i, k)
            d[q] = d[q] + v if q in d else v
        self.d = d

    @property
    def indptr(self):
        r = self.row
        return np.array([np.sum(r < k) for k in range(self.shape[0] + 1)])

    def nonzero(self):
        c = [(i, j) for (i, j), v in self._coo() if _nz(v)]
        return (np.array([i for i, _ in c], dtype=int),
                np.array([j for _, j in c], dtype=int))

    def sum(self, axis=None, **k):
        if axis is None:
            s = lift(0)
            for v in self.d.values():
                s = s + v
            return s
        ax = axis % 2
        out = [lift(0)] * self.shape[1 - ax]
        for (i, j), v in self.d.items():
            t = j if ax == 0 else i
            out[t] = out[t] + v
        r = to_sym(out)
        return r.reshape(1, -1) if ax == 0 else r.reshape(-1, 1)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and not np.isscalar(shape[0]):
            shape = shape[0]
        n = self.shape[0] * self.shape[1]
        shape = [int(s) for s in shape]
        if -1 in shape:
            i = shape.index(-1)
            shape[i] = n // shape[1 - i]
        d = {}
        for (i, j), v in self.d.items():
            f = i * self.shape[1] + j
            d[divmod(f, shape[1])] = v
        return self._new(d, tuple(shape))

    # -- indexing
    def __getitem__(self, idx):
        idx = symnp._realise_index(idx)
        if not isinstance(idx, tuple):
            idx = (idx, slice(None))
        ri, ci = idx

        def sel(x, n):
            if isinstance(x, (int, np.integer)):
                x = int(x)
                if x < -n or x >= n:
                    raise IndexError("index out of range")
                return [x % n], True
            return list(np.arange(n)[x]), False

        rows, r1 = sel(ri, self.shape[0])
        cols, c1 = sel(ci, self.shape[1])
        if r1 and c1:
            return self.d.get((rows[0], cols[0]), lift(0))
        if isinstance(ri, (list, np.ndarray)) and isinstance(
                ci, (list, np.ndarray)):
            raise Unsupported("fancy sparse index")
        cpos = {}
        for n_, c in enumerate(cols):
            cpos.setdefault(int(c), []).append(n_)
        rpos = {}
        for n_, r in enumerate(rows):
            rpos.setdefault(int(r), []).append(n_)
        d = {}
        for (i, j), v in self.d.items():
            for a in rpos.get(i, ()):
                for b in cpos.get(j, ()):
                    d[(a, b)] = v
        return self._new(d, (len(rows), len(cols)))

    def getrow(self, i):
        return self[i, :]

    def getcol(self, j):
        return self[:, j]

    def __setitem__(self, idx, v):
        i, j = symnp._realise_index(idx)
        rows = np.atleast_1d(np.arange(self.shape[0])[i])
        cols = np.atleast_1d(np.arange(self.shape[1])[j])
        if isinstance(i, (int, np.integer)) or isinstance(
                j, (int, np.integer)) or isinstance(i, slice) or isinstance(
                    j, slice):
            vv = np.broadcast_to(
                _plain(v.toarray() if isinstance(v, SymSparse) else v),
                (len(rows), len(cols)))
            for a, r in enumerate(rows):
                for b, c in enumerate(cols):
                    self._set(int(r), int(c), vv[a, b])
        else:
            rows, cols = np.broadcast_arrays(rows, cols)
            vv = np.broadcast_to(_plain(v), rows.shape)
            for a in np.ndindex(rows.shape):
                self._set(int(rows[a]), int(cols[a]), vv[a])

    def _set(self, r, c, v):
        v = _ex(v)
        if _nz(v):
            self.d[(r, c)] = v
        else:
            self.d.pop((r, c), None)

    def setdiag(self, values, k=0):
        vals = np.atleast_1d(_plain(values))
        n = min(self.shape[0] - max(0, -k), self.shape[1] - max(0, k))
        for t in range(n):
            v = vals[0] if vals.size == 1 else (vals[t] if t < len(vals) else
                                                None)
            if v is not None:
                self._set(t + max(0, -k), t + max(0, k), v)

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz() "
                        "or shape[0]")

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i, :]

    # -- arithmetic
    def _bin(self, o, sign):
        if isinstance(o, SymSparse):
            if o.shape != self.shape:
                raise ValueError("inconsistent shapes")
            d = dict(self.d)
            for k, v in o.d.items():
                s = d[k] + v * sign if k in d else v * sign
                if _nz(s):
                    d[k] = s
                else:
                    d.pop(k, None)
            return self._new(d, cplx=self.cplx or o.cplx)
        if scipy.sparse.issparse(o):
            return self._bin(from_any(o), sign)
        if isinstance(o, np.ndarray) and o.ndim:
            return self.toarray() + o * sign
        l = lift(o)
        if l is not None and not _nz(l):
            return self.copy()
        if l is None:
            return NotImplemented
        raise NotImplementedError(
            "adding a nonzero scalar to a sparse array is not supported")

    def __add__(self, o):
        return self._bin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, -1)

    def __rsub__(self, o):
        return (-self)._bin(o, 1)

    def __neg__(self):
        return self._new({k: -v for k, v in self.d.items()})

    def _scale(self, s):
        s = _ex(s)
        if not _nz(s):
            return self._new({})
        return self._new({k: v * s for k, v in self.d.items()},
                         cplx=self.cplx or s.im is not None)

    def _is_scalar(self, o):
        return isinstance(o, (Sym, SymBool)) or np.isscalar(o) or (isinstance(
            o, np.ndarray) and o.ndim == 0)

    def __mul__(self, o):
        if self._is_scalar(o):
            return self._scale(o if not isinstance(o, np.ndarray) else o[()])
        return self._mat(o)

    def __rmul__(self, o):
        if self._is_scalar(o):
            return self._scale(o if not isinstance(o, np.ndarray) else o[()])
        return self._rmat(o)

    def __matmul__(self, o):
        if self._is_scalar(o):
            raise ValueError(
                "Scalar operands are not allowed, use '*' instead")
        return self._mat(o)

    def __rmatmul__(self, o):
        if self._is_scalar(o):
            raise ValueError(
                "Scalar operands are not allowed, use '*' instead")
        return self._rmat(o)

    def dot(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if self._is_scalar(o):
            return self._scale(1 / _ex(o if not isinstance(o, np.ndarray) else
                                       o[()]))
        raise Unsupported("sparse division")

    def __pow__(self, n):
        n = int(n)
        r = eye(self.shape[0])
        for _ in range(n):
            r = r._mat(self)
        return r

    def power(self, n, dtype=None):
        return self._new({k: v**n for k, v in self.d.items()})

    def multiply(self, o):
        if self._is_scalar(o):
            return self._scale(o)
        if isinstance(o, SymSparse) or scipy.sparse.issparse(o):
            o = from_any(o)
            return self._new({
                k: v * o.d[k] for k, v in self.d.items() if k in o.d
            })
        b = np.broadcast_to(_plain(o), self.shape)
        return self._new({k: v * _ex(b[k]) for k, v in self.d.items()})

    def _mat(self, o):
        if isinstance(o, SymSparse) or scipy.sparse.issparse(o):
            o = from_any(o)
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            rows = {}
            for (i, j), v in o.d.items():
                rows.setdefault(i, []).append((j, v))
            d = {}
            for (i, k), v in self.d.items():
                for j, w in rows.get(k, ()):
                    t = v * w
                    key = (i, j)
                    d[key] = d[key] + t if key in d else t
            d = {k: v for k, v in d.items() if _nz(v)}
            return self._new(d, (self.shape[0], o.shape[1]),
                             cplx=self.cplx or o.cplx)
        if isinstance(o, (list, tuple)):
            o = symnp.np_array(o)
        if not isinstance(o, np.ndarray):
            return NotImplemented
        p = _plain(o)
        if p.ndim == 1:
            if p.shape[0] != self.shape[1]:
                raise ValueError("dimension mismatch")
            out = np.empty(self.shape[0], object)
            out[:] = 0.0
            for (i, j), v in self.d.items():
                x = p[j]
                if not isinstance(x, (Sym, SymBool)) and x == 0:
                    continue
                out[i] = out[i] + v * _ex(x)
            return wrap(out)
        if p.ndim == 2:
            if p.shape[0] != self.shape[1]:
                raise ValueError("dimension mismatch")
            cols = [self._mat(p[:, k]).view(np.ndarray)
                    for k in range(p.shape[1])]
            r = np.empty((self.shape[0], p.shape[1]), object)
            for k, c in enumerate(cols):
                r[:, k] = c
            return wrap(r)
        raise ValueError("dimension mismatch")

    def _rmat(self, o):
        if isinstance(o, SymSparse) or scipy.sparse.issparse(o):
            return from_any(o)._mat(self)
        r = self.transpose()._mat(np.asarray(_plain(o)).T)
        return r.T

    def max(self, *a, **k):
        return self.toarray().max()

    def min(self, *a, **k):
        return self.toarray().min()

    def __abs__(self):
        return self._new({k: abs(v) for k, v in self.d.items()})

    def __eq__(self, o):
        if isinstance(o, SymSparse):
            return self.toarray() == o.toarray()
        return NotImplemented

    __hash__ = object.__hash__

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all().")

    def count_nonzero(self):
        return sum(1 for v in self.d.values() if _nz(v))


def from_any(m, shape=None):
    if isinstance(m, SymSparse):
        return m
    if scipy.sparse.issparse(m):
        c = m.tocoo()
        r = SymSparse(c.shape, {}, np.iscomplexobj(c.data))
        for i, j, v in zip(c.row, c.col, c.data):
            k = (int(i), int(j))
            v = _ex(v)
            r.d[k] = r.d[k] + v if k in r.d else v
        return r
    p = _plain(m)
    if p.ndim == 1:
        p = p.reshape(1, -1)
    if p.ndim == 0:
        p = p.reshape(1, 1)
    r = SymSparse(p.shape, {}, symnp.wrap(p).dtype.kind == "c")
    for idx in np.ndindex(p.shape):
        v = _ex(p[idx])
        if _nz(v):
            r.d[idx] = v
    return r


def to_scipy(m, fmt="csr"):
    """Concrete scipy matrix, or Unsupported if symbolic."""
    if not isinstance(m, SymSparse):
        return m
    rows, cols, vals = [], [], []
    for (i, j), v in m.d.items():
        if not v.is_const():
            raise Unsupported("symbolic matrix in a concrete sparse routine")
        rows.append(i)
        cols.append(j)
        vals.append(complex(v) if m.dtype.kind == "c" else float(v))
    return scipy.sparse.coo_matrix((vals, (rows, cols)),
                                   shape=m.shape).asformat(fmt)


def _ctor(fmt):

    def f(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, SymSparse) or scipy.sparse.issparse(arg):
            r = from_any(arg).copy()
        elif isinstance(arg, tuple) and len(arg) == 2 and all(
                isinstance(x, (int, np.integer)) for x in arg):
            r = SymSparse(arg, {}, dtype is not None and
                          np.dtype(dtype).kind == "c")
        elif isinstance(arg, tuple) and len(arg) == 2:
            data, (ri, ci) = arg
            data = np.atleast_1d(_plain(data))
            ri = [int(x) for x in np.atleast_1d(
                symnp._realise_index(ri) if symnp.has_sym(ri) else ri)]
            ci = [int(x) for x in np.atleast_1d(
                symnp._realise_index(ci) if symnp.has_sym(ci) else ci)]
            if not (len(data) == len(ri) == len(ci)):
                raise ValueError("row, column, and data array must all be the "
                                 "same length")
            if shape is None:
                shape = (max(ri) + 1, max(ci) + 1)
            r = SymSparse(shape, {}, wrap(data).dtype.kind == "c")
            for v, i, j in zip(data, ri, ci):
                if i < 0 or j < 0 or i >= r.shape[0] or j >= r.shape[1]:
                    raise ValueError(
                        "row index exceeds matrix dimensions")
                v = _ex(v)
                k = (i, j)
                r.d[k] = r.d[k] + v if k in r.d else v
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = arg
            data = _plain(data)
            n = len(ptr) - 1
            if shape is None:
                m = max([int(x) for x in ind], default=-1) + 1
                shape = (n, m) if fmt != "csc" else (m, n)
            r = SymSparse(shape, {}, wrap(data).dtype.kind == "c")
            for a in range(n):
                for t in range(int(ptr[a]), int(ptr[a + 1])):
                    k = (a, int(ind[t])) if fmt != "csc" else (int(ind[t]), a)
                    if k[0] >= r.shape[0] or k[1] >= r.shape[1]:
                        raise ValueError("indices exceed matrix dimensions")
                    v = _ex(data[t])
                    r.d[k] = r.d[k] + v if k in r.d else v
        else:
            r = from_any(arg if not isinstance(arg, (list, tuple)) else
                         symnp.np_array(arg))
        if dtype is not None and np.dtype(dtype).kind == "c":
            r.cplx = True
        r.format = fmt
        return r

    f.__name__ = fmt + "_matrix"
    return f


def eye(m, n=None, k=0, dtype=float, format=None):
    m = int(m)
    n = m if n is None else int(n)
    d = {}
    for i in range(m):
        if 0 <= i + k < n:
            d[(i, i + k)] = lift(1)
    return SymSparse((m, n), d, np.dtype(dtype).kind == "c")


def identity(n, dtype="d", format=None):
    return eye(n, dtype=dtype)


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if np.ndim(offsets) == 0 and not isinstance(offsets, (list, tuple)):
        # scalar offset: diagonals may be a flat list or a list with one array
        if len(diagonals) == 0 or np.ndim(diagonals[0]) == 0:
            diagonals = [np.atleast_1d(_plain(symnp.np_array(diagonals)))]
        offsets = [offsets]
    diagonals = [np.atleast_1d(_plain(x)) for x in diagonals]
    offsets = [int(o) for o in np.atleast_1d(offsets)]
    if len(diagonals) != len(offsets):
        raise ValueError("Different number of diagonals and offsets.")
    if shape is None:
        m = len(diagonals[0]) + abs(offsets[0])
        shape = (m, m)
    m, n = int(shape[0]), int(shape[1])
    cp = any(wrap(x).dtype.kind == "c" for x in diagonals)
    r = SymSparse((m, n), {}, cp or (dtype is not None and
                                     np.dtype(dtype).kind == "c"))
    for dg, k in zip(diagonals, offsets):
        ln = min(m + min(k, 0), n - max(k, 0))
        if ln < 0:
            raise ValueError("Offset %d out of bounds" % k)
        if len(dg) != ln and len(dg) != 1:
            raise ValueError(
                "Diagonal length (index 0: %d at offset %d) does not agree "
                "with array size (%d, %d)." % (len(dg), k, m, n))
        for t in range(ln):
            v = _ex(dg[t] if len(dg) > 1 or ln == 1 else dg[0])
            key = (t + max(0, -k), t + max(0, k))
            if _nz(v):
                r.d[key] = r.d[key] + v if key in r.d else v
    return r


def spdiags(data, dg, m=None, n=None, format=None):
    if m is None:
        m, n = len(data[0]), len(data[0])
    data = _plain(symnp.np_array(data))
    if data.ndim == 1:
        data = data.reshape(1, -1)
    dg = np.atleast_1d(dg)
    r = SymSparse((m, n), {})
    for row, k in zip(data, dg):
        for j in range(min(n, len(row))):
            i = j - int(k)
            if 0 <= i < m:
                v = _ex(row[j])
                if _nz(v):
                    r.d[(i, j)] = v
    return r


def bmat(blocks, format=None, dtype=None):
    nr = len(blocks)
    nc = len(blocks[0])
    rh = [None] * nr
    cw = [None] * nc
    bl = [[None if b is None else from_any(b) for b in row] for row in blocks]
    for i in range(nr):
        for j in range(nc):
            b = bl[i][j]
            if b is None:
                continue
            if rh[i] is None:
                rh[i] = b.shape[0]
            elif rh[i] != b.shape[0]:
                raise ValueError("blocks[%d,:] has incompatible row "
                                 "dimensions." % i)
            if cw[j] is None:
                cw[j] = b.shape[1]
            elif cw[j] != b.shape[1]:
                raise ValueError("blocks[:,%d] has incompatible column "
                                 "dimensions." % j)
    if any(x is None for x in rh) or any(x is None for x in cw):
        raise ValueError("blocks row/column is all None")
    ro = np.concatenate([[0], np.cumsum(rh)])
    co = np.concatenate([[0], np.cumsum(cw)])
    d = {}
    cp = False
    for i in range(nr):
        for j in range(nc):
            b = bl[i][j]
            if b is None:
                continue
            cp = cp or b.cplx
            for (a, c), v in b.d.items():
                d[(int(ro[i] + a), int(co[j] + c))] = v
    return SymSparse((ro[-1], co[-1]), d, cp)


def vstack(blocks, format=None, dtype=None):
    return bmat([[b] for b in blocks])


def hstack(blocks, format=None, dtype=None):
    return bmat([list(blocks)])


def block_diag(mats, format=None, dtype=None):
    mats = [from_any(m) for m in mats]
    d = {}
    r0 = c0 = 0
    for m in mats:
        for (i, j), v in m.d.items():
            d[(i + r0, j + c0)] = v
        r0 += m.shape[0]
        c0 += m.shape[1]
    return SymSparse((r0, c0), d, any(m.cplx for m in mats))


def kron(A, B, format=None):
    A, B = from_any(A), from_any(B)
    d = {}
    for (i, j), v in A.d.items():
        for (k, l), w in B.d.items():
            t = v * w
            if _nz(t):
                d[(i * B.shape[0] + k, j * B.shape[1] + l)] = t
    return SymSparse((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), d,
                     A.cplx or B.cplx)


def issparse(x):
    return isinstance(x, SymSparse) or scipy.sparse.issparse(x)


class _Sub(_Proxy):
    pass


class SymLinOp:
    """aslinearoperator of a matrix with symbols."""

    def __init__(self, m):
        self.m, self.shape = m, m.shape

    def matvec(self, x):
        return self.m @ x

    matmat = dot = __matmul__ = __call__ = matvec

    def adjoint(self):
        m = self.m
        return SymLinOp(m.getH() if hasattr(m, "getH") else np.conj(
            np.transpose(m)))

    @property
    def H(self):
        return self.adjoint()

    def transpose(self):
        return SymLinOp(self.m.transpose())

    @property
    def T(self):
        return self.transpose()

    def rmatvec(self, x):
        return self.adjoint().matvec(x)


class SymFnOp:
    """scipy.sparse.linalg.LinearOperator(shape, matvec, rmatvec)."""
    __array_ufunc__ = None

    def __init__(self, shape, matvec, rmatvec=None, matmat=None, dtype=None,
                 rmatmat=None):
        self.shape = tuple(int(v) for v in shape)
        self._mv, self._rmv = matvec, rmatvec

    def matvec(self, x):
        if len(x) != self.shape[1]:
            raise ValueError("dimension mismatch")
        if np.ndim(x) == 2:
            cols = [self.matvec(x[:, k]) for k in range(np.shape(x)[1])]
            return symnp.NP.stack(cols, axis=1)
        return self._mv(x)

    matmat = dot = __matmul__ = __call__ = matvec

    def rmatvec(self, x):
        if self._rmv is None:
            raise NotImplementedError("rmatvec is not defined")
        if len(x) != self.shape[0]:
            raise ValueError("dimension mismatch")
        return self._rmv(x)

    def adjoint(self):
        return SymFnOp(self.shape[::-1], self.rmatvec, self.matvec)

    @property
    def H(self):
        return self.adjoint()

    def transpose(self):
        c = symnp.NP.conj
        return SymFnOp(self.shape[::-1], lambda x: c(self.rmatvec(c(x))),
                       lambda x: c(self.matvec(c(x))))

    @property
    def T(self):
        return self.transpose()

    def __rmatmul__(self, x):
        return self.transpose().matvec(x)


def _aslinop(m):
    if isinstance(m, (SymSparse, symnp.SymArray)):
        return SymLinOp(m)
    return scipy.sparse.linalg.aslinearoperator(m)


class SparseLinalg(_Proxy):
    """Hook points: harnesses may replace spsolve/eigs/... by stubs."""
    stubs = {}

    def __init__(self):
        super().__init__(scipy.sparse.linalg)

    def __getattr__(self, n):
        st = SparseLinalg.stubs.get(n)
        if st is not None:
            return st
        v = getattr(scipy.sparse.linalg, n)
        if n == "aslinearoperator":
            return _aslinop
        if n == "LinearOperator":
            return SymFnOp
        if n in ("spsolve", "eigs", "eigsh", "factorized", "splu", "inv",
                 "norm", "qmr", "bicg", "bicgstab", "cg", "gmres"):

            def call(*a, **k):
                st = SparseLinalg.stubs.get(n)
                if st is not None:
                    return st(*a, **k)
                a = [_conc(x) for x in a]
                k = {kk: _conc(x) for kk, x in k.items()}
                return v(*a, **k)

            return call
        return v


def _conc(x):
    if isinstance(x, SymSparse):
        return to_scipy(x, "csc")
    if isinstance(x, (Sym, np.ndarray)):
        r = concretize(x)
        if symnp.has_sym(r):
            raise Unsupported("symbolic data in a concrete scipy routine")
        return r
    return x


class SparseProxy(_Proxy):

    def __init__(self):
        super().__init__(scipy.sparse)
        d = self.__dict__
        for f in ("csr", "csc", "coo", "lil", "dok", "dia", "bsr"):
            d[f + "_matrix"] = _ctor(f)
            sub = _Sub(scipy.sparse, "scipy.sparse." + f)
            sub.__dict__[f + "_matrix"] = d[f + "_matrix"]
            if f in ("csr", "csc", "coo"):
                d[f] = sub
        for fn in (eye, identity, diags, spdiags, bmat, vstack, hstack,
                   block_diag, kron, issparse):
            d[fn.__name__] = fn
        d["isspmatrix"] = issparse
        d["linalg"] = SparseLinalg()


SPARSE = SparseProxy()


def _circulant(c):
    if symnp.has_sym(c):
        c = _plain(c).reshape(-1)
        n = len(c)
        r = np.empty((n, n), object)
        for i in range(n):
            for j in range(n):
                r[i, j] = c[(i - j) % n]
        return wrap(r)
    return scipy.linalg.circulant(c)


def _dense_block_diag(*arrs):
    if any(symnp.has_sym(a) for a in arrs):
        return block_diag([np.atleast_2d(_plain(a)) for a in arrs]).toarray()
    return scipy.linalg.block_diag(*arrs)


class DenseLinalg(_Proxy):

    def __init__(self):
        super().__init__(scipy.linalg)
        self.__dict__["circulant"] = _circulant
        self.__dict__["block_diag"] = _dense_block_diag
        self.__dict__["norm"] = symnp._mk_func(scipy.linalg.norm, symnp.h_norm)


class OptimizeProxy(_Proxy):
    stubs = {}

    def __init__(self):
        import scipy.optimize
        super().__init__(scipy.optimize)

    def __getattr__(self, n):
        if n in OptimizeProxy.stubs:
            return OptimizeProxy.stubs[n]
        v = getattr(scipy.optimize, n)
        if n == "minimize":

            def call(*a, **k):
                st = OptimizeProxy.stubs.get(n)
                return (st or v)(*a, **k)

            return call
        return v


OPTIMIZE = OptimizeProxy()
DLINALG = DenseLinalg()


class ScipyProxy(_Proxy):

    def __init__(self):
        super().__init__(scipy)
        self.__dict__["sparse"] = SPARSE
        self.__dict__["linalg"] = DLINALG
        self.__dict__["optimize"] = OPTIMIZE


SCIPY = ScipyProxy()
