"""Symbolic scalars (`Sym`), booleans (`SymBool`) and path exploration."""
import cmath
import math
import numbers
import time
from fractions import Fraction

import numpy as np
import z3

from symx import terms as T
from symx.terms import Poly, Unsupported, exact


class PathAbort(BaseException):
    """The current path is infeasible or was cut."""


class Ctx:
    """State of one symbolic run (one path)."""
    cur = None

    def __init__(self, prefix=(), stats=None, opts=None):
        self.opts = opts or {}
        self.prefix = list(prefix)
        self.trace = []  # decisions taken: bool
        self.pending = []  # alternative prefixes discovered
        self.path = []  # list of Form assumed
        self.memo = {}
        self.tr = T.ToZ3()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.opts.get("branch_timeout_ms", 4000))
        self.model = None
        self.stats = stats if stats is not None else {}
        self.denoms = set()

    # --- bookkeeping
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.count("solver_s", time.time() - t0)
        self.count("branch_queries")
        return r

    def add(self, form):
        """Adds a constraint to the path."""
        if form is T.TRUE:
            return
        self.path.append(form)
        self.memo[form] = True
        self.memo[T.f_not(form)] = False
        z = self.tr.form(form)
        for d in self.tr.take_defs():
            self.solver.add(d)
        self.solver.add(z)

    def assume(self, form):
        if form is T.FALSE:
            raise PathAbort()
        if form is T.TRUE:
            return
        self.add(form)
        if self._check() == z3.unsat:
            raise PathAbort()

    def decide(self, form):
        """Truth of `form` on this path, forking if both are possible."""
        if form is T.TRUE:
            return True
        if form is T.FALSE:
            return False
        v = self.memo.get(form)
        if v is not None:
            return v
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trace.append(v)
            self.add(form if v else T.f_not(form))
            return v
        z = self.tr.form(form)
        for d in self.tr.take_defs():
            self.solver.add(d)
        can_t = self._check(z) != z3.unsat
        can_f = self._check(z3.Not(z)) != z3.unsat if can_t else True
        if not can_t and not can_f:
            raise PathAbort()
        if can_t and can_f:
            v = True
            self.pending.append(self.trace + [False])
            self.count("forks")
        else:
            v = can_t
        self.trace.append(v)
        self.add(form if v else T.f_not(form))
        return v

    def nonzero(self, p):
        """Records that code divides by p (p != 0 from here on)."""
        if p.is_const():
            return
        if len(p.t) == 1:
            (m, _), = p.t.items()
            for a, _ in m:
                q = Poly.atom(T.ATOMS[a])
                if q in self.denoms:
                    continue
                self.denoms.add(q)
                self._nz(q)
        else:
            lead = min(p.t)
            q = p.scale(Fraction(1) / p.t[lead])
            if q not in self.denoms:
                self.denoms.add(q)
                self._nz(q)

    def _nz(self, q):
        f = T.f_cmp("eq", q)
        if self.opts.get("check_div"):
            if self.decide(f):
                raise ZeroDivisionError("symbolic division by zero")
            return
        nf = T.f_not(f)
        if self.memo.get(nf) is True:
            return
        self.add(nf)


def ctx():
    c = Ctx.cur
    if c is None:
        raise Unsupported("symbolic branch outside exploration")
    return c


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("f", )
    __array_priority__ = 1000

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ctx().decide(self.f)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mk_bool(T.f_and([self.f, form_of(o)]))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mk_bool(T.f_or([self.f, form_of(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mk_bool(T.f_not(self.f))

    def logical_not(self):
        return mk_bool(T.f_not(self.f))

    def __xor__(self, o):
        g = form_of(o)
        return mk_bool(
            T.f_or([
                T.f_and([self.f, T.f_not(g)]),
                T.f_and([T.f_not(self.f), g])
            ]))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not isinstance(o, (SymBool, bool, np.bool_, int, Sym)):
            return False
        return ~(self ^ o) if not isinstance(o, Sym) else self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else inv_bool(r)

    __hash__ = None

    def num(self):
        return Sym(T.p_ite(self.f, T.ONE, T.ZERO))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "SymBool(%r)" % self.f

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symx import symnp
        return symnp.array_ufunc(ufunc, method, inputs, kw)


def _num_op(name):

    def f(self, o):
        return getattr(self.num(), name)(o)

    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv",
           "lt", "le", "gt", "ge", "neg", "pow"):
    if _n == "neg":
        SymBool.__neg__ = lambda self: -self.num()
    else:
        setattr(SymBool, "__%s__" % _n, _num_op("__%s__" % _n))


def inv_bool(b):
    if isinstance(b, SymBool):
        return ~b
    return not b


def mk_bool(f):
    if f is T.TRUE:
        return True
    if f is T.FALSE:
        return False
    return SymBool(f)


def form_of(b):
    if isinstance(b, SymBool):
        return b.f
    if isinstance(b, Sym):
        return T.f_not(form_of(b == 0))
    return T.TRUE if b else T.FALSE


# ---------------------------------------------------------------- numbers
class Sym:
    """A real or complex symbolic number. `im is None` means real."""
    __slots__ = ("re", "im")
    __array_priority__ = 1000

    def __init__(self, re, im=None):
        self.re = re
        self.im = im

    # numpy-scalar-like attributes
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self):
        return mk(self.re)

    @property
    def imag(self):
        return mk(self.im) if self.im is not None else 0.0

    @property
    def dtype(self):
        return np.dtype(float if self.im is None else complex)

    @property
    def T(self):
        return self

    def conjugate(self):
        return Sym(self.re, self.im.neg()) if self.im is not None else self

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, *a, **k):
        return cast(self, dt)

    def squeeze(self):
        return self

    def flatten(self, *a):
        from symx import symnp
        return symnp.to_sym([self])

    ravel = flatten

    def tolist(self):
        return self

    def sum(self, *a, **k):
        return self

    def any(self):
        return self != 0

    all = any

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_unpickle, (self.re.t, self.im.t if self.im is not None else
                            None))

    def is_const(self):
        return self.re.is_const() and (self.im is None or self.im.is_const())

    # --- arithmetic
    def __add__(self, o):
        raw = o
        if nonfinite(o):
            return _nf_add(o)
        o = lift(o)
        if o is None:
            if isinstance(raw, list):
                return self + _as_array(raw)
            return NotImplemented
        if self.im is None and o.im is None:
            return Sym(self.re + o.re)
        return Sym(self.re + o.re, _im(self) + _im(o))

    __radd__ = __add__

    def __neg__(self):
        return Sym(self.re.neg(), None if self.im is None else self.im.neg())

    def __pos__(self):
        return self

    def __sub__(self, o):
        raw = o
        if nonfinite(o):
            return _nf_add(-o)
        o = lift(o)
        if o is None:
            if isinstance(raw, list):
                return self - _as_array(raw)
            return NotImplemented
        if self.im is None and o.im is None:
            return Sym(self.re - o.re)
        return Sym(self.re - o.re, _im(self) - _im(o))

    def __rsub__(self, o):
        raw = o
        if nonfinite(o):
            return _nf_add(o)
        o = lift(o)
        if o is None:
            if isinstance(raw, list):
                return _as_array(raw) - self
            return NotImplemented
        return o - self

    def __mul__(self, o):
        raw = o
        if nonfinite(o):
            return _nf_mul(self, o)
        o = lift(o)
        if o is None:
            if isinstance(raw, list):
                return self * _as_array(raw)
            return NotImplemented
        if self.im is None and o.im is None:
            return Sym(self.re * o.re)
        if o.im is None:
            return Sym(self.re * o.re, self.im * o.re)
        if self.im is None:
            return Sym(self.re * o.re, self.re * o.im)
        return Sym(self.re * o.re - self.im * o.im,
                   self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def reciprocal(self):
        if self.im is None:
            if Ctx.cur is not None:
                Ctx.cur.nonzero(self.re)
            return Sym(self.re.inv())
        n = self.re * self.re + self.im * self.im
        if Ctx.cur is not None:
            Ctx.cur.nonzero(n)
        ni = n.inv()
        return Sym(self.re * ni, (self.im * ni).neg())

    def __truediv__(self, o):
        raw = o
        if nonfinite(o):
            return float("nan") if o != o else Sym(T.ZERO)
        o = lift(o)
        if o is None:
            if isinstance(raw, list):
                return self / _as_array(raw)
            return NotImplemented
        if (Ctx.cur is not None and Ctx.cur.opts.get("ieee_div") and
                _im(o) == T.ZERO and _im(self) == T.ZERO):
            # IEEE division by zero (the sign of zero is not modelled)
            if Ctx.cur.decide(T.f_cmp("eq", o.re)):
                if Ctx.cur.decide(T.f_cmp("eq", self.re)):
                    return float("nan")
                if Ctx.cur.decide(T.f_cmp("lt", self.re)):
                    return float("-inf")
                return float("inf")
        if o.im is None and self.im is None and o.re == self.re and o.re.t:
            if Ctx.cur is not None:
                Ctx.cur.nonzero(o.re)
            return Sym(T.ONE)
        return self * o.reciprocal()

    def __rtruediv__(self, o):
        raw = o
        if nonfinite(o):
            return _nf_mul(self, o)
        o = lift(o)
        if o is None:
            if isinstance(raw, list):
                return _as_array(raw) / self
            return NotImplemented
        return o / self

    def __pow__(self, o, mod=None):
        if isinstance(o, Sym):
            if not o.is_const():
                raise Unsupported("symbolic exponent")
            if o.im is not None and o.im:
                raise Unsupported("complex exponent")
            e = Fraction(o.re.value())
        elif isinstance(o, (numbers.Real, np.number)):
            e = Fraction(exact(o))
        elif isinstance(o, np.ndarray):
            return NotImplemented
        else:
            return NotImplemented
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                return (self**(-n)).reciprocal()
            r = Sym(T.ONE)
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if self.im is not None and self.im:
            raise Unsupported("fractional power of complex")
        if e.denominator == 2:
            s = self.sqrt()
            return s**int(e.numerator)
        if Ctx.cur is not None:
            Ctx.cur.assume(T.f_not(T.f_cmp("le", self.re)))
        return Sym(T.p_rpow(self.re, e))

    def __rpow__(self, o):
        b = float(o)
        if b <= 0:
            raise Unsupported("symbolic exponent of non-positive base")
        return (self * math.log(b)).exp()

    def __abs__(self):
        if self.im is None or not self.im:
            p = self.re
            if p.is_const():
                return Sym(Poly.const(abs(p.value())))
            return Sym(T.p_ite(T.f_cmp("lt", p), p.neg(), p))
        return Sym(T.p_sqrt(self.re * self.re + self.im * self.im))

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (lift(o) / self).floor()

    def __mod__(self, o):
        return self - (self / o).floor() * o

    def __rmod__(self, o):
        return lift(o) % self

    # --- functions
    def _real(self, what):
        if self.im is not None and self.im:
            raise Unsupported(what + " of complex")
        return self.re

    def floor(self):
        return Sym(T.p_floor(self._real("floor")))

    def ceil(self):
        return Sym(T.p_floor(self._real("ceil").neg()).neg())

    def rint(self):
        p = self._real("round")
        if p.is_const():
            return Sym(Poly.const(round(Fraction(p.value()))))
        # half to even
        f = T.p_floor(p + Poly.const(Fraction(1, 2)))
        tie = T.f_cmp("eq", p + Poly.const(Fraction(1, 2)) - f)
        odd = T.f_not(
            T.f_cmp("eq", f - T.p_floor(f.scale(Fraction(1, 2))).scale(2)))
        return Sym(T.p_ite(T.f_and([tie, odd]), f - T.ONE, f))

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def trunc(self):
        p = self._real("trunc")
        return Sym(
            T.p_ite(T.f_cmp("lt", p),
                    T.p_floor(p.neg()).neg(), T.p_floor(p)))

    def __round__(self, n=None):
        if n:
            return (self * 10**n).rint() / 10**n
        return self.rint()

    def sqrt(self):
        if self.im is not None and self.im:
            # principal square root
            r = abs(self).re
            a = T.p_sqrt((r + self.re).scale(Fraction(1, 2)))
            b = T.p_sqrt((r - self.re).scale(Fraction(1, 2)))
            return Sym(a, T.p_ite(T.f_cmp("lt", self.im), b.neg(), b))
        p = self.re
        if p.is_const() and p.value() < 0:
            raise Unsupported("sqrt of a negative real")
        if not p.is_const() and Ctx.cur is not None:
            # perfect squares
            sq = _perfect_square(p)
            if sq is not None:
                return abs(Sym(sq))
            Ctx.cur.assume(T.f_cmp("le", p.neg()))
        return Sym(T.p_sqrt(p))

    def exp(self):
        e = _exp_real(self.re)
        if self.im is None:
            return Sym(e)
        c, s = _cos(self.im), _sin(self.im)
        return Sym(e * c, e * s)

    def log(self):
        p = self._real("log")
        if p.is_const():
            return Sym(Poly.const(math.log(p.value())))
        if Ctx.cur is not None:
            Ctx.cur.assume(T.f_not(T.f_cmp("le", p)))
        return Sym(T.p_log(p))

    def cos(self):
        return Sym(_cos(self._real("cos")))

    def sin(self):
        return Sym(_sin(self._real("sin")))

    def tan(self):
        return self.sin() / self.cos()

    def tanh(self):
        p = self._real("tanh")
        if p.is_const():
            return Sym(Poly.const(math.tanh(p.value())))
        return Sym(T.p_tanh(p))

    def arctan(self):
        return Sym(T.p_fun("arctan", self._real("arctan")))

    def arccos(self):
        return Sym(T.p_fun("arccos", self._real("arccos")))

    def angle(self):
        return Sym(T.p_fun("angle", self.re, _im(self)))

    def sign(self):
        p = self._real("sign")
        return Sym(
            T.p_ite(T.f_cmp("lt", p), Poly.const(-1),
                    T.p_ite(T.f_cmp("eq", p), T.ZERO, T.ONE)))

    def square(self):
        return self * self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    # --- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            big = o > 0
            return {"lt": big, "le": big, "gt": not big, "ge": not big}[op]
        if isinstance(o, (float, np.floating)) and o != o:
            return False
        o = lift(o)
        if o is None:
            return NotImplemented
        a, b = self._real("ordering"), o._real("ordering")
        if op == "lt":
            return mk_bool(T.f_cmp("lt", a - b))
        if op == "le":
            return mk_bool(T.f_cmp("le", a - b))
        if op == "gt":
            return mk_bool(T.f_cmp("lt", b - a))
        return mk_bool(T.f_cmp("le", b - a))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and (math.isinf(o) or o != o):
            return False
        try:
            o = lift(o)
        except Unsupported:
            return False
        if o is None:
            return False
        fs = [T.f_cmp("eq", self.re - o.re)]
        if self.im is not None or o.im is not None:
            fs.append(T.f_cmp("eq", _im(self) - _im(o)))
        return mk_bool(T.f_and(fs))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else inv_bool(r)

    def __hash__(self):
        if self.is_const():
            if self.im is None or not self.im:
                return hash(Fraction(self.re.value()))
            return hash(
                complex(self.re.value(), self.im.value()))
        return hash((self.re.key(),
                     self.im.key() if self.im is not None else None))

    def __bool__(self):
        r = self != 0
        return bool(r)

    # --- concretisation
    def _const(self, what):
        if not self.is_const():
            raise Unsupported(what + " of a symbolic value")
        return self.re.value()

    def __float__(self):
        return float(self._const("float()"))

    def __complex__(self):
        v = self._const("complex()")
        return complex(v, 0 if self.im is None else self.im.value())

    def __int__(self):
        p = self._real("int()")
        if p.is_const():
            return int(p.value())
        return concretize_int(self.trunc().re)

    def __trunc__(self):
        return self.__int__()

    def __index__(self):
        p = self._real("index")
        if p.is_const():
            v = p.value()
            if not isinstance(v, int):
                raise TypeError("non-integer index")
            return v
        if not T.all_int(p):
            raise TypeError(
                "'numpy.float64' object cannot be interpreted as an integer")
        return concretize_int(p)

    def is_integer(self):
        p = self.re
        if T.all_int(p):
            return True
        return mk_bool(T.f_cmp("eq", p - T.p_floor(p)))

    def __repr__(self):
        if self.im is None:
            return "Sym(%r)" % self.re
        return "Sym(%r, %r)" % (self.re, self.im)

    def __format__(self, spec):
        return repr(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symx import symnp
        return symnp.array_ufunc(ufunc, method, inputs, kw)

    def __getitem__(self, idx):
        if idx == () or idx is Ellipsis:
            return self
        if idx is None:
            from symx import symnp
            return symnp.to_sym([self])
        raise IndexError("invalid index to scalar variable.")


numbers.Complex.register(Sym)
numbers.Real.register(Sym)


def _unpickle(re, im):
    return Sym(Poly(re), None if im is None else Poly(im))


def nonfinite(o):
    if isinstance(o, (float, np.floating)):
        return o != o or o in (math.inf, -math.inf)
    if isinstance(o, (complex, np.complexfloating)):
        return not (math.isfinite(o.real) and math.isfinite(o.imag))
    return False


def _nf_add(o):
    """finite + o for a non-finite o."""
    if isinstance(o, (complex, np.complexfloating)):
        if math.isfinite(o.real) or math.isfinite(o.imag):
            raise Unsupported("partially non-finite complex number")
        return complex(o)
    return float(o)


def _nf_mul(s, o):
    if isinstance(o, (complex, np.complexfloating)) or _im(s) != T.ZERO:
        raise Unsupported("non-finite complex product")
    if o != o:
        return float("nan")
    if ctx().decide(T.f_cmp("eq", s.re)):
        return float("nan")
    return float(-o if ctx().decide(T.f_cmp("lt", s.re)) else o)


def _im(s):
    return s.im if s.im is not None else T.ZERO


def mk(p):
    return Sym(p)


def _perfect_square(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            v = Fraction(c)
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return Poly({
                    tuple((a, e // 2) for a, e in m): T._q(Fraction(n, d))
                })
    return None


def _exp_real(p):
    if p.is_const():
        return Poly.const(math.exp(p.value())) if p.t else T.ONE
    return T.p_exp(p)


def _cos(p):
    if p.is_const():
        return Poly.const(math.cos(p.value())) if p.t else T.ONE
    return T.p_cos(p)


def _sin(p):
    if p.is_const():
        return Poly.const(math.sin(p.value())) if p.t else T.ZERO
    return T.p_sin(p)


def concretize_int(p):
    """Forks over the feasible integer values of p (must be bounded)."""
    c = ctx()
    for _ in range(c.opts.get("max_index_fork", 64)):
        # deterministic: smallest feasible value first
        z = c.tr.poly(p)
        for d in c.tr.take_defs():
            c.solver.add(d)
        k = len(c.trace)
        if c._check() != z3.sat:
            raise PathAbort()
        v = c.solver.model().eval(z, model_completion=True)
        v = _z3num(v)
        if v is None or v.denominator != 1:
            raise Unsupported("integer concretisation")
        v = int(v)
        # walk down to the least value for determinism across replays
        f = None
        lo = v
        while True:
            if c._check(z < lo) == z3.sat:
                lo = int(_z3num(c.solver.model().eval(z,
                                                      model_completion=True)))
                if lo < -10**6:
                    raise Unsupported("unbounded integer")
            else:
                break
        f = T.f_cmp("eq", p - Poly.const(lo))
        if c.decide(f):
            return lo
    raise Unsupported("too many integer values")


def _z3num(v):
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return Fraction(v.as_string()) if z3.is_int_value(v) else Fraction(
            v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def _as_array(x):
    """A list operand of a numpy scalar becomes an array."""
    from symx import symnp
    return symnp.to_sym(x)


def lift(o):
    """Sym for a number, None if `o` is not a scalar number."""
    if isinstance(o, Sym):
        return o
    if isinstance(o, SymBool):
        return o.num()
    if isinstance(o, (bool, np.bool_)):
        return Sym(T.ONE if o else T.ZERO)
    if isinstance(o, (int, float, Fraction, np.integer, np.floating)):
        return Sym(Poly.const(int(o) if isinstance(o, np.integer) else o))
    if isinstance(o, (complex, np.complexfloating)):
        o = complex(o)
        return Sym(Poly.const(o.real), Poly.const(o.imag))
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return None


def cast(x, dt):
    """x.astype(dt) for a scalar."""
    k = np.dtype(dt).kind if not (dt is object) else "O"
    if k == "f":
        if isinstance(x, Sym):
            return Sym(x.re)
        if isinstance(x, SymBool):
            return x.num()
        return x
    if k == "c":
        if isinstance(x, Sym):
            return x if x.im is not None else Sym(x.re, T.ZERO)
        if isinstance(x, SymBool):
            return x.num()
        return complex(x)
    if k in "iu":
        if isinstance(x, Sym):
            return x if T.all_int(x.re) else x.trunc()
        return int(x)
    if k == "b":
        return mk_bool(form_of(x)) if isinstance(x, (Sym, SymBool)) else bool(x)
    return x


def ite(c, a, b):
    """Scalar if-then-else without forking."""
    if not isinstance(c, (SymBool, Sym)):
        return a if c else b
    f = form_of(c)
    if f is T.TRUE:
        return a
    if f is T.FALSE:
        return b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(
            b, (SymBool, bool, np.bool_)):
        return mk_bool(
            T.f_or([
                T.f_and([f, form_of(a)]),
                T.f_and([T.f_not(f), form_of(b)])
            ]))
    la, lb = _try_lift(a), _try_lift(b)
    if la is None or lb is None:
        return a if bool(SymBool(f)) else b
    re = T.p_ite(f, la.re, lb.re)
    if la.im is None and lb.im is None:
        return Sym(re)
    return Sym(re, T.p_ite(f, _im(la), _im(lb)))


def _try_lift(a):
    try:
        return lift(a)
    except Unsupported:
        return None


def smax(a, b):
    if nonfinite(a) and a != a or nonfinite(b) and b != b:
        return float("nan")
    r = a >= b
    return ite(r, a, b)


def smin(a, b):
    if nonfinite(a) and a != a or nonfinite(b) and b != b:
        return float("nan")
    r = a <= b
    return ite(r, a, b)
