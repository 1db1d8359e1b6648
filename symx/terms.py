"""Exact real terms: Laurent polynomials over hash-consed atoms, and formulas.

A `Poly` is a finite sum of coefficient * product of atom powers, with exact
rational coefficients.  Atoms are free variables or applications whose meaning
is given to the solver as a definition (inverse, square root, if-then-else,
floor, exp, ...).  `Form` is a quantifier free formula over polys.
Everything is translated to z3 (`ToZ3`) when a query is made.
"""
from fractions import Fraction
import math

import z3


class Unsupported(Exception):
    """The engine cannot encode what the code did."""


ATOMS = []
_ATOM_KEYS = {}
_REDUCE = {}  # atom id -> (power, Poly) : atom**power == Poly


class Atom:
    __slots__ = ("id", "kind", "args", "name", "is_int", "key")

    def __init__(self, kind, args, name, is_int):
        self.id = len(ATOMS)
        self.kind = kind
        self.args = args
        self.name = name
        self.is_int = is_int
        ATOMS.append(self)

    def __repr__(self):
        return self.name


def make_atom(kind, args, name=None, is_int=False):
    key = (kind, name if kind in ("var", ) else None) + tuple(
        a.key() if isinstance(a, (Poly, Form)) else a for a in args)
    at = _ATOM_KEYS.get(key)
    if at is None:
        at = Atom(kind, args, name, is_int)
        if at.name is None:
            at.name = "%s!%d" % (kind, at.id)
        at.key = key
        _ATOM_KEYS[key] = at
    return at


def _q(c):
    if isinstance(c, int):
        return c
    if isinstance(c, Fraction):
        return c.numerator if c.denominator == 1 else c
    raise TypeError(type(c))


def exact(x):
    """Exact rational value of a python/numpy real number."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return _q(x)
    f = float(x)
    if f != f or f in (math.inf, -math.inf):
        raise Unsupported("non-finite constant %r in symbolic arithmetic" % x)
    if f.is_integer() and abs(f) < 2**60:
        return int(f)
    return _q(Fraction(f))


class Poly:
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    # -- construction
    @staticmethod
    def const(c):
        c = exact(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a, e=1):
        return Poly({((a.id, e), ): 1})

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def value(self):
        return self.t.get((), 0)

    def __bool__(self):
        return bool(self.t)

    # -- ring operations
    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            s = r.get(m, 0) + c
            if s:
                r[m] = s if isinstance(s, int) else _q(s)
            else:
                r.pop(m, None)
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not o.t:
            return self
        return self + o.neg()

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: _q(v * c) for m, v in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if self.is_const():
            return o.scale(self.value())
        if o.is_const():
            return self.scale(o.value())
        a, b = self, o
        if len(a.t) * len(b.t) > 20000:
            if len(a.t) > len(b.t):
                a = name_poly(a)
            else:
                b = name_poly(b)
            if len(a.t) * len(b.t) > 20000:
                a, b = name_poly(a), name_poly(b)
        r = {}
        red = False
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m, rd = _mono_mul(m1, m2)
                red = red or rd
                s = r.get(m, 0) + c1 * c2
                if s:
                    r[m] = s if isinstance(s, int) else _q(s)
                else:
                    r.pop(m, None)
        if red:
            return _reduce(r)
        return Poly(r)

    def pow(self, n):
        if n == 0:
            return ONE
        if n < 0:
            return self.inv().pow(-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def inv(self):
        if not self.t:
            raise ZeroDivisionError("division by zero")
        if len(self.t) == 1:
            (m, c), = self.t.items()
            r = {tuple((a, -e) for a, e in m): _q(Fraction(1) / c)}
            if any(a in _REDUCE for a, _ in m):
                return _reduce(r)
            return Poly(r)
        # exp factors (never zero) are taken out, lowest exponent to 0
        q, fac = _exp_content(self)
        # canonical scale
        lead = min(q.t)
        c = q.t[lead]
        p = q.scale(Fraction(1) / c)
        a = make_atom("inv", (p, ))
        r = Poly.atom(a).scale(_q(Fraction(1) / c))
        for at, e in fac:
            r = r * Poly.atom(at, -e)
        return r

    def atoms(self, seen=None):
        """All atom ids reachable from this poly (transitively)."""
        if seen is None:
            seen = set()
        for m in self.t:
            for a, _ in m:
                _atom_closure(a, seen)
        return seen

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: str(kv[0])):
            s = "*".join(ATOMS[a].name + ("" if e == 1 else "^%d" % e)
                         for a, e in m)
            out.append(str(c) + ("*" + s if s else ""))
        return " + ".join(out[:40]) + (" ..." if len(out) > 40 else "")


def _atom_closure(a, seen):
    if a in seen:
        return
    seen.add(a)
    for x in ATOMS[a].args:
        if isinstance(x, (Poly, Form)):
            x.atoms(seen)


def _mono_mul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    i = j = 0
    n1, n2 = len(m1), len(m2)
    out = []
    red = False
    while i < n1 and j < n2:
        a1, e1 = m1[i]
        a2, e2 = m2[j]
        if a1 == a2:
            e = e1 + e2
            if e:
                out.append((a1, e))
                if a1 in _REDUCE:
                    red = True
            i += 1
            j += 1
        elif a1 < a2:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out), red


def _reduce(r):
    """Applies atom**k == poly rewrite rules until none applies."""
    out = {}
    work = list(r.items())
    while work:
        m, c = work.pop()
        for idx, (a, e) in enumerate(m):
            rule = _REDUCE.get(a)
            if rule is None:
                continue
            k, repl = rule
            if e >= k or (e < 0 and
                          ATOMS[a].kind in ("sqrt", "rpow")):
                q, rem = divmod(e, k)
                rest = m[:idx] + (((a, rem), ) if rem else ()) + m[idx + 1:]
                prod = Poly({rest: c}) if rest or c else ZERO
                prod = prod * repl.pow(q)
                work.extend(prod.t.items())
                break
        else:
            s = out.get(m, 0) + c
            if s:
                out[m] = _q(s)
            else:
                out.pop(m, None)
    return Poly(out)


def _exp_content(p):
    """p == q * prod(exp_a ** e): the exp atoms' lowest exponents in q are
    zero."""
    low = {}
    for m in p.t:
        for a, e in m:
            if ATOMS[a].kind == "exp" and a not in low:
                low[a] = min(dict(n).get(a, 0) for n in p.t)
    fac = [(ATOMS[a], e) for a, e in low.items() if e]
    for at, e in fac:
        p = p * Poly.atom(at, -e)
    return p, fac


ZERO = Poly({})
ONE = Poly({(): 1})


def name_poly(p):
    a = make_atom("def", (p, ))
    return Poly.atom(a)


def var(name, is_int=False):
    return make_atom("var", (), name=name, is_int=is_int)


def _canon_sign(p):
    """Returns (sign, q) with p == sign*q and q canonical."""
    lead = min(p.t)
    if p.t[lead] < 0:
        return -1, p.neg()
    return 1, p


# ---------------------------------------------------------------- functions
def p_sqrt(p):
    if p.is_const():
        v = p.value()
        if v < 0:
            raise Unsupported("sqrt of negative constant")
        v = Fraction(v)
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return Poly.const(Fraction(n, d))
    a = _ATOM_KEYS.get(("sqrt", None, p.key()))
    if a is None:
        a = make_atom("sqrt", (p, ))
        if p.t:
            _REDUCE[a.id] = (2, p)
    return Poly.atom(a)


def p_exp(p):
    if not p.t:
        return ONE
    if len(p.t) == 1:
        # exp(n/d m) = exp(m/d)^n
        (m, c), = p.t.items()
        c = Fraction(c)
        n = c.numerator
        if abs(n) > 8:
            n = 1 if n > 0 else -1
        a = make_atom("exp", (Poly({m: _q(c / n)}), ))
        return Poly.atom(a, n)
    r = ONE
    for m, c in p.t.items():
        r = r * p_exp(Poly({m: c}))
    return r


def p_log(p):
    if p.is_const() and p.value() == 1:
        return ZERO
    # log(exp(q)^n p) = n q + log(p)
    out = ZERO
    if p.t:
        p, fac = _exp_content(p)
        for at, e in fac:
            out = out + at.args[0].scale(e)
    if p.is_const() and p.value() == 1:
        return out
    return out + Poly.atom(make_atom("log", (p, )))


def p_tanh(p):
    if not p.t:
        return ZERO
    s, q = _canon_sign(p)
    return Poly.atom(make_atom("tanh", (q, ))).scale(s)


def p_cos(p):
    if not p.t:
        return ONE
    _, q = _canon_sign(p)
    return Poly.atom(make_atom("cos", (q, )))


def p_sin(p):
    if not p.t:
        return ZERO
    s, q = _canon_sign(p)
    c = make_atom("cos", (q, ))
    k = ("sin", None, q.key())
    a = _ATOM_KEYS.get(k)
    if a is None:
        a = make_atom("sin", (q, ))
        _REDUCE[a.id] = (2, ONE - Poly.atom(c, 2))
    return Poly.atom(a).scale(s)


def p_fun(name, *args):
    """A real function the engine knows nothing about but congruence."""
    return Poly.atom(make_atom("fun:" + name, tuple(args)))


def p_rpow(p, e):
    """p**e for a rational constant e (p assumed positive when e is not int)."""
    e = Fraction(e)
    if e.denominator == 1:
        return p.pow(int(e))
    if e.denominator == 2:
        return p_sqrt(p).pow(int(e.numerator))
    near = e.limit_denominator(12)
    if abs(near - e) < Fraction(1, 10**15):
        # 1/3 etc.: the nearest double of a small fraction
        if p.is_const():
            return Poly.const(float(p.value())**float(near))
        q = Fraction(1, near.denominator)
        a = make_atom("rpow", (p, q))
        if p.t:
            _REDUCE[a.id] = (near.denominator, p)
        return Poly.atom(a).pow(near.numerator)
    return Poly.atom(make_atom("rpow", (p, e)))


def p_floor(p):
    if p.is_const():
        return Poly.const(math.floor(p.value()))
    # split an integer constant off so floor(x+1) == floor(x)+1 syntactically
    c = p.value()
    fl = math.floor(c)
    q = p - Poly.const(fl)
    if all_int(q):
        return p
    a = make_atom("floor", (q, ), is_int=True)
    return Poly.atom(a) + Poly.const(fl)


def all_int(p):
    for m, c in p.t.items():
        if not isinstance(c, int):
            return False
        for a, e in m:
            if e < 0 or not ATOMS[a].is_int:
                return False
    return True


def p_ite(c, a, b):
    if c is True or c is TRUE:
        return a
    if c is False or c is FALSE:
        return b
    if a == b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    ints = all_int(a) and all_int(b)
    return Poly.atom(make_atom("ite", (c, a, b), is_int=ints))


# ---------------------------------------------------------------- derivative
_DCACHE = {}


def diff(p, vid):
    """Derivative of p with respect to the variable atom `vid`."""
    k = (p.key(), vid)
    r = _DCACHE.get(k)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.t.items():
        for idx, (a, e) in enumerate(m):
            da = _datom(a, vid)
            if not da.t:
                continue
            rest = list(m)
            if e == 1:
                del rest[idx]
            else:
                rest[idx] = (a, e - 1)
            rest = Poly({tuple(rest): _q(c * e)})
            if any(x in _REDUCE for x, _ in m):
                rest = _reduce(rest.t)
            out = out + rest * da
    _DCACHE[k] = out
    return out


def _datom(a, vid):
    if a == vid:
        return ONE
    k = (a, vid)
    r = _DCACHE.get(k)
    if r is not None:
        return r
    at = ATOMS[a]
    kind = at.kind
    if kind in ("var", "floor"):
        r = ZERO
    elif kind == "inv":
        d = diff(at.args[0], vid)
        r = (Poly.atom(at, 2) * d).neg() if d.t else ZERO
    elif kind == "def":
        r = diff(at.args[0], vid)
    elif kind == "sqrt":
        d = diff(at.args[0], vid)
        r = Poly.atom(at).inv() * d.scale(Fraction(1, 2)) if d.t else ZERO
    elif kind == "exp":
        r = Poly.atom(at) * diff(at.args[0], vid)
    elif kind == "log":
        d = diff(at.args[0], vid)
        r = at.args[0].inv() * d if d.t else ZERO
    elif kind == "tanh":
        r = (ONE - Poly.atom(at, 2)) * diff(at.args[0], vid)
    elif kind == "sin":
        r = p_cos(at.args[0]) * diff(at.args[0], vid)
    elif kind == "cos":
        r = (p_sin(at.args[0]) * diff(at.args[0], vid)).neg()
    elif kind == "rpow":
        d = diff(at.args[0], vid)
        r = (Poly.atom(at) * at.args[0].inv() *
             d).scale(_q(at.args[1])) if d.t else ZERO
    elif kind == "ite":
        c, x, y = at.args
        r = p_ite(c, diff(x, vid), diff(y, vid))
    elif kind.startswith("fun:"):
        if vid in _closure_of(a):
            raise Unsupported("derivative of uninterpreted " + kind)
        r = ZERO
    else:
        raise Unsupported("derivative of " + kind)
    _DCACHE[k] = r
    return r


def _closure_of(a):
    s = set()
    _atom_closure(a, s)
    return s


# ---------------------------------------------------------------- formulas
class Form:
    """Formula: op in var,lt,le,eq,not,and,or,true,false."""
    __slots__ = ("op", "args", "_k")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.op, ) + tuple(
                a.key() if isinstance(a, (Poly, Form)) else a
                for a in self.args)
        return self._k

    def __eq__(self, o):
        return isinstance(o, Form) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def atoms(self, seen=None):
        if seen is None:
            seen = set()
        for a in self.args:
            if isinstance(a, (Poly, Form)):
                a.atoms(seen)
        return seen

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


TRUE = Form("true", ())
FALSE = Form("false", ())


POS = set()  # ids of atoms known to be positive (reset per instance)


def _positive_scale(p):
    """Divides p by the largest monomial of positive atoms (sign kept)."""
    if not POS or len(p.t) == 0:
        return p
    low = None
    for m in p.t:
        d = {a: e for a, e in m if a in POS}
        if low is None:
            low = d
        else:
            for a in set(low) | set(d):
                e = min(low.get(a, 0), d.get(a, 0))
                if e:
                    low[a] = e
                else:
                    low.pop(a, None)
    if not low:
        return p
    f = Poly({tuple(sorted((a, -e) for a, e in low.items())): 1})
    return p * f


def f_cmp(op, p):
    """p op 0, op in lt, le, eq."""
    p = _positive_scale(p)
    if p.is_const():
        v = p.value()
        ok = {"lt": v < 0, "le": v <= 0, "eq": v == 0}[op]
        return TRUE if ok else FALSE
    if op == "eq":
        _, p = _canon_sign(p)
    return Form(op, (p, ))


def f_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":  # not p<0  <=>  -p<=0
        return Form("le", (a.args[0].neg(), ))
    if a.op == "le":
        return Form("lt", (a.args[0].neg(), ))
    return Form("not", (a, ))


def f_and(xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is not TRUE:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Form("and", tuple(out))


def f_or(xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is not FALSE:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Form("or", tuple(out))


# ---------------------------------------------------------------- z3
class ToZ3:
    """Translator with the definitional constraints of every atom used."""

    def __init__(self):
        self.av = {}
        self.iv = {}
        self.defs = []  # pending definitional constraints
        self.fc = {}
        self.pc = {}
        self.vars = {}

    def take_defs(self):
        d, self.defs = self.defs, []
        return d

    def atom(self, a):
        e = self.av.get(a)
        if e is not None:
            return e
        at = ATOMS[a]
        k = at.kind
        if k == "var":
            if at.is_int:
                v = z3.Int(at.name)
                e = z3.ToReal(v)
            else:
                v = e = z3.Real(at.name)
            self.vars[at.name] = v
            self.av[a] = e
            return e
        if k == "ite":
            e = z3.If(self.form(at.args[0]), self.poly(at.args[1]),
                      self.poly(at.args[2]))
            self.av[a] = e
            return e
        if k == "floor":
            v = z3.Int(at.name)
            e = z3.ToReal(v)
            self.av[a] = e
            p = self.poly(at.args[0])
            self.defs += [e <= p, p < e + 1]
            return e
        e = z3.Real(at.name)
        self.av[a] = e
        if k in ("inv", "def", "sqrt", "exp", "log", "tanh", "cos", "sin",
                 "rpow"):
            p = self.poly(at.args[0])
            if k == "inv":
                self.defs.append(e * p == 1)
            elif k == "def":
                self.defs.append(e == p)
            elif k == "sqrt":
                self.defs += [e * e == p, e >= 0]
            elif k == "exp":
                self.defs += [
                    e > 0,
                    z3.Implies(p > 0, e > 1),
                    z3.Implies(p < 0, e < 1),
                    z3.Implies(p == 0, e == 1), e >= 1 + p
                ]
            elif k == "log":
                self.defs += [
                    p > 0,
                    z3.Implies(p > 1, e > 0),
                    z3.Implies(p < 1, e < 0), e <= p - 1
                ]
            elif k == "tanh":
                self.defs += [
                    e > -1, e < 1,
                    z3.Implies(p > 0, z3.And(e > 0, e < p)),
                    z3.Implies(p < 0, z3.And(e < 0, e > p)),
                    z3.Implies(p == 0, e == 0)
                ]
            elif k == "cos":
                self.defs += [e <= 1, e >= -1]
            elif k == "sin":
                c = self.atom(make_atom("cos", (at.args[0], )).id)
                self.defs += [e * e + c * c == 1]
            elif k == "rpow":
                self.defs += [z3.Implies(p > 0, e > 0)]
                if at.args[1].numerator == 1:
                    r = e
                    for _ in range(at.args[1].denominator - 1):
                        r = r * e
                    self.defs += [r == p]
        elif k.startswith("fun:"):
            for x in at.args:
                if isinstance(x, Poly):
                    self.poly(x)
        else:
            raise Unsupported("z3 for atom " + k)
        return e

    def inv(self, a):
        e = self.iv.get(a)
        if e is None:
            x = self.atom(a)
            e = z3.Real("inv!%d" % a)
            self.iv[a] = e
            self.defs.append(e * x == 1)
        return e

    def num(self, c):
        if isinstance(c, int):
            return z3.RealVal(c)
        return z3.Q(c.numerator, c.denominator)

    def poly(self, p):
        k = p.key()
        r = self.pc.get(k)
        if r is not None:
            return r
        terms = []
        for m, c in p.t.items():
            fs = []
            if c != 1 or not m:
                fs.append(self.num(c))
            for a, e in m:
                b = self.atom(a) if e > 0 else self.inv(a)
                fs.extend([b] * abs(e))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        if not terms:
            r = z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(terms)
        self.pc[k] = r
        return r

    def form(self, f):
        k = f.key()
        r = self.fc.get(k)
        if r is not None:
            return r
        op = f.op
        if op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op == "bvar":
            r = z3.Bool(f.args[0])
            self.vars[f.args[0]] = r
        elif op == "lt":
            r = self.poly(f.args[0]) < 0
        elif op == "le":
            r = self.poly(f.args[0]) <= 0
        elif op == "eq":
            r = self.poly(f.args[0]) == 0
        elif op == "not":
            r = z3.Not(self.form(f.args[0]))
        elif op == "and":
            r = z3.And([self.form(x) for x in f.args])
        elif op == "or":
            r = z3.Or([self.form(x) for x in f.args])
        else:
            raise Unsupported(op)
        self.fc[k] = r
        return r
