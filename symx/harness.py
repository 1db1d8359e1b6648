"""Harness API (symbolic and concrete) and the exploration of one harness."""
import itertools
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np


class Skip(Exception):
    """Concrete run: the given inputs violate an assumption."""


class Fail(Exception):
    """Concrete run: a claim of the harness is false."""

    def __init__(self, label, detail):
        super().__init__("%s: %s" % (label, detail))
        self.label = label
        self.detail = detail


class Instance:
    """One harness with fixed structural parameters."""

    def __init__(self, name, fn, kwargs=None, tier="quick", opts=None,
                 bounds=""):
        self.name = name
        self.fn = fn
        self.kwargs = kwargs or {}
        self.tier = tier
        self.opts = opts or {}
        self.bounds = bounds


class Base:
    symbolic = False

    def array(self, name, shape, lo=None, hi=None, cplx=False):
        """Array of fresh inputs."""
        if isinstance(shape, int):
            shape = (shape, )
        out = []
        for i in np.ndindex(*shape):
            n = name + "_" + "_".join(map(str, i))
            out.append(self.cplx(n, lo, hi) if cplx else self.real(n, lo, hi))
        return self._mkarr(out, shape)


# =================================================================== concrete
class ConcreteH(Base):
    symbolic = False

    def __init__(self, values, tol=1e-5):
        import numpy
        self.np = numpy
        self.values = values
        self.tol = tol
        self.checked = 0

    def _get(self, name, default):
        return self.values.get(name, default)

    def real(self, name, lo=None, hi=None):
        d = 1.0
        if lo is not None and d < lo:
            d = lo
        if hi is not None and d > hi:
            d = hi
        v = float(self._get(name, d))
        # rounding of the solver's rational must not leave the box
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def cplx(self, name, lo=None, hi=None):
        return complex(self.real(name + ".re", lo, hi),
                       self.real(name + ".im", lo, hi))

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def flag(self, name):
        return bool(self._get(name, False))

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self.int(name, 0, len(seq) - 1)]

    def _mkarr(self, vals, shape):
        return np.array(vals).reshape(shape)

    def sparse(self, m):
        return m

    def const(self, x):
        return x

    def assume(self, c):
        if not np.all(c):
            raise Skip()

    def check(self, c, label, info=None):
        self.checked += 1
        if not np.all(c):
            raise Fail(label, "false" if info is None else str(info))

    def eq(self, a, b, label, tol=None):
        self.checked += 1
        a = _dense(a)
        b = _dense(b)
        if a.shape != b.shape and a.size != 1 and b.size != 1:
            raise Fail(label, "shapes %s and %s" % (a.shape, b.shape))
        if a.size == 0 and b.size == 0:
            return
        if a.dtype == object or b.dtype == object:
            if not np.array_equal(a, b):
                raise Fail(label, "%r != %r" % (a, b))
            return
        t = self.tol if tol is None else tol
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
            s = 1 + np.maximum(np.abs(a), np.abs(b))
            bad = ~(((d <= t * s) & np.isfinite(d)) | (a == b))
        if np.any(bad):
            i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(d) + 1, 0)), d.shape)
            aa = np.broadcast_to(a, d.shape)[i]
            bb = np.broadcast_to(b, d.shape)[i]
            raise Fail(label, "at %s: %r != %r" % (tuple(map(int, i)), aa, bb))

    def le(self, a, b, label):
        self.checked += 1
        a, b = np.asarray(a), np.asarray(b)
        if not np.all(a <= b + 1e-7 * (1 + np.abs(b))):
            raise Fail(label, "%r > %r" % (a, b))

    def grad(self, f, x):
        """d f(x) / dx for real x, by central differences."""
        x = np.array(x, dtype=float)
        g = np.zeros(x.shape, dtype=float)
        cp = False
        gs = []
        for i in np.ndindex(x.shape):
            st = 1e-5 * max(1.0, abs(x[i]))
            vals = []
            for k in (1, -1, 2, -2):
                y = x.copy()
                y[i] += k * st
                v = np.asarray(f(y))
                vals.append(v.reshape(-1)[0] if v.size == 1 else v)
            d = (8 * (vals[0] - vals[1]) - (vals[2] - vals[3])) / (12 * st)
            gs.append(d)
        return np.array(gs).reshape(x.shape + np.shape(gs[0]))

    def raises(self, exc, f, label):
        self.checked += 1
        try:
            f()
        except exc:
            return
        raise Fail(label, "no %s raised" % exc)

    def val(self, x):
        return x


def _dense(a):
    import scipy.sparse
    if scipy.sparse.issparse(a):
        return a.toarray()
    return np.asarray(a)


# =================================================================== symbolic
class Stop(BaseException):
    pass


class SymH(Base):
    symbolic = True

    def __init__(self, ctx, result, opts):
        from symx import symnp
        self.np = symnp.NP
        self.ctx = ctx
        self.res = result
        self.opts = opts
        self.inputs = {}  # name -> ('real'|'int'|'bool')

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        from symx import terms as T
        from symx.sym import Sym
        new = name not in self.inputs
        self.inputs[name] = ("real", lo, hi)
        p = T.Poly.atom(T.var(name))
        if new:
            if lo is not None:
                self.ctx.add(T.f_cmp("le", T.Poly.const(lo) - p))
            if lo is not None and lo > 0:
                T.POS.update(a for m in p.t for a, _ in m)
            if hi is not None:
                self.ctx.add(T.f_cmp("le", p - T.Poly.const(hi)))
        return Sym(p)

    def cplx(self, name, lo=None, hi=None):
        from symx.sym import Sym
        return Sym(
            self.real(name + ".re", lo, hi).re,
            self.real(name + ".im", lo, hi).re)

    def int(self, name, lo, hi):
        from symx import terms as T
        from symx.sym import Sym
        new = name not in self.inputs
        self.inputs[name] = ("int", lo, hi)
        p = T.Poly.atom(T.var(name, is_int=True))
        if new:
            self.ctx.add(T.f_cmp("le", T.Poly.const(lo) - p))
            self.ctx.add(T.f_cmp("le", p - T.Poly.const(hi)))
        return Sym(p)

    def symflag(self, name):
        from symx import terms as T
        from symx.sym import SymBool
        self.inputs[name] = ("bool", None, None)
        return SymBool(T.Form("bvar", (name, )))

    def flag(self, name):
        return bool(self.symflag(name))

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            self.inputs[name] = ("int", 0, 0)
            return seq[0]
        return seq[self.int(name, 0, len(seq) - 1).__index__()]

    def _mkarr(self, vals, shape):
        from symx import symnp
        r = symnp.to_sym(vals).reshape(shape) if vals else np.zeros(shape)
        return r

    def const(self, x):
        """Exact symbolic constant array/number."""
        from symx import symnp, sym
        if np.ndim(x) == 0:
            return sym.lift(x)
        return symnp.to_sym(np.asarray(x).tolist())

    def sparse(self, m):
        """Symbolic-capable version of a concrete sparse matrix."""
        from symx import symsparse
        return symsparse.from_any(m)

    # ---- claims
    def assume(self, c):
        from symx import sym, terms as T
        self.ctx.assume(T.f_and([sym.form_of(x) for x in _flat(c)]))

    def check(self, c, label, info=None):
        from symx import sym, terms as T
        self._prove(T.f_and([sym.form_of(x) for x in _flat(c)]), label, None)

    def le(self, a, b, label):
        from symx import symnp
        np_ = symnp.NP
        self.check(np_.less_equal(symnp.wrap(symnp._plain(a)),
                                  symnp.wrap(symnp._plain(b))), label)

    def eq(self, a, b, label, tol=None):
        from symx import sym, symnp, terms as T
        a, b = _symdense(a), _symdense(b)
        if a.shape != b.shape:
            if a.size != 1 and b.size != 1:
                self._candidate(label, "shapes %s and %s" %
                                (a.shape, b.shape), None)
                return
            a, b = np.broadcast_arrays(a, b)
        diffs = []
        same = []
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            if isinstance(x, (float, np.floating)) and not math.isfinite(x) or \
               isinstance(y, (float, np.floating)) and not math.isfinite(y):
                if not symnp.is_symval(x) and not symnp.is_symval(y) and x == y:
                    continue
                self._candidate(label, "%r != %r" % (x, y), None)
                return
            lx, ly = sym.lift(x), sym.lift(y)
            if lx is None or ly is None:
                if x != y:
                    self._candidate(label, "%r != %r" % (x, y), None)
                    return
                continue
            d = lx.re - ly.re
            if d.t:
                diffs.append(d)
            else:
                same.append((lx.re, ly.re))
            if lx.im is not None or ly.im is not None:
                d = sym._im(lx) - sym._im(ly)
                if d.t:
                    diffs.append(d)
                else:
                    same.append((sym._im(lx), sym._im(ly)))
        self.ctx.count("equalities", a.size)
        real = []
        for d in diffs:
            if d.is_const() and abs(d.value()) < Fraction(1, 10**9):
                self.ctx.count("closed_within_float_tolerance")
                continue
            real.append(d)
        form = T.f_and([T.f_cmp("eq", d) for d in real])
        self._prove(form, label, real, tol, same)

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            self.ctx.count("claims")
            return
        self._candidate(label, "no %s raised" % (exc, ), None)

    def grad(self, f, x):
        """Derivative of f (already symbolic code) at the inputs x."""
        from symx import sym, symnp, terms as T
        y = f(x)
        yd = _symdense(y)
        xs = symnp._plain(x).reshape(-1)
        outs = []
        for e in xs:
            (m, c), = e.re.t.items()
            assert c == 1 and len(m) == 1 and m[0][1] == 1, "not an input"
            vid = m[0][0]
            o = []
            for v in yd.reshape(-1):
                l = sym.lift(v)
                re = T.diff(l.re, vid)
                o.append(
                    sym.Sym(re) if l.im is None else sym.
                    Sym(re, T.diff(l.im, vid)))
            outs.append(o[0] if yd.size == 1 else symnp.to_sym(o).reshape(
                yd.shape))
        return symnp.to_sym(outs).reshape(
            tuple(np.shape(x)) + (() if yd.size == 1 else yd.shape))

    def val(self, x):
        return x

    # ---- proving
    def _candidate(self, label, detail, model):
        if model is None:
            model = self._path_model()
        if model is None:
            self.ctx.count("unreachable_claims")
            return
        self.res["candidates"].append({
            "label": label,
            "detail": detail,
            "inputs": model
        })
        raise Stop()

    def _path_model(self, generic=True):
        """Concrete inputs following the current path (generic position)."""
        import z3
        c = self.ctx
        s = c.solver
        t0 = time.time()
        s.set("timeout", 10000)
        r = s.check()
        c.count("branch_queries")
        model = None
        if r == z3.sat:
            model = s.model()
            if generic:
                rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
                s.push()
                s.set("timeout", 300)
                budget = time.time() + 5
                for n, (k, lo, hi) in self.inputs.items():
                    if k != "real" or time.time() > budget:
                        continue
                    v = c.tr.vars.get(n)
                    if v is None:
                        continue
                    l = -2.0 if lo is None else max(float(lo), -8.0)
                    h = 2.0 if hi is None else min(float(hi), 8.0)
                    if h < l:
                        l, h = float(lo or 0), float(hi or lo or 0)
                    q = Fraction(int(rnd.uniform(l, h) * 64), 64)
                    s.push()
                    s.add(v == z3.Q(q.numerator, q.denominator))
                    if s.check() == z3.sat:
                        model = s.model()
                    else:
                        s.pop()
                        continue
                while s.num_scopes() > 0:
                    s.pop()
        s.set("timeout", c.opts.get("branch_timeout_ms", 4000))
        c.count("solver_s", time.time() - t0)
        if r == z3.unsat:
            return None
        if model is None:
            return self._model_values(None)
        return self._model_values(model)

    def _model_values(self, model):
        import z3
        from symx.sym import _z3num
        out = {}
        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        for n, (k, lo, hi) in self.inputs.items():
            if k == "real":
                l = -2.0 if lo is None else float(lo)
                h = 2.0 if hi is None else float(hi)
                default = round(rnd.uniform(min(l, h), max(l, h)), 3)
            else:
                default = lo if k == "int" else False
            v = self.ctx.tr.vars.get(n)
            if v is None or model is None:
                out[n] = default
                continue
            m = model.eval(v, model_completion=False)
            if k == "bool":
                out[n] = z3.is_true(m)
                continue
            q = _z3num(m) if not z3.is_expr(m) or z3.is_rational_value(
                m) or z3.is_int_value(m) or z3.is_algebraic_value(m) else None
            if q is None:
                out[n] = default
            else:
                out[n] = int(q) if k == "int" else float(q)
        return out

    def _pinned(self, z):
        """Asks for path /\\ z with the inputs fixed to a generic point."""
        import z3
        c = self.ctx
        vals = self._path_model()
        if not vals:
            return None
        s = z3.Solver()
        s.set("timeout", 5000)
        for d in c.solver.assertions():
            s.add(d)
        for n, (k, lo, hi) in self.inputs.items():
            v = c.tr.vars.get(n)
            if v is None:
                continue
            if k == "bool":
                s.add(v == bool(vals[n]))
            elif k == "int":
                s.add(v == int(vals[n]))
            else:
                q = Fraction(vals[n])
                s.add(v == z3.Q(q.numerator, q.denominator))
        s.add(z)
        t0 = time.time()
        r = s.check()
        c.count("solver_s", time.time() - t0)
        c.count("queries")
        return vals if r == z3.sat else None

    def _query(self, z, timeout_ms, strats=2):
        """Solves path /\\ z. Returns (result, model)."""
        import z3
        c = self.ctx
        best = z3.unknown
        for strat in range(strats):
            if strat == 0:
                s = z3.Solver()
            else:
                s = z3.Then("simplify", "solve-eqs", "purify-arith",
                            "qfnra-nlsat").solver()
            s.set("timeout", timeout_ms)
            for d in c.solver.assertions():
                s.add(d)
            s.add(z)
            t0 = time.time()
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            c.count("solver_s", time.time() - t0)
            c.count("queries")
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                return r, s.model()
        return best, None

    def _same(self, pairs):
        """Equalities whose two sides have the same normal form: the solver is
        asked all the same, unless the terms are very large."""
        import z3
        c = self.ctx
        c.count("closed_by_normal_form")
        pairs = [(a, b) for a, b in pairs if a.t or b.t]
        if not pairs or sum(len(a.t) for a, _ in pairs) > 20000:
            return
        zs = [c.tr.poly(a) != c.tr.poly(b) for a, b in pairs]
        s = z3.Solver()
        s.set("timeout", 20000)
        for d in c.tr.take_defs():
            c.solver.add(d)
            s.add(d)
        s.add(z3.Or(zs))
        t0 = time.time()
        r = s.check()
        c.count("solver_s", time.time() - t0)
        c.count("queries")
        if r == z3.unsat:
            c.count("normal_form_confirmed_by_solver")
        assert r != z3.sat, "normal form and solver disagree"

    def _prove(self, form, label, diffs, tol=None, same=()):
        import z3
        from symx import terms as T
        c = self.ctx
        c.count("claims")
        if form is T.TRUE:
            self._same(same)
            return
        to = self.opts.get("timeout_ms", 30000)
        if diffs:
            # clear denominators (their non-vanishing is a path fact)
            nd = [clear_inverses(d) for d in diffs]
            rest = [d for d, e in zip(diffs, nd) if e.t]
            if not rest:
                c.count("closed_by_clearing_denominators")
                self._same(same)
                return
            diffs = rest
            form = T.f_and([T.f_cmp("eq", clear_inverses(d)) for d in rest])
        neg = T.f_not(form)
        z = c.tr.form(neg)
        for d in c.tr.take_defs():
            c.solver.add(d)
        r, m = self._query(z, min(to, 3000), 1)
        if r == z3.unsat:
            return
        if diffs:
            # a counterexample at a generic point of the path?
            gap = Fraction(tol) if tol is not None else Fraction(1, 10**4)
            g = T.f_or([T.f_cmp("le", T.Poly.const(gap) - d) for d in diffs] +
                       [T.f_cmp("le", T.Poly.const(gap) + d) for d in diffs])
            zg = c.tr.form(g)
            for d in c.tr.take_defs():
                c.solver.add(d)
            vals = self._pinned(zg)
            if vals is not None:
                self._candidate(label, "claim refuted by the solver", vals)
                return
        if r == z3.unknown:
            r, m = self._query(z, to)
            if r == z3.unsat:
                return
        if diffs:
            got = False
            for gap in (Fraction(1, 100), Fraction(1, 10**5)):
                if tol is not None:
                    gap = max(gap, Fraction(tol))
                g = T.f_or([
                    T.f_cmp("le",
                            T.Poly.const(gap) - d) for d in diffs
                ] + [T.f_cmp("le",
                             T.Poly.const(gap) + d) for d in diffs])
                z = c.tr.form(g)
                for d in c.tr.take_defs():
                    c.solver.add(d)
                r2, m2 = self._query(z, to)
                if r2 == z3.sat:
                    self._candidate(label, "claim refuted by the solver",
                                    self._model_values(m2))
                    return
            if r2 == z3.unsat:
                c.count("closed_within_tolerance")
                return
        if r == z3.sat:
            self._candidate(label, "claim refuted by the solver",
                            self._model_values(m))
            return
        self.res["unknown"].append({
            "label": label,
            "inputs": self._path_model() or {}
        })


def clear_inverses(p):
    """Multiplies p by the (non-zero) denominators it mentions."""
    from symx import terms as T
    for _ in range(12):
        best = None
        for m in p.t:
            for a, e in m:
                if e > 0 and T.ATOMS[a].kind in ("inv", "def") and (
                        best is None or a > best):
                    best = a
        if best is None:
            return p
        at = T.ATOMS[best]
        q = at.args[0]
        mx = max((e for m in p.t for a, e in m if a == best), default=0)
        out = T.ZERO
        if len(p.t) * len(q.t)**mx > 40000:
            return p
        for m, c in p.t.items():
            e = 0
            rest = []
            for a, k in m:
                if a == best:
                    e = k
                else:
                    rest.append((a, k))
            t = T.Poly({tuple(rest): c})
            if at.kind == "inv":
                t = t * q.pow(mx - e) if e >= 0 else t * q.pow(mx - e)
            else:
                t = t * q.pow(e)
            out = out + t
        p = out
    return p


def _flat(c):
    from symx import symnp
    if isinstance(c, np.ndarray):
        return list(symnp._plain(c).reshape(-1))
    if isinstance(c, (list, tuple)):
        out = []
        for x in c:
            out += _flat(x)
        return out
    return [c]


def _symdense(a):
    from symx import symnp, symsparse
    if isinstance(a, symsparse.SymSparse):
        a = a.toarray()
    if hasattr(a, "tocoo"):
        a = a.toarray()
    return symnp._plain(a)


# =================================================================== explore
def trace_functions(fn, store):
    """Runs fn, recording the spins functions executed."""
    from symx import loader
    root = os.path.join(loader.REPO, "spins")

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(root):
                store.add(
                    os.path.relpath(co.co_filename, loader.REPO) + ":" +
                    getattr(co, "co_qualname", co.co_name))

    sys.setprofile(prof)
    try:
        fn()
    finally:
        sys.setprofile(None)


def explore(inst, deadline):
    """Explores all paths of one harness instance."""
    from symx import sym, terms as T
    from symx.sym import Ctx, PathAbort
    stats = {}
    res = {
        "name": inst.name,
        "candidates": [],
        "unknown": [],
        "unsupported": [],
        "witnesses": [],
        "paths": 0,
        "aborted": 0,
        "stats": stats,
        "functions": [],
        "complete": True
    }
    funcs = set()
    work = [[]]
    opts = dict(inst.opts)
    max_paths = opts.get("max_paths", 20000)
    max_cand = opts.get("max_candidates", 3)
    while work:
        if time.time() > deadline or res["paths"] + res["aborted"] >= max_paths:
            res["complete"] = False
            break
        if len(res["candidates"]) >= max_cand or len(
                res["unsupported"]) >= 6:
            res["complete"] = False
            break
        prefix = work.pop()
        T.POS.clear()
        c = Ctx(prefix, stats, opts)
        Ctx.cur = c
        h = SymH(c, res, opts)

        def body():
            inst.fn(h, **inst.kwargs)

        ok = False
        try:
            if res["paths"] < 4:
                trace_functions(body, funcs)
            else:
                body()
            ok = True
        except Stop:
            res["paths"] += 1
        except PathAbort:
            res["aborted"] += 1
        except T.Unsupported as e:
            res["unsupported"].append({
                "error": "Unsupported: %s" % e,
                "inputs": _safe_model(h),
                "trace": traceback.format_exc()[-1500:]
            })
        except RecursionError as e:
            res["unsupported"].append({
                "error": "RecursionError",
                "inputs": _safe_model(h)
            })
        except Exception as e:  # the code under test raised on this path
            m = _safe_model(h)
            if m is None:
                res["aborted"] += 1
            else:
                res["unsupported"].append({
                    "error": "%s: %s" % (type(e).__name__, e),
                    "inputs": m,
                    "trace": traceback.format_exc()[-1500:]
                })
        if ok:
            res["paths"] += 1
            if len(res["witnesses"]) < opts.get("max_witnesses", 3):
                m = _safe_model(h)
                if m is not None:
                    res["witnesses"].append(m)
        work.extend(reversed(c.pending))
        Ctx.cur = None
    res["functions"] = sorted(funcs)
    return res


def _safe_model(h):
    try:
        return h._path_model()
    except Exception:
        return {}
