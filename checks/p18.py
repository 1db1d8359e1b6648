"""P18: constrained optimizers pose exactly the problem they are given."""
import itertools

import numpy as np

from checks.common import *
from checks import optstub

PRELOAD = ["spins.invdes.problem", "spins.invdes.parametrization",
           "spins.invdes.optimization"]
BOUNDS = ("problems with up to 3 parameters, 2 equality and 2 inequality "
          "constraints, all quadratic with symbolic coefficients; the points "
          "at which the minimizer asks and its answers symbolic; up to 3 "
          "cycles; all scipy methods the wrapper distinguishes")
ASSUMPTIONS = [
    "scipy.optimize.minimize may ask for any value or derivative at any "
    "point and return any point: what is checked is what it is given",
]


def quad(problem, h):

    class Quad(problem.OptimizationFunction):
        """a.x + b x0 x1 + k of the structure x, old style interface"""

        def __init__(self, a, b, k):
            self.a, self.b, self.k = a, b, k

        def calculate_objective_function(self, param):
            return self.ref(param.get_structure())

        def ref(self, x):
            r = self.k + self.b * x[0] * x[1]
            for i in range(len(self.a)):
                r = r + self.a[i] * x[i]
            return r

        def slope(self, x):
            g = [self.a[i] for i in range(len(self.a))]
            g[0] = g[0] + self.b * x[1]
            g[1] = g[1] + self.b * x[0]
            return g

        def calculate_gradient(self, param):
            return h.np.array(self.slope(param.get_structure()))

    return Quad


def make(h, problem, name, n):
    return quad(problem, h)(h.array(name + "a", n, -2, 2),
                            h.real(name + "b", -2, 2),
                            h.real(name + "k", -2, 2))


def problem_of(h, problem, n, ne, ni):
    f = make(h, problem, "f", n)
    eq = [make(h, problem, "g%d" % i, n) for i in range(ne)]
    iq = [make(h, problem, "h%d" % i, n) for i in range(ni)]
    return problem.OptimizationProblem(f, eq, iq), f, eq, iq


def linear_problem(h, problem, n, ne, ni):
    f = make(h, problem, "f", n)
    # simple constraints keep what follows decidable
    eq = [quad(problem, h)(np.array([1.0, -1.0 + i]), 0.0,
                           h.real("g%d" % i, -1, 1)) for i in range(ne)]
    iq = [quad(problem, h)(np.array([0.5, 2.0 - i]), 0.0,
                           h.real("h%d" % i, -1, 1)) for i in range(ni)]
    return problem.OptimizationProblem(f, eq, iq), f, eq, iq


def scipy_wrap(h, method, ne, ni, bounded, early, extra=False):
    """What scipy is asked to solve."""
    from spins.invdes import problem, parametrization, optimization
    n = 2
    prob, f, eq, iq = problem_of(h, problem, n, ne, ni)
    lo, hi = (-1, 3) if bounded else (None, None)
    x0 = h.array("x0", n, -1, 3)
    param = parametrization.DirectParam(
        x0, bounds=(lo, hi) if bounded else None)
    pts = [h.array("p%d" % i, n, -1, 3) for i in range(3)]
    end = h.array("end", n, -1, 3)
    seen = []
    uses = {
        "jac": method in ("CG", "BFGS", "L-BFGS-B", "TNC", "SLSQP"),
        "bounds": method in ("L-BFGS-B", "TNC", "SLSQP"),
        "cons": method in ("SLSQP", "COBYLA")
    }
    opts = {"maxiter": 7}
    calls = []
    own = {}
    more = [{"type": "eq", "fun": lambda x: x[0]},
            {"type": "ineq", "fun": lambda x: x[1]}]
    if extra:
        # constraints and bounds of the optimizer's own
        own = {"constraints": list(more), "bounds": [(-7, 7), (-8, 8)]}

    def minimize(fun, x, **kw):
        calls.append(1)
        h.eq(x, x0, "starting point")
        h.check(kw.get("method") == method, "method")
        h.check(dict(kw.get("options") or {}) == {"maxiter": 7}, "options")
        h.check(kw.get("tol") == (1e-3 if early else None), "tolerance")
        if uses["bounds"]:
            b = kw["bounds"]
            h.check(len(b) == n, "bounds for every parameter")
            for i in range(n):
                h.check(tuple(b[i]) == (((-7, 7), (-8, 8))[i] if extra else
                                        (lo, hi)), "bounds")
        cons = list(kw.get("constraints") or [])
        if uses["cons"] and extra:
            for c in more:
                h.check(sum(1 for d in cons if d is c or
                            d["fun"] is c["fun"]) == 1, "extra constraints")
            cons = [d for d in cons
                    if all(d["fun"] is not c["fun"] for c in more)]
        if uses["cons"]:
            h.check([c["type"] for c in cons] ==
                    ["eq"] * ne + ["ineq"] * ni, "constraint types")
        else:
            h.check(len(cons) == 0, "no constraints")
        order = [0, 1, 2, 0]
        for k in order:
            p = h.np.array(pts[k])
            h.eq(fun(p), f.ref(p), "objective value")
            if uses["jac"]:
                g = kw["jac"](p)
                want = f.slope(p)
                for i in range(n):
                    h.eq(g[i], want[i], "objective gradient")
            q = h.np.array(pts[(k + 1) % 3])
            for i, c in enumerate(cons):
                r = eq[i] if i < ne else iq[i - ne]
                s = 1 if i < ne else -1
                h.eq(c["fun"](q), s * r.ref(q), "constraint value")
                g = c["jac"](q)
                want = r.slope(q)
                for j in range(n):
                    h.eq(g[j], s * want[j], "constraint gradient")
            h.eq(p, pts[k], "the minimizer's vector is not modified")
            if kw.get("callback"):
                kw["callback"](p)
        return {"x": h.np.array(end)}

    with optstub.stub(minimize):
        if early:
            opts["tol"] = 1e-3
            o = optimization.ScipyOptimizer(prob, param, method=method,
                                            options=opts, **own)
            out = o.optimize(callback=seen.append)
        else:
            o = optimization.ScipyOptimizer(method=method, options=opts,
                                            **own)
            out = o(prob, param)
    h.check(len(calls) == 1, "one minimization")
    h.check(out is param, "the parametrization is returned")
    h.eq(param.get_structure(), end, "the result is stored")
    h.eq(o.get_results()["x"], end, "the result is reported")
    h.check(len(seen) == (4 if early else 0), "callbacks")


def slack_params(h, kind, parametrization, x):
    n = len(x)
    if kind == "direct":
        return parametrization.DirectParam(x, bounds=(-3, 3)), [-3] * n, \
            [3] * n
    if kind == "free":
        return parametrization.DirectParam(x, bounds=None), [None] * n, \
            [None] * n
    if kind == "array":
        return parametrization.DirectParam(x, bounds=(
            np.arange(n) - 5.0, np.arange(n) + 4.0)), list(
                np.arange(n) - 5.0), list(np.arange(n) + 4.0)
    if kind == "composite":
        a = parametrization.DirectParam(x[:1], bounds=(-3, 3))
        b = parametrization.DirectParam(x[1:], bounds=None)
        return parametrization.CompositeParam([a, b]), \
            [-3] + [None] * (n - 1), [3] + [None] * (n - 1)
    raise ValueError(kind)


def slack(h, kind, ne, ni):
    """min f, g = 0, h <= 0 as min f, g = 0, h + s = 0, s >= 0"""
    from spins.invdes import problem, parametrization
    n = 2
    prob, f, eq, iq = problem_of(h, problem, n, ne, ni)
    x0 = h.array("x0", n, -2, 2)
    param, lo, hi = slack_params(h, kind, parametrization, x0)
    sp = problem.SlackOptimizationProblem(prob)
    par = sp.build_param(param)
    v0 = par.to_vector()
    h.check(len(v0) == n + ni, "one slack variable per inequality")
    h.eq(v0[:n], x0, "starts at the parameters")
    b = par.get_bounds()
    h.check(len(b) == 2 and len(b[0]) == n + ni and len(b[1]) == n + ni,
            "bounds for every variable")
    for k in range(n):
        h.check(b[0][k] == lo[k] and b[1][k] == hi[k], "original bounds")
    for k in range(n, n + ni):
        h.check(b[0][k] == 0 and b[1][k] is None, "slack is not negative")
    v = h.array("v", n + ni, -2, 2)
    par.from_vector(h.np.array(v))
    w = par.to_vector()
    h.eq(w, v, "round trip")
    h.eq(par.get_structure(), v[:n], "structure ignores the slack")
    h.check(len(sp.get_inequality_constraints()) == 0, "only equalities")
    judge(h, sp.get_objective(), par, f.ref(v), f.slope(v), ni, None)
    cons = sp.get_equality_constraints()
    h.check(len(cons) == ne + ni, "all constraints kept")
    for i, c in enumerate(cons):
        if i < ne:
            judge(h, c, par, eq[i].ref(v), eq[i].slope(v), ni, None)
        else:
            k = i - ne
            judge(h, c, par, iq[k].ref(v) + v[n + k], iq[k].slope(v), ni, k)
    ev, iv = sp.calculate_constraints(par)
    for i in range(ne):
        h.eq(ev[i], eq[i].ref(v), "constraint values")
    for i in range(ni):
        h.eq(ev[ne + i], iq[i].ref(v) + v[n + i], "constraint values")
    data = par.serialize()
    p2, _, _ = slack_params(h, kind, parametrization, x0)
    q = sp.build_param(p2)
    q.deserialize(data)
    h.eq(q.to_vector(), v, "serialization")
    h.eq(par.get_param().to_vector(), v[:n], "unwrapped")


def judge(h, fun, par, val, slope, ni, k):
    h.eq(fun.calculate_objective_function(par), val, "value")
    g = fun.calculate_gradient(par)
    n = len(slope)
    h.check(len(g) == n + ni, "gradient length")
    for i in range(n):
        h.eq(g[i], slope[i], "gradient")
    for i in range(ni):
        h.eq(g[n + i], 1 if i == k else 0, "slack gradient")


def lagr(h, f, cons, lam, mu, pf, n, v, want_grad=False):
    """f - lam.c + mu sum c^pf at v and its gradient."""
    val = f.ref(v)
    g = f.slope(v) + [0] * (len(v) - n)
    for i, (c, s) in enumerate(cons):
        cv = c.ref(v) + (v[s] if s is not None else 0)
        d = c.slope(v) + [0] * (len(v) - n)
        if s is not None:
            d[s] = d[s] + 1
        p = 1
        for _ in range(pf - 1):
            p = p * cv
        val = val + mu * p * cv
        fac = mu * pf * p
        if lam is not None:
            val = val - lam[i] * cv
            fac = fac - lam[i]
        for j in range(len(v)):
            g[j] = g[j] + fac * d[j]
    return val, g


def penalty(h, ne, ni, pf, mu0, tau, own, start=0):
    """The sequence of unconstrained problems."""
    from spins.invdes import problem, parametrization, optimization
    n = 2
    if pf == 2:
        prob, f, eq, iq = problem_of(h, problem, n, ne, ni)
    else:
        prob, f, eq, iq = linear_problem(h, problem, n, ne, ni)
    cons = [(c, None) for c in eq] + [(c, n + i) for i, c in enumerate(iq)]
    x0 = h.array("x0", n, -1, 1)
    param = parametrization.DirectParam(x0, bounds=(-1, 1))
    m = n + ni
    cycles = 2
    ends = [h.array("e%d" % k, m, 0, 1) for k in range(cycles)]
    ask = [h.array("q%d" % k, m, 0, 1) for k in range(cycles)]
    state = {"k": start, "mu": mu0, "x": list(x0) + [0] * ni}
    seen, done = [], []

    def check(fun, jac, x):
        k = state["k"]
        for i in range(m):
            h.eq(x[i], state["x"][i], "continues from the last cycle")
        q = h.np.array(ask[k])
        val, g = lagr(h, f, cons, None, state["mu"], pf, n, q)
        h.eq(fun(q), val, "penalty objective")
        got = jac(q)
        h.check(len(got) == m, "gradient length")
        for i in range(m):
            h.eq(got[i], g[i], "penalty gradient")
        state["x"] = ends[k]
        state["k"] += 1
        state["mu"] = state["mu"]**tau
        return h.np.array(ends[k])

    def minimize(fun, x, **kw):
        b = kw["bounds"]
        h.check(len(b) == m, "bounds")
        for i in range(m):
            h.check(tuple(b[i]) == ((-1, 1) if i < n else (0, None)),
                    "bounds")
        k = state["k"]
        r = check(fun, kw["jac"], x)
        kw["callback"](h.np.array(ask[k]))
        return {"x": r}

    class Own:

        def __call__(self, opt, par, callback=None):
            def fun(q):
                par.from_vector(q)
                return opt.get_objective().calculate_objective_function(par)

            def jac(q):
                par.from_vector(q)
                return opt.get_objective().calculate_gradient(par)

            h.check(not opt.get_equality_constraints() and
                    not opt.get_inequality_constraints(), "unconstrained")
            k = state["k"]
            r = check(fun, jac, par.to_vector())
            callback(h.np.array(ask[k]))
            par.from_vector(r)
            return par

        def get_results(self):
            return {}

    def cb(p):
        seen.append(h.np.array(p.to_vector()))

    def cyc(p):
        done.append(h.np.array(p.to_vector()))

    options = {"mu0": mu0, "tau": tau, "pf": pf, "num_cycles": cycles}
    with optstub.stub(minimize):
        o = optimization.PenaltyOptimizer(Own() if own else None, options)
        if start:
            o.cycle_num = start
        out = o(prob, param, callback=cb, cycle_callback=cyc)
    h.check(state["k"] == cycles, "number of cycles")
    h.eq(out.to_vector(), ends[-1][:n], "result without slack")
    h.check(len(seen) == cycles - start and len(done) == cycles - start,
            "callbacks")
    for i, k in enumerate(range(start, cycles)):
        h.eq(seen[i], ask[k][:n], "callback parameters")
        h.eq(done[i], ends[k][:n], "cycle callback parameters")


def auglag(h, ne, ni, mu0, cycles, fin):
    """The sequence of augmented Lagrangians."""
    from spins.invdes import problem, parametrization, optimization
    n = 2
    prob, f, eq, iq = linear_problem(h, problem, n, ne, ni)
    cons = [(c, None) for c in eq] + [(c, n + i) for i, c in enumerate(iq)]
    x0 = h.array("x0", n, -1, 1)
    param = parametrization.DirectParam(x0, bounds=(-1, 1))
    m = n + ni
    ends = [h.array("e%d" % k, m, 0, 1) for k in range(cycles)]
    ask = h.array("q", m, 0, 1)
    st = {"k": 0, "mu": mu0, "lam": [1] * (ne + ni), "stop": False,
          "ct": 1 / mu0**0.1, "lt": 1 / mu0**2, "x": list(x0) + [0] * ni}

    def minimize(fun, x, **kw):
        h.check(not st["stop"], "stops when both tolerances are met")
        k = st["k"]
        for i in range(m):
            h.eq(x[i], st["x"][i], "continues from the last cycle")
        q = h.np.array(ask)
        val, g = lagr(h, f, cons, st["lam"], st["mu"] / 2, 2, n, q)
        h.eq(fun(q), val, "augmented Lagrangian")
        got = kw["jac"](q)
        for i in range(m):
            h.eq(got[i], g[i], "gradient")
        h.check(abs(kw["options"]["ftol"] - st["lt"]) <= 1e-12 * st["lt"],
                "tolerance")
        e = ends[k]
        cv = [c.ref(e) + (e[s] if s is not None else 0) for c, s in cons]
        err = sum((h.np.abs(c) for c in cv), 0)
        if err < st["ct"]:
            if st["lt"] < fin and err < fin:
                st["stop"] = True
            st["lam"] = [a - st["mu"] * c for a, c in zip(st["lam"], cv)]
            st["ct"] /= st["mu"]**0.9
            st["lt"] /= st["mu"]
        else:
            st["mu"] *= 100
            st["ct"] = 1 / st["mu"]**0.1
            st["lt"] = 1 / st["mu"]
        st["x"] = e
        st["k"] += 1
        return {"x": h.np.array(e)}

    with optstub.stub(minimize):
        o = optimization.AugmentedLagrangianOptimizer({
            "mu0": mu0, "num_cycles": cycles, "lagr_tol": fin,
            "cons_tol": fin})
        out = o(prob, param)
    h.check(st["stop"] or st["k"] == cycles, "number of cycles")
    h.eq(out.to_vector(), st["x"][:n], "result without slack")


def instances(tier):
    out = []

    def add(fn, nm, **k):
        out.append(Instance(nm, fn, k))

    for m in ("L-BFGS-B", "SLSQP", "TNC", "COBYLA", "CG", "BFGS",
              "Nelder-Mead"):
        for ne, ni in ((2, 2), (0, 0), (1, 2), (2, 0)):
            if m not in ("SLSQP", "COBYLA") and (ne, ni) not in ((2, 2),
                                                                (0, 0)):
                continue
            add(scipy_wrap, "scipy_%s_%d%d" % (m, ne, ni), method=m, ne=ne,
                ni=ni, bounded=(ne + ni) % 2 == 0, early=ne != ni)
    add(scipy_wrap, "scipy_free", method="SLSQP", ne=1, ni=1, bounded=False,
        early=True)
    for m in ("SLSQP", "COBYLA", "L-BFGS-B"):
        for ne, ni in ((0, 0), (1, 1), (1, 0), (0, 1)):
            add(scipy_wrap, "extra_%s_%d%d" % (m, ne, ni), method=m, ne=ne,
                ni=ni, bounded=ne == 0, early=ni == 0, extra=True)
    for kind in ("direct", "free", "array", "composite"):
        for ne, ni in ((1, 2), (2, 1), (1, 0), (0, 2)):
            add(slack, "slack_%s_%d%d" % (kind, ne, ni), kind=kind, ne=ne,
                ni=ni)
    add(penalty, "penalty", ne=1, ni=1, pf=2, mu0=2, tau=1.5, own=False)
    add(penalty, "penalty_own", ne=1, ni=2, pf=2, mu0=3, tau=2, own=True)
    add(penalty, "penalty_pf", ne=1, ni=1, pf=4, mu0=2, tau=1, own=False)
    add(penalty, "penalty_eq", ne=2, ni=0, pf=2, mu0=2, tau=1.5, own=False)
    add(penalty, "penalty_resumed", ne=1, ni=1, pf=2, mu0=2, tau=1.5,
        own=False, start=1)
    for k, (mu0, tau) in enumerate(((0.25, 2), (0.25, 0.5), (16, 0.5),
                                    (1, 1.5), (2, -1))):
        add(penalty, "penalty_mu%d" % k, ne=1, ni=1, pf=2, mu0=mu0, tau=tau,
            own=k % 2 == 1)
    add(auglag, "auglag", ne=1, ni=1, mu0=10, cycles=2, fin=1e-7)
    add(auglag, "auglag_stop", ne=1, ni=1, mu0=10, cycles=2, fin=0.5)
    add(auglag, "auglag_eq", ne=2, ni=0, mu0=4, cycles=2, fin=1e-7)
    if tier == "thorough":
        add(auglag, "auglag3", ne=1, ni=1, mu0=10, cycles=3, fin=0.25)
        add(auglag, "auglag_22", ne=2, ni=2, mu0=10, cycles=2, fin=0.5)
    return out
