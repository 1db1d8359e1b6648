"""P17: the invdes graph executor computes every graph correctly."""
import itertools

import numpy as np

from checks import sched
from checks.common import *

PRELOAD = ["spins.invdes.problem", "spins.invdes.parametrization"]
BOUNDS = ("all DAGs of 3 (thorough: 4) two-input nodes over two slices of one "
          "variable, any subset of the nodes marked heavy, any order of the "
          "tasks of a parallel block, an optional old-style function, "
          "several outputs in any order with repetitions; element values and "
          "node coefficients symbolic; linear parametrization with a "
          "symbolic Jacobian")
ASSUMPTIONS = [
    "tasks of one parallel block are atomic: their relative order is "
    "symbolic, instruction interleavings inside two nodes are not modelled",
]


def make(problem, rec):

    class Bil(problem.OptimizationFunction):
        """a * prod(inputs) + b * sum(inputs)."""

        def __init__(self, nodes, tag, heavy, a, b):
            super().__init__(nodes, heavy_compute=heavy)
            self.tag, self.a, self.b = tag, a, b

        def eval(self, vals):
            rec.setdefault("eval", []).append(self.tag)
            p, s = 1, 0
            for v in vals:
                p = p * v
                s = s + v
            return self.a * p + self.b * s

        def grad(self, vals, g):
            rec.setdefault("grad", []).append(self.tag)
            out = []
            for i in range(len(vals)):
                p = 1
                for j in range(len(vals)):
                    if j != i:
                        p = p * vals[j]
                out.append(g * (self.a * p + self.b))
            return out

    return Bil


def linear_param(h, par, n, m):
    """structure = J p + c with symbolic J and c (m structure values)."""
    p = h.array("p", n, -3, 3)
    J = h.array("J", (m, n), -2, 2)
    c = h.array("c", m, -2, 2)

    class Lin(par.Parametrization):

        def __init__(self):
            self.p = p

        def get_structure(self):
            return J @ self.p + c

        def calculate_gradient(self):
            return J

        def to_vector(self):
            return self.p

        def from_vector(self, v):
            self.p = v

        def get_bounds(self):
            return None

        def project(self):
            pass

        def encode(self):
            return self.p

        def decode(self, v):
            self.p = v

        def serialize(self):
            return {}

        def deserialize(self, state):
            pass

    return Lin(), p, J, c


def old_fun(h, problem, rec, co, J):

    class Old(problem.OptimizationFunction):
        """a * x0 * x1 + b * x0; does not list its inputs."""

        def __init__(self):
            pass

        def calculate_objective_function(self, param):
            rec.setdefault("eval", []).append("old")
            x = param.get_structure()
            return co[0] * x[0] * x[1] + co[1] * x[0]

        def calculate_gradient(self, param):
            rec.setdefault("grad", []).append("old")
            x = param.get_structure()
            return h.np.array([co[0] * x[1] + co[1], co[0] * x[0]]) @ J

    return Old()


def graph(h, heavy, n, old):
    from spins.invdes import parametrization as par
    from spins.invdes import problem
    sched.start(h)
    try:
        _graph(h, problem, par, heavy, n, old)
    finally:
        sched.stop()


def _graph(h, problem, par, heavy, n, old):
    from spins.invdes.problem import graph_executor
    rec = {}
    param, p, J, c = linear_param(h, par, 2, 2)
    x = J @ p + c
    co = [(h.real("a%d" % k, -2, 2), h.real("b%d" % k, -2, 2))
          for k in range(n)]
    co_old = (h.real("ao", -2, 2), h.real("bo", -2, 2))
    base = 3 if old else 2
    pick = []
    for k in range(n):
        pairs = list(
            itertools.combinations_with_replacement(range(base + k), 2))
        if k == n - 1:
            pairs = [q for q in pairs if base + k - 1 in q]
        if old and k == 0:
            pairs = [q for q in pairs if 2 in q]
        pick.append(h.choice("in%d" % k, pairs))

    def ref(v):
        v = [v[0], v[1]]
        if old:
            v.append(co_old[0] * v[0] * v[1] + co_old[1] * v[0])
        for k in range(n):
            i, j = pick[k]
            v.append(co[k][0] * v[i] * v[j] + co[k][1] * (v[i] + v[j]))
        return v

    def reach(k):
        s, todo = {k}, [k]
        while todo:
            q = todo.pop()
            if q >= base:
                for r in pick[q - base]:
                    if r not in s:
                        s.add(r)
                        todo.append(r)
        return s

    Bil = make(problem, rec)
    var = problem.Variable(2)
    nodes = [var[0], var[1]]
    if old:
        nodes.append(old_fun(h, problem, rec, co_old, J))
    for k in range(n):
        i, j = pick[k]
        nodes.append(Bil([nodes[i], nodes[j]], k, heavy[k], *co[k]))
    out = nodes[-1]
    last = len(nodes) - 1
    val = out.calculate_objective_function(param)
    ev = list(rec.get("eval", []))
    rec.clear()
    g = out.calculate_gradient(param)
    ev2, gr2 = list(rec.get("eval", [])), list(rec.get("grad", []))
    rec.clear()
    outs = graph_executor.eval_fun([nodes[base], out, nodes[1], out, var],
                                   param)
    ev3 = list(rec.get("eval", []))
    want = ref(x)

    def names(s):
        return sorted(str(q - base) if q >= base else "old" for q in s
                      if q >= 2)

    h.eq(val, want[last], "value")
    h.eq(g, h.grad(lambda q: ref(J @ q + c)[last], p), "gradient")
    h.check(len(outs) == 5, "one value per requested function")
    for o, q in zip(outs, (base, last, 1, last)):
        h.eq(o, want[q], "value of one of several outputs")
    h.eq(outs[4], x, "the variable takes the value of the parametrization")
    used = names(reach(last))
    h.check(sorted(map(str, ev)) == used, "each node is evaluated once")
    if not old:
        h.check(sorted(map(str, ev2)) == used,
                "gradient: each node is evaluated once")
    h.check(sorted(map(str, gr2)) == used, "each node differentiated once")
    h.check(sorted(map(str, ev3)) == names(reach(last) | reach(base)),
            "shared nodes are evaluated once")
    h.eq(param.to_vector(), p, "parameters unchanged")


def wide(h, heavy, nin):
    """Nodes with nin inputs, vector values, repeated inputs, several
    evaluations with new parameters in between."""
    from spins.invdes import parametrization as par
    from spins.invdes import problem
    sched.start(h, policy=True)
    rec = {}
    try:
        param, p, J, c = linear_param(h, par, 2, 3)
        a, b = h.real("a", -2, 2), h.real("b", -2, 2)
        w = h.const(np.array([1.0, -2.0, 0.5]))
        Bil = make(problem, rec)

        class Dot(problem.OptimizationFunction):

            def __init__(self, f, hv):
                super().__init__(f, heavy_compute=hv)

            def eval(self, vals):
                return h.np.sum(w * vals[0])

            def grad(self, vals, g):
                return [g * w]

        var = problem.Variable(3)
        order = h.choice("order", list(itertools.permutations(range(3))))
        ins = [var, Bil([var, var], 0, heavy[0], a, b), var]
        ins = [ins[i] for i in order][:nin]
        f = Bil(ins, 1, heavy[1], b, a)
        g0 = Bil([f, ins[0]], 2, heavy[2], a, a)
        top = Dot(f, heavy[3]) + Dot(g0, heavy[4])

        def ref(q):
            x = J @ q + c
            y = [x, a * x * x + b * 2 * x, x]
            y = [y[i] for i in order][:nin]
            pr, sm = 1, 0
            for v in y:
                pr, sm = pr * v, sm + v
            fv = b * pr + a * sm
            gv = a * fv * y[0] + a * (fv + y[0])
            return h.np.sum(w * fv) + h.np.sum(w * gv)

        h.eq(top.calculate_objective_function(param), ref(p), "value")
        h.eq(top.calculate_gradient(param), h.grad(ref, p), "gradient")
        q = h.array("q", 2, -3, 3)
        param.from_vector(q)
        h.eq(top.calculate_gradient(param), h.grad(ref, q),
             "gradient at the new parameters")
        h.eq(top.calculate_objective_function(param), ref(q),
             "value at the new parameters")
    finally:
        sched.stop()


def many(h, nin, heavy):
    """One node with nin inputs in any pattern of repetition; every position
    has its own weight, and the node is not linear in them."""
    from spins.invdes import parametrization as par
    from spins.invdes import problem
    x = h.array("x", 3, -3, 3)
    p = par.DirectParam(x, bounds=None)
    ws = [h.const(1.0 + 3 * i) for i in range(nin)]

    class Lin(problem.OptimizationFunction):

        def __init__(self, f):
            super().__init__(f, heavy_compute=heavy)

        def eval(self, vals):
            return sum(w * v for w, v in zip(ws, vals)) + vals[0] * vals[-1]

        def grad(self, vals, g):
            r = [g * w for w in ws]
            r[0] = r[0] + g * vals[-1]
            r[-1] = r[-1] + g * vals[0]
            return r

    var = problem.Variable(3)
    nodes = [var[0], var[1], var[2]]
    pick = h.choice("pick", [c for c in itertools.product(range(3),
                                                          repeat=nin)
                             if c[0] <= c[1]])
    f = Lin([nodes[i] for i in pick])
    f = f + 2 * problem.Sum([nodes[i] for i in pick])
    f = f + problem.Product([nodes[i] for i in pick[-2:]])

    def ref(v):
        u = [v[i] for i in pick]
        return (sum(w * y for w, y in zip(ws, u)) + u[0] * u[-1] + 2 * sum(u)
                + u[-1] * u[-2])

    h.eq(f.calculate_objective_function(p), ref(x), "value")
    h.eq(f.calculate_gradient(p), h.grad(ref, x), "gradient")


def mixed(h, swap):
    """A complex vector with a real and a complex gradient."""
    from spins.invdes import parametrization as par
    from spins.invdes import problem

    class Cplx(problem.OptimizationFunction):

        def eval(self, vals):
            return vals[0] * (1 + 2j)

        def grad(self, vals, g):
            return [h.np.real(g * (1 + 2j))]

    class Dot(problem.OptimizationFunction):

        def eval(self, vals):
            return h.np.sum(vals[0])

        def grad(self, vals, g):
            return [g * h.const(np.ones(2))]

    x = h.array("x", 2, 0.25, 3)
    p = par.DirectParam(x, bounds=None)
    z = Cplx(problem.Variable(2))
    t = [Dot(problem.RealPart(z)), Dot(problem.AbsoluteValue(z))]
    f = t[swap] + t[1 - swap]
    r5 = h.np.sqrt(h.const(5.0))
    h.eq(f.calculate_objective_function(p), (1 + r5) * (x[0] + x[1]), "value")
    h.eq(f.calculate_gradient(p), (1 + r5) * np.ones(2), "gradient")


def two_variables(h):
    from spins.invdes import parametrization as par
    from spins.invdes import problem
    x = h.array("x", 2, -3, 3)
    p = par.DirectParam(x, bounds=None)
    u, v = problem.Variable(2), problem.Variable(2)
    f = u[0] * v[1]
    h.raises(ValueError, lambda: f.calculate_objective_function(p),
             "two variables are refused")
    h.raises(ValueError, lambda: f.calculate_gradient(p),
             "two variables are refused by the gradient")
    g = u[0] * u[1]
    h.eq(g.calculate_objective_function(p), x[0] * x[1], "one is fine")
    k = problem.Constant(3.0) * problem.Parameter(h.real("k", -2, 2))
    h.eq(k.calculate_gradient(p), np.zeros(2), "no variable: no gradient")


def instances(tier):
    out = []
    for hv in itertools.product((False, True), repeat=3):
        nm = "".join("nh"[x] for x in hv)
        out.append(Instance("dag_" + nm, graph,
                            dict(heavy=hv, n=3, old=False)))
        out.append(Instance("old_" + nm, graph,
                            dict(heavy=hv, n=2, old=True)))
    for hv in itertools.product((False, True), repeat=5):
        nm = "".join("nh"[x] for x in hv)
        if tier == "thorough" or hv[3] == hv[4] and hv[0] == hv[2]:
            for nin in (2, 3):
                out.append(Instance("wide%d_%s" % (nin, nm), wide,
                                    dict(heavy=hv, nin=nin)))
    for nin in (3, 4) + ((5, ) if tier == "thorough" else ()):
        for hv in (False, True):
            out.append(Instance("many%d_%s" % (nin, "nh"[hv]), many,
                                dict(nin=nin, heavy=hv)))
    out.append(Instance("two_variables", two_variables))
    for k in (0, 1):
        out.append(Instance("mixed%d" % k, mixed, dict(swap=k)))
    if tier == "thorough":
        for hv in itertools.product((False, True), repeat=4):
            nm = "".join("nh"[x] for x in hv)
            out.append(Instance("dag4_" + nm, graph,
                                dict(heavy=hv, n=4, old=False),
                                opts=dict(weight=9)))
        for hv in itertools.product((False, True), repeat=3):
            nm = "".join("nh"[x] for x in hv)
            out.append(Instance("old3_" + nm, graph,
                                dict(heavy=hv, n=3, old=True),
                                opts=dict(weight=9)))
    return out
