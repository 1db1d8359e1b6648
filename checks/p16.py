"""P16: invdes objective functions: algebra, values and gradients."""
import itertools

import numpy as np

from checks.common import *
from checks import sched

PRELOAD = ["spins.invdes.problem", "spins.invdes.parametrization"]
BOUNDS = ("all expressions of 3 sum/product/difference operations over two "
          "scalars (every wiring), every node type with symbolic thresholds "
          "and inputs, scalars against vectors of 2-3 elements, up to 2 "
          "equality and 2 inequality constraints")
ASSUMPTIONS = ["inputs away from the kinks of abs and of the indicators"]


def setup(h, shape, lo=-4, hi=4):
    from spins.invdes import problem
    from spins.invdes import parametrization as par
    x = h.array("x", shape, lo, hi)
    p = par.DirectParam(x, bounds=None)
    return problem, p, x, problem.Variable(shape)


def reducer(problem):

    class Dot(problem.OptimizationFunction):
        """sum(w * f)"""

        def __init__(self, f, w):
            super().__init__(f)
            self.w = w

        def eval(self, vals):
            return np.sum(self.w * vals[0])

        def grad(self, vals, g):
            return [g * self.w]

    return Dot


def old_style(problem):

    class Old(problem.OptimizationFunction):
        """x0 * x0 * x1, without listing its inputs."""

        def __init__(self):
            pass

        def calculate_objective_function(self, param):
            v = param.get_structure()
            return v[0] * v[0] * v[1]

        def calculate_gradient(self, param):
            v = param.get_structure()
            g = [2 * v[0] * v[1], v[0] * v[0]] + [0 * v[0]] * (len(v) - 2)
            return OLD_NP.array(g)

    return Old()


OLD_NP = np


def judge(h, f, p, x, ref):
    val = f.calculate_objective_function(p)
    g = f.calculate_gradient(p)
    val2 = f.calculate_objective_function(p)
    g2 = f.calculate_gradient(p)
    h.eq(val, ref(x), "value")
    want = h.grad(ref, x)
    h.eq(g, want, "gradient")
    h.eq(val2, val, "value again")
    h.eq(g2, g, "gradient again")
    h.eq(p.get_structure(), x, "parameters unchanged")


OPS = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
}


def program(h, ops):
    """All expressions of three operations: every wiring."""
    problem, p, x, v = setup(h, 2)
    n = len(ops)
    pick = [h.choice("in%d" % k, [(a, b) for a in range(2 + k)
                                  for b in range(2 + k)]) for k in range(n)]

    def build(leaves):
        t = list(leaves)
        for o, (a, b) in zip(ops, pick):
            t.append(OPS[o](t[a], t[b]))
        return t[-1]

    f = build([v[0], v[1]])
    judge(h, f, p, x, lambda z: build([z[0], z[1]]))


def exprs(problem, h):
    """name -> (shape, function of Variable, reference, options)"""
    P = problem
    E = {}
    D = reducer(problem)
    w2, w3 = np.array([2.0, -3.0]), np.array([1.0, -2.0, 0.5])
    S = lambda n, a: n.sum(a)

    def add(name, shape, node, ref, **o):
        E[name] = (shape, node, ref, o)

    c = h.real("c", -3, 3)
    a, b = h.real("alpha", -2, 2), h.real("beta", -2, 2)
    add("const_add", 1, lambda v: v[0] + c, lambda n, x: x[0] + c)
    add("const_radd", 1, lambda v: c + v[0], lambda n, x: x[0] + c)
    add("const_sub", 1, lambda v: v[0] - c, lambda n, x: x[0] - c)
    add("const_rsub", 1, lambda v: c - v[0], lambda n, x: c - x[0])
    add("const_mul", 1, lambda v: v[0] * c, lambda n, x: x[0] * c)
    add("const_rmul", 1, lambda v: c * v[0], lambda n, x: x[0] * c)
    add("neg", 2, lambda v: -v[0] - (-v[1]), lambda n, x: x[1] - x[0])
    C = P.Constant
    add("constants", 2,
        lambda v: (C(2) + C(3)) * v[0] + (C(2) * C(c)) * v[1] + (-C(c)) +
        C(3)**2 + (C(4) + 1) * v[0] + (C(4) * c) * v[1] + (C(1) - C(c)),
        lambda n, x: 10 * x[0] + 6 * c * x[1] - 2 * c + 10)
    add("const_obj", 2, lambda v: C(c) * v[0] + v[1] * C(2) + C(1) +
        (v[0] + C(c)) * v[1] + (C(c) - v[0]),
        lambda n, x: c * x[0] + 2 * x[1] + 1 + (x[0] + c) * x[1] + c - x[0])
    add("pow_const", 1, lambda v: v[0]**C(3), lambda n, x: x[0]**3)
    for k in (1, 2, 3):
        add("pow%d" % k, 2, lambda v, k=k: v[0]**k * v[1],
            lambda n, x, k=k: x[0]**k * x[1])
    add("pow-1", 1, lambda v: v[0]**-1, lambda n, x: 1 / x[0], lo=0.25)
    add("pow-2", 1, lambda v: v[0]**-2, lambda n, x: 1 / x[0]**2, lo=0.25)
    add("pow0.5", 1, lambda v: v[0]**0.5, lambda n, x: n.sqrt(x[0]), lo=0.25)
    add("sum_sum", 2, lambda v: (v[0] + v[1]) + (v[0] + v[0] + 3),
        lambda n, x: 3 * x[0] + x[1] + 3)
    add("sum_prod", 2, lambda v: (v[0] + v[1]) * (v[0] - v[1]) * (v[0] * v[1]),
        lambda n, x: (x[0]**2 - x[1]**2) * x[0] * x[1])
    add("prod_prod", 2, lambda v: (v[0] * v[1]) * (v[0] * 2),
        lambda n, x: 2 * x[0]**2 * x[1])
    add("sum_weights", 3,
        lambda v: P.Sum([v[0], v[1] * v[2], v[0]**2],
                        weights=[c, 2.0, -1.0]),
        lambda n, x: c * x[0] + 2 * x[1] * x[2] - x[0]**2)
    add("sum_weights_np", 2,
        lambda v: P.Sum([v[0], v[1]], weights=np.array([3.0, -2.0])),
        lambda n, x: 3 * x[0] - 2 * x[1])
    add("shared", 2, lambda v: (lambda s: s * s + s)(v[0] * v[1] + v[0]),
        lambda n, x: (lambda s: s * s + s)(x[0] * x[1] + x[0]))
    add("parameter", 2,
        lambda v: param_node(P, c) * v[0] + param_node(P, 2.0) + v[1],
        lambda n, x: c * x[0] + 2 + x[1])
    add("abs", 1, lambda v: P.AbsoluteValue(v[0]) * 2,
        lambda n, x: 2 * n.abs(x[0]), away=True)
    add("abs_vec", 3, lambda v: D(P.AbsoluteValue(v), w3),
        lambda n, x: n.sum(w3 * n.abs(x)), away=True)
    for pw in (1, 2, 3):
        add("ind_plus%d" % pw, 1,
            lambda v, pw=pw: P.IndicatorPlus(v[0], a, pw) * 3,
            lambda n, x, pw=pw: 3 * (x[0] - a)**pw if x[0] > a else 0 * x[0],
            off=(a, ))
        add("ind_min%d" % pw, 1,
            lambda v, pw=pw: P.IndicatorMin(v[0], b, pw) * 3,
            lambda n, x, pw=pw: 3 * (b - x[0])**pw if x[0] < b else 0 * x[0],
            off=(b, ))
        add("power_comp%d" % pw, 1,
            lambda v, pw=pw: P.PowerComparison(v[0], [b, a], pw) * -2,
            lambda n, x, pw=pw: -2 * (
                ((x[0] - a)**pw if x[0] > a else 0) +
                ((b - x[0])**pw if x[0] < b else 0)) + 0 * x[0],
            off=(a, b), order=(b, a))
    add("ind_vec", 2, lambda v: D(P.IndicatorPlus(v, 0.5, 2), w2),
        lambda n, x: n.sum(
            n.array([w2[i] * (x[i] - 0.5)**2 if x[i] > 0.5 else 0 * x[i]
                     for i in range(2)])), offv=0.5)
    add("logsumexp", 3, lambda v: P.LogSumExp([v[0], v[1], v[2]]) * 2,
        lambda n, x: 2 * n.log(n.exp(x[0]) + n.exp(x[1]) + n.exp(x[2])),
        lo=-1, hi=1, apart=True)
    add("softmax", 3, lambda v: P.SoftmaxAverage([v[0], v[1], v[2]]),
        lambda n, x: (x[0] * n.exp(x[0]) + x[1] * n.exp(x[1]) +
                      x[2] * n.exp(x[2])) /
        (n.exp(x[0]) + n.exp(x[1]) + n.exp(x[2])), lo=-1, hi=1, apart=True)
    add("real", 2, lambda v: P.RealPart(v[0]) * v[1],
        lambda n, x: x[0] * x[1])
    # vectors
    add("vec_sum", 2, lambda v: D(v + v * 3 + w2, w2),
        lambda n, x: n.sum(w2 * (4 * x + w2)))
    add("vec_arr_mul", 2, lambda v: D(v * w2, w2),
        lambda n, x: n.sum(w2 * w2 * x))
    add("vec_prod3", 2, lambda v: D(v * 2 * 3 * w2, w2),
        lambda n, x: 6 * n.sum(w2 * w2 * x))
    add("vec_prod_arr", 2, lambda v: D((v * v) * w2, w2),
        lambda n, x: n.sum(w2 * w2 * x * x))
    add("vec_pow", 2, lambda v: D(v**3, w2), lambda n, x: n.sum(w2 * x**3))
    add("scalar_vec_sum", 3, lambda v: D(v + v[0], w3),
        lambda n, x: n.sum(w3 * (x + x[0])))
    add("scalar_vec_prod", 3, lambda v: D(v * v[1], w3),
        lambda n, x: n.sum(w3 * x) * x[1])
    add("scalar_vec_mix", 3,
        lambda v: D((v[0] * v + v[1]) * (v[2] + v) * v[0], w3),
        lambda n, x: n.sum(w3 * (x[0] * x + x[1]) * (x[2] + x) * x[0]))
    add("slice", 3, lambda v: D(v[0:2], w2) * v[2],
        lambda n, x: n.sum(w2 * x[0:2]) * x[2])
    # functions that do not list their inputs
    add("old", 2, lambda v: old_style(P), lambda n, x: x[0]**2 * x[1])
    add("old_mix", 3,
        lambda v: (lambda o: 2 * o * v[2] + o**2 + v[0])(old_style(P)),
        lambda n, x: 2 * x[0]**2 * x[1] * x[2] +
        (x[0]**2 * x[1])**2 + x[0])
    return E


def param_node(P, c):
    q = P.Parameter(1.0)
    q.set_parameter_value(c)
    return q


def expression(h, key):
    global OLD_NP
    from spins.invdes import problem
    OLD_NP = h.np
    sched.start(None)
    shape, node, ref, o = exprs(problem, h)[key]
    _, p, x, v = setup(h, shape, o.get("lo", -4), o.get("hi", 4))
    if o.get("away"):
        h.assume(h.np.abs(x) >= 0.0625)
    for t in o.get("off", ()):
        h.assume(h.np.abs(x - t) >= 0.0625)
    if "offv" in o:
        h.assume(h.np.abs(x - o["offv"]) >= 0.0625)
    if "order" in o:
        h.assume(o["order"][0] <= o["order"][1])
    if o.get("apart"):
        for i, j in itertools.combinations(range(shape), 2):
            h.assume(h.np.abs(x[i] - x[j]) >= 0.0625)
    judge(h, node(v), p, x, lambda z: ref(h.np, z))


def complex_abs(h, key):
    """|z(x)|: nodes from reals to complex numbers take the real part."""
    problem, p, x, v = setup(h, 2)

    class Cplx(problem.OptimizationFunction):

        def eval(self, vals):
            return vals[0][0] * (1 + 2j) + vals[0][1] * (0.5 - 1j)

        def grad(self, vals, g):
            return [h.np.array([h.np.real(g * (1 + 2j)),
                                h.np.real(g * (0.5 - 1j))])]

    ref = lambda z: h.np.sqrt((z[0] + 0.5 * z[1])**2 + (2 * z[0] - z[1])**2)
    h.assume(ref(x) >= 0.25)
    z = Cplx(v)
    if key == "abs":
        judge(h, problem.AbsoluteValue(z), p, x, ref)
    elif key == "real":
        judge(h, problem.RealPart(z) * 2 + v[0], p, x,
              lambda z: 2 * (z[0] + 0.5 * z[1]) + z[0])
    else:
        f = problem.AbsoluteValue(z * (3 + 4j)) * v[0]
        judge(h, f, p, x, lambda z: ref(z) * 5 * z[0])


def constraints(h, neq, nin):
    """Problems report each constraint under its own place."""
    from spins.invdes import problem
    from spins.invdes import parametrization as par
    sched.start(h)
    try:
        x = h.array("x", 2, -4, 4)
        p = par.DirectParam(x, bounds=None)
        v = problem.Variable(2)
        fs = [v[0] * (k + 2) + v[1]**2 * v[0] - k for k in range(neq + nin)]
        rs = [lambda z, k=k: z[0] * (k + 2) + z[1]**2 * z[0] - k
              for k in range(neq + nin)]
        pr = problem.OptimizationProblem(v[0] * v[1], cons_eq=fs[:neq] or None,
                                         cons_ineq=fs[neq:] or None)
        h.eq(pr.calculate_objective_function(p), x[0] * x[1], "objective")
        h.eq(pr.calculate_gradient(p), h.np.array([x[1], x[0]]), "gradient")
        eq, ineq = pr.calculate_constraints(p)
        geq, gineq = pr.calculate_constraint_gradients(p)
    finally:
        sched.stop()
    h.check(len(eq) == neq and len(ineq) == nin, "number of constraints")
    h.check(len(geq) == neq and len(gineq) == nin, "number of gradients")
    h.check(list(pr.get_equality_constraints()) == fs[:neq], "eq")
    h.check(list(pr.get_inequality_constraints()) == fs[neq:], "ineq")
    h.check(pr.get_objective() is pr.obj, "objective")
    for k, (c, g) in enumerate(zip(list(eq) + list(ineq),
                                   list(geq) + list(gineq))):
        h.eq(c, rs[k](x), "value of constraint %d" % k)
        h.eq(g, h.grad(rs[k], x), "gradient of constraint %d" % k)


NAMES = None


def instances(tier):
    out = []
    names = """const_add const_radd const_sub const_rsub const_mul const_rmul
      neg constants const_obj pow_const pow1 pow2 pow3 pow-1 pow-2 pow0.5
      sum_sum sum_prod prod_prod sum_weights sum_weights_np shared parameter
      abs abs_vec ind_plus1 ind_plus2 ind_plus3 ind_min1 ind_min2 ind_min3
      power_comp1 power_comp2 power_comp3 ind_vec logsumexp softmax real
      vec_sum vec_arr_mul vec_prod3 vec_prod_arr vec_pow scalar_vec_sum
      scalar_vec_prod scalar_vec_mix slice old old_mix""".split()
    for k in names:
        out.append(Instance("expr_" + k, expression, dict(key=k)))
    for o in itertools.product("+*", repeat=2):
        out.append(Instance("prog_" + "".join("am"["+*".index(c)] for c in o),
                            program, dict(ops="-" + "".join(o))))
    if tier == "thorough":
        for o in itertools.product("+*-", repeat=3):
            out.append(Instance(
                "prog3_" + "".join("ams"["+*-".index(c)] for c in o), program,
                dict(ops="".join(o)), tier="thorough", opts=dict(weight=5)))
    for k in ("abs", "real", "scaled"):
        out.append(Instance("complex_" + k, complex_abs, dict(key=k)))
    for e, i in ((0, 1), (2, 0), (1, 2), (2, 2)):
        out.append(Instance("constraints_%d%d" % (e, i), constraints,
                            dict(neq=e, nin=i)))
    return out
