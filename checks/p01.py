"""P01: goos expressions: values and exact gradients."""
import itertools

import numpy as np

from checks.common import *

PRELOAD = ["spins.goos"]
BOUNDS = ("expression DAGs of up to 3 operation nodes over 2-3 variables "
          "(every choice of operands for sums/products in the program "
          "instances) plus the listed expressions for the other nodes; arrays "
          "of up to 4 elements; all element values symbolic in [-4,4] (away "
          "from kinks/poles where the derivative does not exist)")
ASSUMPTIONS = [
    "gradients are claimed for scalar valued expressions, the only ones an "
    "optimiser differentiates",
    "for complex inputs the gradient is the Wirtinger derivative df/dz, as "
    "the code documents"
]


def _plan():
    from spins import goos
    return goos.OptimizationPlan()


def _vals(h, node):
    return node.get().array


def program(h, ops, shape):
    """Every DAG of sums and products with the given operators."""
    from spins import goos
    np_ = h.np
    n = len(ops)
    xs = [h.array("x", shape, -3, 3), h.array("y", shape, -3, 3)]
    w = np.arange(1.0, 1 + int(np.prod(shape))).reshape(shape)
    sel = []
    for k in range(n):
        pairs = list(
            itertools.combinations_with_replacement(range(2 + k), 2))
        sel.append(h.choice("node%d" % k, pairs))

    def build(vs, plus, times, minus):
        nodes = list(vs)
        for (a, b), op in zip(sel, ops):
            f = {"+": plus, "*": times, "-": minus}[op]
            nodes.append(f(nodes[a], nodes[b]))
        return nodes

    ar = (lambda a, b: a + b, lambda a, b: a * b, lambda a, b: a - b)

    def value(v0, v1):
        nodes = build([v0, v1], *ar)
        t = nodes[-1]
        for q in nodes[2:-1]:
            t = t + q
        return np_.sum(w * t)

    with _plan():
        vs = [goos.Variable(x) for x in xs]
        nodes = build(vs, *ar)
        total = nodes[-1]
        for q in nodes[2:-1]:
            total = total + q
        f = goos.dot(w, total)
        val = f.get().array
        g = f.get_grad(vs)
        g_again = f.get_grad(vs)
    h.eq(val, value(*xs), "value of the expression")
    gx = h.grad(lambda v: value(v, xs[1]), xs[0])
    gy = h.grad(lambda v: value(xs[0], v), xs[1])
    h.eq(g[0].array_grad, gx, "gradient by x")
    h.eq(g[1].array_grad, gy, "gradient by y")
    h.eq(g_again[1].array_grad, gy, "gradient is repeatable")


def exprs():
    """name -> (shapes of variables, goos expression, reference, domain)."""
    E = {}

    def add(name, shapes, node, ref, **k):
        E[name] = (shapes, node, ref, k)

    # n: numpy (proxy), g: goos
    add("add_const", [3], lambda g, x: g.dot([1.0, 2, 3], x + 2.5),
        lambda n, x: n.sum(n.array([1.0, 2, 3]) * (x + 2.5)))
    add("radd_const", [3], lambda g, x: g.dot([1.0, 2, 3], 2.5 + x),
        lambda n, x: n.sum(n.array([1.0, 2, 3]) * (x + 2.5)))
    add("add_zero", [3], lambda g, x: g.dot([1.0, 2, 3], 0 + x + 0),
        lambda n, x: n.sum(n.array([1.0, 2, 3]) * x))
    add("add_arr", [2],
        lambda g, x: g.dot([1.0, 2], x + np.array([3.0, -1])),
        lambda n, x: n.sum(n.array([1.0, 2]) * (x + n.array([3.0, -1]))))
    add("mul_const", [3], lambda g, x: g.dot([1.0, 2, 3], 2.5 * x),
        lambda n, x: n.sum(n.array([1.0, 2, 3]) * x * 2.5))
    add("mul_arr", [2],
        lambda g, x: g.dot([1.0, 2], x * np.array([3.0, -1])),
        lambda n, x: n.sum(n.array([1.0, 2]) * x * n.array([3.0, -1])))
    add("mul_one", [2], lambda g, x: g.dot([1.0, 2], 1 * x),
        lambda n, x: n.sum(n.array([1.0, 2]) * x))
    add("sub_const", [2], lambda g, x: g.dot([1.0, 2], x - 4.0),
        lambda n, x: n.sum(n.array([1.0, 2]) * (x - 4)))
    add("rsub_const", [2], lambda g, x: g.dot([1.0, 2], 4.0 - x),
        lambda n, x: n.sum(n.array([1.0, 2]) * (4 - x)))
    add("neg", [2], lambda g, x: g.dot([1.0, 2], -x),
        lambda n, x: -n.sum(n.array([1.0, 2]) * x))
    add("div_const", [2], lambda g, x: g.dot([1.0, 2], x / 4.0),
        lambda n, x: n.sum(n.array([1.0, 2]) * x / 4))
    add("rdiv", [2], lambda g, x: g.dot([1.0, 2], 3.0 / x),
        lambda n, x: n.sum(n.array([1.0, 2]) * 3 / x), lo=0.25)
    add("div", [2, 2], lambda g, x, y: g.dot([1.0, 2], x / y),
        lambda n, x, y: n.sum(n.array([1.0, 2]) * x / y), lo=0.25)
    add("diff", [2, 2], lambda g, x, y: g.dot([1.0, 2], x - y),
        lambda n, x, y: n.sum(n.array([1.0, 2]) * (x - y)))
    for p in (1, 2, 3, 4, -1, -2):
        add("pow%d" % p, [2], lambda g, x, p=p: g.dot([1.0, 2], x**p),
            lambda n, x, p=p: n.sum(n.array([1.0, 2]) * (1.0 * x)**p),
            lo=0.25 if p < 0 else -4)
    add("pow_half", [2], lambda g, x: g.dot([1.0, 2], x**0.5),
        lambda n, x: n.sum(n.array([1.0, 2]) * n.sqrt(x)), lo=0.25)
    add("scalar_vec_sum", [1, 3],
        lambda g, x, y: g.dot([1.0, 2, 3], (x + y)**2),
        lambda n, x, y: n.sum(n.array([1.0, 2, 3]) * (x + y)**2))
    add("vec_scalar_sum", [3, 1],
        lambda g, x, y: g.dot([1.0, 2, 3], (x + y)**2),
        lambda n, x, y: n.sum(n.array([1.0, 2, 3]) * (x + y)**2))
    add("scalar_vec_prod", [1, 3, 1],
        lambda g, x, y, z: g.dot([1.0, 2, 3], x * y * z),
        lambda n, x, y, z: n.sum(n.array([1.0, 2, 3]) * x * y * z))
    add("scalar_vec_reuse", [1, 3],
        lambda g, x, y: g.dot(x * y, x + y + x),
        lambda n, x, y: n.sum(x * y * (2 * x + y)))
    add("prod3", [2, 2, 2],
        lambda g, x, y, z: g.dot([1.0, 2], x * y * z * x),
        lambda n, x, y, z: n.sum(n.array([1.0, 2]) * x * y * z * x))
    add("prod_flat", [2, 2, 2],
        lambda g, x, y, z: g.dot([1.0, 2], (x * y) * (z * y)),
        lambda n, x, y, z: n.sum(n.array([1.0, 2]) * x * y * z * y))
    add("sum_flat", [2, 2, 2],
        lambda g, x, y, z: g.dot([1.0, 2], (x + y) + (z + y)),
        lambda n, x, y, z: n.sum(n.array([1.0, 2]) * (x + 2 * y + z)))
    add("sum_alias", [1, 1, 1],
        lambda g, x, y, z: x + y + z + 2.0 * y,
        lambda n, x, y, z: n.sum(x + 3 * y + z))
    add("sum_alias2", [1, 1, 1],
        lambda g, x, y, z: (x + y + z) * (x + y) + 3.0 * z + z * y,
        lambda n, x, y, z: n.sum((x + y + z) * (x + y) + 3 * z + z * y))
    add("dot", [3, 3], lambda g, x, y: g.dot(x, y),
        lambda n, x, y: n.sum(x * y))
    add("dot_self", [3], lambda g, x: g.dot(x, x),
        lambda n, x: n.sum(x * x))
    add("dot_mat", [(2, 2), (2, 2)], lambda g, x, y: g.dot(x, y)**2,
        lambda n, x, y: n.sum(x * y)**2)
    add("abs", [3], lambda g, x: g.dot([1.0, -2, 3], g.abs(x)),
        lambda n, x: n.sum(n.array([1.0, -2, 3]) * n.abs(x)), away=True)
    add("abs_of", [2, 2],
        lambda g, x, y: g.dot([1.0, -2], g.abs(x - 1.0)) * g.dot(x, y),
        lambda n, x, y: n.sum(n.array([1.0, -2]) * n.abs(x - 1)) * n.sum(
            x * y), hi=0.75)
    add("norm2", [2], lambda g, x: g.norm(x) * 3.0,
        lambda n, x: 3 * n.sqrt(n.sum(x * x)), lo=0.25)
    add("norm2_zero", [3],
        lambda g, x: g.norm(x * np.array([1.0, 0, 2])),
        lambda n, x: n.sqrt(x[0] * x[0] + 4 * x[2] * x[2]), lo=0.25)
    add("norm2_mat", [(2, 2)], lambda g, x: g.norm(x),
        lambda n, x: n.sqrt(n.sum(x * x)), lo=0.25)
    add("norm1", [3], lambda g, x: g.norm(x, 1),
        lambda n, x: n.sum(n.abs(x)), away=True)
    add("norm3", [2], lambda g, x: g.norm(x, 3)**3,
        lambda n, x: n.sum(n.abs(x)**3), away=True)
    add("norm4", [2], lambda g, x: g.norm(x, 4)**4,
        lambda n, x: n.sum(x**4), lo=0.25)
    add("max2", [2, 2], lambda g, x, y: g.dot([1.0, 2], g.max(x, y)),
        lambda n, x, y: n.sum(n.array([1.0, 2]) * n.where(x >= y, x, y)))
    add("max3", [2, 2, 2],
        lambda g, x, y, z: g.dot([1.0, 2], g.max(x, y, z)),
        lambda n, x, y, z: n.sum(n.array([1.0, 2]) * n.where(
            x >= y, n.where(x >= z, x, z), n.where(y >= z, y, z))))
    add("sigmoid", [2], lambda g, x: g.dot([1.0, 2], g.Sigmoid(x)),
        lambda n, x: n.sum(n.array([1.0, 2]) / (1 + n.exp(-x))))
    add("sigmoid_twice", [2, 2],
        lambda g, x, y: g.dot(g.Sigmoid(x), g.Sigmoid(y)),
        lambda n, x, y: n.sum(1 / (1 + n.exp(-x)) / (1 + n.exp(-y))))
    add("slice", [(3, 2)],
        lambda g, x: g.dot(np.array([[1.0], [2.0]]),
                           g.Slice(x, [[1, 3], 0])),
        lambda n, x: x[1, 0] + 2 * x[2, 0])
    add("slice_center", [(3, 3)],
        lambda g, x: g.dot(np.array([[1.0, 2, 3]]),
                           g.Slice(x, ["c", None])),
        lambda n, x: x[1, 0] + 2 * x[1, 1] + 3 * x[1, 2])
    add("slice_two", [(3, 2)],
        lambda g, x: g.dot(g.Slice(x, [0, None]), g.Slice(x, [1, None])),
        lambda n, x: x[0, 0] * x[1, 0] + x[0, 1] * x[1, 1])
    add("conj_real", [2], lambda g, x: g.dot([1.0, 2], g.Conjugate(x)),
        lambda n, x: n.sum(n.array([1.0, 2]) * x))
    add("rename", [2],
        lambda g, x: g.dot([1.0, 2], g.rename(x, "re") * x + g.rename(x, "q")),
        lambda n, x: n.sum(n.array([1.0, 2]) * (x * x + x)))
    add("cast", [2],
        lambda g, x: g.dot([1.0, 2], g.cast(x, g.Function) * 2.0),
        lambda n, x: 2 * n.sum(n.array([1.0, 2]) * x))
    return E


INT_EXPRS = ("add_const", "radd_const", "add_arr", "mul_const", "mul_arr",
             "rsub_const", "div_const", "rdiv", "div", "diff", "pow2", "pow-1",
             "scalar_vec_sum", "scalar_vec_prod", "scalar_vec_reuse",
             "sum_alias2", "dot", "dot_mat", "abs", "norm2", "norm2_zero",
             "norm3", "max2", "sigmoid", "slice")


def _ints(h, name, shape, lo, hi):
    """Integer valued variables: the element type must not truncate."""
    lo, hi = int(np.ceil(lo)), int(np.floor(hi))
    size = int(np.prod(shape))
    vals = [h.int("%s_%d" % (name, i), lo, hi) for i in range(size)]
    return h.np.array(vals).reshape(shape)


def expression(h, key, ints=False):
    from spins import goos
    shapes, node, ref, dom = exprs()[key]
    lo, hi = dom.get("lo", -4), dom.get("hi", 4)
    if ints:
        xs = [_ints(h, "xyz"[i], s, lo, hi) for i, s in enumerate(shapes)]
    else:
        xs = [h.array("xyz"[i], s, lo, hi) for i, s in enumerate(shapes)]
    if dom.get("away"):
        for x in xs:
            h.assume(h.np.abs(x) >= 0.05)
    if key.startswith("max"):
        for a, b in itertools.combinations(xs, 2):
            h.assume(h.np.abs(a - b) >= 0.05)
    with _plan() as plan:
        vs = [goos.Variable(x) for x in xs]
        unused = goos.Variable(np.array([1.0, 2.0]))
        f = node(goos, *vs)
        val = f.get().array
        gs = f.get_grad(vs + [unused])
        after = [v.get().array for v in vs]
    h.eq(val, ref(h.np, *xs), "value")
    for i in range(len(xs)):

        def part(v, i=i):
            a = list(xs)
            a[i] = v
            return ref(h.np, *a)

        h.eq(gs[i].array_grad, h.grad(part, xs[i]), "gradient")
    h.eq(gs[-1].array_grad, np.zeros(2), "unused variable has zero gradient")
    for x, a in zip(xs, after):
        h.eq(a, x, "evaluation leaves the variables alone")


def norm_zero(h, order, shape):
    """At the zero vector the gradient is zero (where none exists)."""
    from spins import goos
    x = h.array("x", shape, -4, 4)
    y = h.real("y", -4, 4)
    with _plan():
        v = goos.Variable(x)
        s = goos.Variable(y)
        f = goos.norm(v * np.zeros(shape), order) + s * 3.0
        val = f.get().array
        g = f.get_grad([v, s])
    h.eq(val, 3 * y, "value")
    h.eq(g[0].array_grad, np.zeros(shape), "gradient at the zero vector")
    h.eq(g[1].array_grad, 3.0, "gradient by the other variable")


def _source(goos, h, val):

    class Source(goos.Function):
        node_type = "verif.source"
        goos_no_register = True

        def __init__(self) -> None:
            super().__init__()

        def eval(self, inputs):
            return goos.NumericFlow(h.np.array(val))

        def grad(self, inputs, grad_val):
            return []

    return Source()


def complex_nodes(h, key):
    """Wirtinger gradients of real functions of a complex input."""
    from spins import goos
    n = h.np
    z = h.array("z", 2, -3, 3, cplx=True)
    re = h.np.real(z)
    im = h.np.imag(z)
    m2 = re * re + im * im
    h.assume(m2 >= 0.0625)
    wt = np.array([2.0, -3.0])
    with _plan():
        s = _source(goos, h, z)
        if key == "abs":
            f = goos.dot(wt, goos.abs(s))
            want = wt * n.conj(z) / n.sqrt(m2) / 2
            val = n.sum(wt * n.sqrt(m2))
        elif key == "abs2":
            f = goos.dot(wt, goos.abs(s)**2)
            want = wt * n.conj(z)
            val = n.sum(wt * m2)
        elif key == "abs_dot":
            c = np.array([1 + 2j, -1j])
            f = goos.abs(goos.dot(c, s))**2
            t = n.sum(c * z)
            val = n.real(t)**2 + n.imag(t)**2
            h.assume(val >= 0.0625)
            want = n.conj(t) * c
        elif key == "norm":
            f = goos.norm(s)
            val = n.sqrt(n.sum(m2))
            want = n.conj(z) / val / 2
        elif key == "norm1":
            f = goos.norm(s, 1)
            val = n.sum(n.sqrt(m2))
            want = n.conj(z) / n.sqrt(m2) / 2
        got = f.get().array
        g = f.get_grad([s])[0].array_grad
    h.eq(got, val, "value")
    h.eq(g, want, "Wirtinger gradient")


def instances(tier):
    out = []
    for k in exprs():
        out.append(Instance("expr_" + k, expression, dict(key=k)))
    for k in INT_EXPRS:
        out.append(Instance("int_" + k, expression, dict(key=k, ints=True)))
    for o in (1, 2):
        out.append(Instance("norm_zero%d" % o, norm_zero,
                            dict(order=o, shape=(2, 2) if o == 2 else (3, ))))
    for k in ("abs", "abs2", "abs_dot", "norm", "norm1"):
        out.append(Instance("cplx_" + k, complex_nodes, dict(key=k)))
    for o in itertools.product("+*", repeat=3):
        nm = "".join("am"["+*".index(c)] for c in o)
        out.append(Instance("prog_" + nm, program,
                            dict(ops="".join(o), shape=(1, )),
                            opts=dict(weight=5)))
    if tier == "thorough":
        for o in itertools.product("+*-", repeat=3):
            nm = "".join("ams"["+*-".index(c)] for c in o)
            out.append(Instance("progv_" + nm, program,
                                dict(ops="".join(o), shape=(2, )),
                                opts=dict(weight=5)))
    return out
