"""P05: saving and loading a goos plan preserves its meaning."""
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np

from checks import jsonstub, optstub, p01
from checks.common import *

if "symx.loader" in sys.modules:
    jsonstub.install()

PRELOAD = ["spins.goos"]
BOUNDS = ("the expressions of P01 (every operation node), plans of up to 4 "
          "actions, shared subexpressions; variable, constant and bound "
          "arrays symbolic; node names symbolic choices")
ASSUMPTIONS = [
    "the decimal text of a float is exact (python's repr round-trips), so a "
    "number in the JSON text is the number written",
    "the schematics library is executed as is",
]


class _Dir:

    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def expression(h, key):
    """Values and gradients of a loaded expression."""
    from spins import goos
    shapes, node, ref, dom = p01.exprs()[key]
    lo, hi = dom.get("lo", -4), dom.get("hi", 4)
    xs = [h.array("xyz"[i], s, lo, hi) for i, s in enumerate(shapes)]
    if dom.get("away"):
        for x in xs:
            h.assume(h.np.abs(x) >= 0.05)
    if key.startswith("max"):
        for a, b in itertools.combinations(xs, 2):
            h.assume(h.np.abs(a - b) >= 0.05)
    with _Dir() as d:
        with goos.OptimizationPlan() as plan:
            vs = [goos.Variable(x, name="v%d" % i) for i, x in enumerate(xs)]
            f = goos.rename(node(goos, *vs), "out")
            val = f.get().array
            gs = [g.array_grad for g in f.get_grad(vs)]
            plan.save(d)
            h.eq(f.get().array, val, "saving does not change the plan")
        with goos.OptimizationPlan() as plan2:
            plan2.load(d)
            f2 = plan2.get_node("out")
            vs2 = [plan2.get_node("v%d" % i) for i in range(len(xs))]
            val2 = f2.get().array
            gs2 = [g.array_grad for g in f2.get_grad(vs2)]
            with _Dir() as d2:
                plan2.save(d2)
                with goos.OptimizationPlan() as plan3:
                    plan3.load(d2)
                    val3 = plan3.get_node("out").get().array
    h.eq(val, ref(h.np, *xs), "value")
    h.eq(val2, val, "value after loading")
    h.eq(val3, val, "value after loading what was loaded and saved")
    for a, b in zip(gs, gs2):
        h.eq(b, a, "gradient after loading")


def actions(h, first):
    """A loaded plan runs the same actions in the same order."""
    from spins import goos
    kinds = ("set", "expr", "freeze", "thaw", "setp")
    ops = [first] + [h.choice("op%d" % k, kinds) for k in range(1, 3)]
    x0, p0 = h.array("x", 2, -3, 3), h.array("p", 2, -3, 3)
    lo = h.array("lo", 2, -9, -5)
    vs = [h.array("v%d" % k, 2, -3, 3) for k in range(3)]

    def build():
        x = goos.Variable(x0, lower_bounds=lo, upper_bounds=8.5, name="x")
        p = goos.Variable(p0, parameter=True, name="p")
        for k, op in enumerate(ops):
            if op == "set":
                x.set(goos.Constant(vs[k]))
            elif op == "expr":
                x.set(x * 2.0 + p)
            elif op == "freeze":
                x.freeze()
            elif op == "thaw":
                x.thaw()
            else:
                p.set(goos.Constant(vs[k]))

    def finish(plan):
        x, p = plan.get_node("x"), plan.get_node("p")
        try:
            plan.run()
            ok = True
        except ValueError:
            ok = False
        st = plan.get_state_dict()["variable_data"]
        return (ok, x.get().array, p.get().array, st)

    with _Dir() as d:
        with goos.OptimizationPlan() as plan:
            build()
            plan.save(d)
            a = finish(plan)
        with goos.OptimizationPlan() as plan2:
            plan2.load(d)
            b = finish(plan2)
    h.check(a[0] == b[0], "the loaded plan succeeds iff the plan does")
    h.eq(b[1], a[1], "variable")
    h.eq(b[2], a[2], "parameter")
    h.check(set(a[3]) == set(b[3]), "same variables")
    for n in a[3]:
        h.check(bool(a[3][n]["frozen"]) == bool(b[3][n]["frozen"]),
                "frozen state")
        for q in (0, 1):
            h.eq(b[3][n]["bounds"][q], a[3][n]["bounds"][q], "bounds")


def optimizer(h):
    """A loaded optimiser passes on the same problem."""
    from spins import goos
    x0 = h.array("x", 2, -3, 3)
    c = h.array("c", 2, -3, 3)
    p = h.array("p", 2, -3, 3)
    mi = h.choice("max_iters", [None, 5])
    ft = h.choice("ftol", [None, 1e-4])
    gt = h.choice("gtol", [None, 1e-3])
    method = h.choice("method", ["SLSQP", "L-BFGS-B"])
    seen = []

    def mini(fun, x0, jac=None, method=None, bounds=None, constraints=None,
             options=None, callback=None, **k):
        r = [h.np.array(x0), fun(p.copy()), jac(p.copy()), method, bounds,
             dict(options or {})]
        for q in constraints or []:
            r += [q["type"], q["fun"](p.copy()), q["jac"](p.copy())]
        seen.append(r)
        from scipy.optimize import OptimizeResult
        return OptimizeResult(x=p.copy())

    with _Dir() as d, optstub.stub(mini):
        with goos.OptimizationPlan() as plan:
            x = goos.Variable(x0, lower_bounds=-6, name="x")
            obj = goos.dot(goos.Constant(c), x**2)
            kw = {}
            if method == "SLSQP":
                kw = dict(constraints_eq=[goos.dot([1.0, 2], x)],
                          constraints_ineq=[goos.dot(x, x) - 3,
                                            goos.dot([3.0, 1], x)])
            goos.opt.scipy_minimize(obj, method=method, max_iters=mi, ftol=ft,
                                    gtol=gt, monitor_list=[obj], **kw)
            plan.save(d)
            plan.run()
        with goos.OptimizationPlan() as plan2:
            plan2.load(d)
            plan2.run()
            fin = plan2.get_node("x").get().array
    h.check(len(seen) == 2, "one optimisation each")
    a, b = seen
    h.check(len(a) == len(b), "same constraints")
    for u, v in zip(a, b):
        if isinstance(u, (str, dict)) or u is None:
            h.check(u == v, "same settings")
        elif isinstance(u, list):
            h.check(len(u) == len(v) and all(
                (s is None) == (t is None) for q, r in zip(u, v)
                for s, t in zip(q, r)), "same bounds")
        else:
            h.eq(v, u, "same problem")
    h.check(a[5].get("maxiter") == mi and a[5].get("ftol") == ft and
            a[5].get("gtol") == gt, "options")
    h.eq(fin, p, "result")


def shared(h):
    """Shared nodes stay shared; equal looking nodes stay distinct."""
    from spins import goos
    a = h.array("a", 2, -3, 3)
    b = h.array("b", 2, -3, 3)
    same = h.flag("same")
    if same:
        h.assume(a == b)
    with _Dir() as d:
        with goos.OptimizationPlan() as plan:
            x = goos.Variable(a, name="x")
            y = goos.Variable(b, name="y")
            s = goos.dot(x, y)
            t = goos.rename(s * s + s, "t")
            u = goos.rename(goos.dot(goos.Constant(a), x) + goos.dot(
                goos.Constant(b), y), "u")
            plan.save(d)
        with goos.OptimizationPlan() as plan2:
            plan2.load(d)
            x, y = plan2.get_node("x"), plan2.get_node("y")
            t, u = plan2.get_node("t"), plan2.get_node("u")
            x.set(goos.Constant(a + 1))
            plan2.run()
            n = h.np.sum((a + 1) * b)
            h.eq(t.get().array, n * n + n, "shared node")
            h.eq(u.get().array, h.np.sum(a * (a + 1)) + h.np.sum(b * b),
                 "distinct nodes")
            g = t.get_grad([x, y])
            h.eq(g[0].array_grad, (2 * n + 1) * b, "gradient by x")
            h.eq(g[1].array_grad, (2 * n + 1) * (a + 1), "gradient by y")


def values(h):
    """Array values of every kind survive the text form."""
    from spins import goos
    shp = h.choice("shape", [(1, ), (3, ), (2, 2), (1, 2, 2)])
    cp = h.flag("complex")
    v = h.array("v", shp, -3, 3, cplx=cp)
    with _Dir() as d:
        with goos.OptimizationPlan() as plan:
            goos.Constant(v, name="c")
            plan.save(d)
        with goos.OptimizationPlan() as plan2:
            plan2.load(d)
            got = plan2.get_node("c").get().array
    h.check(tuple(got.shape) == tuple(shp), "shape")
    h.eq(got, v, "value")


def names(h):
    """Duplicate names are refused instead of being merged silently."""
    from spins.goos import optplan
    from spins import goos
    a, b = h.array("a", 2, -3, 3), h.array("b", 2, -3, 3)
    h.assume(a[0] != b[0])
    n2 = h.choice("name", ["x", "y"])
    with _Dir() as d:
        with goos.OptimizationPlan() as plan:
            x = goos.Variable(a, name="x")
        with goos.OptimizationPlan() as other:
            y = goos.Variable(b, name=n2)
        with goos.OptimizationPlan() as plan:
            f = goos.dot(x, y)
            if n2 == "x":
                h.raises(Exception, lambda: plan.save(d), "duplicate name")
            else:
                plan.save(d)
                h.check(os.path.exists(os.path.join(d, "optplan.json")),
                        "distinct names can be saved")


def slice_none(h):
    """Slice with None (a full axis) can be saved."""
    from spins import goos
    v = h.array("v", (2, 2), -3, 3)
    with _Dir() as d:
        with goos.OptimizationPlan() as plan:
            x = goos.Variable(v, name="x")
            goos.Slice(x, [0, None], name="s")
            plan.save(d)
        with goos.OptimizationPlan() as plan2:
            plan2.load(d)
            h.eq(plan2.get_node("s").get().array, v[0:1], "value")


def slices(h):
    from spins import goos
    v = h.array("v", (3, 3), -3, 3)
    i = h.choice("i", [0, 1, 2, "c", "center", [0, 2], [1, 3]])
    j = h.choice("j", [0, 2, "c", [0, 3]])
    with _Dir() as d:
        with goos.OptimizationPlan() as plan:
            x = goos.Variable(v, name="x")
            goos.Slice(x, [i, j], name="s")
            plan.save(d)
        with goos.OptimizationPlan() as plan2:
            plan2.load(d)
            got = plan2.get_node("s").get().array

    def sl(k):
        if isinstance(k, str):
            k = 1
        return slice(k, k + 1) if isinstance(k, int) else slice(*k)

    h.eq(got, v[sl(i), sl(j)], "value")


def instances(tier):
    out = [Instance("slices", slices), Instance("slice_none", slice_none), Instance("optimizer", optimizer), Instance("shared", shared),
           Instance("values", values), Instance("names", names)]
    for k in p01.exprs():
        if k in ("slice_center", "slice_two"):
            continue  # see slice_none and slices
        out.append(Instance("expr_" + k, expression, dict(key=k)))
    for f in ("set", "expr", "freeze", "thaw", "setp"):
        out.append(Instance("actions_" + f, actions, dict(first=f)))
    return out
