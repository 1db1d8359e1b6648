"""P02: the goos executor computes every graph correctly."""
import itertools
from typing import List

import numpy as np

from checks import sched
from checks.common import *

PRELOAD = ["spins.goos"]
BOUNDS = ("all DAGs of 3 (thorough: 4) two-input operation nodes over 2 "
          "variables, any subset of the nodes marked heavy, any order of the "
          "tasks of a parallel block, any frozen subset of the variables; "
          "element values and node coefficients symbolic")
ASSUMPTIONS = [
    "tasks of one parallel block are atomic: their relative order is "
    "symbolic, instruction interleavings inside two nodes are not modelled",
]


def make(goos, h, rec):

    class Bil(goos.Function):
        """a * prod(inputs) + b * sum(inputs)."""
        node_type = "verif.bil"
        goos_no_register = True

        def __init__(self, nodes: List[goos.Function], tag: int) -> None:
            super().__init__(nodes)
            self.tag = tag
            self.stop = None

        def set(self, a, b):
            self.a, self.b = a, b
            return self

        def eval(self, inputs, context):
            rec.setdefault("eval", []).append(self.tag)
            rec.setdefault("flags", {})[self.tag] = [
                (bool(f.const_flags), bool(f.frozen_flags))
                for f in context.input_flags
            ]
            p, s = 1, 0
            for v in inputs:
                p = p * v.array
                s = s + v.array
            return goos.NumericFlow(self.a * p + self.b * s)

        def grad(self, inputs, grad_val, context):
            rec.setdefault("grad", []).append(self.tag)
            out = []
            for i in range(len(inputs)):
                if self.stop == i:
                    out.append(None)
                    continue
                p = 1
                for j in range(len(inputs)):
                    if j != i:
                        p = p * inputs[j].array
                out.append(
                    goos.NumericFlow.Grad(grad_val.array_grad *
                                          (self.a * p + self.b)))
            return out

    return Bil


def graph(h, heavy, n, stops=False):
    """Any DAG: values, gradients, flags, evaluation counts."""
    from spins import goos
    sched.start(h)
    try:
        _graph(h, goos, heavy, n, stops)
    finally:
        sched.stop()


def _graph(h, goos, heavy, n, stops):
    xs = [h.array("x", 1, -3, 3), h.array("y", 1, -3, 3)]
    co = [(h.real("a%d" % k, -2, 2), h.real("b%d" % k, -2, 2))
          for k in range(n)]
    pick = []
    for k in range(n):
        pairs = list(
            itertools.combinations_with_replacement(range(2 + k), 2))
        if k == n - 1:  # the last node is the output: use the one before
            pairs = [p for p in pairs if 1 + k in p]
        pick.append(h.choice("in%d" % k, pairs))
    stop = h.int("stop", 0, n - 1) if stops else None
    stop = None if stop is None else [i for i in range(n) if stop == i][0]

    def ref(vals):
        v = list(vals)
        for k in range(n):
            i, j = pick[k]
            v.append(co[k][0] * v[i] * v[j] + co[k][1] * (v[i] + v[j]))
        return v

    def dref(vals, out, wrt):
        """d out / d wrt by forward accumulation (stop: zero derivative)."""
        v = ref(vals)
        d = [0] * len(v)
        d[wrt] = 1
        for k in range(n):
            if 2 + k == wrt:
                continue
            i, j = pick[k]
            a, b = co[k]
            di = 0 if (stop == k) else d[i]
            d[2 + k] = (a * v[j] + b) * di + (a * v[i] + b) * d[j]
        return d[out]

    # reachability
    def reach(k):
        s = {k}
        todo = [k]
        while todo:
            c = todo.pop()
            if c >= 2:
                for q in pick[c - 2]:
                    if q not in s:
                        s.add(q)
                        todo.append(q)
        return s

    used = reach(n + 1)
    frozen = [h.flag("frozen_x"), False]
    rec = {}
    with goos.OptimizationPlan() as plan:
        Bil = make(goos, h, rec)
        vs = [goos.Variable(x, parameter=f) for x, f in zip(xs, frozen)]
        nodes = list(vs)
        for k in range(n):
            i, j = pick[k]
            nd = Bil([nodes[i], nodes[j]], k).set(*co[k])
            if stop == k:
                nd.stop = 0
            nd.parallelize(heavy[k])
            nodes.append(nd)
        out = nodes[-1]
        outs = plan.eval_nodes([out, nodes[2], vs[1], out])
        ev = list(rec.get("eval", []))
        fl = dict(rec.get("flags", {}))
        rec.clear()
        wrt = [w for w in (n, 0, 2, 1) if w < 2 or w in used]
        gs = out.get_grad([nodes[w] for w in wrt])
        ev2, gr2 = list(rec.get("eval", [])), list(rec.get("grad", []))
        fl2 = dict(rec.get("flags", {}))

    want = ref(xs)
    for o, k, lab in zip(outs, (n + 1, 2, 1, n + 1),
                         ("output", "inner node", "variable", "repeated")):
        h.eq(o.array, want[k], "value of the " + lab)

    used_nodes = sorted(q - 2 for q in used | reach(2) if q >= 2)
    h.check(sorted(ev) == used_nodes,
            "every needed node is evaluated exactly once")
    back = sorted(q - 2 for q in used if q >= 2)
    h.check(sorted(ev2) == back, "gradient evaluates every node once")
    h.check(sorted(gr2) == back, "every node is differentiated once")
    for f in (fl, fl2):
        for k in f:
            for (c, z), q in zip(f[k], pick[k]):
                rv = [m for m in reach(q) if m < 2]
                h.check(not c, "a value that depends on variables is not "
                        "constant")
                h.check(z == all(frozen[m] for m in rv),
                        "frozen iff all variables behind it are frozen")
    for w, g in zip(wrt, gs):
        if w < 2 and frozen[w]:
            continue
        if w not in used:
            h.eq(g.array_grad, np.zeros(1), "independent node: zero gradient")
            continue
        h.eq(g.array_grad, dref(xs, n + 1, w), "gradient")


def flow_graph(h, heavy):
    """Multi-field flows, array flows, None gradients, accumulation."""
    from spins import goos
    sched.start(h, policy=True)
    try:
        _flow_graph(h, goos, heavy)
    finally:
        sched.stop()


def _flow_graph(h, goos, heavy):
    np_ = h.np

    class PairFlow(goos.Flow):
        a: np.ndarray = 0
        b: np.ndarray = 0

    class Split(goos.Function):
        node_type = "verif.split"
        goos_no_register = True

        def __init__(self, node: goos.Function) -> None:
            super().__init__(node)

        def eval(self, inputs):
            v = inputs[0].array
            return PairFlow(a=v * v, b=3 * v)

        def grad(self, inputs, g):
            v = inputs[0].array
            return [goos.NumericFlow.Grad(2 * v * g.a_grad + 3 * g.b_grad)]

    class Use(goos.Function):
        node_type = "verif.use"
        goos_no_register = True

        def __init__(self, node: goos.Function, which: str) -> None:
            super().__init__(node)
            self.which = which

        def eval(self, inputs):
            f = inputs[0]
            return goos.NumericFlow(f.a * f.b if self.which == "ab" else f.a)

        def grad(self, inputs, g):
            f = inputs[0]
            if self.which == "ab":
                return [
                    PairFlow.Grad(a_grad=g.array_grad * f.b,
                                  b_grad=g.array_grad * f.a)
                ]
            if self.which == "none":
                return [None]
            return [PairFlow.Grad(a_grad=g.array_grad)]

    class Arr(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
        node_type = "verif.arr"
        goos_no_register = True

        def __init__(self, nodes: List[goos.Function]) -> None:
            super().__init__(nodes, flow_types=[goos.Function] * 3)

        def eval(self, inputs):
            x, y = [i.array for i in inputs]
            return goos.ArrayFlow([
                goos.NumericFlow(x * y),
                goos.NumericFlow(x + 2 * y),
                goos.NumericFlow(x * x)
            ])

        def grad(self, inputs, g):
            x, y = [i.array for i in inputs]
            gx = gy = 0
            if g[0]:
                gx = gx + g[0].array_grad * y
                gy = gy + g[0].array_grad * x
            if g[1]:
                gx = gx + g[1].array_grad
                gy = gy + 2 * g[1].array_grad
            if g[2]:
                gx = gx + g[2].array_grad * 2 * x
            return [
                goos.NumericFlow.Grad(gx + 0 * x),
                goos.NumericFlow.Grad(gy + 0 * y)
            ]

    x, y = h.array("x", 2, -3, 3), h.array("y", 2, -3, 3)
    w = np.array([1.0, -2.0])
    order = h.choice("order", list(itertools.permutations(range(3))))
    with goos.OptimizationPlan() as plan:
        vx, vy = goos.Variable(x), goos.Variable(y)
        s = Split(vx)
        arr = Arr([vx, vy])
        terms = [Use(s, "ab"), Use(s, "a"), Use(s, "none")]
        ai = [arr[0], arr[1], arr[0]]
        for k, nd in enumerate([s, arr] + terms):
            nd.parallelize(heavy[k])
        tot = goos.dot(w, terms[order[0]])
        tot = tot + goos.dot(w, terms[order[1]])
        tot = tot + goos.dot(w, terms[order[2]])
        tot = tot + goos.dot(ai[order[0] % 2], ai[1]) + goos.dot(w, arr[0])
        val = tot.get().array
        gx, gy = [g.array_grad for g in tot.get_grad([vx, vy])]
    pa, pb = x * y, x + 2 * y
    q = (pa, pb)[order[0] % 2]
    ref = np_.sum(w * (3 * x**3 + 2 * x * x)) + np_.sum(q * pb) + np_.sum(
        w * pa)
    h.eq(val, ref, "value")
    # the "none" term carries no gradient
    dq = ((y, x), (1 + 0 * x, 2 + 0 * x))[order[0] % 2]
    h.eq(gx, w * (9 * x * x + 2 * x) + dq[0] * pb + q * 1 + w * y,
         "gradient by x")
    h.eq(gy, dq[1] * pb + q * 2 + w * x, "gradient by y")


def const_flags(h, heavy):
    """Nodes without variables behind them are constant."""
    from spins import goos
    sched.start(h)
    rec = {}
    x = h.array("x", 1, -3, 3)
    c = h.array("c", 1, -3, 3)
    a, b = h.real("a", -2, 2), h.real("b", -2, 2)
    frozen = h.flag("frozen")
    try:
        with goos.OptimizationPlan() as plan:
            Bil = make(goos, h, rec)
            v = goos.Variable(x, parameter=frozen)
            k = goos.Constant(c)
            k2 = Bil([k, k], 0).set(a, b)
            m = Bil([k2, v], 1).set(a, b)
            o = Bil([m, k2], 2).set(a, b)
            for nd, f in zip((k2, m, o), heavy):
                nd.parallelize(f)
            val = o.get().array
            fl = dict(rec["flags"])
            g = o.get_grad([v])[0].array_grad
    finally:
        sched.stop()
    f = lambda u, w: a * u * w + b * (u + w)
    kk = f(c, c)
    h.eq(val, f(f(kk, x), kk), "value")
    if not frozen:
        h.eq(g, (a * kk + b) * (a * kk + b), "gradient")
    h.check(fl[0] == [(True, True)] * 2, "constants are constant")
    h.check(fl[1] == [(True, True), (False, frozen)],
            "constant subexpression stays constant, variable does not")
    h.check(fl[2] == [(False, frozen), (True, True)],
            "constness is propagated per input")


def instances(tier):
    out = []
    for hv in itertools.product((False, True), repeat=3):
        nm = "".join("nh"[x] for x in hv)
        out.append(Instance("dag_" + nm, graph, dict(heavy=hv, n=3)))
        out.append(Instance("stop_" + nm, graph,
                            dict(heavy=hv, n=3, stops=True)))
        out.append(Instance("const_" + nm, const_flags, dict(heavy=hv)))
    for hv in itertools.product((False, True), repeat=5):
        nm = "".join("nh"[x] for x in hv)
        if tier == "thorough" or hv[1] == hv[3] and hv[0] == hv[2]:
            out.append(Instance("flows_" + nm, flow_graph, dict(heavy=hv)))
    if tier == "thorough":
        for hv in itertools.product((False, True), repeat=4):
            nm = "".join("nh"[x] for x in hv)
            out.append(Instance("dag4_" + nm, graph, dict(heavy=hv, n=4),
                                opts=dict(weight=9)))
    return out
