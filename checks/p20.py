"""P20: gradient-descent optimizers take exactly the documented steps."""
import numpy as np

from checks.common import *

PRELOAD = ["spins.invdes.problem", "spins.invdes.parametrization",
           "spins.invdes.optimization"]
BOUNDS = ("2 parameters, with and without bounds; the starting point, every "
          "gradient and every objective value symbolic; up to 3 iterations "
          "in one or two runs, all limits on the number of iterations from "
          "0 to 3; up to 3 trial steps per adaptive iteration")
ASSUMPTIONS = [
    "the gradient is not zero where it is normalized",
    "adaptive descent: trial values differ from the current value (at "
    "equality either choice is accepted)",
]
N = 2
BND = {"free": None, "unit": (-1, 1), "low": (0, None)}


def clip(h, v, bounds):
    lo, hi = bounds or (None, None)
    out = []
    for x in v:
        if lo is not None:
            x = h.np.maximum(x, lo)
        if hi is not None:
            x = h.np.minimum(x, hi)
        out.append(x)
    return out


def oracle(h, problem, total):
    """An objective whose answers are symbolic; asked points are recorded."""

    class Oracle(problem.OptimizationFunction):

        def __init__(self):
            self.g = [h.array("g%d" % k, N, -2, 2) for k in range(total)]
            self.at = []

        def calculate_objective_function(self, param):
            return 0.0

        def calculate_gradient(self, param):
            k = len(self.at)
            h.check(k < total, "not more gradients than steps")
            self.at.append(h.np.array(param.get_structure()))
            return self.g[k]

    return Oracle()


def norm(h, g):
    s = 0
    for x in g:
        s = s + x * x
    return h.np.sqrt(s)


class Ref:
    """The documented update rules; step(k, x, g) -> x."""

    def __init__(self, h, kind):
        self.h, self.kind = h, kind
        self.acc, self.acc2 = [0] * N, [0] * N
        self.k = 0

    def lookahead(self, x):
        if self.kind == "nag":
            return [x[i] - 0.5 * self.acc[i] for i in range(N)]
        return x

    def step(self, x, g):
        h, sqrt = self.h, self.h.np.sqrt
        self.k += 1
        a = 0.25
        out = []
        nrm = norm(h, g) if self.kind == "normalized" else None
        for i in range(N):
            if self.kind == "plain":
                d = a * g[i]
            elif self.kind == "normalized":
                d = a * (g[i] / nrm)
            elif self.kind == "adagrad":
                self.acc[i] = self.acc[i] + g[i] * g[i]
                d = a * g[i] / sqrt(self.acc[i] + 1e-6)
            elif self.kind == "rmsprop":
                self.acc[i] = 0.75 * self.acc[i] + 0.25 * (g[i] * g[i])
                d = a * g[i] / sqrt(self.acc[i] + 1e-6)
            elif self.kind == "adam":
                self.acc[i] = 0.5 * self.acc[i] + 0.5 * g[i]
                self.acc2[i] = 0.75 * self.acc2[i] + 0.25 * (g[i] * g[i])
                m = self.acc[i] / (1 - 0.5**self.k)
                v = self.acc2[i] / (1 - 0.75**self.k)
                d = a * m / (sqrt(v) + 1e-8)
            elif self.kind == "nag":
                self.acc[i] = 0.5 * self.acc[i] + a * g[i]
                d = self.acc[i]
            out.append(x[i] - d)
        return out


def build(optimization, kind, obj, param):
    if kind in ("plain", "normalized"):
        return optimization.GradientDescent(
            obj, param, 0.25, normalize_gradient=kind == "normalized")
    if kind == "adagrad":
        return optimization.Adagrad(obj, param, 0.25)
    if kind == "rmsprop":
        return optimization.RmsProp(obj, param, 0.25, gamma=0.75)
    if kind == "adam":
        return optimization.Adam(obj, param, 0.25, beta1=0.5, beta2=0.75)
    if kind == "nag":
        return optimization.Nag(obj, param, 0.25, gamma=0.5)
    raise ValueError(kind)


def rule(h, kind, bounds, runs):
    """Runs of the given numbers of iterations."""
    from spins.invdes import problem, parametrization, optimization
    total = sum(runs)
    bnd = BND[bounds]
    x0 = h.array("x0", N, -1 if bounds != "low" else 0, 1)
    obj = oracle(h, problem, total)
    keep = [h.np.array(g) for g in obj.g]
    if kind == "normalized":
        for g in obj.g:
            h.assume(g[0] * g[0] + g[1] * g[1] > 0.0625)
    param = parametrization.DirectParam(h.np.array(x0), bounds=bnd)
    opt = build(optimization, kind, obj, param)
    h.check(opt.iter == 0, "no iteration yet")
    seen = []
    for n in runs:
        opt.optimize(iters=n, callback=lambda p: seen.append(
            h.np.array(p.get_structure())))
    h.check(opt.iter == total, "iteration count")
    h.check(len(seen) == total and len(obj.at) == total,
            "one gradient and one callback per iteration")
    ref = Ref(h, kind)
    x = [x0[i] for i in range(N)]
    for k in range(total):
        h.eq(obj.at[k], h.np.array(clip(h, ref.lookahead(x), bnd)),
             "gradient evaluated at the current point")
        x = clip(h, ref.step(x, keep[k]), bnd)
        h.eq(seen[k], h.np.array(x), "update rule")
    h.check(opt.param is param, "same parametrization")
    h.eq(param.to_vector(), h.np.array(x), "result stored")
    for k in range(total):
        h.eq(obj.g[k], keep[k], "the objective's gradient is not modified")


def limits(h, iters, maxi, before):
    """How many iterations are run."""
    from spins.invdes import problem, parametrization, optimization

    class Slope(problem.OptimizationFunction):

        def calculate_objective_function(self, param):
            return 0.0

        def calculate_gradient(self, param):
            return g

    g = h.array("g", N, -1, 1)
    x0 = h.array("x0", N, -1, 1)
    param = parametrization.DirectParam(h.np.array(x0), bounds=None)
    opt = optimization.GradientDescent(Slope(), param, 0.5)
    count = [0]

    class Runaway(Exception):
        pass

    def cb(p):
        count[0] += 1
        if count[0] > 8:
            raise Runaway

    if before:
        opt.optimize(iters=before, callback=cb)
    h.check(count[0] == before, "iterations")
    opt.max_iters = maxi
    h.check(opt.max_iters == maxi, "limit")
    try:
        opt.optimize(iters=iters, callback=cb)
    except Runaway:
        h.check(False, "stops at the limit")
    cand = []
    if iters is not None:
        cand.append(before + iters)
    if maxi is not None:
        cand.append(maxi)
    want = max(min(cand), before)
    h.check(opt.iter == want, "stops at the limit")
    h.check(count[0] == want, "one callback per iteration")
    h.eq(param.to_vector(), h.np.array([x0[i] - 0.5 * want * g[i]
                                        for i in range(N)]), "steps taken")


def adaptive(h, bounds, steps, fail, succ, stop):
    """Steps shrink until the objective does not grow."""
    from spins.invdes import problem, parametrization, optimization
    trials = 3
    bnd = BND[bounds]
    x0 = h.array("x0", N, -1, 1)
    vals = [h.real("f0", -4, 4)]
    grads = [h.array("g%d" % k, N, -2, 2) for k in range(steps)]
    asked, at = [], []

    class Oracle(problem.OptimizationFunction):

        def calculate_objective_function(self, param):
            k = len(asked)
            asked.append(h.np.array(param.get_structure()))
            if k == 0:
                return vals[0]
            v = h.real("f%d" % k, -4, 4)
            vals.append(v)
            st["t"] += 1
            if st["t"] == trials:
                h.assume(v < st["f"])
            h.assume(h.np.abs(v - st["f"]) > 0.0078125)
            if v < st["f"]:
                st["f"], st["t"] = v, 0
            return v

        def calculate_gradient(self, param):
            at.append(h.np.array(param.get_structure()))
            return grads[len(at) - 1]

    st = {"t": 0, "f": vals[0]}
    param = parametrization.DirectParam(h.np.array(x0), bounds=bnd)
    opt = optimization.AdaptiveGradientDescent(
        Oracle(), param, 0.5, success_factor=succ, failure_factor=fail,
        stop_tolerance=stop)
    seen = []
    opt.optimize(iters=steps, callback=lambda p: seen.append(
        h.np.array(p.get_structure())))
    h.eq(asked[0], x0, "initial value")
    x = [x0[i] for i in range(N)]
    a, f, j, done = 0.5, vals[0], 1, False
    for k in range(steps):
        if done:
            h.check(len(at) == k, "stopped")
            break
        h.check(len(at) > k, "goes on")
        h.eq(at[k], h.np.array(x), "gradient evaluated at the current point")
        g = grads[k]
        if g[0] * g[0] + g[1] * g[1] < stop * stop:
            done = True
            h.eq(seen[k], h.np.array(x), "no step at a stationary point")
            continue
        while True:
            y = clip(h, [x[i] - a * g[i] for i in range(N)], bnd)
            h.eq(asked[j], h.np.array(y), "trial point")
            v = vals[j]
            j += 1
            if v < f:
                x, f = y, v
                a = a * succ
                break
            a = a * fail
        h.eq(seen[k], h.np.array(x), "step taken")
    h.check(j == len(asked), "no further trials")
    h.eq(param.to_vector(), h.np.array(x), "result stored")
    h.check(opt.alpha == a, "step size for the next iteration")


def instances(tier):
    out = []

    def add(fn, nm, **k):
        out.append(Instance(nm, fn, k))

    for kind in ("plain", "normalized", "adagrad", "rmsprop", "adam", "nag"):
        add(rule, kind + "_free", kind=kind, bounds="free", runs=(1, 2))
        add(rule, kind + "_low", kind=kind, bounds="low", runs=(2, ))
        if tier == "thorough":
            add(rule, kind + "_unit", kind=kind, bounds="unit", runs=(1, 1))
            add(rule, kind + "_4", kind=kind, bounds="free", runs=(3, 1))
            add(rule, kind + "_low3", kind=kind, bounds="low", runs=(1, 2))
    for it in (None, 0, 1, 2):
        for mx in (None, 0, 1, 3):
            for be in (0, 1, 2):
                if it is None and mx is None:
                    continue
                add(limits, "limit_%s_%s_%d" % (it, mx, be), iters=it,
                    maxi=mx, before=be)
    add(adaptive, "adaptive", bounds="free", steps=2, fail=0.25, succ=1.5,
        stop=0.5)
    add(adaptive, "adaptive_low", bounds="low", steps=1, fail=0.5, succ=2.0,
        stop=0.5)
    if tier == "thorough":
        add(adaptive, "adaptive3", bounds="free", steps=3, fail=0.25,
            succ=1.5, stop=0.25)
        add(adaptive, "adaptive_unit", bounds="unit", steps=2, fail=0.5,
            succ=2.0, stop=0.5)
    return out
