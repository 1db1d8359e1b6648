"""P04: the goos optimiser hands scipy the problem the user wrote."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from checks import optstub
from checks.common import *

PRELOAD = ["spins.goos"]
BOUNDS = ("3 variables of shapes (2,), (2,2) (row- or column-major) "
          "and (1,), any subset frozen, symbolic initial values and bounds; up to 2 equality and 2 "
          "inequality constraints; an arbitrary optimiser that queries the "
          "objective, its gradient and the constraints at 2 symbolic points in "
          "any of 3 orders and returns a third point")
ASSUMPTIONS = [
    "scipy.optimize.minimize itself is replaced by the arbitrary optimiser; "
    "its convergence is not claimed",
]


def _interface(h, method, frozen):
    from spins import goos
    np_ = h.np
    shapes = [(2, ), (2, 2), (1, )]
    xs = [h.array("xyz"[i], s, -3, 3) for i, s in enumerate(shapes)]
    lo0 = h.array("lo", 2, -9, -4)
    hi1 = h.array("hi", (2, 2), 4, 9)
    # the same values in column-major memory
    colmajor = h.flag("colmajor")
    hi1m, y_m = hi1, xs[1]
    if colmajor:
        hi1m = hi1.T.copy().T
        y_m = xs[1].T.copy().T
    mi = h.choice("max_iters", [None, 7])
    order = h.choice("order", [0, 1, 2])
    thawed = [i for i in range(3) if not frozen[i]]
    size = sum(int(np.prod(shapes[i])) for i in thawed)
    pts = [h.array("p%d" % k, size, -3, 3) for k in range(3)]
    cons = method in ("SLSQP", "COBYLA")

    def unpack(p):
        vals = list(xs)
        k = 0
        for i in thawed:
            n = int(np.prod(shapes[i]))
            vals[i] = p[k:k + n].reshape(shapes[i])
            k += n
        return vals

    def obj(x, y, z):
        return x[0] * y[0, 0] + 2 * x[1] * y[0, 1] + z[0]**2 * x[1] + y[
            0, 1] + 3 * y[1, 0] * y[1, 1] + y[1, 0]

    def eq1(x, y, z):
        return x[0] * z[0] - y[0, 0]

    def eq2(x, y, z):
        return x[0] + x[1]**2

    def in1(x, y, z):
        return y[0, 0] * y[0, 1] - 2

    def in2(x, y, z):
        return z[0] * x[1] + 3 * x[0]

    def flatgrad(f, p):
        return h.grad(lambda q: f(*unpack(q)), p)

    seen = {}
    with goos.OptimizationPlan() as plan:
        vx = goos.Variable(xs[0], lower_bounds=lo0, name="vx")
        vy = goos.Variable(y_m, upper_bounds=hi1m, name="vy")
        vz = goos.Variable(xs[2], lower_bounds=-5, upper_bounds=6, name="vz")
        it = goos.Variable(0, parameter=True, name="it")
        vs = [vx, vy, vz]
        for i in range(3):
            if frozen[i]:
                vs[i].freeze()
        x0 = goos.Slice(vx, [[0, 1]])
        x1 = goos.Slice(vx, [[1, 2]])
        y0 = goos.dot(np.array([[1.0, 0], [0, 0]]), vy)
        y1 = goos.dot(np.array([[0, 1.0], [0, 0]]), vy)
        y2 = goos.dot(np.array([[0, 0], [1.0, 0]]), vy)
        y3 = goos.dot(np.array([[0, 0], [0, 1.0]]), vy)
        o = goos.dot([1.0], x0 * y0) + 2 * goos.dot([1.0], x1 * y1) + goos.dot(
            [1.0], vz**2 * x1) + y1 + 3 * y2 * y3 + y2
        e1 = goos.dot([1.0], x0 * vz) - y0
        e2 = goos.dot([1.0], x0) + goos.dot([1.0], x1**2)
        i1 = y0 * y1 - 2
        i2 = goos.dot([1.0], vz * x1) + 3 * goos.dot([1.0], x0)
        mon = goos.dot([1.0], x0)
        kw = dict(max_iters=mi) if mi else {}
        if cons:
            kw.update(constraints_eq=[e1, e2], constraints_ineq=[i1, i2])
        opt = goos.opt.scipy_minimize(o, method=method, monitor_list=[mon],
                                      iteration=it, **kw)

        def minimize(fun, x0, args=(), method=None, jac=None, bounds=None,
                     constraints=(), callback=None, options=None, **rest):
            seen["x0"] = x0
            seen["method"] = method
            seen["bounds"] = list(bounds)
            seen["options"] = dict(options or {})
            seen["n_cons"] = (len(constraints) if constraints else 0)
            todo = [(k, what) for k in (0, 1) for what in ("f", "j", "c")]
            todo = [todo, todo[::-1], todo[1::2] + todo[::2]][order]
            buf = np_.array(x0)

            def at(q):
                # optimisers reuse the array that holds their current point
                buf[:] = q
                return buf

            for k, what in todo:
                p = pts[k]
                if what == "f":
                    v = fun(at(p))
                    if jac is True:
                        v = v[0]
                    h.eq(np_.sum(v), obj(*unpack(p)),
                         "objective handed to scipy")
                elif what == "j":
                    if jac is None or jac is False:
                        h.check(method == "COBYLA", "gradient is provided")
                        continue
                    g = fun(at(p))[1] if jac is True else jac(at(p))
                    h.eq(g, flatgrad(obj, p), "gradient handed to scipy")
                elif constraints:
                    refs = {"eq": [eq1, eq2], "ineq": [in1, in2]}
                    cnt = {"eq": 0, "ineq": 0}
                    for c in constraints:
                        t = c["type"]
                        rf = refs[t][cnt[t]]
                        cnt[t] += 1
                        sg = 1 if t == "eq" else -1
                        h.eq(np_.sum(c["fun"](at(p))),
                             sg * rf(*unpack(p)),
                             "%s constraint handed to scipy" % t)
                        h.eq(c["jac"](at(p)), sg * flatgrad(rf, p),
                             "%s constraint gradient" % t)
            calls = []
            orig = plan.write_event

            def ev(event, monitor_list=None):
                calls.append(
                    (dict(event), it.get().array,
                     [m.get().array for m in monitor_list or []]))
                return orig(event, monitor_list)

            plan.write_event = ev
            callback(at(pts[1]))
            fun(at(pts[0]))
            callback(at(pts[0]))
            plan.write_event = orig
            seen["calls"] = calls
            from scipy.optimize import OptimizeResult
            return OptimizeResult(x=at(pts[2]), fun=0.0, success=True)

        with optstub.stub(minimize):
            plan.run()
        final = [v.get().array for v in vs]

    start = np_.hstack([xs[i].reshape(-1) for i in thawed])
    h.eq(seen["x0"], start, "starting point is the current variable values")
    h.check(seen["method"] == method, "method is passed on")
    h.check(seen["n_cons"] == (4 if cons else 0), "all constraints are passed")
    inf = float("inf")
    want = []
    for i in thawed:
        want += [[(lo0[0], None), (lo0[1], None)],
                 [(None, q) for q in hi1.reshape(-1)], [(-5, 6)]][i]
    h.check(len(want) == len(seen["bounds"]), "one bound pair per element")
    for (a, b), (c, d) in zip(want, seen["bounds"]):
        for u, v, s in ((a, c, -inf), (b, d, inf)):
            if u is None:
                h.check(v is None or v == s, "missing bound is unbounded")
            else:
                h.check(v is not None, "bound is passed on")
                h.eq(v, u, "bound of the right element")
    h.check(seen["options"].get("maxiter") == mi, "max_iters is passed on")
    want = unpack(pts[2])
    for i in range(3):
        h.eq(final[i], want[i],
             "frozen variables keep their value" if frozen[i] else
             "result is written back")
    c = seen["calls"]
    h.check(len(c) == 2, "one event per iteration")
    for k, (ev, itv, ms) in enumerate(c):
        h.check(ev.get("iteration") == k + 1, "iteration number of the event")
        h.eq(itv, k + 1, "iteration variable")
        h.eq(ms[0], unpack(pts[1 - k])[0][0],
             "monitors are evaluated at the iterate")


def interface(h, method, frozen):
    _interface(h, method, frozen)


def resume(h):
    """Resuming runs the remaining iterations from the checkpoint values."""
    from spins import goos
    total = 9
    done = h.int("done", 1, 8)
    done = [k for k in range(1, 9) if done == k][0]
    x = h.array("x", 2, -3, 3)
    p = h.array("p", 2, -3, 3)
    q = h.array("q", 2, -3, 3)
    tmp = tempfile.mkdtemp()
    seen = []
    try:

        def build(plan):
            v = goos.Variable(x, name="v")
            w = goos.Variable(1.0, name="w")
            goos.opt.scipy_minimize(goos.dot(v, v), method="L-BFGS-B",
                                    max_iters=total)
            w.set(goos.Constant(5.0))
            return v, w

        def crash(fun, x0, callback=None, options=None, **k):
            for i in range(done):
                callback(np.hstack([p + i, [1.0]])
                         if not h.symbolic else h.np.hstack([p + i, [1.0]]))
            raise KeyboardInterrupt()

        def cont(fun, x0, callback=None, options=None, **k):
            seen.append((x0, dict(options or {})))
            callback(h.np.hstack([q, [1.0]]))
            from scipy.optimize import OptimizeResult
            return OptimizeResult(x=h.np.hstack([q, [1.0]]))

        with goos.OptimizationPlan(save_path=tmp) as plan:
            build(plan)
            try:
                with optstub.stub(crash):
                    plan.run()
            except KeyboardInterrupt:
                pass
        with goos.OptimizationPlan(save_path=tmp) as plan2:
            v, w = build(plan2)
            events = []
            orig = plan2.write_event

            def ev(event, monitor_list=None):
                events.append(dict(event))
                return orig(event, monitor_list)

            plan2.write_event = ev
            with optstub.stub(cont):
                plan2.resume(os.path.join(tmp, "step%d.pkl" % done))
            fin = v.get().array
            wf = w.get().array
        names = set(os.listdir(tmp))
    finally:
        shutil.rmtree(tmp)
    h.check(len(seen) == 1, "the optimisation is resumed once")
    h.eq(seen[0][0], h.np.hstack([p + done - 1, [1.0]]),
         "resumes from the checkpointed values")
    h.check(seen[0][1].get("maxiter") == total - done,
            "only the remaining iterations are run")
    h.check(events[0]["iteration"] == done + 1, "iteration count continues")
    h.eq(fin, q, "result")
    h.eq(wf, 5.0, "the following actions are run")
    h.check({"step%d.pkl" % k for k in range(1, done + 2)} <= names,
            "the log is continued, not overwritten")


def maximize(h):
    from spins import goos
    x = h.array("x", 2, -3, 3)
    p = h.array("p", 2, -3, 3)

    def mini(fun, x0, jac=None, **k):
        h.eq(h.np.sum(fun(p)), -h.np.sum(p * p), "objective is negated")
        g = fun(p)[1] if jac is True else jac(p)
        h.eq(g, -2 * p, "gradient is negated")
        from scipy.optimize import OptimizeResult
        return OptimizeResult(x=p)

    with goos.OptimizationPlan() as plan:
        v = goos.Variable(x)
        goos.opt.scipy_maximize(goos.dot(v, v), method="L-BFGS-B")
        with optstub.stub(mini):
            plan.run()
        h.eq(v.get().array, p, "result")


def instances(tier):
    out = [Instance("resume", resume), Instance("maximize", maximize)]
    for m in ("L-BFGS-B", "SLSQP", "COBYLA"):
        for fr in itertools.product((False, True), repeat=3):
            if all(fr) or (tier == "quick" and sum(fr) == 2 and m != "SLSQP"):
                continue
            out.append(
                Instance("iface_%s_%s" % (m.replace("-", ""), "".join(
                    "tf"[f] for f in fr)), interface,
                         dict(method=m, frozen=fr)))
    return out
