"""P22: run_plan executes an optimization plan, logs it and resumes it."""
import builtins
import logging
import os
import pickle
import shutil
import sys
import tempfile

import numpy as np

from checks.common import *
from checks import optstub

PRELOAD = ["spins.invdes.problem", "spins.invdes.parametrization",
           "spins.invdes.optimization", "spins.invdes.problem_graph"]
BOUNDS = ("plans of 2 transformations (thorough: 3) out of two optimizer runs "
          "(with and without per-iteration logging), a sigmoid-strength "
          "change and an optimizer run on a second parametrization; up to 2 "
          "iterations each; 2 design variables, all initial values, "
          "coefficients and step sizes symbolic; one interruption (thorough: "
          "two) at any file that is written, half written or just written")
ASSUMPTIONS = [
    "scipy.optimize.minimize is replaced by gradient descent with a symbolic "
    "step that evaluates one more trial point before it calls back (an "
    "optimizer without memory: resuming L-BFGS itself starts its memory "
    "anew)",
    "the plan that resumes is the plan that was interrupted; os.replace is "
    "atomic",
]

CUR = {}
KINDS = ("opt", "quiet", "sig", "other", "plain")


class Crash(BaseException):
    pass


class Files:
    """Counts the files written in one folder; stops at one of them."""

    def __init__(self, folder, at, mid):
        self.folder, self.at, self.mid, self.n = folder, at, mid, 0

    def open(self, file, mode="r", *a, **k):
        if ("w" not in mode and "x" not in mode) or "b" not in mode or not (
                os.path.abspath(str(file)).startswith(self.folder)):
            return self.real(file, mode, *a, **k)
        self.n += 1
        if self.n == self.at and not self.mid:
            raise Crash()
        return Handle(self, self.real(file, mode, *a, **k), self.n == self.at)

    def spaces(self):
        """Instrumented modules have builtins of their own."""
        yield vars(builtins)
        for name, mod in list(sys.modules.items()):
            b = getattr(mod, "__dict__", {}).get("__builtins__")
            if isinstance(b, dict) and b is not vars(builtins) and (
                    name.split(".")[0] == "spins"):
                yield b

    def __enter__(self):
        self.real = builtins.open
        for b in self.spaces():
            b["open"] = self.open
        return self

    def __exit__(self, *a):
        for b in self.spaces():
            b["open"] = self.real


class Handle:

    def __init__(self, files, f, hit):
        self.files, self.f, self.hit = files, f, hit

    def write(self, data):
        if self.hit and self.files.mid:
            self.f.write(bytes(data)[:len(data) // 2])
            self.f.close()
            raise Crash()
        return self.f.write(data)

    def __enter__(self):
        return self

    def __exit__(self, typ, *a):
        self.f.close()

    def __getattr__(self, n):
        return getattr(self.f, n)


def nodes():
    """Custom nodes, registered once through the public interface."""
    if "Param" in CUR:
        return CUR
    from spins.invdes import parametrization as pz
    from spins.invdes import problem
    from spins.invdes.problem_graph import optplan

    class Param(optplan.Parametrization):
        type = optplan.define_schema_type("parametrization.verif")

    class Fun(optplan.Function):
        type = optplan.define_schema_type("function.verif")

    class Scaled(pz.Parametrization):
        """k * x"""

        def __init__(self, x):
            self.x, self.k = x, 1

        def get_structure(self):
            return self.k * self.x

        def calculate_gradient(self):
            return CUR["h"].np.array([[self.k, 0], [0, self.k]])

        def set_k(self, k):
            self.k = k

        def project(self):
            pass

        def encode(self):
            return self.x

        def decode(self, x):
            self.x = x

        def to_vector(self):
            return self.x

        def from_vector(self, x):
            self.x = x

        def get_bounds(self):
            return None

        def serialize(self):
            return {"vector": self.x, "k": self.k}

        def deserialize(self, d):
            self.x, self.k = d["vector"], d["k"]

    class Dot(problem.OptimizationFunction):
        """c . (k x)"""

        def __init__(self, var, c):
            super().__init__([var])
            self.c = c

        def eval(self, vals):
            return self.c[0] * vals[0][0] + self.c[1] * vals[0][1]

        def grad(self, vals, grad_val):
            return [grad_val * self.c]

    optplan.register_node(Param)(lambda p, w: Scaled(CUR["vals"][p.name]))
    optplan.register_node(Fun)(
        lambda p, w: Dot(w.get_object("__variable"), CUR["vals"][p.name]))
    CUR.update(Param=Param, Fun=Fun)
    return CUR


def build(kinds, inverse, iters=2):
    from spins.invdes.problem_graph import optplan
    n = nodes()
    pa, pb = n["Param"](name="pA"), n["Param"](name="pB")
    f, g = n["Fun"](name="f"), n["Fun"](name="g")
    par = optplan.Parameter(name="P", initial_value=CUR["vals"]["P"])
    oth = optplan.Parameter(name="Q", initial_value=CUR["vals"]["Q"])
    obj = par * f + oth
    mon = optplan.SimpleMonitor(name="mf", function=f)
    mon2 = optplan.SimpleMonitor(name="mo", function=obj)
    trans = []
    for k, kind in enumerate(kinds):
        if kind == "sig":
            t = optplan.CubicParamSigmoidStrength(value=CUR["vals"]["k%d" % k])
        else:
            kw = {}
            if kind in ("opt", "other"):
                kw["monitor_lists"] = optplan.ScipyOptimizerMonitorList(
                    callback_monitors=[mon, mon2], start_monitors=[mon2],
                    end_monitors=[mon])
            if kind != "plain":
                kw["optimization_options"] = optplan.ScipyOptimizerOptions(
                    maxiter=iters, ftol=0.0)
            t = optplan.ScipyOptimizerTransformation(
                optimizer="L-BFGS-B", objective=obj, **kw)
        sets = None
        if kind in ("opt", "other"):
            sets = [optplan.SetParam(parameter=par, function=g,
                                     parametrization=pa, inverse=inverse)]
        trans.append(optplan.Transformation(
            name="t%d" % k, parametrization=pb if kind == "other" else pa,
            parameter_list=sets, transformation=t))
    return optplan.OptimizationPlan(transformations=trans)


def reference(h, kinds, inverse, iters=2):
    """Log entries and state after each transformation."""
    v = CUR["vals"]
    x = {"pA": v["pA"], "pB": v["pB"]}
    k = {"pA": 1, "pB": 1}
    par = v["P"]
    logs, states = [], []

    def dot(c, n):
        return c[0] * (k[n] * x[n][0]) + c[1] * (k[n] * x[n][1])

    def log(t, event, n, mons):
        vals = {"mf": dot(v["f"], n), "mo": par * dot(v["f"], n) + v["Q"]}
        logs.append(dict(t=t, event=event, x=x[n], k=k[n], par=par,
                         mons={m: vals[m] for m in mons}))

    for i, kind in enumerate(kinds):
        n = "pB" if kind == "other" else "pA"
        t = "t%d" % i
        if kind == "sig":
            k[n] = v["k%d" % i]
        else:
            loud = kind in ("opt", "other")
            if loud:
                par = dot(v["g"], "pA")
                if inverse:
                    par = 1 / par
            log(t, {"state": "start"}, n, ["mo"] if loud else [])
            for it in range(1 if kind == "plain" else iters):
                x[n] = x[n] - v["a"] * (par * (k[n] * v["f"]))
                if loud:
                    log(t, {"state": "optimizing", "iteration": it + 1}, n,
                        ["mf", "mo"])
            log(t, {"state": "end"}, n, ["mf"] if loud else [])
        states.append((dict(x), dict(k), par))
    return logs, states


def minimizer(h, used):
    """Gradient descent; looks at one more point before each callback."""

    def fn(fun, x0, jac=None, method=None, options=None, callback=None, **kw):
        h.check(method == "L-BFGS-B", "method")
        options = dict(options or {})
        if options:
            h.check(set(options) == {"maxiter", "ftol"} and
                    options["ftol"] == 0, "options reach the optimizer")
        x = x0
        for _ in range(options.get("maxiter", 1)):
            used[0] += 1
            x = x - CUR["vals"]["a"] * jac(x)
            fun(x + 1)
            if callback:
                callback(x)
        return {"x": x}

    return fn


def quiet_logging():
    root = logging.getLogger("")
    for hd in list(root.handlers):
        if isinstance(hd, logging.FileHandler):
            root.removeHandler(hd)
            hd.close()


def check_folder(h, folder, kinds, logs, states, lab):
    have = set(os.listdir(folder))
    n = len(logs)
    h.check({f for f in have if f.startswith("step") and f.endswith(".pkl")
            } == {"step%d.pkl" % (i + 1) for i in range(n)},
            lab + "one log file per event, numbered from 1")
    h.check({f for f in have if f.endswith(".chkpt.pkl")} == {
        "t%d.chkpt.pkl" % i for i in range(len(kinds))},
            lab + "one checkpoint per transformation")
    for i, want in enumerate(logs):
        path = os.path.join(folder, "step%d.pkl" % (i + 1))
        if not os.path.exists(path):
            continue
        with open(path, "rb") as fp:
            d = pickle.load(fp)
        h.check(d["transformation"] == want["t"], lab + "transformation name")
        h.check(d["event"] == want["event"], lab + "event")
        h.check(d["log_counter"] == i + 1, lab + "log counter")
        h.eq(d["parametrization"]["vector"], want["x"], lab + "logged design")
        h.eq(d["parametrization"]["k"], want["k"], lab + "logged metadata")
        h.eq(d["parameters"]["P"], want["par"], lab + "logged parameter")
        h.eq(d["parameters"]["Q"], CUR["vals"]["Q"], lab + "other parameter")
        h.check(set(d["monitor_data"]) == set(want["mons"]),
                lab + "monitors of the event")
        for m, val in want["mons"].items():
            if m in d["monitor_data"]:
                h.eq(d["monitor_data"][m], val, lab + "monitor " + m)
    for i, (x, k, par) in enumerate(states):
        path = os.path.join(folder, "t%d.chkpt.pkl" % i)
        if not os.path.exists(path):
            continue
        with open(path, "rb") as fp:
            d = pickle.load(fp)
        seen = {"pB" if q == "other" else "pA" for q in kinds[:i + 1]}
        if "other" in kinds[:i + 1]:
            seen.add("pA")
        for n in seen:
            h.eq(d["parametrizations"][n]["vector"], x[n],
                 lab + "design in the checkpoint")
            h.eq(d["parametrizations"][n]["k"], k[n],
                 lab + "metadata in the checkpoint")
        if any(q != "sig" for q in kinds[:i + 1]):
            h.eq(d["parameters"]["P"], par, lab + "parameter in the checkpoint")
            h.eq(d["parameters"]["Q"], CUR["vals"]["Q"],
                 lab + "other parameter in the checkpoint")


def run(h, first, n, crashes, inverse=False, iters=2):
    """Run, interrupt anywhere, resume: the same files as without a break."""
    from spins.invdes import problem_graph
    kinds = [first] + [h.choice("kind%d" % i, KINDS) for i in range(1, n)]
    nodes()
    CUR["h"] = h
    v = CUR["vals"] = {
        "pA": h.array("x", 2, -2, 2), "pB": h.array("y", 2, -2, 2),
        "f": h.array("f", 2, -2, 2), "g": h.array("g", 2, -2, 2),
        "P": h.real("P", -2, 2), "Q": h.real("Q", -2, 2),
        "a": h.real("a", 0.125, 1)}
    for i in range(n):
        v["k%d" % i] = h.real("k%d" % i, 0.5, 4)
    if inverse:
        d = v["g"][0] * v["pA"][0] + v["g"][1] * v["pA"][1]
        h.assume(d >= 1)
    logs, states = reference(h, kinds, inverse, iters)
    total = len(logs) + n
    folder = tempfile.mkdtemp()
    used, lost = [0], 0
    try:
        with optstub.stub(minimizer(h, used)):
            done = False
            for c in range(crashes):
                at = h.choice("at%d" % c, list(range(1, total + 2)))
                mid = h.flag("mid%d" % c)
                try:
                    with Files(folder, at, mid):
                        problem_graph.run_plan(build(kinds, inverse, iters), folder,
                                               resume=c > 0)
                    done = True
                except Crash:
                    # The iteration that could not be logged is lost.
                    m = len([f for f in os.listdir(folder)
                             if f.startswith("step") and f.endswith(".pkl")])
                    lost += (m < len(logs) and
                             logs[m]["event"]["state"] == "optimizing")
                finally:
                    quiet_logging()
                if done:
                    break
            if not done:
                problem_graph.run_plan(build(kinds, inverse, iters), folder,
                                       resume=True)
                quiet_logging()
            check_folder(h, folder, kinds, logs, states,
                         "" if done and c == 0 else "after resuming: ")
            if kinds == ["opt"]:
                h.check(used[0] == iters + lost,
                        "no iteration is repeated unless its log is lost")
            before = sorted(os.listdir(folder)), used[0]
            problem_graph.run_plan(build(kinds, inverse, iters), folder, resume=True)
            quiet_logging()
            h.check((sorted(os.listdir(folder)), used[0]) == before,
                    "a finished plan is not run again")
            check_folder(h, folder, kinds, logs, states, "finished: ")
    finally:
        quiet_logging()
        shutil.rmtree(folder)


def penalty(h, opts):
    """The penalty optimizer as a transformation, run and resumed."""
    from spins.invdes import problem_graph
    from spins.invdes.problem_graph import optplan
    n = nodes()
    CUR["h"] = h
    v = CUR["vals"] = {
        "pA": h.array("x", 2, -2, 2), "f": h.array("f", 2, -2, 2),
        "g": h.array("g", 2, -2, 2), "a": h.real("a", 0.125, 1)}
    mu0, tau = (4, 2) if opts else (2, 1.5)
    cycles, per = (2, 2) if opts else (10, 30)
    used = []

    def fn(fun, x0, jac=None, method=None, options=None, callback=None, **kw):
        options = dict(options)
        h.check(options["maxiter"] == per, "iterations per cycle")
        h.check(0 < options["ftol"] <= 0.01, "tolerance")
        used.append(1)
        x = x0
        for _ in range(2 if opts else 1 if len(used) < 3 else 0):
            x = x - v["a"] * jac(x)
            fun(x + 1)
            if callback:
                callback(x)
        return {"x": x}

    def plan():
        f, g = n["Fun"](name="f"), n["Fun"](name="g")
        mon = optplan.SimpleMonitor(name="mf", function=f)
        kw = {}
        if opts:
            kw["optimization_options"] = optplan.PenaltyOptimizerOptions(
                mu0=4, tau=2.0, num_cycles=2, maxiter=2)
        return optplan.OptimizationPlan(transformations=[
            optplan.Transformation(
                name="t0", parametrization=n["Param"](name="pA"),
                transformation=optplan.PenaltyTransformation(
                    optimizer="L-BFGS-B", objective=f, constraints_eq=[g],
                    monitor_lists=optplan.ScipyOptimizerMonitorList(
                        callback_monitors=[mon]), **kw))])

    def go(x, cycle, mu, it, logs):
        while cycle < cycles:
            for _ in range(2 if opts else 1 if cycle < 2 else 0):
                c = v["g"][0] * x[0] + v["g"][1] * x[1]
                x = x - v["a"] * (v["f"] + 2 * mu * c * v["g"])
                it += 1
                logs.append(({"state": "optimizing", "iteration": it,
                              "cycle_num": cycle, "mu": mu}, x))
            cycle, mu = cycle + 1, mu**tau
        logs.append(({"state": "end"}, x))
        return logs

    logs = go(v["pA"], 0, mu0, 0, [({"state": "start"}, v["pA"])])
    folder = tempfile.mkdtemp()
    try:
        at = h.choice("at", list(range(1, len(logs) + 3))) if opts else 99
        mid = h.flag("mid") if opts else False
        with optstub.stub(fn):
            try:
                with Files(folder, at, mid):
                    problem_graph.run_plan(plan(), folder)
            except Crash:
                # What is on disk when the run stops.
                last = at - 2
                if last < 1:
                    pass
                elif last <= 4:
                    ev, x = logs[last]
                    logs = go(x, ev["cycle_num"], ev["mu"], ev["iteration"],
                              logs[:last + 1])
                quiet_logging()
                problem_graph.run_plan(plan(), folder, resume=True)
        h.check({f for f in os.listdir(folder) if f.endswith(".pkl")} == {
            "step%d.pkl" % (i + 1) for i in range(len(logs))
        } | {"t0.chkpt.pkl"}, "log files and checkpoint")
        for i, (ev, x) in enumerate(logs):
            with open(os.path.join(folder, "step%d.pkl" % (i + 1)),
                      "rb") as fp:
                d = pickle.load(fp)
            h.check(d["event"] == ev, "event")
            h.eq(d["parametrization"]["vector"], x, "logged design")
        with open(os.path.join(folder, "t0.chkpt.pkl"), "rb") as fp:
            d = pickle.load(fp)
        h.eq(d["parametrizations"]["pA"]["vector"], logs[-1][1],
             "final design")
    finally:
        quiet_logging()
        shutil.rmtree(folder)


def instances(tier):
    out = []
    for f in KINDS:
        out.append(Instance("run_" + f, run, dict(first=f, n=2, crashes=1),
                            opts=dict(weight=5)))
    out.append(Instance("run_long", run, dict(first="opt", n=1, crashes=1,
                                              iters=9)))
    out.append(Instance("run_twice", run, dict(first="opt", n=1, crashes=2,
                                               iters=3)))
    for o in (True, False):
        out.append(Instance("penalty_" + ("given" if o else "default"),
                            penalty, dict(opts=o)))
    out.append(Instance("run_inverse", run, dict(first="opt", n=1, crashes=1,
                                                 inverse=True)))
    if tier == "thorough":
        for f in KINDS:
            out.append(Instance("run3_" + f, run,
                                dict(first=f, n=3, crashes=2),
                                opts=dict(weight=9)))
    return out
