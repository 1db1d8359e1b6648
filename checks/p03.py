"""P03: plan state, actions, checkpoints and resume."""
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np

from checks.common import *

PRELOAD = ["spins.goos"]
BOUNDS = ("every sequence of 3 actions (thorough: 4) out of set, set from an "
          "expression, freeze, thaw, change or remove bounds and a two-step optimiser "
          "like action, over 2 variables (one of them a parameter) with "
          "symbolic values; interruption at every event and after every "
          "action")
ASSUMPTIONS = [
    "the plan that resumes is rebuilt by the same program (names match); "
    "loading from disk is the subject of P05",
    "files are written atomically (pickle to a temporary directory)",
]

KINDS = ("set", "expr", "setp", "freeze", "thaw", "bounds", "nobounds",
         "step")


class Crash(Exception):
    pass


def _build(h, goos, ops, vals, crash_at=None, counter=None):
    """Adds the variables and actions to the default plan."""

    class Step(goos.Action):
        """x <- a*x + k at each of 2 iterations, with an event after each."""
        node_type = "verif.step"
        goos_no_register = True

        def __init__(self, var: goos.Variable, num: int) -> None:
            super().__init__(var)
            self.var = var
            self.num = num

        def run(self, plan, start=0):
            for k in range(start, 2):
                if self.var in plan.get_thawed_vars():
                    v = plan.get_var_value(self.var)
                    plan.set_var_value(self.var,
                                       vals["a"] * v + vals["v%d" % self.num])
                plan.write_event({"iteration": k + 1}, [self.var])

        def resume(self, plan, event):
            self.run(plan, event["iteration"])

    class Bounds(goos.Action):
        node_type = "verif.bounds"
        goos_no_register = True

        def __init__(self, var: goos.Variable, num: int) -> None:
            super().__init__(var)
            self.var = var
            self.num = num

        def run(self, plan):
            if self.num is None:
                plan.set_var_bounds(self.var, [np.full(2, -np.inf),
                                               np.full(2, np.inf)])
                return
            plan.set_var_bounds(self.var,
                                [vals["v%d" % self.num] - 9, 9 + np.zeros(2)])

    x = goos.Variable(vals["x"], lower_bounds=-50, name="x")
    p = goos.Variable(vals["p"], parameter=True, name="p")
    plan = goos.get_default_plan()
    for n, op in enumerate(ops):
        if op == "set":
            x.set(h.np.array(vals["v%d" % n]) if not h.symbolic else
                  goos.Constant(vals["v%d" % n]))
        elif op == "expr":
            x.set(x * 2.0 + p)
        elif op == "setp":
            p.set(goos.Constant(vals["v%d" % n]))
        elif op == "freeze":
            x.freeze()
        elif op == "thaw":
            x.thaw()
        elif op == "bounds":
            plan.add_action(Bounds(x, n))
        elif op == "nobounds":
            plan.add_action(Bounds(x, None))
        elif op == "step":
            plan.add_action(Step(x, n))
    return x, p


def _model(h, ops, vals):
    """Reference state after the actions; None where a ValueError is due."""
    x, p, fr = vals["x"], vals["p"], False
    lo, hi = [-50.0, -50.0], np.full(2, np.inf)
    log = []
    for n, op in enumerate(ops):
        v = vals["v%d" % n]
        if op in ("set", "expr"):
            if fr:
                return None, log
            x = v if op == "set" else x * 2.0 + p
        elif op == "setp":
            p = v
        elif op == "freeze":
            fr = True
        elif op == "thaw":
            fr = False
        elif op == "bounds":
            lo, hi = v - 9, 9
        elif op == "nobounds":
            lo, hi = np.full(2, -np.inf), np.full(2, np.inf)
        elif op == "step":
            for k in range(2):
                if not fr:
                    x = vals["a"] * x + v
                log.append((n, x, p, fr))
    return (x, p, fr, lo, hi), log


def _state(h, plan, x, p):
    st = plan.get_state_dict()["variable_data"]
    return x.get().array, p.get().array, st


def _compare(h, want, got, lab):
    x, p, st = got
    wx, wp, fr, lo, hi = want
    h.eq(x, wx, lab + "variable value")
    h.eq(p, wp, lab + "parameter value")
    h.eq(st["x"]["value"], wx, lab + "stored value")
    h.check(bool(st["x"]["frozen"]) == fr, lab + "frozen state")
    h.check(bool(st["p"]["frozen"]), lab + "a parameter stays frozen")
    h.eq(st["x"]["bounds"][0], lo, lab + "lower bound")
    h.eq(st["x"]["bounds"][1], hi, lab + "upper bound")


def history(h, first, n):
    """Run, interrupt anywhere, resume: same final state."""
    from spins import goos
    ops = [first] + [h.choice("op%d" % k, KINDS) for k in range(1, n)]
    vals = {"x": h.array("x", 2, -3, 3), "p": h.array("p", 2, -3, 3),
            "a": h.real("a", -2, 2)}
    for k in range(n):
        vals["v%d" % k] = h.array("v%d" % k, 2, -3, 3)
    want, log = _model(h, ops, vals)
    tmp = tempfile.mkdtemp()
    try:
        with goos.OptimizationPlan(save_path=tmp) as plan:
            x, p = _build(h, goos, ops, vals)
            try:
                h.raises(ValueError,
                         lambda: plan.set_var_value(x, np.zeros(2)),
                         "state cannot be changed outside of actions")
                h.raises(ValueError, lambda: plan.freeze_var(x),
                         "variables cannot be frozen outside of actions")
                plan.run()
                done = True
            except ValueError:
                done = False
            h.check(done == (want is not None),
                    "setting a frozen variable (only) is refused")
            if not done:
                return
            _compare(h, want, _state(h, plan, x, p), "after run: ")
            h.raises(ValueError, lambda: plan.set_var_value(x, np.zeros(2)),
                     "state cannot be changed after the run")
            h.raises(ValueError, lambda: plan.thaw_var(x),
                     "variables cannot be thawed after the run")
            plan.run()
            _compare(h, want, _state(h, plan, x, p), "nothing runs twice: ")
        # the log
        steps = sorted(f for f in os.listdir(tmp) if f.startswith("step"))
        h.check(len(steps) == len(log), "one log file per event")
        for k, (num, wx, wp, fr) in enumerate(log):
            with open(os.path.join(tmp, "step%d.pkl" % (k + 1)), "rb") as f:
                d = pickle.load(f)
            h.eq(d["monitor_data"]["x"], wx, "monitor in the log")
            h.eq(d["variable_data"]["x"]["value"], wx, "variable in the log")
            h.eq(d["variable_data"]["p"]["value"], wp, "parameter in the log")
            h.check(d["log_counter"] == k + 1, "log counter")
            h.check(d["event"]["iteration"] == k % 2 + 1, "event data")
            h.check(d["action_ptr"] == num, "index of the running action")
        h.check({"action%d.chkpt" % k for k in range(n)} == {
            f for f in os.listdir(tmp) if f.endswith("chkpt")
        }, "one checkpoint per action")
        # resume from any of the files
        points = ["action%d.chkpt" % k for k in range(n)] + steps
        for pt in points:
            new = tempfile.mkdtemp()
            try:
                with goos.OptimizationPlan(save_path=new) as plan2:
                    x2, p2 = _build(h, goos, ops, vals)
                    plan2.resume(os.path.join(tmp, pt))
                    _compare(h, want, _state(h, plan2, x2, p2),
                             "resume from %s: " % pt)
                    h.raises(ValueError,
                             lambda: plan2.set_var_value(x2, np.zeros(2)),
                             "state cannot be changed after a resume")
                left = {int(f[4:-4]) for f in os.listdir(new)
                        if f.startswith("step")}
                if pt.startswith("step"):
                    h.check(left == set(
                        range(int(pt[4:-4]) + 1, len(log) + 1)),
                            "a resumed run continues the log")
            finally:
                shutil.rmtree(new)
    finally:
        shutil.rmtree(tmp)


def manual(h):
    """write_checkpoint / read_checkpoint restore the complete state."""
    from spins import goos
    x0, x1 = h.array("x", 2, -3, 3), h.array("u", 2, -3, 3)
    p0 = h.array("p", 3, -3, 3)
    fr = h.flag("fr")
    par = h.flag("par")
    lo = h.array("lo", 2, -9, -4)
    tmp = tempfile.mkdtemp()
    try:
        fn = os.path.join(tmp, "c")

        def build():
            x = goos.Variable(x0, lower_bounds=lo, upper_bounds=7, name="x")
            p = goos.Variable(p0, parameter=par, name="p")
            return x, p

        with goos.OptimizationPlan() as plan:
            x, p = build()
            x.set(goos.Constant(x1))
            if fr:
                x.freeze()
            plan.run()
            plan.write_checkpoint(fn)
        with goos.OptimizationPlan() as plan2:
            x, p = build()
            h.eq(x.get().array, x0, "initial value before reading")
            plan2.read_checkpoint(fn)
            h.eq(x.get().array, x1, "value is restored")
            h.eq(p.get().array, p0, "untouched variable is restored")
            st = plan2.get_state_dict()["variable_data"]
            h.check(bool(st["x"]["frozen"]) == fr, "frozen state is restored")
            h.check(bool(st["p"]["frozen"]) == par, "parameter is frozen")
            b = plan2.get_var_bounds(x)
            h.eq(b[0], lo, "lower bounds are restored")
            h.eq(b[1], 7 * np.ones(2), "upper bounds are restored")
            if par:
                h.raises(ValueError, p.thaw, "a parameter cannot be thawed")
    finally:
        shutil.rmtree(tmp)


def isolation(h):
    """Reading state never hands out the plan's own arrays."""
    from spins import goos
    x0 = h.array("x", 2, -3, 3)
    given = h.np.array(x0)
    with goos.OptimizationPlan() as plan:
        x = goos.Variable(given, lower_bounds=-5, name="x")
        given[0] = 9
        v = plan.get_var_value(x)
        v[0] = 7
        h.eq(x.get().array, x0, "value is a private copy")
        g = goos.dot([1.0, 2], x * x).get_grad([x])[0].array_grad
        g[0] = 3
        h.eq(x.get().array, x0, "gradients do not share memory with values")


def nested(h):
    """Plans are independent and nest."""
    from spins import goos
    a, b = h.array("a", 2, -3, 3), h.array("b", 2, -3, 3)
    with goos.OptimizationPlan() as plan:
        x = goos.Variable(a, name="x")
        with goos.OptimizationPlan(autorun=True) as inner:
            h.check(goos.get_default_plan() is inner, "innermost plan is used")
            y = goos.Variable(b, name="x")
            y.set(goos.Constant(a + b))
            h.eq(y.get().array, a + b, "autorun runs actions at once")
        h.check(goos.get_default_plan() is plan, "outer plan is restored")
        h.eq(x.get().array, a, "plans do not share variables")
        x.set(goos.Constant(b))
        h.eq(x.get().array, a, "without autorun actions wait")
        plan.run()
        h.eq(x.get().array, b, "actions run")


def instances(tier):
    out = [Instance("manual", manual), Instance("isolation", isolation),
           Instance("nested", nested)]
    for f in KINDS:
        out.append(Instance("history_" + f, history, dict(first=f, n=3),
                            opts=dict(weight=5)))
    if tier == "thorough":
        for f in KINDS:
            out.append(Instance("history4_" + f, history, dict(first=f, n=4),
                                opts=dict(weight=9)))
    return out
