"""P23: optimization plans: expressions, JSON round trip, object creation."""
import itertools

import numpy as np

from checks.common import *
from checks import jsonstub

jsonstub.install()

PRELOAD = ["spins.invdes.problem", "spins.invdes.parametrization",
           "spins.invdes.optimization", "spins.invdes.problem_graph"]
BOUNDS = ("every expression of 2 operators (thorough: 3) over functions, "
          "parameters, constants and plain numbers on either side, all their "
          "values symbolic (complex where the operator allows); every "
          "registered node type and transformation with all fields set, "
          "numbers symbolic")
ASSUMPTIONS = [
    "divisors are not zero",
    "the json text carries every number exactly (floats are printed with "
    "repr, which is exact); schematics' number fields keep the number they "
    "are given",
]
SCHEMA = {
    "OPTPLAN_NODE": [
        "em.waveguide_mode", "function.abs", "function.constant",
        "function.diff_epsilon", "function.discrete_penalty",
        "function.epsilon", "function.fabrication_constraint",
        "function.fdfd_simulation", "function.grating_feature_constraint",
        "function.overlap", "function.parameter", "function.power",
        "function.power_comp", "function.product", "function.sum",
        "initializer.normal", "initializer.uniform_random", "monitor.field",
        "monitor.simple", "overlap.import_field_vector",
        "overlap.waveguide_mode", "overlap.waveguide_mode_eig",
        "parametrization.bicubic_levelset", "parametrization.composite",
        "parametrization.cubic", "parametrization.direct",
        "parametrization.grating", "parametrization.hermite_levelset",
        "simulation_space", "source.dipole_source", "source.gaussian_beam",
        "source.plane_wave", "source.waveguide_mode",
        "source.waveguide_mode_eig"
    ],
    "TRANSFORMATION": [
        "cont_to_disc_thresholding", "cubic_param.sigmoid_strength",
        "grating_edge_fit_transformation", "hermite_param.fix_borders",
        "penalty_optimizer", "scipy_optimizer"
    ],
}
CUR = {}
_patched = []


def patch():
    """schematics (a dependency) keeps symbolic numbers as they are."""
    if _patched:
        return
    from schematics.types import base
    from symx.sym import Sym
    real = base.NumberType.to_native

    def to_native(self, v, context=None):
        if not isinstance(v, Sym):
            return real(self, v, context)
        if self.native_type is int:
            # Like the library: numbers with a fraction are refused.
            if not v.is_integer():
                raise base.ConversionError("not an integer")
        return v

    base.NumberType.to_native = to_native
    realp = base.NumberType.to_primitive
    base.NumberType.to_primitive = lambda self, v, context=None: (
        v if isinstance(v, Sym) else realp(self, v, context))
    _patched.append(1)


def nodes():
    if "Fun" in CUR:
        return CUR
    from spins.invdes import problem
    from spins.invdes.problem_graph import optplan

    class Fun(optplan.Function):
        type = optplan.define_schema_type("function.verif23")

    class Par(optplan.Parametrization):
        type = optplan.define_schema_type("parametrization.verif23")

    class Val(problem.OptimizationFunction):

        def __init__(self, v):
            super().__init__([])
            self.v = v
            CUR["made"].append(self)

        def eval(self, unused):
            return self.v

    optplan.register_node(Fun)(lambda p, w: Val(CUR["vals"][p.name]))
    optplan.register_node(Par)(lambda p, w: None)
    CUR.update(Fun=Fun, Par=Par)
    return CUR


class Dummy:

    def get_structure(self):
        raise AssertionError("nothing depends on the structure")


def value(work, node):
    return work.get_object(node).calculate_objective_function(Dummy())


def operand(h, tag, kinds, real=False):
    """(node or number, value)"""
    from spins.invdes.problem_graph import optplan
    n = nodes()
    kind = h.choice("kind" + tag, kinds)
    if kind == "fun":
        v = h.real("v" + tag, -2, 2) if real else h.cplx("v" + tag, -2, 2)
        CUR["vals"]["f" + tag] = v
        return n["Fun"](name="f" + tag), v
    if kind == "par":
        v = h.real("v" + tag, -2, 2)
        return optplan.Parameter(name="p" + tag, initial_value=v), v
    if kind == "const":
        re, im = h.real("v" + tag, -2, 2), h.real("w" + tag, -2, 2)
        if real:
            im = 0
        return optplan.Constant(value=optplan.ComplexNumber(
            real=re, imag=im)), re + 1j * im
    if kind == "cnum":
        re, im = h.real("v" + tag, -2, 2), h.real("w" + tag, -2, 2)
        return optplan.ComplexNumber(real=re, imag=im), re + 1j * im
    v = (h.cplx if kind == "jnum" else h.real)("v" + tag, -2, 2)
    return v, v


def nonzero(h, v):
    h.assume((v * v.conjugate()).real >= 0.25)


def combine(h, op, a, b):
    """((node, value), (node, value)) -> (node, value)"""
    (x, u), (y, v) = a, b
    if op == "add":
        return x + y, u + v
    if op == "sub":
        return x - y, u - v
    if op == "mul":
        return x * y, u * v
    if op == "div":
        nonzero(h, v + 0j)
        return x / y, u / v
    if op == "neg":
        return -x, -u
    if op == "sq":
        return x**2, u * u
    if op == "inv":
        nonzero(h, u + 0j)
        return x**-1, 1 / (u + 0j)
    raise AssertionError(op)


BIN = ("add", "sub", "mul", "div")
UN = ("neg", "sq", "inv")


def expression(h, op1, side, depth):
    """The operators build the function they denote; text keeps it."""
    from spins.invdes import problem_graph
    from spins.invdes.problem_graph import optplan
    patch()
    CUR["vals"], CUR["made"] = {}, []
    optplan.reset_graph()
    a = operand(h, "a", ("fun", "par", "const"))
    a0 = a
    if op1 in UN:
        e = combine(h, op1, a, (None, None))
    else:
        kinds = ("num", "fun", "const")
        if op1 in ("add", "sub", "mul", "div"):
            kinds += ("jnum", )
        if op1 in ("add", "mul"):
            kinds += ("cnum", )
        b = operand(h, "b", kinds)
        if side == "right" and isinstance(b[0], optplan.ComplexNumber):
            return
        e = combine(h, op1, a, b) if side == "left" else combine(h, op1, b, a)
    for d in range(1, depth):
        op = h.choice("op%d" % d, BIN + UN)
        if op in UN:
            e = combine(h, op, e, (None, None))
        else:
            # the operand is a0 again (shared), a number or another function
            if h.flag("again%d" % d):
                c = a0
            else:
                c = operand(h, "c%d" % d, ("num", "fun"))
            e = combine(h, op, e, c) if h.flag("left%d" % d) else combine(
                h, op, c, e)
    node, ref = e
    verify(h, node, ref)


def verify(h, node, ref, lab="", tol=0):
    from spins.invdes import problem_graph
    from spins.invdes.problem_graph import optplan
    work = problem_graph.Workspace(savepath=None)
    h.eq(value(work, node), ref, lab + "value of the expression", tol)
    h.check(work.get_object(node) is work.get_object(node.name),
            lab + "one object per node")
    plan = optplan.OptimizationPlan(nodes=[node])
    text = optplan.dumps(plan)
    h.check(len(plan.nodes) == 1 and plan.nodes[0] is node,
            lab + "the plan itself is not changed")
    h.eq(value(problem_graph.Workspace(savepath=None), node), ref,
         lab + "value after saving", tol)
    back = optplan.loads(text)
    names = [q.name for q in back.nodes]
    h.check(len(set(names)) == len(names), lab + "names are unique")
    h.check(node.name in names, lab + "the node is there")
    new = [q for q in back.nodes if q.name == node.name][0]
    h.check(type(new) is type(node), lab + "node type")
    CUR["made"] = []
    h.eq(value(problem_graph.Workspace(nodes=back.nodes, savepath=None), new),
         ref, lab + "value after loading", tol)
    h.check(len(CUR["made"]) <= len(CUR["vals"]),
            lab + "a shared function stays shared")
    return back


def special(h, kind):
    """Functions which have no operator."""
    from spins.invdes.problem_graph import optplan
    patch()
    CUR["vals"], CUR["made"] = {}, []
    n = nodes()
    if kind == "abs":
        # Pythagorean: the modulus stays rational
        s = h.real("s", -2, 2)
        CUR["vals"]["f"] = 3 * s + 4j * s
        verify(h, optplan.abs(n["Fun"](name="f")), 5 * h.np.maximum(s, -s))
    elif kind == "comp":
        f = h.real("f", -4, 4)
        v, r = h.real("v", -2, 2), h.real("r", 0, 2)
        e = h.choice("e", [1, 2, 3])
        CUR["vals"]["f"] = f
        lo, hi = v - r / 2, v + r / 2
        ref = h.np.maximum(f - hi, 0)**e + h.np.maximum(lo - f, 0)**e
        verify(h, optplan.PowerComp(function=n["Fun"](name="f"), value=v,
                                    range=r, exp=e), ref)
    elif kind == "power":
        f = h.cplx("f", -2, 2)
        CUR["vals"]["f"] = f
        e = h.choice("e", [1, 2, 3, -1, -2])
        nonzero(h, f)
        ref = 1
        for _ in range(abs(e)):
            ref = ref * f if e > 0 else ref / f
        verify(h, n["Fun"](name="f")**optplan.make_constant(e), ref)
    elif kind == "sum":
        vals = [h.cplx("f%d" % i, -2, 2) for i in range(3)]
        for i in range(3):
            CUR["vals"]["f%d" % i] = vals[i]
        fs = [n["Fun"](name="f%d" % i) for i in range(3)]
        verify(h, (fs[0] + fs[1]) + (fs[2] + fs[0]),
               vals[0] + vals[1] + vals[2] + vals[0], "sum of sums: ")
        verify(h, (fs[0] * fs[1]) * (fs[2] * fs[0]),
               vals[0] * vals[1] * vals[2] * vals[0], "product of products: ")
        s = fs[0] + fs[1]
        t = s + fs[2]
        verify(h, s, vals[0] + vals[1], "adding does not change the sum: ")
        verify(h, t + s, 2 * (vals[0] + vals[1]) + vals[2], "reused: ")
        p = fs[0] * fs[1]
        q = p * fs[2]
        verify(h, p, vals[0] * vals[1], "multiplying leaves the product: ")
        verify(h, q - p, vals[0] * vals[1] * (vals[2] - 1), "reused: ")
        m = optplan.SimpleMonitor(name="m", function=t)
        verify(h, m, vals[0] + vals[1] + vals[2], "monitor: ")


def fill(h, model, tag, depth=0):
    """Sets every field of a model to a symbolic value."""
    from schematics import types
    from spins.invdes.problem_graph import optplan
    for name, typ in model._schema.fields.items():
        if name in ("type", "name"):
            continue
        v = field_value(h, typ, tag + "." + name, depth)
        if v is not None:
            model[name] = v
    return model


def field_value(h, typ, tag, depth):
    from schematics import types
    from spins.invdes.problem_graph import optplan
    n = nodes()
    if isinstance(typ, optplan.ReferenceType):
        want = typ.reference_type
        for cand in (n["Fun"], n["Par"]):
            if issubclass(cand, want):
                return cand(name="node" + tag.replace(".", "_"))
        models = optplan.GLOBAL_CONTEXT_STACK.get_node_model_dict(
            optplan.NodeMetaType.OPTPLAN_NODE)
        for k in sorted(models):
            if issubclass(models[k], want):
                return fill(h, models[k](name="node" + tag.replace(".", "_")),
                            tag, depth + 1) if depth < 2 else None
        return None
    if isinstance(typ, types.PolyModelType):
        # take turns so that every variant is used somewhere
        CUR["turn"] = CUR.get("turn", -1) + 1
        ms = variants(typ.model_classes)
        return fill(h, ms[CUR["turn"] % len(ms)](), tag, depth + 1)
    if isinstance(typ, types.ModelType):
        return fill(h, typ.model_class(), tag, depth + 1)
    if isinstance(typ, types.ListType):
        num = typ.min_size or typ.max_size or 3
        return [field_value(h, typ.field, tag + str(i), depth)
                for i in range(num)]
    if isinstance(typ, types.BooleanType):
        return True if depth else h.flag(tag)
    if isinstance(typ, types.FloatType):
        return h.real(tag, 0.125, 2)
    if isinstance(typ, types.IntType):
        return h.int(tag, 1, 9)
    if isinstance(typ, types.StringType):
        if typ.choices:
            return typ.choices[-1]
        return "text " + tag
    return None


def variants(classes):
    out = []
    for c in classes:
        sub = sorted(c.__subclasses__(), key=lambda q: q.__name__)
        out += variants(sub) if sub else [c]
    return out


def same(h, a, b, lab):
    from schematics import models
    if isinstance(a, models.Model):
        h.check(type(a) is type(b), lab + ": model type")
        if type(a) is not type(b):
            return
        for name in a._schema.fields:
            same(h, a[name], b[name], lab + "." + name)
    elif isinstance(a, (list, tuple)):
        h.check(isinstance(b, list) and len(a) == len(b), lab + ": length")
        for i, (x, y) in enumerate(zip(a, b)):
            same(h, x, y, lab)
    elif a is None or isinstance(a, (str, bool)):
        h.check(a == b and type(a) is type(b), lab)
    else:
        h.check(b is not None and not isinstance(b, (str, bool)), lab)
        h.eq(b, a, lab)


def schema(h, meta, names):
    """Each field of each node survives dumps and loads."""
    from spins.invdes.problem_graph import optplan
    patch()
    CUR["vals"], CUR["made"] = {}, []
    optplan.reset_graph()
    CUR["turn"] = h.choice("turn", [0, 1, 2]) - 1
    mt = optplan.NodeMetaType[meta]
    models = optplan.GLOBAL_CONTEXT_STACK.get_node_model_dict(mt)
    for k in names:
        if k not in models:
            continue
        m = fill(h, models[k](), k)
        if meta == "TRANSFORMATION":
            t = optplan.Transformation(
                name="t", parametrization=nodes()["Par"](name="par"),
                parameter_list=[optplan.SetParam(
                    parameter=optplan.Parameter(
                        name="P", initial_value=h.real("init", -1, 1)),
                    function=nodes()["Fun"](name="fun"),
                    parametrization=nodes()["Par"](name="par2"),
                    inverse=h.flag("inverse"))], transformation=m)
            back = optplan.loads(optplan.dumps(
                optplan.OptimizationPlan(transformations=[t])))
            same(h, t, back.transformations[0], k)
        else:
            back = optplan.loads(optplan.dumps(
                optplan.OptimizationPlan(nodes=[m])))
            new = [q for q in back.nodes if q.name == m.name]
            h.check(len(new) == 1, k + ": the node is there once")
            same(h, m, new[0], k)
        # a second trip gives the same text
        h.check(sorted(q.name for q in optplan.loads(
            optplan.dumps(back)).nodes) == sorted(q.name for q in back.nodes),
                k + ": saving again")


def errors(h):
    """Plans that make no sense are refused, valid versions are not."""
    from spins.invdes import problem_graph
    from spins.invdes.problem_graph import optplan
    patch()
    CUR["vals"], CUR["made"] = {}, []
    n = nodes()
    x = h.real("x", -2, 2)
    a = optplan.Parameter(name="same", initial_value=x)
    b = optplan.Parameter(name="same", initial_value=x + 1)
    h.raises(ValueError, lambda: optplan.dumps(
        optplan.OptimizationPlan(nodes=[a + b])), "two nodes with one name")
    h.raises(ValueError, lambda: problem_graph.Workspace(
        savepath=None).get_object(a + b), "two nodes with one name")
    h.raises(ValueError, lambda: optplan.Parameter(name="__x"),
             "reserved names")
    h.raises(ValueError, lambda: optplan.Power(
        function=n["Par"](name="q")), "a reference of the wrong kind")
    h.raises(TypeError, lambda: a + "1", "adding text")
    h.raises(TypeError, lambda: a * None, "multiplying None")
    h.raises(TypeError, lambda: a**b, "power which is not constant")
    h.raises((TypeError, ValueError), lambda: a**(1 + 1j), "complex power")
    ver = [h.choice("v%d" % i, c) for i, c in
           enumerate([(0, 1), (1, 2, 3), (0, 2, 3, 4)])]
    text = optplan.dumps(optplan.OptimizationPlan(
        nodes=[a], version=".".join(str(q) for q in ver)))
    if tuple(ver) >= (0, 2, 3):
        back = optplan.loads(text)
        h.eq(back.nodes[0].initial_value, x, "newer versions are read")
    else:
        h.raises(ValueError, lambda: optplan.loads(text),
                 "older versions are refused")
    # automatic names never collide
    optplan.reset_graph()
    ns = [optplan.make_constant(x), optplan.make_constant(2), a + 1, a * 2,
          a + 1]
    h.check(len({q.name for q in ns}) == 5, "automatic names are distinct")
    c1, c2 = optplan.Constant(), optplan.Constant()
    c1.value.real = 3.0
    h.check(c2.value.real == 0.0, "constants do not share their value")


def instances(tier):
    out = [Instance("errors", errors)]
    for k in ("abs", "comp", "power", "sum"):
        out.append(Instance("special_" + k, special, dict(kind=k)))
    d = 2 if tier == "quick" else 3
    for op in BIN + UN:
        for side in ("left", "right") if op in BIN else ("left",):
            out.append(Instance("expr%d_%s_%s" % (d, op, side), expression,
                                dict(op1=op, side=side, depth=d),
                                opts=dict(weight=5)))
    for meta in ("OPTPLAN_NODE", "TRANSFORMATION"):
        for k in SCHEMA[meta]:
            out.append(Instance("schema_" + k, schema,
                                dict(meta=meta, names=[k])))
    return out
