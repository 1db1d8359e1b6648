"""P06: goos shapes: values, drawing order, gradients, pixel geometry."""
from typing import List

import numpy as np

from checks.common import *

PRELOAD = ["spins.goos"]
BOUNDS = ("up to 4 shapes (cuboid, cylinder, sphere, pixelated, translated, "
          "renamed) in groups nested up to 3 deep, all priorities in {-1,0,2} "
          "(every order and tie pattern), all extents/positions/rotations/"
          "radii/pixel values symbolic; pixel grids of up to 4 pixels per "
          "axis with every ratio of extent to pixel size in (0,4]")
ASSUMPTIONS = ["extents and pixel sizes are positive"]

FIELDS = {
    "CuboidFlow": ("pos", "rot", "extents"),
    "CylinderFlow": ("pos", "rot", "radius", "height"),
    "SphereFlow": ("pos", "rot", "radius"),
    "PixelatedContShapeFlow": ("pos", "rot", "array"),
}


def probe_class(goos):

    class Probe(goos.Function):
        """Weighted sum of everything in the (array of) shapes."""
        node_type = "verif.shape_probe"
        goos_no_register = True

        def __init__(self, shape: goos.Shape) -> None:
            super().__init__(shape)

        def set(self, w, co):
            self.w, self.co = w, co
            return self

        def flat(self, flow):
            if isinstance(flow, goos.ArrayFlow):
                return list(flow)
            return [flow]

        def eval(self, inputs):
            self.seen = self.flat(inputs[0])
            tot = 0
            for k, f in enumerate(self.seen):
                for name in FIELDS[type(f).__name__]:
                    tot = tot + self.w[k] * weighted(self.co[name],
                                                     getattr(f, name))
            return goos.NumericFlow(tot)

        def grad(self, inputs, grad_val):
            out = []
            for k, f in enumerate(self.flat(inputs[0])):
                g = type(f).Grad()
                for name in FIELDS[type(f).__name__]:
                    a = getattr(f, name)
                    setattr(g, name + "_grad",
                            grad_val.array_grad * self.w[k] *
                            self.co[name][:a.size].reshape(a.shape))
                out.append(g)
            if isinstance(inputs[0], goos.ArrayFlow):
                return [goos.ArrayFlow.Grad(out)]
            return out

    return Probe


def weighted(co, a):
    a = a.reshape(-1)
    t = 0
    for i in range(a.shape[0]):
        t = t + co[i] * a[i]
    return t


class Maker:
    """Creates leaf shapes with symbolic parameters and remembers them."""

    def __init__(self, h, goos):
        self.h, self.goos = h, goos
        self.n = 0
        self.leaves = []  # dict(node, fields {name: (variable, value)}, prio)

    def _var(self, name, n, lo=-3, hi=3):
        v = self.h.array("%s%d" % (name, self.n), n, lo, hi)
        return self.goos.Variable(v), v

    def leaf(self, kind, prio=None, rot=True):
        goos, h = self.goos, self.h
        mat = goos.material.Material(index=2 + self.n)
        kw = {}
        f = {}
        f["pos"] = self._var("pos", 3)
        if rot:
            f["rot"] = self._var("rot", 3)
            kw["rot"] = f["rot"][0]
        if kind == "cuboid":
            f["extents"] = self._var("ext", 3, 0, 3)
            if prio is not None:
                kw["priority"] = prio
            node = goos.Cuboid(f["extents"][0], f["pos"][0], material=mat,
                               **kw)
        elif kind == "cylinder":
            f["radius"] = self._var("rad", 1, 0, 3)
            f["height"] = self._var("hei", 1, 0, 3)
            node = goos.Cylinder(f["pos"][0], f["radius"][0], f["height"][0],
                                 material=mat, **kw)
        elif kind == "sphere":
            from spins.goos import shapes
            f["radius"] = self._var("rad", 1, 0, 3)
            node = shapes.Sphere(f["pos"][0], f["radius"][0], material=mat,
                                 **kw)
        else:
            v = h.array("arr%d" % self.n, (2, 1, 2), 0, 1)
            f["array"] = (goos.Variable(v), v)
            node = goos.PixelatedContShape(
                f["array"][0], [1, 1, 1], f["pos"][0], [2, 1, 2],
                material=mat, material2=goos.material.Material(index=9), **kw)
        self.n += 1
        d = dict(node=node, f=f, kind=kind, off=0, eps=mat,
                 prio=0 if prio is None or kind != "cuboid" else prio)
        self.leaves.append(d)
        return d


def coefs(h):
    return {
        n: h.array("c_" + n, k, -2, 2) for n, k in
        [("pos", 3), ("rot", 3), ("extents", 3), ("radius", 1),
         ("height", 1), ("array", 4)]
    }


def ranks(leaves):
    """Stable order by priority (decided by the path conditions)."""
    out = []
    for i, a in enumerate(leaves):
        r = 0
        for j, b in enumerate(leaves):
            if j == i:
                continue
            if b["prio"] < a["prio"]:
                r += 1
            elif j < i and not a["prio"] < b["prio"]:
                r += 1
        out.append(r)
    return out


def judge(h, goos, plan, top, leaves, grouped=True):
    """`leaves`: the occurrences in flattened input order."""
    w = h.array("w", max(len(leaves), 1), -2, 2)
    co = coefs(h)
    before = {k: v for k, v in plan.get_state_dict()["variable_data"].items()}
    probe = probe_class(goos)(top).set(w, co)
    val = probe.get().array
    r = ranks(leaves) if grouped else [0]
    h.check(len(probe.seen) == len(leaves), "number of shapes drawn")
    want = 0
    for i, d in enumerate(leaves):
        flow = probe.seen[r[i]]
        h.check(
            flow.material == goos.material.get_material(d["eps"]),
            "material of shape %d" % i)
        h.check(flow.priority == d["prio"], "priority of shape %d" % i)
        for name, (_, v) in d["f"].items():
            got = getattr(flow, name)
            h.eq(got, v + d["off"] if name == "pos" else v,
                 "%s of shape %d" % (name, i))
            vv = v + d["off"] if name == "pos" else v
            want = want + w[r[i]] * weighted(co[name], vv)
        if "rot" not in d["f"]:
            h.eq(flow.rot, np.zeros(3), "rotation defaults to zero")
    h.eq(val, want, "shapes are passed on in drawing order")
    # gradients
    todo = {}
    for i, d in enumerate(leaves):
        for name, (var, v) in d["f"].items():
            g = w[r[i]] * co[name][:v.size].reshape(v.shape)
            k = id(var)
            todo[k] = (var, todo[k][1] + g if k in todo else g, name, i)
    vs = [t[0] for t in todo.values()]
    for g, (var, ref, name, i) in zip(probe.get_grad(vs), todo.values()):
        h.eq(g.array_grad, ref, "gradient by %s of shape %d" % (name, i))
    after = plan.get_state_dict()["variable_data"]
    for k in before:
        h.eq(after[k]["value"], before[k]["value"],
             "evaluating shapes changes no variable")


def single(h, kind, rot, wrap):
    from spins import goos
    with goos.OptimizationPlan() as plan:
        mk = Maker(h, goos)
        d = mk.leaf(kind, rot=rot)
        node = d["node"]
        if wrap == "translate":
            off = h.array("off", 3, -2, 2)
            node = node.translate(off)
            d["off"] = off
        elif wrap == "twice":
            off, off2 = h.array("off", 3, -2, 2), h.array("of2", 3, -2, 2)
            node = node.translate(off).translate(off2)
            d["off"] = off + off2
        elif wrap == "rename":
            node = goos.rename(node, "other")
        judge(h, goos, plan, node, [d], grouped=False)


def group(h, kinds, how):
    """Groups, nested groups, repeated shapes, translated groups."""
    from spins import goos
    with goos.OptimizationPlan() as plan:
        mk = Maker(h, goos)
        ds = []
        for k, kind in enumerate(kinds):
            p = h.choice("p%d" % k, (-1, 0, 2)) if kind == "cuboid" else None
            ds.append(mk.leaf(kind, p, rot=False))
        n = [d["node"] for d in ds]
        G = goos.GroupShape
        if how == "flat":
            top, seq = G(n), ds
        elif how == "nested":
            top, seq = G([G(n[:2])] + n[2:]), None
            inner = order(ds[:2])
            seq = inner + ds[2:]
        elif how == "nested_end":
            top = G(n[:1] + [G(n[1:])])
            seq = ds[:1] + order(ds[1:])
        elif how == "deep":
            top = G([G([G(n[:2]), n[2]])] + n[3:])
            seq = order(order(ds[:2]) + [ds[2]]) + ds[3:]
        elif how == "repeat":
            top, seq = G([n[0], n[1], n[0]]), [ds[0], ds[1], ds[0]]
        elif how == "shared_group":
            g = G(n[:2])
            inner = order(ds[:2])
            top, seq = G([g, n[2], g]), inner + [ds[2]] + inner
        elif how == "translated":
            off = h.array("off", 3, -2, 2)
            top = G(n[:2]).translate(off)
            for d in ds[:2]:
                d["off"] = off
            seq = ds[:2]
            if len(n) > 2:
                top = G([top] + n[2:])
                seq = order(ds[:2]) + ds[2:]
        elif how == "same_translated":
            off = h.array("off", 3, -2, 2)
            moved = dict(ds[0])
            moved["off"] = off
            top, seq = G([n[0], n[0].translate(off)] + n[1:]), \
                [ds[0], moved] + ds[1:]
        elif how == "renamed":
            top = G([goos.rename(G(n[:2]), "g2")] + n[2:])
            seq = order(ds[:2]) + ds[2:]
        judge(h, goos, plan, top, seq)


def order(ds):
    r = ranks(ds)
    out = [None] * len(ds)
    for i, k in enumerate(r):
        out[k] = ds[i]
    return out


def indexed(h):
    """group[i] is the i-th shape drawn and gets its own gradient."""
    from spins import goos
    with goos.OptimizationPlan() as plan:
        mk = Maker(h, goos)
        ds = [
            mk.leaf("cuboid", h.choice("p%d" % k, (0, 1)), rot=False)
            for k in range(2)
        ]
        g = goos.GroupShape([d["node"] for d in ds])
        i = h.choice("i", (0, 1))
        judge(h, goos, plan, g[i], [order(ds)[i]], grouped=False)


def two_evals(h):
    """Setting variables between evaluations, group gradient at new values."""
    from spins import goos
    with goos.OptimizationPlan() as plan:
        mk = Maker(h, goos)
        ds = [mk.leaf("cuboid", k, rot=False) for k in (1, 0)]
        g = goos.GroupShape([d["node"] for d in ds])
        new = h.array("new", 3, 0, 3)
        plan_var = ds[0]["f"]["extents"][0]
        probe = probe_class(goos)(g).set([1, 1], coefs(h))
        probe.get()
        probe.get_grad([plan_var])
        plan_var.set(goos.Constant(new))
        plan.run()
        ds[0]["f"]["extents"] = (plan_var, new)
        judge(h, goos, plan, g, ds)


def flags(h, kind):
    """A shape is constant/frozen exactly where its inputs are."""
    from spins import goos

    got = {}

    class Look(goos.Function):
        node_type = "verif.look"
        goos_no_register = True

        def __init__(self, shape: goos.Shape) -> None:
            super().__init__(shape)

        def eval(self, inputs, context):
            got["f"] = context.input_flags[0]
            return goos.NumericFlow(0)

    with goos.OptimizationPlan():
        names = {"cuboid": ("extents", "pos", "rot"),
                 "cylinder": ("pos", "radius", "height", "rot"),
                 "sphere": ("pos", "radius", "rot")}[kind]
        mode = {n: h.choice("m_" + n, ("var", "const", "frozen"))
                for n in names}
        ins = {}
        for n in names:
            v = np.ones(1 if n in ("radius", "height") else 3)
            if mode[n] == "const":
                ins[n] = goos.Constant(v)
            else:
                ins[n] = goos.Variable(v, parameter=mode[n] == "frozen")
        from spins.goos import shapes
        cls = {"cuboid": goos.Cuboid, "cylinder": goos.Cylinder,
               "sphere": shapes.Sphere}[kind]
        s = cls(**ins, material=goos.material.Material(index=2))
        Look(goos.rename(s, "r") if h.flag("ren") else s).get()
        for n in names:
            h.check(
                bool(getattr(got["f"].const_flags, n)) == (mode[n] == "const"),
                "const flag of " + n)
            h.check(
                bool(getattr(got["f"].frozen_flags, n)) ==
                (mode[n] in ("frozen", "const")), "frozen flag of " + n)


def pixels(h, axis_n):
    """Edges tile the extents, one value per pixel, cells are centres."""
    from spins import goos
    F = goos.PixelatedContShapeFlow
    px = h.array("px", 3, 0.5, 2)
    ext = h.array("ext", 3, 0.25, 8)
    pos = h.array("pos", 3, -3, 3)
    for a in range(3):
        # every ratio: axis_n[a] - 1 < ext/px <= axis_n[a]
        h.assume(ext[a] <= axis_n[a] * px[a])
        h.assume(ext[a] >= (axis_n[a] - 1) * px[a] + 0.0625)
    shape = F.get_shape(ext, px)
    h.check(tuple(shape) == tuple(axis_n), "shape of the values array")
    edges = F.get_relative_edge_coords(ext, px)
    cells = F.get_relative_cell_coords(ext, px)
    flow = F(pos=pos, extents=ext, pixel_size=px)
    for a, (e, c, ae, ac) in enumerate(
            zip(edges, cells, flow.get_edge_coords(),
                flow.get_cell_coords())):
        n = axis_n[a]
        h.check(len(e) == n + 1 and len(c) == n, "number of pixels")
        h.eq(e[0], -ext[a] / 2, "first edge is the boundary of the shape")
        h.eq(e[-1], ext[a] / 2, "last edge is the boundary of the shape")
        for k in range(n):
            h.le(0.0001, e[k + 1] - e[k], "edges increase")
            h.eq(c[k], (e[k] + e[k + 1]) / 2, "cells are pixel centres")
            if 0 < k < n - 1:
                h.eq(e[k + 1] - e[k], px[a], "inner pixels have pixel size")
            h.le(e[k + 1] - e[k], px[a], "pixels are not larger")
            h.eq(e[k] + e[n - k], 0 * px[a], "edges are symmetric")
        h.eq(ae, e + pos[a], "absolute edges")
        h.eq(ac, c + pos[a], "absolute cells")


def creator(h):
    """pixelated_cont_shape: variable, bounds, values, shape agree."""
    from spins import goos
    sizes = []
    val = h.array("v", (3, 2, 1), 0, 1)

    def init(size):
        sizes.append(tuple(size))
        return val

    with goos.OptimizationPlan() as plan:
        var, shape = goos.pixelated_cont_shape(
            init, [2.5, 2, 1], [1, 1, 1], [1, 2, 3], var_name="vv",
            material=goos.material.Material(index=2),
            material2=goos.material.Material(index=3))
        h.check(sizes == [(3, 2, 1)], "initializer is asked for the shape")
        flow = shape.get()
        h.eq(flow.array, val, "values")
        h.eq(flow.pos, np.array([1, 2, 3]), "position")
        h.eq(flow.extents, np.array([2.5, 2, 1]), "extents")
        lo, hi = plan.get_var_bounds(var)
        lo, hi = np.broadcast_to(lo, val.shape), np.broadcast_to(hi, val.shape)
        h.eq(lo, np.zeros(val.shape), "lower bound")
        h.eq(hi, np.ones(val.shape), "upper bound")


def instances(tier):
    out = []
    A = lambda name, fn, t="quick", **kw: out.append(
        Instance(name, fn, kw, tier=t))
    for kind in ("cuboid", "cylinder", "sphere", "pixel"):
        A("single_%s" % kind, single, kind=kind, rot=True, wrap=None)
        A("single_%s_norot" % kind, single, kind=kind, rot=False, wrap=None)
        for wr in ("translate", "twice", "rename"):
            A("single_%s_%s" % (kind, wr), single, kind=kind, rot=True,
              wrap=wr)
    C, Y, S, X = "cuboid", "cylinder", "sphere", "pixel"
    for how, kinds in [("flat", (C, C, C)), ("flat", (C, Y, C)),
                       ("flat", (X, C, S)), ("nested", (C, C, C)),
                       ("nested", (X, C, C)), ("nested_end", (C, C, Y)),
                       ("deep", (C, C, C)), ("repeat", (C, C)),
                       ("shared_group", (C, C, C)), ("translated", (C, X)),
                       ("translated", (C, Y, C)),
                       ("same_translated", (C, C)), ("renamed", (C, C, C))]:
        A("group_%s_%s" % (how, "".join(k[0] + k[1] for k in kinds)), group,
          kinds=kinds, how=how)
    A("group_flat_4", group, "thorough", kinds=(C, C, C, C), how="flat")
    A("group_deep_4", group, "thorough", kinds=(C, C, C, C), how="deep")
    A("indexed", indexed)
    A("two_evals", two_evals)
    for k in (C, Y, S):
        A("flags_" + k, flags, kind=k)
    for n in [(1, 1, 1), (2, 1, 3), (3, 2, 2), (1, 4, 2)]:
        A("pixels_%d%d%d" % n, pixels, axis_n=n)
    A("pixels_444", pixels, "thorough", axis_n=(4, 4, 4))
    A("creator", creator)
    return out
