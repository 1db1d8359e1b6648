"""P07: goos Maxwell rendering and simulation regions."""
import sys

import numpy as np

from checks.common import *
from checks.p08 import edges, overlap, where, clip_area

if "symx.loader" in sys.modules:
    from checks import gdsstub

PRELOAD = ["spins.goos", "spins.goos_sim.maxwell"]
BOUNDS = ("regions of up to 3x2x2 cells, pixelated shapes of up to 3x2x1 "
          "pixels with all pixel values, field gradients (real and complex) "
          "symbolic; shape position symbolic along one axis, 1D pixel and "
          "cell edges fully symbolic (up to 2 pixels, 3 cells); mesh and "
          "extents symbolic for up to 4 cells")
ASSUMPTIONS = [
    "shapes that are drawn do not overlap a pixelated shape drawn earlier",
    "shape rotations are not rendered by the code and not claimed",
]

COMP = 0.5 * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])


def dual(ex, k, shift):
    n = len(ex) - 1
    if not shift:
        return ex[k], ex[k + 1]
    b = ex[k] - ex[k - 1] if k else ex[n] - ex[n - 1]
    return ex[k] - b * shift, ex[k] + (ex[k + 1] - ex[k]) * shift


def region_edges(center, extents, dx):
    """Uniform mesh centred on the region."""
    out = []
    for c, e in zip(center, extents):
        n = int(round(max(e, dx) / dx))
        out.append([c + (i - n / 2) * dx for i in range(n + 1)])
    return out


def frac(h, cell, box):
    """Fraction of a dual cell inside a box."""
    f = 1
    for (a, b), (lo, hi) in zip(cell, box):
        f = f * overlap(h, lo, hi, a, b) / (b - a)
    return f


def pixel_boxes(pos, ext, px, shape):
    """Pixel boundaries, cut off symmetrically at the extents."""
    out = {}
    for i in idx(shape):
        box = []
        for a in range(3):
            n = shape[a]
            e = [pos[a] + (k - n / 2) * px[a] for k in range(n + 1)]
            e[0], e[-1] = pos[a] - ext[a] / 2, pos[a] + ext[a] / 2
            box.append((e[i[a]], e[i[a] + 1]))
        out[i] = box
    return out


SETUPS = {
    # region center, extents, dx, shape pos, extents, pixel size, pixel shape
    "inside": ((0, 0, 0), (3, 2, 1), 1.0, (0.25, 0.0, 0.0), (2, 1, 0.5),
               (1, 1, 0.5), (2, 1, 1)),
    "cut": ((1, 0, 0), (3, 1, 1), 1.0, (0.5, 0.25, 0), (2.5, 1, 1),
            (1, 0.75, 1), (3, 2, 1)),
    "outside": ((0, 0, 0), (2, 2, 1), 1.0, (1.0, -0.75, 0.25), (2, 1.5, 2),
                (0.75, 1.5, 1), (3, 1, 2)),
    "fine": ((0, 0, 0), (2, 1, 2), 1.0, (0, 0, 0.125), (1, 1, 1.5),
             (0.375, 0.5, 1.5), (3, 2, 1)),
}


def mats(cplx):
    if cplx:
        return 1.5, 2.0 + 0.25j, 3.0 + 0.5j
    return 1.5, 2.0, 3.0


def build(h, goos, maxwell, key, cplx, pos=None, flat=False):
    center, extents, dx, p0, pe, px, ps = SETUPS[key]
    nb, n1, n2 = mats(cplx)
    v = h.array("v", ps[:2] if flat and ps[2] == 1 else ps, 0, 1)
    var = goos.Variable(v)
    shape = goos.PixelatedContShape(
        var, list(px), pos if pos is not None else goos.Constant(list(p0)),
        list(pe), material=goos.material.Material(index=n1),
        material2=goos.material.Material(index=n2))
    render = maxwell.RenderShape(
        shape, region=goos.Box3d(center=list(center), extents=list(extents)),
        mesh=maxwell.UniformMesh(dx=dx),
        background=goos.material.Material(index=nb), wavelength=1.5)
    ex = region_edges(center, extents, dx)
    return var, v.reshape(ps), render, ex, (nb**2, n1**2, n2**2)


def spec_matrix(h, ex, boxes, n, i):
    cell = [dual(ex[a], i[a], COMP[n][a]) for a in range(3)]
    return {k: frac(h, cell, b) for k, b in boxes.items()}


def pixel_value(h, key, cplx, flat=False):
    """Every component is the volume average of the permittivity."""
    from spins import goos
    from spins.goos_sim import maxwell
    _, _, _, p0, pe, px, ps = SETUPS[key]
    with goos.OptimizationPlan():
        var, v, render, ex, (eb, e1, e2) = build(h, goos, maxwell, key, cplx,
                                                 flat=flat)
        got = render.get().array
        again = render.get().array
    boxes = pixel_boxes(p0, pe, px, ps)
    for n in range(3):
        h.check(got[n].shape == tuple(len(e) - 1 for e in ex), "grid shape")
        for i in idx([len(e) - 1 for e in ex]):
            w = spec_matrix(h, ex, boxes, n, i)
            want = eb
            for k, f in w.items():
                want = want + f * (e1 + v[k] * (e2 - e1) - eb)
            h.eq(got[n][i], want, "volume average (component %d)" % n)
            h.eq(again[n][i], want, "rendering twice gives the same")


def weigher(goos):

    class Weigh(goos.Function):
        """sum(w * eps), or 2 Re of it for complex weights."""
        node_type = "verif.weigh"
        goos_no_register = True

        def __init__(self, fun: goos.Function) -> None:
            super().__init__(fun)

        def set(self, w):
            self.w = w
            return self

        def eval(self, inputs):
            return goos.NumericFlow(np.sum(self.w * inputs[0].array))

        def grad(self, inputs, grad_val):
            return [goos.NumericFlow.Grad(grad_val.array_grad * self.w)]

    return Weigh


def pixel_grad(h, key, cplx, wc, flat=False, group=False):
    """The gradient by the pixel values is the exact adjoint."""
    from spins import goos
    from spins.goos_sim import maxwell
    center, extents, dx, p0, pe, px, ps = SETUPS[key]
    with goos.OptimizationPlan():
        var, v, render, ex, (eb, e1, e2) = build(h, goos, maxwell, key, cplx,
                                                 flat=flat)
        shape = tuple(len(e) - 1 for e in ex)
        w = h.array("w", (3, ) + shape, -2, 2, cplx=wc)
        if group:
            # a cuboid out of the way, drawn before the pixels
            other = goos.Cuboid(goos.Constant([0.5, 0.5, 0.5]),
                                goos.Variable(np.array([9.0, 9.0, 9.0])),
                                material=goos.material.Material(index=1.7),
                                priority=-1)
            nb, n1, n2 = mats(cplx)
            pix = goos.PixelatedContShape(
                var, list(px), goos.Constant(list(p0)), list(pe),
                material=goos.material.Material(index=n1),
                material2=goos.material.Material(index=n2))
            render = maxwell.RenderShape(
                goos.GroupShape([pix, other]),
                region=goos.Box3d(center=list(center), extents=list(extents)),
                mesh=maxwell.UniformMesh(dx=dx),
                background=goos.material.Material(index=nb), wavelength=1.5)
        f = weigher(goos)(render).set(w)
        g = f.get_grad([var])[0].array_grad
        g2 = f.get_grad([var])[0].array_grad
    h.check(g.shape == var_shape(ps, flat), "shape of the gradient")
    boxes = pixel_boxes(p0, pe, px, ps)
    tot = {k: 0 for k in boxes}
    for n in range(3):
        for i in idx(shape):
            for k, fr in spec_matrix(h, ex, boxes, n, i).items():
                tot[k] = tot[k] + w[n][i] * (e2 - e1) * fr
    g = g.reshape(ps)
    for k in boxes:
        want = tot[k]
        if cplx or wc:
            want = 2 * (want.real if hasattr(want, "real") else want)
        h.eq(g[k], want, "gradient by pixel %s" % (k, ))
    h.eq(g2.reshape(ps), g, "gradient twice gives the same")


def var_shape(ps, flat):
    return ps[:2] if flat and ps[2] == 1 else ps


def pixel_pos(h, key, axis, at):
    """Pixelated shape at any position along one axis."""
    from spins import goos
    from spins.goos_sim import maxwell
    _, _, _, p0, pe, px, ps = SETUPS[key]
    t = h.real("t", -2.5, 2.5)
    with goos.OptimizationPlan():
        p = list(p0)
        p[axis] = t
        pos = goos.Variable(h.np.array(p))
        var, v, render, ex, (eb, e1, e2) = build(h, goos, maxwell, key, False,
                                                 pos=pos)
        where(h, t - pe[axis] / 2, ex[axis], at)
        got = render.get().array
    boxes = pixel_boxes(p, pe, px, ps)
    for n in range(3):
        for i in idx([len(e) - 1 for e in ex]):
            want = eb
            for k, f in spec_matrix(h, ex, boxes, n, i).items():
                want = want + f * (e1 + v[k] * (e2 - e1) - eb)
            h.eq(got[n][i], want, "volume average (component %d)" % n)


def matrix1d(h, m, n):
    """Weights are the covered fraction of each cell, for any edges."""
    from spins.goos_sim.maxwell import render
    s = edges(h, "s", m)
    g = edges(h, "g", n)
    M = render.get_rendering_matrix_1d(s, g)
    h.check(tuple(M.shape) == (n, m), "matrix shape")
    M = M.toarray()
    for i in range(n):
        for j in range(m):
            h.eq(M[i, j],
                 overlap(h, s[j], s[j + 1], g[i], g[i + 1]) /
                 (g[i + 1] - g[i]), "covered fraction")


def cuboid(h, axis, two):
    """Cuboids drawn by priority on the background."""
    from spins import goos
    from spins.goos_sim import maxwell
    ex = region_edges((0, 0, 0), (2, 1, 1), 1.0)
    with goos.OptimizationPlan():
        c, w = h.real("c", -1.5, 1.5), h.real("w", 0.125, 2)
        pos, ext = [0.25, 0.0, 0.0], [1.0, 0.5, 0.75]
        pos[axis], ext[axis] = c, w
        a = goos.Cuboid(goos.Variable(h.np.array(ext)),
                        goos.Variable(h.np.array(pos)),
                        material=goos.material.Material(index=2.0 + 0.5j),
                        priority=1 if two == "below" else 0)
        box = [(p - e / 2, p + e / 2) for p, e in zip(pos, ext)]
        shapes, boxes, eps = [a], [box], [(2 + 0.5j)**2]
        if two:
            b = goos.cuboid([1.0, 1.0, 1.0], [-0.75, 0.0, 0.25],
                            material=goos.material.Material(index=3.0))
            bb = [(-1.25, -0.25), (-0.5, 0.5), (-0.25, 0.75)]
            shapes.append(b)
            if two == "below":
                boxes, eps = [bb, box], [9.0, eps[0]]
            else:
                boxes, eps = [box, bb], [eps[0], 9.0]
        top = goos.GroupShape(shapes) if two else a
        render = maxwell.RenderShape(
            top, region=goos.Box3d(center=[0, 0, 0], extents=[2, 1, 1]),
            mesh=maxwell.UniformMesh(dx=1.0),
            background=goos.material.Material(index=1.5) if not two else None,
            wavelength=1.5)
        got = render.get().array
    from checks.p09 import judge

    class G:
        grids = got

    judge(h, G, [np.array(e) for e in ex], boxes, eps,
          2.25 if not two else 0.0, tol=2e-2 if two else None)


def cylinder(h):
    """A cylinder is extruded along z with its radius, height, centre."""
    from spins import goos
    from spins.goos_sim import maxwell
    ex = region_edges((0, 0, 0), (2, 2, 2), 1.0)
    c, t = h.real("c", -1.5, 1.5), h.real("t", 0.25, 2)
    with goos.OptimizationPlan():
        s = goos.Cylinder(
            goos.Variable(h.np.array([0.25, -0.125, c])),
            goos.Variable(np.array([0.625])), goos.Variable(h.np.array([t])),
            material=goos.material.Material(index=2.0))
        render = maxwell.RenderShape(
            s, region=goos.Box3d(center=[0, 0, 0], extents=[2, 2, 2]),
            mesh=maxwell.UniformMesh(dx=1.0),
            background=goos.material.Material(index=1.0), wavelength=1.5,
            num_points_per_arclen=2.0)
        got = render.get().array
    npt = int(np.ceil(2.0 * 2 * np.pi * 0.625))
    th = np.linspace(0, 2 * np.pi, npt)[:-1]
    pts = [(0.25 + 0.625 * np.sin(a), -0.125 + 0.625 * np.cos(a)) for a in th]
    for n in range(3):
        for i in idx((2, 2, 2)):
            (x0, x1), (y0, y1), (z0, z1) = [
                dual(ex[a], i[a], COMP[n][a]) for a in range(3)
            ]
            ar = abs(clip_area(pts, x0, x1, y0, y1)) / ((x1 - x0) * (y1 - y0))
            f = overlap(h, c - t / 2, c + t / 2, z0, z1) / (z1 - z0) * ar
            h.eq(got[n][i], 1.0 + 3.0 * f, "cylinder coverage")


def edge_coords(h, n, sym):
    """Uniform mesh of pitch dx, centred, of the requested size."""
    from spins import goos
    from spins.goos_sim import maxwell

    class Box:
        pass

    box = Box()
    dx = h.real("dx", 0.5, 2)
    box.center = h.array("c", 3, -3, 3)
    ext = [h.real("e%d" % a, 0, 8) for a in range(3)]
    for a in range(3):
        h.assume(ext[a] <= n[a] * dx)
        h.assume(ext[a] >= (n[a] - 1) * dx)
        if sym[a]:
            h.assume(ext[a] >= 2 * dx)
    box.extents = h.np.array(ext)
    e = maxwell.create_edge_coords(box, dx, list(sym) if any(sym) else None)
    for a in range(3):
        m = len(e[a]) - 1
        h.check(m >= 1, "at least one cell")
        for i in range(m):
            h.eq(e[a][i + 1] - e[a][i], dx, "uniform spacing")
        h.eq(e[a][0] + e[a][-1], 2 * box.center[a], "centred on the region")
        size = ext[a] if ext[a] > dx else dx
        if sym[a]:
            h.check(m % 2 == 0, "even number of cells with symmetry")
            h.le(m * dx, size, "at most the region")
            h.check(m * dx > size - 2 * dx, "largest such mesh")
        else:
            h.le(h.np.abs(m * dx - size), dx / 2, "size within half a cell")


def slices(h, n, mode):
    """create_region_slices picks the cells of the region."""
    from spins.goos_sim import maxwell
    ex = [edges(h, "xyz"[a], n[a]) for a in range(3)]
    sel = [h.choice("s%d" % a, [(i, j) for i in range(n[a])
                                for j in range(i + 1, n[a] + 1)])
           for a in range(3)]
    if mode == "cells":
        lo = [ex[a][sel[a][0]] for a in range(3)]
        hi = [ex[a][sel[a][1]] for a in range(3)]
    elif mode == "big":
        o = h.array("o", 6, 0.0625, 4)
        lo = [ex[a][0] - o[a] for a in range(3)]
        hi = [ex[a][-1] + o[3 + a] for a in range(3)]
        sel = [(0, n[a]) for a in range(3)]
    else:  # a plane inside a cell
        t = h.array("t", 3, 0.0625, 0.9375)
        lo = [ex[a][sel[a][0]] + t[a] *
              (ex[a][sel[a][0] + 1] - ex[a][sel[a][0]]) for a in range(3)]
        hi = lo
        sel = [(s[0], s[0] + 1) for s in sel]
    c = h.np.array([(lo[a] + hi[a]) / 2 for a in range(3)])
    e = h.np.array([hi[a] - lo[a] for a in range(3)])
    got = maxwell.create_region_slices(ex, c, e)
    for a in range(3):
        h.check(int(got[a].start) == sel[a][0], "first cell")
        h.check(int(got[a].stop) == sel[a][1], "last cell")


def any_region(h, n):
    """Any region gives non-empty slices inside the grid."""
    from spins.goos_sim import maxwell
    ex = [edges(h, "xyz"[a], n[a]) for a in range(3)]
    c = h.array("c", 3, -6, 6)
    e = h.array("e", 3, 0, 6)
    for a in range(3):  # regions that touch the grid
        h.assume(c[a] + e[a] / 2 >= ex[a][0])
        h.assume(c[a] - e[a] / 2 <= ex[a][-1])
    got = maxwell.create_region_slices(ex, c, e)
    for a in range(3):
        lo, hi = c[a] - e[a] / 2, c[a] + e[a] / 2
        i, j = int(got[a].start), int(got[a].stop)
        h.check(i < j, "not empty")
        for k in range(n[a]):
            if k >= i and k < j:
                h.check(bool(lo <= ex[a][k + 1]) and bool(hi >= ex[a][k]),
                        "selected cells touch the region")
                continue
            h.check(not (bool(lo <= ex[a][k]) and bool(hi >= ex[a][k + 1])),
                    "every cell inside the region is selected")


def instances(tier):
    out = []
    O = {"ieee_div": True}
    A = lambda name, fn, t="quick", **kw: out.append(
        Instance(name, fn, kw, tier=t, opts=O))
    for k in SETUPS:
        A("value_%s" % k, pixel_value, key=k, cplx=False)
        A("value_c_%s" % k, pixel_value, key=k, cplx=True)
        for c in (False, True):
            for wc in (False, True):
                A("grad_%s_%d%d" % (k, c, wc), pixel_grad, key=k, cplx=c,
                  wc=wc)
    A("value_flat", pixel_value, key="inside", cplx=False, flat=True)
    A("grad_flat", pixel_grad, key="cut", cplx=False, wc=True, flat=True)
    A("grad_group", pixel_grad, key="inside", cplx=False, wc=True, group=True)
    for ax, ats in ((0, 4), (1, 3), (2, 2)):
        for at in range(ats):
            A("pos_%d_%d" % (ax, at), pixel_pos, key="inside", axis=ax, at=at)
    for m, n in ((1, 1), (1, 3), (2, 2), (3, 1)):
        A("matrix_%d%d" % (m, n), matrix1d, m=m, n=n)
    A("matrix_23", matrix1d, "thorough", m=2, n=3)
    A("matrix_33", matrix1d, "thorough", m=3, n=3)
    for a in range(3):
        A("cuboid_%d" % a, cuboid, axis=a, two=None)
    A("cuboid_above", cuboid, axis=2, two="above")
    A("cuboid_below", cuboid, axis=2, two="below")
    A("cylinder", cylinder)
    for n, s in (((1, 2, 3), (0, 0, 0)), ((4, 1, 2), (0, 0, 0)),
                 ((3, 4, 1), (1, 2, 0)), ((3, 1, 3), (0, 0, 1))):
        A("edges_%d%d%d_%d%d%d" % (n + s), edge_coords, n=n, sym=s)
    for m in ("cells", "big", "plane"):
        A("slices_" + m, slices, n=(2, 1, 3), mode=m)
    A("any_region", any_region, n=(3, 1, 2))
    return out
