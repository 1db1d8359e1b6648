"""P24: simulation spaces: drawn permittivity and selection matrices."""
import os
import shutil
import sys
import tempfile

import numpy as np

from checks.common import *
from checks.p09 import COMP, cell, last_wins
from checks.p23 import patch

if "symx.loader" in sys.modules:
    from checks import gdsstub

PRELOAD = ["spins.gridlock", "spins.invdes.problem_graph"]
BOUNDS = ("grids of up to 4x3x2 cells (thorough 5x4x3); two layout layers "
          "with up to 2 rectangles each at fixed nanometre positions, one "
          "slab; every refractive index (complex), the limits of a layer "
          "along z and the structure vector symbolic; selection matrices of "
          "any permittivities on a fixed design rectangle; regions of any "
          "centre and size")
ASSUMPTIONS = [
    "gdspy reads back the layout it wrote and subtracts rectangles exactly",
    "foreground and background differ by at least 1/8 inside the design area "
    "(below 1/1000 of the largest difference the code ignores it)",
    "schematics' number fields keep the number they are given",
]
BIG = (-1000.0, 1000.0)


class Layout:
    """GDS files with rectangles (nm) on layers, in a scratch directory."""

    def __init__(self, files):
        self.files = files

    def __enter__(self):
        import gdspy
        self.dir = tempfile.mkdtemp(prefix="p24")
        for name, layers in self.files.items():
            top = gdspy.Cell("TOP", exclude_from_current=True)
            hidden = gdspy.Cell("$$$x", exclude_from_current=True)
            top.add(gdspy.Polygon([(0, 0), (1, 0), (1, 1)], layer=7))
            for layer, rects in layers.items():
                for x0, x1, y0, y1 in rects:
                    p = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
                    p = [(a / 1000, b / 1000) for a, b in p]
                    top.add(gdspy.Polygon(p, layer=layer[0],
                                          datatype=layer[1]))
                    for k in range(3):
                        hidden.add(gdspy.Polygon(p, layer=layer[0]))
            gdspy.write_gds(os.path.join(self.dir, name), cells=[top, hidden],
                            unit=1e-6, precision=1e-9)
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


def material(h, name, cplx=True, lo=1, hi=4):
    """A material of any refractive index; also its permittivity."""
    from spins.invdes.problem_graph import optplan
    re = h.real(name + "_n", lo, hi)
    im = h.real(name + "_k", -1, 1) if cplx else 0
    n = re + 1j * im if cplx else re
    return optplan.Material(
        index=optplan.ComplexNumber(real=re, imag=im)), n * n


def volume_average(h, ex, boxes, eps, bg):
    out = []
    for n in range(3):
        for i in idx([len(e) - 1 for e in ex]):
            lo, hi = zip(*[cell(ex[a], i[a], COMP[n][a]) for a in range(3)])
            full = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2])
            want = bg
            for e, p in zip(eps, last_wins(h, lo, hi, boxes)):
                want = want + (e - bg) * (p / full)
            out.append((n, i, want))
    return out


def same(h, grids, want, label):
    for n, i, w in want:
        h.eq(grids[n][i], w, label, tol=1e-9)


def quarters(shape, rect, ex):
    """Direct lattice: the quarter cells each field component covers."""
    nx, ny = shape[:2]
    out = []
    for n in range(3):
        for k in range(shape[2]):
            for j in range(ny):
                for i in range(nx):
                    # cell i covers 2i, 2i+1, or starts half a cell earlier
                    sx = 1 if COMP[n][0] else 0
                    sy = 1 if COMP[n][1] else 0
                    qs = [((2 * i + a - sx) % (2 * nx),
                           (2 * j + b - sy) % (2 * ny))
                          for a in (0, 1) for b in (0, 1)]
                    out.append([q for q in qs if rect[0] <= q[0] <= rect[1] and
                                rect[2] <= q[1] <= rect[3]])
    return out


def cells(shape, rect):
    """Uniform: which z-component cells each component's quarters lie in."""
    nx, ny = shape[:2]
    out = []
    for n in range(3):
        for k in range(shape[2]):
            for j in range(ny):
                for i in range(nx):
                    sx = 0 if COMP[n][0] else 1
                    sy = 0 if COMP[n][1] else 1
                    qs = [(((2 * i + a + sx) // 2) % nx,
                           ((2 * j + b + sy) // 2) % ny)
                          for a in (0, 1) for b in (0, 1)]
                    out.append([q for q in qs if rect[0] <= q[0] <= rect[1] and
                                rect[2] <= q[1] <= rect[3]])
    return out


def judge_matrix(h, S, dims, fg, bg, shape, rect, kind):
    """eps_bg + S s = weighted average of fg and bg, for every s."""
    d = vec_f(h, fg, shape) - vec_f(h, bg, shape)
    if kind == "full_direct":
        n = 3 * shape[0] * shape[1] * shape[2]
        h.check(tuple(S.shape) == (n, n), "shape of the matrix")
        s = h.array("s", n, -1, 2)
        h.eq(S @ s, d * s, "every value is set on its own", tol=1e-9)
        return
    sets = (quarters(shape, rect, None) if kind == "direct_lattice" else
            cells(shape, rect))
    w = (rect[1] - rect[0] + 1, rect[3] - rect[2] + 1)
    h.check(tuple(int(v) for v in dims) == w, "dimensions of the design")
    h.check(tuple(S.shape) == (len(sets), w[0] * w[1]), "shape of the matrix")
    s = h.array("s", w[0] * w[1], -1, 2)
    got = S @ s
    for r, qs in enumerate(sets):
        if not qs:
            h.eq(got[r], 0, "nothing changes outside of the design")
            continue
        m = sum(s[q[0] - rect[0] + w[0] * (q[1] - rect[2])]
                for q in qs) / len(qs)
        h.eq(got[r], d[r] * m, "permittivity interpolates with the covered "
             "quarters", tol=1e-9)
    h.eq(S @ np.ones(w[0] * w[1]), d, "all ones is the foreground", tol=1e-9)


def design_rect(shape, ex, rects, kind):
    """Smallest rectangle of the lattice that covers the design."""
    x0, x1 = min(r[0] for r in rects), max(r[1] for r in rects)
    y0, y1 = min(r[2] for r in rects), max(r[3] for r in rects)
    out = []
    for a, (lo, hi) in enumerate(((x0, x1), (y0, y1))):
        d = ex[a][1] - ex[a][0]
        if kind == "direct_lattice":
            hit = [k for k in range(2 * shape[a])
                   if lo < ex[a][0] + (k + 1) * d / 2 and
                   hi > ex[a][0] + k * d / 2]
        else:  # any component of the cell
            hit = [k for k in range(shape[a])
                   if lo < ex[a][k + 1] and hi > ex[a][k] - d / 2]
        out += [hit[0], hit[-1]]
    return out


L1, L2 = (100, 0), (100, 3)
GEO = {
    # a waveguide outside of the design and the design area
    "plain": dict(n=(4, 3, 1), guide=[(-40, -9, -3, 1)],
                  design=[(-8, 8, -8, 4)]),
    "odd": dict(n=(4, 3, 2), guide=[(-40, -7, -3, 1)],
                design=[(-7, 3, -5, 2)]),
    "two": dict(n=(4, 3, 1), guide=[], design=[(-11, -5, -6, 5),
                                               (3, 7, -3, 4)]),
    "last": dict(n=(4, 3, 1), guide=[], design=[(-11, -5, -4, 3),
                                                (5, 7, -7, 7)]),
    "first": dict(n=(4, 3, 1), guide=[], design=[(-7, 7, -4, 3),
                                                 (-7, 2, -7, -5),
                                                 (-11, -9, 1, 7)]),
    "sliver": dict(n=(3, 3, 1), guide=[], design=[(-9, 1, -1, 1)]),
    "large": dict(n=(5, 4, 3), guide=[(-40, -9, -3, 1)],
                  design=[(-9, 9, -7, 6)]),
}


def space(h, spec, selmat, geo, cplx=True, zsym=False):
    """Everything a simulation space offers."""
    from spins.invdes.problem_graph import optplan, simspace
    if h.symbolic:
        patch()
    g = GEO[geo]
    n, dx = g["n"], 8
    cen = (4.0, 4.0, 4.0)
    # the code compares |fg - bg|: keep that a polynomial where it matters
    both = cplx and selmat == "full_direct"
    m_air, e_air = material(h, "air", both)
    m_box, e_box = material(h, "box", cplx)
    m_core, e_core = material(h, "core", both)
    if both:
        h.assume((e_core - e_air).real >= 1.0)
    else:
        h.assume(e_core - e_air >= 1.0)
    if zsym:
        z0 = h.real("z0", -6, -1)
        z1 = h.real("z1", 1, 12)
    else:
        z0, z1 = -3.0, 3.0
    sub = (-100.0, z0)
    core = (z0, z1)
    # the box layer has a trench filled with core material in both
    trench = [(-40, 40, 4, 40)]
    files = {
        "bg.gds": {L1: g["guide"], L2: trench},
        "fg.gds": {L1: g["guide"] + g["design"], L2: trench},
    }

    def eps(name):
        if spec == "gds":
            return optplan.GdsEps(gds=name, mat_stack=optplan.GdsMaterialStack(
                background=m_air,
                stack=[
                    optplan.GdsMaterialStackLayer(
                        foreground=m_core, background=m_box,
                        gds_layer=list(L2), extents=list(sub)),
                    optplan.GdsMaterialStackLayer(
                        foreground=m_core, background=m_air,
                        gds_layer=list(L1), extents=list(core)),
                ]))
        return optplan.GdsMeshEps(gds=name, background=m_air, mesh_list=[
            optplan.SlabMesh(material=m_box, extents=list(sub)),
            optplan.GdsMesh(material=m_core, extents=list(sub),
                            gds_layer=list(L2)),
            optplan.GdsMesh(material=m_core, extents=list(core),
                            gds_layer=list(L1)),
        ])

    params = optplan.SimulationSpace(
        mesh=optplan.UniformMesh(dx=dx),
        eps_fg=eps("fg.gds"),
        eps_bg=eps("bg.gds"),
        sim_region=optplan.Box3d(center=list(cen),
                                 extents=[k * dx for k in n]),
        pml_thickness=[1, 2, 3, 4, 5, 6],
        selection_matrix_type=selmat)
    with Layout(files) as d:
        sp = simspace.SimulationSpace(params, d)
        inst = sp(1550)
        again = sp(1550)
    ex = [np.array([cen[a] - (n[a] + 1) * dx / 2 + k * dx
                    for k in range(n[a] + 1)]) for a in range(3)]
    h.check(list(sp.dims) == list(n), "number of cells")
    h.check(list(sp.pml_layers) == [1, 2, 3, 4, 5, 6], "absorbing layers")
    h.check(sp.dx == dx, "spacing")
    h.check(again is inst, "instances are kept per wavelength")
    for a in range(3):
        h.eq(sp.edge_coords[a], ex[a], "edges of the cells")
        h.eq(sp.dxes[0][a], np.full(n[a], float(dx)), "grid spacing")
        h.eq(sp.dxes[1][a], np.full(n[a], float(dx)), "dual grid spacing")
    box = lambda r, z: [(r[0], r[1]), (r[2], r[3]), z]
    base = [[BIG, BIG, sub]] + [box(r, sub) for r in trench]
    mats = [e_box] + [e_core] * len(trench)
    if spec == "gds":
        base.append([BIG, BIG, core])
        mats.append(e_air)
    want = {}
    for name, rects in (("bg", g["guide"]), ("fg", g["guide"] + g["design"])):
        want[name] = volume_average(
            h, ex, base + [box(r, core) for r in rects],
            mats + [e_core] * len(rects), e_air)
    same(h, inst.eps_bg.grids, want["bg"], "background permittivity")
    fg, bg = simspace.get_fg_and_bg(sp, 1550)
    same(h, bg, want["bg"], "get_fg_and_bg: background")
    same(h, fg, want["fg"], "get_fg_and_bg: foreground")
    rect = design_rect(n, ex, g["design"], selmat)
    judge_matrix(h, inst.selection_matrix, sp.design_dims, fg, bg, n, rect,
                 selmat)


def layers(h, spec):
    """A layer between any two heights, below one with a polygon."""
    from spins.invdes.problem_graph import optplan, simspace
    if h.symbolic:
        patch()
    n, dx = (1, 1, 2), 8
    m_air, e_air = material(h, "air", False)
    m_a, e_a = material(h, "a")
    m_b, e_b = material(h, "b", False)
    h.assume(e_b - e_air >= 1)
    z0 = h.real("z0", -14, 10)
    w = h.real("w", 0.25, 20)
    z = (z0, z0 + w)
    top = (-3.0, 5.0)
    rect = (-40, -1, -40, 40)

    def eps(name):
        if spec == "gds":
            L = optplan.GdsMaterialStackLayer
            return optplan.GdsEps(gds=name, mat_stack=optplan.GdsMaterialStack(
                background=m_air, stack=[
                    L(foreground=m_b, background=m_a, gds_layer=[7, 7],
                      extents=list(z)),
                    L(foreground=m_b, background=m_air, gds_layer=list(L1),
                      extents=list(top))]))
        return optplan.GdsMeshEps(gds=name, background=m_air, mesh_list=[
            optplan.SlabMesh(material=m_a, extents=list(z)),
            optplan.GdsMesh(material=m_b, extents=list(top),
                            gds_layer=list(L1))])

    with Layout({"a.gds": {L1: [rect]}, "b.gds": {L1: []}}) as d:
        sp = simspace.SimulationSpace(optplan.SimulationSpace(
            mesh=optplan.UniformMesh(dx=dx), eps_bg=eps("a.gds"),
            eps_fg=eps("b.gds"),
            sim_region=optplan.Box3d(center=[0, 0, 0],
                                     extents=[k * dx for k in n]),
            pml_thickness=[0] * 6, selection_matrix_type="full_direct"), d)
        inst = sp(1550)
    ex = sp.edge_coords
    boxes, mats = [[BIG, BIG, z]], [e_a]
    if spec == "gds":
        boxes.append([BIG, BIG, top])
        mats.append(e_air)
    boxes.append([rect[:2], rect[2:], top])
    mats.append(e_b)
    same(h, inst.eps_bg.grids, volume_average(h, ex, boxes, mats, e_air),
         "layers are drawn in order")


def matrix(h, shape, rect, reduced, cplx=False, dims=True):
    """create_selection_matrix for any permittivities on a rectangle."""
    from spins import gridlock
    bg = field(h, "bg", shape, cplx=cplx)
    fg = []
    sets = (cells if reduced else quarters)(shape, rect, *([] if reduced else [None]))
    r = 0
    val = [h.np.array(b) for b in bg]
    out = [zeros_like_obj(h, shape) for _ in range(3)]
    for n in range(3):
        for k in range(shape[2]):
            for j in range(shape[1]):
                for i in range(shape[0]):
                    b = bg[n][i, j, k]
                    hit = bool(sets[r])
                    if reduced:  # only cells of the rectangle themselves
                        hit = (rect[0] <= i <= rect[1] and
                               rect[2] <= j <= rect[3])
                    if hit:
                        if cplx:
                            dv = (1 + n + i / 2) * (1 - 0.5j * (j + k))
                        else:
                            dv = h.real("d%d%d%d%d" % (n, i, j, k), 1, 4)
                        b = b + (dv if (i + j) % 2 else -dv)
                    out[n][i, j, k] = b
                    r += 1
    fg = [obj(h, o) for o in out]
    got = gridlock.create_selection_matrix(bg, fg, reduced=reduced,
                                           return_param_dims=dims)
    S, dm = got if dims else (got, [rect[1] - rect[0] + 1,
                                    rect[3] - rect[2] + 1])
    judge_matrix(h, S, dm, fg, bg, shape, rect,
                 "uniform" if reduced else "direct_lattice")
    h.raises(ValueError, lambda: gridlock.create_selection_matrix(
        bg, [h.np.array(b) for b in bg], reduced=reduced),
             "no design area is an error")


def wavelengths(h):
    """Dispersive materials: each wavelength has its own permittivity."""
    import pandas as pd
    import scipy.interpolate
    from spins.invdes.problem_graph import optplan, simspace
    if h.symbolic:
        patch()
    nn, kk = h.array("n", 3, 1, 4), h.array("k", 3, 0, 1)
    wl = [1.25, 1.5, 1.75]
    m_air, e_air = material(h, "air", False, 5, 6)
    disp = optplan.Material(mat_file="disp.csv")
    n, dx = (2, 2, 1), 8
    with Layout({"a.gds": {L1: []}, "b.gds": {L1: [(-12, -4, -8, 0)]}}) as d:
        path = os.path.join(d, "disp.csv")
        open(path, "w").close()
        disp = optplan.Material(mat_file=path)
        eps = lambda f: optplan.GdsMeshEps(
            gds=f, background=disp, mesh_list=[
                optplan.GdsMesh(material=m_air, extents=[-100, 100],
                                gds_layer=list(L1))])
        real_csv, real_ip = pd.read_csv, scipy.interpolate.pchip_interpolate

        class Col(list):
            tolist = lambda self: list(self)

        class Frame(dict):
            columns = property(lambda self: list(self))
            shape = property(lambda self: (3, len(self)))

        def read_csv(f, *a, **k):
            assert f == path
            return Frame(wl=Col(wl), n=Col(nn[i] for i in range(3)),
                         k=Col(kk[i] for i in range(3)))

        def interpolate(x, y, q, *a, **k):
            # an interpolation goes through its data
            h.check(len(x) == len(y) == 3, "table of the material")
            q = float(q)
            hit = [i for i in range(3) if abs(float(x[i]) - q) < 1e-6]
            h.check(len(hit) == 1, "wavelength of the material (nm)")
            return y[hit[0]]

        pd.read_csv, scipy.interpolate.pchip_interpolate = read_csv, interpolate
        try:
            sp = simspace.SimulationSpace(optplan.SimulationSpace(
                mesh=optplan.UniformMesh(dx=dx), eps_fg=eps("b.gds"),
                eps_bg=eps("a.gds"),
                sim_region=optplan.Box3d(center=[0, 0, 0],
                                         extents=[k * dx for k in n]),
                pml_thickness=[0] * 6, selection_matrix_type="full_direct"),
                d)
            order = [h.choice("w%d" % i, (0, 1, 2)) for i in range(3)]
            for i in order:
                inst = sp(wl[i] * 1000)
                e = (nn[i] - 1j * kk[i])
                e = e * e
                for c in range(3):
                    h.eq(inst.eps_bg.grids[c],
                         h.np.array([e] * 4).reshape(n),
                         "permittivity of this wavelength")
                fg, bg = simspace.get_fg_and_bg(sp, wl[i] * 1000)
                h.eq(bg[0], inst.eps_bg.grids[0], "background")
                h.eq(fg[0][0, 1, 0], e_air, "foreground of this wavelength",
                     tol=1e-9)
        finally:
            pd.read_csv, scipy.interpolate.pchip_interpolate = real_csv, real_ip


def region(h, n, axis):
    """create_region_slices selects the cells in the region."""
    from spins.invdes.problem_graph import grid_utils
    ex = [np.arange(k + 1) * 2.0 - 3 for k in n]
    if n[axis] > 2:
        ex[axis] = np.array([-3.0, -1.0, 0.5, 2.0, 5.0])[:n[axis] + 1]
    cen = [ex[a][0] + 1.25 for a in range(3)]
    ext = [0.5, 0.25, 0.75]
    cen[axis] = h.real("c", -8, 8)
    ext[axis] = h.real("w", 0, 20)
    lo, hi = cen[axis] - ext[axis] / 2, cen[axis] + ext[axis] / 2
    h.assume(hi >= ex[axis][0])
    h.assume(lo <= ex[axis][-1])
    sl = grid_utils.create_region_slices([h.np.array(e) for e in ex],
                                         h.np.array(cen), h.np.array(ext))
    h.check(len(sl) == 3, "one slice per axis")
    for a in range(3):
        i0, i1 = int(sl[a].start), int(sl[a].stop)
        h.check(0 <= i0 < i1 <= n[a], "cells of the grid, at least one")
        h.check(sl[a].step is None or int(sl[a].step) == 1, "every cell")
        if a != axis:
            h.check((i0, i1) == (0, 1), "fixed axes")
            continue
        for k in range(n[a]):
            e0, e1 = ex[a][k], ex[a][k + 1]
            if i0 <= k < i1:
                h.check(bool(e0 <= hi) and bool(lo <= e1),
                        "selected cells touch the region")
            else:
                h.check(not (bool(lo <= e0) and bool(e1 <= hi)),
                        "cells inside of the region are selected")


def instances(tier):
    out = []
    A = lambda name, fn, t="quick", **kw: out.append(
        Instance(name, fn, kw, tier=t, opts={"ieee_div": True}))
    for spec in ("gds", "gds_mesh"):
        for sm in ("direct_lattice", "uniform", "full_direct"):
            A("space_%s_%s" % (spec, sm), space, spec=spec, selmat=sm,
              geo="plain")
            A("space_%s_%s_odd" % (spec, sm), space, spec=spec, selmat=sm,
              geo="odd", cplx=False)
            A("space_%s_%s_two" % (spec, sm), space,
              "thorough" if sm == "full_direct" else "quick", spec=spec,
              selmat=sm, geo="two", cplx=False)
            A("space_%s_%s_sliver" % (spec, sm), space, "thorough",
              spec=spec, selmat=sm, geo="sliver", cplx=False)
            A("space_%s_%s_large" % (spec, sm), space, "thorough",
              spec=spec, selmat=sm, geo="large", cplx=False)
            A("space_%s_%s_z" % (spec, sm), space,
              "quick" if (spec, sm) == ("gds_mesh", "full_direct") else
              "thorough", spec=spec, selmat=sm, geo="plain", cplx=False,
              zsym=True)
    for geo in ("last", "first"):
        for sm in ("direct_lattice", "uniform"):
            A("space_%s_%s" % (sm, geo), space, spec="gds_mesh", selmat=sm,
              geo=geo, cplx=False)
    for spec in ("gds", "gds_mesh"):
        A("layers_" + spec, layers, spec=spec)
    for red in (False, True):
        t = "red" if red else "dir"
        A("matrix_%s" % t, matrix, shape=(3, 2, 1), reduced=red,
          rect=(1, 2, 0, 0) if red else (1, 3, 0, 1))
        A("matrix_%s_cplx" % t, matrix, shape=(3, 3, 1), reduced=red,
          rect=(0, 1, 1, 2) if red else (1, 3, 2, 4), cplx=True)
        A("matrix_%s_z" % t, matrix, shape=(2, 2, 2), reduced=red,
          rect=(0, 1, 1, 1), dims=False)
    A("wavelengths", wavelengths)
    for a in range(3):
        n = [2, 2, 2]
        n[a] = 4
        A("region_%d" % a, region, n=tuple(n), axis=a)
    A("region_single", region, n=(1, 2, 2), axis=0)
    return out
