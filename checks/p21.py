"""P21: gratings: rendering, derivatives, constraints, discretization."""
import itertools
import math

import numpy as np

from checks.common import *

PRELOAD = ["spins.goos", "spins.goos.grating", "spins.invdes.problem",
           "spins.invdes.problem.grating", "spins.invdes.parametrization",
           "spins.invdes.problem_graph.grating"]
BOUNDS = ("rendering: 3 pixels along the grating, 1..4 along the etch, 3 "
          "edges at any place, 8 sets of etch levels, every choice of axes, "
          "both polarities, widths and edge locations; constraints: 3 "
          "edges; discretization: targets of 3 (thorough: 4) pixels with any "
          "values, 2 and 3 levels, edges at up to 5 places per pixel, "
          "against every admissible grating")
ASSUMPTIONS = [
    "edges in increasing order, and not within 1% of a pixel border where "
    "derivatives are checked",
    "discretization: features are at least one pixel wide",
]


def ov(h, a, b, lo, hi):
    """Length of [a, b] within [lo, hi]."""
    return h.np.maximum(h.np.minimum(b, hi) - h.np.maximum(a, lo), 0)


def column(height, nz):
    """What is left of each of nz pixels after etching 1 - height."""
    d = (1 - height) * nz
    return [1 - min(max(d - z, 0.0), 1.0) for z in range(nz)]


def flow(goos, a):
    return goos.NumericFlow(a)


def oriented(h, vals, axes, pol):
    """vals[grating][etch] as the array of a shape."""
    d, e, _ = axes
    shape = [1, 1, 1]
    shape[d], shape[e] = len(vals), len(vals[0])
    out = {}
    for i in range(len(vals)):
        for z in range(len(vals[0])):
            p = [0, 0, 0]
            p[d] = i
            p[e] = len(vals[0]) - 1 - z if pol < 0 else z
            out[tuple(p)] = vals[i][z]
    return shape, out


def make_grating(goos, h, var, lev, fracs, axes, nz, pol, locs, nx, dx):
    ext = [12.0, 24.0, 6.0]
    ext[axes[0]] = nx * dx
    return goos.grating.PixelatedGrating(
        var, lev, fracs, pos=[1.0, 2.0, 3.0], extents=ext,
        material=goos.material.Material(index=1),
        material2=goos.material.Material(index=2), grating_dir=axes[0],
        grating_dir_spacing=dx, etch_dir=axes[1], etch_dir_divs=nz,
        etch_polarity=pol, use_edge_locs=locs), ext


def render(h, fracs, index, axes, nz, pol, locs, inner):
    """Every pixel holds the covered part; gradient exact."""
    from spins import goos
    nx, dx = 3, 0.5
    n = len(index)
    if inner:
        # inside pixels, so that the derivative exists
        e = []
        last = 0
        for k in range(n):
            c = h.choice("c%d" % k, list(range(last, nx)))
            last = c
            e.append(c + h.real("f%d" % k, 0.0625, 0.9375))
            if k:
                h.assume(e[k] > e[k - 1] + 0.0625)
    else:
        e = [h.real("e0", 0, nx - 0.5)]
        for k in range(1, n):
            e.append(e[-1] + h.real("s%d" % k, 0, nx - 0.5))
    pos = [x * dx for x in e]
    par = pos if locs else [pos[0]] + [pos[k] - pos[k - 1]
                                       for k in range(1, n)]
    with goos.OptimizationPlan() as plan:
        var = goos.Variable(h.np.array(par))
        lev = goos.Variable(list(index))
        node, ext = make_grating(goos, h, var, lev, fracs, axes, nz, pol,
                                 locs, nx, dx)
        got = node.get()
        segs = [1.0] + [fracs[i] for i in index]
        cols = [column(x, nz) for x in segs]
        edges = [0] + e + [nx]
        vals = []
        for i in range(nx):
            w = [ov(h, edges[k], edges[k + 1], i, i + 1)
                 for k in range(n + 1)]
            vals.append([sum((w[k] * cols[k][z] for k in range(n + 1)), 0)
                         for z in range(nz)])
        shape, want = oriented(h, vals, axes, pol)
        h.check(tuple(got.array.shape) == tuple(shape), "shape")
        for p, v in want.items():
            h.eq(got.array[p], v, "covered fraction", tol=1e-4)
        h.check(np.allclose(got.extents, ext) and
                np.allclose(got.pos, [1, 2, 3]), "placement")
        px = list(ext)
        px[axes[0]], px[axes[1]] = dx, ext[axes[1]] / nz
        h.check(np.allclose(got.pixel_size, px), "pixel size")
        if not inner:
            return
        g = h.array("g", tuple(shape), -1, 1)
        out = node.grad([flow(goos, h.np.array(par)),
                         flow(goos, np.array(index))],
                        goos.PixelatedContShapeFlow.Grad(array_grad=g))
        dedge = []
        for k in range(n):
            d = 0
            for i in range(nx):
                hit = h.np.where(e[k] > i, 1, 0) * h.np.where(
                    e[k] < i + 1, 1, 0)
                if not hit:
                    continue
                for z in range(nz):
                    p = [0, 0, 0]
                    p[axes[0]] = i
                    p[axes[1]] = nz - 1 - z if pol < 0 else z
                    d = d + g[tuple(p)] * (cols[k][z] - cols[k + 1][z])
            dedge.append(d / dx)
        if not locs:
            for k in range(n - 2, -1, -1):
                dedge[k] = dedge[k] + dedge[k + 1]
        a = out[0].array_grad
        h.check(len(a) == n, "gradient size")
        for k in range(n):
            h.eq(a[k], dedge[k], "gradient", tol=1e-3)


def barcode(h, axis, etch, same):
    from spins import goos
    e = h.array("e", 3, -1, 2)
    t = h.array("t", 1 if same else 2, 0.25, 2)
    pos = [h.real("p%d" % k, -3, 3) for k in range(3)]
    ext = [2.0, 4.0, 0.5]
    with goos.OptimizationPlan() as plan:
        node = goos.grating.BarcodeGrating(
            goos.Variable(h.np.array(e)), goos.Variable(h.np.array(t)), pos,
            ext, goos.material.Material(index=2), grating_dir=axis,
            etch_dir=etch)
        boxes = node.get()
        h.check(len(boxes) == 2, "one box per pair of edges")
        for k in range(2):
            for d in range(3):
                c, w = pos[d], ext[d]
                if d == axis:
                    c = pos[d] - ext[d] / 2 + (e[k] + e[k + 1]) / 2 * ext[d]
                    w = (e[k + 1] - e[k]) * ext[d]
                if d == etch:
                    w = w * t[0 if same else k]
                h.eq(boxes[k].pos[d], c, "box position", tol=1e-9)
                h.eq(boxes[k].extents[d], w, "box size", tol=1e-9)


def edge_constraint(h, kind, n):
    """Separation of the edges and its derivative."""
    from spins import goos
    length = 4.0
    v = h.array("v", n, -1, 5)
    idx = [h.choice("i%d" % k, [0, 1]) for k in range(n)]
    feats = {"scalar": 0.5, "list": [0.5, 0.75],
             "array": np.array([0.25, 1.0])}[kind]

    def feat(k):
        return feats if kind == "scalar" else float(feats[k])

    with goos.OptimizationPlan() as plan:
        con = goos.grating.EdgeLocConstraint(
            goos.Variable(h.np.array(v)), goos.Variable(list(idx)), feats,
            length)
        got = con.get().array
        h.check(len(got) == n + 1, "one constraint per gap and end")
        for k in range(n - 1):
            h.eq(got[k], feat(idx[k]) - (v[k + 1] - v[k]), "gap", tol=1e-9)
        h.eq(got[n - 1], -v[0], "first edge", tol=1e-9)
        h.eq(got[n], v[n - 1] - length, "last edge", tol=1e-9)
        for rnd in range(2):
            g = h.array("g%d" % rnd, n + 1, -1, 1)
            out = con.grad([flow(goos, h.np.array(v)),
                            flow(goos, np.array(idx))],
                           goos.NumericFlow.Grad(g))
            a = out[0].array_grad
            h.check(a.shape == (n, ), "gradient shape")
            for k in range(n):
                w = 0
                if k < n - 1:
                    w = w + g[k]
                else:
                    w = w + g[n]
                if k > 0:
                    w = w - g[k - 1]
                else:
                    w = w - g[n - 1]
                h.eq(a[k], w, "constraint gradient", tol=1e-9)


def feature_constraint(h, composite, scale):
    """invdes.GratingFeatureConstraint."""
    from spins.invdes import parametrization as pz
    from spins.invdes.problem import grating
    mf = h.real("mf", 0, 2)
    sizes = [2, 2] if composite else [4]
    lens = [6, 9] if composite else [7]
    es, params = [], []
    for j, n in enumerate(sizes):
        e = [h.real("e%d" % j, -1, 3)]
        for k in range(1, n):
            e.append(e[-1] + h.real("s%d_%d" % (j, k), 0.0625, 3))
        es.append(e)
        params.append(pz.GratingParam(h.np.array(e), lens[j]))
    p = pz.CompositeParam(params) if composite else params[0]
    kw = {} if scale is None else {"boundary_constraint_scale": scale}
    con = grating.GratingFeatureConstraint(mf, **kw)
    s = 2 if scale is None else scale
    val = con.calculate_objective_function(p)
    J = con.calculate_gradient(p)
    tot = sum(sizes)
    rows, want = [], []
    off = 0
    for e, n, L in zip(es, sizes, lens):
        for k in range(n - 1):
            want.append(mf - (e[k + 1] - e[k]))
            r = [0] * tot
            r[off + k], r[off + k + 1] = 1, -1
            rows.append(r)
        want.append(s * mf - e[0])
        r = [0] * tot
        r[off] = -1
        rows.append(r)
        want.append(e[-1] + s * mf - L)
        r = [0] * tot
        r[off + n - 1] = 1
        rows.append(r)
        off += n
    h.check(len(val) == len(want), "number of constraints")
    for k in range(len(want)):
        h.eq(val[k], want[k], "constraint value", tol=1e-9)
    h.check(J.shape == (len(want), tot), "Jacobian shape")
    h.check(np.array_equal(np.array(J, float), np.array(rows, float)),
            "constraint Jacobian")
    h.raises(ValueError, lambda: grating.GratingFeatureConstraint(-0.5),
             "negative feature size")


def gratings(n, div, nlev, dmin, dmax, start, end, first_min=False):
    """All admissible gratings: [(edges, levels)] in units of 1/div."""
    m = n * div
    out = []

    def go(edges, levels):
        last = edges[-1] if edges else 0
        lev = levels[-1] if levels else start
        if edges and lev == end and m - last <= dmax[lev]:
            out.append((list(edges), list(levels)))
        for k in range(last, m + 1):
            w = k - last
            if w > dmax[lev]:
                break
            if (edges or first_min) and w < dmin[lev]:
                continue
            if edges and k == last:
                continue
            for nx in range(nlev):
                if nx != lev:
                    go(edges + [k], levels + [nx])

    go([], [])
    return out


def pixels(n, div, edges, levels, start, depths):
    """Average depth of each pixel; edges in units of 1/div."""
    b = [0] + list(edges) + [n * div]
    lv = [start] + list(levels)
    out = []
    for i in range(n):
        s = 0.0
        for k in range(len(lv)):
            w = min(b[k + 1], (i + 1) * div) - max(b[k], i * div)
            s += max(w, 0) * depths[lv[k]] / div
        out.append(s)
    return out


def cost(x, r):
    """|x - r|^2 - |x|^2"""
    s = 0
    for i in range(len(r)):
        s = s + r[i] * r[i] - (2 * r[i]) * x[i]
    return s


def unique(rs):
    seen, out = set(), []
    for r in rs:
        k = tuple(round(v, 9) for v in r)
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def lists(v, n):
    if v is None:
        return [10**6] * n
    return [v] * n if np.isscalar(v) else list(v)


def discretize(h, n, div, depths, mins, maxs, start, end, locs, px):
    """The admissible grating closest to the continuous one."""
    from spins import goos
    x = h.array("x", n, 0, 1)
    nl = len(depths)
    mn, mx = lists(mins, nl), lists(maxs, nl)
    sc = lambda v: None if v is None else (
        v * px if np.isscalar(v) else [a * px for a in v])
    with goos.OptimizationPlan() as plan:
        cont = goos.Variable(h.np.array(x))
        ext = [n * px, 10.0, 10.0]
        var, lev, node = goos.grating.discretize_to_pixelated_grating(
            cont, depths, px, start, end, min_features=sc(mins),
            max_features=sc(maxs), divisions=div, use_edge_locs=locs,
            pos=[0, 0, 0], extents=ext,
            material=goos.material.Material(index=1),
            material2=goos.material.Material(index=2), grating_dir=0,
            grating_dir_spacing=px, etch_dir_divs=1)
        plan.run()
        v = [float(a) for a in var.get().array]
        levels = [int(a) for a in lev.get().array]
        bounds = plan.get_var_bounds(var)
    edges = v if locs else list(np.cumsum(v))
    unit = [e / px * div for e in edges]
    k = [int(round(u)) for u in unit]
    h.check(np.allclose(unit, k, atol=1e-6), "edges on the fine grid")
    h.check(len(levels) == len(k) and levels[-1] == end, "levels")
    dmin = [math.ceil(a * div - 1e-9) for a in mn]
    dmax = [math.floor(a * div + 1e-9) for a in mx]
    prev, last = start, 0
    for i in range(len(k)):
        w = k[i] - last
        h.check(w <= dmax[prev], "maximum feature")
        h.check(i == 0 or w >= dmin[prev], "minimum feature")
        h.check(w >= 0 and levels[i] != prev, "edges separate levels")
        prev, last = levels[i], k[i]
    h.check(n * div - last <= dmax[prev], "maximum feature at the end")
    best = pixels(n, div, k, levels, start, depths)
    others = unique(pixels(n, div, a, b, start, depths) for a, b in gratings(
        n, div, nl, dmin, dmax, start, end))
    for r in others:
        h.le(cost(x, best), cost(x, r) + 1e-6, "closest grating")
    lo, hi = bounds
    if locs:
        h.check(np.all(np.isneginf(np.array(lo, float))) and
                np.all(np.isposinf(np.array(hi, float))), "bounds")
    else:
        seg = [start] + levels[:-1]
        for i in range(1, len(k)):
            h.check(abs(float(lo[i]) - mn[seg[i]] * px) < 1e-9,
                    "smallest width of its level")
            u = np.inf if maxs is None else mx[seg[i]] * px
            h.check(float(hi[i]) == u or abs(float(hi[i]) - u) < 1e-9,
                    "largest width of its level")


def edge_fit(h, n, mf):
    """invdes: a continuous grating becomes the closest binary one."""
    from spins.invdes import parametrization as pz
    from spins.invdes.problem_graph import grating
    x = h.array("x", n, 0, 1)
    src = pz.DirectParam(h.np.array(x))
    dx = 20.0
    t = grating.GratingEdgeDiscretization(src, mf * dx, dx)
    dst = pz.GratingParam([], num_pixels=n)
    t(dst, None)
    h.eq(src.to_vector(), x, "source unchanged")
    e = [float(a) for a in dst.to_vector()]
    div = 5
    k = [int(round(a * div)) for a in e]
    h.check(np.allclose(k, np.array(e) * div, atol=1e-6), "fine grid")
    h.check(len(k) % 2 == 0, "pairs of edges")
    d = math.ceil(mf * div - 1e-9)
    m = n * div
    for i in range(len(k) - 1):
        gap = k[i + 1] - k[i]
        # a rising edge at the left border and what lies beyond the last
        # edge are not features
        last = i + 1 == len(k) - 1 and k[i + 1] == m
        h.check(gap >= d or last, "minimum feature")
    if k and k[0] > 0:
        h.check(k[0] >= d, "minimum feature")
    best = pixels(n, div, k, [1 if i % 2 == 0 else 0 for i in range(len(k))],
                  0, [0.0, 1.0])
    # every grating that starts at the border, has holes and teeth of at
    # least d and ends with material of any size
    cand = []
    for st in (0, 1):
        for a, b in gratings(n, div, 2, [d, d], [10**6] * 2, st, 1,
                             first_min=True):
            cand.append(pixels(n, div, a, b, st, [0.0, 1.0]))
    cand = [r for r in unique(cand) if any(v > 0 for v in r) and
            any(v < 1 for v in r)]
    for r in cand:
        h.le(cost(x, best), cost(x, r) + 1e-6, "closest grating")


LEVELS = {
    "full": [0, 1], "partial": [0.25, 1], "three": [0, 0.5, 1],
    "low": [0.25, 0.75], "fine": [0, 0.25, 0.5, 1],
    "thin": [0.5, 0.625, 0.75], "top": [0.125, 0.25, 1],
    "odd": [0.125, 0.375, 0.875],
}


def instances(tier):
    out = []

    def add(fn, nm, **k):
        out.append(Instance(nm, fn, k))

    axes = [(0, 2, 1), (1, 2, 0), (0, 1, 2), (2, 0, 1), (1, 0, 2), (2, 1, 0)]
    j = 0
    for nm, fr in LEVELS.items():
        for nz in (1, 2, 3, 4):
            if nz == 3 and tier != "thorough":
                continue
            top = len(fr) - 1
            idx = [0, top, 1][:3] if j % 2 else [top, 0, top]
            ax = axes[j % 6]
            j += 1
            if nz != 4 or tier == "thorough":
                add(render, "render_%s_%d" % (nm, nz), fracs=fr, index=idx,
                    axes=ax, nz=nz, pol=1 if j % 3 else -1, locs=j % 2 == 0,
                    inner=False)
            if nz in (1, 4) or tier == "thorough":
                add(render, "grad_%s_%d" % (nm, nz), fracs=fr,
                    index=idx[:2] + [1 if idx[1] == 0 else 0], axes=ax,
                    nz=nz, pol=-1 if j % 3 else 1, locs=j % 2 == 1,
                    inner=True)
    for a, e in ((0, 2), (1, 2), (2, 0), (0, 1)):
        add(barcode, "barcode%d%d" % (a, e), axis=a, etch=e, same=a == 1)
    for kind in ("scalar", "list", "array"):
        for n in (2, 3, 4):
            add(edge_constraint, "edges_%s_%d" % (kind, n), kind=kind, n=n)
    for comp in (False, True):
        for s in (None, 1.5, 0):
            add(feature_constraint, "features_%d_%s" % (comp, s),
                composite=comp, scale=s)
    D = [
        ("a", 3, 1, [0, 1], 1, None, 1, 1, False),
        ("b", 3, 1, [0, 1], 1, None, 0, 1, True),
        ("c", 3, 2, [0, 1], 1, None, 1, 0, False),
        ("d", 3, 2, [0, 1], [1, 1.5], None, 1, 1, False),
        ("e", 3, 1, [0, 0.25, 1], 1, None, 2, 2, False),
        ("f", 4, 1, [0, 1], [1, 2], [2, 3], 1, 1, False),
        ("g", 4, 1, [0, 1], 1, 2, 0, 0, True),
        ("h", 3, 2, [0.25, 0.75], [1.25, 1], [2, 2.75], 0, 1, False),
    ]
    if tier == "thorough":
        D += [
            ("i", 3, 4, [0, 1], 1.25, None, 1, 1, False),
            ("j", 4, 2, [0, 1], [1, 1.5], None, 1, 0, False),
            ("k", 4, 1, [0, 0.25, 1], [2, 1, 1], None, 2, 1, False),
            ("l", 3, 2, [0, 0.25, 1], [1, 1.5, 1], [2, 2, 3], 2, 0, False),
            ("m", 5, 1, [0, 1], 1, 3, 1, 1, True),
        ]
    for nm, n, dv, dp, mi, ma, s, e, lo in D:
        add(discretize, "disc_" + nm, n=n, div=dv, depths=dp, mins=mi,
            maxs=ma, start=s, end=e, locs=lo, px=0.5 if nm in "adh" else 20)
    add(edge_fit, "fit3", n=3, mf=1.3)
    add(edge_fit, "fit3_frac", n=3, mf=1.25)
    if tier == "thorough":
        add(edge_fit, "fit4", n=4, mf=1.75)
        add(edge_fit, "fit3_1", n=3, mf=1)
    return out
