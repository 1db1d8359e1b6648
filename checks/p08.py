"""P08: gridlock rasterisation is exact area coverage."""
import numpy as np

from checks.common import *

PRELOAD = ["spins.gridlock"]
BOUNDS = ("1D: any segment on any grid of up to 4 cells; 2D: any axis-aligned "
          "rectangle, either orientation, on any 1x1 grid and on a fixed "
          "non-uniform 2x2 grid (thorough: any 2x1 and 1x2 grid, fixed 3x2); "
          "convex polygons of 5 fixed shapes (3 to 6 vertices) at any "
          "position on 1x1 (thorough 2x2) grids")
ASSUMPTIONS = [
    "IEEE division by zero gives inf/nan (modelled); the sign of zero is not",
]


def edges(h, name, n, lo=-4, hi=4):
    """n+1 increasing edges: symbolic first edge and cell widths."""
    e = [h.real(name + "0", lo, hi)]
    d = h.array(name + "d", n, 0.125, 2)
    for i in range(n):
        e.append(e[-1] + d[i])
    return h.np.array(e)


def overlap(h, lo, hi, a, b):
    """length of [lo,hi] n [a,b]."""
    l = a if lo < a else lo
    r = b if hi > b else hi
    return r - l if r > l else 0 * a


def r1d(h, n, swap):
    from spins.gridlock import float_raster
    g = edges(h, "g", n)
    p = h.array("p", 2, -6, 6)
    h.assume(p[0] != p[1])
    got = float_raster.raster_1D(p, g)
    lo, hi = (p[0], p[1]) if p[0] < p[1] else (p[1], p[0])
    want = [overlap(h, lo, hi, g[i], g[i + 1]) / (g[i + 1] - g[i])
            for i in range(n)]
    h.eq(got, h.np.array(want), "fraction of each cell covered")


def where(h, v, g, k):
    """Assumes that v lies in interval k of the line cut by the edges g."""
    n = len(g)
    if k > 0:
        h.assume(v >= g[k - 1])
    if k < n:
        h.assume(v < g[k])


def rect(h, nx, ny, ccw, start=0, at=None, ends=None, fixed=False):
    """Any axis-aligned rectangle on any grid."""
    from spins.gridlock import float_raster
    if fixed:
        gx = h.np.array([-1.0, 0.5, 1.25, 3.0][:nx + 1])
        gy = h.np.array([-0.5, 0.25, 2.0, 2.5][:ny + 1])
    else:
        gx, gy = edges(h, "gx", nx), edges(h, "gy", ny)
    c0 = h.array("c", 2, -6, 6)
    w = h.array("w", 2, 0.125, 8)
    c = [c0[0], c0[0] + w[0], c0[1], c0[1] + w[1]]
    if at is not None:
        where(h, c[0], gx, at)
    if ends is not None:
        where(h, c[2], gy, ends)
    pts = [(c[0], c[2]), (c[1], c[2]), (c[1], c[3]), (c[0], c[3])]
    pts = pts[start:] + pts[:start]
    if not ccw:
        pts = pts[::-1]
    poly = h.np.array([[p[0] for p in pts], [p[1] for p in pts]])
    got = float_raster.raster_2D(poly, gx, gy)
    h.check(got.shape == (nx, ny), "one value per pixel")
    for i in range(nx):
        for j in range(ny):
            want = (overlap(h, c[0], c[1], gx[i], gx[i + 1]) *
                    overlap(h, c[2], c[3], gy[j], gy[j + 1]) /
                    ((gx[i + 1] - gx[i]) * (gy[j + 1] - gy[j])))
            h.eq(got[i, j], want, "pixel is the covered area fraction")


def clip_area(pts, x0, x1, y0, y1):
    """Area of a convex polygon inside a cell (half-plane clipping)."""

    def half(ps, ax, v, sign):
        out = []
        for i, p in enumerate(ps):
            q = ps[(i + 1) % len(ps)]
            dp, dq = (p[ax] - v) * sign, (q[ax] - v) * sign
            if dp >= 0:
                out.append(p)
            if (dp > 0 and dq < 0) or (dp < 0 and dq > 0):
                t = dp / (dp - dq)
                r = [p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t]
                r[ax] = v
                out.append(tuple(r))
        return out

    for ax, v, sg in ((0, x0, 1), (0, x1, -1), (1, y0, 1), (1, y1, -1)):
        if pts:
            pts = half(pts, ax, v, sg)
    a = 0
    for i, p in enumerate(pts):
        q = pts[(i + 1) % len(pts)]
        a = a + p[0] * q[1] - p[1] * q[0]
    return a / 2


POLY = {
    "tri": [(0, 0), (1.5, 0.5), (0.5, 1.25)],
    "right": [(0, 0), (2, 0), (0, 1)],
    "thin": [(0, 0), (3, 0.25), (3, 0.5)],
    "diamond": [(0, -1), (1, 0), (0, 1), (-1, 0)],
    "hex": [(1, 0), (0.5, 0.75), (-0.5, 0.75), (-1, 0), (-0.5, -0.75),
            (0.5, -0.75)],
}


def polygon(h, key, gx, gy, box):
    """A convex polygon of fixed shape anywhere relative to the grid."""
    from spins.gridlock import float_raster
    t = [h.real("tx", box[0], box[1]), h.real("ty", box[2], box[3])]
    pts = [(x + t[0], y + t[1]) for x, y in POLY[key]]
    got = float_raster.raster_2D(
        h.np.array([[p[0] for p in pts], [p[1] for p in pts]]),
        h.np.array(gx), h.np.array(gy))
    for i in range(len(gx) - 1):
        for j in range(len(gy) - 1):
            a = clip_area(pts, gx[i], gx[i + 1], gy[j], gy[j + 1])
            h.eq(got[i, j], a / ((gx[i + 1] - gx[i]) * (gy[j + 1] - gy[j])),
                 "pixel is the covered area fraction")


def instances(tier):
    out = []
    O = {"ieee_div": True}
    A = lambda name, fn, t="quick", **kw: out.append(
        Instance(name, fn, kw, tier=t, opts=O))
    for n in (1, 2, 3, 4):
        A("r1d_%d" % n, r1d, n=n, swap=False)
    for k in range(3):
        A("rect_11_%d" % k, rect, nx=1, ny=1, ccw=True, at=k)
        A("rect_11_cw_%d" % k, rect, nx=1, ny=1, ccw=False, start=1, at=k)
    for k in range(4):
        for j in range(4):
            A("rect_f22_%d%d" % (k, j), rect, nx=2, ny=2, ccw=True,
              start=(k + j) % 4, at=k, ends=j, fixed=True)
            A("rect_f22_cw_%d%d" % (k, j), rect, "thorough", nx=2, ny=2,
              ccw=False, start=k, at=k, ends=j, fixed=True)
            A("rect_f32_%d%d" % (k, j), rect, "thorough", nx=3, ny=2,
              ccw=True, at=k, ends=j, fixed=True)
            A("rect_21_%d%d" % (k, j), rect, "thorough", nx=2, ny=1, ccw=True,
              at=k, ends=j if j < 3 else None)
    for key in POLY:
        A("poly_%s" % key, polygon, key=key, gx=[0.0, 1.0], gy=[0.0, 1.0],
          box=(-2, 1.5, -2, 1.5))
        A("poly2_%s" % key, polygon, "thorough", key=key,
          gx=[0.0, 0.75, 1.5], gy=[0.0, 1.0, 1.25], box=(-2, 2, -2, 2))
    return out
