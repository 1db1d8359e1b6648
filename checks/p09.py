"""P09: gridlock.Grid: geometry, index lookup, drawing."""
import sys

import numpy as np

from checks.common import *
from checks.p08 import edges, overlap, where

if "symx.loader" in sys.modules:
    from checks import gdsstub

PRELOAD = ["spins.gridlock"]
BOUNDS = ("grids of up to 3x2x2 cells (edges symbolic for geometry and "
          "lookup, fixed non-uniform edges for drawing); one cuboid, slab or "
          "fill with any interval along one axis, fixed along the others; 2 "
          "(thorough 3) overlapping cuboids, one of them at any position "
          "along one axis; all permittivities and backgrounds symbolic")
ASSUMPTIONS = [
    "gdspy's polygon subtraction is exact for rectangles (the real library "
    "rounds to 1e-3 length units; replays allow for that)",
    "the width of the ghost cell before the first cell is that of the ghost "
    "cell after the last one",
]

COMP = 0.5 * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])
PRIM = 0.5 * np.eye(3)


def cell(ex, k, shift, periodic=False):
    """Dual cell k along one axis: where a component lives."""
    n = len(ex) - 1
    d = [ex[i + 1] - ex[i] for i in range(n)]
    if shift == 0:
        return ex[k], ex[k + 1]
    ghost = d[0] if periodic else d[-1]
    before = d[k - 1] if k > 0 else ghost
    return ex[k] - before * shift, ex[k] + d[k] * shift


def geometry(h, n, periodic):
    """Edges, centres, widths, shifted versions."""
    from spins import gridlock
    G, GT = gridlock.Grid, gridlock.GridType
    ex = [edges(h, "xyz"[a], n[a]) for a in range(3)]
    per = periodic if isinstance(periodic, bool) else list(periodic)
    g = G(ex, periodic=per)
    pl = [per] * 3 if isinstance(per, bool) else per
    h.check(tuple(int(v) for v in g.shape) == tuple(n), "shape")
    for a in range(3):
        m = n[a]
        h.eq(g.exyz[a], ex[a], "edges")
        d = [ex[a][i + 1] - ex[a][i] for i in range(m)]
        c = [(ex[a][i + 1] + ex[a][i]) / 2 for i in range(m)]
        h.eq(g.dxyz[a], h.np.array(d), "cell widths")
        h.eq(g.xyz[a], h.np.array(c), "cell centres")
        h.eq(g.center[a], (c[0] + c[-1]) / 2, "centre")
        ghost = d[0] if pl[a] else d[-1]
        dg = d + [ghost]
        h.eq(g.dxyz_with_ghost[a], h.np.array(dg), "ghost cell")
        lim = g.dxyz_limits
        for v in d:
            h.le(lim[0][a], v, "smallest cell")
            h.le(v, lim[1][a], "largest cell")
        h.check(any(bool(v == lim[0][a]) for v in d), "smallest is a cell")
        for s in range(3):
            e = [ex[a][i] + dg[i] * PRIM[s][a] for i in range(m + 1)]
            got = g.shifted_exyz(s)[a]
            h.eq(got, h.np.array(e), "shifted edges")
            h.eq(g.shifted_dxyz(s)[a],
                 h.np.array([e[i + 1] - e[i] for i in range(m)]),
                 "shifted widths")
            h.eq(g.shifted_xyz(s)[a],
                 h.np.array([(e[i + 1] + e[i]) / 2 for i in range(m)]),
                 "shifted centres")
            q = COMP[s][a]
            e = g.shifted_exyz(s, GT.COMP)[a]
            h.check(len(e) == (m + 2 if q else m + 1), "dual edges")
            for k in range(m):
                lo, hi = cell(ex[a], k, q, pl[a])
                h.eq(e[k], lo, "dual cell starts")
                h.eq(e[k + 1], hi, "dual cell ends")
                h.eq(g.shifted_dxyz(s, GT.COMP)[a][k], hi - lo,
                     "dual cell width")
                h.eq(g.shifted_xyz(s, GT.COMP)[a][k], (hi + lo) / 2,
                     "dual cell centre")
        auto = g.autoshifted_dxyz()[a]
        want = []
        for k in range(m):
            lo, hi = cell(ex[a], k, 0.5, pl[a])
            want.append(hi - lo)
        h.eq(auto, h.np.array(want), "dual grid spacing")


def unsorted(h):
    """Edge coordinates in any order, with duplicates."""
    import warnings
    from spins import gridlock
    x = h.array("x", 3, -3, 3)
    for i in range(3):
        for j in range(i):
            h.assume(h.np.abs(x[i] - x[j]) >= 0.125)
    pts = [x[0], x[1], x[2]]
    if h.flag("dup"):
        pts.append(x[0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = gridlock.Grid([h.np.array(pts), h.np.array([0.0, 1.0]),
                           h.np.array([0.0, 1.0])])
    h.check(len(g.exyz[0]) == 3, "duplicates are merged")
    h.check(int(g.shape[0]) == 2, "shape")
    for i in range(2):
        h.check(g.exyz[0][i] < g.exyz[0][i + 1], "edges are sorted")
    h.eq(sum(g.exyz[0][i] for i in range(3)), x[0] + x[1] + x[2],
         "same edges")


def lookup(h, n, shift, comp, bounds):
    """pos2ind gives the cell that contains the position."""
    from spins import gridlock
    GT = gridlock.GridType
    ex = [edges(h, "xyz"[a], n[a]) for a in range(3)]
    g = gridlock.Grid(ex)
    which = GT.COMP if comp else GT.PRIM
    r = h.array("r", 3, -6, 6)
    se = g.shifted_exyz(shift, which)
    try:
        got = g.pos2ind(r, shift, which, check_bounds=bounds)
        err = False
    except gridlock.GridError:
        err = True
    inside = True
    for a in range(3):
        # singleton axes are never checked
        if n[a] > 1 and (r[a] < se[a][0] or r[a] > se[a][-1]):
            inside = False
    if bounds:
        h.check(err == (not inside), "error iff outside of the grid")
    else:
        h.check(not err, "no error without bounds check")
    if err:
        return
    for a in range(3):
        i = int(got[a])
        h.check(got[a] == i, "index is an integer")
        m = len(se[a]) - 1
        h.check(0 <= i < m, "index in range")
        h.check(bool(r[a] >= se[a][i]) or i == 0, "cell starts before r")
        h.check(bool(r[a] < se[a][i + 1]) or i == m - 1, "cell ends after r")


def roundtrip(h, n, shift):
    """ind2pos is the cell centre and pos2ind finds it again."""
    from spins import gridlock
    ex = [edges(h, "xyz"[a], n[a]) for a in range(3)]
    g = gridlock.Grid(ex)
    ind = [h.choice("i%d" % a, tuple(range(n[a]))) for a in range(3)]
    pos = g.ind2pos(ind, shift)
    for a in range(3):
        s = 0 if shift is None else PRIM[shift][a]
        d = [ex[a][i + 1] - ex[a][i] for i in range(n[a])]
        d.append(d[-1])
        lo = ex[a][ind[a]] + s * d[ind[a]]
        hi = ex[a][ind[a] + 1] + s * d[ind[a] + 1]
        h.eq(pos[a], (lo + hi) / 2, "position is the cell centre")
    back = g.pos2ind(pos, shift)
    for a in range(3):
        h.check(back[a] == ind[a], "pos2ind inverts ind2pos")
        h.check(
            g.coord2ind(pos[a], gridlock.Direction(a), shift) == ind[a],
            "coord2ind agrees")
    a = h.choice("axis", (0, 1, 2))
    bad = list(ind)
    bad[a] = h.choice("bad", (-1, n[a]))
    h.raises(gridlock.GridError, lambda: g.ind2pos(bad, shift),
             "index outside of the grid is an error")


GRID = [
    np.array([-1.0, 0.5, 1.25, 3.0]),
    np.array([-0.5, 0.25, 2.0]),
    np.array([0.0, 1.0, 1.5])
]


def vol(h, lo, hi, boxes):
    """Volume of the intersection of the boxes with the cell lo..hi."""
    v = 1
    for a in range(3):
        l, r = lo[a], hi[a]
        for b in boxes:
            l = b[a][0] if b[a][0] > l else l
            r = b[a][1] if b[a][1] < r else r
        if not l < r:
            return 0
        v = v * (r - l)
    return v


def last_wins(h, lo, hi, boxes):
    """Volume in which box i is the last one drawn, for each i."""
    out = []
    for i in range(len(boxes)):
        rest = boxes[i + 1:]
        t = vol(h, lo, hi, [boxes[i]])
        for m in range(1, 2**len(rest)):
            sub = [b for j, b in enumerate(rest) if m >> j & 1]
            sg = -1 if len(sub) % 2 else 1
            t = t + sg * vol(h, lo, hi, [boxes[i]] + sub)
        out.append(t)
    return out


def judge(h, g, ex, boxes, eps, bg, tol=None):
    """Every component of every cell is the volume average."""
    for n in range(3):
        for i in idx([len(e) - 1 for e in ex]):
            lo, hi = zip(*[cell(ex[a], i[a], COMP[n][a]) for a in range(3)])
            full = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2])
            part = last_wins(h, lo, hi, boxes)
            want = bg
            for e, p in zip(eps, part):
                en = e if not isinstance(e, np.ndarray) else e[n]
                want = want + (en - bg) * p / full
            h.eq(g.grids[n][i], want,
                 "cell value is the volume average (component %d)" % n,
                 tol=tol)


FIXED = [(-0.25, 2.0), (0.0, 1.0), (0.25, 1.25)]


def interval(h, name, a, lo=-3.0, hi=4.0):
    c = h.real(name + "c" + "xyz"[a], lo, hi)
    w = h.real(name + "w" + "xyz"[a], 0.125, 4)
    return (c - w / 2, c + w / 2), c, w


def draw(h, axis, ext_dir, method="cuboid", vec_eps=False, grid=None,
         again=False, enum=True, whole=False):
    """One cuboid, any interval along one axis."""
    from spins import gridlock
    D = gridlock.Direction
    ex = grid or GRID
    bg = h.cplx("bg", -2, 2)
    eps = h.array("eps", 3, -3, 3) if vec_eps else h.cplx("eps", -3, 3)
    g = gridlock.Grid([h.np.array(e) for e in ex], ext_dir=D(ext_dir),
                      initial=bg, num_grids=3)
    (lo, hi), c, w = interval(h, "b", axis)
    box = list(FIXED)
    box[axis] = (lo, hi)
    cen = [(b[0] + b[1]) / 2 for b in box]
    ext = [b[1] - b[0] for b in box]
    cen[axis], ext[axis] = c, w
    if method == "cuboid":
        g.draw_cuboid(h.np.array(cen), h.np.array(ext), eps)
    elif method == "slab":
        g.draw_slab(D(axis) if enum else axis, c, w, eps)
        for a in range(3):
            if a != axis:
                box[a] = (-100.0, 100.0)
    elif method in ("fill+", "fill-"):
        pol = 1 if method == "fill+" else -1
        h.assume(c >= ex[axis][0])
        h.assume(c <= ex[axis][-1])
        h.assume(h.np.abs(c - ex[axis][-1 if pol == 1 else 0]) >= 0.0625)
        g.fill_slab(D(axis) if enum else axis, pol, c, eps)
        for a in range(3):
            box[a] = (-100.0, 100.0)
        # beyond the edge of the grid the fill mirrors to cover the ghost
        e = ex[axis][-1] if pol == 1 else ex[axis][0]
        th = 2 * (e - c) * pol
        box[axis] = (c, c + th) if pol == 1 else (c - th, c)
    elif method in ("fillc+", "fillc-"):
        pol = 1 if method == "fillc+" else -1
        h.assume(c >= ex[axis][0])
        h.assume(c <= ex[axis][-1])
        h.assume(h.np.abs(c - ex[axis][-1 if pol == 1 else 0]) >= 0.0625)
        rest = [a for a in range(3) if a != axis]
        sc = list(cen)
        sc[axis] = c
        se = h.np.array([ext[a] for a in rest])
        if whole:  # integer extents
            se = [1, 2]
            for a, e in zip(rest, se):
                box[a] = (cen[a] - e / 2, cen[a] + e / 2)
        g.fill_cuboid(D(axis) if enum else axis, pol, h.np.array(sc), se, eps)
        e = ex[axis][-1] if pol == 1 else ex[axis][0]
        th = 2 * (e - c) * pol
        box[axis] = (c, c + th) if pol == 1 else (c - th, c)
    g.render()
    judge(h, g, ex, [box], [eps], bg)
    # rendering again gives the same
    if again:
        before = h.np.array(g.grids)
        g.render()
        h.eq(g.grids, before, "rendering twice changes nothing")


def overlapping(h, axes, ext_dir, k=2, at=None):
    """The shape drawn last wins, whatever the positions."""
    from spins import gridlock
    ex = [np.array([-1.0, 0.5, 2.0]), np.array([-0.5, 0.75]),
          np.array([0.0, 1.0])]
    bg = h.real("bg", -2, 2)
    g = gridlock.Grid([h.np.array(e) for e in ex],
                      ext_dir=gridlock.Direction(ext_dir), initial=bg,
                      num_grids=3)
    boxes, eps = [], []
    fixed = [[(-0.25, 1.5), (-0.25, 0.5), (0.25, 0.75)],
             [(0.0, 1.75), (-0.75, 0.25), (0.25, 1.5)],
             [(-0.5, 1.0), (0.0, 0.25), (-0.25, 0.5)]]
    for b in range(k):
        box = list(fixed[b])
        cen = [(x[0] + x[1]) / 2 for x in box]
        ext = [x[1] - x[0] for x in box]
        a = axes[b]
        if a is not None:
            box[a], cen[a], ext[a] = interval(h, "b%d" % b, a, -1.5, 2.5)
            if at is not None:
                where(h, box[a][0], [-1.0, -0.25, 0.5, 1.0, 1.5], at)
        e = h.real("eps%d" % b, -3, 3)
        g.draw_cuboid(h.np.array(cen), h.np.array(ext), e)
        boxes.append(box)
        eps.append(e)
    g.render()
    # gdspy works with a resolution of 1e-3
    judge(h, g, ex, boxes, eps, bg, tol=2e-2)


def cleared(h):
    """clear() forgets the shapes; copies are independent."""
    from spins import gridlock
    ex = [e[:2] for e in GRID]
    bg, e1, e2 = (h.real(n, -3, 3) for n in ("bg", "e1", "e2"))
    g = gridlock.Grid([h.np.array(e) for e in ex], initial=bg, num_grids=3)
    g.draw_cuboid(h.np.array([0.0, 0.0, 0.5]), h.np.array([1.0, 1.0, 1.0]), e1)
    g.render()
    c = g.copy()
    g.clear()
    g.draw_cuboid(h.np.array([0.25, 0.0, 0.5]), h.np.array([0.5, 1.0, 0.5]),
                  e2)
    g.render()
    judge(h, g, ex, [[(0.0, 0.5), (-0.5, 0.5), (0.25, 0.75)]], [e2], bg)
    judge(h, c, ex, [[(-0.5, 0.5), (-0.5, 0.5), (0.0, 1.0)]], [e1], bg)


def instances(tier):
    out = []
    O = {"ieee_div": True}
    A = lambda name, fn, t="quick", **kw: out.append(
        Instance(name, fn, kw, tier=t, opts=O))
    A("geometry_321", geometry, n=(3, 2, 1), periodic=False)
    A("geometry_per", geometry, n=(2, 1, 3), periodic=True)
    A("geometry_perlist", geometry, n=(2, 2, 2), periodic=(True, False, True))
    A("unsorted", unsorted)
    for s in (None, 0, 1, 2):
        A("lookup_%s" % s, lookup, n=(3, 1, 2), shift=s, comp=False,
          bounds=True)
        A("roundtrip_%s" % s, roundtrip, n=(2, 1, 2), shift=s)
    A("lookup_comp", lookup, n=(2, 1, 2), shift=1, comp=True, bounds=True)
    A("lookup_clip", lookup, n=(2, 1, 2), shift=0, comp=False, bounds=False)
    small = [GRID[0][:3], GRID[1][:2], GRID[2][:3]]
    small2 = [GRID[0][:2], GRID[1], GRID[2][:2]]
    for a in range(3):
        A("draw_%d" % a, draw, axis=a, ext_dir=2,
          grid=small2 if a == 1 else small)
        A("draw_full_%d" % a, draw, "thorough", axis=a, ext_dir=2)
    A("draw_ext0", draw, axis=1, ext_dir=0, grid=small2, again=True)
    A("draw_ext1", draw, axis=0, ext_dir=1, grid=small)
    A("draw_full_ext0", draw, "thorough", axis=1, ext_dir=0)
    A("draw_full_ext1", draw, "thorough", axis=0, ext_dir=1)
    neg = [GRID[0][:2], GRID[1][:2], np.array([-1.0, -0.5, -0.125, 0.75])]
    A("draw_neg_2", draw, axis=2, ext_dir=2, grid=neg)
    for m in ("fill+", "fill-", "slab"):
        A("draw_%s_neg" % m, draw, axis=2, ext_dir=2, method=m, grid=neg)
    for a in range(3):
        A("draw_fillc_int_%d" % a, draw, axis=a, ext_dir=2,
          method="fillc" + "+-+"[a], grid=small2 if a == 1 else small,
          whole=True)
    A("draw_vec", draw, axis=2, ext_dir=2, vec_eps=True, grid=small)
    for a in range(3):
        for k, m in enumerate(("slab", "fill+", "fill-", "fillc+", "fillc-")):
            A("draw_%s_%d" % (m, a), draw, axis=a, ext_dir=2, method=m,
              grid=small2 if a == 1 else small, enum=bool((a + k) % 2))
    for k in range(6):
        A("overlap_x_%d" % k, overlapping, "thorough" if k == 3 else "quick",
          axes=(None, 0), ext_dir=2, at=k)
        A("overlap_x3_%d" % k, overlapping, "thorough", axes=(None, None, 0),
          ext_dir=2, at=k, k=3)
    A("overlap_z", overlapping, axes=(2, None), ext_dir=2)
    A("cleared", cleared)
    return out
