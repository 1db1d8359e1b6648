"""P12: stretched-coordinate absorbing boundaries."""
import itertools

import numpy as np

from checks.common import *

PRELOAD = ["spins.fdfd_tools", "spins.fdfd_tools.grid"]
BOUNDS = ("up to 4 cells per axis, every combination of layer counts that "
          "fits on both sides of an axis, cell widths on both grids, "
          "frequency, effective permittivity, log-reflectance symbolic; "
          "polynomial orders 1-4")
ASSUMPTIONS = ["the layers of two opposite sides do not overlap"]


def profile(depth, ln_R, m):
    return (m + 1) * ln_R / 2 * depth**m


def spec_axis(h, da, db, lo, hi, w, root=1, ln_R=-16, m=4):
    """Stretched widths of one axis, written out cell by cell."""
    n = len(da)
    edge = [0]
    for i in range(n):
        edge.append(edge[-1] + da[i])
    outa, outb = [], []
    for i in range(n):
        a, b = da[i], db[i]
        mid = (edge[i] + edge[i + 1]) / 2
        if i < lo:
            d = edge[lo] - edge[0]
            sa = profile((edge[lo] - mid) / d, ln_R, m) / d / w / root
            sb = profile((edge[lo] - edge[i]) / d, ln_R, m) / d / w / root
            a, b = a * (1 + 1j * sa), b * (1 + 1j * sb)
        if i >= n - hi:
            d = edge[n] - edge[n - hi]
            sa = profile((mid - edge[n - hi]) / d, ln_R, m) / d / w / root
            sb = profile((edge[i] - edge[n - hi]) / d, ln_R, m) / d / w / root
            a, b = a * (1 + 1j * sa), b * (1 + 1j * sb)
        outa.append(a)
        outb.append(b)
    return outa, outb


def copies(h, dxes):
    return [[h.np.array(x) for x in g] for g in dxes]


def same(h, a, b, label):
    for g in range(2):
        for x in range(3):
            h.eq(a[g][x], b[g][x], label)


def apply(h, shape, layers):
    from spins.fdfd_tools import grid
    dxes = sym_dxes(h, shape)
    keep = copies(h, dxes)
    w = h.real("w", 0.25, 4)
    out = grid.apply_scpml(dxes, layers, w)
    six = [0] * 6 if not layers else [layers] * 6 if isinstance(
        layers, int) else list(layers)
    for a in range(3):
        ra, rb = spec_axis(h, keep[0][a], keep[1][a], six[2 * a],
                           six[2 * a + 1], w)
        h.eq(out[0][a], h.np.array(ra), "stretched widths, first grid")
        h.eq(out[1][a], h.np.array(rb), "stretched widths, second grid")
        h.eq(h.np.real(out[0][a]), keep[0][a], "real widths are kept")
        h.check(h.np.all(h.np.imag(out[0][a]) <= 0), "absorbing")
    same(h, dxes, keep, "the given grid spacing is not changed")


def cfreq(h):
    """Complex frequency: its real part counts."""
    from spins.fdfd_tools import grid
    dxes = sym_dxes(h, (3, 1, 1))
    w = h.cplx("w", 0.25, 4)
    out = grid.apply_scpml(dxes, [1, 1, 0, 0, 0, 0], w)
    ra, rb = spec_axis(h, dxes[0][0], dxes[1][0], 1, 1, w.real)
    h.eq(out[0][0], h.np.array(ra), "first grid")
    h.eq(out[1][0], h.np.array(rb), "second grid")


def stretch(h, n, axis, side, layers, m):
    from spins.fdfd_tools import grid
    shape = [1, 1, 1]
    shape[axis] = n
    dxes = sym_dxes(h, shape)
    keep = copies(h, dxes)
    w = h.real("w", 0.25, 4)
    r = h.real("root", 0.5, 2)
    ln_R = h.real("lnR", -20, -1)
    out = grid.stretch_with_scpml(
        dxes, axis=axis, polarity=1 if side == 0 else -1, omega=w,
        epsilon_effective=r * r, thickness=layers,
        s_function=grid.prepare_s_function(ln_R=ln_R, m=m))
    lo, hi = (layers, 0) if side == 0 else (0, layers)
    for a in range(3):
        ra, rb = keep[0][a], keep[1][a]
        if a == axis:
            ra, rb = spec_axis(h, ra, rb, lo, hi, w, r, ln_R, m)
        h.eq(out[0][a], h.np.array(list(ra)), "first grid")
        h.eq(out[1][a], h.np.array(list(rb)), "second grid")


def uniform(h, shape, thick, m):
    from spins.fdfd_tools import grid
    w = h.real("w", 0.25, 4)
    r = h.real("root", 0.5, 2)
    ln_R = h.real("lnR", -20, -1)
    out = grid.uniform_grid_scpml(shape, thick, w, r * r,
                                  grid.prepare_s_function(ln_R, m))
    for a in range(3):
        n, t = shape[a], thick[a]
        for g, off in ((0, 0), (1, 0.5)):
            ref = []
            for i in range(n):
                u = i + off
                d = max(t - u, 0) + max(u - (n - t), 0)
                ref.append(1 + 1j * profile(d / t, ln_R, m) / (r * w)
                           if t else 1 + 0j)
            h.eq(out[g][a], h.np.array(ref), "uniform grid")


def instances(tier):
    out = []
    n = 4
    # every pair of layer counts on each axis
    pairs = [(a, b) for a in range(3) for b in range(3)] + [(1, 3), (3, 1),
                                                            (3, 0), (0, 3)]
    for ax in range(3):
        for lo, hi in pairs:
            if tier == "quick" and (lo + ax + hi) % 3 == 2 and lo * hi:
                continue
            six = [0] * 6
            six[2 * ax:2 * ax + 2] = [lo, hi]
            shape = [1, 1, 1]
            shape[ax] = n
            out.append(Instance("apply_%s%d%d" % ("xyz"[ax], lo, hi), apply,
                                dict(shape=tuple(shape), layers=six)))
    out.append(Instance("apply_all", apply,
                        dict(shape=(3, 3, 3), layers=[1, 2, 2, 1, 0, 1])))
    out.append(Instance("apply_int", apply, dict(shape=(2, 3, 2), layers=1)))
    out.append(Instance("apply_none", apply,
                        dict(shape=(2, 1, 2), layers=None)))
    out.append(Instance("apply_zero", apply, dict(shape=(2, 1, 2), layers=0)))
    out.append(Instance("apply_tuple", apply,
                        dict(shape=(3, 2, 2), layers=(1, 1, 0, 2, 1, 0))))
    out.append(Instance("cfreq", cfreq))
    for ax in range(3):
        for side in (0, 1):
            for t in range(0, 3):
                for m in (1, 2, 3, 4):
                    if tier == "quick" and m not in (2 + side, 4 - 2 * side):
                        continue
                    out.append(Instance(
                        "stretch_%s%d_%d_m%d" % ("xyz"[ax], side, t, m),
                        stretch, dict(n=3, axis=ax, side=side, layers=t,
                                      m=m)))
    for m in (2, 3, 4):
        out.append(Instance("uniform_m%d" % m, uniform,
                            dict(shape=[4, 3, 2], thick=[2, 1, 0], m=m)))
    return out
