"""Helpers shared by the property harnesses (plain python, no spins code)."""
import itertools

import numpy as np

from checks import poolstub
from symx.harness import Instance


def idx(shape):
    return list(itertools.product(*[range(n) for n in shape]))


def sym_dxes(h, shape, uniform=False, same=False, lo=0.25, hi=4, cplx=False,
             name="d"):
    """Grid spacing with symbolic cell widths on both grids."""
    if uniform:
        d = [h.real("%s%s" % (name, a), lo, hi) for a in "xyz"]
        g = [h.np.array([d[a]] * shape[a]) for a in range(3)]
        return [g, [h.np.array(x) for x in g]]
    out = []
    for gi in range(1 if same else 2):
        out.append([
            h.array("%s%d%s" % (name, gi, "xyz"[a]), shape[a], lo, hi,
                    cplx=cplx) for a in range(3)
        ])
    if same:
        out.append([h.np.array(x) for x in out[0]])
    return out


def vec_f(h, comps, shape):
    """Column-major stacking, written out."""
    out = []
    for c in range(3):
        for k in range(shape[2]):
            for j in range(shape[1]):
                for i in range(shape[0]):
                    out.append(comps[c][i, j, k])
    return h.np.array(out)


def field(h, name, shape, cplx=False, lo=-4, hi=4):
    return [
        h.array("%s%s" % (name, "xyz"[c]), shape, lo, hi, cplx=cplx)
        for c in range(3)
    ]


def zeros_like_obj(h, shape):
    r = np.empty(shape, object)
    r[...] = 0
    return r


def obj(h, arr):
    """Object ndarray -> array of the harness' kind."""
    if h.symbolic:
        from symx import symnp
        return symnp.wrap(arr)
    return np.array(arr.tolist())
