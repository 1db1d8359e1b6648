"""P19: parametrizations: structure, exact Jacobian, state."""
import itertools

import numpy as np

from checks.common import *

PRELOAD = ["spins.invdes.problem", "spins.invdes.parametrization",
           "spins.invdes.parametrization.cubic_utils"]
BOUNDS = ("direct: 3 pixels, every kind of bounds; gratings: up to 4 edges "
          "anywhere around 3 (thorough 4) pixels; composites nested two "
          "deep; cubic and Hermite: coarse grids of 3..7 nodes per axis, "
          "uneven spacing, all symmetry/periodicity flags, all parameter "
          "values symbolic, interpolation of every quadratic polynomial, "
          "also with symbolic spacing along one axis")
ASSUMPTIONS = [
    "grating edges not exactly on pixel borders where the derivative is "
    "checked",
    "coarse grids have at least 3 nodes per axis",
]


def apply_left(h, g, J):
    return h.np.array(g) @ J


def state(h, make, p, n, dom=None):
    """to_vector/from_vector/serialize round trips."""
    v = h.np.array(p.to_vector())
    h.check(len(v) == n, "vector size")
    q = make()
    q.from_vector(h.np.array(v))
    h.eq(q.to_vector(), v, "vector round trip")
    h.eq(q.get_structure(), p.get_structure(), "same structure from vector")
    q = make()
    q.deserialize(p.serialize())
    h.eq(q.to_vector(), v, "serialization round trip")
    h.eq(q.get_structure(), p.get_structure(), "same structure serialized")
    e = h.np.array(p.encode())
    q = make()
    q.decode(h.np.array(e))
    h.eq(q.encode(), e, "decode is the inverse of encode")
    h.eq(p.to_vector(), v, "state unchanged")


def lim(h, x, lo, hi):
    if lo is not None:
        x = h.np.maximum(x, lo)
    if hi is not None:
        x = h.np.minimum(x, hi)
    return x


def direct(h, kind):
    from spins.invdes import parametrization as pz
    n = 3
    x = h.array("x", n, -3, 3)
    bounds = {"unit": (0, 1), "none": None, "array": (
        np.array([-1.0, 0.0, 0.5]), np.array([1.0, 0.25, 2.0])),
        "mixed": ([None, -1, 0], [1, None, None]), "half": (-1, None)}[kind]
    lo = hi = [None] * n
    if kind == "unit":
        lo, hi = [0] * n, [1] * n
    elif kind == "array":
        lo, hi = [-1.0, 0.0, 0.5], [1.0, 0.25, 2.0]
    elif kind == "mixed":
        lo, hi = [None, -1, 0], [1, None, None]
    elif kind == "half":
        lo = [-1] * n

    def make():
        if kind == "unit":
            return pz.DirectParam(np.zeros(n))
        return pz.DirectParam(np.zeros(n) + 0.5, bounds=bounds)

    p = make()
    p.from_vector(h.np.array(x))
    want = h.np.array([lim(h, x[i], lo[i], hi[i]) for i in range(n)])
    h.eq(p.get_structure(), want, "projected structure")
    h.eq(p.to_vector(), want, "projected vector")
    b = p.get_bounds()
    for i in range(n):
        h.check(b[0][i] == lo[i] and b[1][i] == hi[i], "bounds")
    g = h.array("g", n, -1, 1)
    h.eq(apply_left(h, g, p.calculate_gradient()), g, "Jacobian")
    state(h, make, p, n)
    q = make()
    q.decode(h.np.array(x))
    h.eq(q.encode(), x, "decode keeps infeasible values")
    q.project()
    h.eq(q.encode(), want, "projection")


def tooth(h, a, b, i):
    """Covered part of pixel i by [a, b]."""
    return h.np.maximum(h.np.minimum(b, i + 1) - h.np.maximum(a, i), 0)


def grating(h, ne, npix, inverted, shuffle):
    from spins.invdes import parametrization as pz
    steps = [h.real("s%d" % i, 0.0625, npix) for i in range(ne)]
    e = [h.real("e0", -1, npix)]
    for i in range(1, ne):
        e.append(e[-1] + steps[i])
    order = h.choice("order", list(itertools.permutations(range(ne)))
                     ) if shuffle else tuple(range(ne))

    def make():
        return pz.GratingParam(np.arange(ne) / 2.0, npix, inverted=inverted)

    p = pz.GratingParam(h.np.array([e[k] for k in order]), npix,
                        inverted=inverted)
    h.eq(p.to_vector(), h.np.array(e), "edges are sorted")
    z = p.get_structure()
    ref = []
    for i in range(npix):
        v = 0
        for k in range(0, ne, 2):
            v = v + tooth(h, e[k], e[k + 1], i)
        ref.append(1 - v if inverted else v)
    h.eq(z, h.np.array(ref), "structure")
    g = h.array("g", npix, -1, 1)
    d = apply_left(h, g, p.calculate_gradient())
    for k in range(ne):
        want = 0
        for i in range(npix):
            s = (1 if k % 2 else -1) * (-1 if inverted else 1)
            inside = h.np.where((e[k] > i) & (e[k] < i + 1), s * g[i], 0)
            want = want + inside
        bad = False
        for i in range(npix + 1):
            bad = bad | (e[k] == i)
        h.eq(h.np.where(bad, 0, d[k] - want), 0, "derivative")
    h.check(p.get_bounds() is None, "no bounds")
    if not shuffle:
        state(h, make, p, ne)
        q = pz.GratingParam(np.arange(ne) / 2.0, npix, inverted=not inverted)
        q.deserialize(p.serialize())
        h.eq(q.get_structure(), z, "inversion is serialized")


def composite(h, nested, yb=None):
    """Concatenation of parametrizations, through the objective gradient."""
    from spins.invdes import parametrization as pz
    from spins.invdes import problem
    x = h.array("x", 2, -2, 3)
    e = h.array("e", 2, 0, 2)
    h.assume(e[0] + 0.0625 < e[1])
    y = h.array("y", 2, -2, 2)

    def make():
        parts = [pz.DirectParam(np.zeros(2)), pz.GratingParam(
            np.array([0.5, 1.5]), 3), pz.DirectParam(np.zeros(2), bounds=yb)]
        if nested:
            return pz.CompositeParam([parts[0], pz.CompositeParam(parts[1:])])
        return pz.CompositeParam(parts)

    p = make()
    v = h.np.concatenate([x, e, y])
    ylo, yhi = yb or (None, None)
    p.from_vector(h.np.array(v))
    xs = [lim(h, x[i], 0, 1) for i in range(2)]
    g1 = pz.GratingParam(h.np.array(e), 3)
    z = h.np.concatenate([h.np.array(xs), g1.get_structure(), y])
    h.eq(p.get_structure(), z, "structures in order")
    h.eq(p.to_vector(), h.np.concatenate([h.np.array(xs), e, y]),
         "vectors in order")
    b = p.get_bounds()
    want = ([0, 0, None, None, ylo, ylo], [1, 1, None, None, yhi, yhi])
    for k in range(2):
        h.check(len(b[k]) == 6, "bounds for all")
        for i in range(6):
            h.check(b[k][i] == want[k][i], "bounds")
    g = h.array("g", 7, -1, 1)
    J1 = g1.calculate_gradient()
    mid = apply_left(h, g[2:5], J1)
    wg = h.np.concatenate([g[:2], mid, g[5:]])
    h.eq(apply_left(h, g, p.calculate_gradient()), wg, "gradient product")
    t = h.array("t", 6, -1, 1)
    h.eq(p.calculate_gradient() @ t, h.np.concatenate(
        [t[:2], J1 @ t[2:4], t[4:]]), "directional derivative")

    class Dot(problem.OptimizationFunction):

        def __init__(self, f):
            super().__init__(f)

        def eval(self, vals):
            return h.np.sum(g * vals[0])

        def grad(self, vals, gv):
            return [gv * g]

    f = Dot(problem.Variable(7))
    h.eq(f.calculate_objective_function(p), h.np.sum(g * z), "objective")
    h.eq(f.calculate_gradient(p), wg, "objective gradient")
    state(h, make, p, 6)


GRIDS = {
    3: np.array([0.0, 1.0, 3.0]),
    4: np.array([-1.0, 0.0, 1.5, 2.0]),
    5: np.array([0.0, 2.0, 3.0, 5.0, 6.0]),
    6: np.array([0.0, 1.0, 3.0, 4.0, 6.0, 8.0]),
    7: np.array([0.0, 1.0, 2.0, 4.0, 5.0, 7.0, 8.0]),
}


def refine(x):
    out = []
    for a, b in zip(x[:-1], x[1:]):
        out += [a, a + (b - a) / 4, a + (b - a) * 3 / 4]
    return np.array(out + [x[-1]])


def entry(i, n, sym, per, periods):
    """Index of the independent parameter that node i takes its value from."""
    if per:
        n -= 1
        i %= n
    if periods:
        n //= periods
        i %= n
        if sym:
            i = min(i, n - i)
            n = n // 2 + 1
    elif sym:
        i = min(i, n - 1 - i)
        n = (n + 1) // 2
    return i, n


def cubic(h, nx, ny, sym, per, periods, soft, init):
    """Nodes keep their values; symmetric, periodic; exact derivative."""
    from spins.invdes import parametrization as pz
    X = np.arange(nx) * 1.0
    Y = np.arange(ny) * 2.0
    fx, fy = refine(X), refine(Y)
    mx = entry(0, nx, sym[0], per[0], periods[0])[1]
    my = entry(0, ny, sym[1], per[1], periods[1])[1]
    n = mx * my
    v = h.array("v", n, 0, 1)

    def make(val=0.5):
        q = pz.CubicParam(val, X, Y, fx, fy, symmetry=np.array(sym),
                          periodicity=np.array(per),
                          periods=np.array(periods))
        if not soft:
            q.set_k(None)
        return q

    def node(i, j):
        return entry(i, nx, sym[0], per[0], periods[0])[0] + mx * entry(
            j, ny, sym[1], per[1], periods[1])[0]

    p = make(0.25)
    h.check(len(p.to_vector()) == n, "number of parameters")
    h.eq(p.to_vector(), 0.25 * np.ones(n), "constant start")
    if init == "full":
        full = h.np.array([v[node(i, j)] for j in range(ny)
                           for i in range(nx)])
        p = make(full)
        h.eq(p.to_vector(), v, "start from the full coarse grid")
    else:
        p.decode(h.np.array(v))
    raw = p
    if soft:
        raw = make()
        raw.set_k(None)
        raw.decode(h.np.array(v))
    z = raw.get_structure()
    nf = len(fx)
    h.check(len(z) == nf * len(fy), "structure size")
    for i in range(nx):
        for j in range(ny):
            h.eq(z[3 * i + nf * 3 * j], v[node(i, j)], "node value",
                 tol=1e-6)

    def at(i, j):
        return z[i + nf * j]

    for a, (m, per_a, sym_a, pers) in enumerate(
            zip((nf, len(fy)), per, sym, periods)):
        o = len(fy) if a == 0 else nf
        for k in range(0, o, 2):
            if per_a:
                lo, hi = ((0, k), (m - 1, k)) if a == 0 else ((k, 0),
                                                              (k, m - 1))
                h.eq(at(*lo), at(*hi), "periodic", tol=1e-6)
            if sym_a and not per_a and not pers:
                for i in range(m // 2):
                    lo, hi = ((i, k), (m - 1 - i, k)) if a == 0 else (
                        (k, i), (k, m - 1 - i))
                    h.eq(at(*lo), at(*hi), "symmetric", tol=1e-6)
    g = h.array("g", 3, -1, 1)
    pick = [1, nf + 2, nf * len(fy) - 3]
    J = p.calculate_gradient()
    gv = h.np.zeros(nf * len(fy))
    for c, k in enumerate(pick):
        gv[k] = g[c]
    d = apply_left(h, gv, J)
    if soft:
        zz = p.get_structure()
        for c, k in enumerate(pick):
            h.eq(zz[k] * (1 + h.np.exp(-4 * (2 * z[k] - 1))), 1, "sigmoid",
                 tol=1e-6)
    M = raw.calculate_gradient()
    base = [apply_left(h, np.eye(1, nf * len(fy), k)[0], M) for k in pick]
    for c, k in enumerate(pick):
        h.eq(z[k], sum(base[c][i] * v[i] for i in range(n)), "linear",
             tol=1e-6)
    for i in range(n):
        want = 0
        for c, k in enumerate(pick):
            s = 1
            if soft:
                s = 8 * zz[k] * (1 - zz[k])
            want = want + g[c] * s * base[c][i]
        h.eq(d[i], want, "derivative", tol=1e-6)
    b = p.get_bounds()
    for i in range(n):
        h.check(b[0][i] == 0 and b[1][i] == 1, "bounds")
    if init != "full" and not soft:
        state(h, make, p, n)
        w = h.array("w", n, -1, 2)
        p.from_vector(h.np.array(w))
        h.eq(p.to_vector(), h.np.array([lim(h, w[i], 0, 1)
                                        for i in range(n)]), "projection")


def poly(h, x, c, d=(0, 0)):
    """Biquadratic polynomial or its partial derivative."""
    def mono(t, k, der):
        if der:
            return 0 if k == 0 else (1 if k == 1 else 2 * t)
        return 1 if k == 0 else (t if k == 1 else t * t)

    r = 0
    for a in range(3):
        for b in range(3):
            r = r + c[a, b] * (mono(x[0], a, d[0]) * mono(x[1], b, d[1]))
    return r


def quadratics(h, nx, ny, scale):
    """Every biquadratic polynomial is interpolated exactly."""
    from spins.invdes.parametrization import cubic_utils as cu
    X, Y = GRIDS[nx] * scale, GRIDS[ny] + 1
    fx, fy = refine(X)[1:-1], refine(Y)[::2]
    c = h.array("c", (3, 3), -1, 1)
    ph = h.np.array([poly(h, (X[i], Y[j]), c) for j in range(ny)
                     for i in range(nx)])
    f, fdx, fdy = cu.CubicMatrices(fx, fy, X, Y)
    pts = [(a, b) for b in fy for a in fx]
    for m, d in ((f, (0, 0)), (fdx, (1, 0)), (fdy, (0, 1))):
        got = m @ ph
        h.check(len(got) == len(pts), "size")
        for k, q in enumerate(pts):
            h.eq(got[k], poly(h, q, c, d), "polynomial", tol=1e-4)


def uneven(h, axis, where):
    """Any spacing of the coarse grid along one axis, any fine position."""
    from spins.invdes.parametrization import cubic_utils as cu
    a, b = h.real("a", 0.5, 2), h.real("b", 0.5, 2)
    t = h.real("t", 0.0, 1)
    X = h.np.array([0, a, a + b])
    Y = np.array([0.0, 1.0, 2.0])
    x = t * a if where == 0 else a + t * b
    fx, fy = h.np.array([x]), np.array([0.5])
    c = h.array("c", 3, -1, 1)

    def val(u):
        return c[0] + c[1] * u + c[2] * u * u

    if axis == 0:
        ph = h.np.array([val(X[i]) for j in range(3) for i in range(3)])
        f = cu.CubicMatrices(fx, fy, X, Y)[0]
    else:
        ph = h.np.array([val(X[j]) for j in range(3) for i in range(3)])
        f = cu.CubicMatrices(fy, fx, Y, X)[0]
    got = (f @ ph)[0]
    h.eq(got, val(x), "polynomial")


def hermite(h, nx, ny, sym, per, periods):
    """Values and scaled derivatives at the nodes; exact derivative."""
    from spins.invdes import parametrization as pz
    X = np.arange(nx) * 2.0
    Y = np.arange(ny) * 2.0
    fx, fy = np.arange(2 * nx - 1) * 1.0, np.arange(2 * ny - 1) * 1.0
    p = pz.HermiteParam(0.5, X, Y, fx, fy, symmetry=np.array(sym),
                        periodicity=np.array(per), periods=np.array(periods),
                        scale=2.0)
    n = len(p.to_vector())
    v = h.array("v", n, -1, 1)
    p.from_vector(h.np.array(v))
    h.eq(p.to_vector(), v, "unbounded")
    mx = entry(0, nx, sym[0], per[0], periods[0])[1]
    my = entry(0, ny, sym[1], per[1], periods[1])[1]
    h.check(n == 4 * mx * my, "number of parameters")
    z = p.get_structure()
    nf = len(fx)
    k = 4
    for i in range(nx):
        for j in range(ny):
            q = entry(i, nx, sym[0], per[0], periods[0])[0] + mx * entry(
                j, ny, sym[1], per[1], periods[1])[0]
            s = z[2 * i + nf * 2 * j]
            h.eq(s * (1 + h.np.exp(-k * (2 * v[q] - 1))), 1, "node value",
                 tol=1e-6)
    g = h.array("g", 2, -1, 1)
    pick = [1, nf + 1]
    gv = h.np.zeros(nf * len(fy))
    for c, q in enumerate(pick):
        gv[q] = g[c]
    d = apply_left(h, gv, p.calculate_gradient())
    q2 = pz.HermiteParam(0.5, X, Y, fx, fy, symmetry=np.array(sym),
                         periodicity=np.array(per),
                         periods=np.array(periods), scale=2.0)
    J0 = q2.calculate_gradient()
    s0 = q2.get_structure()
    for i in range(n):
        want = 0
        for c, q in enumerate(pick):
            row = apply_left(h, np.eye(1, nf * len(fy), q)[0], J0)
            a = row[i] / (2 * k * s0[q] * (1 - s0[q]))
            want = want + g[c] * 2 * k * z[q] * (1 - z[q]) * a
        h.eq(d[i], want, "derivative", tol=1e-5)
    make = lambda: pz.HermiteParam(
        0.5, X, Y, fx, fy, symmetry=np.array(sym), periodicity=np.array(per),
        periods=np.array(periods), scale=2.0)
    p.set_k(2)
    data = p.serialize()
    q3 = make()
    q3.deserialize(data)
    h.eq(q3.to_vector(), v, "serialization")
    h.eq(q3.get_structure(), p.get_structure(), "serialized structure")


def hermite_poly(h, nx, ny):
    """With the derivatives given, every bicubic polynomial is exact."""
    from spins.invdes.parametrization import cubic_utils as cu
    X, Y = GRIDS[nx], GRIDS[ny]
    fx, fy = refine(X)[::2], refine(Y)[1:-1]
    c = h.array("c", (4, 4), -1, 1)
    sc = np.array([1, 2.0, 4.0])

    def mono(t, k, d):
        if d:
            return k * t**(k - 1) if k else 0
        return t**k

    def val(x, y, dx, dy):
        return sum(c[a, b] * (mono(x, a, dx) * mono(y, b, dy))
                   for a in range(4) for b in range(4))

    ph = [val(X[i], Y[j], dx, dy) * sc[dx + dy]
          for dx, dy in ((0, 0), (1, 0), (0, 1), (1, 1))
          for j in range(ny) for i in range(nx)]
    f, fdx, fdy = cu.CubicMatrices(fx, fy, X, Y, derivatives=True,
                                   deriv_scaling=sc)
    pts = [(a, b) for b in fy for a in fx]
    for m, d in ((f, (0, 0)), (fdx, (1, 0)), (fdy, (0, 1))):
        got = m @ h.np.array(ph)
        for k, q in enumerate(pts):
            h.eq(got[k], val(q[0], q[1], *d), "polynomial", tol=1e-3)


def instances(tier):
    out = []

    def add(fn, nm, **k):
        out.append(Instance(nm, fn, k))

    for k in ("unit", "none", "array", "mixed", "half"):
        add(direct, "direct_" + k, kind=k)
    for inv in (False, True):
        add(grating, "grating2_%d" % inv, ne=2, npix=3, inverted=inv,
            shuffle=False)
    add(grating, "grating4", ne=4, npix=2, inverted=False, shuffle=False)
    add(grating, "grating_shuffled", ne=2, npix=2, inverted=True,
        shuffle=True)
    for nst in (False, True):
        add(composite, "composite%d" % nst, nested=nst)
        add(composite, "composite%d_up" % nst, nested=nst, yb=(None, 3))
        add(composite, "composite%d_low" % nst, nested=nst, yb=(-2, None))
        add(composite, "composite%d_both" % nst, nested=nst, yb=(-2, 2))
    flags = [((0, 0), (0, 0), (0, 0)), ((1, 0), (0, 0), (0, 0)),
             ((0, 1), (0, 0), (0, 0)), ((1, 1), (0, 0), (0, 0)),
             ((0, 0), (1, 0), (0, 0)), ((0, 0), (0, 1), (0, 0)),
             ((0, 0), (1, 1), (0, 0)), ((0, 0), (1, 0), (2, 0)),
             ((0, 0), (0, 1), (0, 2)), ((0, 0), (1, 1), (2, 2)),
             ((1, 1), (1, 1), (2, 2)), ((1, 0), (1, 0), (1, 0)),
             ((0, 1), (1, 1), (2, 1)), ((0, 0), (0, 0), (0, 1)),
             ((0, 1), (1, 0), (0, 0)), ((1, 0), (0, 1), (0, 2))]
    for k, (s, pr, pe) in enumerate(flags):
        nx, ny = 5, 5
        if pe[0] and not pr[0]:
            nx = 6
        if not any(pe) and k % 2:
            nx, ny = 4, 5
        nm = "".join(map(str, s + pr + pe))
        add(cubic, "cubic_" + nm, nx=nx, ny=ny, sym=s, per=pr, periods=pe,
            soft=False, init="full" if k % 2 else "reduced")
        if tier == "thorough":
            add(cubic, "cubic7_" + nm, nx=7, ny=7, sym=s, per=pr, periods=pe,
                soft=False, init="reduced" if k % 2 else "full")
            add(hermite, "hermite_" + nm, nx=nx, ny=ny, sym=s, per=pr,
                periods=pe)
    add(cubic, "sigmoid", nx=3, ny=3, sym=(0, 0), per=(0, 0), periods=(0, 0),
        soft=True, init="reduced")
    add(cubic, "sigmoid_sym", nx=4, ny=3, sym=(1, 1), per=(0, 0),
        periods=(0, 0), soft=True, init="full")
    for nx, ny in ((3, 4), (5, 3), (6, 7)):
        add(quadratics, "quad%d%d" % (nx, ny), nx=nx, ny=ny,
            scale=1.0 if nx == 3 else 0.5)
    for ax in range(2):
        for wh in range(2):
            add(uneven, "uneven%d%d" % (ax, wh), axis=ax, where=wh)
    for k in (0, 3, 9, 10):
        s, pr, pe = flags[k]
        add(hermite, "herm_" + "".join(map(str, s + pr + pe)), nx=5 if any(
            pe) else 4, ny=5 if any(pe) else 3, sym=s, per=pr, periods=pe)
    add(hermite_poly, "hermite_poly", nx=3, ny=4)
    return out
