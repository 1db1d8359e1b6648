"""P10: discrete curl, vectorisation, Poynting operators."""
import numpy as np

from checks.common import *

PRELOAD = ["spins.fdfd_tools"]
BOUNDS = ("grids of up to 3x2x2 cells (quick) / 3x3x2 (thorough); all cell "
          "widths in [1/4,4], field values (complex) and Bloch vectors (real "
          "and complex) symbolic")
ASSUMPTIONS = [
    "cell widths are positive",
    "the E- and H-grid have the same total length where adjointness is claimed"
]


def spec_curl(h, f, dx, shape, forward, phase=None):
    """Yee curl written out: forward/backward differences with Bloch wrap."""
    s = 1 if forward else -1

    def at(c, i, ax):
        j = list(i)
        j[ax] += s
        ph = 1
        if j[ax] >= shape[ax]:
            j[ax] -= shape[ax]
            ph = phase[ax][0] if phase is not None else 1
        elif j[ax] < 0:
            j[ax] += shape[ax]
            ph = phase[ax][1] if phase is not None else 1
        return f[c][tuple(j)] * ph

    def d(c, i, ax):
        return (at(c, i, ax) - f[c][tuple(i)]) * s / dx[ax][i[ax]]

    out = []
    for c in range(3):
        a, b = (c + 1) % 3, (c + 2) % 3
        r = np.empty(shape, object)
        for i in idx(shape):
            r[i] = d(b, i, a) - d(a, i, b)
        out.append(r)
    return out


def curl_matches(h, shape, which, bloch):
    from spins import fdfd_tools
    from spins.fdfd_tools import operators
    np_ = h.np
    dxes = sym_dxes(h, shape)
    f = field(h, "f", shape, cplx=True)
    fw = which == "e"
    dx = dxes[0] if fw else dxes[1]
    bv = h.array("k", 3, -1, 1, cplx=bloch == "c") if bloch else None
    op = operators.curl_e if fw else operators.curl_h
    phase = None
    if bloch:
        ph = [bv[a] * sum(dx[a][i] for i in range(shape[a])) for a in range(3)]
        phase = [(np_.exp(-1j * p), np_.exp(1j * p)) for p in ph]
    got = (op(dxes, bv) if bloch else op(dxes)) @ vec_f(h, f, shape)
    want = vec_f(h, spec_curl(h, f, dx, shape, fw, phase), shape)
    h.eq(got, want, "curl_%s equals the Yee difference" % which)


def curl_functional(h, shape, which):
    from spins import fdfd_tools
    from spins.fdfd_tools import functional
    dxes = sym_dxes(h, shape)
    f = field(h, "f", shape, cplx=True)
    fw = which == "e"
    fun = (functional.curl_e if fw else functional.curl_h)(dxes)
    want = spec_curl(h, f, dxes[0] if fw else dxes[1], shape, fw)
    got = fun(f)
    for c in range(3):
        h.eq(got[c], obj(h, want[c]), "functional curl_%s component" % which)


def adjoint(h, shape, bloch):
    """sum_w H* . curl_e E == sum_w' (curl_h H)* . E with Yee area weights."""
    from spins.fdfd_tools import operators
    np_ = h.np
    dxes = sym_dxes(h, shape)
    bv = None
    if bloch:
        bv = h.array("k", 3, -1, 1)
        dxes = sym_dxes(h, shape, uniform=True, name="u")
    E = vec_f(h, field(h, "e", shape, cplx=True), shape)
    H = vec_f(h, field(h, "h", shape, cplx=True), shape)
    # volume around each E component: e-width along itself, h-width across;
    # around each H component: h-width along itself, e-width across
    def weights(own, other):
        w = []
        for c in range(3):
            r = np.empty(shape, object)
            for i in idx(shape):
                p = 1
                for a in range(3):
                    p = p * (own if a == c else other)[a][i[a]]
                r[i] = p
            w.append(r)
        return vec_f(h, w, shape)

    we = weights(dxes[0], dxes[1])
    wh = weights(dxes[1], dxes[0])
    lhs = np_.sum(np_.conj(H) * (operators.curl_e(dxes, bv) @ E) * wh)
    rhs = np_.sum(np_.conj(operators.curl_h(dxes, bv) @ H) * E * we)
    h.eq(lhs, rhs, "curl_e and curl_h are mutually adjoint")


def div_curl(h, shape, bloch):
    """The discrete divergence of a discrete curl vanishes."""
    from spins.fdfd_tools import operators
    np_ = h.np
    dxes = sym_dxes(h, shape)
    bv = h.array("k", 3, -1, 1) if bloch else None
    F = vec_f(h, field(h, "f", shape, cplx=True), shape)
    n = shape[0] * shape[1] * shape[2]
    for which in "eh":
        C = (operators.curl_e if which == "e" else operators.curl_h)(dxes, bv)
        D = (operators.deriv_forward_shift(dxes[0], bv) if which == "e" else
             operators.deriv_back_shift(dxes[1], bv))
        c = C @ F
        div = sum(D[a] @ c[a * n:(a + 1) * n] for a in range(3))
        h.eq(div, np_.zeros(n, dtype=complex), "div curl_%s = 0" % which)


def vectorize(h, shape):
    from spins import fdfd_tools
    f = field(h, "f", shape, cplx=True)
    v = fdfd_tools.vec(f)
    h.eq(v, vec_f(h, f, shape), "vec is column major, component by component")
    g = fdfd_tools.unvec(v, shape)
    for c in range(3):
        h.eq(g[c], f[c], "unvec(vec(f)) == f")
    h.eq(fdfd_tools.vec(g), v, "vec(unvec(v)) == v")
    h.check(fdfd_tools.vec(None) is None, "vec(None) is None")
    h.check(fdfd_tools.unvec(None, shape) is None, "unvec(None) is None")


def _shift(f, i, ax, shape, s):
    j = list(i)
    j[ax] = (j[ax] + s) % shape[ax]
    return f[tuple(j)]


def chew(h, shape):
    """Chew's Poynting matrices give (shifted E) x H* times the face area, and
    the two forms agree."""
    from spins.fdfd_tools import operators
    np_ = h.np
    dxes = sym_dxes(h, shape)
    e = field(h, "e", shape, cplx=True)
    hh = field(h, "h", shape, cplx=True)
    E, H = vec_f(h, e, shape), vec_f(h, hh, shape)
    S1 = operators.poynting_chew_e_cross(E, dxes) @ np_.conj(H)
    S2 = -np_.conj(operators.poynting_chew_h_cross(H, dxes).toarray()) @ E
    want = []
    for c in range(3):
        a, b = (c + 1) % 3, (c + 2) % 3
        r = np.empty(shape, object)
        for i in idx(shape):
            ea, eb = (_shift(e[a], i, c, shape, 1), _shift(e[b], i, c, shape,
                                                           1))
            r[i] = (ea * np_.conj(hh[b][i]) - eb * np_.conj(hh[a][i])) * dxes[
                0][a][i[a]] * dxes[0][b][i[b]]
        want.append(r)
    W = vec_f(h, want, shape)
    h.eq(S1, W, "E-cross form of the Poynting vector")
    h.eq(S2, W, "H-cross form of the Poynting vector")


def poynting_theorem(h, shape):
    """On a uniform grid the net flux out of every cell equals
    H*.curl E - E.curl H* (discrete Poynting theorem)."""
    from spins.fdfd_tools import operators
    np_ = h.np
    dxes = sym_dxes(h, shape, uniform=True)
    e = field(h, "e", shape, cplx=True)
    hh = field(h, "h", shape, cplx=True)
    E, H = vec_f(h, e, shape), vec_f(h, hh, shape)
    S = operators.poynting_chew_e_cross(E, dxes) @ np_.conj(H)
    cE = operators.curl_e(dxes) @ E
    cH = np_.conj(operators.curl_h(dxes) @ H)
    n = shape[0] * shape[1] * shape[2]
    vol = dxes[0][0][0] * dxes[0][1][0] * dxes[0][2][0]
    loc = (np_.conj(H) * cE - E * cH) * vol
    loc = loc[:n] + loc[n:2 * n] + loc[2 * n:]

    def flat(i):
        return i[0] + shape[0] * (i[1] + shape[1] * i[2])

    out = []
    for k in range(shape[2]):
        for j in range(shape[1]):
            for i in range(shape[0]):
                s = 0
                for a in range(3):
                    q = [i, j, k]
                    q[a] = (q[a] - 1) % shape[a]
                    s = s + S[a * n + flat((i, j, k))] - S[a * n + flat(q)]
                out.append(s)
    h.eq(np_.array(out), loc, "net Poynting flux out of each cell")


def yee_poynting(h, shape):
    """The averaged Poynting matrices: flux = averages of E dx and H dx."""
    from spins.fdfd_tools import operators
    np_ = h.np
    dxes = sym_dxes(h, shape)
    e = field(h, "e", shape, cplx=True)
    hh = field(h, "h", shape, cplx=True)
    E, H = vec_f(h, e, shape), vec_f(h, hh, shape)
    se = operators.poynting_e_cross(E, dxes) @ H
    sh = operators.poynting_h_cross(H, dxes) @ E

    def w(f, c, g):  # field times own-axis width
        r = np.empty(shape, object)
        for i in idx(shape):
            r[i] = f[c][i] * g[c][i[c]]
        return r

    def avg(f, ax, s):
        r = np.empty(shape, object)
        for i in idx(shape):
            r[i] = (f[i] + _shift(f, i, ax, shape, s)) / 2
        return r

    we, wh = [], []
    for c in range(3):
        a, b = (c + 1) % 3, (c + 2) % 3
        ea, eb = w(e, a, dxes[0]), w(e, b, dxes[0])
        ha, hb = w(hh, a, dxes[1]), w(hh, b, dxes[1])
        we.append(
            avg(ea * avg(hb, a, -1), c, 1) - avg(eb * avg(ha, b, -1), c, 1))
        wh.append(
            avg(ha * avg(eb, c, 1), b, -1) - avg(hb * avg(ea, c, 1), a, -1))
    # E x H with H sampled at the widths of the H grid
    h.eq(se, vec_f(h, we, shape), "averaged E-cross Poynting operator")
    h.eq(sh, vec_f(h, wh, shape), "averaged H-cross Poynting operator")


def mirror(h, shape):
    """Shift with mirror boundaries and forward/backward averages."""
    from spins.fdfd_tools import operators
    np_ = h.np
    f = h.array("f", shape, -4, 4)
    v = f.flatten(order="F")
    for ax in range(3):
        for s in (1, -1):
            if abs(s) >= shape[ax]:
                continue
            r = np.empty(shape, object)
            for i in idx(shape):
                j = list(i)
                j[ax] += s
                if j[ax] >= shape[ax]:
                    j[ax] = 2 * shape[ax] - 1 - j[ax]
                if j[ax] < 0:
                    j[ax] = -1 - j[ax]
                r[i] = f[tuple(j)]
            got = operators.shift_with_mirror(ax, list(shape), s) @ v
            h.eq(got, obj(h, r).flatten(order="F"), "mirror shift")
        for fn, s in ((operators.avgf, 1), (operators.avgb, -1)):
            r = np.empty(shape, object)
            for i in idx(shape):
                r[i] = (f[i] + _shift(f, i, ax, shape, s)) / 2
            h.eq(fn(ax, list(shape)) @ v,
                 obj(h, r).flatten(order="F"), "neighbour average")


def legacy(h, shape):
    """The non-shifted derivative operators agree with the shifted ones."""
    from spins.fdfd_tools import operators
    dxes = sym_dxes(h, shape)
    bv = h.array("k", 3, -1, 1)
    for a, b in ((operators.deriv_forward(dxes[0], bv),
                  operators.deriv_forward_shift(dxes[0], bv)),
                 (operators.deriv_back(dxes[1], bv),
                  operators.deriv_back_shift(dxes[1], bv))):
        for x, y in zip(a, b):
            h.eq(x, y, "derivative operators agree")


def orth_shift(h, shape, shift):
    """Sheared periodicity: forward and backward derivatives stay adjoint."""
    from spins.fdfd_tools import operators
    np_ = h.np
    dxes = sym_dxes(h, shape, uniform=True)
    bv = h.array("k", 3, -1, 1)
    S = np.zeros((3, 3))
    S[shift[0], shift[1]] = shift[2]
    Df = operators.deriv_forward_shift(dxes[0], bv, S)
    Db = operators.deriv_back_shift(dxes[1], bv, S)
    for x, y in zip(Df, Db):
        h.eq(-x.conj().T.toarray(), y.toarray(), "backward = -forward^H")


def instances(tier):
    I = []
    shapes = [(2, 2, 2), (3, 1, 2), (1, 3, 2)]
    if tier == "thorough":
        shapes += [(3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 2)]
    for s in shapes:
        n = "x".join(map(str, s))
        for w in "eh":
            I.append(Instance("curl_%s_%s" % (w, n), curl_matches,
                              dict(shape=s, which=w, bloch=False)))
            I.append(Instance("curl_%s_bloch_%s" % (w, n), curl_matches,
                              dict(shape=s, which=w, bloch=True)))
            I.append(Instance("curl_%s_decay_%s" % (w, n), curl_matches,
                              dict(shape=s, which=w, bloch="c")))
            I.append(Instance("functional_curl_%s_%s" % (w, n),
                              curl_functional, dict(shape=s, which=w)))
        I.append(Instance("adjoint_" + n, adjoint, dict(shape=s,
                                                        bloch=False)))
        I.append(Instance("adjoint_bloch_" + n, adjoint,
                          dict(shape=s, bloch=True)))
        I.append(Instance("divcurl_" + n, div_curl, dict(shape=s,
                                                         bloch=False)))
        I.append(Instance("divcurl_bloch_" + n, div_curl,
                          dict(shape=s, bloch=True)))
        I.append(Instance("vec_" + n, vectorize, dict(shape=s)))
        I.append(Instance("chew_" + n, chew, dict(shape=s)))
        I.append(Instance("poynting_theorem_" + n, poynting_theorem,
                          dict(shape=s)))
        I.append(Instance("yee_poynting_" + n, yee_poynting, dict(shape=s)))
        I.append(Instance("mirror_" + n, mirror, dict(shape=s)))
        I.append(Instance("legacy_" + n, legacy, dict(shape=s)))
    for sh in ((0, 1, 1), (1, 0, 1), (2, 0, 1), (0, 2, -1)):
        I.append(Instance("orth_shift_%d%d%d" % sh, orth_shift,
                          dict(shape=(2, 3, 2), shift=sh)))
    return I
