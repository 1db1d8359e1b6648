"""P11: E-only, H-only and coupled wave operators are the same Maxwell
system."""
import numpy as np

from checks.common import *
from checks.p10 import spec_curl

PRELOAD = ["spins.fdfd_tools", "spins.fdfd_tools.functional"]
BOUNDS = ("grids of up to 2x2x2 cells (quick) / 3x2x2 (thorough); cell widths, "
          "permittivity, permeability and frequency (real, or all complex), "
          "complex cell widths (on 2x1x2), complex "
          "fields, Bloch vectors symbolic; conductor masks: every pattern on "
          "2x1x1 and every (one PEC cell, one PMC cell) pair on 2x1x1")
ASSUMPTIONS = ["cell widths positive; permittivity, permeability and frequency "
               "non-zero"]


def setup(h, shape, mu, omega, bloch, name=""):
    dxes = sym_dxes(h, shape, cplx=omega == "s")
    w = h.cplx("w", 0.25, 2) if omega == "c" else h.real("w", 0.25, 2)
    lossy = omega == "c"
    eps = field(h, "eps", shape, lo=0.5, hi=4, cplx=lossy)
    m = field(h, "mu", shape, lo=0.5, hi=4, cplx=lossy) if mu else None
    bv = h.array("k", 3, -1, 1) if bloch else None
    ph = [None, None]
    if bloch:
        for g in range(2):
            p = [
                bv[a] * sum(dxes[g][a][i] for i in range(shape[a]))
                for a in range(3)
            ]
            ph[g] = [(h.np.exp(-1j * x), h.np.exp(1j * x)) for x in p]
    return dxes, w, eps, m, bv, ph


def vecs(h, shape, eps, m):
    return vec_f(h, eps, shape), None if m is None else vec_f(h, m, shape)


def ce(h, f, dxes, shape, ph):
    return spec_curl(h, f, dxes[0], shape, True, ph[0])


def ch(h, f, dxes, shape, ph):
    return spec_curl(h, f, dxes[1], shape, False, ph[1])


def pw(f, *fs):
    """Pointwise function of component lists."""
    out = []
    for c in range(3):
        r = np.empty(fs[0][c].shape, object)
        for i in np.ndindex(*r.shape):
            r[i] = f(*[x[c][i] for x in fs])
        out.append(r)
    return out


def e_explicit(h, shape, mu, omega, bloch):
    from spins.fdfd_tools import operators
    dxes, w, eps, m, bv, ph = setup(h, shape, mu, omega, bloch)
    ve, vm = vecs(h, shape, eps, m)
    E = field(h, "e", shape, cplx=True)
    A = operators.e_full(w, dxes, ve, vm, bloch_vec=bv)
    t = ce(h, E, dxes, shape, ph)
    if mu:
        t = pw(lambda x, q: x / q, t, m)
    t = ch(h, t, dxes, shape, ph)
    want = pw(lambda x, p, e: x - w * w * p * e, t, eps, E)
    h.eq(A @ vec_f(h, E, shape), vec_f(h, want, shape),
         "E wave operator is curl(1/mu curl E) - w^2 eps E")


def h_explicit(h, shape, mu, omega, bloch):
    from spins.fdfd_tools import operators
    dxes, w, eps, m, bv, ph = setup(h, shape, mu, omega, bloch)
    ve, vm = vecs(h, shape, eps, m)
    H = field(h, "h", shape, cplx=True)
    A = operators.h_full(w, dxes, ve, vm, bloch_vec=bv)
    t = ch(h, H, dxes, shape, ph)
    t = pw(lambda x, q: x / q, t, eps)
    t = ce(h, t, dxes, shape, ph)
    if mu:
        want = pw(lambda x, p, e: x - w * w * p * e, t, m, H)
    else:
        want = pw(lambda x, e: x - w * w * e, t, H)
    h.eq(A @ vec_f(h, H, shape), vec_f(h, want, shape),
         "H wave operator is curl(1/eps curl H) - w^2 mu H")


def coupled(h, shape, mu, omega, bloch):
    """Eliminating H (or E) from the coupled system gives the E (or H) wave
    operator."""
    from spins.fdfd_tools import operators
    np_ = h.np
    dxes, w, eps, m, bv, ph = setup(h, shape, mu, omega, bloch)
    ve, vm = vecs(h, shape, eps, m)
    n = 3 * shape[0] * shape[1] * shape[2]
    kw = {} if bv is None else {"bloch_vec": bv}
    F = vec_f(h, field(h, "f", shape, cplx=True), shape)
    EH = operators.eh_full(w, dxes, ve, vm, **kw)
    Hf = operators.e2h(w, dxes, vm, **kw) @ F
    r = EH @ np_.concatenate([F, Hf])
    h.eq(-1j * w * r[:n], operators.e_full(w, dxes, ve, vm, **kw) @ F,
         "coupled system with H from E gives the E equation")
    h.eq(r[n:], np.zeros(n), "H from E satisfies Faraday's law")
    Ef = operators.h2e(w, dxes, ve, **kw) @ F
    r = EH @ np_.concatenate([Ef, F])
    h.eq(r[:n], np.zeros(n), "E from H satisfies Ampere's law")
    h.eq(1j * w * r[n:], operators.h_full(w, dxes, ve, vm, **kw) @ F,
         "coupled system with E from H gives the H equation")


def functional_same(h, shape, mu, omega):
    from spins.fdfd_tools import functional
    dxes, w, eps, m, bv, ph = setup(h, shape, mu, omega, False)
    E = field(h, "e", shape, cplx=True)
    H = field(h, "h", shape, cplx=True)
    none = [None, None]
    cE = ce(h, E, dxes, shape, none)
    cH = ch(h, H, dxes, shape, none)
    one = pw(lambda x: x * 0 + 1, eps)
    mm = m if mu else one
    got = functional.e_full(w, dxes, eps, m)(E)
    t = ch(h, pw(lambda x, q: x / q, cE, mm), dxes, shape, none)
    want = pw(lambda x, p, e: x - w * w * p * e, t, eps, E)
    for c in range(3):
        h.eq(got[c], obj(h, want[c]), "functional E wave operator")
    g1, g2 = functional.eh_full(w, dxes, eps, m)(E, H)
    w1 = pw(lambda x, p, e: x - 1j * w * p * e, cH, eps, E)
    w2 = pw(lambda x, p, e: x + 1j * w * p * e, cE, mm, H)
    for c in range(3):
        h.eq(g1[c], obj(h, w1[c]), "functional coupled operator, E rows")
        h.eq(g2[c], obj(h, w2[c]), "functional coupled operator, H rows")
    g = functional.e2h(w, dxes, m)(E)
    w3 = pw(lambda x, p: x / (-1j * w * p), cE, mm)
    for c in range(3):
        h.eq(g[c], obj(h, w3[c]), "functional E to H")


def m2j(h, shape, mu, omega, bloch):
    from spins.fdfd_tools import operators
    dxes, w, eps, m, bv, ph = setup(h, shape, mu, omega, bloch)
    ve, vm = vecs(h, shape, eps, m)
    M = field(h, "m", shape, cplx=True)
    kw = {} if bv is None else {"bloch_vec": bv}
    got = operators.m2j(w, dxes, mu=vm, **kw) @ vec_f(h, M, shape)
    t = pw(lambda x, q: x / q, M, m) if mu else M
    t = ch(h, t, dxes, shape, ph)
    want = pw(lambda x: x / (1j * w), t)
    h.eq(got, vec_f(h, want, shape), "M to J")


def masks(h, shape, pec, pmc):
    """Conductor masks act on fields before and after the operator."""
    from spins.fdfd_tools import operators
    np_ = h.np
    dxes, w, eps, m, bv, ph = setup(h, shape, True, "r", False)
    ve, vm = vecs(h, shape, eps, m)
    n = ve.size

    def mask(kind, nm):
        if kind == "all":
            return np.array([1.0 if h.flag("%s%d" % (nm, i)) else 0.0
                             for i in range(n)])
        if kind == "one":
            r = np.zeros(n)
            r[h.choice(nm, range(n))] = 1
            return r
        return None

    pe = mask(pec, "pec")
    pm = mask(pmc, "pmc")
    ne = 1 - pe if pe is not None else np.ones(n)
    nm = 1 - pm if pm is not None else np.ones(n)
    ident = 0 * dxes[0][0][0]
    F = vec_f(h, field(h, "f", shape, cplx=True), shape)
    G = vec_f(h, field(h, "g", shape, cplx=True), shape)
    CE, CH = operators.curl_e(dxes), operators.curl_h(dxes)
    kw = dict(pec=pe, pmc=pm)
    h.eq(operators.e_full(w, dxes, ve, vm, **kw) @ F,
         ne * (CH @ (nm / vm * (CE @ (ne * F))) - w * w * ve * (ne * F)),
         "E operator with conductors")
    h.eq(operators.h_full(w, dxes, ve, vm, **kw) @ F,
         nm * (CE @ (ne / ve * (CH @ (nm * F))) - w * w * vm * (nm * F)),
         "H operator with conductors")
    r = operators.eh_full(w, dxes, ve, vm, **kw) @ np_.concatenate([F, G])
    h.eq(r[:n], ne * (CH @ (nm * G)) - 1j * w * ne * ve * ne * F,
         "coupled operator with conductors, E rows")
    h.eq(r[n:], nm * (CE @ (ne * F)) + 1j * w * nm * vm * nm * G,
         "coupled operator with conductors, H rows")
    h.eq(operators.e2h(w, dxes, vm, pmc=pm) @ F,
         nm / vm * (CE @ F) / (-1j * w), "E to H with conductors")


def symmetric(h, shape, mu, omega):
    from spins.fdfd_tools import operators
    dxes, w, eps, m, bv, ph = setup(h, shape, mu, omega, False)
    ve, vm = vecs(h, shape, eps, m)
    A = operators.e_full(w, dxes, ve, vm)
    Pl, Pr = operators.e_full_preconditioners(dxes)
    S = (Pl @ A @ Pr)
    h.eq(S.T, S, "preconditioned E operator is complex symmetric")
    h.eq(Pl @ Pr @ ve, ve, "preconditioners are inverse to each other")


def instances(tier):
    out = []
    small = [(2, 2, 1), (1, 2, 2)]
    for mu in (False, True):
        k = dict(shape=(2, 1, 2), mu=mu, omega="s")
        tag = "stretched_" + ("mu" if mu else "vac")
        out.append(Instance("e_" + tag, e_explicit, dict(k, bloch=False)))
        out.append(Instance("h_" + tag, h_explicit, dict(k, bloch=False)))
        out.append(Instance("eh_" + tag, coupled, dict(k, bloch=False)))
        out.append(Instance("fun_" + tag, functional_same, k))
    big = [(2, 2, 2)] + ([(3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 1, 3)]
                         if tier == "thorough" else [(3, 1, 2)])
    for s in small + big:
        nm = "x".join(map(str, s))
        for mu in (False, True):
            for om in ("r", "c"):
                if s in big and om == "c" and tier == "quick":
                    continue
                tag = "%s_%s%s" % (nm, "mu" if mu else "vac", om)
                k = dict(shape=s, mu=mu, omega=om)
                for bl in (False, True):
                    t2 = tag + ("_bloch" if bl else "")
                    kb = dict(k, bloch=bl)
                    if bl and om == "c" and tier == "quick":
                        continue
                    out.append(Instance("e_" + t2, e_explicit, kb))
                    out.append(Instance("h_" + t2, h_explicit, kb))
                    out.append(Instance("m2j_" + t2, m2j, kb))
                    if s in small or tier == "thorough" or not bl:
                        out.append(Instance("eh_" + t2, coupled, kb))
                out.append(Instance("fun_" + tag, functional_same, k))
                out.append(Instance("symm_" + tag, symmetric, k))
    out.append(Instance("pec_all", masks,
                        dict(shape=(2, 1, 1), pec="all", pmc=None)))
    out.append(Instance("pmc_all", masks,
                        dict(shape=(2, 1, 1), pec=None, pmc="all")))
    out.append(Instance("pec_pmc_one", masks,
                        dict(shape=(2, 1, 1), pec="one", pmc="one")))
    return out
