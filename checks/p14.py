"""P14: local solvers solve Maxwell's equations and their adjoint."""
import itertools

import numpy as np

from checks.common import *
from checks.p10 import spec_curl

PRELOAD = ["spins.fdfd_tools", "spins.fdfd_tools.solvers",
           "spins.fdfd_solvers.local_matrix_solvers",
           "spins.invdes.problem"]
BOUNDS = ("grids of up to 2x2x1 (thorough 2x2x2) cells; cell widths (real; "
          "complex for the adjoint simulation and, concretely, for absorbing "
          "layers), permittivity (real or complex), permeability, frequency, "
          "source, solution and Bloch vector symbolic; conductor masks: any "
          "single cell or none; cache sizes 1-2, sequences of 4 requests")
ASSUMPTIONS = [
    "the matrix solver solves the equation it is given: its answer is "
    "symbolic and the equation is inverted for the source",
    "real frequency (the adjoint simulation scales by it)",
]


def explicit(h, E, dxes, shape, w, eps, mu, pec, pmc, bv):
    """curl(1/mu curl E) - w^2 eps E with conductors, written out."""
    ph = [None, None]
    if bv is not None:
        for g in range(2):
            p = [
                bv[a] * sum(dxes[g][a][i] for i in range(shape[a]))
                for a in range(3)
            ]
            ph[g] = [(h.np.exp(-1j * x), h.np.exp(1j * x)) for x in p]

    def pt(f, *fs):
        out = []
        for c in range(3):
            r = np.empty(shape, object)
            for i in idx(shape):
                r[i] = f(*[x[c][i] for x in fs])
            out.append(r)
        return out

    if pec is not None:
        E = pt(lambda e, m: e * (1 - m), E, pec)
    t = spec_curl(h, E, dxes[0], shape, True, ph[0])
    if mu is not None:
        t = pt(lambda e, m: e / m, t, mu)
    if pmc is not None:
        t = pt(lambda e, m: e * (1 - m), t, pmc)
    t = spec_curl(h, t, dxes[1], shape, False, ph[1])
    t = pt(lambda x, e, f: x - w * w * e * f, t, eps, E)
    if pec is not None:
        t = pt(lambda e, m: e * (1 - m), t, pec)
    return t


def split(v, shape):
    """Inverse of column-major stacking."""
    n = shape[0] * shape[1] * shape[2]
    out = []
    for c in range(3):
        r = np.empty(shape, object)
        q = c * n
        for k in range(shape[2]):
            for j in range(shape[1]):
                for i in range(shape[0]):
                    r[i, j, k] = v[q]
                    q += 1
        out.append(r)
    return out


def op_matrix(h, shape, *args):
    """Matrix of the explicit operator, column by column (object array)."""
    n = 3 * shape[0] * shape[1] * shape[2]
    A = np.empty((n, n), object)
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1
        col = vec_f(h, explicit(h, split(e, shape), *args), shape)
        for i in range(n):
            A[i, j] = col[i]
    return A


def hermitian_apply(A, x):
    n = len(x)
    out = []
    for k in range(n):
        s = 0
        for j in range(n):
            a = A[j, k]
            if isinstance(a, (int, float)) and a == 0:
                continue
            s = s + np.conjugate(a) * x[j] if isinstance(
                a, (int, float, complex)) else s + a.conjugate() * x[j]
        out.append(s)
    return out


def system(h, shape, mu, bloch, cond, lossy, cdx=False):
    # a Bloch phase needs the same total length on both grids
    dxes = sym_dxes(h, shape, cplx=cdx, same=bloch)
    w = h.real("w", 0.25, 2)
    eps = field(h, "eps", shape, lo=0.5, hi=4, cplx=lossy)
    m = field(h, "mu", shape, lo=0.5, hi=4, cplx=lossy) if mu else None
    bv = h.array("k", 3, -1, 1) if bloch else None
    pec = pmc = None
    n = 3 * shape[0] * shape[1] * shape[2]
    if cond:
        def mask(nm):
            r = np.zeros(n)
            i = h.choice(nm, range(0, n, 2))
            r[i] = 1
            return split(r, shape)
        pec, pmc = mask("pec"), mask("pmc")
    return dxes, w, eps, m, pec, pmc, bv


def V(h, f, shape):
    return None if f is None else vec_f(h, f, shape)


def Vc(h, f, shape):
    """Concrete masks as a plain float vector."""
    return None if f is None else np.array(vec_f(h, f, shape).tolist(),
                                           dtype=float)


def local(h, shape, via, adjoint, mu=False, bloch=False, cond=False,
          lossy=False):
    from spins.fdfd_solvers import local_matrix_solvers
    from spins.fdfd_tools import solvers
    dxes, w, eps, m, pec, pmc, bv = system(h, shape, mu, bloch, cond, lossy)
    n = 3 * shape[0] * shape[1] * shape[2]
    x = h.array("x", n, -3, 3, cplx=True)
    J = h.array("J", n, -3, 3, cplx=True)
    seen = []

    def msolve(A, b, **k):
        seen.append((A, b))
        return x

    class Stub(local_matrix_solvers.LocalMatrixSolver):

        def solve_matrix_equation(self, A, b):
            return msolve(A, b)

    def solve(J):
        kw = dict(omega=w, dxes=dxes, J=J, epsilon=V(h, eps, shape),
                  mu=V(h, m, shape), pec=Vc(h, pec, shape),
                  pmc=Vc(h, pmc, shape), adjoint=adjoint)
        if via == "local":
            return Stub().solve(bloch_vec=bv, **kw)
        return solvers.generic(matrix_solver=msolve, **kw)

    out = solve(J)
    out1 = solve(h.np.array(np.ones(n) + 0j))
    (M, c), (M1, q) = seen
    h.eq(out, out1, "the field depends on the source only by the solve")
    h.eq(c, q * J, "the right hand side is a scaled source")
    for k in range(n):
        h.check(q[k] != 0, "no source entry is dropped")
    Mx = M @ x
    args = (dxes, shape, w, eps, m, pec, pmc, bv)
    if adjoint:
        got = hermitian_apply(op_matrix(h, shape, *args), out)
    else:
        got = vec_f(h, explicit(h, split(out, shape), *args), shape)
    for k in range(n):
        h.eq(got[k] * q[k], -1j * w * Mx[k],
             "the field solves A%s E = -i w J" % ("^H" if adjoint else ""))


def pml(h, shape, layers, adjoint):
    """Absorbing layers: same system as with the stretched grid."""
    from spins.fdfd_solvers import local_matrix_solvers
    from spins.fdfd_tools import grid
    rs = np.random.RandomState(3)
    dxes = [[np.round(rs.uniform(1, 2, n), 2) for n in shape]
            for _ in range(2)]
    w = 1.5
    eps = field(h, "eps", shape, lo=0.5, hi=4)
    n = 3 * shape[0] * shape[1] * shape[2]
    J = np.round(rs.uniform(-1, 1, n), 2) + 1j * np.round(
        rs.uniform(-1, 1, n), 2)
    x = h.array("x", n, -3, 3, cplx=True)
    seen = []

    class Stub(local_matrix_solvers.LocalMatrixSolver):

        def solve_matrix_equation(self, A, b):
            seen.append((A @ x, b))
            return x

    kw = dict(omega=w, J=J, epsilon=V(h, eps, shape), adjoint=adjoint)
    a = Stub().solve(dxes=dxes, pml_layers=layers, **kw)
    b = Stub().solve(dxes=grid.apply_scpml(dxes, layers, w), **kw)
    h.eq(seen[0][0], seen[1][0], "matrix", tol=1e-9)
    h.eq(seen[0][1], seen[1][1], "right hand side", tol=1e-9)
    h.eq(a, b, "field", tol=1e-9)
    # and that is the documented equation on the stretched grid
    cd = grid.apply_scpml(dxes, layers, w)
    args = ([[list(v) for v in g] for g in cd], shape, w, eps, None, None,
            None, None)
    Stub().solve(dxes=cd, omega=w, J=np.ones(n) + 0j,
                 epsilon=V(h, eps, shape), adjoint=adjoint)
    q = seen[-1][1]
    if adjoint:
        got = hermitian_apply(op_matrix(h, shape, *args), b)
    else:
        got = vec_f(h, explicit(h, split(b, shape), *args), shape)
    for k in range(n):
        h.eq(got[k] * q[k], -1j * w * seen[1][0][k],
             "the field solves the system with absorbing layers", tol=1e-7)


def unsupported(h):
    from spins.fdfd_solvers import local_matrix_solvers
    s = local_matrix_solvers.DirectSolver()
    one = np.ones(1)
    kw = dict(omega=1.0, dxes=[[one] * 3] * 2, J=np.ones(3),
              epsilon=np.ones(3))
    sy = np.zeros(3)
    sy[h.choice("axis", range(3))] = h.choice("kind", [1, 2])
    h.raises(NotImplementedError, lambda: s.solve(symmetry=sy, **kw),
             "symmetry is refused")
    pe = np.zeros(6)
    pe[h.choice("side", range(6))] = 1
    h.raises(NotImplementedError, lambda: s.solve(pemc=pe, **kw),
             "pemc is refused")


class SimSolver:
    """Records every solve; answers with the next symbolic field."""

    def __init__(self, h, n, prefix="E"):
        self.h, self.n, self.p = h, n, prefix
        self.calls, self.answers = [], []

    def solve(self, **kw):
        self.calls.append(kw)
        v = self.h.array("%s%d" % (self.p, len(self.answers)), self.n, -3, 3,
                         cplx=True)
        self.answers.append(self.h.np.array(v))
        return v


def sim(h, shape, mu, bloch, lossy, cdx):
    """FdfdSimulation and AdjointFdfdSimulation."""
    from spins.invdes import problem
    dxes, w, eps, m, pec, pmc, bv = system(h, shape, mu, bloch, False, lossy,
                                           cdx)
    n = 3 * shape[0] * shape[1] * shape[2]
    nz = 2
    z = h.array("z", nz, 0, 1)
    S = np.zeros((n, nz))
    S[0, 0], S[1, 0], S[n - 1, 1], S[2, 1] = 1, 2, -1, 0.5
    src = field(h, "src", shape, cplx=True)
    sol = SimSolver(h, n)
    import scipy.sparse
    s = problem.FdfdSimulation(sol, list(shape), w, dxes, src,
                               h.sparse(scipy.sparse.csr_matrix(S)), eps, mu=m,
                               bloch_vec=bv)
    full = V(h, eps, shape) + h.np.array(S) @ z
    h.eq(s.get_epsilon(z), full, "permittivity")
    E = s.simulate(z)
    h.check(len(sol.calls) == 1, "one solve")
    kw = sol.calls[0]
    h.eq(E, sol.answers[0], "fields are those of the solver")
    h.check(not kw.get("adjoint", False), "forward")
    check_system(h, kw, w, dxes, full, m, bv, shape)
    h.eq(kw["J"], V(h, src, shape), "source")
    # adjoint
    adj = problem.AdjointFdfdSimulation(s)
    J = h.array("J", n, -3, 3, cplx=True)
    keep = h.np.array(J)
    x = adj.simulate(z, J)
    h.eq(J, keep, "the adjoint source is not changed")
    h.eq(s.get_epsilon(z), full, "permittivity is not changed")
    kw = sol.calls[1]
    v = sol.answers[1]
    # (8 lies outside the range of J: no cache hit)
    adj.simulate(z, h.np.array(8 * np.ones(n) + 0j))
    q = sol.calls[2]["J"] / 8
    h.eq(kw["J"], q * J, "scaled source")
    # the solver solved A' v = -i w J' for the system it was given
    sys_ = (kw["dxes"], shape, kw["omega"], split(kw["epsilon"], shape),
            None if kw["mu"] is None else split(kw["mu"], shape), None, None,
            kw.get("bloch_vec") if bloch else None)
    Av = vec_f(h, explicit(h, split(v, shape), *sys_), shape)
    A = op_matrix(h, shape, dxes, shape, w, split(full, shape), m, None, None,
                  bv)
    if kw.get("adjoint", False):
        Av = hermitian_apply(op_matrix(h, shape, *sys_), v)
    got = hermitian_apply(A, x)
    for k in range(n):
        h.eq(got[k] * q[k], Av[k], "the adjoint field solves A^H x = -i w J")


def check_system(h, kw, w, dxes, eps, m, bv, shape, label=""):
    h.eq(kw["omega"], w, label + "frequency")
    for g in range(2):
        for a in range(3):
            h.eq(kw["dxes"][g][a], dxes[g][a], label + "grid")
    h.eq(kw["epsilon"], eps, label + "permittivity")
    if m is None:
        h.check(kw.get("mu") is None, label + "no permeability")
    else:
        h.eq(kw["mu"], V(h, m, shape), label + "permeability")
    b = kw.get("bloch_vec")
    h.eq(np.zeros(3) if b is None else b, np.zeros(3) if bv is None else bv,
         label + "Bloch vector")


def cache(h, size, inplace, adj):
    """Repeated requests never give the fields of another structure."""
    from spins.invdes import problem
    import scipy.sparse
    shape = (1, 1, 1)
    one = [np.ones(1)] * 3
    S = h.sparse(
        scipy.sparse.csr_matrix(np.array([[1.0], [0.0], [2.0]])))
    vals = [h.real("z%d" % i, 0, 1) for i in range(3)]
    jv = [h.array("J%d" % i, 3, -2, 2, cplx=True) for i in range(2)]
    table = []

    class Det:
        """A deterministic solver: equal requests, equal answers."""

        def solve(self, **kw):
            for e, j, v in table:
                if h.np.array_equal(e, kw["epsilon"]) and h.np.array_equal(
                        j, kw["J"]):
                    return h.np.array(v)
            v = h.array("E%d" % len(table), 3, -3, 3, cplx=True)
            table.append((h.np.array(kw["epsilon"]), h.np.array(kw["J"]),
                          h.np.array(v)))
            return h.np.array(v)

    s = problem.FdfdSimulation(Det(), list(shape), 1.0, [one, one],
                               [np.ones(shape) * 1j] * 3, S,
                               [np.ones(shape)] * 3, cache_size=size)
    a = problem.AdjointFdfdSimulation(s)
    order = h.choice("order", [p for p in itertools.product(range(3), repeat=3)
                               if p[0] == 0])
    jo = h.choice("jorder", list(itertools.product(range(2), repeat=2))) + (
        0, ) if adj else (0, 0, 0)
    buf, jb = h.np.array([vals[0]]), h.np.array(jv[0])
    for i, j in zip(order, jo):
        if inplace:
            buf[0] = vals[i]
            jb[:] = jv[j]
            z, J = buf, jb
        else:
            z, J = h.np.array([vals[i]]), h.np.array(jv[j])
        got = a.simulate(z, J) if adj else s.simulate(z)
        eps = h.np.array([1 + vals[i], 1, 1 + 2 * vals[i]])
        Jq = J if adj else np.ones(3) * 1j
        hit = [v for e, q, v in table
               if h.np.array_equal(e, eps) and h.np.array_equal(q, Jq)]
        h.check(len(hit) > 0, "the structure was solved")
        h.eq(got, hit[0], "fields belong to the requested structure")


def instances(tier):
    out = []

    def add(fn, nm, **k):
        out.append(Instance(nm, fn, k))

    s0 = [(2, 1, 1), (1, 2, 2)]
    if tier == "thorough":
        s0 += [(2, 2, 1), (2, 1, 2), (2, 2, 2)]
    for s in s0:
        t = "x".join(map(str, s))
        for adj in (False, True):
            a = "_adj" if adj else ""
            add(local, "local_%s%s" % (t, a), shape=s, via="local",
                adjoint=adj)
            add(local, "local_%s_mu%s" % (t, a), shape=s, via="local",
                adjoint=adj, mu=True, lossy=s == (2, 1, 1))
            add(local, "generic_%s%s" % (t, a), shape=s, via="generic",
                adjoint=adj, mu=True)
    for adj in (False, True):
        a = "_adj" if adj else ""
        add(local, "local_bloch" + a, shape=(2, 1, 1), via="local",
            adjoint=adj, bloch=True)
        add(local, "local_cond" + a, shape=(2, 1, 1), via="local",
            adjoint=adj, cond=True)
        add(local, "generic_cond" + a, shape=(1, 2, 1), via="generic",
            adjoint=adj, cond=True, mu=True)
        add(pml, "pml" + a, shape=(3, 2, 1), layers=[1, 1, 0, 1, 0, 0],
            adjoint=adj)
    add(unsupported, "unsupported")
    add(sim, "sim", shape=(2, 1, 1), mu=False, bloch=False, lossy=False,
        cdx=False)
    add(sim, "sim_mu", shape=(1, 2, 1), mu=True, bloch=False, lossy=True,
        cdx=False)
    add(sim, "sim_cdx", shape=(2, 1, 1), mu=False, bloch=False, lossy=False,
        cdx=True)
    add(sim, "sim_bloch", shape=(1, 1, 2), mu=False, bloch=True, lossy=True,
        cdx=False)
    for size in (1, 2):
        for adj in (False, True):
            for ip in (False, True):
                add(cache, "cache%d%s%s" % (size, "_adj" if adj else "",
                                            "_inplace" if ip else ""),
                    size=size, inplace=ip, adj=adj)
    return out
