"""P15: invdes simulation nodes: fields and adjoint gradients."""
import itertools

import numpy as np

from checks.common import *
from checks import sched
from checks.p14 import SimSolver, V, split

PRELOAD = ["spins.invdes.problem", "spins.invdes.parametrization",
           "spins.invdes.problem_graph.creator_em"]
BOUNDS = ("grids of 2-4 cells, 2-3 structure variables, a general selection "
          "matrix; permittivity (real or complex), grid widths, wavelength, "
          "source, overlap vector, Bloch vector, forward and adjoint solver "
          "answers symbolic; up to 2 simulations in every schedule; "
          "sequences of 3 structures")
ASSUMPTIONS = [
    "the solver answers are symbolic: what is checked is the system it is "
    "asked to solve and what is done with its answer (see P14 for the "
    "solvers themselves)",
    "overlap values are not exactly zero (abs is not differentiable there)",
]


class Grid:

    def __init__(self, grids):
        self.grids = grids


class Inst:

    def __init__(self, eps, S):
        self.eps_bg, self.selection_matrix = Grid(eps), S


class Space:
    """Stand-in for SimulationSpace."""

    def __init__(self, dxes, pml, inst):
        self.dxes, self.pml_layers, self._i = dxes, pml, inst
        self.asked = []

    def __call__(self, wlen):
        self.asked.append(wlen)
        return self._i


def sel(h, n, m, cplx=False):
    """A general n x m selection matrix (rows with 0, 1 or 2 entries)."""
    S = np.zeros((n, m))
    for k in range(n):
        if k % 3 != 2 or k == n - 1:
            S[k, k % m] = 1 + k / 2
        if k % 4 == 1:
            S[k, (k + 1) % m] = -0.5
    if cplx:
        S = S * (1 + 0.25j) - 0.5j * (S == 1)
    import scipy.sparse
    return S, h.sparse(scipy.sparse.csr_matrix(S))


class Answer:
    """Answers by frequency and direction, whatever the order of calls."""

    def __init__(self, h, n, one=True):
        self.h, self.n, self.calls, self.one = h, n, [], one

    def solve(self, **kw):
        h = self.h
        self.calls.append(kw)
        for k, (o, adj, v) in enumerate(self.given()):
            if adj == bool(kw.get("adjoint")) and bool(o == kw["omega"]):
                return h.np.array(v)
        raise AssertionError("unknown request")

    def table(self, omegas):
        self._t = []
        for i, o in enumerate(omegas):
            for adj in (False, True):
                self._t.append((o, adj, self.h.array(
                    "%s%d" % ("D" if adj else "E", i), self.n, -3, 3,
                    cplx=True)))
        return self

    def given(self):
        return self._t

    def field(self, i, adj):
        return self._t[2 * i + adj][2]


def params(h, n):
    from spins.invdes import parametrization as par
    x = h.array("x", n, -1, 2)
    return par.DirectParam(h.np.array(x), bounds=None), x


def check_call(h, kw, w, space, eps, label, bv=None):
    h.eq(kw["omega"], w, label + ": frequency")
    h.check(kw["dxes"] is space.dxes or all(
        bool(h.np.array_equal(a, b)) for g, q in zip(kw["dxes"], space.dxes)
        for a, b in zip(g, q)), label + ": grid")
    h.eq(kw["epsilon"], eps, label + ": permittivity")
    h.check(kw.get("mu") is None, label + ": no permeability")
    p = kw.get("pml_layers")
    h.check(list(p) == list(space.pml_layers), label + ": absorbing layers")
    b = kw.get("bloch_vec")
    h.eq(np.zeros(3) if b is None else b, np.zeros(3) if bv is None else bv,
         label + ": Bloch vector")
    for k in ("pec", "pmc", "pemc", "symmetry"):
        v = kw.get(k)
        h.check(v is None or not np.any(v), label + ": no " + k)


def chain(h, shape, lossy, cplx_out=False, bloch=False, outer="abs"):
    """|overlap . fields(eps(x))| and its derivative."""
    from spins.invdes import problem
    from spins.invdes.problem_graph import creator_em as em
    n = 3 * int(np.prod(shape))
    p, x = params(h, 2)
    S, Ss = sel(h, n, 2, lossy)
    eps = field(h, "eps", shape, lo=1, hi=4, cplx=lossy)
    dxes = sym_dxes(h, shape)
    space = Space(dxes, [1, 2, 0, 0, 3, 1], Inst(eps, Ss))
    wlen = h.real("wlen", 0.5, 4)
    w = 2 * np.pi / wlen
    src = field(h, "src", shape, cplx=True)
    bv = h.array("k", 3, -1, 1) if bloch else None
    C = h.array("C", n, -2, 2, cplx=True)
    sol = Answer(h, n).table([w])
    var = problem.Variable(2)
    e = em.Epsilon(var, wlen, space)
    sim = em.FdfdSimulation(e, sol, wlen, src, space, bloch_vector=bv)
    ov = em.OverlapFunction(sim, C)
    full = V(h, eps, shape) + h.np.array(S) @ x
    E, D = sol.field(0, 0), sol.field(0, 1)
    z = sum(C[k] * E[k] for k in range(n))
    zz = z.real * z.real + z.imag * z.imag
    h.assume(zz > 0.01)
    f = problem.AbsoluteValue(ov)
    if outer == "pow":
        f = (2 * f)**2
    h.eq(e.calculate_objective_function(p), full, "permittivity")
    h.eq(ov.calculate_objective_function(p), z, "overlap")
    val = f.calculate_objective_function(p)
    a = h.np.abs(z)
    h.eq(val, a if outer == "abs" else 4 * zz, "value")
    g = f.calculate_gradient(p)
    h.check(len(space.asked) >= 1 and all(bool(q == wlen)
                                          for q in space.asked), "wavelength")
    fw = [k for k in sol.calls if not k.get("adjoint")]
    ad = [k for k in sol.calls if k.get("adjoint")]
    h.check(len(fw) == 1 and len(ad) == 1, "one forward and one adjoint "
            "solve for one structure")
    for kw, nm in ((fw[0], "forward"), (ad[0], "adjoint")):
        check_call(h, kw, w, space, full, nm, bv)
    h.eq(fw[0]["J"], V(h, src, shape), "source")
    # df = Re(sum q_k dE_k); A dE = w^2 deps E; A^H D = -i w J
    s = 1 / a if outer == "abs" else 8
    for k in range(n):
        q = z.conjugate() * C[k] * s
        h.eq(-1j * w * ad[0]["J"][k], q.conjugate(), "adjoint source")
    for j in range(2):
        d = sum((D[k].conjugate() * E[k] * S[k, j]).real for k in range(n)
                if S[k, j])
        h.eq(g[j], w * w * d, "gradient")
    h.eq(p.get_structure(), x, "parameters unchanged")


def two(h, same_wlen):
    """Two simulations in parallel."""
    from spins.invdes import problem
    from spins.invdes.problem_graph import creator_em as em
    shape = (1, 1, 1)
    n = 3
    p, x = params(h, 1)
    S, Ss = sel(h, n, 1)
    eps = field(h, "eps", shape, lo=1, hi=4)
    one = [np.ones(1)] * 3
    space = Space([one, one], [0] * 6, Inst(eps, Ss))
    wl = [h.real("wlen0", 0.5, 1), h.real("wlen1", 2, 4)]
    ws = [2 * np.pi / v for v in wl]
    sol = Answer(h, n).table(ws)
    var = problem.Variable(1)
    cs = [h.np.array([1 + 0.5j, -0.5, 0.25j]), h.np.array([0.5j, 1, -1.5])]
    full = V(h, eps, shape) + h.np.array(S) @ x
    ovs, zs = [], []
    for i in range(2):
        e = em.Epsilon(var, wl[i], space)
        J = [np.ones(shape) * (1 + i) * 1j] * 3
        s = em.FdfdSimulation(e, sol, wl[i], J, space)
        ovs.append(em.OverlapFunction(s, cs[i]))
        E = sol.field(i, 0)
        zs.append(sum(cs[i][k] * E[k] for k in range(n)))
    sq = [z.real * z.real + z.imag * z.imag for z in zs]
    for q in sq:
        h.assume(q > 0.01)
    f = problem.AbsoluteValue(ovs[0])**2 + 3 * problem.AbsoluteValue(ovs[1])**2
    sched.start(h)
    try:
        val = f.calculate_objective_function(p)
        g = f.calculate_gradient(p)
    finally:
        sched.stop()
    h.eq(val, sq[0] + 3 * sq[1], "value")
    h.check(len(sol.calls) == 4, "one forward and one adjoint solve each")
    for kw in sol.calls:
        i = 0 if bool(kw["omega"] == ws[0]) else 1
        check_call(h, kw, ws[i], space, full, "solve")
        if kw.get("adjoint"):
            for k in range(n):
                q = 2 * zs[i].conjugate() * cs[i][k] * (1, 3)[i]
                h.eq(-1j * ws[i] * kw["J"][k], q.conjugate(),
                     "adjoint source")
        else:
            h.eq(kw["J"], np.ones(n) * (1 + i) * 1j, "source")
    d = 0
    for i in range(2):
        E, D = sol.field(i, 0), sol.field(i, 1)
        d = d + ws[i] * ws[i] * sum(
            (D[k].conjugate() * E[k]).real * S[k, 0] for k in range(n))
    h.eq(g[0], d, "gradient")


def cache(h, size, inplace, adj):
    """No answer belongs to another structure or adjoint source."""
    from spins.invdes import problem
    from spins.invdes.problem_graph import creator_em as em
    shape = (1, 1, 1)
    n = 3
    one = [np.ones(1)] * 3
    space = Space([one, one], [0] * 6, None)
    vals = [h.array("eps%d" % i, n, 1, 4) for i in range(3)]
    gs = [h.array("g%d" % i, n, -2, 2, cplx=True) for i in range(2)]
    table = []

    class Det:

        def solve(self, **kw):
            for e, j, a, v in table:
                if a == bool(kw.get("adjoint")) and h.np.array_equal(
                        e, kw["epsilon"]) and h.np.array_equal(j, kw["J"]):
                    return h.np.array(v)
            v = h.array("F%d" % len(table), n, -3, 3, cplx=True)
            table.append((h.np.array(kw["epsilon"]), h.np.array(kw["J"]),
                          bool(kw.get("adjoint")), h.np.array(v)))
            return h.np.array(v)

    def find(eps, J, a):
        r = [v for e, j, b, v in table if a == b
             and h.np.array_equal(e, eps) and h.np.array_equal(j, J)]
        h.check(len(r) == 1, "the structure was solved")
        return r[0]

    var = problem.Variable(n)
    src = [np.ones(shape) * 1j] * 3
    sim = em.FdfdSimulation(var, Det(), 2 * np.pi, src, space,
                            cache_size=size)
    order = h.choice("order", [q for q in itertools.product(range(3),
                                                            repeat=3)
                               if q[0] == 0 and q[1] < 2])
    jo = h.choice("jorder", list(itertools.product(range(2), repeat=2))) + (
        0, ) if adj else (0, 0, 0)
    buf = h.np.array(vals[0])
    gb = h.np.array(gs[0])
    for i, j in zip(order, jo):
        if inplace:
            buf[:] = vals[i]
            gb[:] = gs[j]
            e, g = buf, gb
        else:
            e, g = h.np.array(vals[i]), h.np.array(gs[j])
        E = sim.eval([e])
        h.eq(E, find(vals[i], np.ones(n) * 1j, False),
             "fields of the requested structure")
        if adj:
            out = sim.grad([e], g)[0]
            D = find(vals[i], h.np.array([q.conjugate() / (-1j)
                                          for q in gs[j]]), True)
            for k in range(n):
                h.eq(out[k], (D[k].conjugate() * E[k]).real, "gradient")
            h.eq(g, gs[j], "the output gradient is not changed")
        h.eq(e, vals[i], "the structure is not changed")


def complex_eps(h):
    """A complex permittivity input keeps the complex gradient."""
    from spins.invdes import problem
    from spins.invdes.problem_graph import creator_em as em
    n = 3
    one = [np.ones(1)] * 3
    space = Space([one, one], [0] * 6, None)
    wlen = h.real("wlen", 0.5, 4)
    w = 2 * np.pi / wlen
    eps = h.array("eps", n, 1, 4, cplx=True)
    g = h.array("g", n, -2, 2, cplx=True)
    sol = Answer(h, n).table([w])
    sim = em.FdfdSimulation(problem.Variable(n), sol, wlen,
                            [np.ones((1, 1, 1))] * 3, space)
    E = sim.eval([eps])
    out = sim.grad([eps], g)[0]
    D = sol.field(0, 1)
    for k in range(n):
        h.eq(out[k], w * w * D[k].conjugate() * E[k], "gradient")


def diff_eps(h, lossy):
    from spins.invdes import problem
    from spins.invdes.problem_graph import creator_em as em
    shape = (2, 1, 1)
    n = 6
    p, x = params(h, 3)
    S, Ss = sel(h, n, 3, lossy)
    eps = field(h, "eps", shape, lo=1, hi=4, cplx=lossy)
    space = Space(None, None, Inst(eps, Ss))
    ref = h.array("ref", n, 1, 4, cplx=lossy)
    r2 = h.array("other", n, 1, 4)
    cur = [ref]
    f = em.DiffEpsilon(em.Epsilon(problem.Variable(3), 1.5, space),
                       lambda: cur[0])

    def fun(v, r=ref):
        d = V(h, eps, shape) + h.np.array(S) @ v - r
        return h.np.sum(h.np.real(d)**2 + h.np.imag(d)**2)

    h.eq(f.calculate_objective_function(p), fun(x), "value")
    h.eq(f.calculate_gradient(p), h.grad(fun, x), "gradient")
    cur[0] = r2
    h.eq(f.calculate_objective_function(p), fun(x, r2),
         "the reference is taken at evaluation")


def fit(h, lossy):
    """Fit2Eps."""
    from spins.invdes import problem
    p, x = params(h, 2)
    n = 5
    S, Ss = sel(h, n, 2, lossy)
    bg = h.array("bg", n, 1, 4, cplx=lossy)
    target = h.array("target", n, 1, 4, cplx=lossy)
    f = problem.Fit2Eps(bg, Ss, target)

    def fun(v):
        d = bg + h.np.array(S) @ v - target
        return h.np.sum(h.np.real(d)**2 + h.np.imag(d)**2)

    h.eq(f.calculate_objective_function(p), fun(x), "value")
    h.eq(f.calculate_gradient(p), h.grad(fun, x), "gradient")


def fabcon(h, method):
    from spins.invdes import problem
    d = h.real("d", 1, 10)
    wt = h.real("weight", 0, 3)
    asked = []

    class Par:

        def __init__(self):
            self.v = {k: h.real(k, -3, 3) for k in ("gap", "curv")}
            self.g = {k: h.array("g" + k, 2, -3, 3) for k in ("gap", "curv")}

        def calculate_gap_penalty(self, s):
            asked.append(("gap", s))
            return self.v["gap"]

        def calculate_curv_penalty(self, s):
            asked.append(("curv", s))
            return self.v["curv"]

        def calculate_gap_penalty_gradient(self, s):
            asked.append(("gap", s))
            return self.g["gap"]

        def calculate_curv_penalty_gradient(self, s):
            asked.append(("curv", s))
            return self.g["curv"]

    p = Par()
    f = problem.FabricationConstraint(d, method)
    for w in (1, wt):
        if w is wt:
            f.set_weight_factor(wt)
        v, g = f.calculate_objective_function(p), f.calculate_gradient(p)
        if method == 2:
            h.eq(v, w * (p.v["gap"] + p.v["curv"]), "value")
            h.eq(g, w * (p.g["gap"] + p.g["curv"]), "gradient")
        else:
            h.eq(v, w * p.v["gap"], "value")
            h.eq(g, w * p.g["gap"], "gradient")
    h.check(len(set(k for k, s in asked)) == (2 if method == 2 else 1),
            "penalties")
    for k, s in asked:
        h.eq(s * d * (1.2 if k == "gap" else 1.15), np.pi, "feature size")


def emobj(h, kind, lossy, T=False):
    """Overlap objectives over problem.FdfdSimulation (unit grid)."""
    from spins.invdes import problem
    shape = (1, 1, 1)
    n = 3
    p, x = params(h, 2)
    S, Ss = sel(h, n, 2, lossy)
    eps = field(h, "eps", shape, lo=1, hi=4, cplx=lossy)
    one = [np.ones(1)] * 3
    w = h.real("w", 0.5, 2)
    sol = SimSolver(h, n)
    sim = problem.FdfdSimulation(sol, list(shape), w, [one, one],
                                 [np.ones(shape) * 1j] * 3, Ss, eps)
    m = 1 if kind == "overlap" else 2
    outs, cs, ts = [], [], []
    for i in range(m):
        c = field(h, "C%d" % i, shape, cplx=True, lo=-2, hi=2)
        if kind == "phase":
            c = [h.np.array([[[v]]]) for v in ([1 + 0.5j, -0.5, 0.25j],
                                               [0.5j, 1 + 0j, -1.5])[i]]
        t = h.cplx("T%d" % i, -2, 2) if T else 0
        outs.append(dict(type=problem.OverlapMode.ModeType.arbitrary,
                         overlap=c, transmission=t))
        if kind == "overlap" and not T:
            del outs[-1]["transmission"]
        cs.append([v[0, 0, 0] for v in c])
        ts.append(t)
    f = problem.Overlap(outs[0], sim) if kind == "overlap" else \
        problem.PhaseOverlapObjective(outs, sim)
    E = h.np.array(sim.simulate(x))
    zs = [sum(c[k] * E[k] for k in range(n)) - t for c, t in zip(cs, ts)]
    zs2 = [sum(c[k].conjugate() * E[k] for k in range(n)) - t
           for c, t in zip(cs, ts)]
    if kind == "phase":
        zs = zs2
    sq = [z.real * z.real + z.imag * z.imag for z in zs]
    for q in sq:
        h.assume(q > 0.01)
    val = f.calculate_objective_function(p)
    if kind == "overlap":
        h.eq(val, h.np.abs(zs[0]), "value")
        q = [zs[0].conjugate() * cs[0][k] / h.np.abs(zs[0])
             for k in range(n)]
    else:
        h.eq(val, sum(sq), "value")
        q = [2 * sum(z.conjugate() * c[k].conjugate()
                     for z, c in zip(zs, cs)) for k in range(n)]
    g = f.calculate_gradient(p)
    h.check(len(sol.calls) == 2, "one forward and one adjoint solve")
    kw, D = sol.calls[1], sol.answers[1]
    # unit grid: the adjoint system is the conjugate one
    h.eq(kw["omega"], w, "frequency")
    full = V(h, eps, shape) + h.np.array(S) @ x
    h.eq(kw["epsilon"], h.np.conj(full), "adjoint permittivity")
    # df = Re(q . dE) = 2 Re((q/2) . dE)
    for k in range(n):
        h.eq(-1j * w * kw["J"][k] * 2, q[k].conjugate(), "adjoint source")
    for j in range(2):
        d = 2 * sum((D[k].conjugate() * E[k] * S[k, j]).real
                    for k in range(n))
        h.eq(g[j], w * w * d, "gradient")


def instances(tier):
    out = []

    def add(fn, nm, **k):
        out.append(Instance(nm, fn, k))

    for s in [(2, 1, 1), (1, 2, 1)] + ([(2, 2, 1)] if tier == "thorough"
                                       else []):
        t = "x".join(map(str, s))
        add(chain, "chain_" + t, shape=s, lossy=False)
    add(chain, "chain_lossy", shape=(1, 1, 2), lossy=True)
    add(chain, "chain_bloch", shape=(1, 1, 1), lossy=False, bloch=True)
    add(chain, "chain_pow", shape=(1, 1, 1), lossy=False, outer="pow")
    add(two, "two", same_wlen=False)
    for size in (1, 2):
        for adj in (False, True):
            for ip in (False, True):
                add(cache, "cache%d%s%s" % (size, "_adj" if adj else "",
                                            "_inplace" if ip else ""),
                    size=size, inplace=ip, adj=adj)
    add(complex_eps, "complex_eps")
    for lossy in (False, True):
        add(diff_eps, "diff_eps%d" % lossy, lossy=lossy)
        add(fit, "fit%d" % lossy, lossy=lossy)
    for m in (0, 1, 2):
        add(fabcon, "fabcon%d" % m, method=m)
    for T in (False, True):
        add(emobj, "overlap%d" % T, kind="overlap", lossy=T, T=T)
        add(emobj, "phase%d" % T, kind="phase", lossy=T, T=T)
    return out
