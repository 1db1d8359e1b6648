"""P13: goos FDFD simulation nodes: system, sources, outputs, gradients."""
import contextlib
import itertools
import sys
from typing import List

import numpy as np

from checks.common import *
from checks import sched

if "symx.loader" in sys.modules:
    from checks import gdsstub

PRELOAD = ["spins.goos", "spins.goos_sim.maxwell"]
BOUNDS = ("simulation regions of up to 3x2x1 cells (thorough: 2x3x2); permittivity "
          "(real or complex), source currents, forward solver answers and "
          "the objective's derivatives symbolic, overlap modes and the "
          "adjoint solver's matrix fixed; regions and normals: all axes, both "
          "polarities; every subset of the outputs used by the objective; "
          "sequences of 3 structures; two simulations in every schedule")
ASSUMPTIONS = [
    "solver answers and waveguide modes are symbolic: what is checked is "
    "what they are asked for and what is done with them",
]

DX = 10.0


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


def green(n):
    """The inverse of the adjoint operator (times -i omega), any matrix."""
    i, j = np.indices((n, n))
    return (((3 * i + 5 * j) % 7 - 3) / 2 + 1j * ((2 * i + j) % 5 - 2) / 4)


class Lab:
    """Replaces the matrix solve and the mode builders."""

    def __init__(self, h, shape, omegas):
        self.h, self.shape = h, shape
        self.n = 3 * int(np.prod(shape))
        self.calls, self.modes = [], []
        self.omegas = omegas
        self.fields = {}
        self.answer = None

    def F(self, i, adj, tag=""):
        k = (i, adj, tag)
        if k not in self.fields:
            self.fields[k] = self.h.array(
                "%s%d%s" % ("D" if adj else "E", i, tag), self.n, -3, 3,
                cplx=True)
        return self.fields[k]

    def solve(self, this, **kw):
        self.calls.append(kw)
        if self.answer is not None:
            return self.answer(kw)
        for i, w in enumerate(self.omegas):
            if abs(float(kw["omega"]) - w) < 1e-12:
                if kw.get("adjoint"):
                    return self.h.np.array(green(self.n)) @ kw["J"]
                return self.h.np.array(self.F(i, False))
        raise AssertionError("unknown frequency")

    def mode(self, kind):

        def build(**kw):
            k = len([m for m in self.modes if m[0] == kind])
            if kind == "C":
                u = np.arange(self.n).reshape((3, ) + tuple(self.shape))
                v = list((1 + u / 2) * (1 - 2 * (u % 2)) +
                         1j * (u - 1.5 + k) * (1 - u % 3))
            else:
                v = [self.h.array("%s%d%s" % (kind, k, "xyz"[c]),
                                  self.shape, -2, 2, cplx=True)
                     for c in range(3)]
            self.modes.append((kind, kw, v))
            return [self.h.np.array(c) for c in v]

        return build

    def of(self, kind):
        return [m for m in self.modes if m[0] == kind]

    @contextlib.contextmanager
    def on(self):
        from spins.fdfd_solvers import local_matrix_solvers as lms
        from spins import fdfd_solvers, fdfd_tools
        me = self

        def solve(this, *a, **kw):
            names = ("omega", "dxes", "J", "epsilon", "pml_layers")
            kw.update(zip(names, a))
            return me.solve(this, **kw)

        def gauss(**kw):
            return me.mode("G")(**kw), np.zeros(3)

        with patched(lms.LocalMatrixSolver, solve=solve), \
                patched(fdfd_solvers.waveguide_mode,
                        build_overlap=self.mode("C"),
                        build_waveguide_source=self.mode("J")), \
                patched(fdfd_tools.free_space_sources,
                        build_gaussian_source=gauss):
            yield self


def flat(h, comps, shape):
    return vec_f(h, comps, shape)


def make_lin(goos):

    class Lin(goos.Function):
        """eps = base + S p"""
        node_type = "verif.lineps"
        goos_no_register = True

        def __init__(self, var: goos.Function) -> None:
            super().__init__([var])

        def setup(self, h, base, S, shape):
            self.h, self.base, self.S, self.sh = h, base, S, shape
            return self

        def eval(self, inputs):
            p = inputs[0].array
            h = self.h
            e = [self.base[k] + sum(self.S[k, j] * p[j]
                                    for j in range(len(p)))
                 for k in range(len(self.base))]
            return goos.NumericFlow(h.np.reshape(h.np.array(e),
                                                 (3, ) + self.sh))

        def grad(self, inputs, grad_val):
            h = self.h
            g = h.np.reshape(grad_val.array_grad, (-1, ))
            if np.iscomplexobj(self.S) or h.np.iscomplexobj(self.base):
                r = [2 * sum((g[k] * self.S[k, j]).real
                             for k in range(len(g)))
                     for j in range(self.S.shape[1])]
            else:
                r = [sum(g[k] * self.S[k, j] for k in range(len(g)))
                     for j in range(self.S.shape[1])]
            return [goos.NumericFlow.Grad(h.np.array(r))]

    return Lin


def make_probe(goos):

    class Probe(goos.Function):
        """2 Re(c z) for complex z"""
        node_type = "verif.probe"
        goos_no_register = True

        def __init__(self, z: goos.Function) -> None:
            super().__init__([z])

        def setup(self, h, c):
            self.h, self.c = h, c
            return self

        def eval(self, inputs):
            z = inputs[0].array
            return goos.NumericFlow(
                2 * (self.c.real * z.real - self.c.imag * z.imag))

        def grad(self, inputs, grad_val):
            return [goos.NumericFlow.Grad(grad_val.array_grad * self.c)]

    return Probe


def sel(n, m, cplx):
    S = np.zeros((n, m))
    for k in range(n):
        if k % 3 != 2 or k == n - 1:
            S[k, k % m] = 1 + k / 2
        if k % 4 == 1:
            S[k, (k + 1) % m] = -0.5
    if cplx:
        S = S * (1 + 0.25j) - 0.5j * (S == 1)
    return S


def cell(shape, i):
    """Centre of a cell of a region centred at the origin."""
    return [DX * (i[a] + 0.5 - shape[a] / 2) for a in range(3)]


def plane(shape, axis, at):
    """A cross section plane and the cells it covers."""
    c = [0.0, 0.0, 0.0]
    c[axis] = cell(shape, [at] * 3)[axis]
    e = [DX * s for s in shape]
    e[axis] = 0.0
    sl = [(0, s) for s in shape]
    sl[axis] = (at, at + 1)
    return c, e, sl


def vecn(axis, pol):
    v = [0, 0, 0]
    v[axis] = pol
    return v


def check_mode(h, kw, w, shape, axis, pol, num, power, sl, eps, label):
    h.check(abs(float(kw["omega"]) - w) < 1e-12, label + ": frequency")
    for g in range(2):
        for a in range(3):
            h.eq(kw["dxes"][g][a], DX * np.ones(shape[a]), label + ": grid")
    for c in range(3):
        h.eq(kw["eps"][c], eps[c], label + ": permittivity")
    h.check(kw.get("mu") is None, label + ": no permeability")
    ax = kw["axis"]
    h.check(int(getattr(ax, "value", ax)) == axis, label + ": axis")
    h.check(float(kw["polarity"]) == pol, label + ": polarity")
    if "mode_num" in kw:
        h.check(int(kw["mode_num"]) == num, label + ": mode")
    h.check(float(kw["power"]) == power, label + ": power")
    s = kw.get("waveguide_slice", kw.get("slices"))
    h.check([(int(x.start), int(x.stop)) for x in s] == sl,
            label + ": region")


def check_solve(h, kw, w, shape, eps, pml, sym, label):
    h.check(abs(float(kw["omega"]) - w) < 1e-12, label + ": frequency")
    for g in range(2):
        for a in range(3):
            h.eq(kw["dxes"][g][a], DX * np.ones(shape[a]), label + ": grid")
    h.eq(kw["epsilon"], flat(h, eps, shape), label + ": permittivity")
    h.check(kw.get("mu") is None, label + ": no permeability")
    h.check([int(v) for v in kw["pml_layers"]] == pml,
            label + ": absorbing layers")
    b = kw.get("bloch_vec")
    h.check(b is None or not np.any(np.asarray(b)), label + ": no Bloch")
    s = kw.get("symmetry")
    h.check((s is None and not np.any(sym)) or list(s) == list(sym),
            label + ": symmetry")


def absval(h, z):
    return h.np.sqrt(z.real * z.real + z.imag * z.imag)


def node(h, shape, cplx, axis, used, pos=1, solver="info", pml=(0, ) * 6,
         sym=None, nsrc=1, norm=False):
    """Values, requests and gradient of one simulation."""
    from spins import goos
    from spins.goos_sim import maxwell
    n = 3 * int(np.prod(shape))
    wlen = 1.5
    w = 2 * np.pi / wlen
    lab = Lab(h, shape, [w])
    S = sel(n, 2, cplx)
    base = h.array("base", n, 1, 4, cplx=cplx)
    p = h.array("p", 2, 0, 1)
    cs = [h.cplx("c%d" % k, -2, 2) for k in range(2)]
    at = shape[axis] - 1
    c0, e0, sl0 = plane(shape, axis, 0)
    c1, e1, sl1 = plane(shape, axis, at)
    kw = {}
    if solver == "info":
        kw["solver_info"] = maxwell.DirectSolver(multiprocessing=False)
    elif solver == "multi":
        kw["solver_info"] = maxwell.DirectSolver()
    else:
        kw["solver"] = "local_direct"
    with lab.on(), goos.OptimizationPlan():
        var = goos.Variable(p)
        eps = make_lin(goos)(var).setup(h, base, S, shape)
        space = dict(sim_region=goos.Box3d(center=[0, 0, 0], extents=[
            DX * s for s in shape]), mesh=maxwell.UniformMesh(dx=DX),
            pml_thickness=[int(DX) * k for k in pml])
        if sym is not None:
            space["reflection_symmetry"] = sym
        sources = [
            maxwell.WaveguideModeSource(center=c0, extents=e0,
                                        normal=vecn(axis, pos), mode_num=3,
                                        power=2.0)
        ]
        if nsrc > 1:
            sources.append(maxwell.GaussianSource(
                w0=3.0, center=c1, beam_center=[1, 2, 3], extents=e1,
                normal=vecn(axis, -pos), theta=0.1, psi=0.2,
                polarization_angle=0.3, power=4.0))
        sim = maxwell.SimulateNode(
            wavelength=wlen, simulation_space=maxwell.SimulationSpace(**space),
            eps=eps, sources=sources, outputs=[
                maxwell.Epsilon(name="eps"),
                maxwell.WaveguideModeOverlap(
                    name="a", wavelength=wlen, center=c1, extents=e1,
                    normal=vecn(axis, pos), mode_num=1, power=1.0),
                maxwell.ElectricField(name="fields"),
                maxwell.WaveguideModeOverlap(
                    name="b", wavelength=wlen, center=c0, extents=e0,
                    normal=vecn(axis, -pos), mode_num=0, power=3.0),
            ], **kw)
        obj = None
        for k in used:
            if norm:
                t = goos.abs(sim["ab"[k]])
                t = (1 + 2 * k) * (t**2)
            else:
                t = make_probe(goos)(sim["ab"[k]]).setup(h, cs[k])
            obj = t if obj is None else obj + t
        out = sim.get()
        val = obj.get().array
        grad = obj.get_grad([var])[0].array_grad
        again = obj.get().array
    ev = [base[k] + sum(S[k, j] * p[j] for j in range(2)) for k in range(n)]
    em = h.np.reshape(h.np.array(ev), (3, ) + tuple(shape))
    full = [em[c] for c in range(3)]
    E = lab.F(0, False)
    sy = sym or [0, 0, 0]
    fw = [k for k in lab.calls if not k.get("adjoint")]
    ad = [k for k in lab.calls if k.get("adjoint")]
    h.check(len(fw) == 1 and len(ad) == 1,
            "one forward and one adjoint solve for one structure")
    check_solve(h, fw[0], w, shape, full, list(pml), sy, "forward")
    check_solve(h, ad[0], w, shape, full, list(pml), sy, "adjoint")
    js = lab.of("J")
    h.check(len(js) == 1, "one source mode")
    check_mode(h, js[0][1], w, shape, axis, pos, 3, 2.0, sl0, full, "source")
    J = flat(h, js[0][2], shape)
    if nsrc > 1:
        g = lab.of("G")
        h.check(len(g) == 1, "one beam")
        k = dict(g[0][1])
        for nm, v in (("w0", 3.0), ("theta", 0.1), ("psi", 0.2),
                      ("polarization_angle", 0.3)):
            h.check(abs(float(k[nm]) - v) < 1e-12, "beam " + nm)
        h.check([float(x) for x in k["center"]] == [1, 2, 3], "beam centre")
        k["eps"] = k["eps_grid"].grids
        k["dxes"] = [[DX * np.ones(s) for s in shape]] * 2
        check_mode(h, k, w, shape, axis, -pos, 0, 4.0, sl1, full, "beam")
        J = J + flat(h, g[0][2], shape)
    h.eq(fw[0]["J"], J, "source current")
    ov = lab.of("C")
    h.check(len(ov) == 2, "two overlap modes")
    check_mode(h, ov[0][1], w, shape, axis, pos, 1, 1.0, sl1, full,
               "first overlap")
    check_mode(h, ov[1][1], w, shape, axis, -pos, 0, 3.0, sl0, full,
               "second overlap")
    h.eq(out[0].array, em, "permittivity output")
    got = out[2].array
    h.eq(flat(h, [got[c] for c in range(3)], shape), E, "field output")
    zs, C = [], []
    for k in range(2):
        cv = flat(h, ov[k][2], shape)
        C.append(cv)
        z = sum(cv[i] * E[i] for i in range(n))
        zs.append(z)
        h.eq(out[1 + 2 * k].array, z, "overlap output")
    want, q = 0, [0] * n
    for k in used:
        z = zs[k]
        if norm:
            want = want + (1 + 2 * k) * (z.real * z.real + z.imag * z.imag)
            c = (1 + 2 * k) * z.conjugate()
        else:
            want = want + 2 * (cs[k] * z).real
            c = cs[k]
        for i in range(n):
            q[i] = q[i] + 2 * c * C[k][i]
    h.eq(val, want, "objective")
    h.eq(again, val, "objective again")
    # d f = Re(q . dE), A dE = w^2 deps E, and the solver answers with
    # D = M J where M = -i w inverse(A^H)
    perm = [int(v) for v in flat(h, list(np.arange(n).reshape(
        (3, ) + tuple(shape))), shape)]
    M = green(n)
    for j in range(2):
        d = 0
        for i in range(n):
            if S[perm[i], j]:
                a = sum(complex(np.conj(M[i, k])) * q[k] for k in range(n))
                d = d + (a * E[i] * complex(S[perm[i], j])).imag * w
        h.eq(grad[j], d, "gradient")


def sequence(h, direct):
    """Results always belong to the current structure."""
    from spins import goos
    from spins.goos_sim import maxwell
    shape = (1, 1, 1)
    n = 3
    wlen = 2.0
    w = 2 * np.pi / wlen
    lab = Lab(h, shape, [w])
    vals = [h.array("e%d" % i, (3, 1, 1, 1), 1, 4) for i in range(2)]
    table = []

    def det(kw):
        if kw.get("adjoint"):
            return h.np.array(green(n)) @ kw["J"]
        for e, v in table:
            if h.np.array_equal(e, kw["epsilon"]):
                return h.np.array(v)
        v = h.array("F%d" % len(table), n, -3, 3, cplx=True)
        table.append((h.np.array(kw["epsilon"]), h.np.array(v)))
        return h.np.array(v)

    lab.answer = det
    order = h.choice("order", [(0, 1, 0), (0, 0, 1), (0, 1, 1)])
    what = h.choice("ask", ["vv", "gv", "vg"])
    with lab.on(), goos.OptimizationPlan():
        var = goos.Variable(vals[0] + 5)
        eps = var if direct else var * 1.0
        sim = maxwell.SimulateNode(
            wavelength=wlen, simulation_space=maxwell.SimulationSpace(
                sim_region=goos.Box3d(center=[0, 0, 0], extents=[DX] * 3),
                mesh=maxwell.UniformMesh(dx=DX), pml_thickness=[0] * 6),
            eps=eps, sources=[
                maxwell.WaveguideModeSource(center=[0, 0, 0],
                                            extents=[0, DX, DX],
                                            normal=[1, 0, 0], mode_num=0,
                                            power=1)
            ], outputs=[
                maxwell.WaveguideModeOverlap(
                    wavelength=wlen, center=[0, 0, 0], extents=[0, DX, DX],
                    normal=[1, 0, 0], mode_num=0, power=1.0),
                maxwell.ElectricField(),
            ], solver="local_direct")
        obj = goos.abs(sim[0])**2
        buf = h.np.array(vals[0])
        for step, i in enumerate(order):
            if direct and step:
                buf[...] = vals[i]
                var.set(buf)
            else:
                buf = h.np.array(vals[i])
                var.set(buf)
            ask = what[min(step, 1)]
            if ask == "g":
                g = obj.get_grad([var], run=True)[0].array_grad
            E = sim.get(run=True)[1].array
            J = flat(h, lab.of("J")[0][2], shape)
            ev = flat(h, vals[i], shape)
            hit = [v for e, v in table if h.np.array_equal(e, ev)]
            h.check(len(hit) == 1, "the structure was solved")
            h.eq(flat(h, E, shape), hit[0], "fields of the current structure")
            C = flat(h, lab.of("C")[0][2], shape)
            z = sum(C[k] * hit[0][k] for k in range(n))
            h.eq(sim.get(run=True)[0].array, z, "overlap")
            if ask == "g":
                q = [2 * z.conjugate() * C[k] for k in range(n)]
                ad = [k for k in lab.calls if k.get("adjoint")]
                h.check(len(ad) >= 1, "an adjoint solve")
                h.eq(ad[-1]["epsilon"], ev, "adjoint structure")
                M = green(n)
                for k in range(n):
                    a = sum(complex(np.conj(M[k, m])) * q[m]
                            for m in range(n))
                    h.eq(g[k, 0, 0, 0], (a * hit[0][k]).imag * w,
                         "gradient at the current structure")


def parallel(h):
    """Two simulations of one structure."""
    from spins import goos
    from spins.goos_sim import maxwell
    shape = (1, 1, 1)
    n = 3
    wl = [1.0, 2.0]
    ws = [2 * np.pi / v for v in wl]
    lab = Lab(h, shape, ws)
    v = h.array("e", (3, 1, 1, 1), 1, 4)
    sched.start(h)
    try:
        with lab.on(), goos.OptimizationPlan():
            var = goos.Variable(v)
            eps = var * (1 + 0j)
            sims = [maxwell.SimulateNode(
                wavelength=q, simulation_space=maxwell.SimulationSpace(
                    sim_region=goos.Box3d(center=[0, 0, 0],
                                          extents=[DX] * 3),
                    mesh=maxwell.UniformMesh(dx=DX), pml_thickness=[0] * 6),
                eps=eps, sources=[
                    maxwell.DipoleSource(position=[0, 0, 0], axis=1,
                                         power=1.0)
                ], outputs=[
                    maxwell.WaveguideModeOverlap(
                        wavelength=q, center=[0, 0, 0], extents=[0, DX, DX],
                        normal=[1, 0, 0], mode_num=0, power=1.0)
                ], solver="local_direct") for q in wl]
            obj = goos.abs(sims[0][0])**2 + 3 * goos.abs(sims[1][0])**2
            val = obj.get().array
    finally:
        sched.stop()
    zz = []
    h.check(len(lab.calls) == 2, "one solve each")
    for kw in lab.calls:
        i = 0 if abs(float(kw["omega"]) - ws[0]) < 1e-9 else 1
        J = kw["J"]
        w = ws[i]
        ref = 1 / np.sqrt(0.02661928208866846 * w**2 * DX**3)
        h.eq(J[1] * v[1, 0, 0, 0], ref, "dipole current", tol=1e-9)
        h.eq(J[0], 0, "no other current")
        h.eq(J[2], 0, "no other current")
    for i in range(2):
        E = lab.F(i, False)
        kws = [m for m in lab.of("C")
               if abs(float(m[1]["omega"]) - ws[i]) < 1e-9]
        C = flat(h, kws[0][2], shape)
        z = sum(C[k] * E[k] for k in range(n))
        zz.append(z.real * z.real + z.imag * z.imag)
    h.eq(val, zz[0] + 3 * zz[1], "objective")


def dipole(h):
    """Only the phase of the phase factor counts; cell and axis as given."""
    from spins.fdfd_solvers import dipole as dip
    shape = (2, 1, 3)
    axis = h.choice("axis", [0, 1, 2])
    pos = h.choice("pos", [(0, 0, 0), (1, 0, 2), (0, 0, 1)])
    eps = [h.array("e%d" % c, shape, 1, 12, cplx=True) for c in range(3)]
    dxes = [[np.arange(1, n + 1) * (0.5 + c + g) for c, n in
             enumerate(shape)] for g in range(2)]
    amp = h.choice("amp", [0.25, 1, 2])
    z = h.choice("z", [1, 1j, -1, 0.6 + 0.8j])
    power = h.real("power", 0.25, 4)
    w = h.choice("w", [0.5, 2])
    J = dip.build_dipole_source(omega=w, dxes=dxes, eps=h.np.array(eps),
                                position=pos, axis=axis, power=power,
                                phase=amp * z)
    dx = (pos[axis] + 1) * (0.5 + axis)
    for c in range(3):
        for i in idx(shape):
            if c == axis and i == pos:
                got = J[c][i] * eps[c][i]
                h.eq(got, h.np.sqrt(power) * z /
                     np.sqrt(0.02661928208866846 * w**2 * dx**3),
                     "dipole current", tol=1e-8)
            else:
                h.eq(J[c][i], 0, "no current elsewhere")


def instances(tier):
    out = [Instance("dipole", dipole)]

    def add(fn, nm, **k):
        out.append(Instance(nm, fn, k))

    for axis in range(3):
        for cplx in (False, True):
            shape = [1, 1, 1]
            shape[axis] = 2
            add(node, "node_%s%s" % ("xyz"[axis], "_lossy" if cplx else ""),
                shape=tuple(shape), cplx=cplx, axis=axis, used=(0, 1),
                pos=1 - 2 * (axis % 2))
    for u in ((0, ), (1, )):
        add(node, "only_%s" % "ab"[u[0]], shape=(1, 1, 1), cplx=True, axis=0,
            used=u)
    add(node, "abs", shape=(1, 1, 1), cplx=False, axis=0, used=(0, ),
        norm=True)
    add(node, "pml", shape=(1, 2, 1), cplx=True, axis=1, used=(1, 0),
        pml=(1, 2, 0, 3, 0, 4), solver="multi")
    add(node, "sym", shape=(2, 1, 1), cplx=True, axis=0, used=(0, 1),
        sym=[1, 0, 0], solver="name")
    add(node, "beam", shape=(1, 1, 2), cplx=True, axis=2, used=(0, 1),
        nsrc=2, solver="name")
    add(node, "big", shape=(3, 2, 1), cplx=True, axis=0, used=(0, 1))
    add(node, "big_real", shape=(2, 1, 3), cplx=False, axis=2, used=(0, 1),
        pos=-1, nsrc=2, pml=(0, 0, 1, 1, 2, 0))
    if tier == "thorough":
        add(node, "big3", shape=(2, 3, 2), cplx=True, axis=1, used=(0, 1),
            sym=[1, 0, 0])
        add(node, "big3_real", shape=(2, 2, 3), cplx=False, axis=2,
            used=(1, ), sym=[1, 1, 0], nsrc=2)
    add(sequence, "sequence", direct=False)
    add(sequence, "sequence_direct", direct=True)
    add(parallel, "parallel")
    return out
