"""Application models under the simulator: loader, reference element integrals, adapters.

An adapter builds the real application's problems on a small mesh, advances one step of its history with
the real code (`step`) and judges the step with independent NumPy formulas (`check`).
"""
import ast
import builtins
import importlib
import os
import sys
import types

import numpy as np

from sim import core, monitor, ref

APPS = "applications"
_PURE = {"np", "onp", "jnp", "jax", "math", "numpy"}
_FILEY = {"load", "loadtxt", "save", "savez", "savetxt", "genfromtxt", "fromfile"}
_BUILTIN = {"float", "int", "len", "range", "max", "min", "abs", "tuple", "list", "dict", "round", "sum"}


def imported(rel):
    """An application module that is safe to import."""
    m = importlib.import_module(rel[:-3].replace("/", "."))
    monitor.instrument([core.REPO.rstrip("/") + "/"])
    return m


def _root(node):
    while isinstance(node, ast.Attribute):
        if node.attr in _FILEY:
            return None
        node = node.value
    return node.id if isinstance(node, ast.Name) else None


def _harmless(node, local):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            if ast.unparse(n.func) in ("os.path.join", "os.path.dirname", "os.path.abspath", "os.path.basename", "os.path.realpath"):
                continue
            r = _root(n.func)
            if r is None or not (r in _PURE or r in _BUILTIN or r in local):
                return False
    return True


def extracted(rel, stubs=None):
    """Imports, classes, functions and plain constants of a script, without running its main part."""
    path = os.path.join(core.REPO, rel)
    with open(path) as f:
        tree = ast.parse(f.read())
    ns = types.ModuleType("app_" + rel[:-3].replace("/", "_"))
    sys.modules[ns.__name__] = ns
    ns.__file__ = path
    g = ns.__dict__
    local = set()
    for st in tree.body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            local.add(st.name)
    late = []

    def run(st):
        exec(compile(ast.Module([st], []), path, "exec"), g)
    for st in tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            try:
                run(st)
            except ImportError:
                for a in st.names:
                    g[(a.asname or a.name).split(".")[0]] = None
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            run(st)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            if all(isinstance(t, (ast.Name, ast.Tuple)) for t in ts) and _harmless(st.value, local):
                late.append(st)
                try:
                    run(st)
                except NameError:
                    pass
    g.update(stubs or {})
    monitor.instrument([core.REPO.rstrip("/") + "/"])
    return ns


# -- reference element integrals ---------------------------------------------------------------

class Fem:
    """One finite-element field over a mesh, from the independent reference elements."""

    def __init__(self, pts, cells, et, vec, qorder=None, surfaces=(), rule=None):
        self.pts, self.cells, self.vec = np.asarray(pts, float), np.asarray(cells), vec
        self.d = ref.Discretisation([self.pts], [self.cells], [et], [vec], qorder, surfaces, rule)
        self.edofs = self.d.edofs
        self.n = len(self.pts)
        self.place(self.pts)

    def place(self, pts):
        (g,), self.xq = self.d.geom([np.asarray(pts, float)])
        self.N, self.G, self.W = g
        self._faces = [self.d.face_geom(k, [np.asarray(pts, float)]) for k in range(len(self.d.surf))]

    def val(self, u):
        return np.einsum("qn,cnv->cqv", self.N, np.asarray(u, float)[self.cells])

    def grad(self, u):
        return np.einsum("cqnd,cnv->cqvd", self.G, np.asarray(u, float)[self.cells])

    def assemble(self, f0=None, f1=None):
        """Nodal vector of int f0.v + f1:grad v, and the size of its contributions."""
        r = 0.
        a = 0.
        if f0 is not None:
            t = np.einsum("qn,cqv,cq->cqnv", self.N, f0, self.W)
            r, a = r + t.sum(axis=1), a + np.abs(t).sum(axis=1)
        if f1 is not None:
            t = np.einsum("cqnd,cqvd,cq->cqnv", self.G, f1, self.W)
            r, a = r + t.sum(axis=1), a + np.abs(t).sum(axis=1)
        return self._add(r), self._add(a)

    def _add(self, r):
        R = np.zeros((self.n, self.vec))
        np.add.at(R, self.cells, r)
        return R

    def load(self, k, fn):
        """int over surface k of fn(cell, N, xq) . v"""
        R = np.zeros((self.n, self.vec))
        A = np.zeros_like(R)
        for c, row, xq in self._faces[k]:
            N, _, W = row[0]
            t = np.einsum("qn,qv,q->qnv", N, fn(c, N, xq), W)
            np.add.at(R, self.cells[c], t.sum(axis=0))
            np.add.at(A, self.cells[c], np.abs(t).sum(axis=0))
        return R, A


def balanced(ctx, name, R, A, U, fixed, guess=None, tol=1e-6, rel_tol=1e-8, extra=0., what="equilibrium"):
    """Residual R with contributions of size A vanishes off the fixed dofs, which hold their values, to the
    accuracy Newton's method promises: guess is (residual, values) of its starting point."""
    U = np.asarray(U, float)
    ctx.expect(np.isfinite(U).all(), "nonfinite-solution", f"{name}: the solution is not finite")

    def rows(R, U):
        R = np.array(R, float)
        for (a, b), v in fixed.items():
            R[a, b] = U[a, b] - v
        return R
    r0 = 0. if guess is None else np.linalg.norm(rows(*guess))
    acc = max(tol, rel_tol * r0) * (1 + 1e-6) + 1e-9 * np.linalg.norm(A) + extra
    worst = max([abs(U[a, b] - v) for (a, b), v in fixed.items()] or [0.])
    ctx.expect(worst <= 1e-9 * (1 + np.abs(U).max()) + acc, "boundary-values", f"{name}: a prescribed value is missed by {worst:.3g}")
    r = np.linalg.norm(rows(R, U))
    acc += 1e-9 * len(fixed)**.5 * (1 + np.abs(U).max())
    ctx.worst = max(getattr(ctx, "worst", 0.), r / acc)
    ctx.expect(r <= acc, "not-" + what, f"{name}: residual {r:.4g} of the accepted step, allowed {acc:.4g}")


def close(ctx, name, cls, got, want, rel=1e-8, ab=0.):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ctx.expect(got.shape == want.shape, cls, f"{name}: shape {got.shape}, expected {want.shape}")
    err = np.abs(got - want).max() if got.size else 0.
    lim = rel * (np.abs(want).max() if want.size else 0.) + ab
    ctx.expect(np.isfinite(got).all() and err <= lim, cls, f"{name}: differs from the reference by {err:.4g} (allowed {lim:.3g})")


def hexes(n, L, jig=0., seed=0):
    """Structured hexahedra in VTK order, interior vertices moved."""
    nx, ny, nz = n
    X = np.stack(np.meshgrid(*[np.linspace(0, l, k + 1) for l, k in zip(L, n)], indexing="ij"), -1).reshape(-1, 3)
    idx = np.arange(len(X)).reshape(nx + 1, ny + 1, nz + 1)
    cells = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                cells.append([idx[i + a, j + b, k + c] for a, b, c in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))])
    r = np.random.default_rng(seed)
    h = np.array(L) / np.array(n)
    d = jig * h * r.uniform(-1, 1, X.shape)
    for a in range(3):
        d[(np.abs(X[:, a]) < 1e-12) | (np.abs(X[:, a] - L[a]) < 1e-12)] *= np.where(np.arange(3) == a, 0., 1.)
    return X + d, np.array(cells)


def tets(n, L, jig=0., seed=0):
    X, H = hexes(n, L, jig, seed)
    out = []
    for h in H:
        for t in ((0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)):
            out.append(h[list(t)])
    return X, np.array(out)


def quads(n, L, o=(0., 0.), jig=0., seed=0):
    nx, ny = n
    X = np.stack(np.meshgrid(*[np.linspace(0, l, k + 1) for l, k in zip(L, n)], indexing="ij"), -1).reshape(-1, 2)
    idx = np.arange(len(X)).reshape(nx + 1, ny + 1)
    cells = np.array([[idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]] for i in range(nx) for j in range(ny)])
    r = np.random.default_rng(seed)
    d = jig * np.array(L) / np.array(n) * r.uniform(-1, 1, X.shape)
    for a in range(2):
        d[(np.abs(X[:, a]) < 1e-12) | (np.abs(X[:, a] - L[a]) < 1e-12)] = 0.
    return X + d + np.array(o), cells


def tris(n, L, o=(0., 0.), jig=0., seed=0):
    X, Q = quads(n, L, o, jig, seed)
    return X, np.concatenate([Q[:, [0, 1, 2]], Q[:, [0, 2, 3]]])


T = lambda A: np.swapaxes(A, -1, -2)
I3 = np.eye(3)


def tr(A):
    return np.trace(A, axis1=-2, axis2=-1)


def dev(A):
    return A - tr(A)[..., None, None] / 3. * I3


# -- adapters ------------------------------------------------------------------------------------

class App:
    """solve(problem, options) is the library's solver; state is a dict of arrays."""

    def __init__(self, lib, cfg):
        self.lib, self.cfg = lib, cfg
        self.solve = lib["solver"].solver
        self.setup()
        self.build()

    def opts(self, guess=None, lin=None):
        o = dict(lin if lin is not None else self.cfg.get("lin") or {"spsolve_solver": {}})
        if guess is not None:
            o["initial_guess"] = guess
        return o

    def mesh(self, pts, cells, et):
        return self.lib["gm"].Mesh(pts, cells, et)

    aside = None

    def interlude(self, put):
        """Put the parameters of another state on the problem, as another history would."""
        if self.aside is not None:
            other, self.aside = self.aside, None
            put(other)

    def admissible(self, state):
        """False: the caller would throw the step away (a turned element)."""
        return True


class FinitePlasticity(App):
    """applications/finite_plasticity/model.py"""
    name = "finite_plasticity"
    K, G, H, S0 = 164.e3, 80.e3, 18., 400.

    def setup(self):
        c = self.cfg
        mk = tets if c["ele"] == "TET4" else hexes
        self.pts, self.cells = mk(c["n"], c["L"], c["jig"], c["seed"])
        self.fem = Fem(self.pts, self.cells, c["ele"], 3)

    def build(self):
        import jax.numpy as jnp
        Base = imported(APPS + "/finite_plasticity/model.py").Plasticity
        top = self.cfg["L"][2]

        def at(z):
            return lambda p: jnp.isclose(p[2], z, atol=1e-8)

        def disp(v):
            return lambda p: v

        class Driven(Base):
            def set_params(self, params):
                iv, vec = params
                self.internal_vars = iv
                for k in range(3):
                    self.fe.dirichlet_bc_info[-1][3 + k] = disp(vec[k])
                self.fe.update_Dirichlet_boundary_conditions(self.fe.dirichlet_bc_info)
        z = lambda p: 0.
        self.problem = Driven(self.mesh(self.pts, self.cells, self.cfg["ele"]), vec=3, dim=3, ele_type=self.cfg["ele"],
                              dirichlet_bc_info=[[at(0.)] * 3 + [at(top)] * 3, [0, 1, 2] * 2, [z] * 6])
        self.iv0 = [np.array(a) for a in self.problem.internal_vars]

    def start(self):
        return {"u": np.zeros((len(self.pts), 3)), "F": self.iv0[0], "be": self.iv0[1], "alpha": self.iv0[2], "load": np.zeros(3)}

    def step(self, s, load):
        iv = [s["F"], s["be"], s["alpha"]]
        p = self.problem
        p.set_params([iv, load["u"]])
        sol = self.solve(p, self.opts([s["u"]]))
        self.interlude(lambda o: p.set_params([[o["F"], o["be"], o["alpha"]], o["load"]]))
        new = p.update_int_vars_gp(sol[0], iv)
        sig = p.compute_stress(sol[0], iv)
        return {"u": np.array(sol[0]), "F": np.array(new[0]), "be": np.array(new[1]), "alpha": np.array(new[2]), "load": np.array(load["u"], float), "_sigma": np.array(sig)}

    def between(self, s, load, t):
        return dict(load, u=[a + t * (b - a) for a, b in zip(s["load"], load["u"])])

    def update(self, u, s):
        F = self.fem.grad(u) + I3
        f = F @ np.linalg.inv(s["F"])
        fb = np.linalg.det(f)[..., None, None]**(-1. / 3.) * f
        bt = fb @ s["be"] @ T(fb)
        st = self.G * dev(bt)
        nrm = np.sqrt((st * st).sum(axis=(-1, -2)))
        y = nrm - np.sqrt(2. / 3.) * (self.S0 + self.H * s["alpha"])
        Ie = tr(bt) / 3.
        Gb = Ie * self.G
        dg = np.where(y > 0, y / (2 * Gb) / (1 + self.H / (3 * Gb)), 0.)
        sN = st - (2 * Gb * dg / np.where(nrm > 0, nrm, 1.))[..., None, None] * st
        alpha = s["alpha"] + np.sqrt(2. / 3.) * dg
        be = np.where((y > 0)[..., None, None], sN / self.G + Ie[..., None, None] * I3, bt)
        J = np.linalg.det(F)
        tau = (.5 * self.K * (J**2 - 1))[..., None, None] * I3 + self.G * dev(be)
        return F, be, alpha, tau, J

    def check(self, ctx, name, s, load, n):
        F, be, alpha, tau, J = self.update(n["u"], s)
        R, A = self.fem.assemble(None, tau @ T(np.linalg.inv(F)))
        Fg, _, _, tg, _ = self.update(s["u"], s)
        Rg, _ = self.fem.assemble(None, tg @ T(np.linalg.inv(Fg)))
        fixed = {}
        z = self.pts[:, 2]
        for a in range(len(z)):
            for k in range(3):
                if abs(z[a]) < 1e-8:
                    fixed[a, k] = 0.
                elif abs(z[a] - self.cfg["L"][2]) < 1e-8:
                    fixed[a, k] = load["u"][k]
        balanced(ctx, name, R, A, n["u"], fixed, (Rg, s["u"]))
        close(ctx, name + " deformation history", "wrong-history", n["F"], F, 1e-10)
        close(ctx, name + " elastic strain history", "wrong-history", n["be"], be, 1e-9)
        close(ctx, name + " hardening history", "wrong-history", n["alpha"], alpha, 1e-8, 1e-10)
        close(ctx, name + " stress", "wrong-stress", n["_sigma"], tau / J[..., None, None], 1e-8, 1e-5)
        sN = self.G * dev(n["be"])
        over = np.sqrt((sN * sN).sum(axis=(-1, -2))) - np.sqrt(2. / 3.) * (self.S0 + self.H * n["alpha"])
        ctx.expect(over.max() < 1e-5, "yield-violated", f"{name}: stored stress exceeds the yield stress by {over.max():.3g}")
        ctx.expect((n["alpha"] - s["alpha"]).min() >= 0., "irreversible", f"{name}: the hardening variable decreased")
        if (n["alpha"] > s["alpha"]).any():
            ctx.probe("plastic_steps")
        else:
            ctx.probe("elastic_steps")


class ThermoPlastic(App):
    """applications/thermal_mechanical/example.py: laser heating, phases, thermo-plasticity"""
    name = "thermal_mechanical"

    def setup(self):
        c = self.cfg
        self.L = [3e-5 * k for k in c["n"]]
        self.pts, self.cells = hexes(c["n"], self.L, c["jig"], c["seed"])
        x, y, z = self.pts.T
        L = self.L
        on = lambda v, t: np.abs(v - t) < 1e-9
        self.top = lambda p, i: on(p[2], L[2])
        self.wall = lambda p, i: on(p[0], 0.) or on(p[0], L[0]) or on(p[1], 0.) or on(p[1], L[1])
        # a face lies on the walls when all its vertices do
        self.femT = Fem(self.pts, self.cells, "HEX8", 1, None, [self.top, self.wall])
        self.femu = Fem(self.pts, self.cells, "HEX8", 3)
        self.bottom = np.flatnonzero(on(z, 0.))

    def build(self):
        import jax.numpy as jnp
        m = self.m = extracted(APPS + "/thermal_mechanical/example.py")
        L = self.L
        m.dt = 2e-6
        at = lambda k, v: (lambda p: jnp.isclose(p[k], v, rtol=0., atol=1e-9))
        top, bottom = at(2, L[2]), at(2, 0.)
        walls = lambda p: at(0, 0.)(p) | at(0, L[0])(p) | at(1, 0.)(p) | at(1, L[1])(p)
        mesh = self.mesh(self.pts, self.cells, "HEX8")
        self.pT = m.Thermal(mesh, vec=1, dim=3, dirichlet_bc_info=[[bottom], [0], [lambda p: m.T0]], location_fns=[top, walls])
        self.pu = m.Plasticity(mesh, vec=3, dim=3, dirichlet_bc_info=[[bottom] * 3, [0, 1, 2], [lambda p: 0.] * 3])
        # the time step of the script is a constant of its module
        m.dt = self.cfg["dt"]
        self.iv0 = [np.array(a) for a in self.pu.internal_vars]

    def start(self):
        n = len(self.pts)
        z = self.m.T0 * np.ones((n, 1))
        return {"T": z, "Tu": z, "u": np.zeros((n, 3)), "sig": self.iv0[0], "eps": self.iv0[1], "dT": self.iv0[2], "phase": self.iv0[3]}

    def step(self, s, load):
        import jax.numpy as jnp
        s = dict(s)
        self.pT.set_params([s["T"], jnp.array(load["c"]), jnp.array(load["on"])])
        Tn = self.solve(self.pT, self.opts())[0]
        out = dict(s, T=np.array(Tn))
        if load["mech"]:
            par = [s["sig"], s["eps"], s["dT"], jnp.array(s["phase"])]
            par = self.pu.update_dT_and_phase(Tn - s["Tu"], Tn, par)
            self.pu.set_params(par)
            u = self.solve(self.pu, self.opts([s["u"]]))
            self.interlude(lambda o: self.pu.set_params([o["sig"], o["eps"], o["dT"], jnp.array(o["phase"])]))
            par, info = self.pu.update_stress_strain(u[0], par)
            out.update(Tu=np.array(Tn), u=np.array(u[0]), sig=np.array(par[0]), eps=np.array(par[1]), dT=np.array(par[2]), phase=np.array(par[3]), _f=np.array(info[0]), _xx=np.array(info[1]))
        return out

    def between(self, s, load, t):
        return None

    def check(self, ctx, name, s, load, n):
        m, f = self.m, self.femT
        To, dt = s["T"], self.cfg["dt"]
        R, A = f.assemble(m.rho * m.Cp * (f.val(n["T"]) - f.val(To)) / dt, m.k * f.grad(n["T"]))
        z = np.zeros_like(To)
        Rz, _ = f.assemble(m.rho * m.Cp * (f.val(z) - f.val(To)) / dt, m.k * f.grad(z))

        def out(T_):
            return m.h * (m.T0 - T_) + m.SB_constant * m.emissivity * (m.T0**4 - T_**4)

        def top(c, N, x):
            t = N @ To[self.cells[c]]
            d2 = (x[:, :1] - load["c"][0])**2 + (x[:, 1:2] - load["c"][1])**2
            return out(t) + 2 * m.eta * m.P / (np.pi * m.rb**2) * np.exp(-2 * d2 / m.rb**2) * load["on"]
        for k, fn in ((0, top), (1, lambda c, N, x: out(N @ To[self.cells[c]]))):
            r, a = f.load(k, fn)
            R, Rz, A = R - r, Rz - r, A + a
        fixed = {(a, 0): m.T0 for a in self.bottom}
        balanced(ctx, name + " temperature", R, A, n["T"], fixed, (Rz, z))
        if not load["mech"]:
            return
        Tq = f.val(n["T"])
        dT = f.val(n["T"] - s["Tu"])
        ph = np.array(s["phase"])
        edge = np.abs(Tq - m.Tl) < 1e-7 * m.Tl
        want = np.where((ph == 0) & (Tq > m.Tl), 1, np.where((ph == 1) & (Tq < m.Tl), 2, ph))
        ctx.expect(((n["phase"] == want) | edge).all(), "wrong-history", f"{name}: phases {np.unique(n['phase'])} after the step, {int(((n['phase'] != want) & ~edge).sum())} points differ from the reference")
        ph = np.array(n["phase"])
        ctx.expect((ph >= s["phase"]).all(), "irreversible", f"{name}: a phase went back")
        close(ctx, name + " temperature increment", "wrong-history", n["dT"], dT, 1e-9, 1e-7)
        g = self.femu

        def stress(u):
            e = g.grad(u)
            e = .5 * (e + T(e))
            solid = (ph[..., 0] == 2)
            E = np.where(solid, 70.e9, .7e9)
            mu, lam = E / 2.6, E * .3 / (1.3 * .4)
            de = e - s["eps"] - (np.where(solid, 1e-5, 0.) * dT[..., 0])[..., None, None] * I3
            st = (lam * tr(de))[..., None, None] * I3 + 2 * mu[..., None, None] * de + s["sig"]
            d = dev(st)
            q = np.sqrt(1.5 * (d * d).sum(axis=(-1, -2)))
            fy = np.maximum(q - 250.e6, 0.)
            return e, st - (fy / np.where(q > 0, q, 1.))[..., None, None] * d, fy
        e, sg, fy = stress(n["u"])
        R, A = g.assemble(None, sg)
        Rg, _ = g.assemble(None, stress(s["u"])[1])
        balanced(ctx, name + " displacement", R, A, n["u"], {(a, k): 0. for a in self.bottom for k in range(3)}, (Rg, s["u"]))
        close(ctx, name + " strain history", "wrong-history", n["eps"], e, 1e-10, 1e-14)
        close(ctx, name + " stress history", "wrong-history", n["sig"], sg, 1e-8, 1.)
        close(ctx, name + " yield excess", "wrong-stress", n["_f"], fy, 1e-6, 10.)
        close(ctx, name + " stress output", "wrong-stress", n["_xx"], sg[..., 0, 0], 1e-8, 1.)
        ctx.probe("melting_steps", int(((s["phase"] == 0) & (ph == 1)).any()))
        ctx.probe("solidifying_steps", int(((s["phase"] == 1) & (ph == 2)).any()))
        ctx.probe("plastic_steps", int((fy > 0).any()))


class PhaseField(App):
    """applications/phase_field_fracture/example.py, staggered scheme"""
    name = "phase_field_fracture"

    def setup(self):
        c = self.cfg
        self.pts, self.cells = quads(c["n"], [1., 1.], (-.5, -.5), c["jig"], c["seed"])
        self.fu = Fem(self.pts, self.cells, "QUAD4", 2)
        self.fd = Fem(self.pts, self.cells, "QUAD4", 1)

    def build(self):
        import jax.numpy as jnp
        m = self.m = extracted(APPS + "/phase_field_fracture/example.py")
        m.l = self.cfg["l"]
        top = lambda p: jnp.isclose(p[1], .5, atol=1e-8)
        bot = lambda p: jnp.isclose(p[1], -.5, atol=1e-8)
        left = lambda p: jnp.logical_and(jnp.isclose(p[0], -.5, atol=1e-8), bot(p))
        self.topf = top
        m.dirichlet_bc_info = [[left, bot, top], [0, 1, 1], [lambda p: 0., lambda p: 0., m.get_dirichlet_load(0.)]]
        mesh = self.mesh(self.pts, self.cells, "QUAD4")
        self.pd = m.PhaseField(mesh, vec=1, dim=2, ele_type="QUAD4")
        self.pu = m.Elasticity(mesh, vec=2, dim=2, ele_type="QUAD4", dirichlet_bc_info=m.dirichlet_bc_info)

    def start(self):
        n, q = len(self.pts), self.fu.W.shape
        return {"u": np.zeros((n, 2)), "d": np.zeros((n, 1)), "H": np.zeros(q), "load": np.zeros(())}

    def step(self, s, load):
        d, H = s["d"], s["H"]
        trace = []
        for _ in range(load["passes"]):
            self.pu.set_params([d, load["u"]])
            u = self.solve(self.pu, self.opts())[0]
            self.interlude(lambda o: (self.pu.set_params([o["d"], o["load"]]), self.pd.set_params(o["H"])))
            Hn = self.pu.compute_history(u, s["H"])
            self.pd.set_params(Hn)
            dn = self.solve(self.pd, self.opts())[0]
            trace.append((np.array(d), np.array(u), np.array(Hn), np.array(dn)))
            d = np.array(dn)
        t = self.pu.compute_traction(self.topf, u, dn)
        return {"u": np.array(u), "d": d, "H": np.array(Hn), "load": np.array(load["u"]), "_trace": trace, "_t": np.array(t)}

    def between(self, s, load, t):
        return dict(load, u=float(s["load"] + t * (load["u"] - s["load"])))

    def parts(self, u):
        m = self.m
        g = self.fu.grad(u)
        e = .5 * (g + T(g))
        w, V = np.linalg.eigh(e)
        t = tr(e)
        psi = m.lmbda / 2 * np.maximum(t, 0)**2 + m.mu * (np.maximum(w, 0)**2).sum(axis=-1)

        def build(tt, ww):
            return m.lmbda * tt[..., None, None] * np.eye(2) + 2 * m.mu * np.einsum("...ik,...k,...jk->...ij", V, ww, V)
        return psi, build(np.maximum(t, 0), np.maximum(w, 0)), build(np.minimum(t, 0), np.minimum(w, 0))

    def check(self, ctx, name, s, load, n):
        m = self.m
        y = self.pts[:, 1]
        x = self.pts[:, 0]
        fixed = {}
        for a in range(len(y)):
            if abs(y[a] + .5) < 1e-8:
                fixed[a, 1] = 0.
                if abs(x[a] + .5) < 1e-8:
                    fixed[a, 0] = 0.
            if abs(y[a] - .5) < 1e-8:
                fixed[a, 1] = load["u"]
        prevH = s["H"]
        for j, (d, u, H, dn) in enumerate(n["_trace"]):
            nm = f"{name} pass {j}"
            psi, sp, sm = self.parts(u)
            g = (1 - self.fd.val(d)[..., 0])**2
            R, A = self.fu.assemble(None, g[..., None, None] * sp + sm)
            # the script perturbs the strain by 1e-8
            balanced(ctx, nm + " displacement", R, A, u, fixed, extra=1e-7 * (m.lmbda + 2 * m.mu))
            close(ctx, nm + " history field", "wrong-history", H, np.maximum(psi, prevH), 1e-9, 1e-14)
            ctx.expect((H >= s["H"]).all(), "irreversible", f"{nm}: the history field decreased")
            dv = self.fd.val(dn)
            R, A = self.fd.assemble(m.G_c / m.l * dv - 2 * (1 - dv) * H[..., None], m.G_c * m.l * self.fd.grad(dn))
            balanced(ctx, nm + " phase field", R, A, dn, {})
        ctx.probe("history_kept", int((n["H"] > psi + 1e-12).any()))
        # traction on the top edge: sum of sigma . e_y over its faces
        u, d = n["u"], n["d"]
        fm = Fem(self.pts, self.cells, "QUAD4", 2, None, [lambda p, i: abs(p[1] - .5) < 1e-8])
        tot = np.zeros(2)
        for c, row, xq in fm._faces[0]:
            N, G, W = row[0]
            g = np.einsum("qnd,nv->qvd", G, u[self.cells[c]])
            e = .5 * (g + T(g))
            w, V = np.linalg.eigh(e)
            t = tr(e)
            dd = (1 - N @ d[self.cells[c]][:, 0])**2
            st = 0.
            for k, op in ((dd, np.maximum), (1., np.minimum)):
                st = st + (k * np.ones(len(W)))[:, None, None] * (m.lmbda * op(t, 0)[:, None, None] * np.eye(2) + 2 * m.mu * np.einsum("qik,qk,qjk->qij", V, op(w, 0), V))
            tot += np.einsum("qi,q->i", st[:, :, 1], W)
        close(ctx, name + " traction", "wrong-stress", n["_t"], tot, 1e-5, 1e-5)


class UpdatedLagrangian(App):
    """applications/updated_lagrangian/example.py"""
    name = "updated_lagrangian"

    def setup(self):
        c = self.cfg
        X, self.cells = hexes(c["n"], [1., .2, .2], c["jig"], c["seed"])
        self.pts = X - np.array([0., .1, .1])
        self.fem = Fem(self.pts, self.cells, "HEX8", 3)
        self.rho = np.random.default_rng(c["seed"]).uniform(.3, 1., len(self.cells))

    def build(self):
        m = self.m = extracted(APPS + "/updated_lagrangian/example.py")
        mesh = self.mesh(self.pts, self.cells, "HEX8")
        tags = m.boundary_node_tags(mesh.points)
        self.problem = m.UpdatedLagrangian(mesh=mesh, vec=3, dim=3, ele_type="HEX8", dirichlet_bc_info=m.build_dirichlet_bc_by_tag(tags), location_fns=None, additional_info=(tags,))
        self.fe = self.problem.fes[0]

    def start(self):
        nc, nq = self.fem.W.shape
        return {"u": np.zeros_like(self.pts), "F": np.broadcast_to(I3, (nc, nq, 3, 3)).copy(), "lam": np.zeros(())}

    def step(self, s, load):
        import jax.numpy as jnp
        x = jnp.asarray(self.pts + s["u"])
        par = {"points": x, "lam": jnp.asarray(load["lam"]), "lam_prev": jnp.asarray(s["lam"]), "F_prev": jnp.asarray(s["F"]), "rho": jnp.asarray(self.rho)}
        self.problem.set_params(par)
        du = self.solve(self.problem, self.opts())[0]
        self.interlude(lambda o: self.problem.set_params(dict(par, points=jnp.asarray(self.pts + o["u"]), F_prev=jnp.asarray(o["F"]))))
        F = self.m.push_F_prev(self.fe, x, du, jnp.asarray(s["F"]))
        return {"u": s["u"] + np.array(du), "F": np.array(F), "lam": np.array(load["lam"], float)}

    def between(self, s, load, t):
        return dict(load, lam=float(s["lam"] + t * (load["lam"] - s["lam"])))

    def admissible(self, n):
        return bool((np.linalg.det(self.fem.grad(n["u"]) + I3) > 1e-6).all())

    def drive(self, ctx, name, steps, per):
        """The application's own time loop, judged step by step."""
        m = self.m
        keep = m.N_STEPS, m.LOAD_SCHEDULE_STEPS
        m.N_STEPS, m.LOAD_SCHEDULE_STEPS = steps, per
        try:
            f = self.lib["solver"].ad_wrapper(self.problem, self.opts(), {"spsolve_solver": {}})
            J, aux = m.end_to_end_ul(self.rho, self.problem, self.fe, f, aut=True)
        finally:
            m.N_STEPS, m.LOAD_SCHEDULE_STEPS = keep
        dus = np.array(aux["delta_us"])
        ctx.expect(len(dus) == steps, "wrong-history", f"{name}: {len(dus)} increments for {steps} load steps")
        s = self.start()
        for k, du in enumerate(dus):
            u = s["u"] + du
            n = {"u": u, "F": self.fem.grad(u) + I3, "lam": np.array((k + 1) / per)}
            if not self.admissible(n):
                return
            self.check(ctx, f"{name} load step {k}", s, {"lam": (k + 1) / per}, n)
            s = n
        close(ctx, name + " objective", "wrong-history", np.array(float(J)), np.array((s["u"]**2).sum()), 1e-12, 1e-9)

    def target(self, lam):
        m, p = self.m, self.pts
        th = lam * np.pi
        return np.stack([np.full(len(p), lam * m.RIGHT_PULL), p[:, 1] * (np.cos(th) - 1) - p[:, 2] * np.sin(th), p[:, 1] * np.sin(th) + p[:, 2] * (np.cos(th) - 1)], 1)

    def check(self, ctx, name, s, load, n):
        m = self.m
        F = self.fem.grad(n["u"]) + I3
        close(ctx, name + " deformation history", "wrong-history", n["F"], F, 1e-9, 1e-9)
        J = np.linalg.det(F)
        tau = m.MU * (F @ T(F) - I3) + m.LAMBDA * np.log(J)[..., None, None] * I3
        tau = tau * (self.rho**m.SIMP_P)[:, None, None, None]
        R, A = self.fem.assemble(None, tau @ T(np.linalg.inv(F)))
        fixed = {}
        t = self.target(load["lam"])
        for a, x in enumerate(self.pts[:, 0]):
            for k in range(3):
                if abs(x) < 1e-8:
                    fixed[a, k] = 0.
                elif abs(x - 1) < 1e-8:
                    fixed[a, k] = t[a, k]
        balanced(ctx, name, R, A, n["u"], fixed)


class CrystalPlasticity(App):
    """applications/crystal_plasticity/models.py"""
    name = "crystal_plasticity"

    def setup(self):
        c = self.cfg
        self.pts, self.cells = hexes(c["n"], c["L"], c["jig"], c["seed"])
        self.fem = Fem(self.pts, self.cells, "HEX8", 3)
        r = np.random.default_rng(c["seed"])
        q = r.standard_normal((3, 4))
        self.quat = q / np.linalg.norm(q, axis=1)[:, None]
        if c["aligned"]:
            self.quat[0] = [1., 0., 0., 0.]
        self.ori = r.integers(0, 3, len(self.cells))
        w, x, y, z = self.quat[self.ori].T
        self.Rm = np.stack([np.stack([w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)], -1),
                            np.stack([2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)], -1),
                            np.stack([2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z], -1)], -2)
        sl = []
        for nrm in ((1, 1, -1), (1, -1, -1), (1, -1, 1), (1, 1, 1)):
            n = np.array(nrm)
            for d in ((0, 1, 1), (0, 1, -1), (1, 0, 1), (1, 0, -1), (1, 1, 0), (1, -1, 0)):
                d = np.array(d)
                if n @ d == 0:
                    sl.append(np.outer(d, n) / np.linalg.norm(d) / np.linalg.norm(n))
        self.systems = np.array(sl)

    def build(self):
        import jax.numpy as jnp
        M = imported(APPS + "/crystal_plasticity/models.py")
        L = self.cfg["L"]
        at = lambda k, v: (lambda p: jnp.isclose(p[k], v, atol=1e-8))
        self.disp = lambda v: (lambda p: v)
        z = lambda p: 0.
        self.info = [[at(2, 0.)] * 3 + [at(2, L[2])] * 3, [0, 1, 2] * 2, [z] * 6]
        self.problem = M.CrystalPlasticity(self.mesh(self.pts, self.cells, "HEX8"), vec=3, dim=3, ele_type="HEX8", dirichlet_bc_info=self.info, additional_info=(self.quat, self.ori))
        self.iv0 = [np.array(a) for a in self.problem.internal_vars]

    def start(self):
        return {"u": np.zeros_like(self.pts), "Fp": self.iv0[0], "g": self.iv0[1], "slip": self.iv0[2], "rot": self.iv0[3], "load": np.zeros(3)}

    def step(self, s, load):
        p = self.problem
        par = [s["Fp"], s["g"], s["slip"], s["rot"]]
        p.dt = load["dt"]
        for k in range(3):
            self.info[-1][3 + k] = self.disp(load["u"][k])
        p.fes[0].update_Dirichlet_boundary_conditions(self.info)
        p.set_params(par)
        sol = self.solve(p, self.opts([s["u"]]))
        self.interlude(lambda o: p.set_params([o["Fp"], o["g"], o["slip"], o["rot"]]))
        sig = p.compute_avg_stress(sol[0], par)
        new = p.update_int_vars_gp(sol[0], par)
        return {"u": np.array(sol[0]), "Fp": np.array(new[0]), "g": np.array(new[1]), "slip": np.array(new[2]), "rot": np.array(new[3]), "load": np.array(load["u"], float), "_sigma": np.array(sig)}

    def between(self, s, load, t):
        return dict(load, u=[float(a + t * (b - a)) for a, b in zip(s["load"], load["u"])], dt=load["dt"] * t)

    def check(self, ctx, name, s, load, n):
        sh = self.fem.W.shape
        rot = np.broadcast_to(self.Rm[:, None], sh + (3, 3))
        close(ctx, name + " orientation", "wrong-history", n["rot"], rot, 1e-12)
        F = self.fem.grad(n["u"]) + I3
        P_ = np.einsum("cij,ajk,clk->cail", self.Rm, self.systems, self.Rm)       # rotated Schmid tensors
        # match the systems of the input file to ours by their tensor
        mine = np.array(self.problem.Schmid_tensors)
        order = [int(np.argmin(np.minimum(np.abs(self.systems - t).sum(axis=(1, 2)), np.abs(self.systems + t).sum(axis=(1, 2))))) for t in mine]
        ctx.expect(sorted(order) == list(range(12)), "wrong-history", f"{name}: the slip systems are not the twelve of an fcc crystal")
        sgn = np.array([np.sign((self.systems[o] * t).sum()) for o, t in zip(order, mine)])
        P_ = P_[:, order] * sgn[None, :, None, None]
        dg = n["slip"] - s["slip"]
        Lp = np.einsum("cqa,caij->cqij", dg, P_)
        close(ctx, name + " plastic deformation", "wrong-history", n["Fp"], s["Fp"] @ (I3 - Lp), 1e-11, 1e-11)
        Fe = F @ n["Fp"]
        E = .5 * (T(Fe) @ Fe - I3)
        El = np.einsum("cji,cqjk,ckl->cqil", self.Rm, E, self.Rm)                # crystal frame
        C11, C12, C44 = 1.684e5, 1.214e5, .754e5
        Sl = 2 * C44 * El
        for i in range(3):
            Sl[..., i, i] = C11 * El[..., i, i] + C12 * (tr(El) - El[..., i, i])
        S = np.einsum("cij,cqjk,clk->cqil", self.Rm, Sl, self.Rm)
        tau = np.einsum("cqij,caij->cqa", S, P_)
        want = .001 * load["dt"] * np.abs(tau / s["g"])**10 * np.sign(tau)
        # the stored slip increment is consistent with the stress it produces
        slack = 10 * 1e-6 * np.abs(want) / np.maximum(np.abs(tau), 1e-3) + 1e-7 * np.abs(want).max() + 1e-15
        bad = np.abs(dg - want) - slack
        ctx.expect(bad.max() <= 0, "wrong-history", f"{name}: slip increments differ from the flow rule by {np.abs(dg - want).max():.4g} of {np.abs(want).max():.4g}")
        r = 1 - s["g"] / 109.8
        gi = 541.5 * np.abs(dg) * np.abs(r)**2.5 * np.sign(r)
        close(ctx, name + " slip resistance", "wrong-history", n["g"], s["g"] + gi.sum(axis=-1, keepdims=True), 1e-11)
        sig = Fe @ S @ T(Fe) / np.linalg.det(Fe)[..., None, None]
        Pk = np.linalg.det(F)[..., None, None] * sig @ T(np.linalg.inv(F))
        R, A = self.fem.assemble(None, Pk)
        fixed = {}
        for a, z in enumerate(self.pts[:, 2]):
            for k in range(3):
                if abs(z) < 1e-8:
                    fixed[a, k] = 0.
                elif abs(z - self.cfg["L"][2]) < 1e-8:
                    fixed[a, k] = load["u"][k]
        balanced(ctx, name, R, A, n["u"], fixed)
        avg = np.einsum("cqij,cq->cij", sig, self.fem.W) / self.fem.W.sum(axis=1)[:, None, None]
        close(ctx, name + " average stress", "wrong-stress", n["_sigma"], avg, 1e-7, 1e-5)
        ctx.probe("slipping_steps", int(np.abs(dg).max() > 1e-6))


class Wave(App):
    """applications/wave/example.py"""
    name = "wave"

    def setup(self):
        c = self.cfg
        mk = tris if c["ele"] == "TRI3" else quads
        self.pts, self.cells = mk(c["n"], [1., 1.], (0., 0.), c["jig"], c["seed"])
        self.fem = Fem(self.pts, self.cells, c["ele"], 1, 2)

    def build(self):
        import jax.numpy as jnp
        m = self.m = extracted(APPS + "/wave/example.py")
        m.dt = self.cfg["dt"]
        at = lambda k, v: (lambda p: jnp.isclose(p[k], v, atol=1e-8))
        self.problem = m.wave(self.mesh(self.pts, self.cells, self.cfg["ele"]), vec=1, dim=2, ele_type=self.cfg["ele"], quadrature_order=2,
                              dirichlet_bc_info=[[at(0, 0.), at(1, 1.)], [0] * 2, [lambda p: 1.] * 2])

    def start(self):
        r = np.random.default_rng(self.cfg["seed"])
        u = r.uniform(-1, 1, (len(self.pts), 1))
        return {"a": u, "b": u + .1 * r.uniform(-1, 1, u.shape)}

    def step(self, s, load):
        self.problem.set_params([s["a"], s["b"]])
        u = self.solve(self.problem, self.opts())[0]
        return {"a": s["b"], "b": np.array(u)}

    def between(self, s, load, t):
        return None

    def check(self, ctx, name, s, load, n):
        m, f = self.m, self.fem
        u = n["b"]
        R, A = f.assemble(f.val(u) - 2 * f.val(s["b"]) + f.val(s["a"]), m.c**2 * m.dt**2 * f.grad(u))
        fixed = {(a, 0): 1. for a, p in enumerate(self.pts) if abs(p[0]) < 1e-8 or abs(p[1] - 1) < 1e-8}
        balanced(ctx, name, R, A, u, fixed)


class ThermoElastic(App):
    """applications/thermal_mechanical_full/example.py"""
    name = "thermal_mechanical_full"

    def setup(self):
        c = self.cfg
        mk = tris if c["ele"] == "TRI3" else quads
        self.pts, self.cells = mk(c["n"], [1., 1.], (0., 0.), c["jig"], c["seed"])
        self.fu = Fem(self.pts, self.cells, c["ele"], 2, 2)
        self.fT = Fem(self.pts, self.cells, c["ele"], 1, 2)

    def build(self):
        import jax.numpy as jnp
        m = self.m = extracted(APPS + "/thermal_mechanical_full/example.py")
        at = lambda k, v: (lambda p: jnp.isclose(p[k], v, atol=1e-8))
        z = lambda p: 0.
        mesh = self.mesh(self.pts, self.cells, self.cfg["ele"])
        e = self.cfg["ele"]
        self.problem = m.thermal_mechanical_full([mesh, mesh], vec=[2, 1], dim=2, ele_type=[e, e], quadrature_order=[2, 2],
                                                 dirichlet_bc_info=[[[at(0, 0.), at(1, 0.)], [0, 1], [z, z]], [[at(0, 1.)], [0], [lambda p: m.theta_hole]]])

    def start(self):
        return {"u": np.zeros((len(self.pts), 2)), "T": np.zeros((len(self.pts), 1))}

    def step(self, s, load):
        self.problem.set_params([s["u"], s["T"], load["dt"]])
        u, t = self.solve(self.problem, self.opts())
        return {"u": np.array(u), "T": np.array(t)}

    def between(self, s, load, t):
        return dict(load, dt=load["dt"] * t)

    def check(self, ctx, name, s, load, n):
        m, fu, fT = self.m, self.fu, self.fT
        g = fu.grad(n["u"])
        e = .5 * (g + T(g))
        th = fT.val(n["T"])
        sig = (m.lmbda * tr(e) - m.kappa * th[..., 0])[..., None, None] * np.eye(2) + 2 * m.mu * e
        R, A = fu.assemble(None, sig)
        x, y = self.pts.T
        fixed = {(a, 0): 0. for a in np.flatnonzero(np.abs(x) < 1e-8)}
        fixed.update({(a, 1): 0. for a in np.flatnonzero(np.abs(y) < 1e-8)})
        dt = load["dt"]
        go = fu.grad(s["u"])
        f0 = m.C / dt * (th - fT.val(s["T"])) + m.kappa * m.T0 / dt * (tr(e) - tr(go))[..., None]
        R2, A2 = fT.assemble(f0, m.k * fT.grad(n["T"]))
        big = .1 * 1e-6 * np.linalg.norm(A)
        balanced(ctx, name + " displacement", R, A, n["u"], fixed, extra=1e-8 * np.linalg.norm(A))
        balanced(ctx, name + " temperature", R2, A2, n["T"], {(a, 0): m.theta_hole for a in np.flatnonzero(np.abs(x - 1) < 1e-8)}, extra=1e-8 * np.linalg.norm(A2))


class Dendrite(App):
    """applications/dendrite/implicit_fem/example.py"""
    name = "dendrite"
    PAR = {"eps_bar": .01, "delta": .05, "J": 6., "alpha": .9, "gamma": 10., "T_eq": 1., "tau": 3e-4, "a": .01, "K": 1.8, "dt": 2e-4}

    def setup(self):
        c = self.cfg
        self.L = [.03 * k for k in c["n"]]
        self.pts, self.cells = quads(c["n"], self.L, (0., 0.), c["jig"], c["seed"])
        self.f = Fem(self.pts, self.cells, "QUAD4", 1)
        self.par = dict(self.PAR, K=c["K"], J=c["J"], delta=c["delta"], dt=c["dt"])

    def build(self):
        m = self.m = extracted(APPS + "/dendrite/implicit_fem/example.py")
        mesh = self.mesh(self.pts, self.cells, "QUAD4")
        self.problem = m.Solidification(mesh=[mesh, mesh], vec=[1, 1], dim=2, ele_type=["QUAD4", "QUAD4"], additional_info=[dict(self.par)])

    def start(self):
        r = np.random.default_rng(self.cfg["seed"])
        p = (np.linalg.norm(self.pts - np.array(self.L) / 2, axis=1) < .4 * min(self.L)).astype(float)[:, None]
        p = p * .95 + .04 * r.uniform(0, 1, p.shape)
        return {"p": p, "T": .1 * r.uniform(0, 1, p.shape)}

    def step(self, s, load):
        import jax.numpy as jnp
        chi = np.random.default_rng(load["noise"]).uniform(-.5, .5, len(self.cells))
        self.problem.set_params([jnp.asarray(s["p"]), jnp.asarray(s["T"]), jnp.asarray(chi)])
        p, t = self.solve(self.problem, self.opts([s["p"], s["T"]]))
        return {"p": np.array(p), "T": np.array(t)}

    def between(self, s, load, t):
        return None

    def check(self, ctx, name, s, load, n):
        f, q = self.f, self.par
        chi = np.random.default_rng(load["noise"]).uniform(-.5, .5, len(self.cells))[:, None]
        go = f.grad(s["p"])[..., 0, :]
        g = f.grad(n["p"])[..., 0, :]
        th = np.where((go == 0).all(axis=-1), 0., np.arctan2(go[..., 1], go[..., 0]))
        a = q["J"] * (th - np.pi / 2)
        ep, de = q["eps_bar"] * (1 + q["delta"] * np.cos(a)), -q["eps_bar"] * q["delta"] * q["J"] * np.sin(a)
        flux = (ep * de)[..., None] * np.stack([-g[..., 1], g[..., 0]], -1) + (ep**2)[..., None] * g
        po, To = f.val(s["p"])[..., 0], f.val(s["T"])[..., 0]
        p, t = f.val(n["p"])[..., 0], f.val(n["T"])[..., 0]
        m = q["alpha"] / np.pi * np.arctan(q["gamma"] * (q["T_eq"] - To))
        f0 = -po * (1 - po) * (po - .5 + m) + q["tau"] * (p - po) / q["dt"] - q["a"] * po * (1 - po) * chi
        # signs: the gradient direction at (numerically) flat points is not defined
        flat = np.linalg.norm(go, axis=-1) < 1e-9
        R, A = f.assemble(f0[..., None], flux[..., None, :])
        ex = np.linalg.norm(f.assemble(None, (flat * np.linalg.norm(g, axis=-1) * .01 * q["eps_bar"])[..., None, None] * np.ones(2))[1])
        balanced(ctx, name + " phase", R, A, n["p"], {}, extra=ex)
        R, A = f.assemble(((t - To) / q["dt"] - q["K"] * (p - po) / q["dt"])[..., None], f.grad(n["T"]))
        balanced(ctx, name + " temperature", R, A, n["T"], {})


class DendriteExplicit(Dendrite):
    """applications/dendrite/explicit_fem/example.py: lumped masses, forward Euler"""
    name = "dendrite_explicit"

    def build(self):
        m = self.m = extracted(APPS + "/dendrite/explicit_fem/example.py")
        mesh, par = self.mesh(self.pts, self.cells, "QUAD4"), dict(self.par)
        self.problems = [k(mesh=[mesh, mesh], vec=[1, 1], dim=2, ele_type=["QUAD4", "QUAD4"], additional_info=[par]) for k in (m.SolidificationMass, m.SolidificationForce)]
        self.euler = None

    def step(self, s, load):
        import jax.numpy as jnp
        if self.euler is None:
            self.euler = self.m.get_explicit_dynamics(*self.problems)
        chi = np.random.default_rng(load["noise"]).uniform(-.5, .5, len(self.cells))
        p, t = self.euler([jnp.asarray(s["p"]), jnp.asarray(s["T"])], jnp.asarray(chi))
        return {"p": np.array(p), "T": np.array(t)}

    def check(self, ctx, name, s, load, n):
        f, q = self.f, self.par
        chi = np.random.default_rng(load["noise"]).uniform(-.5, .5, len(self.cells))[:, None]
        g = f.grad(s["p"])[..., 0, :]
        size = np.linalg.norm(g, axis=-1)
        th = np.where((g == 0).all(axis=-1), 0., np.arctan2(g[..., 1], g[..., 0]))
        a = q["J"] * (th - np.pi / 2)
        ep, de = q["eps_bar"] * (1 + q["delta"] * np.cos(a)), -q["eps_bar"] * q["delta"] * q["J"] * np.sin(a)
        flux = (ep * de)[..., None] * np.stack([-g[..., 1], g[..., 0]], -1) + (ep**2)[..., None] * g
        p, t = f.val(s["p"])[..., 0], f.val(s["T"])[..., 0]
        m = q["alpha"] / np.pi * np.arctan(q["gamma"] * (q["T_eq"] - t))
        react = -p * (1 - p) * (p - .5 + m)
        mass = f.assemble(np.ones_like(p)[..., None])[0]
        Fp = f.assemble((react - q["a"] * p * (1 - p) * chi)[..., None], flux[..., None, :])
        k = q["K"] / q["tau"]
        Ft = f.assemble(k * react[..., None], f.grad(s["T"]) + k * flux[..., None, :])
        flat = f.assemble(None, ((size < 1e-9) * size * .01 * q["eps_bar"])[..., None, None] * np.ones(2))[1]
        for key, (F, A), w in (("p", Fp, q["tau"] / q["dt"]), ("T", Ft, 1. / q["dt"])):
            d = np.abs(n[key].reshape(-1) - (s[key].reshape(-1) - F.reshape(-1) / (w * mass.reshape(-1))))
            ok = (1e-9 * A.reshape(-1) + (k if key == "T" else 1.) * flat.reshape(-1)) / (w * mass.reshape(-1)) + 1e-12
            ctx.expect((d <= ok).all(), "not-equilibrium", f"{name} {key}: {d.max():.3g} from the explicit step")


class ThirdMedium(App):
    """applications/third_medium_contact/example.py"""
    name = "third_medium_contact"
    E, NU, KR = 1., .4, 1e-2

    def setup(self):
        import basix
        import jax
        c = self.cfg
        self.pts, self.cells = quads(c["n"], [1000., 500.], (0., 0.), c["jig"], c["seed"])
        self.fem = Fem(self.pts, self.cells, "QUAD4", 2, 2, rule=basix.QuadratureType.gll)
        nx, ny = c["n"]
        x = self.pts[self.cells].mean(axis=1) / [1000., 500.]
        solid = (x[:, 0] < 1. / nx) | (x[:, 1] < 1. / ny) | (x[:, 1] > 1 - 1. / ny)
        r = np.random.default_rng(c["seed"])
        self.th = np.where(solid, r.choice([1., .7], len(solid)), r.choice([0., .3], len(solid)))
        # the application adds this perturbation to every displacement gradient
        self.noise = np.diag(np.diag(np.array(jax.random.uniform(jax.random.PRNGKey(0), shape=(2, 2), minval=-1e-6, maxval=1e-6))))

    def build(self):
        import jax.numpy as jnp
        m = self.m = extracted(APPS + "/third_medium_contact/example.py")
        z = lambda p: 0.
        left = lambda p: jnp.isclose(p[0], 0., atol=1e-5)
        tip = lambda p: jnp.isclose(p[0], 1000., atol=1e-5) & jnp.isclose(p[1], 500., atol=1e-5)
        self.problem = m.Contact(self.mesh(self.pts, self.cells, "QUAD4"), vec=2, dim=2, ele_type="QUAD4", quadrature_rule="Gauss-Lobatto-Legendre",
                                 quadrature_order=2, dirichlet_bc_info=[[left, left, tip], [0, 1, 1], [z, z, m.get_dirichlet_topright(0.)]])

    def start(self):
        nc, nq = self.fem.W.shape
        return {"u": np.zeros_like(self.pts), "R": np.array(self.rotation(np.zeros_like(self.pts))[1]), "d": np.zeros(())}

    def params(self, s, d):
        return [d, np.repeat(self.th[:, None], self.fem.W.shape[1], axis=1), s["R"]]

    def step(self, s, load):
        p = self.problem
        p.set_params(self.params(s, load["d"]))
        u = self.solve(p, self.opts([s["u"]]))[0]
        self.interlude(lambda o: p.set_params(self.params(o, float(o["d"]))))
        return {"u": np.array(u), "R": np.array(p.post_processing(u)), "d": np.array(load["d"], float)}

    def between(self, s, load, t):
        return dict(load, d=float(s["d"] + t * (load["d"] - s["d"])))

    def rotation(self, u):
        """Rotation angle of the polar decomposition, and its matrix averaged over each cell."""
        F = self.fem.grad(u) + self.noise + np.eye(2)
        a, b = F[..., 1, 0] - F[..., 0, 1], F[..., 0, 0] + F[..., 1, 1]
        R = np.zeros(F.shape[:2] + (3, 3))
        r = np.hypot(a, b)
        R[..., 0, 0] = R[..., 1, 1] = b / r
        R[..., 1, 0], R[..., 0, 1] = a / r, -a / r
        R[..., 2, 2] = 1.
        return F, np.broadcast_to(R.mean(axis=1, keepdims=True), R.shape), a, b

    def stress(self, u, Ro):
        F, _, a, b = self.rotation(u)
        K, G = self.E / 3 / (1 - 2 * self.NU), self.E / 2 / (1 + self.NU)
        J = np.linalg.det(F)[..., None, None]
        Fi = T(np.linalg.inv(F))
        I1 = (F * F).sum(axis=(-1, -2))[..., None, None] + 1
        r2 = a * a + b * b
        dphi = np.stack([np.stack([-a, -b], -1), np.stack([b, -a], -1)], -2) / r2[..., None, None]
        c, s = b / np.sqrt(r2), a / np.sqrt(r2)
        w = -s * (Ro[..., 0, 0] + Ro[..., 1, 1]) + c * (Ro[..., 1, 0] - Ro[..., 0, 1])
        solid = (self.th > .5)[:, None, None, None]
        return np.where(solid, K * np.log(J) * Fi, 0.) + np.where(solid, 1., 1e-6) * G * J**(-2. / 3) * (F - I1 / 3 * Fi) - np.where(solid, 0., self.KR) * w[..., None, None] * dphi

    def admissible(self, n):
        return bool((np.linalg.det(self.rotation(n["u"])[0]) > 1e-6).all())

    def check(self, ctx, name, s, load, n):
        close(ctx, name + " rotation history", "wrong-history", n["R"], self.rotation(n["u"])[1], 1e-8)
        R, A = self.fem.assemble(None, self.stress(n["u"], s["R"]))
        Rg, _ = self.fem.assemble(None, self.stress(s["u"], s["R"]))
        fixed = {(a, k): 0. for a in np.flatnonzero(np.abs(self.pts[:, 0]) < 1e-5) for k in (0, 1)}
        fixed[int(np.flatnonzero((np.abs(self.pts - [1000., 500.]) < 1e-5).all(axis=1))[0]), 1] = -load["d"] * 500.
        balanced(ctx, name, R, A, n["u"], fixed, (Rg, s["u"]), extra=1e-7)


ALL = {a.name: a for a in (ThirdMedium, FinitePlasticity, ThermoPlastic, PhaseField, UpdatedLagrangian, CrystalPlasticity, Wave, ThermoElastic, Dendrite, DendriteExplicit)}
