"""Random boundary-value problems: JSON configuration -> (library Problem, reference problem).

All problems are strictly monotone (positive mass term, monotone nonlinearities), so every
configuration has exactly one solution and Newton with an exact linear solver converges.
"""
import numpy as np

from sim import core, ref

FAMILIES = {2: ["QUAD4", "QUAD8", "TRI3", "TRI6"], 3: ["HEX8", "HEX20", "HEX27", "TET4", "TET10"]}
LINEAR_PAIR = {"QUAD4": "QUAD4", "QUAD8": "QUAD4", "TRI3": "TRI3", "TRI6": "TRI3", "TET4": "TET4",
               "TET10": "TET4", "HEX8": "HEX8", "HEX20": "HEX8", "HEX27": "HEX8"}
# quadrature order that integrates mass of a mixed pair safely
QPAIR = {"QUAD4": 2, "QUAD8": 4, "TRI3": 2, "TRI6": 4, "TET4": 2, "TET10": 4, "HEX8": 2, "HEX20": 4, "HEX27": 4}


# --------------------------------------------------------------------------------------------
# meshes

def mesh(cfg):
    """Returns points0, cells0 (element type ele) and points1, cells1 (ele2, if present), map1."""
    et, n = cfg["ele"], cfg["n"]
    d = len(n)
    L = np.array(cfg.get("len", [1.] * d))
    rng = np.random.default_rng(cfg["mseed"])
    grid = list(np.ndindex(*n))
    simplices = None
    if et.startswith("TRI"):
        simplices = [((0, 0), (1, 0), (1, 1)), ((0, 0), (1, 1), (0, 1))]
    elif et.startswith("TET"):
        import itertools
        simplices = []
        for perm in itertools.permutations(range(3)):
            v = [(0, 0, 0)]
            for a in perm:
                w = list(v[-1])
                w[a] = 1
                v.append(tuple(w))
            m = np.array(v[1:], float) - np.array(v[0], float)
            if np.linalg.det(m) < 0:
                v[1], v[2] = v[2], v[1]
            simplices.append(tuple(v))
    verts = {}   # jiggled grid vertices

    def vert(ij):
        if ij not in verts:
            x = np.array(ij, float) / np.array(n)
            interior = all(0 < i < m for i, m in zip(ij, n))
            r = rng.uniform(-1, 1, d)
            verts[ij] = x + (cfg.get("jig", 0.) * r / np.array(n) if interior else 0.)
        return verts[ij]

    boxes = []
    for c in grid:
        if simplices is None:
            corner = np.array([vert(tuple(np.array(c) + np.array(o, int))) for o in
                               (ref.NODES["QUAD4"] if d == 2 else ref.NODES["HEX8"])])
            boxes.append(corner)
        else:
            for s in simplices:
                boxes.append(np.array([vert(tuple(np.array(c) + np.array(o))) for o in s]))
    order = rng.permutation(len(boxes))

    def number(et_):
        lin = ref.element(LINEAR_PAIR[et_])
        N, _ = lin.tab(np.array(ref.NODES[et_]))
        ids, pts, cells = {}, [], []
        for b in order:
            row = []
            for x in N @ boxes[b]:
                key = tuple(np.round(x * 1e7).astype(int))
                if key not in ids:
                    ids[key] = len(pts)
                    pts.append(x)
                row.append(ids[key])
            cells.append(row)
        return np.array(pts), np.array(cells), ids

    p0, c0, ids0 = number(et)
    p0_raw = p0.copy()
    perm = rng.permutation(len(p0))        # new index of old node
    inv = np.argsort(perm)
    p0, c0 = p0[inv], perm[c0]

    def place(p):
        q = p.copy()
        a = cfg.get("warp", 0.)
        if a:
            bump = a * np.prod(np.sin(np.pi * p), axis=1)
            for k in range(d):
                q[:, k] = p[:, k] + bump * (-1) ** k / max(n)
        return q * L
    out = {"p0": place(p0), "c0": c0}
    if cfg.get("ele2"):
        p1, c1, ids1 = number(cfg["ele2"])
        m = np.zeros(len(p1), int)
        for key, i in ids1.items():
            m[i] = perm[ids0[key]]
        out.update(p1=place(p1), c1=c1, map1=m)
    return out


# --------------------------------------------------------------------------------------------
# weak forms, written once with array methods common to NumPy and JAX

class Forms:
    def __init__(self, cfg):
        self.kind = cfg["kind"]
        self.cf = cfg["coef"]
        self.d = len(cfg["n"])
        self.a = np.array(cfg["coef"]["load"][:self.d])
        self.dir = np.array([1., -.7, .4][:self.d])

    def load(self, x):
        return 1. + (x * self.a).sum(-1)

    def sc_flux(self, g, fld, sc):
        return (fld * sc[..., 0])[..., None, None] * (1. + self.cf["beta"] * (g * g).sum((-1, -2))[..., None, None]) * g

    def limited(self, u):
        """A monotone term defined for u <= w only (NaN beyond), present when the configuration asks for it."""
        b, w = self.cf["lg"]
        return b * (w ** .5 - (w - u) ** .5)

    def sc_body(self, u, x, fld, sc):
        return (self.limited(u) if "lg" in self.cf else 0.) + self.cf["c"] * u - self.cf.get("q2", 0.) * u * u + self.cf["gamma"] * u * u * u - (sc[..., 1] * self.load(x))[..., None]

    def el_flux(self, g, fld, sc):
        e = (g + g.swapaxes(-1, -2)) / 2.
        mu = (fld * sc[..., 0])[..., None, None]
        tr = e.trace(axis1=-2, axis2=-1)[..., None, None]
        return .5 * fld[..., None, None] * tr * np.eye(self.d) + 2. * mu * e \
            + self.cf["beta"] * (e * e).sum((-1, -2))[..., None, None] * e

    def el_body(self, u, x, fld, sc):
        return (self.limited(u) if "lg" in self.cf else 0.) + self.cf["c"] * u \
            + self.cf["gamma"] * (u * u).sum(-1)[..., None] * u \
            - (sc[..., 1] * self.load(x))[..., None] * self.dir

    def cell(self, us, gs, x, iv):
        """[(coef of v, coef of grad v)] per variable"""
        fld, sc = iv
        if self.kind in ("scalar", "periodic"):
            return [(self.sc_body(us[0], x, fld, sc), self.sc_flux(gs[0], fld, sc))]
        if self.kind == "elastic":
            return [(self.el_body(us[0], x, fld, sc), self.el_flux(gs[0], fld, sc))]
        al = self.cf["alpha"]
        p, gp = us[1], gs[1]
        div = gs[0].trace(axis1=-2, axis2=-1)[..., None]
        s = self.el_flux(gs[0], fld, sc) - al * p[..., None] * np.eye(self.d)
        return [(self.el_body(us[0], x, fld, sc), s),
                (self.sc_body(p, x, fld, sc) + al * div, self.sc_flux(gp, fld, sc))]

    def surf_coef(self, x, th):
        """(..., 2): spring, traction"""
        t = th[1] * (1. + (x * self.a).sum(-1))
        return th[0] + 0. * t, t

    def surf(self, us, x, h, t):
        h, t = h[..., None], t[..., None]
        if self.kind in ("scalar", "periodic"):
            return [h * us[0] - t]
        if self.kind == "elastic":
            return [h * us[0] - t * self.dir]
        return [h * us[0] - t * self.dir, .5 * h * us[1] - .3 * t]


# --------------------------------------------------------------------------------------------
# boundary data

def loc_fn(spec, L, xp):
    """Location function; specs are JSON: {"side": [axis, 0/1], "half": [axis, lo/hi] | null, "args": 1|2, "mod": [m, r]}"""
    ax, s = spec["side"]
    v = float(s) * L[ax]
    half = spec.get("half")

    def geo(point):
        c = xp.isclose(point[ax], v, atol=1e-6)
        if half is not None:
            h = point[half[0]] <= .5 * L[half[0]] + 1e-6
            c = c & (h if half[1] == 0 else ~h if xp is not np else not h)
        return c
    if spec.get("args", 1) == 1:
        def f1(point):
            return geo(point)
        return f1
    m, r = spec.get("mod", [1, 0])

    def f2(point, ind):
        return geo(point) & (ind % m == r)
    return f2


def val_fn(spec):
    a = spec["val"]

    def value(point):
        return a[0] + a[1] * point[0] + a[2] * point[1]
    return value


def bc_info(bcs, L, var, xp):
    sel = [b for b in bcs if b["var"] == var]
    return [[loc_fn(b, L, xp) for b in sel], [b["comp"] for b in sel], [val_fn(b) for b in sel]]


def ref_bc(bcs, pts, L, nvar):
    out = []
    for var in range(nvar):
        lst = []
        for b in bcs:
            if b["var"] != var:
                continue
            f, g = loc_fn(b, L, np), val_fn(b)
            two = b.get("args", 1) == 2
            ids = np.array([i for i, p in enumerate(pts[var]) if (f(p, i) if two else f(p))], int)
            lst.append((ids, np.full(len(ids), b["comp"]), np.array([g(pts[var][i]) for i in ids])))
        out.append(lst)
    return out


# --------------------------------------------------------------------------------------------
# random configurations

def gen_config(rng, dims=(2, 3), kinds=("scalar", "elastic", "coupled", "periodic"), small=False,
               eles=None, max_surf=2, limited=0.):
    d = rng.choice(dims)
    kind = rng.choice(kinds)
    pool = [e for e in FAMILIES[d] if eles is None or e in eles]
    et = rng.choice(pool)
    if kind == "periodic":
        et = rng.choice([e for e in (["QUAD4", "QUAD8", "TRI3"] if d == 2 else ["HEX8", "TET4"])
                         if eles is None or e in eles] or ["QUAD4"])
        d = 2 if et in ("QUAD4", "QUAD8", "TRI3") else 3
    simp = et.startswith("T")
    if d == 2:
        n = rng.choice([[5, 5], [3, 8], [7, 3], [4, 6]] if not simp else [[4, 3], [5, 3], [3, 4], [2, 6]])
        if small:
            n = rng.choice([[3, 2], [2, 2], [4, 1]])
    elif et == "HEX27":
        n = [2, 2, 1] if small else rng.choice([[3, 2, 1], [2, 2, 2]])
    elif simp:
        n = [1, 1, 2] if small else rng.choice([[2, 2, 1], [1, 2, 2]])
    else:
        n = [2, 2, 1] if small else rng.choice([[3, 3, 2], [2, 3, 4], [7, 3, 1]] if et == "HEX8" else [[3, 2, 2], [2, 3, 1]])
    L = [rng.choice([1., 2., .7]) for _ in range(d)]
    cfg = {"kind": kind, "ele": et, "n": n, "len": L, "mseed": rng.randrange(10**6),
           "jig": rng.choice([0., .15, .25]), "warp": rng.choice([0., 0., .3]),
           "coef": {"c": rng.choice([.5, 1., 3.]), "gamma": rng.choice([0., .5, 4.]),
                    "beta": rng.choice([0., .3, 2.]), "alpha": rng.choice([.3, 1.]),
                    "load": [round(rng.uniform(-1, 1), 3) for _ in range(3)]},
           "impl": rng.choice(["maps", "universal"])}
    vecs = [1] if kind in ("scalar", "periodic") else [d] if kind == "elastic" else [d, 1]
    if kind == "coupled":
        cfg["impl"] = "universal"
        cfg["ele2"] = rng.choice([et, LINEAR_PAIR[et]])
        cfg["qorder"] = QPAIR[et]
    elif et == "HEX27":
        cfg["qorder"] = 4
    else:
        cfg["qorder"] = rng.choice([None, None, None, QPAIR[et]])
    cfg["vecs"] = vecs
    cfg["bcs"] = gen_bcs(rng, cfg)
    sides = [[a, s] for a in range(d) for s in (0, 1)]
    if kind == "periodic":
        sides = [s for s in sides if s[0] != 0]
    rng.shuffle(sides)
    cfg["surfs"] = [{"side": s, "args": 1} for s in sides[:rng.choice(range(max_surf + 1))]]
    if limited and rng.random() < limited:
        cfg["coef"]["lg"] = [rng.choice([.5, 2.]), rng.choice([2., 4.])]
    return cfg


KINDS = ("scalar", "elastic", "coupled", "periodic")


def deck(pid, seed, index, tier, small=0., kinds=KINDS, quick=8, thorough=96, **kw):
    """A structural configuration shared by many runs; the kinds of weak form and the dimensions are
    spread evenly over the deck."""
    def make(r, j):
        q = j + seed
        return gen_config(r, dims=(2 + (q // len(kinds) + q) % 2,), kinds=(kinds[q % len(kinds)],), small=r.random() < small, **kw)
    return core.deck(pid, seed, index, quick if tier == "quick" else thorough, make)


def gen_bcs(rng, cfg, lo=0):
    d = len(cfg["n"])
    out = []
    for _ in range(rng.choice([lo, 1, 2, 2, 3]) if lo == 0 else rng.choice([1, 2, 2, 3])):
        var = rng.randrange(len(cfg["vecs"]))
        ax = rng.randrange(d)
        if cfg["kind"] == "periodic":
            ax = rng.randrange(1, d)
        b = {"var": var, "comp": rng.randrange(cfg["vecs"][var]), "side": [ax, rng.randrange(2)],
             "val": [round(rng.uniform(-.5, .5), 3), round(rng.uniform(-.3, .3), 3), round(rng.uniform(-.3, .3), 3)],
             "args": rng.choice([1, 1, 2])}
        if cfg["kind"] == "periodic":
            b["val"][1] = 0.
            b["args"] = 1
        else:
            if rng.random() < .3:
                b["half"] = [(ax + 1) % d, rng.randrange(2)]
            if b["args"] == 2:
                b["mod"] = rng.choice([[1, 0], [2, 0], [2, 1], [3, 1]])
        out.append(b)
    return out


def gen_theta(rng, cfg, keys, scale=1.):
    """JSON description of a parameter value."""
    t = {}
    if "field" in keys:
        t["field"] = rng.randrange(10**6)
    if "sc" in keys:
        t["sc"] = [round(rng.uniform(.5, 2.), 3), round(rng.uniform(-2., 2.) * scale, 3)]
    if "surf" in keys:
        t["surf"] = [[round(rng.uniform(0., 2.), 3), round(rng.uniform(-1., 1.) * scale, 3)] for _ in cfg["surfs"]]
    if "bc" in keys:
        t["bc"] = [round(rng.uniform(-1.5, 1.5) * scale, 3), rng.randrange(10**6)]
    if "pts" in keys:
        t["pts"] = [round(rng.uniform(-.15, .15), 3), rng.randrange(10**6)]
    return t


ALL_KEYS = ("field", "sc", "surf", "bc", "pts")


def gen_keys(rng, cfg):
    ks = [k for k in ALL_KEYS if rng.random() < .6]
    if not cfg["surfs"] and "surf" in ks:
        ks.remove("surf")
    if not cfg["bcs"] and "bc" in ks:
        ks.remove("bc")
    return ks or ["sc"]


class Model:
    """Reference side of one configuration, and the factory of library problems for it."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.m = mesh(cfg)
        self.forms = Forms(cfg)
        self.nvar = len(cfg["vecs"])
        self.L = cfg["len"]
        self.pts0 = [self.m["p0"]] + ([self.m["p1"]] if self.nvar == 2 else [])
        self.cells = [self.m["c0"]] + ([self.m["c1"]] if self.nvar == 2 else [])
        self.eles = [cfg["ele"]] + ([cfg["ele2"]] if self.nvar == 2 else [])
        disc = ref.Discretisation(self.pts0, self.cells, self.eles, cfg["vecs"], cfg.get("qorder"),
                                  [self._np_loc(s) for s in cfg["surfs"]])
        self.P = self._periodic() if cfg["kind"] == "periodic" else None
        self.ref = ref.RefProblem(disc, self.forms.cell,
                                  [self._ref_surf for _ in cfg["surfs"]], self.P)
        self.nq = len(disc.quad[0][1])
        self.nc = len(self.cells[0])
        self.theta0 = self.theta({})
        self.bc0 = cfg["bcs"]

    def _np_loc(self, s):
        f = loc_fn(s, self.L, np)
        return f if s.get("args", 1) == 2 else (lambda p, i: f(p))

    def _ref_surf(self, us, x, th):
        h, t = self.forms.surf_coef(x, th)
        return self.forms.surf(us, x, h, t)

    def _periodic(self):
        p = self.pts0[0]
        Lx = self.L[0]
        left = {tuple(np.round(q[1:] * 1e6).astype(int)): i for i, q in enumerate(p) if abs(q[0]) < 1e-9}
        N = len(p)
        master = np.arange(N)
        for i, q in enumerate(p):
            if abs(q[0] - Lx) < 1e-9:
                master[i] = left[tuple(np.round(q[1:] * 1e6).astype(int))]
        keep = np.unique(master)
        col = {k: j for j, k in enumerate(keep)}
        P = np.zeros((N, len(keep)))
        for i in range(N):
            P[i, col[master[i]]] = 1.
        return P

    # -- parameters ----------------------------------------------------------------------------
    def theta(self, t):
        """Concrete parameter pytree (NumPy) for a JSON description; missing keys -> default."""
        out = {}
        d = len(self.cfg["n"])
        if "field" in t:
            out["field"] = np.random.default_rng(t["field"]).uniform(.5, 2., (self.nc, self.nq))
        else:
            out["field"] = np.ones((self.nc, self.nq))
        out["sc"] = np.array(t.get("sc", [1., 1.]), float)
        out["surf"] = np.array(t.get("surf", [[.5, .4]] * len(self.cfg["surfs"])), float).reshape(-1, 2)
        p = self.pts0[0]
        if "pts" in t:
            a, s = t["pts"]
            r = np.random.default_rng(s).uniform(-1, 1, (d, 3))
            q = p / np.array(self.L)
            w = np.stack([r[k, 0] * q[:, k] + r[k, 1] * np.sin(np.pi * q[:, (k + 1) % d]) / max(self.cfg["n"])
                          + r[k, 2] * q[:, k] * q[:, (k + 1) % d] * .5 for k in range(d)], 1)
            if self.P is not None:
                w = np.stack([r[k, 0] * q[:, k] for k in range(d)], 1)
            p = p + a * w * np.array(self.L)
        out["pts"] = p
        out["bc"] = None
        if "bc" in t:
            out["bc"] = t["bc"]      # resolved against the current Dirichlet sets
        return out

    def bc_vals(self, bc, t):
        """Apply the 'bc' parameter: scale the values of the current Dirichlet sets, add noise."""
        a, s = t
        r = np.random.default_rng(s)
        out = []
        for lst in bc:
            row = []
            for ni, vi, vals in lst:
                noise = 0. if self.P is not None else .2 * r.uniform(-1, 1, len(vals))
                row.append(a * (vals + noise))
            out.append(row)
        return out

    def lib_params(self, t, keys, bc=None):
        """The pytree handed to the library (only the keys)."""
        import jax.numpy as jnp
        th = self.theta(t)
        out = {}
        for k in keys:
            if k == "bc":
                vals = self.bc_vals(bc if bc is not None else self.ref_bcs(self.bc0), t["bc"])
                out[k] = [[jnp.asarray(v) for v in row] for row in vals]
            else:
                out[k] = jnp.asarray(th[k])
        return out

    def ref_bcs(self, bcs):
        return ref_bc(bcs, self.pts0, self.L, self.nvar)

    def state(self, t, bc, over=None):
        """Reference state for parameter description t and Dirichlet sets bc (lists of triples).
        `over` replaces individual arrays (used for complex-step directions)."""
        th = self.theta(t)
        if over:
            th.update({k: v for k, v in over.items() if k != "bc"})
        bb = bc
        if over and "bc" in over:
            bb = [[(ni, vi, v) for (ni, vi, _), v in zip(lst, row)] for lst, row in zip(bc, over["bc"])]
        elif t.get("bc") is not None:
            bb = [[(ni, vi, v) for (ni, vi, _), v in zip(lst, row)] for lst, row in zip(bc, self.bc_vals(bc, t["bc"]))]
        pts = [th["pts"]] + ([th["pts"][self.m["map1"]]] if self.nvar == 2 else [])
        sc = np.broadcast_to(th["sc"], (self.nc, self.nq, 2))
        return {"pts": pts, "iv": [th["field"], sc], "sv": list(th["surf"]), "bc": bb}

    def directions(self, t, keys, bc, seed):
        """One random direction per key: (name, pytree of the direction, complex state)."""
        r = np.random.default_rng(seed)
        th = self.theta(t)
        out = []
        for k in keys:
            if k == "bc":
                base = self.bc_vals(bc, t["bc"])
                dv = [[r.standard_normal(len(v)) for v in row] for row in base]
                over = {"bc": [[v + 1j * ref.H * e for v, e in zip(row, dr)] for row, dr in zip(base, dv)]}
            else:
                dv = r.standard_normal(th[k].shape)
                over = {k: th[k] + 1j * ref.H * dv}
            out.append((k, dv, self.state(t, bc, over)))
        return out

    # -- library -------------------------------------------------------------------------------
    def problem(self, lib, bcs=None, meshes=None):
        cls = problem_class(lib, self)
        bcs = self.bc0 if bcs is None else bcs
        cfg = self.cfg
        import jax.numpy as jnp
        Mesh = lib["gm"].Mesh
        meshes = meshes or [Mesh(p, c, e) for p, c, e in zip(self.pts0, self.cells, self.eles)]
        infos = [bc_info(bcs, self.L, v, jnp) for v in range(self.nvar)]
        surfs = [loc_fn(s, self.L, jnp) for s in cfg["surfs"]] or None
        d = len(cfg["n"])
        kw = {}
        if self.nvar == 1:
            p = cls(meshes[0], cfg["vecs"][0], d, ele_type=self.eles[0], quadrature_order=cfg.get("qorder"),
                    dirichlet_bc_info=infos[0], location_fns=surfs)
        else:
            qo = cfg.get("qorder")
            p = cls(meshes, cfg["vecs"], d, ele_type=self.eles, quadrature_order=[qo, qo],
                    dirichlet_bc_info=infos, location_fns=surfs)
        if self.P is not None:
            import scipy.sparse
            p.P_mat = scipy.sparse.csr_array(self.P)
        return p

    def read_bc(self, problem):
        """The Dirichlet data the library currently holds (concrete)."""
        return [[(np.asarray(a), np.asarray(b), np.asarray(c)) for a, b, c in
                 zip(fe.node_inds_list, fe.vec_inds_list, fe.vals_list)] for fe in problem.fes]


def problem_class(lib, model):
    import jax
    import jax.numpy as jnp
    Problem = lib["problem"].Problem
    forms, cfg = model.forms, model.cfg
    default = {k: (jnp.asarray(v) if v is not None else None) for k, v in model.theta0.items()}
    map1 = model.m.get("map1")

    class ZooProblem(Problem):
        def custom_init(self):
            self.now = dict(default)
            self._install(False)

        def _install(self, geometry):
            th = self.now
            if geometry:
                pts = th["pts"]
                self.initialize_geometric_quantities([pts] if map1 is None else [pts, pts[map1]])
            C, Q = self.fes[0].num_cells, self.fes[0].num_quads
            self.internal_vars = [th["field"], jnp.broadcast_to(th["sc"], (C, Q, 2))]
            sv = []
            for k in range(len(self.boundary_inds_list)):
                x = self.physical_surface_quad_points[k]
                h, t = forms.surf_coef(x, th["surf"][k])
                sv.append([jnp.stack([h, t], -1)])
            self.internal_vars_surfaces = sv

        def set_params(self, params):
            self.now = dict(self.now, **{k: v for k, v in params.items() if k != "bc"})
            self._install("pts" in params)
            if "bc" in params:
                for fe, row in zip(self.fes, params["bc"]):
                    fe.vals_list = list(row)

        def _us(self, sol_list, vals):
            return [jnp.einsum("qn,nv->qv", N, s) for N, s in zip(vals, sol_list)]

    def universal_cell(self):
        def kernel(flat, x, grads, JxW, vgJ, fld, sc):
            sols = self.unflatten_fn_dof(flat)
            cs = self.num_nodes_cumsum
            us = self._us(sols, [fe.shape_vals for fe in self.fes])
            gs = [jnp.einsum("qnd,nv->qvd", grads[:, cs[i]:cs[i + 1]], s) for i, s in enumerate(sols)]
            out = []
            for i, (f0, f1) in enumerate(forms.cell(us, gs, x, [fld, sc])):
                r = jnp.einsum("qn,qv,q->nv", self.fes[i].shape_vals, f0, JxW[i])
                r = r + jnp.sum(f1[:, None, :, :] * vgJ[:, cs[i]:cs[i + 1]], axis=(0, -1))
                out.append(r)
            return jax.flatten_util.ravel_pytree(out)[0]
        return kernel

    def universal_surface(self):
        def kernel(flat, x, fvals, fgrads, scale, s):
            sols = self.unflatten_fn_dof(flat)
            cs = self.num_nodes_cumsum
            N = [fvals[:, cs[i]:cs[i + 1]] for i in range(len(sols))]
            us = self._us(sols, N)
            fs = forms.surf(us, x, s[..., 0], s[..., 1])
            out = [jnp.einsum("qn,qv,q->nv", N[i], f, scale[i]) for i, f in enumerate(fs)]
            return jax.flatten_util.ravel_pytree(out)[0]
        return [kernel for _ in cfg["surfs"]]

    if cfg["impl"] == "universal":
        ZooProblem.get_universal_kernel = universal_cell
        if cfg["surfs"]:
            ZooProblem.get_universal_kernels_surface = universal_surface
    else:
        scalar = cfg["kind"] in ("scalar", "periodic")
        flux = forms.sc_flux if scalar else forms.el_flux
        body = forms.sc_body if scalar else forms.el_body
        ZooProblem.get_tensor_map = lambda self: (lambda g, fld, sc: flux(g, fld, sc))
        ZooProblem.get_mass_map = lambda self: (lambda u, x, fld, sc: body(u, x, fld, sc))
        if cfg["surfs"]:
            def surface_maps(self):
                return [lambda u, x, s: forms.surf([u], x, s[..., 0], s[..., 1])[0] for _ in cfg["surfs"]]
            ZooProblem.get_surface_maps = surface_maps
    return ZooProblem
