"""C12: the distributed Poisson solvers give the serial solution on any partition and never hang."""
import io
import os
import re
import shutil
import sys

import numpy as np

from sim import core, env, mpi, ref
from sim.core import Violation

lib = None
M = {}


def setup(job):
    global lib
    lib = env.import_library()
    saved = {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI", "petsc4py", "petsc4py.PETSc")}
    sys.modules.update(mpi.modules())
    try:
        import importlib
        for n in ("example", "poisson_gold", "poisson_mpi"):
            M[n] = importlib.import_module("applications.parallel." + n)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    from sim import monitor
    monitor.instrument([core.REPO.rstrip("/") + "/"])


def partition(rng, nx, ny, n):
    cells = [(i, j, t) for i in range(nx) for j in range(ny) for t in range(2)]
    kind = rng.choice(["strips", "random", "blob", "island", "single"])
    N = len(cells)
    if kind == "strips":
        part = [k * n // N for k in range(N)]
    elif kind == "random":
        part = [rng.randrange(n) for _ in range(N)]
    elif kind == "blob":
        seeds = [(rng.uniform(0, nx), rng.uniform(0, ny)) for _ in range(n)]
        part = [min(range(n), key=lambda r: (i - seeds[r][0])**2 + (j - seeds[r][1])**2) for i, j, t in cells]
    elif kind == "island":
        part = [1 % n if 0 < i < nx - 1 and 0 < j < ny - 1 else (0 if n < 3 else (2 + k % (n - 2) if k % (n - 1) else 0)) for k, (i, j, t) in enumerate(cells)]
    else:
        part = [0] * N
        for r, k in zip(range(1, n), rng.sample(range(N), n - 1)):
            part[k] = r
    for r in range(n):                       # every rank holds at least one cell
        if r not in part:
            c = [k for k in range(N) if part.count(part[k]) > 1]
            part[rng.choice(c)] = r
    return kind, part


def generate(rng, index, tier, seed):
    app = rng.choice(["poisson_mpi", "poisson_mpi", "example"])

    def make(r, j):
        nx, ny = r.choice([2, 3, 4, 5]), r.choice([2, 3, 4])
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        n = min(n, nx * ny)
        kind, part = partition(r, nx, ny, n)
        return {"nx": nx, "ny": ny, "ranks": n, "kind": kind, "part": part, "owner": r.choice(["low", "high", "random", "random"]), "pseed": r.randrange(10**6),
                "jig": r.choice([0., .2]), "mseed": r.randrange(100)}
    o = []
    for k in range(rng.choice([1, 2, 3])):
        j = rng.randrange(10**6)
        cfg = core.deck("C12", seed, j, 16 if tier == "quick" else 200, make) if app == "poisson_mpi" else make(rng, 0)
        o.append({"op": app, "sched": rng.randrange(10**6), "policy": {"kind": rng.choice(["random", "run", "slow", "order"]), "rank": rng.randrange(8)},
                  "ksp": [[rng.randrange(3) if app == "poisson_mpi" else 0]] if rng.random() < .15 else [],
                  "skew": rng.random() < .5, **cfg})
    return {"config": {}, "ops": o}


def mesh(op):
    """The simulated input mesh: structured triangles, interior vertices moved."""
    nx, ny = op["nx"], op["ny"]
    x = np.array([[i / nx, j / ny] for i in range(nx + 1) for j in range(ny + 1)])
    c = []
    for i in range(nx):
        for j in range(ny):
            v = i * (ny + 1) + j
            c += [[v, v + ny + 1, v + ny + 2], [v, v + ny + 2, v + 1]]
    r = np.random.default_rng(op["mseed"])
    inner = (x[:, 0] > 1e-9) & (x[:, 0] < 1 - 1e-9) & (x[:, 1] > 1e-9) & (x[:, 1] < 1 - 1e-9)
    x[inner] += op["jig"] * r.uniform(-1, 1, (inner.sum(), 2)) / max(nx, ny)
    return x, np.array(c, dtype=np.int32)


def own_mesh(op, x, c):
    """The solver's own mesh of the unit square must be a triangulation of the grid."""
    name = f"{op['op']}: its {op['nx']}x{op['ny']} mesh"
    want = mesh(dict(op, jig=0.))
    x, c = np.asarray(x, float), np.asarray(c)
    if x.shape != want[0].shape or not np.allclose(x[np.lexsort(np.rint(x * 1e6).T)], want[0][np.lexsort(np.rint(want[0] * 1e6).T)], atol=1e-9):
        raise Violation("wrong-mesh", f"{name} has other vertices than the grid")
    if c.shape != want[1].shape or c.min() < 0 or c.max() >= len(x):
        raise Violation("wrong-mesh", f"{name} has wrong cells")
    e1, e2 = x[c[:, 1]] - x[c[:, 0]], x[c[:, 2]] - x[c[:, 0]]
    area = .5 * (e1[:, 0] * e2[:, 1] - e1[:, 1] * e2[:, 0])
    edges = np.sort(np.concatenate([c[:, [0, 1]], c[:, [1, 2]], c[:, [2, 0]]]), axis=1)
    n = np.unique(edges, axis=0, return_counts=True)[1]
    if not np.allclose(np.abs(area), .5 / op["nx"] / op["ny"]) or n.max() > 2 or (n == 1).sum() != 2 * (op["nx"] + op["ny"]):
        raise Violation("wrong-mesh", f"{name} is not a conforming triangulation")


def u_ex(x):
    return np.sin(np.pi * x[..., 0]) * np.sin(np.pi * x[..., 1])


def cell_form(us, gs, x, iv):
    u = u_ex(x)
    f = 2 * np.pi**2 * u + u**3
    return [(us[0]**3 - f[..., None], gs[0])]


def reference(x, c):
    d = ref.Discretisation([x], [c], ["TRI3"], [1], None, [])
    P = ref.RefProblem(d, cell_form)
    b = np.where((np.abs(x) < 1e-9).any(axis=1) | (np.abs(x - 1) < 1e-9).any(axis=1))[0]
    return P, {"pts": [x], "iv": [], "sv": [], "bc": [[(b, np.zeros_like(b), np.zeros(len(b)))]]}, b


def run_app(op, ctx, root):
    name = op["op"]
    m = M[name]
    x, c = mesh(op)
    W = mpi.World(op["ranks"], op["sched"], op["policy"], op["ksp"],
                  [(-1)**r * 10. * r for r in range(op["ranks"])] if op["skew"] else ())
    mpi.DMPlex.plan = {"part": op["part"], "owner": op["owner"], "seed": op["pseed"]}
    saved = {k: getattr(m, k, None) for k in ("GRID_NX", "GRID_NY", "unit_square_triangle_mesh", "print", "__file__")}

    def prt(*a, **k):
        k.pop("flush", None)
        s = io.StringIO()
        print(*a, file=s, **k)
        W.out[mpi.me()].append(s.getvalue())
    given = []

    def build(nx, ny, *a, **k):
        if op["jig"] == 0.:         # its own mesh, of the simulated size
            q, t = saved["unit_square_triangle_mesh"](op["nx"], op["ny"], *a, **k)
            given.append((np.array(q, float), np.array(t)))
            return q, t
        return np.array(x), np.array(c)
    m.unit_square_triangle_mesh = build
    m.print = prt
    m.GRID_NX, m.GRID_NY = op["nx"], op["ny"]
    m.__file__ = os.path.join(root, name + ".py")
    try:
        W.run(lambda r: m.main())
    finally:
        for k, v in saved.items():
            if v is None:
                delattr(m, k)
            else:
                setattr(m, k, v)
    for q, t in given:
        own_mesh(op, q, t)
        if not (np.array_equal(q, given[0][0]) and np.array_equal(t, given[0][1])):
            raise Violation("wrong-mesh", f"{name}: the ranks build different meshes")
        x, c = given[0]
    return W, x, c


def execute(plan, ctx):
    root = env.scratch("tmp", "c12")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        for k, op in enumerate(plan["ops"]):
            one(ctx, k, op, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def one(ctx, k, op, root):
    from sim import monitor, ops
    name = f"op {k} {op['op']} on {op['ranks']} ranks ({op['nx']}x{op['ny']} grid, {op['kind']} partition)"
    ctl = monitor.OpCtl(budget=5_000_000)
    with monitor.controlled(ctl):
        W, x, c = run_app(op, ctx, root)
    ctx.steps += ctl.steps
    for f in W.fired:
        ctx.fault(f)
    if op["policy"]["kind"] == "slow":
        ctx.fault("slow_rank")
    if op["skew"]:
        ctx.fault("clock_skew_between_ranks")
    if W.problem:
        raise Violation(W.problem[0], f"{name}: {W.problem[1]}")
    m = W.mesh
    g = np.empty(len(x), dtype=int)          # global dof of each vertex
    for v, q in m["gnum"].items():
        g[v] = q
    P, st, bnd = reference(x, c)
    failed = "ksp_diverges" in W.fired
    empty = [r for r in range(op["ranks"]) if m["lay"].range(r)[0] == m["lay"].range(r)[1]]
    exc = [e for e in W.exc if e is not None]
    out0 = "".join(W.out[0])
    if exc:
        ctx.expect(failed, "unexpected-exception", f"{name}: {ops.describe(exc[0])}")
        ctx.expect(len(exc) == op["ranks"], "partial-failure", f"{name}: the failed solve ended only {len(exc)} ranks")
        ctx.log(op["op"], "raised", type(exc[0]).__name__)
    elif failed:
        ctx.expect("diverge" in out0 or "not converge" in out0, "failure-not-reported", f"{name}: a diverged linear solve was not reported")
        ctx.log(op["op"], "reported")
    else:
        rms = re.findall(r"(?:RMS vs exact \(owned verts\)|Root-mean-square vertex error vs exact u): *(\S+)", out0)
        ctx.expect(len(rms) == 1, "no-result", f"{name}: rank 0 printed {len(rms)} error norms")
        ctx.expect(not any("RMS" in t or "Root-mean" in t for o in W.out[1:] for t in o), "no-result", f"{name}: several ranks print the result")
        N = len(x)
        if op["op"] == "poisson_mpi":
            U = np.zeros(N)
            for i, (A, b, y, _) in enumerate(W.ksp_log):
                R, J = P.full(U, st, jac=True)
                R[bnd] = 0.
                eA, eb = np.abs(A[np.ix_(g, g)] - J).max(), np.abs(-b[g] - R).max()
                ctx.expect(eA <= 1e-9 * np.abs(J).max(), "wrong-system", f"{name}: matrix of Newton step {i} is off by {eA:.3g}")
                ctx.expect(eb <= 1e-9 * (1 + np.abs(U).max()), "wrong-system", f"{name}: right-hand side of Newton step {i} is off by {eb:.3g}")
                U = U + y[g]
            R = P.full(U, st)[0]
            R0 = P.full(np.zeros(N), st)[0]
            ctx.expect(np.linalg.norm(R) <= max(1e-10, 1e-10 * np.linalg.norm(R0)) * 1.01 + 1e-13, "not-equilibrium", f"{name}: final residual {np.linalg.norm(R):.3g}")
        else:
            A, b, y, _ = W.ksp_log[-1]
            K = np.zeros((N, N))
            F = np.zeros(N)
            for t in c:
                X = x[t]
                T = np.array([X[1] - X[0], X[2] - X[0]])
                area = .5 * abs(np.linalg.det(T))
                G = np.array([[-1., -1.], [1., 0.], [0., 1.]]) @ np.linalg.inv(T).T
                K[np.ix_(t, t)] += area * G @ G.T
                F[t] += area / 3. * 2 * np.pi**2 * u_ex(X.mean(axis=0))
            K[bnd] = 0.
            K[bnd, bnd] = 1.
            F[bnd] = 0.
            eA, eb = np.abs(A[np.ix_(g, g)] - K).max(), np.abs(b[g] - F).max()
            ctx.expect(eA <= 1e-9 * np.abs(K).max(), "wrong-system", f"{name}: matrix is off by {eA:.3g}")
            ctx.expect(eb <= 1e-9, "wrong-system", f"{name}: right-hand side is off by {eb:.3g}")
            U = y[g]
            vtu(ctx, name, op, root, x, c, U, m)
        want = np.sqrt(np.mean((U - u_ex(x))**2))
        ctx.expect(abs(float(rms[0]) - want) <= 6e-3 * want + 1e-12, "wrong-error-norm", f"{name}: printed error {rms[0]}, the solution has {want:.4e}")
        ctx.log(op["op"], "ok", len(W.ksp_log), core.rnd(want, 6))
        ctx.probe("solved")
    no_bnd = [r for r in range(op["ranks"]) if not any(m["own"][v] == r for v in bnd)]
    if op["ranks"] > 1:
        ctx.nontrivial = True
    ctx.probe("ranks", op["ranks"])
    ctx.probe("context_switches", W.switches)
    if empty:
        ctx.probe("rank_owning_no_dof")
    if no_bnd:
        ctx.probe("rank_owning_no_boundary_dof")
    ctx.log("schedule", core.short(W.trace))
    ctx.state_keys.add(f"{op['op']}/{op['ranks']}/{op['kind']}/{op['owner']}/{op['policy']['kind']}/{len(empty)}/{len(no_bnd)}/{failed}")


def vtu(ctx, name, op, root, x, c, U, m):
    import meshio
    f = os.path.join(root, "output", "vtk", "u.vtu")
    ctx.expect(os.path.exists(f), "no-result", f"{name}: no VTU file was written")
    v = meshio.read(f)
    os.remove(f)
    ctx.expect(np.allclose(v.points[:, :2], x, atol=1e-12) and np.array_equal(v.cells_dict.get("triangle"), c), "wrong-content", f"{name}: mesh of the VTU file")
    d = {k: np.asarray(a).reshape(-1) for k, a in v.point_data.items()}
    for key in ("u", "u_exact", "u_error", "owner_rank"):
        ctx.expect(key in d and len(d[key]) == len(x), "wrong-content", f"{name}: the VTU file has no field {key} over its points")
    ctx.expect("partition" in v.cell_data, "wrong-content", f"{name}: the VTU file has no cell field partition")
    for key, want in (("u", U), ("u_exact", u_ex(x)), ("u_error", U - u_ex(x))):
        e = np.abs(d[key] - want).max()
        ctx.expect(e <= 2e-6, "wrong-content", f"{name}: field {key} of the VTU file is off by {e:.3g}")
    ctx.expect(np.array_equal(d["owner_rank"].astype(int), m["own"]), "wrong-content", f"{name}: owner_rank of the VTU file")
    ctx.expect(np.array_equal(np.asarray(v.cell_data["partition"][0]).reshape(-1).astype(int), m["part"]), "wrong-content", f"{name}: partition of the VTU file")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk, v in (("ksp", []), ("skew", False), ("policy", {"kind": "order", "rank": 0}), ("owner", "low"), ("jig", 0.), ("sched", 0), ("pseed", 0)):
            if op[kk] != v:
                yield put(dict(op, **{kk: v}))
        n = op["ranks"]
        if n > 1:
            part = [min(r, n - 2) for r in op["part"]]
            yield put(dict(op, ranks=n - 1, part=part))
