"""C15: quiet-element build process: births, boundaries and temperatures."""
import os
import shutil
import types

import numpy as np

from sim import apps, core, env, ops
from sim.core import Violation

lib = None
REL = apps.APPS + "/quiet_element/example.py"
BASE, RES, RB = 20e-3, .125e-3, 1e-3


def setup(job):
    global lib
    lib = env.import_library(["jax_fem.utils"])


# -- plans ---------------------------------------------------------------------------------------

def make_cfg(r, j):
    return {"n": r.choice([[3, 1], [4, 1], [3, 2], [2, 2]]), "layers": r.choice([1, 2, 2]), "base": r.choice([1, 2]), "size": r.choice([.8, 1.]),
            "jig": r.choice([0., .15]), "seed": r.randrange(10**6)}


def mesh_of(cfg):
    """Points in metres, HEX8 cells: a base plate and the layers to be deposited."""
    s = cfg["size"] * 1e-3
    nx, ny = cfg["n"]
    zs = list(np.linspace(0, BASE, cfg["base"] + 1)) + [BASE + s * (k + 1) for k in range(cfg["layers"])]
    X, C = apps.hexes([nx, ny, len(zs) - 1], [nx * s, ny * s, len(zs) - 1.])
    X[:, 2] = np.array(zs)[np.rint(X[:, 2]).astype(int)]
    r = np.random.default_rng(cfg["seed"])
    X[:, :2] += cfg["jig"] * s * r.uniform(-1, 1, (len(X), 2))
    # unstructured numbering: cells in any order, each turned any way (proper rotations of a hexahedron)
    turns = [[0, 1, 2, 3, 4, 5, 6, 7]]
    for p in turns:
        for q in ([1, 2, 3, 0, 5, 6, 7, 4], [4, 0, 3, 7, 5, 1, 2, 6], [3, 2, 6, 7, 0, 1, 5, 4]):
            t = [p[k] for k in q]
            if t not in turns:
                turns.append(t)
    C = np.array([c[turns[r.integers(len(turns))]] for c in C[r.permutation(len(C))]])
    number = r.permutation(len(X))  # and nodes in any order
    X[number] = X.copy()
    C = number[C]
    # as in the input file: millimetres, divided by 1000 by the script
    mm = X * 1e3
    mm[:, 2] = np.array([z * 1e3 for z in X[:, 2]])
    return mm, C


def births(cen, act, centre):
    return act | ((cen[:, 2] < centre[2]) & ((cen[:, 0] - centre[0])**2 + (cen[:, 1] - centre[1])**2 <= RB**2))


def schedule(path, mm, C):
    """Steps of a tool path: dicts of segment, sub-step, laser centre, time step, laser state and active cells."""
    cen = np.mean((mm / 1e3)[C], axis=1)
    act = cen[:, 2] <= BASE
    p = np.array(path, float)
    p[:, 1:4] = p[:, 1:4] / 1e3
    top = p[2, 3] + BASE
    clear = True
    centre = None
    out = []
    for i in range(2, len(p)):
        if p[i, 4]:
            n = round(np.linalg.norm(p[i, 1:4] - p[i - 1, 1:4]) / RES)
            t = np.linspace(p[i - 1, 0], p[i, 0], n + 1)
            for j in range(n):
                w = j / n
                centre = np.array([p[i - 1, 1] * (1 - w) + w * p[i, 1], p[i - 1, 2] * (1 - w) + w * p[i, 2], p[i, 3] + BASE])
                d2 = (cen[:, 0] - centre[0])**2 + (cen[:, 1] - centre[1])**2
                clear = clear and (np.abs(d2 - RB**2) > 1e-11).all()
                new = births(cen, act, centre)
                if (new != act).any():
                    top = centre[2]
                act = new
                clear = clear and abs(top - centre[2]) < 1e-9
                out.append({"i": i, "j": j, "c": centre, "dt": t[j + 1] - t[j], "on": p[i, 4], "act": act.copy(), "file": j % 10 == 0})
        else:
            t = np.linspace(p[i - 1, 0], p[i, 0], 11)
            for j in range(10):
                out.append({"i": i, "j": j, "c": centre, "dt": t[j + 1] - t[j], "on": 0., "act": act.copy(), "file": True})
    return out, clear


def gen_path(rng, cfg):
    mm, C = mesh_of(cfg)
    s = cfg["size"]
    ext = [cfg["n"][0] * s, cfg["n"][1] * s]
    for _ in range(40):
        t, z = 0., 0.
        x = [rng.uniform(0, ext[0]), rng.uniform(0, ext[1])]
        z = s if rng.random() < .8 else 0.
        rows = [[0., x[0], x[1], z, 0.], [0.1, x[0], x[1], z, 0.]]
        t = .1
        for k in range(rng.choice([1, 2, 3, 4])):
            on = float(rng.random() < .75)
            if on and k and rng.random() < .4 and z + s <= cfg["layers"] * s + 1e-9:
                z += s
            if on:
                L = rng.choice([.05, .15, .3, .5, 1.5])
                a = rng.choice([0., np.pi, rng.uniform(0, 2 * np.pi)])
                x = [min(ext[0], max(0., x[0] + L * np.cos(a))), min(ext[1], max(0., x[1] + L * np.sin(a)))]
                t += rng.choice([.02, .06, .2])
            else:
                t += rng.choice([.5, 5.])
                if rng.random() < .5:
                    x = [rng.uniform(0, ext[0]), rng.uniform(0, ext[1])]
            rows.append([t, x[0], x[1], z, on])
        st, clear = schedule(rows, mm, C)
        off_first = st and st[0]["c"] is None
        if clear and 0 < len(st) <= 26 and (not off_first or rng.random() < .5):
            return [[float(v) for v in r] for r in rows]
    return None


def generate(rng, index, tier, seed):
    cfg = core.deck("C15", seed, index, 8 if tier == "quick" else 48, make_cfg)
    o = []
    for k in range(rng.choice([2, 3, 4])):
        if rng.random() < .45:
            path = gen_path(rng, cfg)
            if path is not None:
                op = {"op": "build", "path": path}
                r = rng.random()
                if r < .35:
                    op["fault"] = ["linsolve", rng.randrange(0, 8)]
                elif r < .55:
                    op["fault"] = ["save", rng.randrange(0, 4)]
                elif r < .75:
                    op["fault"] = ["crash", rng.randrange(1, 330), rng.choice(["KeyboardInterrupt", "MemoryError", "InjectedFault"])]
                if op.get("fault") is None and rng.random() < .3:
                    op["actions"] = ops.gen_actions(rng, hard=False, n_max=3)
                o.append(op)
                continue
        mm, C = mesh_of(cfg)
        n = len(C)
        order = list(range(n))
        rng.shuffle(order)
        cut = sorted(rng.randrange(0, n + 1) for _ in range(rng.choice([2, 4, 7])))
        o.append({"op": "births", "order": order, "cut": cut, "z": rng.choice([0., BASE, BASE + cfg["size"] * 1e-3, BASE + 2e-3])})
    return {"config": cfg, "ops": o}


# -- reference -----------------------------------------------------------------------------------

FACES = ((0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7))


def external(C, act):
    """{sorted face nodes: cell} of the faces belonging to exactly one active cell."""
    seen = {}
    for c in np.flatnonzero(act):
        for f in FACES:
            seen.setdefault(tuple(sorted(int(C[c][k]) for k in f)), []).append(int(c))
    return {k: v[0] for k, v in seen.items() if len(v) == 1}


class Ref:
    def __init__(self, cfg):
        self.mm, self.C = mesh_of(cfg)
        self.X = self.mm / 1e3
        self.fem = apps.Fem(self.X, self.C, "HEX8", 1, None, [lambda p, i: True])
        self.face = {}
        for (c, f), row in zip(self.fem.d.surf[0], self.fem._faces[0]):
            ids = self.C[c][list(self.fem.d.els[0].faces[f])]
            self.face[tuple(sorted(int(i) for i in ids)), int(c)] = row

    def residual(self, m, To, Tn, s, ext, top):
        f = self.fem
        a = s["act"].astype(float)
        f0 = m["rho"] * m["Cp"] * (f.val(Tn) - f.val(To)) / s["dt"] * a[:, None, None]
        f1 = 15. * f.grad(Tn) * a[:, None, None, None]
        R, A = f.assemble(f0, f1)
        for key, c in ext.items():
            _, row, _ = self.face[key, c]
            N, _, W = row[0]
            x = N @ self.X[self.C[c]]
            q = m["h"] * (m["T0"] - (N @ To[self.C[c]])[:, 0])
            if s["on"] and key in top:
                q = q + 2 * m["eta"] * m["P"] / (np.pi * RB**2) * np.exp(-2 * ((x[:, 0] - s["c"][0])**2 + (x[:, 1] - s["c"][1])**2) / RB**2)
            v = np.einsum("qn,q,q->n", N, q, W)[:, None]
            np.add.at(R, self.C[c], -v)
            np.add.at(A, self.C[c], np.abs(v))
        return R, A


# -- execution -----------------------------------------------------------------------------------

class Stop(Exception):
    pass


def execute(plan, ctx):
    cfg = plan["config"]
    ref = Ref(cfg)
    out = env.scratch("c15")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    ns = apps.extracted(REL, {"vtk_dir": out})
    for k, op in enumerate(plan["ops"]):
        name = f"op {k} {op['op']}"
        ctx.log("op", op["op"])
        (do_births if op["op"] == "births" else do_build)(ctx, cfg, ref, ns, out, op, name)
        ctx.state_keys.add(f"{cfg['n']}{cfg['layers']}/{op['op']}/{op.get('fault', ['-'])[0]}/{len(op.get('path', op.get('cut')))}")


def make_problem(ns, ref):
    mesh = lib["gm"].Mesh(ref.mm / 1e3, ref.C)
    return ns.Thermal(mesh, vec=1, dim=3, dirichlet_bc_info=[[lambda x: False], [0], [lambda p: ns.T0]], location_fns=[lambda p: True])


def check_tables(ctx, name, ref, problem, act, z, tab, quiet):
    ext = external(ref.C, act)
    b = np.asarray(problem.boundary_inds_list[0])
    fi = np.asarray(problem.fe.face_inds)
    tab = np.asarray(tab)
    ctx.expect(tab.shape == (len(b), 2), "wrong-boundary", f"{name}: face table of shape {tab.shape}")
    n_ext = n_top = 0
    for (c, f), (e, t) in zip(b, tab):
        key = tuple(sorted(int(i) for i in ref.C[c][fi[f]]))
        we = ext.get(key) == int(c)
        wt = we and np.abs(ref.X[list(key), 2] - z).max() < 1e-5
        ctx.expect(bool(e) == we, "wrong-boundary", f"{name}: face {key} of cell {c} {'is' if we else 'is not'} external, the table says otherwise")
        ctx.expect(bool(t) == bool(wt), "wrong-boundary", f"{name}: face {key} of cell {c} {'is' if wt else 'is not'} under the laser plane, the table says otherwise")
        n_ext, n_top = n_ext + we, n_top + wt
    ctx.expect(n_ext == len(ext), "wrong-boundary", f"{name}: {len(ext) - n_ext} external faces are missing from the problem's faces")
    want = sorted(set(range(len(ref.X))) - set(ref.C[act].reshape(-1).tolist()))
    ctx.expect(sorted(np.asarray(quiet).tolist()) == want, "wrong-boundary", f"{name}: {len(np.asarray(quiet))} quiet points, expected {len(want)}")


def do_births(ctx, cfg, ref, ns, out, op, name):
    problem = make_problem(ns, ref)
    act = np.zeros(len(ref.C), bool)
    for n, (a, b) in enumerate(zip([0] + op["cut"], op["cut"])):
        old = act.copy()
        act = act.copy()
        act[op["order"][a:b]] = True
        keep = act.copy()
        if n == 0:
            ext, cf, hm, inner, faces = ns.initialize_hash_map(problem, act)
        else:
            ext = ns.update_hash_map(old, act, cf, hm, inner, faces)
        want = external(ref.C, act)
        got = sorted(tuple(sorted(int(i) for i in ref.C[c][np.asarray(problem.fe.face_inds)[f]])) for c, f in np.asarray(ext).tolist())
        ctx.expect(got == sorted(want), "wrong-boundary", f"{name} birth {n}: {len(got)} external faces, expected {len(want)}")
        tab = ns.get_active_face_truth_tab(problem, ext, op["z"])
        check_tables(ctx, f"{name} birth {n}", ref, problem, act, op["z"], tab, ns.get_quiet_point_inds_set(problem, act))
        ctx.expect((act == keep).all(), "state-mutated", f"{name} birth {n}: the table of active cells was changed")
        ctx.log("birth", str(b - a > 0))
    ctx.steps += len(op["cut"])


def run_build(ctx, ref, ns, out, op, name, fault, acts):
    """One run of the real simulation; returns (recorded solves, exception)."""
    rec = []
    path = np.array(op["path"], float)

    class MM:
        points = ref.mm.copy()
        cells_dict = {"hexahedron": ref.C.copy()}

        def write(self, f):
            pass
    fake = types.SimpleNamespace(read=lambda f: MM(), Mesh=getattr(ns.meshio, "Mesh", None))
    real = lib["solver"].solver
    real_save = lib["utils"].save_sol
    saved = []

    def rec_solver(problem, *a, **kw):
        r = {"problem": problem, "iv": [np.array(x) for x in problem.internal_vars]}
        r["T"] = real(problem, *a, **kw)
        rec.append(r)
        return r["T"]

    def save(fe, sol, f, *a, **kw):
        if fault and fault[0] == "save" and len(saved) == fault[1]:
            ctx.fault("save_oserror")
            saved.append(None)
            raise OSError(28, "injected by the simulator")
        real_save(fe, sol, f, *a, **kw)
        saved.append((os.path.basename(str(f)), len(rec)))
    np_proxy = types.ModuleType("onp_proxy")
    np_proxy.__dict__.update(np.__dict__)
    np_proxy.loadtxt = lambda f, *a, **kw: path.copy()
    ns.meshio, ns.onp, ns.solver, ns.save_sol = fake, np_proxy, rec_solver, save
    acts = list(acts)
    crash = None
    if fault and fault[0] == "linsolve":
        acts = [["exact"]] * fault[1] + [["raise", "RuntimeError"]]
    if fault and fault[0] == "crash":
        crash = {"nth": fault[1], "visit": 1, "exc": fault[2]}
    res = ops.run(ctx, ns.quiet_element_simulation, budget=3_000_000, actions=acts, crash=crash, limit=2000)
    return rec, saved, res


def judge(ctx, cfg, ref, ns, out, op, name, rec, saved, complete):
    steps, _ = schedule(op["path"], ref.mm, ref.C)
    m = {k: getattr(ns, k) for k in ("rho", "Cp", "h", "T0", "eta", "P")}
    if complete:
        ctx.expect(len(rec) == len(steps), "missed-step", f"{name}: {len(rec)} solves for {len(steps)} steps of the tool path")
    ctx.expect(len(rec) <= len(steps), "missed-step", f"{name}: {len(rec)} solves for {len(steps)} steps of the tool path")
    To = m["T0"] * np.ones((len(ref.X), 1))
    top_z = op["path"][2][3] / 1e3 + BASE
    prev = np.mean(ref.X[ref.C], axis=1)[:, 2] <= BASE
    for n, (r, s) in enumerate(zip(rec, steps)):
        nm = f"{name} step {n} (segment {s['i']}.{s['j']}, laser {'on' if s['on'] else 'off'}, {int(s['act'].sum())} active cells)"
        if (s["act"] != prev).any():
            top_z = s["c"][2]
            ctx.probe("births")
        prev = s["act"]
        ext = external(ref.C, s["act"])
        top = {k for k in ext if np.abs(ref.X[list(k), 2] - top_z).max() < 1e-5}
        Tn = np.asarray(r["T"][0], float)
        ctx.expect(len(r["T"]) == 1 and Tn.shape == To.shape, "wrong-shape", f"{nm}: solution of shape {Tn.shape}")
        quiet = sorted(set(range(len(ref.X))) - set(ref.C[s["act"]].reshape(-1).tolist()))
        R, A = ref.residual(m, To, Tn, s, ext, top)
        g = np.zeros_like(Tn)
        Rg, _ = ref.residual(m, To, g, s, ext, top)
        apps.balanced(ctx, nm, R, A, Tn, {(a, 0): m["T0"] for a in quiet}, (Rg, g))
        To = Tn
    if complete:
        want = [(f"u_{s['i']:05d}_{s['j']:05d}.vtu", n + 1) for n, s in enumerate(steps) if s["file"]]
        ctx.expect(saved == want, "wrong-output", f"{name}: files written {saved[:4]}..., expected {want[:4]}...")
        import meshio
        for f, n in (want[:1] + want[-1:]):
            try:
                got = meshio.read(os.path.join(out, f))
            except BaseException as e:
                raise Violation("wrong-output", f"{name}: {f} cannot be read: {type(e).__name__}: {str(e)[:200]}")
            ctx.expect("sol" in got.point_data and "active" in got.cell_data, "wrong-output", f"{name}: {f} holds {sorted(got.point_data)}, {sorted(got.cell_data)}")
            sol = got.point_data["sol"].reshape(-1)
            ctx.expect(np.array_equal(sol, np.asarray(rec[n - 1]["T"][0]).reshape(-1).astype(sol.dtype)), "wrong-output", f"{name}: {f} does not hold the step's temperatures")
            ctx.expect(np.array_equal(np.asarray(got.cell_data["active"][0]).reshape(-1), steps[n - 1]["act"].astype(int)), "wrong-output", f"{name}: {f} does not hold the step's active cells")


def refused(exc):
    return isinstance(exc, AssertionError) and "failed to converge" in str(exc)


def do_build(ctx, cfg, ref, ns, out, op, name):
    fault = op.get("fault")
    if fault:
        rec, saved, res = run_build(ctx, ref, ns, out, op, name + " (fault)", fault, [])
        fired = res.lin.fired or res.ctl.fired or (saved and saved[-1] is None)
        if res.ok and fired and fault[0] != "crash":
            raise Violation("failure-not-reported", f"{name}: {fault} happened and the simulation returned normally")
        if not res.ok and not fired and not refused(res.exc):
            raise Violation("unexpected-exception", f"{name}: {ops.describe(res.exc)}")
        judge(ctx, cfg, ref, ns, out, op, name + f" before {fault}", rec, saved, res.ok)
        if fired:
            ctx.log("failed", fault[0])
            ctx.nontrivial = True
    rec, saved, res = run_build(ctx, ref, ns, out, op, name, None, op.get("actions", []))
    if not res.ok:
        if res.lin.fired:
            ctx.log("failed under fault", *res.lin.fired)
            return
        if refused(res.exc):
            # the iterative solver of the laser-off steps honestly gives up on stretched base-plate elements
            judge(ctx, cfg, ref, ns, out, op, name, rec, saved, False)
            steps, _ = schedule(op["path"], ref.mm, ref.C)
            ctx.expect(not steps[len(rec)]["on"], "unexpected-exception", f"{name}: {ops.describe(res.exc)}")
            ctx.probe("refused")
            return
        raise Violation("unexpected-exception", f"{name}: {ops.describe(res.exc)}")
    if res.lin.fired:
        ctx.nontrivial = True
    judge(ctx, cfg, ref, ns, out, op, name, rec, saved, True)
    ctx.log("built", str(len(rec)), *res.lin.fired)
    if any(s["on"] for s in schedule(op["path"], ref.mm, ref.C)[0]):
        ctx.probe("laser_steps", len(rec))


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk in ("fault", "actions"):
            if op.get(kk):
                yield put({a: b for a, b in op.items() if a != kk})
        if op["op"] == "build" and len(op["path"]) > 3:
            yield put(dict(op, path=op["path"][:-1]))
        if op["op"] == "births" and len(op["cut"]) > 1:
            yield put(dict(op, cut=op["cut"][:-1]))
            yield put(dict(op, cut=op["cut"][1:]))
