"""C09: a saved solution file is complete and exact, or save_sol raises; nothing else is touched."""
import os
import shutil

import numpy as np

from sim import core, env, fsim, ops, ref, zoo
from sim.core import Violation
from sim.monitor import injected

lib = None
_fe = {}
ELES = [e for d in (2, 3) for e in zoo.FAMILIES[d]]


def setup(job):
    global lib
    lib = env.import_library()


def gen_op(rng, files):
    op = {"op": "save", "fe": rng.randrange(3), "path": rng.choice(files), "vec": rng.choice([1, 2, 3, 4]), "seed": rng.randrange(10**6),
          "scale": rng.choice([1., 1., 1e-30, 1e30, 1e300]), "nan": rng.random() < .1, "kind": rng.choice(["numpy", "jax", "int", "f32", "list"]),
          "cells": [n for n in ("p", "stress", "µ") if rng.random() < .3], "points": [n for n in ("T", "disp") if rng.random() < .3],
          "pdim": rng.choice([0, 1, 3]), "none": rng.random() < .5, "faults": fsim.gen(rng, .5)}
    r = rng.random()
    if r < .08:
        op["bad"] = rng.choice(["cell-shape", "point-len"])
    elif r < .14:
        op["bad"] = rng.choice(["ext", "parent-is-file", "target-is-dir"])
    if rng.random() < .15:
        op["crash"] = {"nth": rng.randrange(1, 24), "visit": 1, "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
    return op


def generate(rng, index, tier, seed):
    fes = []
    for _ in range(3):
        e = rng.choice(ELES)
        d = 2 if e in zoo.FAMILIES[2] else 3
        fes.append({"ele": e, "n": [rng.choice([1, 2, 3]) for _ in range(d)], "jig": .2, "mseed": rng.randrange(4), "len": [1.] * d})
    files = rng.sample(["sol.vtu", "a/sol.vtu", "a/b/u.vtu", "a b/ü 1.vtu", "./here.vtu", "sol.vtk", "a/x.vtk", "deep/er/than/before/s.vtu"], rng.choice([2, 3, 4]))
    return {"config": {"fes": fes, "abs": rng.random() < .5}, "ops": [gen_op(rng, files) for _ in range(rng.choice([4, 6, 8, 10]))]}


def get_fe(cfg):
    key = repr(sorted(cfg.items()))
    if key not in _fe:
        ms = zoo.mesh(cfg)
        p, c = ms["p0"], ms["c0"]
        gm = lib["gm"]
        import jax.numpy as jnp
        # the mesh is what save_sol reads; shape functions are not needed
        fe = lib["fe"].FiniteElement(gm.Mesh(p, c), 1, len(cfg["n"]), cfg["ele"], dirichlet_bc_info=None)
        _fe[key] = (fe, np.array(p), np.array(c))
    return _fe[key]


def fingerprint(fe):
    return (np.asarray(fe.points).tobytes(), np.asarray(fe.cells).tobytes(), fe.ele_type, fe.num_cells)


def read_back(path):
    import meshio
    return meshio.read(path)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if b.ndim == 1:
        b = b[:, None]
    if a.ndim == 1:
        a = a[:, None]
    if a.shape[0] != b.shape[0] or a.shape[1] < b.shape[1]:
        return False
    return np.array_equal(a[:, :b.shape[1]], b, equal_nan=True) and not a[:, b.shape[1]:].any()


def verify(ctx, path, want, name):
    try:
        m = read_back(path)
    except BaseException as e:
        raise Violation("file-corrupt", f"{name}: save_sol returned but the file cannot be read: {type(e).__name__}: {str(e)[:200]}")
    pts, cells, ct, pd, cd = want
    ctx.expect(same(m.points, pts), "wrong-content", f"{name}: points differ from the mesh")
    ctx.expect(set(m.cells_dict) == {ct} and np.array_equal(m.cells_dict[ct], cells), "wrong-content", f"{name}: cells {set(m.cells_dict)} differ from the mesh ({ct})")
    ctx.expect(set(m.point_data) == set(pd), "wrong-content", f"{name}: point data {sorted(m.point_data)}, expected {sorted(pd)}")
    ctx.expect(set(m.cell_data) == set(cd), "wrong-content", f"{name}: cell data {sorted(m.cell_data)}, expected {sorted(cd)}")
    for k, v in pd.items():
        ctx.expect(same(m.point_data[k], v), "wrong-content", f"{name}: point data {k!r} differs from what was saved")
    for k, v in cd.items():
        ctx.expect(same(m.cell_data[k][0], v), "wrong-content", f"{name}: cell data {k!r} differs from what was saved")


MESHIO = {"TET4": "tetra", "TET10": "tetra10", "HEX8": "hexahedron", "HEX27": "hexahedron27", "HEX20": "hexahedron20", "TRI3": "triangle",
          "TRI6": "triangle6", "QUAD4": "quad", "QUAD8": "quad8"}


def execute(plan, ctx):
    root = env.scratch("tmp", "c09")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    old = os.getcwd()
    os.chdir(root)
    try:
        _execute(plan, ctx, root)
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)


def _execute(plan, ctx, root):
    import warnings
    import jax.numpy as jnp
    warnings.simplefilter("ignore")
    model = {}           # relative path -> content of the last save that returned (None: unknown)
    for k, op in enumerate(plan["ops"]):
        fc = plan["config"]["fes"][op["fe"]]
        fe, pts, cells = get_fe(fc)
        rng = np.random.default_rng(op["seed"])
        sol = op["scale"] * rng.standard_normal((len(pts), op["vec"]))
        if op["kind"] == "int":
            sol = np.asarray(np.clip(sol, -1e6, 1e6), dtype=np.int64)
        elif op["kind"] == "f32":
            sol = sol.astype(np.float32)
        elif op["nan"]:
            sol[0, 0] = np.nan
        arg = jnp.asarray(sol) if op["kind"] == "jax" else sol.tolist() if op["kind"] == "list" else sol
        pd = {n: rng.standard_normal((len(pts),) if op["pdim"] == 0 else (len(pts), op["pdim"])) for n in op["points"]}
        cd = {n: rng.standard_normal(len(cells)) for n in op["cells"]}
        bad = op.get("bad")
        if bad == "cell-shape":
            cd["wrong"] = rng.standard_normal(len(cells) + 1)
        if bad == "point-len":
            pd["wrong"] = rng.standard_normal(len(pts) + 1)
        rel = os.path.normpath(op["path"])
        path = os.path.join(root, op["path"]) if plan["config"]["abs"] else op["path"]
        if bad == "ext":
            rel, path = rel + "x", path + "x"
        if bad == "parent-is-file":
            with open(os.path.join(root, "plain"), "w") as f:
                f.write("not a directory")
            rel, path = "plain/sol.vtu", os.path.join(root, "plain/sol.vtu")
        if bad == "target-is-dir":
            os.makedirs(os.path.join(root, "dir.vtu"), exist_ok=True)
            rel, path = "dir.vtu", os.path.join(root, "dir.vtu")
        infos = [(list(cd.items()) if cd or not op["none"] else None), (list(pd.items()) if pd or not op["none"] else None)]
        before, mark = fsim.snapshot(root), (fingerprint(fe), np.array(sol).tobytes(), repr([[n for n, _ in (i or [])] for i in infos]))
        name = f"op {k} save_sol({fc['ele']}, {op['path']!r})"
        with fsim.faults(ctx, op["faults"], root) as fs:
            res = ops.run(ctx, lambda: lib["utils"].save_sol(fe, arg, path, *infos), crash=op.get("crash"))
        after = fsim.snapshot(root)
        if not res.ok and any(f[0] == "fsize" for f in op["faults"]):
            fs.full_disk()
        hit = fs.fired + (["crash"] if res.ctl.fired else [])
        ctx.log("save", rel, op["kind"], str(bad), "ok" if res.ok else type(res.exc).__name__, *hit)
        now = (fingerprint(fe), np.array(arg).tobytes() if op["kind"] not in ("list",) else np.array(sol).tobytes(), repr([[n for n, _ in (i or [])] for i in infos]))
        ctx.expect(now == mark, "inputs-changed", f"{name}: save_sol changed the finite element, the solution or the info lists")
        for p in sorted(set(before) - {rel}):
            ctx.expect(after.get(p) == before[p], "other-file-changed", f"{name}: the file {p!r} of an earlier call was changed ({'raised' if not res.ok else 'returned'})")
        if bad in ("cell-shape", "point-len"):
            ctx.expect(not res.ok, "bad-data-accepted", f"{name}: data of the wrong shape was accepted")
        if res.ok:
            ctx.expect(os.path.isfile(os.path.join(root, rel)), "file-missing", f"{name}: returned without a file (faults {hit})")
            want = (pts, cells, MESHIO[fc["ele"]], {"sol": np.array(sol).astype(np.float32), **{n: v.astype(np.float32) for n, v in pd.items()}},
                    {n: v.astype(np.float32) for n, v in cd.items()})
            verify(ctx, os.path.join(root, rel), want, name)
            model[rel] = (after[rel], want)
            ctx.probe("verified_file")
        else:
            ctx.expect(bool(set(hit) - {"mkdir_race"}) or bad is not None, "unexpected-exception", f"{name}: {ops.describe(res.exc)}")
            if bad in ("cell-shape", "point-len"):
                ctx.expect(after.get(rel) == before.get(rel), "other-file-changed", f"{name}: a refused save changed the target")
            model.pop(rel, None)
        if hit or bad:
            ctx.nontrivial = True
        ctx.state_keys.add(f"{fc['ele']}/{os.path.splitext(rel)[1]}/{op['kind']}/{len(cd)}{len(pd)}/{bad}/{hit}/{res.ok}")
    for rel, (data, want) in model.items():
        with open(os.path.join(root, rel), "rb") as f:
            ctx.expect(f.read() == data, "other-file-changed", f"end of run: {rel!r} no longer holds what was saved")
        verify(ctx, os.path.join(root, rel), want, f"end of run, {rel!r}")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk, v in (("faults", []), ("cells", []), ("points", []), ("kind", "numpy"), ("vec", 1), ("scale", 1.), ("nan", False)):
            if op.get(kk) != v:
                yield put(dict(op, **{kk: v}))
        for kk in ("crash", "bad"):
            if op.get(kk):
                yield put({a: b for a, b in op.items() if a != kk})
