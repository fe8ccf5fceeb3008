"""C10: gmsh-based generators return the mesh that was asked for, or raise, whatever gmsh does."""
import os
import shutil
import stat

import numpy as np

from sim import core, env, fsim, ops, ref
from sim.core import Violation
from sim.monitor import make_exc

lib = None
GMSH = "/opt/venv/bin/gmsh"
API = ["initialize", "option.setNumber", "model.geo.addPoint", "model.geo.extrude", "model.geo.synchronize", "model.mesh.generate",
       "model.mesh.setOrder", "write"]
_real = {}
_api = None        # active fault script of the gmsh API


def _owner(gmsh, name):
    o = gmsh
    *path, last = name.split(".")
    for p in path:
        o = getattr(o, p)
    return o, last


def setup(job):
    global lib
    lib = env.import_library()
    import gmsh
    for name in API:
        o, last = _owner(gmsh, name)
        real = getattr(o, last)
        _real[name] = real

        def fn(*a, _real=real, _name=name, **k):
            if _name == "initialize" and not a and not k:
                a = (["gmsh", "-nopopup"],)
            if _api is not None:
                return _api.call(_name, _real, a, k)
            return _real(*a, **k)
        setattr(o, last, staticmethod(fn) if isinstance(o, type) else fn)


class ApiCtl:
    def __init__(self, ctx, script):
        self.ctx, self.script, self.n, self.fired = ctx, script, 0, []

    def call(self, name, real, a, k):
        self.n += 1
        for f in self.script:
            if f[0] == "api" and f[1] == self.n:
                self.fired.append("gmsh_raises_in_" + name.split(".")[-1])
                self.ctx.fault("gmsh_api_raises")
                raise make_exc(f[2]) if f[2] != "Exception" else Exception("gmsh error injected by the simulator")
        r = real(*a, **k)
        if name == "write":
            for f in self.script:
                if f[0] == "lost":
                    os.remove(a[0])
                    self.fired.append("lost_write")
                    self.ctx.fault("lost_write")
        return r


SHIM = """#!/bin/bash
mode={mode}; frac={frac}
out=""; prev=""
for a in "$@"; do [ "$prev" = "-o" ] && out="$a"; prev="$a"; done
case $mode in
 fail) echo "gmsh: out of memory" >&2; exit 1;;
 silent) exit 0;;
 killed) kill -9 $$;;
esac
{gmsh} "$@"; rc=$?
case $mode in
 partial) head -c $(( $(stat -c %s "$out") * frac / 1000 )) "$out" > "$out.t"; mv "$out.t" "$out"; exit 3;;
 partkill) head -c $(( $(stat -c %s "$out") * frac / 1000 )) "$out" > "$out.t"; mv "$out.t" "$out"; kill -9 $$;;
 late) exit 9;;
esac
exit $rc
"""


def generate(rng, index, tier, seed):
    dirs = rng.sample(["d", "d/e", "with space", "q'uote", "semi;colon", "dollar$HOME", "ü"], rng.choice([1, 1, 2]))
    o = []
    for k in range(rng.choice([3, 4, 5, 6])):
        kind = rng.choice(["box"] * 4 + ["cylinder"])
        op = {"op": kind, "dir": rng.choice(dirs), "faults": []}
        if kind == "box":
            op["n"] = [rng.choice([1, 2, 3, 4]) for _ in range(3)]
            op["L"] = [rng.choice([1., .1, 2.5, 100., 1e-3, rng.uniform(.2, 3)]) for _ in range(3)]
            m = max(op["L"])
            op["L"] = [max(v, m / 50) for v in op["L"]]
            op["ele"] = rng.choice(["HEX8", "HEX8", "TET4", "TET10", "HEX27"])
            before = [p for p in o if p["op"] == "box"]
            if before and rng.random() < .45:
                # close to an earlier request: same directory, only one of divisions, sizes, element type differs
                b = rng.choice(before)
                keep = rng.choice(["n", "L", "ele"])
                op.update(dir=b["dir"], **{k: b[k] for k in ("n", "L", "ele") if k != keep})
            r = rng.random()
            if r < .25:
                op["faults"] = [["api", rng.randrange(1, 11), rng.choice(["Exception", "Exception", "KeyboardInterrupt", "MemoryError"])]]
            elif r < .32:
                op["faults"] = [["lost"]]
            elif r < .5:
                op["faults"] = fsim.gen(rng, 1.)
        else:
            op.update(R=rng.choice([5, 1., .3, .0037, rng.uniform(.5, 4), rng.uniform(.5, 4)]), H=rng.choice([10, .5, 1., rng.uniform(.5, 4), rng.uniform(.5, 4)]),
                      cm=rng.choice([2, 3, 4, 5]), hm=rng.choice([1, 2, 3]), rr=rng.choice([.4, .4, .25, .6]), kw=rng.random() < .5,
                      mode=rng.choice(["real"] * 4 + ["fail", "silent", "killed", "partial", "partkill", "late", "missing"]), frac=rng.choice([0, 300, 700, 990, 999]))
            if op["R"] < .01:
                op["H"] = rng.choice([.005, rng.uniform(.002, .02)])
            before = [p for p in o if p["op"] == "cylinder"]
            if before and rng.random() < .45:
                b = rng.choice(before)
                keep = rng.choice(["R", "H", "cm", "hm", "rr"])
                op.update(dir=b["dir"], **{k: b[k] for k in ("R", "H", "cm", "hm", "rr") if k != keep})
            if rng.random() < .15:
                op["faults"] = fsim.gen(rng, 1.)
        if rng.random() < .12:
            op["crash"] = {"nth": rng.randrange(1, 40), "visit": 1, "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        if rng.random() < .08:
            op["plant"] = rng.choice(["garbage", "foreign"])
        o.append(op)
    return {"config": {}, "ops": o}


def corner_type(et):
    return "TET4" if et.startswith("TET") else "HEX8"


def jac_corners(ct, X):
    """Jacobian determinants of linear cells X (nc, nn, 3) at their corners."""
    el = ref.element(ct)
    _, G = el.tab(np.array(ref.NODES[ct]))
    return np.linalg.det(np.einsum("qka,cki->cqia", G, X))


def volumes(ct, X):
    if ct == "TET4":
        return np.linalg.det(X[:, 1:] - X[:, :1]) / 6.
    g = .5 + np.array([-1, 1]) / np.sqrt(12.)
    pts = np.array([[a, b, c] for a in g for b in g for c in g])
    _, G = ref.element(ct).tab(pts)
    return np.linalg.det(np.einsum("qka,cki->cqia", G, X)).sum(axis=1) / 8.


def basic(ctx, name, m, et, meshio_type, L, vol, nodes):
    ctx.expect(set(m.cells_dict) == {meshio_type}, "wrong-mesh", f"{name}: cell types {set(m.cells_dict)}")
    p, c = np.asarray(m.points, float), np.asarray(m.cells_dict[meshio_type])
    ctx.expect(p.ndim == 2 and p.shape[1] == 3 and np.isfinite(p).all(), "wrong-mesh", f"{name}: points {p.shape}")
    ctx.expect(c.min() == 0 and c.max() == len(p) - 1 and len(np.unique(c)) == len(p), "wrong-mesh", f"{name}: {len(np.unique(c))} of {len(p)} nodes are used, index range {c.min()}..{c.max()}")
    scale = max(L)
    d = np.unique(np.round(p / scale * 1e7).astype(np.int64), axis=0)
    ctx.expect(len(d) == len(p), "wrong-mesh", f"{name}: {len(p) - len(d)} duplicated nodes")
    ct = corner_type(et)
    nc = 4 if ct == "TET4" else 8
    X = p[c[:, :nc]]
    j = jac_corners(ct, X)
    ctx.expect(j.min() > 0, "wrong-mesh", f"{name}: {np.sum(j.min(axis=1) <= 0)} inverted cells")
    v = volumes(ct, X).sum()
    ctx.expect(abs(v - vol) <= 1e-9 * vol, "wrong-mesh", f"{name}: the cells fill {v:.12g}, the domain has {vol:.12g}")
    N, _ = ref.element(ct).tab(np.array(ref.NODES[et]))
    err = np.abs(np.einsum("kn,cni->cki", N, X) - p[c]).max()
    ctx.expect(err <= 1e-9 * scale, "wrong-mesh", f"{name}: nodes of a cell are off their {et} positions by {err:.3g}")
    if nodes is not None:
        ctx.expect(len(p) == nodes, "wrong-mesh", f"{name}: {len(p)} nodes, expected {nodes}")
    return p, c


TYPES = {"HEX8": "hexahedron", "TET4": "tetra", "TET10": "tetra10", "HEX27": "hexahedron27"}


def check_box(ctx, name, m, op):
    n, L, et = op["n"], op["L"], op["ele"]
    deg = 2 if et in ("HEX27", "TET10") else 1
    p, c = basic(ctx, name, m, et, TYPES[et], L, np.prod(L), np.prod([deg * k + 1 for k in n]))
    cells = n[0] * n[1] * n[2]
    if et.startswith("HEX"):
        ctx.expect(len(c) == cells, "wrong-mesh", f"{name}: {len(c)} cells, expected {cells}")
    for a in range(3):
        grid = np.linspace(0, L[a], deg * n[a] + 1)
        err = np.abs(p[:, a][:, None] - grid[None]).min(axis=1).max()
        ctx.expect(err <= 1e-9 * max(L), "wrong-mesh", f"{name}: coordinates along axis {a} are off the uniform grid by {err:.3g}")


def check_cylinder(ctx, name, m, op):
    R, H, cm, hm, rr = op["R"], op["H"], op["cm"], op["hm"], op["rr"]
    ns = 4 * (cm - 1)
    area = ns / 2. * R**2 * np.sin(2 * np.pi / ns)
    p, c = basic(ctx, name, m, "HEX8", "hexahedron", (R, H), area * H, (cm**2 + 4 * (cm - 1)**2) * (hm + 1))
    ctx.expect(len(c) == 5 * (cm - 1)**2 * hm, "wrong-mesh", f"{name}: {len(c)} cells, expected {5 * (cm - 1)**2 * hm}")
    r = np.hypot(p[:, 0], p[:, 1])
    s = max(R, H)
    ctx.expect(r.max() <= R + 1e-9 * s and np.sum(np.abs(r - R) < 1e-9 * s) == ns * (hm + 1), "wrong-mesh", f"{name}: largest radius {r.max()}, {np.sum(np.abs(r - R) < 1e-9 * s)} nodes on the surface")
    z = np.linspace(0, H, hm + 1)
    ctx.expect(np.abs(p[:, 2][:, None] - z[None]).min(axis=1).max() <= 1e-9 * s, "wrong-mesh", f"{name}: node layers are not uniform in height")
    for sx in (-1, 1):
        for sy in (-1, 1):
            ctx.expect(np.abs(p[:, :2] - np.array([sx, sy]) * R * rr).max(axis=1).min() <= 1e-9 * s, "wrong-mesh", f"{name}: corner of the inner square is missing")


def execute(plan, ctx):
    root = env.scratch("tmp", "c10")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    path = os.environ["PATH"]
    try:
        _execute(plan, ctx, root)
    finally:
        os.environ["PATH"] = path
        shutil.rmtree(root, ignore_errors=True)
        import gmsh
        if gmsh.isInitialized():
            gmsh.finalize()


def _execute(plan, ctx, root):
    global _api
    import gmsh
    gm = lib["gm"]
    base_path = os.environ["PATH"]
    for k, op in enumerate(plan["ops"]):
        data = os.path.join(root, op["dir"])
        if op.get("plant"):
            os.makedirs(os.path.join(data, "msh"), exist_ok=True)
            for f in ("box.msh", "cylinder.msh"):
                with open(os.path.join(data, "msh", f), "w") as fh:
                    if op["plant"] == "garbage":
                        fh.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n")
                    else:
                        fh.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n4\n1 0 0 0\n2 1 0 0\n3 0 1 0\n4 0 0 1\n$EndNodes\n$Elements\n1\n1 4 2 0 1 1 2 3 4\n$EndElements\n")
            ctx.fault("stale_mesh_file")
        _api = None
        mode = "real"
        if op["op"] == "box":
            name = f"op {k} box_mesh_gmsh({op['n']}, {op['L']}, {op['ele']})"
            _api = ApiCtl(ctx, op["faults"])

            def fn():
                return gm.box_mesh_gmsh(*op["n"], *op["L"], data, op["ele"])
        else:
            name = f"op {k} cylinder_mesh_gmsh(R={op['R']}, H={op['H']}, {op['cm']}, {op['hm']}, {op['rr']})"
            mode = op["mode"]
            shim = os.path.join(root, "bin")
            os.makedirs(shim, exist_ok=True)
            if mode == "missing":
                os.environ["PATH"] = "/usr/bin:/bin"
            else:
                f = os.path.join(shim, "gmsh")
                with open(f, "w") as fh:
                    fh.write(SHIM.format(mode=mode, frac=op["frac"], gmsh=GMSH))
                os.chmod(f, 0o755)
                os.environ["PATH"] = shim + ":/opt/venv/bin:/usr/bin:/bin"

            def fn():
                if op["kw"]:
                    return gm.cylinder_mesh_gmsh(data, R=op["R"], H=op["H"], circle_mesh=op["cm"], hight_mesh=op["hm"], rect_ratio=op["rr"])
                return gm.cylinder_mesh_gmsh(data, op["R"], op["H"], op["cm"], op["hm"], op["rr"])
        before = fsim.snapshot(root)
        try:
            with fsim.faults(ctx, op["faults"], root) as fs:
                res = ops.run(ctx, fn, crash=op.get("crash"))
        finally:
            api, _api = _api, None
            os.environ["PATH"] = base_path
        if not res.ok and any(f[0] == "fsize" for f in op["faults"]):
            fs.full_disk()
        hit = list(fs.fired) + (api.fired if api else []) + (["crash"] if res.ctl.fired else [])
        if mode != "real":
            hit.append("gmsh_" + mode)
            ctx.fault("gmsh_cli_" + mode)
        ctx.log(op["op"], "ok" if res.ok else type(res.exc).__name__, *hit)
        if res.ok:
            (check_box if op["op"] == "box" else check_cylinder)(ctx, name + (f" after {hit}" if hit else ""), res.value, op)
            ctx.probe("mesh_verified")
        else:
            ctx.expect(bool(set(hit) - {"mkdir_race"}), "unexpected-exception", f"{name}: {ops.describe(res.exc)}")
        if res.ctl.fired and gmsh.isInitialized():
            gmsh.finalize()     # an exception on the very line that closes gmsh cannot be cleaned up after
        ctx.expect(not gmsh.isInitialized(), "gmsh-left-open", f"{name}: gmsh is still initialized after the call ({'returned' if res.ok else 'raised'}, faults {hit})")
        after = fsim.snapshot(root)
        mine = os.path.normpath(os.path.join(op["dir"], "msh")) + os.sep
        for p in sorted(before):
            ctx.expect(p.startswith((mine, "bin" + os.sep)) or after.get(p) == before[p], "other-file-changed", f"{name}: {p!r} was changed")
        for p in sorted(set(after) - set(before)):
            ctx.expect(p.startswith((mine, "bin" + os.sep)), "other-file-changed", f"{name}: wrote {p!r}, outside its data directory")
        if hit or op.get("plant"):
            ctx.nontrivial = True
        ctx.state_keys.add(f"{op['op']}/{op.get('ele')}/{op['dir']}/{op.get('plant')}/{hit}/{res.ok}")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk, v in (("faults", []), ("dir", "d"), ("n", [1, 1, 1]), ("L", [1., 1., 1.]), ("ele", "HEX8"), ("mode", "real"), ("cm", 2), ("hm", 1)):
            if kk in op and op[kk] != v:
                yield put(dict(op, **{kk: v}))
        for kk in ("crash", "plant"):
            if op.get(kk):
                yield put({a: b for a, b in op.items() if a != kk})
