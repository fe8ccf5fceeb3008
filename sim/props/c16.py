"""C16: file conversions give exactly the converted file or raise; their inputs are never damaged."""
import contextlib
import io
import json
import os
import shutil

import numpy as np

from sim import core, env, fsim, ops
from sim.core import Violation

lib = None
OLD = '<VTKFile type="UnstructuredGrid" version="2.2">'
NEW = '<VTKFile type="UnstructuredGrid" version="1.0">'
DIRS = ["d", "d/e", "with space", "q'uote", "semi;touch pwned", "dollar$HOME", "back`touch pwned`tick", "and&&touch pwned", "ü", 'dq"x', "star*"]


def setup(job):
    global lib
    lib = env.import_library()


def gen_json(rng, depth=0):
    r = rng.random()
    if depth < 3 and r < .35:
        return {rng.choice(["a", "b", "µ", "key with space", "", "x\ny", 'q"']) + str(i): gen_json(rng, depth + 1) for i in range(rng.choice([0, 1, 3]))}
    if depth < 3 and r < .5:
        return [gen_json(rng, depth + 1) for _ in range(rng.choice([0, 1, 4]))]
    return rng.choice([None, True, False, 0, -1, 10**18, 2**70, 1e-300, 0.1, -2.5e17, "", "text", "ü€", "line\nbreak\t", "\\", rng.uniform(-1, 1)])


def generate(rng, index, tier, seed):
    o = []
    for k in range(rng.choice([4, 6, 8])):
        kind = rng.choice(["modify", "modify", "modify", "abaqus", "abaqus", "json", "json", "video"])
        op = {"op": kind, "dir": rng.choice(DIRS), "faults": fsim.gen(rng, .4) if kind != "video" else []}
        if kind == "modify":
            op.update(src=rng.choice(["vtu", "vtu", "text", "empty", "nohdr", "latin", "missing", "prev"]), out=rng.choice(["other", "other", "same", "dot", "symlink", "exists", "nodir"]),
                      ele=rng.choice(["tetra", "hexahedron", "quad"]), n=rng.choice([1, 2, 5, 40]), seed=rng.randrange(10**6))
        elif kind == "abaqus":
            op.update(ele=rng.choice(["tetra", "hexahedron", "tetra10", "quad", "triangle"]), n=rng.choice([1, 2, 5, 30]), seed=rng.randrange(10**6),
                      out=rng.choice([".vtu", ".vtu", ".vtk"]), src=rng.choice(["ok", "ok", "ok", "ok", "missing", "garbage"]), exists=rng.random() < .4)
        elif kind == "json":
            op.update(value=gen_json(rng), trunc=rng.choice([None, None, None, rng.random()]), indent=rng.choice([None, 2]), src=rng.choice(["ok", "ok", "ok", "missing"]))
        else:
            op.update(rel=rng.random() < .5, path=rng.random() < .3, ffmpeg=rng.choice(["ok", "ok", "fail", "killed"]))
        if kind != "video" and rng.random() < .12:
            op["crash"] = {"nth": rng.randrange(1, 12), "visit": 1, "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        o.append(op)
    return {"config": {}, "ops": o}


NN = {"tetra": 4, "hexahedron": 8, "tetra10": 10, "quad": 4, "triangle": 3}


def some_mesh(op):
    import meshio
    rng = np.random.default_rng(op["seed"])
    nn = NN[op["ele"]]
    npts = nn + rng.integers(0, 2 * op["n"] + 1)
    pts = rng.standard_normal((npts, 3)) * rng.choice([1., 1e-5, 1e6])
    cells = np.array([rng.permutation(npts)[:nn] for _ in range(op["n"])])
    used = np.unique(cells)
    pts, cells = pts[used], np.searchsorted(used, cells)
    return meshio.Mesh(pts, {op["ele"]: cells})


FFMPEG = """#!/bin/bash
n=$(ls {log} | wc -l)
for a in "$@"; do printf '%s\\0' "$a"; done > {log}/call.$n
[ {mode} = killed ] && kill -9 $$
[ {mode} = fail ] && exit 1
exit 0
"""


def execute(plan, ctx):
    root = env.scratch("tmp", "c16")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "w"))
    old, path, home = os.getcwd(), os.environ["PATH"], os.environ.get("HOME")
    os.chdir(os.path.join(root, "w"))
    try:
        _execute(plan, ctx, root)
    finally:
        os.chdir(old)
        os.environ["PATH"] = path
        shutil.rmtree(root, ignore_errors=True)


def mesh_equal(ctx, name, a, m, tol):
    ctx.expect(np.asarray(a.points).shape == m.points.shape and np.abs(a.points - m.points).max() <= tol * np.abs(m.points).max(), "wrong-content", f"{name}: points differ")
    ctx.expect(set(a.cells_dict) == set(m.cells_dict), "wrong-content", f"{name}: cell types {set(a.cells_dict)}")
    for t in m.cells_dict:
        ctx.expect(np.array_equal(a.cells_dict[t], m.cells_dict[t]), "wrong-content", f"{name}: {t} cells differ")


def _execute(plan, ctx, root):
    import meshio
    import warnings
    warnings.simplefilter("ignore")
    u = lib["utils"]
    w = os.path.join(root, "w")
    last = None
    for k, op in enumerate(plan["ops"]):
        d = os.path.join(w, op["dir"])
        os.makedirs(d, exist_ok=True)
        name = f"op {k} {op['op']} in {op['dir']!r}"
        if op["op"] == "video":
            video(ctx, u, op, root, d, name)
            continue
        want_raise = False
        if op["op"] == "modify":
            src = os.path.join(d, "in.vtu")
            m = None
            if op["src"] == "vtu":
                m = some_mesh(op)
                meshio.write(src, m, file_format="vtu", binary=False)
                s = open(src).read()
                i = s.index("<VTKFile")
                j = s.index(">", i) + 1
                head = s[i:j]
                s = s[:i] + OLD + s[j:]
                with open(src, "w") as f:
                    f.write(s)
            elif op["src"] == "text":
                rng = np.random.default_rng(op["seed"])
                parts = [OLD, NEW, "x", " ", "\n", "\n", OLD.replace("2.2", "0.1"), "ü", '"2.2"', "\t", "\r\n", "\u2028", "\x0c"]
                with open(src, "w", newline="") as f:
                    f.write("".join(parts[i] for i in rng.integers(0, len(parts), op["n"] * 4)))
            elif op["src"] == "empty":
                open(src, "w").close()
            elif op["src"] == "nohdr":
                with open(src, "w") as f:
                    f.write("no header here\nversion=\"2.2\"\nlast line without newline")
            elif op["src"] == "latin":      # not UTF-8
                with open(src, "wb") as f:
                    f.write(b"<!-- pi\xe8ce \xff -->\n" + OLD.encode() + b"\nx\n")
            elif op["src"] == "prev" and last and os.path.exists(last):
                src = last
            elif os.path.exists(src):
                os.remove(src)
            if not os.path.exists(src):
                want_raise = True
                content = None
            else:
                content = open(src, "rb").read()
            out = os.path.join(d, "out.vtu")
            if op["out"] == "same":
                out = src
            elif op["out"] == "dot":
                out = os.path.join(d, ".", "in.vtu") if src.startswith(d + os.sep) and src.endswith("in.vtu") else src
            elif op["out"] == "symlink":
                out = os.path.join(d, "link.vtu")
                if os.path.lexists(out):
                    os.remove(out)
                os.symlink(src, out)
            elif op["out"] == "exists" and src != out:
                with open(out, "w") as f:
                    f.write("an older and much longer file " * 4000)
            elif op["out"] == "nodir":
                out = os.path.join(d, "no", "such", "out.vtu")
                shutil.rmtree(os.path.join(d, "no"), ignore_errors=True)
            inplace = os.path.realpath(out) == os.path.realpath(src)

            def fn():
                return u.modify_vtu_file(src, out)
        elif op["op"] == "abaqus":
            src, out = os.path.join(d, "in.inp"), os.path.join(d, "mesh" + op["out"])
            inplace = False
            m = some_mesh(op)
            if op["src"] == "ok":
                meshio.write(src, m, float_fmt=".16e")
                m = meshio.read(src)
            elif op["src"] == "garbage":
                with open(src, "w") as f:
                    f.write("*Heading\n*Node\n1, 0., zero, 0.\n")
                want_raise = True
            else:
                if os.path.exists(src):
                    os.remove(src)
                want_raise = True
            if op["exists"]:
                with open(out, "w") as f:
                    f.write("an older and much longer file " * 4000)

            def fn():
                return u.read_abaqus_and_write_vtk(src, out)
        else:
            src, out, inplace = os.path.join(d, "conf.json"), None, False
            text = json.dumps(op["value"], indent=op["indent"])
            if op["trunc"] is not None:
                text = text[:int(op["trunc"] * len(text))]
            with open(src, "w") as f:
                f.write(text)
            try:
                value = json.loads(text)
            except ValueError:
                want_raise = True
                ctx.fault("truncated_input")
            if op["src"] == "missing":
                os.remove(src)
                want_raise = True
            printed = io.StringIO()

            def fn():
                with contextlib.redirect_stdout(printed):
                    return u.json_parse(src)
        before = fsim.snapshot(root)
        with fsim.faults(ctx, op["faults"], root) as fs:
            res = ops.run(ctx, fn, crash=op.get("crash"))
        if not res.ok and any(f[0] == "fsize" for f in op["faults"]):
            fs.full_disk()
        hit = fs.fired + (["crash"] if res.ctl.fired else [])
        after = fsim.snapshot(root)
        ctx.log(op["op"], "ok" if res.ok else type(res.exc).__name__, *hit)
        rel = None if out is None else os.path.relpath(os.path.realpath(out), root)
        for p in sorted(set(before) | set(after)):
            if p == rel or (out is not None and p == os.path.relpath(out, root)):
                continue
            ctx.expect(p in before, "other-file-changed", f"{name}: wrote {p!r}")
            ctx.expect(after.get(p) == before[p], "input-damaged", f"{name}: {p!r} was changed ({'returned' if res.ok else 'raised'}; faults {hit})")
        if want_raise:
            ctx.expect(not res.ok, "bad-input-accepted", f"{name}: returned although the input was {op.get('src')}/truncated")
            if rel:
                ctx.expect(after.get(rel) == before.get(rel), "input-damaged", f"{name}: a call with an unreadable input changed the output file")
        elif not res.ok and op.get("src") == "latin" and isinstance(res.exc, ValueError):
            ctx.expect(after.get(rel) == before.get(rel), "input-damaged", f"{name}: the output file was changed although the input could not be read")
        elif not res.ok:
            nodir = op.get("out") == "nodir"
            ctx.expect(bool(hit) or nodir, "unexpected-exception", f"{name}: {ops.describe(res.exc)}")
            if any(h.startswith(("open_", "read_")) for h in hit) and op["op"] == "modify" and "crash" not in hit:
                ctx.expect(after.get(rel) == before.get(rel), "input-damaged", f"{name}: the output file was changed although it could not be opened ({hit})")
        elif op["op"] == "modify":
            got = open(out, "rb").read()
            ctx.expect(got == content.replace(OLD.encode(), NEW.encode()), "wrong-content", f"{name} ({op['src']} -> {op['out']}): the output is not the input with the version replaced "
                       f"({len(got)} of {len(content)} bytes)")
            if m is not None and op["src"] == "vtu":
                mesh_equal(ctx, name, meshio.read(out, "vtu"), m, 1e-8)
            last = os.path.realpath(out)
        elif op["op"] == "abaqus":
            try:
                got = meshio.read(out)
            except BaseException as e:
                raise Violation("wrong-content", f"{name}: the converted file cannot be read: {e}")
            mesh_equal(ctx, name, got, m, 1e-12)
        else:
            ctx.expect(repr(res.value) == repr(value), "wrong-content", f"{name}: parsed {res.value!r}, the file holds {value!r}"[:600])
            ctx.expect(repr(json.loads(printed.getvalue())) == repr(value), "wrong-content", f"{name}: printed text is not the configuration")
        if res.ok:
            ctx.probe("verified_" + op["op"])
        if hit or want_raise or inplace:
            ctx.nontrivial = True
        ctx.state_keys.add(f"{op['op']}/{op.get('src')}/{op.get('out')}/{hit}/{res.ok}")


def video(ctx, u, op, root, d, name):
    import pathlib
    log, bin_ = os.path.join(root, "log"), os.path.join(root, "bin")
    shutil.rmtree(log, ignore_errors=True)
    os.makedirs(log)
    os.makedirs(bin_, exist_ok=True)
    with open(os.path.join(bin_, "ffmpeg"), "w") as f:
        f.write(FFMPEG.format(log=log, mode=op["ffmpeg"]))
    os.chmod(os.path.join(bin_, "ffmpeg"), 0o755)
    arg = op["dir"] if op["rel"] else d
    before = fsim.snapshot(os.path.join(root, "w"))
    path = os.environ["PATH"]
    os.environ["PATH"] = bin_ + ":/usr/bin:/bin"
    try:
        res = ops.run(ctx, lambda: u.make_video(pathlib.Path(arg) if op["path"] else arg))
    finally:
        os.environ["PATH"] = path
    if op["ffmpeg"] != "ok":
        ctx.fault("ffmpeg_" + op["ffmpeg"])
    calls = sorted(os.listdir(log))
    ctx.log("video", len(calls), "ok" if res.ok else type(res.exc).__name__)
    ctx.expect(res.ok or op["ffmpeg"] != "ok", "unexpected-exception", f"{name}: {'' if res.ok else ops.describe(res.exc)}")
    ctx.expect(fsim.snapshot(os.path.join(root, "w")) == before, "other-file-changed", f"{name}: files were created or changed by the command line")
    ctx.expect(len(calls) == 1, "wrong-command", f"{name}: ffmpeg was run {len(calls)} times")
    argv = open(os.path.join(log, calls[0])).read().split("\0")[:-1]
    src, dst = f"{arg}/png/tmp/u.%04d.png", f"{arg}/mp4/test.mp4"
    ctx.expect("-i" in argv and os.path.normpath(argv[argv.index("-i") + 1]) == os.path.normpath(src), "wrong-command", f"{name}: input of {argv}")
    ctx.expect(os.path.normpath(argv[-1]) == os.path.normpath(dst), "wrong-command", f"{name}: output of {argv}")
    ctx.expect("-y" in argv and "-pix_fmt" in argv and argv[argv.index("-pix_fmt") + 1] == "yuv420p", "wrong-command", f"{name}: options of {argv}")
    ctx.expect("-vf" in argv and "trunc(iw/2)*2:trunc(ih/2)*2" in argv[argv.index("-vf") + 1], "wrong-command", f"{name}: filter of {argv}")
    ctx.nontrivial = True
    ctx.state_keys.add(f"video/{op['dir']}/{op['rel']}/{op['path']}/{op['ffmpeg']}")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk, v in (("faults", []), ("dir", "d"), ("n", 1), ("value", None), ("ele", "tetra")):
            if kk in op and op[kk] != v:
                yield put(dict(op, **{kk: v}))
        if op.get("crash"):
            yield put({a: b for a, b in op.items() if a != "crash"})
