"""C11: the AMGX backend gives a checked solution or raises, and releases every device object."""
import json
import os

import numpy as np

from sim import amgx, core, env, ops, zoo
from sim.props.c03 import check_grad
from sim.props.c04 import concrete

lib = None
NAPI = 14


def setup(job):
    global lib
    amgx.install()
    lib = env.import_library()
    assert lib["solver"].PYAMGX_AVAILABLE


def gen_script(rng, adj=False):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        n = 1 if adj else rng.choice([1, 1, 2, 3])
        if rng.random() < .45:
            out.append(["api", n, rng.randrange(1, NAPI), rng.choice(["AMGXError", "AMGXError", "MemoryError", "KeyboardInterrupt", "ValueError"])])
        elif adj:
            out.append(["ans", n, rng.choice([["nan"], ["inf", 3], ["zero"], ["negate"], ["garbage", 10., 7], ["scale", 5.]])])
        else:
            out.append(["ans", n, rng.choice([["nan"], ["inf", 3], ["zero"], ["negate"], ["garbage", 10., 7], ["scale", .5], ["scale", 1.5], ["perturb", .1, 5], ["perturb", 1e-6, 5], ["stale"]])])
    return out


def generate(rng, index, tier, seed):
    cfg = zoo.deck("C11", seed, index, tier, small=1., quick=6)
    cfg.update(mseed=rng.randrange(10**6), jig=rng.choice([0., .15]), warp=rng.choice([0., .3]))
    keys = zoo.gen_keys(rng, cfg)
    o = []
    for k in range(rng.choice([3, 4, 5])):
        kind = rng.choice(["solve", "solve", "solve", "grad", "grad"])
        op = {"op": kind, "theta": zoo.gen_theta(rng, cfg, keys), "cfg": rng.choice([None, None, "a.json", "sub dir/b.json", "missing.json"]),
              "none": rng.random() < .3, "script": gen_script(rng) if rng.random() < .7 else []}
        if kind == "solve":
            op.update(ls=cfg["kind"] != "periodic" and rng.random() < .25, style=rng.choice(["nested", "flat"]), guess=cfg["kind"] != "periodic" and rng.random() < .3,
                      tol=rng.choice([None, 1e-6, 1e-9]))
        else:
            op.update(fwd=rng.choice(["amgx", "spsolve"]), ascript=gen_script(rng, True) if rng.random() < .7 else [], mag=rng.choice([0, 0, -6, -30, 9]), seed=rng.randrange(10**6))
        o.append(op)
    # a burst of attempts of one solve, each with a failure at another AMGX call
    o.insert(rng.randrange(len(o) + 1), {"op": "burst", "theta": zoo.gen_theta(rng, cfg, keys), "cfg": rng.choice([None, "a.json"]), "none": False,
                                         "at": [[rng.choice([1, 1, 2]), k, rng.choice(["AMGXError", "MemoryError", "KeyboardInterrupt"])] for k in rng.sample(range(1, NAPI), 7)]})
    return {"config": cfg, "keys": keys, "ops": o}


def amgx_opts(op, root):
    if op["cfg"] is None:
        return {"amgx_solver": {"cfg_path": None} if op["none"] else {}}, None
    p = os.path.join(root, op["cfg"])
    return {"amgx_solver": {"cfg_path": p}}, p


def device(ctx, reg, name, path, used, res):
    ctx.expect(not reg.errors, "device-misuse", f"{name}: {reg.errors[:3]}")
    ctx.expect(not reg.live, "device-leak", f"{name}: {len(reg.live)} device objects were not destroyed ({', '.join(type(o).__name__ for o in reg.live)}) after {reg.fired or 'a normal solve'}")
    ctx.expect(not reg.overrun, "no-progress", f"{name}: more than {reg.limit} linear solves")
    if used:
        for kind, what in reg.cfgs:
            ctx.expect((kind, what) == ("file", path) if path else kind != "file", "wrong-config", f"{name}: configuration created from {kind} {what if kind == 'file' else ''}, asked for {path}")
    for f in reg.fired:
        ctx.fault(f)
    ctx.probe("device_objects", reg.created)


def execute(plan, ctx):
    import jax
    import jax.numpy as jnp
    cfg, keys = plan["config"], plan["keys"]
    model = zoo.Model(cfg)
    problem = model.problem(lib)
    S = lib["solver"]
    base0 = model.ref_bcs(cfg["bcs"])
    N = model.ref.d.N
    root = env.scratch("tmp", "c11")
    os.makedirs(os.path.join(root, "sub dir"), exist_ok=True)
    for n, tol in (("a.json", 1e-11), ("sub dir/b.json", 1e-10)):
        with open(os.path.join(root, n), "w") as f:
            json.dump({"config_version": 2, "solver": {"solver": "PBICGSTAB", "tolerance": tol, "convergence": "ABSOLUTE", "monitor_residual": 1}}, f)

    def make(t):
        prm = model.lib_params({x: v for x, v in t.items() if x != "bc"}, [x for x in t if x != "bc"])
        bc = base0
        if "bc" in t:
            vals = model.bc_vals(base0, t["bc"])
            bc = [[(ni, vi, v) for (ni, vi, _), v in zip(lst, row)] for lst, row in zip(base0, vals)]
            prm["bc"] = [[jnp.asarray(v) for v in row] for row in vals]
        return prm, bc, model.state({k: v for k, v in t.items() if k != "bc"}, bc)

    for k, op in enumerate(plan["ops"]):
        lin, path = amgx_opts(op, root)
        missing = op["cfg"] == "missing.json"
        prm, bc, st = make(op["theta"])
        name = f"op {k} {op['op']} (cfg {op['cfg']})"
        if op["op"] == "burst":
            problem.set_params(prm)
            fired = []
            for at in op["at"] + [None]:
                reg = amgx.begin([["api", *at]] if at else [])
                res = ops.run(ctx, lambda: jax.block_until_ready(S.solver(problem, {"newton": {"linear": lin}})))
                device(ctx, reg, f"{name} attempt {at}", path, True, res)
                fired += reg.fired
                ctx.log("attempt", "ok" if res.ok else type(res.exc).__name__, *reg.fired)
                if res.ok:
                    ctx.expect(reg.nsolve > 0, "backend-not-used", f"{name}: AMGX was never called")
                    ops.check_solution(ctx, model, st, res.value, 1e-6, what=f"{name} attempt {at}")
                else:
                    ctx.expect(bool(reg.fired), "unexpected-exception", f"{name} attempt {at}: {ops.describe(res.exc)}")
        elif op["op"] == "solve":
            problem.set_params(prm)
            nw = {} if op["tol"] is None else {"tol": op["tol"]}
            if op["ls"]:
                nw["line_search_flag"] = True
            if op["guess"]:
                nw["initial_guess"] = problem.unflatten_fn_sol_list(jnp.asarray(.3 * np.random.default_rng(k).standard_normal(N)))
            opts = dict(nw, **lin) if op["style"] == "flat" else {"newton": dict(nw, linear=lin)}
            reg = amgx.begin(op["script"])
            res = ops.run(ctx, lambda: jax.block_until_ready(S.solver(problem, opts)))
            device(ctx, reg, name, path, True, res)
            ctx.expect(reg.nsolve > 0 or not res.ok, "backend-not-used", f"{name}: AMGX was never called")
            if res.ok:
                ctx.expect(not missing, "bad-config-accepted", f"{name}: solved although the configuration file does not exist")
                ops.check_solution(ctx, model, st, res.value, op["tol"] or 1e-6, what=name,
                                   guess=None if not op["guess"] else .3 * np.random.default_rng(k).standard_normal(N))
            else:
                ctx.expect(bool(reg.fired) or missing, "unexpected-exception", f"{name}: {ops.describe(res.exc)}")
            ctx.log("solve", "ok" if res.ok else type(res.exc).__name__, *reg.fired)
            fired = list(reg.fired)
        else:
            fl = lin if op["fwd"] == "amgx" else {"spsolve_solver": {}}
            fn = S.ad_wrapper(problem, {"newton": {"linear": fl}}, lin)
            reg = amgx.begin(op["script"] if op["fwd"] == "amgx" else [])

            def forward():
                out = jax.vjp(fn, prm)
                jax.block_until_ready(out[0])
                return out
            res = ops.run(ctx, forward)
            device(ctx, reg, name + " forward", path, op["fwd"] == "amgx", res)
            fired = list(reg.fired)
            if not res.ok:
                ctx.expect(bool(reg.fired) or (missing and op["fwd"] == "amgx"), "unexpected-exception", f"{name} forward: {ops.describe(res.exc)}")
                ctx.log("forward failed", type(res.exc).__name__, *reg.fired)
            else:
                sol, pull = res.value
                U, _ = ops.check_solution(ctx, model, st, sol, what=name + " forward")
                r = np.random.default_rng(op["seed"])
                ct = r.standard_normal(N)
                mag = 10. ** op["mag"]
                ctl = problem.unflatten_fn_sol_list(jnp.asarray(ct * mag))
                for attempt, script in enumerate((op["ascript"], [])):
                    reg = amgx.begin(script)
                    res = ops.run(ctx, lambda: jax.block_until_ready(pull(ctl)))
                    device(ctx, reg, f"{name} pullback", path, True, res)
                    fired += reg.fired
                    ctx.log("pull", "ok" if res.ok else type(res.exc).__name__, *reg.fired)
                    if res.ok:
                        ctx.expect(not missing, "bad-config-accepted", f"{name}: pulled back although the configuration file does not exist")
                        ctx.expect(reg.nsolve > 0, "backend-not-used", f"{name}: AMGX was not called for the adjoint solve")
                        g = jax.tree_util.tree_map(lambda a: a / mag, res.value[0])
                        check_grad(ctx, model, op["theta"], keys, bc, op["theta"], U, g, f"{name} pullback after {reg.fired}", w=ct, tol=1e-5)
                        break
                    ctx.expect(bool(reg.fired) or missing, "unexpected-exception", f"{name} pullback{' retried' if attempt else ''}: {ops.describe(res.exc)}")
                    if missing:
                        break
            concrete(ctx, problem, name)
        if fired or missing:
            ctx.nontrivial = True
        ctx.state_keys.add(f"{cfg['kind']}/{op['op']}/{op['cfg']}/{sorted(set(fired))}/{res.ok}")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        if len(op.get("at", [])) > 1:
            for j in range(len(op["at"])):
                yield put(dict(op, at=op["at"][:j] + op["at"][j + 1:]))
        for kk, v in (("script", []), ("ascript", []), ("cfg", None), ("none", False), ("ls", False), ("guess", False), ("mag", 0), ("tol", None)):
            if kk in op and op[kk] != v:
                yield put(dict(op, **{kk: v}))
        for kk in ("script", "ascript"):
            for j in range(len(op.get(kk) or [])):
                if len(op[kk]) > 1:
                    yield put(dict(op, **{kk: op[kk][:j] + op[kk][j + 1:]}))
