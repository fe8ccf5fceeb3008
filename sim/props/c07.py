"""C07: dynamic relaxation returns an equilibrium that satisfies the Dirichlet data, or raises."""
import numpy as np

from sim import core, env, ops, zoo
from sim.core import Violation
from sim.props.c03 import check_grad

lib = None


def setup(job):
    global lib
    lib = env.import_library()


def make_cfg(rng, j):
    cfg = zoo.gen_config(rng, dims=(2 + j % 2,), kinds=(("scalar", "elastic")[j // 2 % 2],), small=True, max_surf=1,
                         eles=["QUAD4", "TRI3", "QUAD8", "HEX8", "TET4"])
    cfg["bcs"] = zoo.gen_bcs(rng, cfg, lo=1)
    cfg["jig"], cfg["warp"] = rng.choice([0., .15]), rng.choice([0., .3])
    cfg["coef"]["gamma"] = min(cfg["coef"]["gamma"], .5)
    cfg["coef"]["beta"] = min(cfg["coef"]["beta"], .3)
    return cfg


def generate(rng, index, tier, seed):
    cfg = core.deck("C07", seed, index, 8 if tier == "quick" else 64, make_cfg)
    keys = ["field", "sc"] + (["surf"] if cfg["surfs"] else []) + (["bc"] if rng.random() < .5 else [])
    o = []
    for k in range(rng.choice([1, 2, 2, 3])):
        op = {"op": rng.choice(["relax"] * 4 + ["grad"]), "theta": zoo.gen_theta(rng, cfg, keys),
              "lin": rng.choice([None] + ops.LINEAR), "tol": rng.choice([None, 1e-6, 1e-8, 1e-4]),
              "nKMat": rng.choice([None, None, 5, 50]), "nPrint": rng.choice([None, 1, 7]), "info": rng.random() < .5,
              "guess": rng.choice([None, None, ["noise", rng.choice([.01, .5, 30.]), rng.randrange(10**6)], ["nan", rng.randrange(1000)], ["prev"]]),
              "actions": []}
        if rng.random() < .5:
            op["actions"] = ops.gen_actions(rng, n_max=1)[:1]
        if rng.random() < .15:
            op["crash"] = {"nth": rng.randrange(10, 140), "visit": rng.choice([1, 1, 5, 20]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        if rng.random() < .12:
            # heavy load on an undeformed start: the explicit iteration may blow up, and must then raise
            op["guess"], op["nKMat"] = ["heavy"], None
            op["theta"]["sc"][1] = rng.choice([-1, 1]) * rng.choice([50., 1000., 1e5])
        if rng.random() < .25:
            op["set"] = zoo.gen_bcs(rng, cfg, lo=1)
        o.append(op)
    return {"config": cfg, "keys": keys, "ops": o}


def execute(plan, ctx):
    import jax
    import jax.numpy as jnp
    cfg = plan["config"]
    model = zoo.Model(cfg)
    problem = model.problem(lib)
    S = lib["solver"]
    N = model.ref.d.N
    sets, prev, theta = cfg["bcs"], None, {}
    for k, op in enumerate(plan["ops"]):
        name = f"op {k} {op['op']}"
        if op.get("set"):
            sets = op["set"]
        if op.get("set") or "bc" in op["theta"]:
            for v, fe in enumerate(problem.fes):
                fe.update_Dirichlet_boundary_conditions(zoo.bc_info(sets, model.L, v, jnp))
        base = model.ref_bcs(sets)
        t = op["theta"]
        prm = model.lib_params({x: v for x, v in t.items() if x != "bc"}, [x for x in t if x != "bc"])
        if "bc" in t:
            vals = model.bc_vals(base, t["bc"])
            base = [[(ni, vi, v) for (ni, vi, _), v in zip(lst, row)] for lst, row in zip(base, vals)]
            prm["bc"] = [[jnp.asarray(v) for v in row] for row in vals]
        st = model.state({x: v for x, v in t.items() if x != "bc"}, base)
        c = {x: op[x] for x in ("tol", "nKMat", "nPrint") if op[x] is not None}
        c.update(info=op["info"], info_force=op["info"])
        if op["lin"] is not None:
            c["linear"] = ops.linear_options(op["lin"])
        g, bad_guess = op["guess"], False
        guess = None
        if g is not None:
            if g[0] == "noise":
                if g[1] > 10:
                    bad_guess = True       # may diverge, must then raise
                    ctx.fault("wild_initial_guess")
                guess = g[1] * np.random.default_rng(g[2]).standard_normal(N)
            elif g[0] == "nan":
                guess = np.zeros(N)
                guess[g[1] % N] = np.nan
                bad_guess = True
                ctx.fault("nan_initial_guess")
            elif g[0] == "heavy":
                guess, bad_guess = np.zeros(N), True
                ctx.fault("heavy_load_from_rest")
            elif prev is not None:
                guess = prev
        if guess is not None:
            c["initial_guess"] = problem.unflatten_fn_sol_list(jnp.asarray(guess))
        opts = {"dynamic_relax": c}
        ctx.log(op["op"], str(op["lin"]), str(op["actions"]), str(g and g[0]), str(op["nKMat"]))

        def fn():
            if op["op"] == "relax":
                problem.set_params(prm)
                return S.solver(problem, opts), None
            sol, pull = jax.vjp(S.ad_wrapper(problem, opts, {"spsolve_solver": {}}), prm)
            return sol, pull([jnp.ones_like(s) for s in sol])[0]
        try:
            res = ops.run(ctx, fn, actions=op["actions"], crash=op.get("crash"), budget=120_000 if bad_guess else 250_000)
        except Violation as v:
            if v.cls == "no-progress" and bad_guess:
                ctx.log("slow from a bad start")
                continue
            raise
        faults = [*res.lin.fired, *(["bad_guess"] if bad_guess else []), *(["crash"] if res.ctl.fired else [])]
        lin = op["lin"] if op["lin"] is not None else {"custom": 1}
        if not res.ok:
            ctx.expect(bool(faults) or ops.refusal(res.exc, lin, model, st), "unexpected-exception", f"{name}: {ops.describe(res.exc)}")
            ctx.log("raised", *faults)
            ctx.nontrivial = True
            continue
        sol, grad = res.value
        shapes = [tuple(np.shape(s)) for s in sol]
        ctx.expect(shapes == [(n, v) for n, v in zip(model.ref.d.nn, model.ref.d.vecs)], "wrong-shape", f"{name}: {shapes}")
        U = ops.flat(sol)
        ctx.expect(np.all(np.isfinite(U)), "nonfinite-solution", f"{name}: returned solution is not finite (faults {faults})")
        tol = op["tol"] if op["tol"] is not None else 1e-6
        R, A = model.ref.full(U, st, jac=True, bc=False)
        mask = np.zeros(N, bool)
        for i, lst in enumerate(base):
            for ni, vi, vals in lst:
                ix = model.ref.d.off[i] + ni * model.ref.d.vecs[i] + vi
                mask[ix] = True
        full = model.ref.full(U, st)[0]
        err = np.abs(full[mask]).max() if mask.any() else 0.
        ctx.expect(err <= 1e-10 * (1 + np.abs(U).max()), "dirichlet-violated", f"{name}: Dirichlet values missed by {err:.3g} (faults {faults})")
        r = np.abs(R[~mask]).max() if (~mask).any() else 0.
        ctx.expect(r <= tol * (1 + 1e-6) + 1e-11 * (np.abs(A) @ np.abs(U)).max(), "not-equilibrium",
                   f"{name}: largest free residual {r:.4g} exceeds the tolerance {tol:.3g} (faults {faults})")
        if grad is not None:
            check_grad(ctx, model, t, plan["keys"], base, t, U, grad, name)
        prev = U
        if faults:
            ctx.nontrivial = True
            ctx.probe("recovered_from_fault")
        ctx.probe("relaxed")
        ctx.log("relaxed", core.rnd(np.abs(U).sum(), 4))
        ctx.state_keys.add(f"{cfg['kind']}/{cfg['ele']}/{op['op']}/{op['nKMat']}/{g and g[0]}/{sorted(set(faults))}")
    st = None


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk, v in (("actions", []), ("guess", None), ("nKMat", None), ("nPrint", None), ("tol", None), ("lin", None), ("info", False), ("op", "relax")):
            if op.get(kk) != v:
                yield put(dict(op, **{kk: v}))
        for kk in ("crash", "set"):
            if op.get(kk):
                yield put({a: b for a, b in op.items() if a != kk})
