"""C01: a nonlinear solve returns a verified equilibrium or raises, whatever the linear solver does."""
import numpy as np

from sim import core, env, ops, zoo

lib = None


def setup(job):
    global lib
    lib = env.import_library()


def generate(rng, index, tier, seed):
    cfg = zoo.deck("C01", seed, index, tier, limited=.4)
    cfg.update(mseed=rng.randrange(10**6), jig=rng.choice([0., .15, .25]), warp=rng.choice([0., .3]))
    o = []
    for k in range(rng.choice([2, 3, 3, 4])):
        op = {"lin": rng.choice(ops.LINEAR), "style": rng.choice(["nested", "nested", "flat", "nolin"]),
              "tol": rng.choice([None, 1e-6, 1e-9, 1e-4]), "rel_tol": rng.choice([None, 1e-8, 1e-10, 1e-5]),
              "theta": zoo.gen_theta(rng, cfg, zoo.gen_keys(rng, cfg)),
              "actions": ops.gen_actions(rng), "guess": None, "ls": False}
        if cfg["kind"] != "periodic":
            op["ls"] = rng.random() < .25
            op["guess"] = rng.choice([None, None, ["noise", rng.choice([.01, .5, 3.]), rng.randrange(10**6)], ["prev"]])
            if rng.random() < .06:
                op["guess"] = ["nan", rng.randrange(1000)]
        o.append(op)
    return {"config": cfg, "ops": o}


def execute(plan, ctx):
    import jax.numpy as jnp
    cfg = plan["config"]
    model = zoo.Model(cfg)
    problem = model.problem(lib)
    solver = lib["solver"].solver
    bc0 = model.ref_bcs(cfg["bcs"])
    prev = None
    theta = {}
    for k, op in enumerate(plan["ops"]):
        theta = dict(theta, **op["theta"])
        keys = list(op["theta"])
        problem.set_params(model.lib_params(op["theta"], keys))
        st = model.state(theta, bc0)
        guess = None
        g = op["guess"]
        nan_guess = False
        if g is not None:
            if g[0] == "noise":
                guess = g[1] * np.random.default_rng(g[2]).standard_normal(model.ref.d.N)
            elif g[0] == "prev" and prev is not None:
                guess = prev
            elif g[0] == "nan":
                guess = np.zeros(model.ref.d.N)
                guess[g[1] % len(guess)] = np.nan
                nan_guess = True
                ctx.fault("nan_initial_guess")
        o = dict(op, _guess=None if guess is None else problem.unflatten_fn_sol_list(jnp.asarray(guess)))
        opts = ops.newton_options(o)
        ctx.log("solve", str(sorted(opts.get("newton", opts))), str(op["lin"]), str(op["actions"]), str(g))
        res = ops.run(ctx, lambda: solver(problem, opts), actions=op["actions"])
        faults = list(res.lin.fired) + (["nan_guess"] if nan_guess else [])
        name = f"op {k}"
        tol = op["tol"] if op["tol"] is not None else 1e-6
        rel = op["rel_tol"] if op["rel_tol"] is not None else 1e-8
        if res.ok:
            U, r = ops.check_solution(ctx, model, st, res.value, tol, rel, guess, name)
            prev = U
            ctx.log("solved", *faults, res.lin.n, core.rnd(r, 2) if r > 1e-13 else "0", core.rnd(np.abs(U).sum(), 6))
            if faults:
                ctx.nontrivial = True
                ctx.probe("recovered_from_fault")
        else:
            left = "lg" in cfg["coef"] and isinstance(res.exc, AssertionError) and "NaN" in str(res.exc)
            ctx.expect(bool(faults) or left or ops.refusal(res.exc, op["lin"] or {}, model, st), "unexpected-exception",
                       f"{name}: solve with no fault raised {ops.describe(res.exc)}")
            ctx.log("raised", type(res.exc).__name__, *faults, res.lin.n)
            ctx.nontrivial = True
            ctx.probe("fault_reported")
        ctx.state_keys.add(f"{cfg['kind']}/{cfg['ele']}/{list(op['lin'] or ['default'])[0] if op['lin'] else 'default'}/{op['ls']}/{sorted(set(faults))}/{res.ok}")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        for kk, v in (("actions", []), ("guess", None), ("ls", False), ("tol", None), ("rel_tol", None),
                      ("theta", {}), ("style", "nested"), ("lin", {"spsolve_solver": {}})):
            if op[kk] != v:
                yield dict(plan, ops=plan["ops"][:k] + [dict(op, **{kk: v})] + plan["ops"][k + 1:])
        for j in range(len(op["actions"])):
            yield dict(plan, ops=plan["ops"][:k] + [dict(op, actions=op["actions"][:j] + op["actions"][j + 1:])]
                       + plan["ops"][k + 1:])
    cfg = plan["config"]
    for kk, v in (("surfs", []), ("jig", 0.), ("warp", 0.)):
        if cfg[kk] != v and not (kk == "surfs" and any("surf" in o["theta"] for o in plan["ops"])):
            yield dict(plan, config=dict(cfg, **{kk: v}))
