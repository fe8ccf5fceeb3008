"""C02: what a problem computes depends only on its current inputs, never on its history."""
import numpy as np

from sim import core, env, ops, zoo

lib = None


def setup(job):
    global lib
    lib = env.import_library()


KINDS = ["params"] * 4 + ["bc_update"] * 3 + ["bc_reinstate"] * 3 + ["bc_vals"] * 2 + ["bc_item"] + ["bc_component"] * 3 + ["solve"] * 6 + \
        ["bad_solve"] * 2 + ["probe"] * 3 + ["tangent"] * 2 + ["residual_elsewhere"]


def generate(rng, index, tier, seed):
    cfg = zoo.deck("C02", seed, index, tier)
    cfg.update(mseed=rng.randrange(10**6), jig=rng.choice([0., .15, .25]), warp=rng.choice([0., .3]))
    pool = [cfg["bcs"]] + [zoo.gen_bcs(rng, cfg) for _ in range(3)]
    o = []
    for k in range(rng.choice([6, 8, 10, 12])):
        kind = rng.choice(KINDS)
        op = {"op": kind}
        if kind == "params":
            op["theta"] = zoo.gen_theta(rng, cfg, zoo.gen_keys(rng, cfg))
        elif kind in ("bc_update", "bc_reinstate"):
            op["set"] = rng.randrange(len(pool))
        elif kind == "bc_vals":
            op["vals"] = [round(rng.uniform(-2, 2), 3), rng.randrange(10**6)]
        elif kind == "bc_item":
            op["which"] = rng.randrange(10)
            op["set"] = rng.randrange(len(pool))
        elif kind == "bc_component":
            op["which"] = rng.randrange(10)
        elif kind in ("solve", "bad_solve"):
            op["lin"] = rng.choice([{"custom": 1}, {"custom": 1}] + ops.LINEAR)
            op["style"] = rng.choice(["nested", "flat"])
            op["actions"] = [] if kind == "solve" else ops.gen_actions(rng) + [["raise", "RuntimeError"]]
            op["via"] = rng.choice(["solver", "solver", "ad"])
        elif kind in ("probe", "tangent", "residual_elsewhere"):
            op["useed"] = rng.randrange(10**6)
        o.append(op)
    o.append({"op": "solve", "lin": {"custom": 1}, "style": "nested", "actions": [], "via": "solver"})
    return {"config": cfg, "pool": pool, "ops": o}


def execute(plan, ctx):
    import jax.numpy as jnp
    cfg, pool = plan["config"], plan["pool"]
    model = zoo.Model(cfg)
    problem = model.problem(lib, pool[0])
    S = lib["solver"]
    theta = {}
    base = model.ref_bcs(pool[0])               # Dirichlet sets in force
    saved = {0: ([(list(fe.node_inds_list), list(fe.vec_inds_list), list(fe.vals_list)) for fe in problem.fes], base)}
    fwd = {}
    mutations = 0

    def state():
        return model.state({k: v for k, v in theta.items() if k != "bc"}, base)

    def hook_for(name, st):
        y = np.zeros(model.ref.n)
        n = [0]

        def hook(M, b, x):
            nonlocal y
            if np.all(np.isfinite(y)) and n[0] < 3:
                R, A = model.ref.system(y, st)
                sa, sb = np.abs(A).max() + 1e-30, np.abs(R).max() + 1e-3 * np.abs(A).max() + 1e-30
                ctx.expect(np.abs(M - A).max() <= 1e-8 * sa, "wrong-tangent",
                           f"{name}: tangent passed to the linear solver differs from the derivative of the residual "
                           f"by {np.abs(M - A).max():.3g} (scale {sa:.3g}) in iteration {n[0]}")
                ctx.expect(np.abs(b + R).max() <= 1e-8 * sb, "wrong-rhs",
                           f"{name}: right-hand side differs from minus the residual by {np.abs(b + R).max():.3g} "
                           f"in iteration {n[0]}")
            y = y + x
            n[0] += 1
        return hook

    for k, op in enumerate(plan["ops"]):
        name = f"op {k} {op['op']}"
        kind = op["op"]
        ctx.log("op", kind)

        def guarded(fn, **kw):
            res = ops.run(ctx, fn, **kw)
            if not res.ok and not (res.lin and res.lin.fired) and not ops.refusal(res.exc, op.get("lin"), model, state()):
                ctx.expect(False, "unexpected-exception", f"{name}: {ops.describe(res.exc)}")
            return res
        if kind == "params":
            t = op["theta"]
            keys = list(t)
            if "bc" in keys:
                vals = model.bc_vals(base, t["bc"])
                base = [[(ni, vi, v) for (ni, vi, _), v in zip(lst, row)] for lst, row in zip(base, vals)]
                prm = model.lib_params({x: t[x] for x in keys if x != "bc"}, [x for x in keys if x != "bc"])
                prm["bc"] = [[jnp.asarray(v) for v in row] for row in vals]
            else:
                prm = model.lib_params(t, keys)
            guarded(lambda: problem.set_params(prm))
            theta.update(t)
            mutations += 1
        elif kind == "bc_update":
            for v, fe in enumerate(problem.fes):
                info = zoo.bc_info(pool[op["set"]], model.L, v, jnp)
                guarded(lambda: fe.update_Dirichlet_boundary_conditions(info))
            base = model.ref_bcs(pool[op["set"]])
            saved[op["set"]] = ([(list(fe.node_inds_list), list(fe.vec_inds_list), list(fe.vals_list))
                                 for fe in problem.fes], base)
            mutations += 1
        elif kind == "bc_reinstate":
            if op["set"] in saved:
                lists, base = saved[op["set"]]
                for fe, (a, b, c) in zip(problem.fes, lists):
                    fe.node_inds_list, fe.vec_inds_list, fe.vals_list = list(a), list(b), list(c)
                mutations += 1
                ctx.probe("reinstated")
        elif kind == "bc_vals":
            vals = model.bc_vals(base, op["vals"])
            base = [[(ni, vi, v) for (ni, vi, _), v in zip(lst, row)] for lst, row in zip(base, vals)]
            for fe, row in zip(problem.fes, vals):
                fe.vals_list = [jnp.asarray(v) for v in row]
        elif kind == "bc_item":
            # replace one entry of the current lists, in place, by an entry of a saved set
            if op["set"] in saved:
                lists, sb = saved[op["set"]]
                for v, fe in enumerate(problem.fes):
                    if fe.node_inds_list and lists[v][0]:
                        i, j = op["which"] % len(fe.node_inds_list), op["which"] % len(lists[v][0])
                        fe.node_inds_list[i], fe.vec_inds_list[i] = lists[v][0][j], lists[v][1][j]
                        fe.vals_list = list(fe.vals_list)
                        fe.vals_list[i] = lists[v][2][j]
                        base = [list(r) for r in base]
                        base[v][i] = sb[v][j]
                        mutations += 1
        elif kind == "bc_component":
            # the same nodes, another component of the variable
            for v, fe in enumerate(problem.fes):
                if fe.vec > 1 and base[v]:
                    i = op["which"] % len(base[v])
                    ni, vi, va = base[v][i]
                    vn = (np.asarray(vi) + 1) % fe.vec
                    others = {(int(a), int(b)) for j, (x, y, _) in enumerate(base[v]) if j != i for a, b in zip(x, y)}
                    if not others & {(int(a), int(b)) for a, b in zip(ni, vn)}:
                        fe.vec_inds_list = list(fe.vec_inds_list)
                        fe.vec_inds_list[i] = jnp.asarray(vn)
                        base = [list(r) for r in base]
                        base[v][i] = (ni, vn, va)
                        mutations += 1
                        ctx.probe("component_switched")
        elif kind in ("solve", "bad_solve"):
            st = state()
            opts = ops.newton_options(op)
            custom = bool(op["lin"]) and "custom" in op["lin"]
            hook = hook_for(name, st) if custom else None
            if op["via"] == "ad" and not any(k2 in theta for k2 in ("bc",)):
                key = str(op["lin"]) + op["style"]
                if key not in fwd:
                    fwd[key] = S.ad_wrapper(problem, opts)
                prm = model.lib_params({x: v for x, v in theta.items() if x != "bc"}, [x for x in theta if x != "bc"] or ["sc"])
                res = guarded(lambda: fwd[key](prm), actions=op["actions"], hook=hook)
            else:
                res = guarded(lambda: S.solver(problem, opts), actions=op["actions"], hook=hook)
            if res.ok:
                U, r = ops.check_solution(ctx, model, st, res.value, what=name)
                ctx.log("solved", core.rnd(np.abs(U).sum(), 6), *res.lin.fired)
                if mutations:
                    ctx.nontrivial = True
            else:
                ctx.log("failed", type(res.exc).__name__, *res.lin.fired)
                mutations += 1
        elif kind in ("probe", "tangent", "residual_elsewhere"):
            st = state()
            U = np.random.default_rng(op["useed"]).standard_normal(model.ref.d.N) * .5
            sl = problem.unflatten_fn_sol_list(jnp.asarray(U))
            want, A = model.ref.full(U, st, jac=kind == "tangent", bc=False)
            sc = np.abs(want).max() + 1e-30
            if kind == "tangent":
                got = ops.flat(guarded(lambda: problem.newton_update(sl)).value)
                M = boundary_csr(guarded(lambda: S.get_A(problem)).value)
                _, Abc = model.ref.full(U, st, jac=True)
                if model.P is not None:
                    Abc = model.P.T @ Abc @ model.P
                ctx.expect(M.shape == Abc.shape and np.abs(M - Abc).max() <= 1e-8 * np.abs(Abc).max(), "wrong-tangent",
                           f"{name}: global tangent differs from the derivative of the residual")
            else:
                got = ops.flat(guarded(lambda: problem.compute_residual(sl)).value)
            ctx.expect(np.abs(got - want).max() <= 1e-8 * sc, "wrong-residual",
                       f"{name}: residual differs from the reference by {np.abs(got - want).max():.3g} (scale {sc:.3g})")
        ctx.state_keys.add(f"{cfg['kind']}/{cfg['ele']}/{kind}/{min(mutations, 6)}")


def boundary_csr(A):
    from sim import boundary
    return boundary.csr_of(A).toarray()


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        for kk, v in (("actions", []), ("lin", {"spsolve_solver": {}}), ("via", "solver"), ("style", "nested")):
            if kk in op and op[kk] != v and not (kk == "actions" and op["op"] == "bad_solve"):
                yield dict(plan, ops=plan["ops"][:k] + [dict(op, **{kk: v})] + plan["ops"][k + 1:])
        for t in list(op.get("theta", {})):
            th = {a: b for a, b in op["theta"].items() if a != t}
            if th:
                yield dict(plan, ops=plan["ops"][:k] + [dict(op, theta=th)] + plan["ops"][k + 1:])
    cfg = plan["config"]
    for kk, v in (("jig", 0.), ("warp", 0.)):
        if cfg[kk] != v:
            yield dict(plan, config=dict(cfg, **{kk: v}))
