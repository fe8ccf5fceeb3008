"""C03: an operation interrupted at any point leaves the problem usable."""
import random

import numpy as np

from sim import boundary, core, env, ops, zoo

lib = None
EXC = ["KeyboardInterrupt", "MemoryError", "InjectedFault", "SystemExit", "RuntimeError"]
# about how many distinct library lines each operation executes
SPAN = {"solve": 190, "ad": 200, "grad": 330, "params": 90, "bc_update": 45, "tangent": 110, "residual": 60}


def setup(job):
    global lib
    lib = env.import_library()


def generate(rng, index, tier, seed):
    cfg = zoo.deck("C03", seed, index, tier, small=.6)
    cfg.update(mseed=rng.randrange(10**6), jig=rng.choice([0., .15]), warp=rng.choice([0., .3]))
    pool = [cfg["bcs"]] + [zoo.gen_bcs(rng, cfg, lo=1) for _ in range(2)]
    keys = zoo.gen_keys(rng, cfg)
    o = []
    for k in range(rng.choice([3, 5, 7])):
        kind = rng.choice(["solve"] * 5 + ["ad"] * 2 + ["grad"] * 2 + ["params"] * 2 + ["bc_update"] * 3 + ["bc_old"] * 4
                          + ["tangent", "residual"])
        op = {"op": kind, "lin": rng.choice([{"custom": 1}, {"spsolve_solver": {}}, {"petsc_solver": {}}, {"jax_solver": {}}]),
              "ls": cfg["kind"] != "periodic" and rng.random() < .2,
              "check": rng.random() < .45}
        if kind in ("ad", "grad", "params"):
            op["theta"] = zoo.gen_theta(rng, cfg, keys)
        if kind in ("bc_update", "bc_old"):
            op["set"] = rng.randrange(len(pool))
        if kind != "bc_old" and rng.random() < .7:
            lo = 1
            if kind == "solve" and rng.random() < .5:
                lo = 60          # past the residual evaluation: tangent, rows, linear solve
            op["crash"] = {"nth": rng.randrange(lo, SPAN[kind]), "visit": rng.choice([1, 1, 1, 2, 3, 7]), "exc": rng.choice(EXC)}
            op["look"] = rng.choice(["tangent", "tangent", "gradient", None])
        o.append(op)
    for _ in range(rng.choice([1, 1, 2])):
        # boundary data changed, the next solve interrupted around its tangent assembly, earlier data reinstated
        a, b = rng.sample(range(len(pool)), 2)
        lin = rng.choice([{"custom": 1}, {"spsolve_solver": {}}])
        at = rng.randrange(len(o) + 1)
        o[at:at] = [{"op": "bc_update", "set": a, "lin": lin, "ls": False, "check": True},
                    {"op": "bc_update", "set": b, "lin": lin, "ls": False, "check": False},
                    {"op": "solve", "lin": lin, "ls": False, "check": False,
                     "crash": {"nth": rng.randrange(100, 160), "visit": rng.choice([1, 1, 2, 3]), "exc": rng.choice(EXC)},
                     "look": rng.choice(["tangent", None])},
                    {"op": "bc_old", "set": a, "lin": lin, "ls": False, "check": True}]
    return {"config": cfg, "pool": pool, "keys": keys, "ops": o}


def execute(plan, ctx):
    import jax
    import jax.numpy as jnp
    cfg, pool, keys = plan["config"], plan["pool"], plan["keys"]
    model = zoo.Model(cfg)
    problem = model.problem(lib, pool[0])
    S = lib["solver"]
    theta = {}
    base = model.ref_bcs(pool[0])
    saved = {0: ([(list(fe.node_inds_list), list(fe.vec_inds_list), list(fe.vals_list)) for fe in problem.fes], base)}
    fwd = S.ad_wrapper(problem, {"newton": {"linear": {"spsolve_solver": {}}}}, {"spsolve_solver": {}})
    crashes = [0]

    def install(t):
        """set_params for a parameter description, including 'bc' values for the current sets."""
        nonlocal base
        prm = model.lib_params({x: v for x, v in t.items() if x != "bc"}, [x for x in t if x != "bc"])
        if "bc" in t:
            vals = model.bc_vals(base, t["bc"])
            nb = [[(ni, vi, v) for (ni, vi, _), v in zip(lst, row)] for lst, row in zip(base, vals)]
            prm["bc"] = [[jnp.asarray(v) for v in row] for row in vals]
            return prm, nb
        return prm, base

    lin_of = {}

    def state():
        return model.state({k: v for k, v in theta.items() if k != "bc"}, base)

    def run(name, fn, crash):
        res = ops.run(ctx, fn, crash=crash)
        if not res.ok and not res.ctl.fired and ops.refusal(res.exc, lin_of.get("lin"), model, state()):
            ctx.probe("iterative_solver_refused")
            return res
        if not res.ok and not res.ctl.fired:
            ctx.expect(False, "unexpected-exception", f"{name} (after {crashes[0]} interruptions): {ops.describe(res.exc)}")
        if res.ctl.fired:
            crashes[0] += 1
            ctx.state_keys.add(f"{name.split()[-1]}@{res.ctl.fired[0]}:{res.ctl.fired[1]}")
            ctx.log("crashed", str(res.ctl.fired), "swallowed" if res.ok else "raised")
        return res

    def verify(name):
        st = state()
        lin_of["lin"] = None
        res = run(f"{name} verification solve", lambda: S.solver(problem, {"newton": {"linear": {"spsolve_solver": {}}}}), None)
        U, r = ops.check_solution(ctx, model, st, res.value, what=f"{name}: solve after {crashes[0]} interruptions")
        ctx.log("verified", core.rnd(np.abs(U).sum(), 6))
        if crashes[0]:
            ctx.nontrivial = True

    def look(name, what):
        """The first evaluation after an interruption: its residual and tangent, or a gradient."""
        if what == "gradient":
            k2 = [k for k in keys if k != "bc"] or ["sc"]
            th = {k: theta[k] for k in k2 if k in theta}
            th.update({k: zoo.gen_theta(random.Random(len(ctx.state_keys)), cfg, [k])[k] for k in k2 if k not in th})
            prm, _ = install(th)

            def fn():
                sol, pull = jax.vjp(fwd, prm)
                return sol, pull([jnp.ones_like(s) for s in sol])
            res = run(f"{name} gradient", fn, None)
            theta.update(th)
            U, _ = ops.check_solution(ctx, model, state(), res.value[0], what=f"{name}: solve after {crashes[0]} interruptions")
            check_grad(ctx, model, th, k2, base, theta, U, res.value[1][0], f"{name}: gradient after {crashes[0]} interruptions")
            ctx.log("gradient after the interruption")
        else:
            tangent(f"{name}: first evaluation after {crashes[0]} interruptions", 77, None)
        ctx.nontrivial = True

    def tangent(name, seed, crash):
        y = np.random.default_rng(seed).standard_normal(model.ref.n) * .5
        U = y if model.P is None else model.P @ y
        sl = problem.unflatten_fn_sol_list(jnp.asarray(U))

        def fn():
            r = problem.newton_update(sl)
            return r, S.get_A(problem)
        res = run(name, fn, crash)
        if res.ok:
            st = state()
            want, _ = model.ref.full(U, st, bc=False)
            got = ops.flat(res.value[0])
            ctx.expect(got.shape == want.shape and np.abs(got - want).max() <= 1e-8 * (np.abs(want).max() + 1e-30),
                       "wrong-residual", f"{name}: residual differs")
            _, A = model.ref.system(y, st)
            M = boundary.csr_of(res.value[1]).toarray()
            ctx.expect(M.shape == A.shape and np.abs(M - A).max() <= 1e-8 * (np.abs(A).max() + 1e-30),
                       "wrong-tangent", f"{name}: the tangent matrix differs from the derivative of the residual")
        return res

    for k, op in enumerate(plan["ops"]):
        kind, crash = op["op"], op.get("crash")
        name = f"op {k} {kind}"
        before = crashes[0]
        ctx.log("op", kind, str(crash))
        lin_of["lin"] = op["lin"] if kind == "solve" else None
        if kind == "solve":
            opts = ops.newton_options({"lin": op["lin"], "ls": op["ls"]})
            res = run(name, lambda: S.solver(problem, opts), crash)
            if res.ok:
                ops.check_solution(ctx, model, state(), res.value, what=name)
        elif kind == "tangent":
            tangent(name, k, crash)
        elif kind == "residual":
            U = np.random.default_rng(k).standard_normal(model.ref.d.N) * .5
            sl = problem.unflatten_fn_sol_list(jnp.asarray(U))
            res = run(name, lambda: problem.compute_residual(sl), crash)
            if res.ok:
                want, _ = model.ref.full(U, state(), bc=False)
                got = ops.flat(res.value)
                ctx.expect(got.shape == want.shape and np.abs(got - want).max() <= 1e-8 * (np.abs(want).max() + 1e-30),
                           "wrong-residual", f"{name}: residual differs")
        elif kind in ("params", "ad", "grad"):
            t = op["theta"]
            prm, nb = install(t)
            if kind == "params":
                res = run(name, lambda: problem.set_params(prm), crash)
            elif kind == "ad":
                res = run(name, lambda: fwd(prm), crash)
            else:
                def fn():
                    sol, pull = jax.vjp(fwd, prm)
                    ct = [jnp.ones_like(s) for s in sol]
                    return sol, pull(ct)
                res = run(name, fn, crash)
            theta.update(t)
            base = nb
            if not res.ok or res.ctl.fired:
                # the interrupted call's inputs are established again
                run(name + " re-established", lambda: problem.set_params(prm), None)
            elif kind != "params":
                sol = res.value if kind == "ad" else res.value[0]
                U, _ = ops.check_solution(ctx, model, state(), sol, what=name)
                if kind == "grad":
                    check_grad(ctx, model, t, keys, base, theta, U, res.value[1][0], name)
        elif kind == "bc_update":
            def upd():
                for v, fe in enumerate(problem.fes):
                    fe.update_Dirichlet_boundary_conditions(zoo.bc_info(pool[op["set"]], model.L, v, jnp))
            res = run(name, upd, crash)
            if not res.ok:
                run(name + " repeated", upd, None)
            base = model.ref_bcs(pool[op["set"]])
            saved[op["set"]] = ([(list(fe.node_inds_list), list(fe.vec_inds_list), list(fe.vals_list))
                                 for fe in problem.fes], base)
        elif kind == "bc_old" and op["set"] in saved:
            lists, base = saved[op["set"]]
            for fe, (a, b, c) in zip(problem.fes, lists):
                fe.node_inds_list, fe.vec_inds_list, fe.vals_list = list(a), list(b), list(c)
        if op.get("look") and crashes[0] > before:
            look(name, op["look"])
        if op["check"]:
            verify(name)
    verify("end")


def check_grad(ctx, model, t, keys, base, theta, U, g, name, tol=1e-6, w=None):
    """Directional derivatives of sum(w*u) against the reference adjoint."""
    if w is None:
        w = np.ones(model.ref.d.N)
    full_t = {k: v for k, v in theta.items() if k != "bc"}
    st = model.state(full_t, base)
    dirs = []
    r = np.random.default_rng(7)
    th = model.theta(full_t)
    from sim import ref
    for k in keys:
        if k == "bc":
            dv = [[r.standard_normal(len(v)) for (_, _, v) in row] for row in base]
            over = {"bc": [[v + 1j * ref.H * e for (_, _, v), e in zip(row, dr)] for row, dr in zip(base, dv)]}
            got = sum(float(np.sum(np.asarray(a) * e)) for ra, re_ in zip(g["bc"], dv) for a, e in zip(ra, re_))
        else:
            dv = r.standard_normal(th[k].shape)
            over = {k: th[k] + 1j * ref.H * dv}
            ctx.expect(np.shape(g[k]) == dv.shape, "wrong-shape", f"{name}: gradient of {k} has shape {np.shape(g[k])}")
            got = float(np.sum(np.asarray(g[k]) * dv))
        dirs.append((k, got, model.state(full_t, base, over)))
    want, v = model.ref.gradient(U, st, w, [d[2] for d in dirs])
    for (k, got, ds), wt in zip(dirs, want):
        # scale: size of the terms summed in the directional derivative
        Rd = model.ref.full(U.astype(complex), dict(ds, complex=True))[0].imag / ref.H
        free = model.ref.full(U.astype(complex), dict(ds, complex=True), bc=False)[0].imag / ref.H
        sc = float(np.abs(v) @ np.abs(Rd)) + 1e-6 * np.abs(v).max() * np.abs(free).sum() + 1e-300
        ctx.expect(np.isfinite(got) and abs(got - wt) <= tol * sc, "wrong-gradient",
                   f"{name}: derivative with respect to {k} is {got:.12g}, reference {wt:.12g} (scale {sc:.3g})")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        if op.get("crash"):
            yield put({a: b for a, b in op.items() if a != "crash"})
            if op.get("look"):
                yield put(dict(op, look=None))
            for f, v in (("visit", 1), ("exc", "RuntimeError")):
                if op["crash"][f] != v:
                    yield put(dict(op, crash=dict(op["crash"], **{f: v})))
        if op["check"]:
            yield put(dict(op, check=False))
        if op["ls"]:
            yield put(dict(op, ls=False))
        if op["lin"] != {"spsolve_solver": {}}:
            yield put(dict(op, lin={"spsolve_solver": {}}))
