"""C06: arc-length continuation records points of the equilibrium path, one arc length apart."""
import numpy as np

from sim import core, env, ops, zoo
from sim.core import Violation

lib = None


def setup(job):
    global lib
    lib = env.import_library()


def make_cfg(rng, j):
    snap = j % 2 == 1
    kind = "scalar" if snap else rng.choice(["scalar", "elastic", "coupled"])
    cfg = zoo.gen_config(rng, dims=(2 + j // 2 % 2,), kinds=(kind,), small=rng.random() < .6, max_surf=1)
    cfg["snap"] = snap
    d = len(cfg["n"])
    if snap:
        # lengths measured in other units: same path, solution scaled by s
        cfg["unit"] = s = (1., .01, .1)[j // 2 % 3]
        cfg["coef"].update(c=1. / s, gamma=1. / s**3, beta=0., q2=2.1 / s**2)
        cfg["coef"]["load"] = [round(x * .3, 3) for x in cfg["coef"]["load"]]
        cfg["len"] = [1.] * d
        cfg["surfs"], cfg["bcs"] = [], []
    else:
        cfg["bcs"] = [dict(b, val=[0., 0., 0.]) for b in cfg["bcs"]]
    return cfg


def generate(rng, index, tier, seed):
    cfg = core.deck("C06", seed, index, 8 if tier == "quick" else 64, make_cfg)
    cfg.update(mseed=rng.randrange(10**6), jig=rng.choice([0., .15]), warp=rng.choice([0., .3]))
    o = []
    for k in range(rng.choice([1, 2, 2])):
        control = "force" if cfg["snap"] else rng.choice(["displacement", "force"])
        op = {"op": control, "frac": rng.choice([.08, .15, .3, .6]), "psi": rng.choice([None, 1., .5, .25] if cfg["snap"] else [None, 1., .5, .25, 5., 40.]),
              "max": rng.choice([None, None, 3, 6]), "theta": zoo.gen_theta(rng, cfg, ["field"]),
              "lin": rng.choice(ops.LINEAR), "info": rng.random() < .8,
              "late": rng.choice([None, [2, 1.7], [3, .5]]), "load": round(rng.uniform(.5, 2.) * rng.choice([-1, 1]), 3),
              "actions": [], "cb": rng.choice([None, None, ["raise", rng.randrange(4)], ["solve", rng.randrange(3)]])}
        if rng.random() < .5:
            op["newton"] = rng.choice([{}, {"rel_tol": 1e-10}])
        if control == "displacement":
            bcs = [b for b in zoo.gen_bcs(rng, cfg, lo=1)]
            if not any(abs(b["val"][0]) > .05 for b in bcs):
                bcs[0]["val"][0] = .4
            if rng.random() < .7:
                # ensure at least two different levels
                ax = bcs[0]["side"][0]
                bcs.append({"var": bcs[0]["var"], "comp": bcs[0]["comp"], "side": [ax, 1 - bcs[0]["side"][1]], "val": [0., 0., 0.], "args": 1})
            op["bcs"] = bcs
        if rng.random() < .35:
            op["actions"] = [["exact"]] * rng.randrange(6) + [a for a in ops.gen_actions(rng) if a[0] != "garbage"]
        if rng.random() < .15:
            op["crash"] = {"nth": rng.randrange(20, 130), "visit": rng.choice([1, 2, 5]), "exc": "KeyboardInterrupt"}
        o.append(op)
    return {"config": cfg, "ops": o}


def flat_options(x):
    if isinstance(x, dict):
        return {k: flat_options(v) for k, v in x.items()}
    return id(x) if callable(x) or hasattr(x, "shape") else x


class CallbackError(Exception):
    pass


def execute(plan, ctx):
    import jax.numpy as jnp
    cfg = plan["config"]
    model = zoo.Model(cfg)
    problem = model.problem(lib)
    S = lib["solver"]
    N = model.ref.d.N
    for k, op in enumerate(plan["ops"]):
        kind = op["op"]
        name = f"op {k} {kind}"
        sgn = 1. if cfg["snap"] else op["load"]
        load = abs(op["load"]) * .7 if cfg["snap"] else 0. if kind == "displacement" else op["load"]
        unit = cfg.get("unit", 1.)
        t = dict(op["theta"], sc=[1. / unit, load], surf=[[.5, 0. if kind == "displacement" else .3 * load] for _ in cfg["surfs"]])
        if not cfg["surfs"]:
            del t["surf"]
        bcs = op["bcs"] if kind == "displacement" else cfg["bcs"]
        for v, fe in enumerate(problem.fes):
            fe.update_Dirichlet_boundary_conditions(zoo.bc_info(bcs, model.L, v, jnp))
        bc = model.ref_bcs(bcs)
        st = model.state(t, bc)
        prm = model.lib_params(t, list(t))
        problem.set_params(prm)
        ub = np.zeros(N)
        for i, lst in enumerate(bc):
            for ni, vi, vals in lst:
                ub[model.ref.d.off[i] + ni * model.ref.d.vecs[i] + vi] = vals
        q = np.zeros(N)
        if kind == "force":
            t0 = dict(t, sc=[t["sc"][0], -t["sc"][1]])
            if "surf" in t:
                t0["surf"] = [[h, -v] for h, v in t["surf"]]
            aux = model.problem(lib, bcs=bcs)
            aux.set_params(model.lib_params(t0, list(t0)))
            q_lib = np.asarray(S.get_q_vec(aux))
            q = model.ref.full(np.zeros(N), model.state(t0, bc), bc=False)[0]
            ctx.expect(np.abs(q - q_lib).max() <= 1e-10 * np.abs(q).max(), "wrong-load", f"{name}: get_q_vec differs from the residual at zero")
            for i, lst in enumerate(bc):
                for ni, vi, vals in lst:
                    q[model.ref.d.off[i] + ni * model.ref.d.vecs[i] + vi] = 0.
        drive = ub if kind == "displacement" else q
        if np.linalg.norm(drive) < 1e-8:
            continue
        psi = op["psi"] if op["psi"] is not None else (1. if kind == "displacement" else .5)
        if cfg["snap"]:
            psi *= unit
            size = np.sqrt(N) * unit
        else:
            full = model.ref.solve(st)[0]
            size = np.sqrt(np.sum(full**2) + psi**2 * np.sum(drive**2))
        dl = op["frac"] * size
        c = {"control": kind, "Delta_l": dl, "linear": ops.linear_options(op["lin"]), "return_info": op["info"]}
        if op.get("newton") is not None:
            c["newton"] = dict(op["newton"])
        if op["psi"] is not None or unit != 1.:
            c["psi"] = psi
        late = None
        if kind == "force":
            c["q_vec_aux"] = jnp.asarray(q_lib)
            late = op["late"] or [200, 1.]
            if op["late"]:
                c["Delta_l_switch_step"], c["Delta_l_late"] = late[0], late[1] * dl
        cap = op["max"] if op["max"] is not None else 40
        c["max_continuation_steps"] = cap
        seen = []

        def callback(step, u, lam):
            seen.append((step, np.array(u), float(lam)))
            if op["cb"][0] == "raise" and step == op["cb"][1]:
                raise CallbackError("injected by the simulator")
            if op["cb"][0] == "solve" and step == op["cb"][1]:
                problem.newton_update(problem.unflatten_fn_sol_list(jnp.asarray(np.cos(np.arange(N)))))
        if op["cb"] is not None:
            c["step_callback"] = callback
        opts = {"arc_length": c}
        faulty = False
        given = flat_options(opts)
        try:
            res = ops.run(ctx, lambda: S.solver(problem, opts), actions=op["actions"], crash=op.get("crash"), limit=60 * cap + 200)
        except Violation as v:
            if v.cls == "no-progress" and op["actions"]:
                ctx.log("gave up after faulty linear solves")
                continue
            raise
        faulty = bool(res.lin.fired) or bool(res.ctl.fired)
        ctx.expect(flat_options(opts) == given, "options-mutated", f"{name}: the options were changed from {given} to {flat_options(opts)}")
        cb_raised = isinstance(res.exc, CallbackError)
        ctx.log(kind, "snap" if cfg["snap"] else "", *res.lin.fired, type(res.exc).__name__ if res.exc else "returned")
        if cb_raised:
            ctx.fault("callback_raised")
        if not res.ok:
            if not faulty and not cb_raised and not ops.refusal(res.exc, op["lin"], model, st):
                too_far = op["frac"] > .3 or cfg["snap"] and op["frac"] > .15
                if "No valid solutions" in str(res.exc) and too_far:
                    ctx.log("step too long")
                    continue
                ctx.expect(False, "unexpected-exception", f"{name}: {ops.describe(res.exc)}")
            hist = [{"step": s, "u": u, "lam": lam} for s, u, lam in seen]
        elif op["info"]:
            sol, info = res.value
            hist = info["history"]
            if op["cb"] is not None:
                same = len(hist) == len(seen) and all(h["step"] == s[0] and h["lam"] == s[2] and np.array_equal(h["u"], s[1])
                                                      for h, s in zip(hist, seen))
                ctx.expect(same, "callback-history", f"{name}: step_callback did not see exactly the recorded points")
        else:
            sol, hist, info = res.value, [{"step": s, "u": u, "lam": lam} for s, u, lam in seen], None
        # -- every recorded point ---------------------------------------------------------------
        prev_u, prev_lam, prev_d = np.zeros(N), 0., None
        for j, h in enumerate(hist):
            u, lam = np.asarray(h["u"]), h["lam"]
            ctx.expect(h["step"] == j and np.all(np.isfinite(u)) and np.isfinite(lam), "bad-record", f"{name}: record {j} is {h['step']}, lam {lam}")
            R, A = model.ref.full(u, st, jac=True, lam=lam if kind == "displacement" else 1.)
            R = R + (1. - lam) * q
            allow = 1e-6 * (1 + 1e-6) + 1e-11 * np.linalg.norm(np.abs(A) @ np.abs(u))
            ctx.expect(np.linalg.norm(R) <= allow, "not-on-path",
                       f"{name}: continuation step {j} (lambda {lam:.6g}) is not in equilibrium, residual {np.linalg.norm(R):.4g}")
            want = dl if late is None or j < late[0] else late[1] * (dl if op["late"] else 1.)
            du, dlam = u - prev_u, lam - prev_lam
            dist = np.sqrt(np.sum(du**2) + psi**2 * dlam**2 * np.sum(drive**2))
            ctx.expect(abs(dist - want) <= 1e-6 * want, "wrong-arc-length", f"{name}: step {j} advanced {dist:.8g} instead of {want:.8g}")
            if not faulty and op["frac"] < .3:
                if prev_d is None:
                    ctx.expect(dlam > 0, "turned-back", f"{name}: first step went to lambda {lam:.4g}")
                else:
                    dot = np.sum(du * prev_d[0]) + psi**2 * dlam * prev_d[1] * np.sum(drive**2)
                    ctx.expect(dot > 0, "turned-back", f"{name}: step {j} reversed the direction of travel (lambda {prev_lam:.4g} -> {lam:.4g})")
                    if dlam < 0:
                        ctx.probe("limit_point_passed")
                        ctx.nontrivial = True
            prev_u, prev_lam, prev_d = u, lam, (du, dlam)
            ctx.log("point", core.rnd(lam, 6))
        if not res.ok:
            ctx.nontrivial = True
            continue
        if info is not None:
            n = len(hist)
            lams = [h["lam"] for h in hist]
            reached = lams[-1] >= 1.
            ctx.expect(all(l < 1. for l in lams[:-1]) and (reached or n == cap), "wrong-end",
                       f"{name}: continuation of {n} steps (limit {cap}) ended at lambda {lams[-1]:.4g}")
            ctx.expect(info["lam"] == lams[-1] and info["polished"] == reached and info["control"] == kind, "wrong-info",
                       f"{name}: info says lam {info['lam']}, polished {info['polished']}; history ends at {lams[-1]}")
            if reached:
                ctx.probe("reached_full_load")
                U = ops.flat(sol)
                check_full(ctx, model, st, sol, hist[-1], lams[-1], name, cfg["snap"])
            else:
                ctx.probe("stopped_early")
                ctx.expect(np.array_equal(ops.flat(sol), np.asarray(hist[-1]["u"])), "wrong-return",
                           f"{name}: stopped before full load but did not return the last continuation point")
            ctx.nontrivial = True
        ctx.state_keys.add(f"{cfg['kind']}/{cfg['ele']}/{kind}/{cfg['snap']}/{op['frac']}/{op['psi']}/{bool(op['late'])}/{faulty}/{res.ok}")


def check_full(ctx, model, st, sol, last, lam, name, snap):
    """The polished solution is the full-load equilibrium."""
    ctx.expect([np.shape(s) for s in sol] == [(n, v) for n, v in zip(model.ref.d.nn, model.ref.d.vecs)], "wrong-shape", name)
    U = ops.flat(sol)
    r = np.linalg.norm(model.ref.residual(U, st))
    r0 = np.linalg.norm(model.ref.residual(np.asarray(last["u"]), st))
    acc = ops.tolerance(model, st, U, 1e-6, 1e-8, r0)
    ctx.expect(np.all(np.isfinite(U)) and r <= acc, "not-equilibrium", f"{name}: returned solution at full load has residual {r:.4g}")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk, v in (("actions", []), ("cb", None), ("late", None), ("psi", None), ("max", None), ("lin", {"spsolve_solver": {}})):
            if op.get(kk) != v:
                yield put(dict(op, **{kk: v}))
        for j in range(len(op["actions"])):
            yield put(dict(op, actions=op["actions"][:j] + op["actions"][j + 1:]))
        if op.get("crash"):
            yield put({a: b for a, b in op.items() if a != "crash"})
