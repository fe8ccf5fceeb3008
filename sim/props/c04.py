"""C04: a gradient is the derivative of its own forward evaluation."""
import numpy as np

from sim import core, env, ops, zoo
from sim.props.c03 import check_grad

lib = None
ADJ = [{"spsolve_solver": {}}, {"jax_solver": {}}, {"jax_solver": {"precond": False}}, {},
       {"petsc_solver": {"ksp_type": "preonly", "pc_type": "lu"}}, {"petsc_solver": {}},
       {"petsc_solver": {"ksp_type": "gmres", "pc_type": "jacobi"}}, {"custom": 1}]
HARD = [["raise", "RuntimeError"], ["raise", "MemoryError"], ["raise", "KeyboardInterrupt"], ["allnan"], ["nan", 3], ["inf", 5],
        ["zero"], ["garbage", 10., 7], ["negate"]]
CHECKED = ("petsc_solver", "jax_solver")     # backends that verify their own answer


def setup(job):
    global lib
    lib = env.import_library()


def grad_tol(lin):
    if lin and "petsc_solver" in lin and lin["petsc_solver"].get("pc_type") != "lu":
        return .05
    return 1e-5


def generate(rng, index, tier, seed):
    cfg = zoo.deck("C04", seed, index, tier, small=.4)
    cfg.update(mseed=rng.randrange(10**6), jig=rng.choice([0., .15]), warp=rng.choice([0., .3]))
    keys = zoo.gen_keys(rng, cfg)
    bare = None
    if rng.random() < .35:       # the parameter is one array instead of a dictionary
        bare = rng.choice(["field", "sc", "pts"] + (["surf"] if cfg["surfs"] else []))
        keys = [bare]
    wr = [{"lin": rng.choice(ops.LINEAR), "adj": rng.choice(ADJ)} for _ in range(2)]
    o, made = [], 0
    for k in range(rng.choice([4, 6, 8])):
        kind = rng.choice(["fwd"] * 4 + ["pull"] * 6 + ["solve"] + ["params"] * 3 + ["loss"] * 2) if made else "fwd"
        op = {"op": kind}
        if kind in ("fwd", "params", "loss"):
            op["theta"] = zoo.gen_theta(rng, cfg, keys)
        if kind == "fwd":
            op["w"] = rng.randrange(len(wr))
            op["actions"] = [] if rng.random() < .8 else [["raise", "RuntimeError"]]
            made += 1
        elif kind == "pull":
            op["of"] = made - 1 if rng.random() < .4 else rng.randrange(made)
            op["mag"] = rng.choice([0, 0, 0, -3, -9, -30, 6, 12, -60, 60])
            op["sparse"] = rng.random() < .3
            op["seed"] = rng.randrange(10**6)
            op["fault"] = rng.choice([None, None, None] + HARD)
            if rng.random() < .15:
                op["crash"] = {"nth": rng.randrange(1, 150), "visit": rng.choice([1, 1, 2, 4]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "InjectedFault"])}
        elif kind == "loss":
            op["w"] = rng.randrange(len(wr))
            op["theta2"] = zoo.gen_theta(rng, cfg, keys)
            op["c"] = [round(rng.uniform(-2, 2), 3), round(rng.uniform(-2, 2), 3)]
        elif kind == "solve":
            op["actions"] = rng.choice([[], [["raise", "RuntimeError"]]])
        o.append(op)
    o.append({"op": "pull", "of": rng.randrange(made), "mag": 0, "sparse": False, "seed": 1, "fault": None})
    return {"config": cfg, "keys": keys, "bare": bare, "wrappers": wr, "ops": o}


def execute(plan, ctx):
    import jax
    import jax.numpy as jnp
    cfg, keys = plan["config"], plan["keys"]
    model = zoo.Model(cfg)
    problem = model.problem(lib)
    bare = plan.get("bare")
    if bare:
        by_dict = problem.set_params
        problem.set_params = lambda prm: by_dict({bare: prm})
    S = lib["solver"]
    base0 = model.ref_bcs(cfg["bcs"])
    fw = [S.ad_wrapper(problem, {"newton": {"linear": ops.linear_options(w["lin"])}}, ops.linear_options(w["adj"]))
          for w in plan["wrappers"]]
    N = model.ref.d.N
    evals = []

    def make(t):
        prm = model.lib_params({x: v for x, v in t.items() if x != "bc"}, [x for x in t if x != "bc"])
        bc = base0
        if "bc" in t:
            vals = model.bc_vals(base0, t["bc"])
            bc = [[(ni, vi, v) for (ni, vi, _), v in zip(lst, row)] for lst, row in zip(base0, vals)]
            prm["bc"] = [[jnp.asarray(v) for v in row] for row in vals]
        if bare:
            prm = prm[bare]
        return prm, bc, model.state({k: v for k, v in t.items() if k != "bc"}, bc)

    default = {}       # parameters in force now: list of acceptable (theta, bc)
    current = [({}, base0)]

    def call(name, fn, lin, st, actions=(), crash=None):
        res = ops.run(ctx, fn, actions=actions, crash=crash)
        if not res.ok and not res.lin.fired and not res.ctl.fired and not ops.refusal(res.exc, lin, model, st):
            ctx.expect(False, "unexpected-exception", f"{name}: {ops.describe(res.exc)}")
        return res

    for k, op in enumerate(plan["ops"]):
        kind = op["op"]
        name = f"op {k} {kind}"
        ctx.log("op", kind)
        if kind in ("fwd", "params", "loss"):
            prm, bc, st = make(op["theta"])
        if kind == "params":
            call(name, lambda: problem.set_params(prm), {"custom": 1}, st)
            current = [(op["theta"], bc)]
        elif kind == "fwd":
            w = plan["wrappers"][op["w"]]
            res = call(name, lambda: jax.vjp(fw[op["w"]], prm), w["lin"], st, op["actions"])
            current = [(op["theta"], bc)]
            if res.ok:
                U, _ = ops.check_solution(ctx, model, st, res.value[0], what=name)
                evals.append((res.value[1], op["theta"], bc, U, [s.shape for s in res.value[0]], w, k))
            else:
                evals.append(None)
                ctx.log("forward failed", *res.lin.fired)
        elif kind == "solve":
            t, b = current[0]
            st = [model.state({x: v for x, v in t.items() if x != "bc"}, b) for t, b in current]
            res = call(name, lambda: S.solver(problem, {"newton": {"linear": {"spsolve_solver": {}}}}), {"custom": 1}, st[0], op["actions"])
            if res.ok:
                check_any(ctx, model, st, res.value, name)
                ctx.log("solved")
        elif kind == "pull":
            if op["of"] >= len(evals) or evals[op["of"]] is None:
                continue
            pull, t, bc, U, shapes, w, src = evals[op["of"]]
            r = np.random.default_rng(op["seed"])
            ct = r.standard_normal(N)
            if op["sparse"]:
                m = np.zeros(N)
                m[r.integers(N)] = 1.
                ct = ct * m
            mag = 10. ** op["mag"]
            ctl = problem.unflatten_fn_sol_list(jnp.asarray(ct * mag))
            st = model.state({x: v for x, v in t.items() if x != "bc"}, bc)
            act = [op["fault"]] if op["fault"] else []
            if act and act[0][0] not in ("raise",) and not (not w["adj"] or list(w["adj"])[0] in CHECKED):
                act = []
            name = f"{name} of forward op {src} (adjoint {w['adj']}, cotangent scale 1e{op['mag']})"
            res = call(name, lambda: pull(ctl), w["adj"], st, act, op.get("crash"))
            if not res.ok:
                ctx.log("pull failed", *res.lin.fired, "crash" if res.ctl.fired else "")
                if res.lin.fired or res.ctl.fired:
                    # a failed pullback can be retried
                    res = call(name + ", retried after " + type(res.exc).__name__, lambda: pull(ctl), w["adj"], st)
                    ctx.probe("pullback_retried")
                    ctx.nontrivial = True
            if res.ok:
                g = jax.tree_util.tree_map(lambda a: a / mag, res.value[0])
                g = {bare: g} if bare else g
                check_grad(ctx, model, t, keys, bc, t, U, g, name, w=ct, tol=grad_tol(w["adj"]))
                ctx.log("gradient", str(op["mag"]), *res.lin.fired)
                if any(e is not None for e in evals[op["of"] + 1:]) or res.lin.fired:
                    ctx.nontrivial = True
            current = [(t, bc)] + current
            ctx.state_keys.add(f"{cfg['kind']}/{str(w['adj'])}/{op['mag']}/{str(op['fault'] and op['fault'][0])}/{res.ok}")
        elif kind == "loss":
            # two forward evaluations inside one differentiated function
            prm2, bc2, st2 = make(op["theta2"])
            w = plan["wrappers"][op["w"]]
            c = op["c"]
            keep = {}

            def loss(p, q):
                a = fw[op["w"]](p)
                b = fw[op["w"]](q)
                keep["a"] = [jax.lax.stop_gradient(x) for x in a]
                keep["b"] = [jax.lax.stop_gradient(x) for x in b]
                return sum(c[0] * jnp.sum(x * x) + c[1] * jnp.sum(y) for x, y in zip(a, b))
            res = call(name, lambda: jax.value_and_grad(lambda pq: _with_aux(loss, keep, *pq), has_aux=True)((prm, prm2)), w["adj"], st)
            if not res.ok and "failed to converge" in str(res.exc):
                current = [(op["theta"], bc), (op["theta2"], bc2)]
                continue
            (_, (sa, sb)), (ga, gb) = res.value
            if bare:
                ga, gb = {bare: ga}, {bare: gb}
            Ua, _ = ops.check_solution(ctx, model, st, sa, what=name + " first solution")
            Ub, _ = ops.check_solution(ctx, model, st2, sb, what=name + " second solution")
            check_grad(ctx, model, op["theta"], keys, bc, op["theta"], Ua, ga, name + " first argument", w=2 * c[0] * Ua, tol=grad_tol(w["adj"]))
            check_grad(ctx, model, op["theta2"], keys, bc2, op["theta2"], Ub, gb, name + " second argument", w=c[1] * np.ones(N), tol=grad_tol(w["adj"]))
            current = [(op["theta"], bc), (op["theta2"], bc2)]
            ctx.nontrivial = True
            ctx.log("loss")
        concrete(ctx, problem, name)
    st = [model.state({x: v for x, v in t.items() if x != "bc"}, b) for t, b in current]
    res = call("final solve", lambda: S.solver(problem, {"newton": {"linear": {"spsolve_solver": {}}}}), {"custom": 1}, st[0])
    check_any(ctx, model, st, res.value, "final solve")


def _with_aux(loss, keep, p, q):
    v = loss(p, q)
    return v, (keep["a"], keep["b"])


def concrete(ctx, problem, name):
    """No abstract values are left behind in the problem."""
    import jax
    bad = []
    for owner, obj in [("problem", problem)] + [(f"fes[{i}]", fe) for i, fe in enumerate(problem.fes)]:
        for attr, val in vars(obj).items():
            if attr in ("fes", "mesh"):
                continue
            for leaf in jax.tree_util.tree_leaves(val):
                if isinstance(leaf, jax.core.Tracer):
                    bad.append(f"{owner}.{attr}")
                    break
    ctx.expect(not bad, "abstract-state", f"{name}: abstract values left in {bad[:5]}")


def check_any(ctx, model, states, sol, name):
    """The solution belongs to the parameters last installed or to the ones of a later pullback."""
    from sim.core import Violation
    first = None
    for st in states:
        try:
            ops.check_solution(ctx, model, st, sol, what=name)
            return
        except Violation as v:
            first = first or v
    raise first


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk, v in (("fault", None), ("mag", 0), ("sparse", False), ("actions", [])):
            if kk in op and op[kk] != v:
                yield put(dict(op, **{kk: v}))
        if op.get("crash"):
            yield put({a: b for a, b in op.items() if a != "crash"})
    for j, w in enumerate(plan["wrappers"]):
        for kk in ("lin", "adj"):
            if w[kk] != {"spsolve_solver": {}}:
                yield dict(plan, wrappers=plan["wrappers"][:j] + [dict(w, **{kk: {"spsolve_solver": {}}})] + plan["wrappers"][j + 1:])
