"""C05: problems are independent of each other and of the objects handed to them."""
import copy
import gc

import numpy as np

from sim import boundary, core, env, ops, ref, sched, zoo
from sim.props.c03 import check_grad

lib = None


def setup(job):
    global lib
    lib = env.import_library()


def generate(rng, index, tier, seed):
    cfg = zoo.deck("C05", seed, index, tier, small=.7)
    cfg2 = zoo.deck("C05b", seed, index, tier, small=.8)
    tasks = []
    n = rng.choice([2, 2, 3])
    for k in range(n):
        c = dict(copy.deepcopy(cfg if k == 0 or rng.random() < .8 else cfg2), mseed=rng.randrange(10**6), jig=.15)
        if k and rng.random() < .5:
            c["bcs"] = zoo.gen_bcs(rng, c)
        keys = zoo.gen_keys(rng, c)
        o = []
        for j in range(rng.choice([1, 2, 2, 3])):
            kind = rng.choice(["solve"] * 3 + ["grad"] * 2 + ["tangent"] * 2 + ["residual", "rebuild"])
            op = {"op": kind, "theta": zoo.gen_theta(rng, c, keys), "opt": rng.randrange(3)}
            if rng.random() < .12 and kind == "solve":
                op["actions"] = [["raise", rng.choice(["RuntimeError", "MemoryError"])]]
            o.append(op)
        o.append({"op": rng.choice(["solve", "solve", "grad"]), "theta": zoo.gen_theta(rng, c, keys), "opt": rng.randrange(3)})
        for op in o:
            # at which linear solves (or between the assembly of a tangent and its use) another task runs
            op["pause"] = sorted({rng.randrange(6) for _ in range(rng.choice([0, 1, 2, 3]))})
        tasks.append({"config": c, "keys": keys, "ops": o, "before": [[rng.choice(["element"] * 4 + ["order"] * 2 + ["problem"]), rng.randrange(10**6)] for _ in range(rng.choice([0, 2, 5]))]})
    # two problems over one mesh object
    share = rng.random() < .65 and tasks[0]["config"]["ele"] == tasks[1]["config"]["ele"]
    if share:
        c = tasks[1]["config"]
        tasks[1]["config"] = dict(copy.deepcopy(tasks[0]["config"]), bcs=c["bcs"]) if c["kind"] == tasks[0]["config"]["kind"] \
            else copy.deepcopy(tasks[0]["config"])
        tasks[1]["keys"] = tasks[0]["keys"]
        for o in tasks[1]["ops"]:
            o["theta"] = zoo.gen_theta(rng, tasks[1]["config"], tasks[1]["keys"])
    m = rng.choice([0, 12, 40])
    scale = rng.choice([3, 30, 200])
    return {"ops": tasks, "share": share,
            "options": [rng.choice(ops.LINEAR) for _ in range(3)], "style": [rng.choice(["nested", "flat", "nolin"]) for _ in range(3)],
            "switches": [[rng.randrange(1, scale + 1), rng.randrange(3)] for _ in range(m)]}


def freeze(x):
    if isinstance(x, dict):
        return ("d", sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("l", [freeze(v) for v in x])
    if callable(x):
        return ("c", id(x))
    if hasattr(x, "shape"):
        return ("a", np.array(x).tobytes())
    return ("v", repr(x))


def early(ctx, name, model, before):
    """Elements and problems of the same size that live and die before the problem itself is built.

    Their memory may be handed to the next ones, and some of them use the very same mesh object."""
    Mesh, FE = lib["gm"].Mesh, lib["fe"].FiniteElement
    cfg, et = model.cfg, model.eles[0]
    keep = Mesh(model.pts0[0].copy(), model.cells[0].copy(), et)
    for kind, s in before:
        r = np.random.default_rng(s)
        if kind == "problem":
            sib = zoo.Model(dict(cfg, mseed=s))
            sib.problem(lib, meshes=[Mesh(p.copy(), c.copy(), e) for p, c, e in zip(sib.pts0, sib.cells, sib.eles)])
            gc.collect()
        else:
            same = kind == "order"
            q = int(r.integers(1, 5)) if same else cfg.get("qorder")
            f = np.ones(keep.points.shape[1]) if same else r.uniform(.5, 2., keep.points.shape[1])
            mesh = keep if same else Mesh(model.pts0[0] * f, model.cells[0].copy(), et)
            fe = FE(mesh, 1, len(cfg["n"]), et, quadrature_order=q)
            G, W = (np.array(a) for a in fe.get_shape_grads())
            (_, Gr, Wr), = ref.Discretisation([model.pts0[0]], [model.cells[0]], [et], [1], q).geom([model.pts0[0] * f])[0]
            for got, want, what in ((W.sum(1), Wr.sum(1), "volumes"), ((G * W[..., None, None]).sum(1), (Gr * Wr[..., None, None]).sum(1), "gradients")):
                ctx.expect(got.shape == want.shape and np.abs(got - want).max() <= 1e-9 * np.abs(want).max() + 1e-12, "wrong-geometry",
                           f"{name}: {what} of an earlier element ({kind}) differ from the reference")
            del mesh, fe
        ctx.probe("discarded_" + kind)


def execute(plan, ctx):
    import jax
    import jax.numpy as jnp
    from jax._src import core as jcore
    S = lib["solver"]
    options = [ops.newton_options({"lin": o, "style": s}) for o, s in zip(plan["options"], plan["style"])]
    adj = [ops.linear_options(o) for o in plan["options"]]
    before = freeze([options, adj])
    models = [zoo.Model(t["config"]) for t in plan["ops"]]
    shared = None
    if plan["share"] and len(models) > 1:
        Mesh = lib["gm"].Mesh
        shared = [Mesh(p, c, e) for p, c, e in zip(models[0].pts0, models[0].cells, models[0].eles)]
    inputs = {}
    logs = [[] for _ in models]

    def task(k):
        t, model = plan["ops"][k], models[k]
        cfg = t["config"]

        def build():
            if shared is not None and k < 2:
                return model.problem(lib, meshes=shared)
            Mesh = lib["gm"].Mesh
            return model.problem(lib, meshes=[Mesh(p.copy(), c.copy(), e) for p, c, e in zip(model.pts0, model.cells, model.eles)])

        def body():
            early(ctx, f"task {k}", model, t["before"])
            problem = build()
            base = model.ref_bcs(cfg["bcs"])
            theta = {}
            for j, op in enumerate(t["ops"]):
                kind = op["op"]
                name = f"task {k} op {j} {kind}"
                prm = model.lib_params({x: v for x, v in op["theta"].items() if x != "bc"}, [x for x in op["theta"] if x != "bc"])
                b = base
                if "bc" in op["theta"]:
                    vals = model.bc_vals(base, op["theta"]["bc"])
                    b = [[(ni, vi, v) for (ni, vi, _), v in zip(lst, row)] for lst, row in zip(base, vals)]
                    prm["bc"] = [[jnp.asarray(v) for v in row] for row in vals]
                theta = op["theta"]
                st = model.state({x: v for x, v in theta.items() if x != "bc"}, b)
                inputs[k, j] = (prm, freeze(prm))
                lin = boundary.LinCtl(op.get("actions", ()))

                def pause():
                    if lin.n in op["pause"]:
                        sc.pause(lin.n + j, f"{kind}: linear solve")
                lin.pause = pause
                boundary._task.ctl = lin
                spec = plan["options"][op["opt"]]
                try:
                    if kind == "rebuild":
                        problem = build()
                        problem.set_params(prm)
                    elif kind == "solve":
                        problem.set_params(prm)
                        sol = S.solver(problem, options[op["opt"]])
                        U, _ = ops.check_solution(ctx, model, st, sol, what=name)
                    elif kind == "grad":
                        fwd = S.ad_wrapper(problem, options[op["opt"]], adj[op["opt"]])
                        sol, pull = jax.vjp(fwd, prm)
                        U, _ = ops.check_solution(ctx, model, st, sol, what=name)
                        g = pull([jnp.ones_like(s) for s in sol])[0]
                        check_grad(ctx, model, theta, t["keys"], b, theta, U, g, name,
                                   tol=.05 if "petsc" in str(adj[op["opt"]]) else 1e-5)
                    else:
                        problem.set_params(prm)
                        U = np.random.default_rng(j).standard_normal(model.ref.d.N) * .5
                        sl = problem.unflatten_fn_sol_list(jnp.asarray(U))
                        want, _ = model.ref.full(U, st, bc=False)
                        if kind == "residual":
                            got = ops.flat(problem.compute_residual(sl))
                        else:
                            got = ops.flat(problem.newton_update(sl))
                            A = S.get_A(problem)
                            if op["pause"]:
                                sc.pause(j, "tangent: between assembly and use")
                            M = boundary.csr_of(A).toarray()
                            _, Abc = model.ref.full(U, st, jac=True)
                            if model.P is not None:
                                Abc = model.P.T @ Abc @ model.P
                            ctx.expect(M.shape == Abc.shape and np.abs(M - Abc).max() <= 1e-8 * np.abs(Abc).max(), "wrong-tangent",
                                       f"{name}: tangent differs from the reference")
                        ctx.expect(np.abs(got - want).max() <= 1e-8 * (np.abs(want).max() + 1e-30), "wrong-residual",
                                   f"{name}: residual differs from the reference")
                    logs[k].append((kind, "ok"))
                except (core.Violation, sched.Aborted):
                    raise
                except BaseException as e:
                    if lin.fired:
                        logs[k].append((kind, "failed", *lin.fired))
                        for f in lin.fired:
                            ctx.fault(f)
                    elif ops.refusal(e, spec, model, st):
                        logs[k].append((kind, "refused"))
                    else:
                        raise core.Violation("unexpected-exception", f"{name}: {ops.describe(e)}")
                finally:
                    boundary._task.ctl = None
        return body

    sc = sched.Scheduler([task(k) for k in range(len(models))], plan["switches"], eligible=jcore.trace_state_clean)
    sc.run()
    ctx.steps += sc.steps
    ctx.fault("thread_preemption", sc.made) if sc.made else None
    if sc.abort is not None:
        raise core.Violation("no-progress", str(sc.abort))
    for k, e in enumerate(sc.exc):
        if e is not None:
            raise e
    for t in sc.trace:
        ctx.log("switch", f"{t[0]}>{t[1]}", t[2], str(t[3]))
    for k in range(len(models)):
        for l in logs[k]:
            ctx.log(f"task {k}", *l)
    ctx.expect(freeze([options, adj]) == before, "options-mutated", f"solver options were modified: now {options} / {adj}")
    for key, (prm, f) in inputs.items():
        ctx.expect(freeze(prm) == f, "inputs-mutated", f"parameters of task/op {key} were modified")
    if shared is not None:
        for m, p, c in zip(shared, models[0].pts0, models[0].cells):
            ctx.expect(np.array_equal(m.points, p) and np.array_equal(m.cells, c), "inputs-mutated", "the shared mesh was modified")
    if sc.made or len(models) > 1:
        ctx.nontrivial = True
    for q, line in sc.lines:
        ctx.state_keys.add(f"{q}:{line}")


def simplify(plan):
    sw = plan["switches"]
    n = len(sw)
    if n:
        yield dict(plan, switches=[])
        yield dict(plan, switches=sw[:n // 2])
        yield dict(plan, switches=sw[:-1])
    for k, t in enumerate(plan["ops"]):
        if t["before"]:
            yield dict(plan, ops=plan["ops"][:k] + [dict(t, before=t["before"][1:])] + plan["ops"][k + 1:])
        for j in range(len(t["ops"])):
            if len(t["ops"]) > 1:
                yield dict(plan, ops=plan["ops"][:k] + [dict(t, ops=t["ops"][:j] + t["ops"][j + 1:])] + plan["ops"][k + 1:])
        for j, op in enumerate(t["ops"]):
            if op["pause"]:
                yield dict(plan, ops=plan["ops"][:k] + [dict(t, ops=t["ops"][:j] + [dict(op, pause=[])] + t["ops"][j + 1:])] + plan["ops"][k + 1:])
            if op.get("actions"):
                yield dict(plan, ops=plan["ops"][:k] + [dict(t, ops=t["ops"][:j] + [dict(op, actions=[])] + t["ops"][j + 1:])] + plan["ops"][k + 1:])
