"""C21: gradients through load and time histories of the differentiated applications."""
import numpy as np

from sim import apps, core, env, ops
from sim.core import Violation

lib = None
KINDS = ["updated_lagrangian", "crystal_plasticity", "thermal_mechanical_full", "wave"]
EXACT = [{"spsolve_solver": {}}, {"petsc_solver": {"ksp_type": "preonly", "pc_type": "lu"}}, {"custom": 1}]
HARD = [["raise", "RuntimeError"], ["raise", "MemoryError"], ["raise", "KeyboardInterrupt"]]
TOL = 1e-5      # measured on the unchanged tree: below 1e-7


def setup(job):
    global lib
    lib = env.import_library()


def make_cfg(r, j):
    app = KINDS[(j + j // 8) % len(KINDS)]
    c = {"app": app, "jig": r.choice([0., .1]), "seed": r.randrange(10**6), "steps": r.choice([1, 2, 3, 3, 4]), "lin": r.choice(EXACT), "adj": r.choice(EXACT + [{}])}
    if app == "updated_lagrangian":
        c.update(n=r.choice([[3, 1, 1], [4, 1, 1], [2, 2, 1]]), per=r.choice([20, 40]))
    elif app == "crystal_plasticity":
        c.update(n=r.choice([[1, 1, 1], [1, 1, 2]]), L=[1., 1., 1.], aligned=r.random() < .5, du=r.choice([5e-4, 1e-3]), ddt=r.choice([.05, .2]), goal=r.choice(["stress", "volume"]),
                 steps=min(2, c["steps"]))
    else:
        c.update(ele=r.choice(["QUAD4", "TRI3"]), n=r.choice([[3, 3], [4, 2]]), steps=r.choice([2, 3, 4]))
        c["dt"] = r.choice([2e-5, 6e-5, 2e-4] if app == "wave" else [.02, .1])
    return c


def generate(rng, index, tier, seed):
    cfg = core.deck("C21", seed, index, 16 if tier == "quick" else 96, make_cfg)
    o, made = [], 0
    for k in range(rng.choice([3, 4, 5] if tier == "quick" else [4, 6, 9])):
        kind = rng.choice(["fwd", "fwd", "pull", "pull", "pull", "other"]) if made else "fwd"
        op = {"op": kind}
        if kind == "fwd":
            op["theta"] = rng.randrange(10**6)
            made += 1
        elif kind == "other":
            op["theta"] = rng.randrange(10**6)
        else:
            op["of"] = rng.randrange(made)
            op["mag"] = rng.choice([0, 0, 0, -9, 9])
        if kind != "other":
            x = rng.random()
            if x < .2:
                op["actions"] = [["exact"]] * rng.randrange(4) + [rng.choice(HARD)]
            elif x < .4:
                op["crash"] = {"nth": rng.randrange(1, 200), "visit": rng.choice([1, 1, 2]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "InjectedFault"])}
        o.append(op)
    o.append({"op": "pull", "of": rng.randrange(made), "mag": 0})
    return {"config": cfg, "ops": o}


# -- the differentiated histories: theta -> quantity of interest -------------------------------------

class UL:
    def __init__(self, cfg):
        self.cfg = cfg
        self.a = apps.UpdatedLagrangian(lib, cfg)
        self.m = self.a.m
        self.size = len(self.a.cells)

    def theta(self, seed):
        return np.random.default_rng(seed).uniform(.4, .95, self.size)

    def new(self, wrap, ref=False):
        a = apps.UpdatedLagrangian(lib, self.cfg)
        a.m.N_STEPS, a.m.LOAD_SCHEDULE_STEPS = self.cfg["steps"], self.cfg["per"]
        f = wrap(a.problem)
        return a.problem, lambda th: a.m.end_to_end_ul(th, a.problem, a.fe, f, aut=False)


class CP:
    def __init__(self, cfg):
        self.cfg = cfg
        self.a = apps.CrystalPlasticity(lib, cfg)
        self.size = 1 + len(self.a.cells)

    def theta(self, seed):
        r = np.random.default_rng(seed)
        return np.concatenate([r.uniform(.8, 1.2, 1), r.uniform(.9, 1.1, self.size - 1)])

    def new(self, wrap, ref=False):
        import jax
        import jax.numpy as jnp
        cfg = self.cfg
        M = apps.imported(apps.APPS + "/crystal_plasticity/models.py")

        def top(v):
            return lambda p: v

        class Driven(M.CrystalPlasticity):
            def set_params(self, all_params):
                disp, params = all_params
                super().set_params(params)
                self.fes[0].dirichlet_bc_info[-1][-1] = top(disp)
                self.fes[0].update_Dirichlet_boundary_conditions(self.fes[0].dirichlet_bc_info)
        at = lambda k, v: (lambda p: jnp.isclose(p[k], v, atol=1e-8))
        z = lambda p: 0.
        info = [[at(2, 0.)] * 3 + [at(2, cfg["L"][2])], [0, 1, 2, 2], [z, z, z, top(0.)]]
        p = Driven(self.a.mesh(self.a.pts, self.a.cells, "HEX8"), vec=3, dim=3, ele_type="HEX8", dirichlet_bc_info=info, additional_info=(self.a.quat, self.a.ori))
        init = [jnp.asarray(x) for x in p.internal_vars]
        f = wrap(p)
        p.dt = cfg["ddt"]
        update, stress = p.update_int_vars_gp, p.compute_avg_stress
        if ref:     # traced once: the model compiles them anew at every call
            update, stress = jax.jit(update), jax.jit(stress)

        def history(th):
            params = list(init)
            params[1] = init[1] * th[1:].reshape((-1,) + (1,) * (init[1].ndim - 1))
            for i in range(cfg["steps"]):
                p.dt = cfg["ddt"]
                sol = f([th[0] * cfg["du"] * (i + 1), params])[0]
                if cfg["goal"] == "stress":
                    val = stress(sol, params)[0, 2, 2]
                params = update(sol, params)
            if cfg["goal"] == "volume":
                g = p.fes[0].sol_to_grad(sol)
                val = 1e4 * (jnp.sum(jax.vmap(jax.vmap(lambda a: jnp.linalg.det(a + jnp.eye(3))))(g) * p.fes[0].JxW) - 1.01)**2
            return val
        return p, history


class Thermo:
    def __init__(self, cfg):
        self.cfg = cfg
        self.a = apps.ThermoElastic(lib, cfg)
        self.n = len(self.a.pts)
        self.size = self.n + 1

    def theta(self, seed):
        r = np.random.default_rng(seed)
        return np.concatenate([r.uniform(-1, 1, self.n), r.uniform(5., 50., 1)])

    def new(self, wrap, ref=False):
        import jax.numpy as jnp
        a = apps.ThermoElastic(lib, self.cfg)
        f = wrap(a.problem)
        n = self.n

        def history(th):
            u, t = jnp.zeros((n, 2)), th[:n, None]
            for i in range(self.cfg["steps"]):
                u, t = f([u, t, th[n] * (i + 1)])
            return jnp.sum(jnp.sin(t)) + 1e4 * jnp.sum(u**2) + jnp.sum(u * jnp.cos(jnp.arange(n))[:, None])
        return a.problem, history


class Wave:
    def __init__(self, cfg):
        self.cfg = cfg
        self.a = apps.Wave(lib, cfg)
        self.n = len(self.a.pts)
        self.size = 2 * self.n

    def theta(self, seed):
        return np.random.default_rng(seed).uniform(-1, 1, self.size)

    def new(self, wrap, ref=False):
        import jax.numpy as jnp
        a = apps.Wave(lib, self.cfg)
        f = wrap(a.problem)
        n = self.n

        def history(th):
            u, o = th[:n, None], th[n:, None]
            for i in range(self.cfg["steps"]):
                u, o = f([u, o])[0], u
            return jnp.sum(jnp.sin(u) * jnp.arange(1, n + 1)[:, None] / n)
        return a.problem, history


MODELS = dict(zip(KINDS, (UL, CP, Thermo, Wave)))
_fd = {}


def execute(plan, ctx):
    import jax
    import jax.numpy as jnp
    cfg = plan["config"]
    S = lib["solver"]
    model = MODELS[cfg["app"]](cfg)

    def wrap(p):
        o = {"linear": ops.linear_options(cfg["lin"])}
        if cfg["app"] == "updated_lagrangian":
            o.update(tol=1e-12, rel_tol=1e-10)      # its forces are small against the default tolerance
        return S.ad_wrapper(p, {"newton": o}, ops.linear_options(cfg["adj"]))
    problem, history = model.new(wrap)
    alone = []          # a second, undisturbed problem: values and differences only

    def value(th):
        if not alone:
            alone.append(model.new(wrap, True)[1])
        return float(alone[0](jnp.asarray(th)))

    def call(name, fn, op):
        """Run with the planned fault; after a fault the same call must succeed."""
        res = ops.run(ctx, fn, budget=3_000_000, actions=op.get("actions") or (), crash=op.get("crash"))
        if not res.ok and (res.lin.fired or res.ctl.fired):
            ctx.log("failed", *[str(x) for x in res.lin.fired], "crash" if res.ctl.fired else "")
            ctx.probe("retried")
            ctx.nontrivial = True
            res = ops.run(ctx, fn, budget=3_000_000)
            name += ", repeated after a failure"
        if not res.ok:
            raise Violation("unexpected-exception", f"{name}: {ops.describe(res.exc)}")
        return res.value

    made = []
    for k, op in enumerate(plan["ops"]):
        kind = op["op"]
        name = f"{cfg['app']} op {k} {kind}"
        ctx.log("op", cfg["app"], kind)
        if kind == "fwd":
            th = model.theta(op["theta"])
            v, pull = call(name, lambda: jax.vjp(history, jnp.asarray(th)), op)
            want = value(th)
            ctx.expect(abs(float(v) - want) <= 1e-6 * abs(want) + 1e-9, "wrong-history",
                       f"{name}: the history gives {float(v):.10g}, a fresh problem {want:.10g}")
            made.append([th, pull, k, want])
        elif kind == "other":
            # another history, evaluated without being differentiated
            th = model.theta(op["theta"])
            v = call(name, lambda: history(jnp.asarray(th)), op)
            want = value(th)
            ctx.expect(abs(float(v) - want) <= 1e-6 * abs(want) + 1e-9, "wrong-history",
                       f"{name}: the history gives {float(v):.10g}, a fresh problem {want:.10g}")
        else:
            th, pull, src, v0 = made[op["of"]][:4]
            name += f" of op {src}"
            mag = 10. ** op["mag"]
            (g,) = call(name, lambda: pull(jnp.asarray(mag)), op)
            g = np.asarray(g, float) / mag
            ctx.expect(np.isfinite(g).all(), "wrong-gradient", f"{name}: the gradient is not finite")
            if len(made[op["of"]]) == 4:        # the derivative of the forward history along a random direction
                r = np.random.default_rng(op["of"])
                v = r.standard_normal(len(th)) * np.maximum(np.abs(th), .1)
                e = 1e-4
                fd = (8 * (value(th + e * v) - value(th - e * v)) - (value(th + 2 * e * v) - value(th - 2 * e * v))) / (12 * e)
                made[op["of"]] += [v, fd]
            v, fd = made[op["of"]][4:]
            scale = np.linalg.norm(g * v) + abs(fd) + 1e-9 * abs(v0)
            ctx.expect(abs(fd - g @ v) <= TOL * scale, "wrong-gradient",
                       f"{name}: directional derivative {g @ v:.8g}, differences of the forward history give {fd:.8g}")
            ctx.log("gradient", str(op["mag"]))
            if op["of"] < len(made) - 1:
                ctx.nontrivial = True
            ctx.state_keys.add(f"{cfg['app']}/{cfg['steps']}/{cfg['adj']}/{op['mag']}/{bool(op.get('actions'))}/{bool(op.get('crash'))}/{op['of'] < len(made) - 1}")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        for kk in ("crash", "actions"):
            if op.get(kk):
                yield dict(plan, ops=plan["ops"][:k] + [{a: b for a, b in op.items() if a != kk}] + plan["ops"][k + 1:])
