"""C13: MMA design optimisation: exact steps, bounds, isolation between runs, failing callbacks."""
import numpy as np

from sim import core, env, monitor, ops, sched
from sim.core import Violation

lib = None
M = None


def setup(job):
    global lib, M
    lib = env.import_library(extra=("jax_fem.mma",))
    import jax_fem.mma as M_
    M = M_
    monitor.instrument([core.REPO.rstrip("/") + "/"])


def gen_shape(rng, j):
    ele = ("QUAD4", "TRI3", "HEX8")[j % 3]
    if ele == "HEX8":
        dims = [rng.choice([2, 3, 4]), rng.choice([2, 3]), rng.choice([1, 2])]
    else:
        dims = [rng.choice([2, 4, 5, 6]), rng.choice([1, 3, 4, 5])]
    big = ele == "HEX8" and j % 4 == 2
    few = j % 6 == 1 or j % 6 == 3 and rng.random() < .5
    if big:                     # a cell with all its neighbours
        dims = [3, 3, rng.choice([3, 4])]
    cells = int(np.prod(dims)) * (2 if ele == "TRI3" else 1)
    frac = rng.choice([1., 1., .8, .5])
    n = max(1, round(frac * cells))
    if big:
        n = cells
    if few and not big:         # fewer design variables than constraints
        n = min(cells, rng.choice([1, 2, 3]))
    return {"ele": ele, "dims": dims, "L": [1. if big else rng.choice([1., 1., 2.]) for _ in dims], "jig": rng.choice([0., .2]) if ele != "HEX8" else 0.,
            "n": n, "fseed": rng.randrange(10**6), "k": 1 if few or big else rng.choice([1, 1, 2]), "m": rng.choice([n, n + 1, n + 2]) if few and not big else rng.choice([1, 1, 2, 3])}


def gen_spec(rng, seed, tier):
    s = core.deck("C13", seed, rng.randrange(10**6), 12 if tier == "quick" else 120, gen_shape)
    return dict(s, obj=rng.choice(["recip", "quad", "linear", "coupled"]), scale=rng.choice([.1, 1., 10., 100.]), cons=[rng.choice(["vol", "vol", "quad", "inv"]) for _ in range(s["m"])],
                bound=rng.choice([.2, .4, .6, .9]), seed=rng.randrange(10**6), start=rng.choice(["const", "random", "random", "corners"]),
                move=rng.choice([.02, .1, .2, .5, 1.]), iters=rng.choice([0, 1, 2, 3, 4, 5, 6, 8]), jax=rng.random() < .4, sens=rng.random() < .75)


def gen_long(rng, op):
    """Long enough for the asymptotes to reach their limits"""
    it = rng.choice([16, 20, 24])
    return dict(op, iters=it, m=1, cons=[rng.choice(["vol", "quad"])], start=rng.choice(["const", "random"]), **rng.choice([
        {"obj": "linear", "move": rng.choice([.01, .02]), "scale": 1.}, {"obj": "quad", "move": .5, "scale": 10.}, {"obj": "coupled", "move": .5, "scale": 10.}]))


SHAPE = ("ele", "dims", "L", "jig", "n", "fseed", "k", "m", "cons")


def sibling(rng, a, b):
    """Optimisation a on the mesh of b, with other design cells (of the same number)"""
    if a["iters"] > 8 or b["iters"] > 8:
        a = dict(a, **{k: b[k] for k in ("iters", "obj", "move", "scale", "start")})
    return dict(a, **{k: b[k] for k in SHAPE}, other=rng.randrange(1, 10**6))


def generate(rng, index, tier, seed):
    o = []
    for k in range(rng.choice([1, 2])):
        op = gen_spec(rng, seed, tier)
        op["op"] = "optimize"
        if rng.random() < .2:
            op = gen_long(rng, op)
        fl = []
        for _ in range(1 if op["iters"] > 8 else rng.choice([1, 1, 2])):
            kind = rng.choice(["callback", "callback", "line", "nest", "nan"])
            if kind == "callback":
                fl.append({"kind": kind, "which": rng.choice(["obj", "cons"]), "at": rng.randrange(1, op["iters"] + 2), "exc": rng.choice(["RuntimeError", "KeyboardInterrupt", "MemoryError", "FloatingPointError", "SystemExit"])})
            elif kind == "line":
                fl.append({"kind": kind, "nth": rng.choice([rng.randrange(1, 40), rng.randrange(1, 260)]), "visit": rng.choice([1, 1, 2, 7]), "exc": rng.choice(["RuntimeError", "KeyboardInterrupt", "MemoryError"])})
            elif kind == "nest":
                fl.append({"kind": kind, "at": rng.randrange(1, op["iters"] + 1) if op["iters"] else 1, "which": rng.choice(["obj", "cons"]), "spec": dict(gen_spec(rng, seed, tier), iters=rng.choice([1, 3]))})
            else:
                fl.append({"kind": kind, "at": rng.randrange(1, op["iters"] + 2), "which": rng.choice(["obj", "cons"])})
        for f in fl:
            if f["kind"] == "nest" and rng.random() < .5:
                f["spec"] = sibling(rng, f["spec"], op)
        if o and rng.random() < .5:
            op = sibling(rng, op, o[0])
        op["faults"] = fl
        o.append(op)
    sw = [[rng.choice([1, 7, 50, 400, 2000]), rng.randrange(2)] for _ in range(rng.choice([0, 5, 20]))] if len(o) > 1 else []
    return {"config": {}, "ops": o, "switches": sw}


class Spec:
    """One optimisation problem: design domain, start, objective and constraints."""

    def __init__(self, s):
        self.s = s
        from jax_fem import generate_mesh as G
        d, L = s["dims"], s["L"]
        if s["ele"] == "HEX8":
            mm = G.box_mesh(*d, *L)
        else:
            mm = G.rectangle_mesh(*d, *L)
        key = {"QUAD4": "quad", "TRI3": "triangle", "HEX8": "hexahedron"}[s["ele"]]
        pts = np.array(mm.points)[:, :len(d)]
        cells = np.array(mm.cells_dict["quad" if s["ele"] == "TRI3" else key])
        if s["ele"] == "TRI3":
            cells = np.concatenate([cells[:, [0, 1, 2]], cells[:, [0, 2, 3]]])
        r = np.random.default_rng(s["fseed"])
        h = np.array(L) / np.array(d)
        pts = pts + s["jig"] * h * r.uniform(-1, 1, pts.shape)
        self.pts, self.cells = pts, cells
        fe = lib["fe"].FiniteElement(lib["gm"].Mesh(pts, cells, s["ele"]), 1, len(d), s["ele"], None, None, None)
        fe.shape_grads, fe.JxW = fe.get_shape_grads()      # as Problem does
        n, k, m = s["n"], s["k"], s["m"]
        self.flex = r.permutation(len(cells))[:n]
        if s.get("other"):          # other design cells of the same mesh
            self.flex = np.random.default_rng(s["other"]).permutation(len(cells))[:n]
        if s["fseed"] % 2:
            self.flex = np.sort(self.flex)
        fe.flex_inds = self.flex.copy()
        self.fe = fe
        r = np.random.default_rng(s["seed"])
        self.rho0 = {"const": np.full((n, k), .5), "random": r.uniform(.05, .95, (n, k)), "corners": r.choice([0., .3, 1.], (n, k))}[s["start"]]
        self.w = r.uniform(.2, 1.5, (n, k)) * s["scale"]
        self.t = r.uniform(-.3, 1.3, (n, k))
        self.sg = r.choice([-1., 1.], (n, k))
        self.V = r.uniform(.5, 1.5, (m, n, k))
        self.H = self.filter()

    def filter(self):
        """max(0, rmin - distance) over the 20 nearest flexible cells; None where that is not well defined"""
        s = self.s
        c = self.pts[self.cells].mean(axis=1)
        vol = 0.
        for q in self.cells:
            X = self.pts[q]
            if s["ele"] == "HEX8":
                vol += np.prod(X.max(axis=0) - X.min(axis=0))
            else:
                x, y = X[:, 0], X[:, 1]
                vol += .5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))
        rmin = 1.5 * (vol / len(self.cells))**(1. / len(s["dims"]))
        f = c[self.flex]
        D = np.linalg.norm(f[:, None] - f[None], axis=2)
        H = np.maximum(0., rmin - D)
        return None if ((H > 1e-12).sum(axis=1) > 20).any() else H

    def values(self, x):
        s = self.s
        if s["obj"] == "recip":
            J, dJ = np.sum(self.w / (.1 + x)), -self.w / (.1 + x)**2
        elif s["obj"] == "quad":
            J, dJ = np.sum(self.w * (x - self.t)**2), 2 * self.w * (x - self.t)
        elif s["obj"] == "linear":
            J, dJ = np.sum(self.w * self.sg * x), self.w * self.sg
        else:
            q = np.sum(self.w * self.sg * x)
            J, dJ = q**2, 2 * q * self.w * self.sg
        return J, dJ

    def constraints(self, x):
        n = x.size
        v, d = [], []
        for i, c in enumerate(self.s["cons"]):
            V = self.V[i]
            if c == "vol":
                v.append(np.sum(V * x) / n - self.s["bound"])
                d.append(V / n)
            elif c == "quad":
                v.append(np.sum(V * (x - .5)**2) / n - .2 * self.s["bound"])
                d.append(2 * V * (x - .5) / n)
            else:
                v.append(self.s["bound"] - np.sum(V * x) / n)
                d.append(-V / n)
        return np.array(v), np.array(d)


class Log:
    def __init__(self):
        self.calls = []          # (which, iteration argument, design copy)
        self.kept = []           # the arrays handed out
        self.vals = []


def start(spec, log, fault=None):
    """A call of optimize with recording callbacks."""
    import jax.numpy as jnp
    s = spec.s
    conv = jnp.asarray if s["jax"] else np.array
    count = {"obj": 0, "cons": 0}

    def seam(which, x, it):
        count[which] += 1
        log.calls.append((which, it, np.array(x)))
        log.kept.append(x)
        if fault and fault.get("which") == which and fault["at"] == count[which]:
            fault["fired"] = True
            if fault["kind"] == "callback":
                raise monitor.make_exc(fault["exc"])
            if fault["kind"] == "nest":
                inner = Spec(fault["spec"])
                il = Log()
                res = start(inner, il)()
                fault["inner"] = (inner, il, res)
            if fault["kind"] == "nan":
                return float("nan")
        return 1.

    def obj(x):
        z = seam("obj", x, None)
        J, dJ = spec.values(np.array(x))
        log.vals.append([J, dJ])
        return (jnp.asarray(J * z) if s["jax"] else float(J) * z), conv(dJ * z)

    def cons(x, it):
        z = seam("cons", x, it)
        v, d = spec.constraints(np.array(x))
        log.vals[-1] += [v, d]
        return conv(v * z), conv(d * z)

    rho = conv(spec.rho0)
    prm = {"movelimit": s["move"], "maxIters": s["iters"]}

    def go():
        out = M.optimize(spec.fe, rho, prm, obj, cons, s["m"])
        return np.array(out)
    go.rho, go.prm = rho, prm
    return go


def mma_check(ctx, name, spec, xs, vals, move, sens):
    """Each step minimises Svanberg's convex approximation of the reported values."""
    n = xs[0].size
    m = spec.s["m"]
    low = upp = None
    for k in range(len(xs) - 1):
        x = xs[k].reshape(-1)
        J, dJ, g, dg = vals[k]
        if sens:
            H = spec.H
            if H is None:
                return False
            Hs = H.sum(axis=1)
            rho = xs[k]
            f = rho / np.maximum(1e-3, rho) / Hs[:, None]
            dJ = H @ (f * dJ)
            dg = np.array([H @ (f * q) for q in dg])
        dJ, dg = dJ.reshape(-1), dg.reshape(m, -1)
        if k < 2:
            low, upp = x - .5, x + .5
        else:
            x1, x2 = xs[k - 1].reshape(-1), xs[k - 2].reshape(-1)
            z = (x - x1) * (x1 - x2)
            fac = np.where(z > 0, 1.2, np.where(z < 0, .7, 1.))
            low, upp = x - fac * (x1 - low), x + fac * (upp - x1)
            low = np.clip(low, x - 10, x - .01)
            upp = np.clip(upp, x + .01, x + 10)
        a = np.maximum.reduce([low + .1 * (x - low), x - move, np.zeros(n)])
        b = np.minimum.reduce([upp - .1 * (upp - x), x + move, np.ones(n)])
        y = xs[k + 1].reshape(-1)
        out = np.maximum(a - y, y - b).max()
        ctx.expect(out <= 1e-9, "wrong-step", f"{name}: design {k + 1} leaves the trust region of the step by {out:.3g}")

        def approx(d):
            P, Q = np.maximum(d, 0), np.maximum(-d, 0)
            e = .001 * (P + Q) + 1e-5
            return (P + e) * (upp - x)**2, (Q + e) * (x - low)**2
        p0, q0 = approx(dJ)
        PQ = [approx(d) for d in dg]
        P, Q = np.array([t[0] for t in PQ]), np.array([t[1] for t in PQ])
        bb = P @ (1 / (upp - x)) + Q @ (1 / (x - low)) - g

        def best(lam):
            p, q = p0 + lam @ P, q0 + lam @ Q
            sp, sq = np.sqrt(p), np.sqrt(q)
            return np.clip((sp * low + sq * upp) / (sp + sq), a, b)

        def con(y):
            return P @ (1 / (upp - y)) + Q @ (1 / (y - low)) - bb

        def cost(y):
            return p0 @ (1 / (upp - y)) + q0 @ (1 / (y - low))
        C = 1e4

        def dual(lam):
            z = best(lam)
            return cost(z) + lam @ con(z)
        # maximise the concave dual; the penalty bounds the multipliers by C
        from scipy.optimize import minimize
        val, lam = -np.inf, None
        for l0 in (np.zeros(m), np.ones(m), np.full(m, 100.)):
            r = minimize(lambda l: (-dual(l), -con(best(l))), l0, jac=True, bounds=[(0, C)] * m, method="L-BFGS-B", options={"maxiter": 500, "ftol": 1e-16, "gtol": 1e-12})
            if -r.fun > val:
                val, lam = -r.fun, r.x.copy()
        for _ in range(6 if m > 1 else 1):
            for i in range(m):
                lo, hi = 0., C
                for _ in range(60):
                    mid = .5 * (lo + hi)
                    lam[i] = mid
                    if con(best(lam))[i] > 0:
                        lo = mid
                    else:
                        hi = mid
                lam[i] = .5 * (lo + hi)
                val = max(val, dual(lam))
        viol = np.maximum(0., con(y) - 3e-7)
        gap = cost(y) + C * viol.sum() - val
        scale = abs(cost(x)) + np.abs(g).max() + 1.
        ctx.worst = max(getattr(ctx, "worst", 0.), gap / (1e-6 * scale + 2e-6 * n))
        ctx.expect(gap <= 2e-6 * scale + 4e-6 * n + 3e-4, "wrong-step", f"{name}: design {k + 1} is not the minimiser of the MMA approximation (excess {gap:.3g}, scale {scale:.3g})")
    return True


def check_run(ctx, name, spec, log, out, done=True):
    s = spec.s
    calls = log.calls
    N = s["iters"]
    xs = [c[2] for c in calls if c[0] == "obj"]
    if done:
        ctx.expect([c[0] for c in calls] == ["obj", "cons"] * N, "wrong-calls", f"{name}: callbacks were called {[c[0] for c in calls]}")
        xs = xs + [out]
    for k, c in enumerate(calls):
        ctx.expect(c[0] == ("obj", "cons")[k % 2], "wrong-calls", f"{name}: callbacks were called {[c[0] for c in calls]}")
        if c[0] == "cons":
            ctx.expect(c[1] == k // 2 + 1, "wrong-calls", f"{name}: constraint call of iteration {k // 2 + 1} was told iteration {c[1]}")
            ctx.expect(np.array_equal(c[2], calls[k - 1][2]), "wrong-calls", f"{name}: objective and constraints of iteration {k // 2 + 1} were evaluated at different designs")
    for x in xs:
        ctx.expect(x.shape == spec.rho0.shape, "wrong-calls", f"{name}: design of shape {x.shape}")
        ctx.expect(np.isfinite(x).all() and x.min() >= -1e-12 and x.max() <= 1 + 1e-12, "out-of-bounds", f"{name}: a design leaves [0, 1]: {x.min()}..{x.max()}")
    if xs:
        ctx.expect(np.array_equal(xs[0], spec.rho0), "wrong-calls", f"{name}: the first design is not the given one")
    for a, b in zip(xs, xs[1:]):
        d = np.abs(b - a).max()
        ctx.expect(d <= s["move"] * (1 + 1e-9), "out-of-bounds", f"{name}: a design moved by {d:.4g}, limit {s['move']}")
    for x, c in zip(log.kept, calls):
        ctx.expect(np.array_equal(np.array(x), c[2]), "design-overwritten", f"{name}: an array handed to a callback was changed later")
    return xs


def execute(plan, ctx):
    specs = [Spec(op) for op in plan["ops"]]
    clean = []
    for k, (op, spec) in enumerate(zip(plan["ops"], specs)):
        name = f"op {k} optimize {op['ele']} n={op['n']}x{op['k']} m={op['m']}"
        with_flags(op, lambda: clean.append(run_spec(ctx, name, op, spec)))
        ctx.state_keys.add(f"{op['ele']}/{op['obj']}/{op['m']}/{op['k']}/{op['start']}/{op['move']}/{sorted(f['kind'] for f in op['faults'])}")
    if len(specs) > 1 and plan["switches"] and plan["ops"][0]["sens"] == plan["ops"][1]["sens"]:
        def both():
            logs = [Log() for _ in specs]
            sc = sched.Scheduler([start(sp, lg) for sp, lg in zip(specs, logs)], plan["switches"], budget=2_000_000)
            sc.run()
            ctx.steps += sc.steps
            if sc.abort is not None:
                raise Violation("no-progress", str(sc.abort))
            for k, e in enumerate(sc.exc):
                if e is not None:
                    raise Violation("unexpected-exception", f"interleaved optimisation {k}: {ops.describe(e)}")
            if sc.made:
                ctx.fault("thread_preemption", sc.made)
                ctx.nontrivial = True
            for k in range(2):
                same(ctx, f"interleaved optimisation {k}", clean[k], (logs[k], sc.result[k]))
            for t in sc.trace:
                ctx.log("switch", f"{t[0]}>{t[1]}", t[2], str(t[3]))
        with_flags(plan["ops"][0], both)


def with_flags(op, fn):
    saved = M.sensitivity_filtering, M.density_filtering
    M.sensitivity_filtering, M.density_filtering = op["sens"], False
    try:
        fn()
    finally:
        M.sensitivity_filtering, M.density_filtering = saved


def same(ctx, name, ref, got, prefix=False):
    (rl, ro), (gl, go) = ref, got
    n = len(gl.calls)
    ctx.expect(n <= len(rl.calls) and (prefix or n == len(rl.calls)), "not-isolated", f"{name}: {n} callback calls, {len(rl.calls)} in a run of its own")
    for k in range(n):
        ctx.expect(np.array_equal(rl.calls[k][2], gl.calls[k][2]), "not-isolated", f"{name}: callback call {k} got a different design than in a run of its own")
    if not prefix:
        ctx.expect(np.array_equal(ro, go), "not-isolated", f"{name}: the result differs from a run of its own")


def run_spec(ctx, name, op, spec):
    def once(fault=None, crash=None):
        log = Log()
        go = start(spec, log, fault)
        keep = np.array(go.rho), dict(go.prm)
        r = ops.run(ctx, go, budget=1_500_000, crash=crash)
        ctx.expect(np.array_equal(np.array(go.rho), keep[0]) and go.prm == keep[1], "inputs-mutated", f"{name}: the starting design or the options were modified")
        ctx.expect(np.array_equal(spec.fe.flex_inds, spec.flex), "inputs-mutated", f"{name}: the flexible cells were modified")
        return log, r
    log, r = once()
    if not r.ok:
        raise Violation("unexpected-exception", f"{name}: {ops.describe(r.exc)}")
    xs = check_run(ctx, name, spec, log, r.value)
    if mma_check(ctx, name, spec, xs, log.vals, op["move"], op["sens"]):
        ctx.probe("steps_checked", len(xs) - 1)
    ref = (log, r.value)
    ctx.log("optimize", op["ele"], str(op["iters"]), core.rnd(float(np.sum(r.value)), 6))
    for f in op["faults"]:
        fault = dict(f) if f["kind"] != "line" else None
        crash = {k: f[k] for k in ("nth", "visit", "exc")} if f["kind"] == "line" else None
        lg, q = once(fault, crash)
        what = f"{name} with {f['kind']}"
        if crash:
            if q.ctl.fired:
                ctx.nontrivial = True
                ctx.expect(not q.ok and monitor.injected(q.exc), "failure-swallowed", f"{what} at {q.ctl.fired}: the interruption did not reach the caller")
                same(ctx, what, ref, (lg, None), prefix=True)
            else:
                same(ctx, what, ref, (lg, q.value))
            ctx.log("line", *map(str, q.ctl.fired or ()))
        elif not fault.get("fired"):
            if not q.ok:
                raise Violation("unexpected-exception", f"{what}: {ops.describe(q.exc)}")
            same(ctx, what, ref, (lg, q.value))
        elif f["kind"] == "callback":
            ctx.fault("callback_raises")
            ctx.nontrivial = True
            ctx.expect(not q.ok and type(q.exc) is type(monitor.make_exc(f["exc"])) and monitor.injected(q.exc), "failure-swallowed",
                       f"{what}: the callback's exception did not reach the caller")
            same(ctx, what, ref, (lg, None), prefix=True)
            ctx.log("callback", f["which"], str(f["at"]))
        elif f["kind"] == "nest":
            ctx.fault("nested_run")
            ctx.nontrivial = True
            if not q.ok:
                raise Violation("unexpected-exception", f"{what}: {ops.describe(q.exc)}")
            same(ctx, what, ref, (lg, q.value))
            inner, il, res = fault["inner"]
            ix = check_run(ctx, f"{what} inner", inner, il, res)
            mma_check(ctx, f"{what} inner", inner, ix, il.vals, inner.s["move"], op["sens"])
            ctx.log("nest", f["which"], str(f["at"]))
        else:
            ctx.fault("callback_returns_nan")
            ctx.nontrivial = True
            ctx.log("nan", "returned" if q.ok else type(q.exc).__name__)
        again, a = once()
        if not a.ok:
            raise Violation("unexpected-exception", f"{name} repeated after {f['kind']}: {ops.describe(a.exc)}")
        same(ctx, f"{name} repeated after {f['kind']}", ref, (again, a.value))
    return ref


def simplify(plan):
    if plan["switches"]:
        yield dict(plan, switches=[])
        yield dict(plan, switches=plan["switches"][:len(plan["switches"]) // 2])
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk, v in (("jig", 0.), ("jax", False), ("start", "const"), ("obj", "linear"), ("scale", 1.), ("move", .2)):
            if op[kk] != v:
                yield put(dict(op, **{kk: v}))
        if op["iters"] > 1:
            yield put(dict(op, iters=op["iters"] - 1))
        for j in range(len(op["faults"])):
            yield put(dict(op, faults=op["faults"][:j] + op["faults"][j + 1:]))
