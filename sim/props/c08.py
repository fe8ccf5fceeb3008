"""C08: timing, logging and printing never change a result; timing decorators are transparent."""
import logging
import os

import numpy as np

from sim import core, env, ops, zoo
from sim.clock import CLOCK
from sim.core import Violation
from sim.monitor import make_exc

lib = None
_uid = 0


def setup(job):
    global lib
    lib = env.import_library(extra=("jax_fem.mma",))


def gen_fn(rng):
    return {"ret": rng.choice(["none", "tuple", "array", "generator", "args"]),
            "raise": rng.choice([None, None, None, "RuntimeError", "KeyboardInterrupt", "MemoryError", "OSError"]),
            "depth": rng.choice([0, 0, 1, 2])}


def generate(rng, index, tier, seed):
    cfg = zoo.deck("C08", seed, index, tier, small=1., kinds=("scalar", "elastic"), max_surf=1)
    o = []
    for k in range(rng.choice([3, 4, 5])):
        kind = rng.choice(["newton", "newton", "grad", "arc", "relax", "build", "mma", "walltime", "walltime", "timeit", "timeit"])
        op = {"op": kind, "clock": core.gen_clock(rng), "level": rng.choice([10, 20, 30, 50, 50]),
              "stream": rng.choice(["ok", "ok", "broken"]), "actions": []}
        if op["clock"]["mode"] == "steady":
            op["clock"]["mode"] = "stalled"
        if kind in ("newton", "grad", "arc", "relax"):
            op["theta"] = zoo.gen_theta(rng, cfg, ["field", "sc"])
            op["lin"] = rng.choice([{"spsolve_solver": {}}, {"petsc_solver": {}}, {"jax_solver": {}}, {"custom": 1}])
            op["actions"] = ops.gen_actions(rng, n_max=2) if rng.random() < .5 else []
            op["ls"] = rng.random() < .3
        if kind == "relax":
            op["nPrint"] = rng.choice([1, 3, 500])
            op["nKMat"] = rng.choice([5, 1000])
            op["info"] = rng.random() < .5
        if kind == "arc":
            op["dl"], op["steps"] = rng.choice([.05, .2]), rng.choice([1, 3])
        if kind == "mma":
            op["n"], op["iters"], op["mseed"] = rng.choice([20, 30]), rng.choice([1, 3]), rng.randrange(10**6)
        if kind in ("walltime", "timeit"):
            op["fns"] = [gen_fn(rng) for _ in range(rng.choice([1, 2, 3]))]
            op["dir"] = rng.choice([None, "a", "a/b", "c"])
            op["names"] = [rng.choice([None, "x", "y"]) for _ in op["fns"]]
            op["same"] = rng.random() < .3
        o.append(op)
    return {"config": cfg, "ops": o, "clock": {"mode": "steady", "tick": 1e-3}}


class _Broken:
    def write(self, s):
        raise OSError(28, "injected by the simulator")

    def flush(self):
        raise OSError(28, "injected by the simulator")


class conditions:
    """Log level, log stream and clock of one execution."""

    def __init__(self, ctx, clock, level, stream):
        self.ctx, self.clock, self.level, self.stream = ctx, clock, level, stream

    def __enter__(self):
        lg = lib["solver"].logger
        self.old = (lg.level, [(h, h.stream) for h in lg.handlers if hasattr(h, "stream")], logging.raiseExceptions)
        lg.setLevel(self.level)
        if self.stream == "broken":
            logging.raiseExceptions = False
            for h, _ in self.old[1]:
                h.stream = _Broken()
            self.ctx.fault("log_stream_broken")
        if self.level > 10:
            self.ctx.fault("log_level_%d" % self.level)
        CLOCK.reset(self.clock)
        return self

    def __exit__(self, *a):
        lg = lib["solver"].logger
        lg.setLevel(self.old[0])
        for h, s in self.old[1]:
            h.stream = s
        logging.raiseExceptions = self.old[2]
        for k, v in CLOCK.fired.items():
            self.ctx.fault(k, v)
        self.ctx.sim_time += CLOCK.covered
        CLOCK.reset({"mode": "steady"})
        return False


def leaves(x):
    import jax
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(x)]


def same(a, b):
    a, b = leaves(a), leaves(b)
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and (x.tobytes() == y.tobytes() or np.array_equal(x, y, equal_nan=x.dtype.kind == "f"))
                                    for x, y in zip(a, b))


def action(op, model, problem, cfg):
    """A callable that performs the operation and returns its observable result."""
    import jax
    import jax.numpy as jnp
    S = lib["solver"]
    k = op["op"]
    if k in ("newton", "grad", "arc", "relax"):
        prm = model.lib_params(op["theta"], ["field", "sc"])
        lin = ops.linear_options(op["lin"])
    if k == "newton":
        def fn():
            problem.set_params(prm)
            return S.solver(problem, {"newton": {"linear": lin, "line_search_flag": op["ls"]}})
    elif k == "grad":
        def fn():
            sol, pull = jax.vjp(S.ad_wrapper(problem, {"newton": {"linear": lin}}, {"spsolve_solver": {}}), prm)
            return sol, pull([jnp.ones_like(s) for s in sol])[0]
    elif k == "arc":
        def fn():
            problem.set_params(prm)
            sol, info = S.solver(problem, {"arc_length": {"control": "displacement", "Delta_l": op["dl"], "max_continuation_steps": op["steps"],
                                                          "return_info": True, "linear": lin}})
            return sol, [(h["lam"], h["u"]) if isinstance(h, dict) else h for h in info["history"]]
    elif k == "relax":
        def fn():
            problem.set_params(prm)
            return S.solver(problem, {"dynamic_relax": {"linear": lin, "nPrint": op["nPrint"], "nKMat": op["nKMat"], "info": op["info"], "info_force": op["info"]}})
    elif k == "build":
        def fn():
            fe0 = problem.fes[0]
            fe = lib["fe"].FiniteElement(fe0.mesh, fe0.vec, fe0.dim, fe0.ele_type, fe0.quadrature_rule, fe0.quadrature_order,
                                         zoo.bc_info(cfg["bcs"], model.L, 0, jnp))
            return [fe.get_shape_grads(), fe.face_normals, fe.shape_vals, fe.node_inds_list, fe.vals_list,
                    problem.newton_update([jnp.ones((f.num_total_nodes, f.vec)) for f in problem.fes]), problem.V]
    elif k == "mma":
        import jax_fem.mma as M
        r = np.random.default_rng(op["mseed"])
        n = op["n"]
        cen = r.uniform(size=(n, 2))
        w = r.uniform(.5, 1.5, n)

        class FE:
            points = np.repeat(cen, 4, axis=0)
            cells = np.arange(4 * n).reshape(n, 4)
            flex_inds = np.arange(n)
            num_cells, dim = n, 2
            JxW = np.ones((n, 1)) / n
        rho0 = r.uniform(.2, .8, (n, 1))

        def fn():
            return M.optimize(FE, rho0.copy(), {"maxIters": op["iters"], "movelimit": .2},
                              lambda x: (np.sum(w[:, None] / (.1 + x)), -w[:, None] / (.1 + x)**2),
                              lambda x, it: (np.array([np.mean(x) - .5]), np.ones((1, n, 1)) / n), 1)
    return fn


def user_fn(f, calls):
    """A user function that records its call; recursion, return kind and exception are scripted."""
    obj = {"none": None, "tuple": (1, "two"), "array": np.arange(3.), "generator": (i for i in range(2))}.get(f["ret"])
    exc = make_exc(f["raise"]) if f["raise"] else None

    def body(*a, **k):
        """user documentation"""
        calls.append((a, k, CLOCK.reads, CLOCK.now))
        if len(calls) <= f["depth"]:
            return body.wrapped(*a, **k)
        if exc is not None:
            raise exc
        return (a, k) if f["ret"] == "args" else obj
    return body, obj, exc


def decorated(ctx, op, name, clock, run_id):
    """Run the decorated functions of one operation under one clock; returns outcomes."""
    U = lib["utils"]
    base = None if op["dir"] is None else env.scratch("tmp", f"wt{run_id}", op["dir"])
    for i, f in enumerate(op["fns"]):
        calls = []
        body, obj, exc = user_fn(f, calls)
        if op["op"] == "timeit":
            w = U.timeit(body)
            ctx.expect(w.__name__ == "body" and w.__doc__ == "user documentation", "metadata-lost", f"{name}: timeit lost the function's metadata")
        else:
            w = U.walltime(base, op["names"][i])(body) if base is not None or op["names"][i] is not None else U.walltime()(body)
        body.wrapped = w
        path = None if base is None or op["op"] == "timeit" else os.path.join(base, f"{op['names'][i] or 'walltime'}_cpu.txt")
        before = open(path).read() if path and os.path.exists(path) else None
        others = {} if base is None or not os.path.isdir(base) else {p: open(os.path.join(base, p)).read() for p in os.listdir(base)}
        args, kw = ([1, [2]], 3.5), {"x": None, "y": {"z": 1}}
        t_in = CLOCK.now
        got = None
        raised = None
        try:
            got = w(*args, **kw)
        except BaseException as e:
            raised = e
        if exc is not None:
            ctx.fault("user_function_raises")
        ctx.expect(len(calls) == f["depth"] + 1 and all(c[0] == args and c[0][0] is args[0] and c[1] == kw for c in calls), "arguments-changed",
                   f"{name}: the decorated function was called {len(calls)} times with {[c[:2] for c in calls]}, expected {f['depth'] + 1} x {args, kw}")
        ctx.expect(raised is exc, "exception-changed", f"{name}: the function ended with {exc!r}, the caller saw {raised!r}")
        if exc is None:
            ok = got == (args, kw) and got[0][0] is args[0] if f["ret"] == "args" else got is obj
            ctx.expect(ok, "result-changed", f"{name}: the function returned {obj!r}, the caller got {got!r}")
        if path is None:
            continue
        if exc is not None:
            now = open(path).read() if os.path.exists(path) else None
            ctx.expect(now == before, "timing-record-wrong", f"{name}: a call that raised changed the timing record from {before!r} to {now!r}")
        else:
            ctx.expect(os.path.exists(path), "timing-record-wrong", f"{name}: no timing record {os.path.basename(path)}")
            txt = open(path).read()
            try:
                s, e, d = [float(v) for v in txt.strip().split(",")]
            except ValueError:
                raise Violation("timing-record-wrong", f"{name}: timing record is {txt!r}")
            hist = CLOCK.readings
            entry, leave = calls[0][2], calls[-1][2]
            first, last = hist[:entry], hist[leave:]
            ctx.expect(s in first and e in last, "timing-record-wrong",
                       f"{name}: recorded start {s!r} and end {e!r}; clock readings before the call {first[-3:]}, after it {last[:3]} (clock {clock})")
            ctx.expect(d == e - s or any(d == b - a for a in first for b in last), "timing-record-wrong", f"{name}: recorded elapsed {d!r}, end - start = {e - s!r}")
        for p, txt in others.items():
            if os.path.join(base, p) != path:
                ctx.expect(open(os.path.join(base, p)).read() == txt, "timing-record-wrong", f"{name}: the record {p} of another function was changed")
        ctx.probe("timing_record")


def execute(plan, ctx):
    global _uid
    cfg = plan["config"]
    need = any(op["op"] in ("newton", "grad", "arc", "relax", "build") for op in plan["ops"])
    model = zoo.Model(cfg) if need else None
    problem = model.problem(lib) if need else None
    for k, op in enumerate(plan["ops"]):
        name = f"op {k} {op['op']}"
        if op["op"] in ("walltime", "timeit"):
            _uid += 1
            with conditions(ctx, op["clock"], op["level"], op["stream"]):
                decorated(ctx, op, name, op["clock"], _uid)
            ctx.nontrivial = True
            ctx.log(op["op"], op["clock"]["mode"], str(op["dir"]), str(op["fns"]))
            ctx.state_keys.add(f"{op['op']}/{op['clock']['mode']}/{op['level']}/{op['dir']}/{sorted(str(f['raise']) for f in op['fns'])}")
            continue
        fn = action(op, model, problem, cfg)
        out = []
        for clock, level, stream in (({"mode": "steady", "tick": 1e-3}, 10, "ok"), (op["clock"], op["level"], op["stream"])):
            with conditions(ctx, clock, level, stream):
                try:
                    out.append(ops.run(ctx, fn, actions=op["actions"], budget=120_000))
                except Violation as v:
                    if v.cls != "no-progress":
                        raise
                    out.append(None)          # bounded progress is C01/C06/C07's subject
        a, b = out
        how = f"clock {op['clock']}, log level {op['level']}, log stream {op['stream']}"
        ctx.expect((a is None) == (b is None), "result-changed", f"{name}: progress depends on {how}")
        if a is None:
            ctx.log(op["op"], "slow")
            continue
        ctx.expect(a.ok == b.ok, "result-changed", f"{name}: with a steady clock {'returned' if a.ok else ops.describe(a.exc)}; with {how} "
                   f"{'returned' if b.ok else ops.describe(b.exc)}")
        if a.ok:
            ctx.expect(same(a.value, b.value), "result-changed", f"{name}: the result depends on {how}")
        else:
            ctx.expect(type(a.exc) is type(b.exc), "result-changed", f"{name}: {ops.describe(a.exc)} became {ops.describe(b.exc)} with {how}")
        ctx.expect(a.lin.n == b.lin.n, "result-changed", f"{name}: {a.lin.n} linear solves became {b.lin.n} with {how}")
        if not a.ok and not a.lin.fired:
            lin = op.get("lin") or {"custom": 1}
            st = model.state(op["theta"], model.ref_bcs(cfg["bcs"])) if "theta" in op else None
            # no equilibrium within the arc length, or a diverging pseudo-time iteration, is an honest refusal
            ctx.expect(ops.refusal(a.exc, lin, model, st) or op["op"] in ("arc", "relax") and isinstance(a.exc, AssertionError), "unexpected-exception",
                       f"{name}: {ops.describe(a.exc)}")
        ctx.nontrivial = True
        ctx.probe("compared_" + op["op"])
        ctx.log(op["op"], op["clock"]["mode"], "ok" if a.ok else type(a.exc).__name__, str(a.lin.n))
        ctx.state_keys.add(f"{op['op']}/{op['clock']['mode']}/{op['level']}/{op['stream']}/{sorted(set(a.lin.fired))}")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk, v in (("actions", []), ("level", 10), ("stream", "ok"), ("clock", {"mode": "steady", "tick": 1e-3}), ("clock", {"mode": "stalled", "tick": 1e-3}), ("ls", False)):
            if kk in op and op[kk] != v:
                yield put(dict(op, **{kk: v}))
        if op.get("fns") and len(op["fns"]) > 1:
            for j in range(len(op["fns"])):
                yield put(dict(op, fns=op["fns"][:j] + op["fns"][j + 1:], names=op["names"][:j] + op["names"][j + 1:]))
