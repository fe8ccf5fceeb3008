"""C14: time histories of path-dependent application models."""
import numpy as np

from sim import apps, core, env, ops
from sim.core import Violation

lib = None
SOLVER_MSGS = ("converge", "Newton", "newton", "solver", "NaN", "nan", "finite")
KINDS = ["finite_plasticity", "thermal_mechanical", "phase_field_fracture", "updated_lagrangian", "crystal_plasticity",
         "wave", "thermal_mechanical_full", "dendrite", "third_medium_contact", "dendrite_explicit"]
FREE = ("wave", "dendrite", "dendrite_explicit", "thermal_mechanical")     # any load may follow any other


def setup(job):
    global lib
    lib = env.import_library()


def make_cfg(r, j):
    app = KINDS[j % len(KINDS)]
    c = {"app": app, "jig": r.choice([0., .1]), "seed": r.randrange(10**6)}
    if app == "finite_plasticity":
        c.update(ele=r.choice(["HEX8", "TET4"]), n=r.choice([[1, 1, 2], [2, 1, 1], [1, 1, 3]]), L=[10., 10., r.choice([10., 20.])])
    elif app == "thermal_mechanical":
        c.update(n=r.choice([[2, 2, 1], [2, 1, 2]]), dt=r.choice([2e-5, 5e-5, 1.5e-4]))
    elif app == "phase_field_fracture":
        c.update(n=r.choice([[3, 3], [2, 4], [3, 2]]), l=r.choice([.08, .15]))
    elif app == "updated_lagrangian":
        c.update(n=r.choice([[3, 1, 1], [4, 1, 1], [2, 2, 1]]))
    elif app == "crystal_plasticity":
        c.update(n=r.choice([[1, 1, 1], [1, 1, 2]]), L=[1., 1., 1.], aligned=r.random() < .5)
    elif app in ("wave", "thermal_mechanical_full"):
        c.update(ele=r.choice(["QUAD4", "TRI3"]), n=r.choice([[3, 3], [4, 2]]), dt=r.choice([1e-5, 4e-5, 1e-4] if app == "wave" else [.005, .02, .1]))
    elif app == "third_medium_contact":
        c.update(n=r.choice([[4, 4], [5, 4], [5, 5]]))
    else:
        c.update(n=r.choice([[4, 4], [5, 3]]), K=r.choice([1.2, 1.8]), J=r.choice([4., 6.]), delta=r.choice([.02, .05]), dt=r.choice([1e-4, 2e-4]))
    return c


class Loads:
    """A loading programme: next target from the previous one."""

    def __init__(self, rng, cfg):
        self.rng, self.cfg, self.u, self.d = rng, cfg, None, rng.choice([1., -1.])
        self.k = rng.randrange(2)

    def next(self):
        r, c = self.rng, self.cfg
        app = c["app"]
        if r.random() < .25:
            self.d = -self.d
        if app == "finite_plasticity":
            u = self.u or [0., 0., 0.]
            h = c["L"][2]
            s = r.choice([.001, .004, .01, .02])
            u = [u[0] + r.choice([0., .3]) * s * h * r.uniform(-1, 1), u[1] + r.choice([0., .3]) * s * h * r.uniform(-1, 1), u[2] + self.d * s * h]
            self.u = [float(x) for x in u]
            return {"u": self.u}
        if app == "thermal_mechanical":
            L = [3e-5 * k for k in c["n"]]
            k, self.k = self.k, self.k + 1      # heating and cooling spells: the material melts and solidifies
            x = self.u or [L[0] / 2, L[1] / 2]
            self.u = [min(L[0], max(0., x[k] + r.uniform(-.3, .3) * L[k])) for k in range(2)]
            return {"c": self.u + [L[2]], "on": float(r.random() < (.75 if k % 4 < 2 else .15)), "mech": r.random() < .85}
        if app == "phase_field_fracture":
            u = (self.u or 0.) + self.d * r.choice([.001, .003, .006])
            self.u = min(.03, max(-.01, u))
            return {"u": self.u, "passes": r.choice([1, 1, 2, 3])}
        if app == "updated_lagrangian":
            self.u = min(.3, max(-.1, (self.u or 0.) + self.d * r.choice([.01, .03, .05])))
            return {"lam": self.u}
        if app == "third_medium_contact":
            self.u = min(.6, max(-.1, (self.u or 0.) + self.d * r.choice([.01, .03, .06])))
            return {"d": self.u}
        if app == "crystal_plasticity":
            u = self.u or [0., 0., 0.]
            s = r.choice([5e-4, 1e-3, 2e-3])
            u = [u[0] + r.choice([0., .2]) * s * r.uniform(-1, 1), u[1], u[2] + self.d * s]
            self.u = [float(x) for x in u]
            return {"u": self.u, "dt": r.choice([.05, .1, .2, .5])}
        if app == "thermal_mechanical_full":
            return {"dt": r.choice([1., 10., 100.]) * r.uniform(.5, 1.5)}
        if app in ("dendrite", "dendrite_explicit"):
            return {"noise": r.randrange(10**6)}
        return {}


def generate(rng, index, tier, seed):
    cfg = core.deck("C14", seed, index, 30 if tier == "quick" else 110, make_cfg)
    tracks = rng.choice([1, 1, 2])
    progs = [Loads(rng, cfg) for _ in range(tracks)]
    o = []
    for k in range(rng.choice([4, 6, 9] if tier == "quick" else [6, 10, 16])):
        t = rng.randrange(tracks)
        op = {"op": "step", "track": t, "load": progs[t].next()}
        x = rng.random()
        if x < .12:
            op["crash"] = {"nth": rng.randrange(1, 160), "visit": 1, "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "InjectedFault"])}
        elif x < .24:
            op["actions"] = ops.gen_actions(rng, hard=True)
        elif x < .34:
            op["trial"] = Loads(rng, cfg).next() if cfg["app"] in FREE else progs[t].next()
            if cfg["app"] not in FREE:
                progs[t].u = op["load"].get("u", op["load"].get("lam", op["load"].get("d", progs[t].u)))
        elif x < .44:
            op["restart"] = True
        elif x < .52:
            op["again"] = True
        if rng.random() < .3:
            op["aside"] = rng.choice(["start", "track"])
        op["lin"] = rng.choice([None, None, None, None, {"petsc_solver": {"ksp_type": "preonly", "pc_type": "lu"}}, {"custom": 1}])
        o.append(op)
    if cfg["app"] == "updated_lagrangian" and rng.random() < .7:
        o.insert(rng.randrange(len(o) + 1), {"op": "drive", "track": 0, "load": {}, "steps": rng.choice([2, 3, 4, 5]), "per": rng.choice([20, 40])})
    return {"config": cfg, "ops": o}


_cache = {}


def adapter(cfg, fresh=False):
    """Applications are built once per configuration and process; a restart builds a new one."""
    return apps.ALL[cfg["app"]](lib, cfg)


def copy(s):
    return {k: (v if k.startswith("_") else np.array(v)) for k, v in s.items()}


def same(a, b):
    return all(np.array_equal(a[k], b[k], equal_nan=True) for k in b if not k.startswith("_"))


def execute(plan, ctx):
    cfg = plan["config"]
    app = adapter(cfg)
    A = {"app": app}
    nt = 1 + max([o["track"] for o in plan["ops"]] + [0])
    tracks = [app.start() for _ in range(nt)]
    for st in tracks:
        for k in list(st):
            if not k.startswith("_"):
                st[k] = np.array(st[k])
    WATCH = [["exact"]] * 60 + [["raise", "RuntimeError"]]

    def attempt(name, s, load, op, faults=True):
        """One step on the real code. Returns the new state or None when it was refused/interrupted."""
        a = A["app"]
        a.aside = None
        if op.get("aside"):
            # between solving the step and updating its history, the problem is given other parameters
            a.aside = a.start() if op["aside"] == "start" else copy(tracks[(op["track"] + 1) % nt])
            ctx.probe("parameters_changed_midway")
        acts = list(op.get("actions") or []) if faults else []
        a.cfg = dict(cfg, lin=ops.linear_options(op.get("lin")))
        keep = copy(s)
        acts2 = acts + WATCH
        n_watch = len(acts2) - 1
        res = ops.run(ctx, lambda: a.step(s, load), budget=1_500_000, actions=acts2, crash=op.get("crash") if faults else None)
        ctx.expect(same(s, keep), "state-mutated", f"{name}: the state the step started from was changed by it")
        if res.ok:
            if not a.admissible(res.value):
                ctx.probe("inadmissible_steps")
                ctx.log("inadmissible")
                return None, res
            return res.value, res
        stuck = res.lin.n > n_watch
        if res.ctl.fired:
            ctx.log("interrupted", op["crash"]["exc"])
            return None, res
        if stuck:
            ctx.fault("linsolve_raise_RuntimeError", -1)
            res.lin.fired = [f for f in res.lin.fired if f != "linsolve_raise_RuntimeError"] + ["stuck"]
            ctx.probe("newton_stuck")
            return None, res
        if res.lin.fired:
            ctx.log("failed under fault", *res.lin.fired)
            return None, res
        if isinstance(res.exc, AssertionError) and any(m in str(res.exc) for m in SOLVER_MSGS):
            ctx.probe("refused")
            return None, res
        raise Violation("unexpected-exception", f"{name}: {ops.describe(res.exc)}")

    def judged(name, s, load, n):
        A["app"].check(ctx, name, s, load, n)

    def advance(name, s, load, op):
        """Reach `load` from s: retry after faults, cut back after honest refusals."""
        cur, t0, dt, tries = s, 0., 1., 0
        if op.get("trial") is not None:
            n, _ = attempt(name + " trial", cur, op["trial"], op, faults=False)
            if n is not None:
                judged(name + " trial", cur, op["trial"], n)
                ctx.probe("discarded_steps")
                ctx.log("discarded")
                ctx.nontrivial = True
        first = True
        while t0 < 1.:
            step = load if t0 == 0. and dt == 1. else A["app"].between(cur, load, min(1., dt / (1. - t0)))
            n, res = attempt(name, cur, step, op, faults=first)
            faulty = first and (res.lin.fired and res.lin.fired != ["stuck"] or res.ctl.fired)
            first = False
            if n is not None:
                try:
                    judged(name, cur, step, n)
                except Violation as v:
                    if faulty:
                        v.msg += f" (injected: {res.lin.fired or res.ctl.fired})"
                    raise
                cur = n
                t0 += dt
                if t0 > 1. - 1e-9:
                    return cur
                ctx.log("part")
                continue
            if faulty:
                ctx.nontrivial = True
                ctx.log("retry")
                continue
            if A["app"].between(cur, load, .5) is None:
                raise Violation("no-progress", f"{name}: refused without any fault: {ops.describe(res.exc) if res.exc else "inadmissible"}")
            tries += 1
            dt /= 2
            ctx.probe("cutbacks")
            ctx.log("cut back")
            if tries > 6:
                raise Violation("no-progress", f"{name}: still refused at 1/64 of the increment: {ops.describe(res.exc) if res.exc else 'inadmissible'}")
        return cur

    for k, op in enumerate(plan["ops"]):
        name = f"{cfg['app']} op {k} {op['load']}"
        ctx.log("op", cfg["app"], str(op["track"]))
        s = tracks[op["track"]]
        if op["op"] == "drive":
            A["app"].cfg = dict(cfg, lin=ops.linear_options(None))
            res = ops.run(ctx, lambda: A["app"].drive(ctx, name, op["steps"], op["per"]), budget=3_000_000)
            if not res.ok:
                raise res.exc if isinstance(res.exc, Violation) else Violation("unexpected-exception", f"{name}: {ops.describe(res.exc)}")
            ctx.probe("own_time_loop")
            ctx.nontrivial = True
            continue
        if op.get("restart"):
            saved = [{a: np.array(b) for a, b in t.items() if not a.startswith("_")} for t in tracks]
            A["app"] = adapter(cfg, fresh=True)
            tracks = saved
            s = tracks[op["track"]]
            ctx.fault("restart_from_saved_state")
            ctx.nontrivial = True
        n = advance(name, s, op["load"], op)
        if op.get("again"):
            m = advance(name + " again", s, op["load"], dict(op, actions=[], crash=None, trial=None))
            judged_pair(ctx, name, n, m)
            ctx.probe("repeated_steps")
        tracks[op["track"]] = {a: np.array(b) for a, b in n.items() if not a.startswith("_")}
        ctx.state_keys.add(f"{cfg['app']}/{k}/{'r' if op.get('restart') else ''}{'c' if op.get('crash') else ''}{'f' if op.get('actions') else ''}{'t' if op.get('trial') else ''}")
    if nt > 1:
        ctx.nontrivial = True


def judged_pair(ctx, name, n, m):
    for k in n:
        if not k.startswith("_") and np.size(n[k]):
            sc = np.abs(np.array(n[k], float)).max()
            ctx.expect(np.abs(np.array(n[k], float) - np.array(m[k], float)).max() <= 1e-5 * sc + 1e-9, "not-repeatable",
                       f"{name}: repeating the step from the same state changed {k}")


def simplify(plan):
    for k, op in enumerate(plan["ops"]):
        def put(new):
            return dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])
        for kk in ("crash", "actions", "trial", "restart", "again", "aside"):
            if op.get(kk):
                yield put({a: b for a, b in op.items() if a != kk})
        if op.get("lin"):
            yield put(dict(op, lin=None))
        if op.get("actions"):
            for j in range(len(op["actions"])):
                yield put(dict(op, actions=op["actions"][:j] + op["actions"][j + 1:]))
