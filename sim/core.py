"""Core of the deterministic simulator: plans, contexts, violations, workers, minimiser.

A *plan* is a JSON object: a configuration plus a list of operations, each carrying the
faults and scheduling choices that will be made while it runs.  A plan is generated from
``random.Random(f"{property}:{VERIF_SEED}:{index}")`` before anything executes, and executing
it draws no further randomness, so (plan, code) determines the execution.
"""
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REAL_MONO = time.monotonic  # captured before the simulated clock is installed


class Violation(Exception):
    """The property is broken.  `cls` is the violation class used by the minimiser."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class InjectedFault(Exception):
    """An ordinary exception injected at a seam."""


class NoProgress(BaseException):
    """The step budget of an operation ran out."""


class Ctx:
    """Everything one simulated run records."""

    def __init__(self, plan):
        self.plan = plan
        self.events = []
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.sim_time = 0.0
        self.nontrivial = False
        self.checks = 0
        self.state_keys = set()

    def log(self, *ev):
        self.events.append(ev)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def expect(self, cond, cls, msg):
        self.checks += 1
        if not cond:
            raise Violation(cls, msg)

    def log_hash(self):
        h = hashlib.sha256()
        for ev in self.events:
            h.update(repr(ev).encode())
            h.update(b"\n")
        return h.hexdigest()[:20]

    def shape_hash(self):
        """Identity of the interleaving: sequence of operation kinds, faults and outcomes,
        without numerical values."""
        h = hashlib.sha256()
        for ev in self.events:
            h.update(repr(tuple(x for x in ev if isinstance(x, str))).encode())
        return h.hexdigest()[:20]


def rnd(x, nd=9):
    """Round a float for the event log (relative)."""
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")) or x == 0:
        return repr(x)
    return f"{x:.{nd}e}"


def load_prop(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


def make_plan(mod, pid, seed, index, tier):
    rng = random.Random(f"{pid}:{seed}:{index}")
    plan = mod.generate(rng, index, tier, seed)
    plan["property"] = pid
    plan["index"] = index
    plan["seed"] = seed
    if "clock" not in plan:
        r = random.Random(f"clock:{pid}:{seed}:{index}")
        plan["clock"] = gen_clock(r)
    # Plans are JSON: normalise now so that replay sees exactly what the run saw.
    return json.loads(json.dumps(plan))


def gen_clock(r):
    """Behaviour of the simulated clock during one run."""
    m = r.choice(["steady", "steady", "stalled", "backward", "jumps"])
    c = {"mode": m, "tick": r.choice([1e-6, 1e-3, 1.])}
    if m == "jumps":
        c["jumps"] = sorted([r.randrange(1, 80), r.choice([-1e9, -3600., -.5, 1e-3, 5., 1e6])] for _ in range(r.randrange(1, 5)))
    return c


def deck(pid, seed, index, size, make):
    """One of `size` structural configurations of this (property, seed): runs that share an entry
    share compiled kernels, which makes thousands of simulated schedules affordable."""
    j = index % size
    return make(random.Random(f"{pid}:deck:{seed}:{j}"), j)


def raised_by_library(e):
    """Whether an exception that no property expected came out of the code under test (and neither out of the
    simulator called back from it nor from a name the simulator's stand-ins do not offer)."""
    if isinstance(e, (AttributeError, ImportError, NotImplementedError, MemoryError)):
        return False
    root, sim = os.path.realpath(REPO) + os.sep, VERIF + os.sep
    last = None
    for f, _ in traceback.walk_tb(e.__traceback__):
        name = os.path.realpath(f.f_code.co_filename)
        if name.startswith(root):
            last = True
        elif name.startswith(sim):
            last = False
    return bool(last)


def run_plan(mod, plan):
    """Execute one plan.  Returns a result dict; never raises for library misbehaviour."""
    ctx = Ctx(plan)
    t0 = REAL_MONO()
    res = {"i": plan.get("index"), "status": "ok"}
    from sim.clock import CLOCK
    CLOCK.reset(plan.get("clock", {"mode": "steady"}))
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        res.update(status="violation", cls=v.cls, msg=v.msg[:4000])
    except Exception as e:
        if raised_by_library(e):  # where no fault was injected: every faulty call is guarded by its property
            res.update(status="violation", cls="library-exception", msg=traceback.format_exc()[-4000:])
        else:  # harness error
            res.update(status="error", cls=type(e).__name__, msg=traceback.format_exc()[-6000:])
    except BaseException as e:
        res.update(status="error", cls=type(e).__name__, msg=traceback.format_exc()[-6000:])
    finally:
        fin = getattr(mod, "after_run", None)
        if fin is not None:
            fin()
    for k, v in CLOCK.fired.items():
        ctx.fault(k, v)
    ctx.sim_time += CLOCK.covered
    res.update(faults=ctx.faults, probes=ctx.probes, steps=ctx.steps, sim_time=ctx.sim_time,
               log=ctx.log_hash(), shape=ctx.shape_hash(), nontrivial=bool(ctx.nontrivial),
               checks=ctx.checks, wall=REAL_MONO() - t0, nev=len(ctx.events),
               states=sorted(ctx.state_keys)[:64])
    res["_events"] = ctx.events
    return res


# ---------------------------------------------------------------------------
# Minimisation

def _plan_size(plan):
    return len(json.dumps(plan))


def minimise(mod, plan, cls, budget_s, log=lambda *a: None):
    """Greedy delta debugging over plan['ops'] and mod.simplify(plan), keeping the class."""
    t_end = REAL_MONO() + budget_s
    trials = 0

    def fails(p):
        nonlocal trials
        trials += 1
        r = run_plan(mod, json.loads(json.dumps(p)))
        return r["status"] == "violation" and r["cls"] == cls

    best = plan
    # 1. drop chunks of operations
    ops = best.get("ops", [])
    n = 2
    while len(ops) >= 2 and REAL_MONO() < t_end:
        size = max(1, len(ops) // n)
        reduced = False
        start = 0
        while start < len(ops) and REAL_MONO() < t_end:
            cand_ops = ops[:start] + ops[start + size:]
            cand = dict(best, ops=cand_ops)
            if cand_ops and fails(cand):
                best, ops, reduced = cand, cand_ops, True
            else:
                start += size
        if not reduced:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    # 2. property specific simplifications, to a fixed point
    simp = getattr(mod, "simplify", None)
    changed = True
    while simp is not None and changed and REAL_MONO() < t_end:
        changed = False
        for cand in simp(best):
            if REAL_MONO() >= t_end:
                break
            if _plan_size(cand) > _plan_size(best) or cand == best:
                continue
            if fails(cand):
                best = cand
                changed = True
                break
    log(f"minimiser: {trials} trials, {len(plan.get('ops', []))} -> {len(best.get('ops', []))} ops, "
        f"{_plan_size(plan)} -> {_plan_size(best)} bytes")
    return best


def simplify_generic(plan):
    """Drop each entry of each op's fault list; delete optional fields set to defaults."""
    for k, op in enumerate(plan.get("ops", [])):
        fl = op.get("faults")
        if fl:
            for j in range(len(fl)):
                new = dict(op, faults=fl[:j] + fl[j + 1:])
                yield dict(plan, ops=plan["ops"][:k] + [new] + plan["ops"][k + 1:])


def short(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]
