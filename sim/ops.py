"""Running one operation of the library under the simulator's control."""
import numpy as np

from sim import boundary, monitor
from sim.core import NoProgress, Violation

SOFT = ("scale", "perturb", "zero", "garbage", "stale", "drop", "negate")


def gen_actions(rng, hard=True, n_max=4):
    """A finite script of linear-solver behaviours."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, n_max])):
        r = rng.random()
        if r < .25:
            out.append(["exact"])
        elif hard and r < .34:
            out.append(rng.choice([["nan", rng.randrange(1000)], ["allnan"], ["inf", rng.randrange(1000)],
                                   ["raise", rng.choice(["RuntimeError", "MemoryError", "KeyboardInterrupt",
                                                         "FloatingPointError"])]]))
        else:
            k = rng.choice(SOFT)
            if k == "scale":
                out.append([k, rng.choice([0.5, 0.9, 1.5, 2., 10., -0.5, 1e-3])])
            elif k == "perturb":
                out.append([k, rng.choice([1e-6, 1e-3, .1, 1.]), rng.randrange(10**6)])
            elif k == "garbage":
                out.append([k, rng.choice([.1, 1., 10.]), rng.randrange(10**6)])
            elif k == "drop":
                out.append([k, rng.randrange(3), rng.choice([2, 3, 7])])
            else:
                out.append([k])
    return out


LINEAR = [
    {"spsolve_solver": {}},
    {"petsc_solver": {}},
    {"petsc_solver": {"ksp_type": "preonly", "pc_type": "lu"}},
    {"petsc_solver": {"ksp_type": "gmres", "pc_type": "jacobi"}},
    {"jax_solver": {}},
    {"jax_solver": {"precond": False}},
    {"jax_solver": {"precond": True}},
    {},
    {"custom": 1},
    {"custom": 1},
    {"spsolve_solver": {}},
    {"spsolve_solver": {}},
]
EXACT_LINEAR = [LINEAR[0], LINEAR[2], {"custom": 1}]


def linear_options(spec):
    import copy
    spec = copy.deepcopy(spec)
    if spec and "custom" in spec:
        return {"custom_solver": boundary.custom_exact}
    return spec


def newton_options(op):
    """solver_options for an op: {'lin':..., 'tol','rel_tol','ls','style','guess': array list|None}"""
    lin = linear_options(op.get("lin"))
    d = {}
    for k in ("tol", "rel_tol"):
        if op.get(k) is not None:
            d[k] = op[k]
    if op.get("ls"):
        d["line_search_flag"] = True
    if op.get("_guess") is not None:
        d["initial_guess"] = op["_guess"]
    style = op.get("style", "nested")
    if style == "flat":
        d.update(lin or {})
        return d
    if lin is not None and not (style == "nolin" and not lin):
        d["linear"] = lin
    return {"newton": d}


class Outcome:
    def __init__(self, value=None, exc=None, ctl=None, lin=None):
        self.value, self.exc, self.ctl, self.lin = value, exc, ctl, lin

    @property
    def ok(self):
        return self.exc is None


def run(ctx, fn, budget=400_000, crash=None, actions=(), hook=None, limit=250):
    """Run fn() under a step budget, an optional crash point and a linear-solver script."""
    ctl = monitor.OpCtl(budget=budget, crash=crash)
    lin = boundary.LinCtl(actions, limit=limit, hook=hook)
    exc = value = None
    try:
        with monitor.controlled(ctl), boundary.linctl(lin):
            value = fn()
    except Violation:
        raise
    except NoProgress as e:
        raise Violation("no-progress", str(e))
    except BaseException as e:
        exc = e
    ctx.steps += ctl.steps
    for k in lin.fired:
        ctx.fault(k)
    if ctl.fired:
        ctx.fault("crash_" + crash["exc"])
    return Outcome(value, exc, ctl, lin)


def flat(sol_list):
    return np.concatenate([np.asarray(s, dtype=np.float64).reshape(-1) for s in sol_list])


def describe(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    where = " <- ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.name}" for f in reversed(tb[-6:]))
    return f"{type(e).__name__}: {str(e)[:300]} at {where}"


def tolerance(model, st, U, tol, rel_tol, r0, lam=1.):
    """Accepted residual norm plus round-off allowance."""
    d = model.ref
    z = np.zeros(d.d.N)
    base = np.linalg.norm(d.full(z, st, lam=lam)[0])
    _, A = d.full(U, st, jac=True, lam=lam)
    rough = np.linalg.norm(np.abs(A) @ np.abs(U)) + base + 1e-3
    return max(tol, rel_tol * r0) * (1 + 1e-6) + 1e-11 * rough


def check_solution(ctx, model, st, sol_list, tol=1e-6, rel_tol=1e-8, guess=None, what="solve"):
    """The returned solution satisfies the reference equilibrium and boundary conditions."""
    shapes = [np.shape(s) for s in sol_list]
    want = [(n, v) for n, v in zip(model.ref.d.nn, model.ref.d.vecs)]
    ctx.expect(shapes == want, "wrong-shape", f"{what}: solution shapes {shapes}, expected {want}")
    U = flat(sol_list)
    ctx.expect(np.all(np.isfinite(U)), "nonfinite-solution", f"{what}: returned solution is not finite")
    P = model.P
    if P is None:
        g = np.zeros_like(U) if guess is None else guess
        r0 = np.linalg.norm(model.ref.residual(g, st))
        R = model.ref.residual(U, st)
    else:
        y = np.linalg.lstsq(P, U, rcond=None)[0]
        ctx.expect(np.abs(P @ y - U).max() < 1e-9 * (1 + np.abs(U).max()), "constraint-violated",
                   f"{what}: solution violates the multipoint constraints by {np.abs(P @ y - U).max():.3g}")
        r0 = np.linalg.norm(model.ref.residual(np.zeros(P.shape[1]), st))
        R = model.ref.residual(y, st)
    r = np.linalg.norm(R)
    acc = tolerance(model, st, U, tol, rel_tol, r0)
    ctx.expect(r <= acc, "not-equilibrium",
               f"{what}: residual of the returned solution is {r:.6g}, promised <= {acc:.6g} "
               f"(tol {tol}, rel_tol {rel_tol}, initial residual {r0:.4g})")
    return U, r


def refusal(exc, lin, model, st):
    """An iterative backend may honestly report that it did not converge (breakdown of an incomplete
    factorisation, absolute acceptance threshold); direct backends may not."""
    if not isinstance(exc, AssertionError) or "failed to converge" not in str(exc) or lin is None:
        return False
    return not lin or ("petsc_solver" in lin and lin["petsc_solver"].get("pc_type") != "lu") or "jax_solver" in lin
