"""Fault seams at the boundary to external numerical libraries.

SciPy's direct solver, JAX's bicgstab and PETSc's KSP are real; a controller may replace
the answer of the n-th linear solve by a faulty one or raise."""
import threading

import numpy as np

from sim.core import NoProgress
from sim.monitor import make_exc


class LinCtl:
    """Scripted behaviour of successive linear solves: a list of actions, then exact."""

    def __init__(self, actions=(), limit=250, hook=None, pause=None):
        self.pause = pause        # called on entry to an external solver
        self.actions = list(actions)
        self.limit = limit        # linear solves after which an operation counts as stuck
        self.hook = hook
        self.n = 0
        self.fired = []
        self.prev = None

    def next(self):
        if self.pause is not None:
            self.pause()
        a = self.actions[self.n] if self.n < len(self.actions) else ["exact"]
        self.n += 1
        if self.n > self.limit + len(self.actions):
            raise NoProgress(f"{self.limit} exact linear solves after the last fault without finishing")
        return a

    def before(self, a):
        if a[0] == "raise":
            self.fired.append("linsolve_raise_" + a[1])
            raise make_exc(a[1])

    def apply(self, a, x):
        """Transform the true answer x (1-D float array) into the faulty one."""
        k = a[0]
        x = np.array(x, dtype=np.float64)
        y = x
        if k == "scale":
            y = x * a[1]
        elif k == "perturb":
            r = np.random.default_rng(a[2])
            y = x + a[1] * (np.abs(x).max() + 1e-30) * r.standard_normal(x.shape)
        elif k == "nan":
            y = x.copy()
            y[a[1] % len(y)] = np.nan
        elif k == "allnan":
            y = np.full_like(x, np.nan)
        elif k == "inf":
            y = x.copy()
            y[a[1] % len(y)] = np.inf
        elif k == "zero":
            y = np.zeros_like(x)
        elif k == "garbage":
            r = np.random.default_rng(a[2])
            y = a[1] * r.standard_normal(x.shape)
        elif k == "stale":
            y = np.zeros_like(x) if self.prev is None or self.prev.shape != x.shape else self.prev
        elif k == "drop":
            y = x.copy()
            y[a[1]::a[2]] = 0.
        elif k == "negate":
            y = -x
        self.prev = x
        if k not in ("exact", "raise"):
            self.fired.append("linsolve_" + k)
        return y


CTL = None
_installed = False
_task = threading.local()      # controller of one simulated task, overrides CTL


def current():
    return getattr(_task, "ctl", None) or CTL


class linctl:
    def __init__(self, ctl):
        self.ctl = ctl

    def __enter__(self):
        global CTL
        self.prev = CTL
        CTL = self.ctl
        return self.ctl

    def __exit__(self, *a):
        global CTL
        CTL = self.prev
        return False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import jax
    import jax.numpy as jnp
    import jax.scipy.sparse.linalg as jsl
    import scipy.sparse.linalg as ssl
    from petsc4py import PETSc

    real_spsolve = ssl.spsolve

    def spsolve(A, b, *args, **kw):
        c = current()
        if c is None:
            return real_spsolve(A, b, *args, **kw)
        a = c.next()
        c.before(a)
        if a[0] == "exact":
            x = real_spsolve(A, b, *args, **kw)
            c.prev = np.array(x, dtype=np.float64)
            return x
        return c.apply(a, real_spsolve(A, b, *args, **kw))
    ssl.spsolve = spsolve

    def wrap_jax(real):
        def solve(A, b, *args, **kw):
            c = current()
            if c is None or isinstance(b, jax.core.Tracer):
                return real(A, b, *args, **kw)
            a = c.next()
            c.before(a)
            x, info = real(A, b, *args, **kw)
            if a[0] == "exact":
                c.prev = np.array(x, dtype=np.float64)
                return x, info
            return jnp.asarray(c.apply(a, x)), info
        return solve
    jsl.bicgstab = wrap_jax(jsl.bicgstab)

    class KSP(PETSc.KSP):
        def solve(self, b, x):
            c = current()
            if c is None:
                return super().solve(b, x)
            a = c.next()
            c.before(a)
            super().solve(b, x)
            if a[0] == "exact":
                c.prev = np.array(x.getArray())
            else:
                x.setArray(c.apply(a, x.getArray()))
    PETSc.KSP = KSP


def csr_of(A):
    """scipy CSR copy of a PETSc matrix."""
    import scipy.sparse
    ip, ind, data = A.getValuesCSR()
    return scipy.sparse.csr_array((np.array(data), np.array(ind), np.array(ip)), shape=A.getSize())


def custom_exact(A, b, x0, options):
    """A user-supplied linear solver: dense LU, driven by the same controller."""
    import jax.numpy as jnp
    c = current()
    a = ["exact"] if c is None else c.next()
    if c is not None:
        c.before(a)
    M = csr_of(A).toarray()
    x = np.linalg.solve(M, np.asarray(b))
    if c is not None:
        if a[0] == "exact":
            c.prev = x.copy()
        else:
            x = c.apply(a, x)
        if c.hook is not None:
            c.hook(M, np.asarray(b), x)
    return jnp.asarray(x)
