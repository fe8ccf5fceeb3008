"""A simulated pyamgx: object lifetimes, uploads, scripted failures and answers.

The device is a dense solver that stops, like AMGX, as soon as the residual meets the configured tolerance."""
import json
import sys
import types

import numpy as np

from sim.monitor import make_exc


class AMGXError(RuntimeError):
    pass


class Reg:
    """State of the simulated device during one operation."""

    def __init__(self, script=(), limit=250):
        self.script = [list(s) for s in script]
        self.limit = limit
        self.live, self.errors, self.fired, self.log = [], [], [], []
        self.nsolve = 0          # linear solves started
        self.ncall = 0           # API calls in the current linear solve
        self.created = self.destroyed = 0
        self.overrun = False
        self.prev = None
        self.cfgs = []           # what each configuration was created from
        self.uploads = []

    def err(self, msg):
        self.errors.append(msg)
        raise AMGXError(msg)

    def call(self, name):
        self.ncall += 1
        for s in self.script:
            if s[0] == "api" and s[1] == self.nsolve and s[2] == self.ncall:
                self.fired.append("amgx_fails_in_" + name)
                raise AMGXError("injected by the simulator: " + name) if s[3] == "AMGXError" else make_exc(s[3])

    def answer(self):
        for s in self.script:
            if s[0] == "ans" and s[1] == self.nsolve:
                return s[2]
        return None


REG = Reg()


class _Obj:
    alive = False
    children = ()

    def _born(self, *parents):
        for p in parents:
            if not p.alive:
                REG.err(f"{type(self).__name__} created from a destroyed {type(p).__name__}")
        if self.alive:
            REG.err(f"{type(self).__name__} created twice")
        self.alive, self.children = True, []
        for p in parents:
            if isinstance(p, Resources):
                p.children.append(self)
        REG.live.append(self)
        REG.created += 1
        return self

    def _need(self):
        if not self.alive:
            REG.err(f"{type(self).__name__} used before creation or after destruction")

    def destroy(self):
        if not self.alive:
            REG.errors.append(f"{type(self).__name__} destroyed although it is not alive")
            return
        if any(c.alive for c in self.children):
            REG.errors.append(f"{type(self).__name__} destroyed before " + ", ".join(type(c).__name__ for c in self.children if c.alive))
        self.alive = False
        REG.live.remove(self)
        REG.destroyed += 1


class Config(_Obj):
    def _start(self):
        REG.nsolve += 1
        REG.ncall = 0
        if REG.nsolve > REG.limit:
            REG.overrun = True
            raise AMGXError("injected by the simulator: too many linear solves")

    def create(self, options):
        self._start()
        REG.call("Config.create")
        self.data = {}
        REG.cfgs.append(("options", options))
        return self._born()

    def create_from_file(self, path):
        self._start()
        REG.call("Config.create_from_file")
        REG.cfgs.append(("file", path))
        try:
            with open(path) as f:
                self.data = json.load(f)
        except OSError as e:
            raise AMGXError(f"cannot read configuration {path}") from e
        return self._born()

    def create_from_dict(self, d):
        self._start()
        REG.call("Config.create_from_dict")
        self.data = json.loads(json.dumps(d))
        REG.cfgs.append(("dict", self.data))
        return self._born()

    create_from_file_and_string = create_from_file


class Resources(_Obj):
    def create_simple(self, cfg):
        REG.call("Resources.create_simple")
        return self._born(cfg)


class _OnDevice(_Obj):
    def create(self, rsrc, mode="dDDI"):
        REG.call(type(self).__name__ + ".create")
        self.value = None
        return self._born(rsrc)


class Matrix(_OnDevice):
    def upload_CSR(self, csr):
        self._need()
        REG.call("Matrix.upload_CSR")
        if csr.data.dtype != np.float64 or csr.indices.dtype != np.int32 or csr.indptr.dtype != np.int32:
            REG.err(f"matrix arrays of types {csr.data.dtype}, {csr.indices.dtype}, {csr.indptr.dtype}")
        n, m = csr.shape
        A = np.zeros((n, m))
        rows = np.repeat(np.arange(n), np.diff(csr.indptr))
        np.add.at(A, (rows, csr.indices), csr.data)
        self.value = A
        return self

    def upload(self, row_ptrs, col_indices, data, *a, **k):
        import scipy.sparse
        return self.upload_CSR(scipy.sparse.csr_matrix((data, col_indices, row_ptrs)))


class Vector(_OnDevice):
    def upload(self, data, *a, **k):
        self._need()
        REG.call("Vector.upload")
        data = np.asarray(data)
        if data.ndim != 1 or data.dtype != np.float64:
            REG.err(f"vector of shape {data.shape} and type {data.dtype}")
        self.value = np.array(data)
        return self

    def download(self, out=None):
        self._need()
        REG.call("Vector.download")
        if self.value is None:
            REG.err("download of an empty vector")
        if out is not None:
            out[:] = self.value
        return np.array(self.value)


class Solver(_Obj):
    def create(self, rsrc, cfg, mode="dDDI"):
        REG.call("Solver.create")
        self.A, self.cfg, self.status, self.iterations_number = None, cfg.data, None, 0
        return self._born(rsrc, cfg)

    def setup(self, A):
        self._need()
        A._need()
        REG.call("Solver.setup")
        if A.value is None:
            REG.err("setup with an empty matrix")
        self.A = A
        return self

    def solve(self, b, x, zero_initial_guess=False):
        self._need()
        b._need(), x._need()
        REG.call("Solver.solve")
        if self.A is None or not self.A.alive or b.value is None or x.value is None:
            REG.err("solve before setup or upload")
        A, rhs = self.A.value, b.value
        guess = np.zeros_like(rhs) if zero_initial_guess else x.value
        if guess.shape != rhs.shape or A.shape != (len(rhs), len(rhs)):
            REG.err(f"sizes: matrix {A.shape}, right-hand side {rhs.shape}, guess {guess.shape}")
        sv = self.cfg.get("solver", {})
        sv = sv if isinstance(sv, dict) else {}
        tol = float(sv.get("tolerance", 1e-6))
        r0 = np.linalg.norm(A @ guess - rhs)
        if sv.get("convergence", "ABSOLUTE") != "ABSOLUTE":
            tol = tol * (r0 if np.isfinite(r0) else 0.)
        act = REG.answer()
        self.status = "success"
        if r0 <= tol:
            y = np.array(guess)
        elif not np.isfinite(r0):
            y = np.full_like(rhs, np.nan)
            self.status = "diverged"
        else:
            y = np.linalg.solve(A, rhs)
            e = np.random.default_rng(len(rhs)).standard_normal(len(rhs))
            dy = np.linalg.solve(A, e * (.5 * tol / np.linalg.norm(e)))
            y = y + dy          # an iterative solver stops at its tolerance
        if act is not None:
            REG.fired.append("amgx_answer_" + act[0])
            self.status = "not_converged"
            r = np.random.default_rng(act[-1] if len(act) > 1 and isinstance(act[-1], int) else 0)
            if act[0] == "nan":
                y = np.full_like(y, np.nan)
            elif act[0] == "inf":
                y[r.integers(len(y))] = np.inf
            elif act[0] == "zero":
                y = np.zeros_like(y)
            elif act[0] == "negate":
                y = -y
            elif act[0] == "scale":
                y = act[1] * y
            elif act[0] == "garbage":
                y = act[1] * r.standard_normal(y.shape)
            elif act[0] == "perturb":
                y = y + act[1] * (np.abs(y).max() + 1e-30) * r.standard_normal(y.shape)
            elif act[0] == "stale":
                y = np.array(guess) if REG.prev is None or REG.prev.shape != y.shape else REG.prev
        REG.prev = np.array(y)
        REG.uploads.append((A, np.array(rhs), np.array(guess), np.array(y)))
        x.value = y

    def get_residual(self, *a):
        return 0.


def install():
    m = types.ModuleType("pyamgx")
    m.__dict__.update(Config=Config, Resources=Resources, Matrix=Matrix, Vector=Vector, Solver=Solver, AMGXError=AMGXError,
                      initialize=lambda: None, get_error_string=lambda e: str(e))

    def finalize():
        if REG.live:
            REG.errors.append("finalize with live objects")
    m.finalize = finalize
    sys.modules["pyamgx"] = m


def begin(script=(), limit=250):
    global REG
    REG = Reg(script, limit)
    return REG
