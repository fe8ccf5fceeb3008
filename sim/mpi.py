"""Simulated MPI and the part of PETSc the distributed applications use.

Every rank is a thread; exactly one runs at a time and the seeded scheduler decides, at every
communication or PETSc call, which one goes on.  Collective calls block until all ranks have made
the matching call; different calls at the same position, and waiting for a rank that has ended,
are reported as deadlocks.  Off-process contributions are delivered at assembly in a seeded order.
"""
import random
import threading
import types

import numpy as np

from sim import monitor
from sim.clock import CLOCK

_local = threading.local()
WORLD = None


class Unwind(BaseException):
    """Ends a rank's thread when the run is over."""


class PetscError(RuntimeError):
    def __init__(self, ierr, msg=""):
        super().__init__(f"error code {ierr} {msg}")
        self.ierr = ierr


class World:
    def __init__(self, n, seed, policy, ksp_faults=(), skew=(), budget=3_000_000):
        self.n, self.rng, self.policy, self.budget = n, random.Random(seed), policy, budget
        self.ksp_faults = [list(f) for f in ksp_faults]
        self.skew = list(skew) or [0.] * n
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.state = ["ready"] * n          # ready, blocked, done
        self.seq = [0] * n                  # collectives entered per rank
        self.open = {}                      # seq -> (name, {rank: payload}, finish)
        self.result = [None] * n
        self.exc = [None] * n
        self.problem = None                 # (class, message)
        self.trace = []
        self.out = [[] for _ in range(n)]
        self.fired = []
        self.ksp_log = []
        self.nksp = 0
        self.switches = 0
        self.calls = 0
        self.options = [{} for _ in range(n)]
        self.mats, self.vecs = [], []
        self.mesh = None
        self.dead = False

    # -- scheduling --------------------------------------------------------------------------
    def pick(self, me):
        r = [i for i in range(self.n) if self.state[i] == "ready"]
        if not r:
            return None
        p = self.policy
        if p["kind"] == "run":              # keep going until blocked
            if me in r and self.rng.random() < .97:
                return me
        elif p["kind"] == "slow":           # one rank is rarely scheduled
            q = [i for i in r if i != p["rank"] % self.n]
            if q and self.rng.random() < .97:
                return self.rng.choice(q)
        elif p["kind"] == "order":          # lowest (or highest) rank first
            return r[0] if p["rank"] % 2 == 0 else r[-1]
        return self.rng.choice(r)

    def switch(self, me):
        """Called by the running rank; returns when it may go on."""
        if self.dead:
            raise Unwind
        self.calls += 1
        if self.calls > self.budget:
            self.fail("no-progress", f"more than {self.budget} communication calls")
        nxt = self.pick(me)
        if nxt is None:
            if all(s == "done" for s in self.state):
                self.main.release()
                return
            self.fail("deadlock", self.describe())
        if nxt == me:
            return
        self.switches += 1
        self.go[nxt].release()
        if self.state[me] != "done":
            self.go[me].acquire()
            if self.dead:
                raise Unwind

    def describe(self):
        out = []
        for i in range(self.n):
            if self.state[i] == "blocked":
                out.append(f"rank {i} waits in {self.open[self.seq[i] - 1][0]}")
            else:
                e = self.exc[i]
                out.append(f"rank {i} has {'ended' if e is None else 'raised ' + type(e).__name__}")
        return "; ".join(out)

    def fail(self, cls, msg):
        if self.problem is None:
            self.problem = (cls, msg)
        self.dead = True
        for g in self.go:
            g.release()
        self.main.release()
        raise Unwind

    def collective(self, me, name, payload=None, finish=None):
        """Join the next collective; finish({rank: payload}) runs once, in the last rank to arrive,
        and returns the per-rank results (a list) or None."""
        s = self.seq[me]
        self.seq[me] += 1
        if s not in self.open:
            self.open[s] = [name, {}, None]
        c = self.open[s]
        if c[0] != name:
            self.fail("collective-mismatch", f"collective number {s}: rank {me} calls {name} while {sorted(c[1])} called {c[0]}")
        c[1][me] = payload
        self.trace.append((me, name))
        if len(c[1]) == self.n:
            c[2] = finish(c[1]) if finish else None
            for i in range(self.n):
                if self.state[i] == "blocked":
                    self.state[i] = "ready"
        else:
            self.state[me] = "blocked"
        self.switch(me)
        r = c[2]
        if isinstance(r, BaseException):
            raise r
        return None if r is None else r[me]

    def run(self, fn):
        global WORLD
        WORLD = self
        ts = []

        def body(i):
            _local.rank = i
            self.go[i].acquire()
            try:
                if not self.dead:
                    self.result[i] = fn(i)
            except Unwind:
                pass
            except BaseException as e:
                self.exc[i] = e
            self.state[i] = "done"
            if not self.dead:
                try:
                    self.switch(i)
                except Unwind:
                    pass
        for i in range(self.n):
            t = threading.Thread(target=body, args=(i,), daemon=True)
            t.start()
            ts.append(t)
        self.go[self.pick(-1)].release()
        self.main.acquire()
        for t in ts:
            t.join(60)
            assert not t.is_alive(), "simulated rank did not end"
        WORLD = None


def me():
    return _local.rank


def step(name):
    WORLD.trace.append((me(), name)) if len(WORLD.trace) < 100_000 else None
    WORLD.switch(me())


# -- MPI ---------------------------------------------------------------------------------------
class Op:
    def __init__(self, fn):
        self.fn = fn


class Comm:
    def Get_rank(self):
        return me()

    def Get_size(self):
        return WORLD.n
    getRank, getSize = Get_rank, Get_size
    rank = property(Get_rank)
    size = property(Get_size)

    def _reduce(self, name, value, op):
        import copy

        def fin(p):
            order = list(range(WORLD.n))
            WORLD.rng.shuffle(order)         # reduction trees differ
            acc = copy.deepcopy(p[order[0]])
            for i in order[1:]:
                acc = op.fn(acc, p[i])
            return [copy.deepcopy(acc) for _ in range(WORLD.n)]
        return WORLD.collective(me(), name, copy.deepcopy(value), fin)

    def allreduce(self, value, op=None):
        return self._reduce("allreduce", value, op or SUM)

    def Allreduce(self, send, recv, op=None):
        r = self._reduce("Allreduce", np.array(send), op or SUM)
        if np.shape(recv) != np.shape(r):
            raise PetscError(60, "receive buffer of the wrong size")
        recv[...] = r

    def gather(self, value, root=0):
        return WORLD.collective(me(), f"gather(root={root})", value,
                                lambda p: [[p[i] for i in range(WORLD.n)] if r == root else None for r in range(WORLD.n)])

    def allgather(self, value):
        return WORLD.collective(me(), "allgather", value, lambda p: [[p[i] for i in range(WORLD.n)]] * WORLD.n)

    def bcast(self, value, root=0):
        return WORLD.collective(me(), f"bcast(root={root})", value, lambda p: [p[root]] * WORLD.n)

    def barrier(self):
        WORLD.collective(me(), "barrier")
    Barrier = barrier


SUM = Op(lambda a, b: a + b)
MAX = Op(lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b))
MIN = Op(lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))
LAND = Op(lambda a, b: a and b)
LOR = Op(lambda a, b: a or b)


def Wtime():
    return CLOCK.read() + WORLD.skew[me()]


# -- PETSc -------------------------------------------------------------------------------------
class InsertMode:
    NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES = 0, 1, 2
    INSERT, ADD = 1, 2


def _mode(addv):
    return InsertMode.ADD_VALUES if addv in (True, 2) else InsertMode.INSERT_VALUES


class _Shared:
    """One handle per rank onto shared storage."""


class Layout:
    def __init__(self, starts):
        self.starts = starts               # len n+1

    def owner(self, i):
        return int(np.searchsorted(self.starts, i, side="right") - 1)

    @property
    def N(self):
        return int(self.starts[-1])

    def range(self, r):
        return int(self.starts[r]), int(self.starts[r + 1])


class _Stash:
    """Pending contributions of the ranks to a distributed array."""

    def __init__(self):
        self.own = [[] for _ in range(WORLD.n)]
        self.mode = [0] * WORLD.n

    def put(self, r, item, mode):
        if self.mode[r] not in (0, mode):
            raise PetscError(73, "cannot mix add values and insert values without assembly in between")
        self.mode[r] = mode
        self.own[r].append(item)

    def collect(self):
        modes = {m for m in self.mode if m}
        if len(modes) > 1:
            return PetscError(73, "some processes added values, others inserted")
        items = [x for l in self.own for x in l]
        WORLD.rng.shuffle(items)
        if len(items) > 1:
            WORLD.fired.append("message_order_shuffled")
        add = modes != {InsertMode.INSERT_VALUES}
        self.own = [[] for _ in range(WORLD.n)]
        self.mode = [0] * WORLD.n
        return add, items


class Vec:
    def __init__(self, lay, data=None):
        self.lay, self.data = lay, data
        self.stash = None

    def _mk(self):
        return Vec(self.lay)

    @classmethod
    def _create(cls, lay, name="createVec"):
        def fin(p):
            v = cls(lay, np.zeros(lay.N))
            v.stash = _Stash()
            WORLD.vecs.append(v)
            return [v] * WORLD.n
        return WORLD.collective(me(), name, None, fin)

    def _own(self):
        a, b = self.lay.range(me())
        return self.data[a:b]

    def duplicate(self):
        return Vec._create(self.lay, "Vec.duplicate")

    def getOwnershipRange(self):
        return self.lay.range(me())
    owner_range = property(getOwnershipRange)

    def getSize(self):
        return self.lay.N
    size = property(getSize)

    def getLocalSize(self):
        a, b = self.lay.range(me())
        return b - a

    @property
    def array_r(self):
        v = self._own().view()
        v.flags.writeable = False
        return v

    def getArray(self, readonly=False):
        return self._own()

    @property
    def array(self):
        return self._own()

    def set(self, a):
        step("Vec.set")
        self._own()[:] = a

    def zeroEntries(self):
        self.set(0.)

    def scale(self, a):
        step("Vec.scale")
        self._own()[:] *= a

    def axpy(self, a, x):
        step("Vec.axpy")
        self._own()[:] += a * x._own()

    def copy(self, result=None):
        if result is None:
            result = self.duplicate()
        step("Vec.copy")
        result._own()[:] = self._own()
        return result

    def setValues(self, idx, vals, addv=None):
        idx, vals = np.array(idx, dtype=np.int64).ravel(), np.array(vals, dtype=np.float64).ravel()
        if len(idx) != len(vals):
            raise PetscError(60, "incompatible array sizes")
        if len(idx) and (idx.max() >= self.lay.N):
            raise PetscError(63, f"index {idx.max()} out of range")
        step("Vec.setValues")
        for i, v in zip(idx, vals):
            if i >= 0:
                self.stash.put(me(), (int(i), float(v)), _mode(addv))
        if not len(idx):
            pass

    def setValue(self, i, v, addv=None):
        self.setValues([i], [v], addv)

    def assemblyBegin(self):
        def fin(p):
            r = self.stash.collect()
            if isinstance(r, BaseException):
                return r
            add, items = r
            for i, v in items:
                if add:
                    self.data[i] += v
                else:
                    self.data[i] = v
        WORLD.collective(me(), "Vec.assemblyBegin", None, fin)

    def assemblyEnd(self):
        WORLD.collective(me(), "Vec.assemblyEnd")

    def assemble(self):
        self.assemblyBegin()
        self.assemblyEnd()

    def norm(self, *a):
        return WORLD.collective(me(), "Vec.norm", None, lambda p: [float(np.linalg.norm(self.data))] * WORLD.n)

    def dot(self, o):
        return WORLD.collective(me(), "Vec.dot", None, lambda p: [float(self.data @ o.data)] * WORLD.n)

    def sum(self):
        return WORLD.collective(me(), "Vec.sum", None, lambda p: [float(self.data.sum())] * WORLD.n)


class Mat:
    class Option:
        NEW_NONZERO_LOCATION_ERR = 1
        NEW_NONZERO_ALLOCATION_ERR = 2
        KEEP_NONZERO_PATTERN = 3
        SYMMETRIC = 4
        SPD = 5

        def __getattr__(self, n):
            return n

    def __init__(self, lay):
        self.lay = lay
        self.A = np.zeros((lay.N, lay.N))
        self.stash = _Stash()
        self.assembled = False

    def setOption(self, *a):
        step("Mat.setOption")

    def setUp(self):
        WORLD.collective(me(), "Mat.setUp")

    def getOwnershipRange(self):
        return self.lay.range(me())

    def getSize(self):
        return (self.lay.N, self.lay.N)

    def getLocalSize(self):
        a, b = self.lay.range(me())
        return (b - a, self.lay.N)

    def zeroEntries(self):
        def fin(p):
            self.A[:] = 0.
        WORLD.collective(me(), "Mat.zeroEntries", None, fin)

    def _put(self, i, j, v, addv):
        if i < 0 or j < 0:
            return
        if i >= self.lay.N or j >= self.lay.N:
            raise PetscError(63, f"entry ({i}, {j}) out of range")
        self.stash.put(me(), (int(i), int(j), float(v)), _mode(addv))
        self.assembled = False

    def setValues(self, rows, cols, vals, addv=None):
        rows, cols = np.ravel(rows).astype(np.int64), np.ravel(cols).astype(np.int64)
        vals = np.array(vals, dtype=np.float64)
        if vals.size != len(rows) * len(cols):
            raise PetscError(60, "incompatible array sizes")
        step("Mat.setValues")
        for i, row in zip(rows, vals.reshape(len(rows), len(cols))):
            for j, v in zip(cols, row):
                self._put(i, j, v, addv)

    def setValue(self, i, j, v, addv=None):
        self.setValues([i], [j], [v], addv)

    def setValuesRCV(self, R, C, V, addv=None):
        R, C, V = np.array(R, dtype=np.int64), np.array(C, dtype=np.int64), np.array(V, dtype=np.float64)
        if R.ndim < 2 or C.ndim < 2 or len(R) != len(C) or V.size != len(R) * R.shape[1] * C.shape[1]:
            raise PetscError(60, "incompatible array sizes")
        step("Mat.setValuesRCV")
        for r, c, v in zip(R, C, V.reshape(len(R), R.shape[1], C.shape[1])):
            for i, row in zip(r, v):
                for j, x in zip(c, row):
                    self._put(i, j, x, addv)

    def setValuesCSR(self, I, J, V, addv=None):
        a, b = self.lay.range(me())
        I, J, V = np.array(I, dtype=np.int64), np.array(J, dtype=np.int64), np.array(V, dtype=np.float64)
        if len(I) != b - a + 1 or I[-1] != len(J) or len(J) != len(V):
            raise PetscError(60, f"row pointer of {len(I)} entries for {b - a} owned rows")
        step("Mat.setValuesCSR")
        for r in range(b - a):
            for k in range(I[r], I[r + 1]):
                self._put(a + r, J[k], V[k], addv)

    def assemblyBegin(self, *a):
        def fin(p):
            r = self.stash.collect()
            if isinstance(r, BaseException):
                return r
            add, items = r
            for i, j, v in items:
                if add:
                    self.A[i, j] += v
                else:
                    self.A[i, j] = v
        WORLD.collective(me(), "Mat.assemblyBegin", None, fin)

    def assemblyEnd(self, *a):
        def fin(p):
            self.assembled = True
        WORLD.collective(me(), "Mat.assemblyEnd", None, fin)

    def assemble(self, *a):
        self.assemblyBegin()
        self.assemblyEnd()

    def zeroRows(self, rows, diag=1., x=None, b=None):
        rows = np.array(rows, dtype=np.int64).ravel()

        def fin(p):
            if not self.assembled:
                return PetscError(73, "not for unassembled matrix")
            for r in p.values():
                for i in r:
                    self.A[i] = 0.
                    if diag:
                        self.A[i, i] = diag
        WORLD.collective(me(), "Mat.zeroRows", rows, fin)

    def zeroRowsColumns(self, rows, diag=1., x=None, b=None):
        rows = np.array(rows, dtype=np.int64).ravel()

        def fin(p):
            if not self.assembled:
                return PetscError(73, "not for unassembled matrix")
            for r in p.values():
                for i in r:
                    if x is not None and b is not None:
                        b.data -= self.A[:, i] * x.data[i]
                for i in r:
                    self.A[i] = 0.
                    self.A[:, i] = 0.
                    self.A[i, i] = diag
                    if x is not None and b is not None:
                        b.data[i] = diag * x.data[i]
        WORLD.collective(me(), "Mat.zeroRowsColumns", rows, fin)


class PC:
    def setType(self, t):
        pass

    def setFromOptions(self):
        pass


class KSP:
    def __init__(self):
        self.ops = None
        self.prefix = ""
        self.err = False
        self.rtol = 1e-5
        self.reason = 0
        self._pc = PC()

    def create(self, comm=None):
        WORLD.collective(me(), "KSP.create")
        return self

    def setOperators(self, A, P=None):
        step("KSP.setOperators")
        self.ops = A

    def setOptionsPrefix(self, p):
        self.prefix = p

    def setType(self, t):
        pass

    def getPC(self):
        return self._pc
    pc = property(getPC)

    def setTolerances(self, rtol=None, atol=None, divtol=None, max_it=None):
        self.rtol = rtol or self.rtol

    def setFromOptions(self):
        o = WORLD.options[me()]
        self.rtol = float(o.get(self.prefix + "ksp_rtol", self.rtol))
        if str(o.get(self.prefix + "ksp_error_if_not_converged", "false")).lower() in ("true", "1", "yes"):
            self.err = True

    def setErrorIfNotConverged(self, flag):
        self.err = bool(flag)

    def solve(self, b, x):
        def fin(p):
            A = self.ops
            if not A.assembled:
                return PetscError(73, "not for unassembled matrix")
            n = WORLD.nksp
            WORLD.nksp += 1
            if n >= 100:
                WORLD.fail("no-progress", "more than 100 linear solves")
            rhs = b.data.copy()
            for f in WORLD.ksp_faults:
                if f[0] == n:
                    WORLD.fired.append("ksp_diverges")
                    if all(v[0] for v in p.values()):
                        return PetscError(91, "KSP did not converge")
                    x.data[:] = np.random.default_rng(n).standard_normal(len(rhs))
                    WORLD.ksp_log.append((A.A.copy(), rhs, x.data.copy(), False))
                    return [-3] * WORLD.n
            y = np.linalg.solve(A.A, rhs)
            tol = max(v[1] for v in p.values())
            e = np.random.default_rng(n).standard_normal(len(rhs))
            e[np.all(A.A == np.eye(len(rhs)), axis=1)] = 0.      # Krylov vectors vanish on eliminated rows
            ne = np.linalg.norm(e)
            if ne:
                y = y + np.linalg.solve(A.A, e * (.5 * tol * np.linalg.norm(rhs) / ne))
            x.data[:] = y
            WORLD.ksp_log.append((A.A.copy(), rhs, y.copy(), True))
            return [2] * WORLD.n
        self.reason = WORLD.collective(me(), "KSP.solve", (self.err, self.rtol), fin)

    def getConvergedReason(self):
        return self.reason
    reason_ = property(getConvergedReason)

    def getIterationNumber(self):
        return 1


class Options:
    def __init__(self, prefix=None):
        self.p = prefix or ""

    def setValue(self, k, v):
        WORLD.options[me()][self.p + k.lstrip("-")] = v
    __setitem__ = setValue


class Section:
    def create(self, comm=None):
        self.dofs = {}
        return self

    def setChart(self, a, b):
        self.chart = (a, b)

    def setDof(self, p, n):
        if not self.chart[0] <= p < self.chart[1]:
            raise PetscError(63, "point outside the chart")
        self.dofs[p] = n

    def setUp(self):
        pass

    def getChart(self):
        return self.chart


class _Offsets:
    def __init__(self, off):
        self.off = off

    def getOffset(self, p):
        return self.off[p]


class LocalMesh:
    """What one rank holds: cells, vertices (global ids) in local order."""


class DMPlex:
    """plan: {'part': rank of each cell, 'owner': rule, 'seed': numbering seed}"""
    plan = None

    def createFromCellList(self, dim, cells, coords, interpolate=True, comm=None):
        cells, coords = np.array(cells), np.array(coords, dtype=float)

        def fin(p):
            c, x = p[0]                      # only the first process's lists are used
            WORLD.mesh = {"cells": c, "coords": x}
        WORLD.collective(me(), "DMPlex.createFromCellList", (cells, coords), fin)
        self.dim = dim
        self.part = np.zeros(len(WORLD.mesh["cells"]), dtype=int)
        self._build()
        return self

    def _build(self):
        def fin(p):
            pl, n, m = DMPlex.plan, WORLD.n, WORLD.mesh
            rng = random.Random(pl["seed"])
            part = p[0]
            holders = [set() for _ in range(len(m["coords"]))]
            for c, r in zip(m["cells"], part):
                for v in c:
                    holders[v].add(int(r))
            own = [(min(h) if pl["owner"] == "low" else max(h) if pl["owner"] == "high" else rng.choice(sorted(h))) if h else 0 for h in holders]
            loc, starts, gnum = [], [0], {}
            for r in range(n):
                L = LocalMesh()
                L.cells = [i for i in range(len(part)) if part[i] == r]
                rng.shuffle(L.cells)
                vs = sorted({int(v) for i in L.cells for v in m["cells"][i]})
                rng.shuffle(vs)
                L.verts = vs
                nc = len(L.cells)
                L.vpt = {v: nc + k for k, v in enumerate(vs)}
                mine = [v for v in vs if own[v] == r]
                for k, v in enumerate(mine):
                    gnum[v] = starts[-1] + k
                starts.append(starts[-1] + len(mine))
                loc.append(L)
            m["own"], m["gnum"], m["part"] = own, gnum, list(part)
            m["lay"] = Layout(np.array(starts))
            return loc
        self.L = WORLD.collective(me(), "DMPlex.build", list(self.part), fin)

    def distribute(self, overlap=0, *a, **k):
        if overlap:
            raise PetscError(56, "overlap is not simulated")
        WORLD.collective(me(), "DMPlex.distribute")
        if WORLD.n > 1:
            self.part = np.array(DMPlex.plan["part"])
            self._build()

    def setUp(self):
        pass

    def getDimension(self):
        return self.dim

    def getDepthStratum(self, d):
        nc, nv = len(self.L.cells), len(self.L.verts)
        return (nc, nc + nv) if d == 0 else (0, nc) if d == self.dim else (nc + nv, nc + nv + len(self._edges()))

    def getHeightStratum(self, h):
        return self.getDepthStratum(self.dim - h)

    def getChart(self):
        return 0, len(self.L.cells) + len(self.L.verts) + len(self._edges())

    def _edges(self):
        if not hasattr(self.L, "edges"):
            e = {}
            for i in self.L.cells:
                c = WORLD.mesh["cells"][i]
                for k in range(len(c)):
                    key = tuple(sorted((int(c[k]), int(c[(k + 1) % len(c)]))))
                    e.setdefault(key, len(e))
            base = len(self.L.cells) + len(self.L.verts)
            self.L.edges = {k: base + v for k, v in e.items()}
        return self.L.edges

    def getTransitiveClosure(self, p, useCone=True):
        if p >= len(self.L.cells):
            raise PetscError(63, "closures of cells only")
        c = [int(v) for v in WORLD.mesh["cells"][self.L.cells[p]]]
        E = self._edges()
        ed = [E[tuple(sorted((c[k], c[(k + 1) % len(c)])))] for k in range(len(c))]
        pts = [p] + ed + [self.L.vpt[v] for v in c]
        return np.array(pts, dtype=np.int32), np.zeros(len(pts), dtype=np.int32)

    def getPointDepth(self, p):
        nc, nv = len(self.L.cells), len(self.L.verts)
        return 2 if p < nc else 0 if p < nc + nv else 1

    def setLocalSection(self, s):
        a, b = self.getDepthStratum(0)
        if any(s.dofs.get(p) != 1 for p in range(a, b)):
            raise PetscError(62, "one dof per vertex expected")
        self.sec = s
    setSection = setLocalSection

    def getGlobalSection(self):
        WORLD.collective(me(), "DM.getGlobalSection")
        m = WORLD.mesh
        off = {}
        for v, p in self.L.vpt.items():
            g = m["gnum"][v]
            off[p] = g if m["own"][v] == me() else -(g + 1)
        return _Offsets(off)

    def getCoordinateSection(self):
        return _Offsets({p: self.dim * (p - len(self.L.cells)) for p in self.L.vpt.values()})

    def getCoordinatesLocal(self):
        data = np.array([WORLD.mesh["coords"][v] for v in self.L.verts], dtype=float).ravel()
        o = types.SimpleNamespace(array_r=data.copy(), array=data.copy())
        o.getArray = lambda: o.array
        return o

    def createGlobalVec(self):
        return Vec._create(WORLD.mesh["lay"], "DM.createGlobalVec")
    createGlobalVector = createGlobalVec

    def createMatrix(self):
        def fin(p):
            m = Mat(WORLD.mesh["lay"])
            WORLD.mats.append(m)
            return [m] * WORLD.n
        return WORLD.collective(me(), "DM.createMatrix", None, fin)
    createMat = createMatrix


def modules():
    """Fake mpi4py and petsc4py modules."""
    mpi = types.ModuleType("mpi4py")
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.__dict__.update(COMM_WORLD=Comm(), SUM=SUM, MAX=MAX, MIN=MIN, LAND=LAND, LOR=LOR, Wtime=Wtime)
    mpi.MPI = MPI
    p4 = types.ModuleType("petsc4py")
    PETSc = types.ModuleType("petsc4py.PETSc")
    PETSc.__dict__.update(DMPlex=DMPlex, Section=Section, Vec=Vec, Mat=Mat, KSP=KSP, PC=PC, Options=Options, InsertMode=InsertMode,
                          Error=PetscError, IntType=np.int32, ScalarType=np.float64, RealType=np.float64, COMM_WORLD=MPI.COMM_WORLD)
    p4.init = lambda *a, **k: None
    p4.PETSc = PETSc
    return {"mpi4py": mpi, "mpi4py.MPI": MPI, "petsc4py": p4, "petsc4py.PETSc": PETSc}
