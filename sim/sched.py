"""Deterministic thread scheduler: real threads, exactly one runs at a time, and which one runs
next is decided at library lines by the plan."""
import threading

from sim import monitor
from sim.core import NoProgress


class Aborted(BaseException):
    """The run is over (another task failed or the budget ran out)."""


class Scheduler:
    """switches = [[n, task], ...]: after n further eligible lines of the running task, give the
    processor to the given task (modulo the live ones)."""

    def __init__(self, fns, switches, budget=400_000, eligible=lambda: True):
        self.fns = fns
        self.switches = [list(s) for s in switches]
        self.budget = budget
        self.eligible = eligible
        self.n = len(fns)
        self.go = [threading.Event() for _ in fns]
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.exc = [None] * self.n
        self.all_done = threading.Event()
        self.steps = 0
        self.count = 0
        self.made = 0
        self.trace = []
        self.tid = {}
        self.abort = None
        self.lines = set()

    # called from the line monitor, in the thread of the running task
    def on_line(self, code, line):
        me = self.tid.get(threading.get_ident())
        if me is None:
            return
        if self.abort is not None:
            raise Aborted()
        self.steps += 1
        if self.steps > self.budget:
            self.budget = float("inf")
            self.abort = NoProgress("step budget exhausted")
            raise self.abort
        if not self.switches or not self.eligible():
            return
        self.count += 1
        if self.count < self.switches[0][0]:
            return
        self.count = 0
        _, want = self.switches.pop(0)
        self._switch(me, want, code.co_qualname, line)

    def pause(self, want, where):
        """Called by a task inside an external routine (which releases the interpreter lock): give the
        processor to another task."""
        me = self.tid.get(threading.get_ident())
        if me is not None and self.eligible():
            self._switch(me, want, where, 0)

    def _switch(self, me, want, where, line):
        live = [k for k in range(self.n) if not self.done[k] and k != me]
        if not live:
            return
        to = live[want % len(live)]
        self.made += 1
        self.lines.add((where, line))
        self.trace.append((me, to, where, line))
        self.go[me].clear()
        self.go[to].set()
        self.go[me].wait()
        if self.abort is not None:
            raise Aborted()

    def _body(self, k):
        self.go[k].wait()
        self.tid[threading.get_ident()] = k
        try:
            if self.abort is None:
                self.result[k] = self.fns[k]()
        except BaseException as e:
            self.exc[k] = e
        self.done[k] = True
        if self.abort is not None:
            for g in self.go:
                g.set()
        rest = [j for j in range(self.n) if not self.done[j]]
        if rest:
            self.go[rest[0]].set()
        else:
            self.all_done.set()

    def run(self):
        threads = [threading.Thread(target=self._body, args=(k,), daemon=True) for k in range(self.n)]
        for t in threads:
            t.start()
        with monitor.controlled(self):
            self.go[0].set()
            self.all_done.wait()
            for t in threads:
                t.join(10)
        return self
