"""Line-level seam into the library: step counting, step budgets, crash injection at an
arbitrary executed line, and deterministic thread preemption.

Uses ``sys.monitoring`` LINE events on the code objects whose source file lies in the
repository under test, so the repository needs no hook.
"""
import gc
import sys
import types

from sim.core import InjectedFault, NoProgress

TOOL = 4
_PREFIXES = ()
CTL = None           # the active controller, or None


class OpCtl:
    """Controls one operation of the system under test.

    crash = {"nth": j, "visit": n, "exc": name}: raise at the n-th execution of the j-th
    *distinct* line this operation reaches (so that every line is about equally likely to be
    hit, whatever the loop counts), optionally only counting lines of files matching "file".
    """

    def __init__(self, budget=2_000_000, crash=None):
        self.steps = 0
        self.budget = budget
        self.crash = crash
        self.seen = {}
        self.fired = None
        self.target = None
        self.visits = 0

    def on_line(self, code, line):
        self.steps += 1
        if self.steps > self.budget:
            b = self.steps - 1
            self.budget = float("inf")
            raise NoProgress(f"more than {b} library lines without finishing")
        c = self.crash
        if c is None or self.fired is not None:
            return
        key = (code, line)
        if self.target is None:
            if key not in self.seen:
                self.seen[key] = len(self.seen) + 1
                if self.seen[key] == c["nth"]:
                    self.target = key
        if key == self.target:
            self.visits += 1
            if self.visits >= c.get("visit", 1):
                self.fired = (code.co_qualname, line)
                raise make_exc(c["exc"])


def make_exc(name):
    msg = "injected by the simulator"
    if name == "KeyboardInterrupt":
        return KeyboardInterrupt(msg)
    if name == "MemoryError":
        return MemoryError(msg)
    if name == "InjectedFault":
        return InjectedFault(msg)
    if name == "OSError":
        return OSError(5, msg)
    if name == "RuntimeError":
        return RuntimeError(msg)
    if name == "SystemExit":
        return SystemExit(msg)
    if name == "FloatingPointError":
        return FloatingPointError(msg)
    if name == "ValueError":
        return ValueError(msg)
    raise ValueError(name)


def injected(e):
    """Is `e` (or something in its cause chain) an exception the simulator injected?"""
    seen = 0
    while e is not None and seen < 20:
        if isinstance(e, InjectedFault) or "injected by the simulator" in str(e):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def _on_line(code, line):
    ctl = CTL
    if ctl is not None:
        ctl.on_line(code, line)


def _all_codes(code, acc):
    if code in acc:
        return
    acc.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _all_codes(c, acc)


_instrumented = set()


def instrument(prefixes):
    """Enable LINE events on every function of the repository loaded so far."""
    global _PREFIXES
    _PREFIXES = tuple(prefixes)
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "verif-sim")
        m.register_callback(TOOL, m.events.LINE, _on_line)
    found = set()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            if o.__code__.co_filename.startswith(_PREFIXES):
                _all_codes(o.__code__, found)
    for c in found - _instrumented:
        m.set_local_events(TOOL, c, m.events.LINE)
        _instrumented.add(c)
    return len(found)


class controlled:
    """``with controlled(OpCtl(...)) as ctl:``"""

    def __init__(self, ctl):
        self.ctl = ctl

    def __enter__(self):
        global CTL
        self.prev = CTL
        CTL = self.ctl
        return self.ctl

    def __exit__(self, *a):
        global CTL
        CTL = self.prev
        return False


class uncontrolled(controlled):
    def __init__(self):
        self.ctl = None
