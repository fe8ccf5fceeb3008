"""Simulated clock.  Code whose source lives in the repository under test reads this clock;
everything else (JAX, the logging module, the harness) keeps the real one."""
import sys
import time

_real = {n: getattr(time, n) for n in ("time", "perf_counter", "monotonic", "process_time", "sleep",
                                       "time_ns", "perf_counter_ns", "monotonic_ns")}


class SimClock:
    def __init__(self):
        self.reset({"mode": "steady"})

    def reset(self, cfg):
        self.mode = cfg.get("mode", "steady")
        self.now = float(cfg.get("start", 1.7e9))
        self.tick = float(cfg.get("tick", 1e-3))
        self.jumps = list(cfg.get("jumps", []))
        self.reads = 0
        self.covered = 0.0
        self.fired = {}
        self.readings = []     # values handed out, in order (first 10,000)

    def read(self):
        self.reads += 1
        if self.mode == "stalled":
            self._f("clock_stalled")
            d = 0.0
        elif self.mode == "backward":
            self._f("clock_backward")
            d = -self.tick
        else:
            d = self.tick
        while self.jumps and self.jumps[0][0] <= self.reads:
            d += self.jumps.pop(0)[1]
            self._f("clock_jump")
        self.now += d
        self.covered += abs(d)
        if len(self.readings) < 10_000:
            self.readings.append(self.now)
        return self.now

    def _f(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1


CLOCK = SimClock()
_PREFIX = None


def install(prefix):
    global _PREFIX
    _PREFIX = prefix.rstrip("/") + "/"

    def wrap(name, conv):
        real = _real[name]

        def fn():
            if sys._getframe(1).f_code.co_filename.startswith(_PREFIX):
                return conv(CLOCK.read())
            return real()
        fn.__name__ = name
        return fn
    for n in ("time", "perf_counter", "monotonic", "process_time"):
        setattr(time, n, wrap(n, lambda x: x))
    for n in ("time_ns", "perf_counter_ns", "monotonic_ns"):
        setattr(time, n, wrap(n, lambda x: int(x * 1e9)))

    def sleep(s):
        if sys._getframe(1).f_code.co_filename.startswith(_PREFIX):
            CLOCK.now += s
            CLOCK.covered += s
            return None
        return _real["sleep"](s)
    time.sleep = sleep
