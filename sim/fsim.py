"""File-system faults around one library call: full disk (RLIMIT_FSIZE), failing open and mkdir,
directories that appear concurrently.  Only paths below the scratch directory are affected."""
import builtins
import errno
import io
import os
import resource

ERR = {"ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EIO": errno.EIO, "EMFILE": errno.EMFILE, "EROFS": errno.EROFS}


def gen(rng, p=.6):
    """A fault script for one call."""
    if rng.random() > p:
        return []
    r = rng.random()
    if r < .5:
        return [["fsize", rng.choice([0, 1, rng.randrange(2, 300), rng.randrange(300, 8000), rng.randrange(8000, 40000)])]]
    if r < .75:
        return [["open", rng.choice([1, 1, 1, 2, 3]), rng.choice(sorted(ERR))]]
    if r < .9:
        return [["mkdir", rng.choice([1, 1, 2]), rng.choice(["ENOSPC", "EACCES", "race", "race"])]]
    return [["read", 1, rng.choice(["EIO", "EACCES"])]]


class faults:
    def __init__(self, ctx, script, root):
        self.ctx, self.script, self.root = ctx, script, os.path.realpath(root) + os.sep
        self.fired = []
        self.n = {"open": 0, "read": 0, "mkdir": 0}

    def _mine(self, path):
        try:
            return (os.path.realpath(os.fspath(path)) + os.sep).startswith(self.root)
        except TypeError:
            return False

    def _hit(self, kind):
        self.n[kind] += 1
        for f in self.script:
            if f[0] == kind and f[1] == self.n[kind]:
                self.fired.append(f"{kind}_{f[2]}")
                self.ctx.fault(f"{kind}_{f[2]}")
                return f[2]
        return None

    def __enter__(self):
        self.real = (builtins.open, io.open, os.mkdir)
        real_open, _, real_mkdir = self.real

        def open_(file, mode="r", *a, **k):
            if not isinstance(file, int) and self._mine(file):
                kind = "open" if any(c in mode for c in "wax+") else "read"
                e = self._hit(kind)
                if e is not None:
                    raise OSError(ERR[e], os.strerror(ERR[e]) + " (injected by the simulator)", os.fspath(file))
            return real_open(file, mode, *a, **k)

        def mkdir(path, *a, **k):
            if self._mine(path):
                e = self._hit("mkdir")
                if e == "race":
                    real_mkdir(path)
                elif e is not None:
                    raise OSError(ERR[e], os.strerror(ERR[e]) + " (injected by the simulator)", os.fspath(path))
            return real_mkdir(path, *a, **k)
        builtins.open = io.open = open_
        os.mkdir = mkdir
        self.lim = resource.getrlimit(resource.RLIMIT_FSIZE)
        for f in self.script:
            if f[0] == "fsize":
                resource.setrlimit(resource.RLIMIT_FSIZE, (f[1], self.lim[1]))
        return self

    def __exit__(self, et, ev, tb):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.lim)
        builtins.open, io.open, os.mkdir = self.real
        return False

    def full_disk(self):
        """Called after the operation raised: count the limit as an injected fault."""
        for f in self.script:
            if f[0] == "fsize":
                self.fired.append("disk_full")
                self.ctx.fault("disk_full")


def snapshot(root):
    """{relative path: bytes} of every regular file below root."""
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            if os.path.islink(p):
                continue      # the file it names counts
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out
