"""Set up one worker process: scratch directory, simulated clock, seams, the library."""
import os
import sys

from sim import clock, core

JOB = {}
REPO = core.REPO


def prepare(job):
    JOB.update(job)
    sys.path.insert(0, REPO)
    clock.install(REPO)


def scratch(*parts):
    return os.path.join(JOB["scratch"], *parts)


_lib = {}


def import_library(extra=()):
    """Import jax and jax_fem with the boundary seams in place.  Idempotent."""
    if "solver" in _lib:
        return _lib
    import jax
    jax.config.update("jax_enable_x64", True)
    cache = JOB.get("cache")
    if cache:
        os.makedirs(cache, exist_ok=True)
        jax.config.update("jax_compilation_cache_dir", cache)
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    from sim import boundary, monitor
    boundary.install()
    import jax_fem
    assert os.path.realpath(jax_fem.__file__).startswith(os.path.realpath(REPO) + "/"), jax_fem.__file__
    import jax_fem.basis, jax_fem.fe, jax_fem.generate_mesh, jax_fem.problem, jax_fem.solver, jax_fem.utils
    import importlib
    for m in extra:
        importlib.import_module(m)
    _lib.update(jax=jax, solver=jax_fem.solver, problem=jax_fem.problem, fe=jax_fem.fe,
                utils=jax_fem.utils, gm=jax_fem.generate_mesh, basis=jax_fem.basis)
    monitor.instrument([REPO.rstrip("/") + "/"])
    return _lib


def between_runs(n):
    import gc
    if "jax" in _lib and n % 80 == 79:
        _lib["jax"].clear_caches()
    gc.collect()
