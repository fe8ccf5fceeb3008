#!/usr/bin/env python3
"""setup_cmd: nothing to build; verify that what the checks need is present."""
import importlib.util
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
missing = [m for m in ("jax", "petsc4py", "scipy", "meshio", "basix", "gmsh", "numpy") if importlib.util.find_spec(m) is None]
if sys.version_info < (3, 12):
    missing.append("Python 3.12 (sys.monitoring)")
if missing:
    print("missing:", missing)
    sys.exit(1)
free = shutil.disk_usage("/tmp").free
print(f"ok: Python {sys.version.split()[0]}, {os.cpu_count()} cores, {free >> 20} MB free in /tmp")
