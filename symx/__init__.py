"""Solver-backed symbolic execution of real Python/numpy/torch code (see DESIGN.md)."""
import sys as _sys

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3  # noqa: F401
except ImportError:
    # appended LAST: numpy, torch, ... keep coming from the project's own environment
    _sys.path.append(_VT)
    import z3  # noqa: F401
