"""Stand-ins (assumed contracts) for the external packages the code imports."""
from __future__ import annotations

import types

from . import terms as T
from . import rt
from .rt import *  # noqa: F401,F403
from .sym import SymReal, mk, term


def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


class Logger:
    """loguru: no effect"""

    def __getattr__(self, n):
        return lambda *a, **k: None


def jit(*a, **k):
    """numba: the compiled function computes what the function computes"""
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


NP = rt.NPProxy()
MATH = rt.MathProxy()
BASE = {
    "numpy": NP, "numpy.typing": rt.rnp.typing, "math": MATH,
    "loguru": module("loguru", logger=Logger()),
    "numba": module("numba", jit=jit, njit=jit),
    "rich.pretty": module("rich.pretty", pprint=lambda *a, **k: None),
    "rich": module("rich"),
    "scipy.optimize": module("scipy.optimize"),
    "scipy.spatial": module("scipy.spatial"),
    "scipy": module("scipy"),
}


class _NoHull:
    def __init__(self, *a, **k):
        raise rt.Unsupported("ConvexHull outside of its contract")


def nolinprog(*a, **k):
    raise rt.Unsupported("linprog outside of its contract")


BASE["scipy.spatial"].ConvexHull = _NoHull
BASE["scipy.optimize"].linprog = nolinprog
BASE["scipy"].spatial = BASE["scipy.spatial"]
BASE["scipy"].optimize = BASE["scipy.optimize"]
