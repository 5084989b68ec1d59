"""Shared pieces of the contracts: vectors of terms, registry of scenarios."""
from __future__ import annotations

from fractions import Fraction

import mpmath

from vc import engine as E
from vc import loader, rt, stubs
from vc import terms as T
from vc.engine import cmp, cand, cor, cnot
from vc.sym import *  # noqa: F401,F403
from vc.sym import mk, term, SymReal, SymBool, SymIdx, Seq, Block, Poison, isnum
from vc.rt import sarr  # noqa: F401

XYZ = "xyz"
REG = {}  # property -> list of scenario functions
ORDER = []


class Result:
    """what a scenario hands back: engines that ran, functions under contract, assumptions"""

    def __init__(self, engines, functions=(), assumptions=(), trusted=()):
        self.engines, self.functions = list(engines), list(functions)
        self.assumptions, self.trusted = list(assumptions), list(trusted)


def scenario(*pids, weight=1):
    def deco(f):
        f.weight = weight
        for p in pids:
            REG.setdefault(p, []).append(f)
        ORDER.append(f)
        return f

    return deco


def V(name, deps=()):
    return [T.var(name + c, frozenset(deps)) for c in XYZ]


def vadd(a, b):
    return [T.add(x, y) for x, y in zip(a, b)]


def vsub(a, b):
    return [T.add(x, y, -1) for x, y in zip(a, b)]


def vscale(a, t):
    return [T.mul(x, t) for x in a]


def vneg(a):
    return [T.neg(x) for x in a]


def dot(a, b):
    r = T.ZERO
    for x, y in zip(a, b):
        r = T.add(r, T.mul(x, y))
    return r


def cross(a, b):
    m = T.mul
    return [T.add(m(a[1], b[2]), m(a[2], b[1]), -1), T.add(m(a[2], b[0]), m(a[0], b[2]), -1),
            T.add(m(a[0], b[1]), m(a[1], b[0]), -1)]


def norm(a):
    return T.sqrt(dot(a, a))


def arr(v):
    return sarr([mk(x) for x in v])


def q(x):
    return T.from_float(x) if isinstance(x, float) else T.const(x)


def tabs(t):
    return T.fn("abs", t)


def world(ext=None, patches=None):
    e = dict(stubs.BASE)
    e.update(ext or {})
    return loader.World(e, patches)


def num(t, env):
    v = T.ev(t, env)
    if isinstance(v, mpmath.mpc):
        v = v.real
    return float(v)


def nvec(v, env):
    return [num(t, env) for t in v]


def is_arr(x, n=3):
    return isinstance(x, rt.rnp.ndarray) and x.shape == (n,)


def components(eng, name, x, shape):
    """terms of an array result; a result of another shape refutes the contract"""
    try:
        a = rt.rnp.asarray(x, dtype=object)
    except Exception as ex:
        raise E.Unsupported(f"{name}: {ex}")
    if a.shape != shape:
        raise E.Unsupported(f"{name}: result has shape {a.shape}")
    out = rt.rnp.empty(shape, dtype=object)
    for ix in rt.rnp.ndindex(shape):
        out[ix] = term(a[ix])
    return out


def unchanged(eng, name, a, before):
    ok = len(a) == len(before) and all(term(x) == term(y) for x, y in zip(a, before))
    eng.prove(name, ok)


def refusal(ex):
    """an exception that the code itself decided on; anything else (a library call that met a symbolic value)
    is outside the verifier's reach and re-raised as such"""
    import linecache
    import traceback

    tb = traceback.extract_tb(ex.__traceback__)
    f = tb[-1] if tb else None
    own = f is not None and (f.filename.startswith(loader.REPO) or "/confuse/" in f.filename)
    if own:
        for ln in range(f.lineno, max(f.lineno - 8, 0), -1):
            t = linecache.getline(f.filename, ln).strip()
            if t.startswith("raise"):
                return ex
    if isinstance(ex, (TypeError, AttributeError, NotImplementedError)) or not own:
        raise E.Unsupported(f"{type(ex).__name__}: {ex} at {f.filename}:{f.lineno}" if f else str(ex))
    return ex
