"""Assumed contracts of the geodesy packages: pymap3d (coordinate conversions), pygeodesy (geoid heights).

The conversion functions are uninterpreted functions of their arguments and of the ellipsoid's axes, with
the laws: geodetic -> ECEF undoes ECEF -> geodetic, ENU -> ECEF and ECEF -> ENU undo each other (same
ellipsoid, same origin), the remaining conversions are the compositions pymap3d documents.  The Ellipsoid
class is pymap3d's own source.  Samples are evaluated with the real formulas."""
from __future__ import annotations

import builtins
import os
import pathlib
import sys
import types

import mpmath

from .base import *  # noqa: F401,F403
from .base import T, E, rt, mk, term, stubs, q

ASM = ["pymap3d: geodetic2ecef after ecef2geodetic (same ellipsoid) is the identity; enu2ecef and ecef2enu (same ellipsoid and origin) are inverse to each other; "
       "geodetic2enu and enu2geodetic are compositions of these; an absent ellipsoid means WGS84",
       "pygeodesy: a GeoidKarney object of a data file returns the geoid height of that model at the given latitude and longitude"]


# ------------------------------------------------------------------ formulas (for samples)
def _g2e(lat, lon, alt, a, b):
    la, lo = lat * mpmath.pi / 180, lon * mpmath.pi / 180
    n = a * a / mpmath.sqrt((a * mpmath.cos(la)) ** 2 + (b * mpmath.sin(la)) ** 2)
    return ((n + alt) * mpmath.cos(la) * mpmath.cos(lo), (n + alt) * mpmath.cos(la) * mpmath.sin(lo),
            (n * (b / a) ** 2 + alt) * mpmath.sin(la))


def _e2g(x, y, z, a, b):
    x, y, z, a, b = (T._re(v) for v in (x, y, z, a, b))
    p = mpmath.sqrt(x * x + y * y)
    e2 = 1 - (b / a) ** 2
    la = mpmath.atan2(z, p * (1 - e2))
    for _ in range(60):
        s = mpmath.sin(la)
        n = a / mpmath.sqrt(1 - e2 * s * s)
        nw = mpmath.atan2(z + e2 * n * s, p)
        if abs(nw - la) < mpmath.mpf(10) ** (-mpmath.mp.dps + 4):
            la = nw
            break
        la = nw
    s, c = mpmath.sin(la), mpmath.cos(la)
    n = a / mpmath.sqrt(1 - e2 * s * s)
    h = p * c + z * s - a * a / n * 1 if False else (p * c + z * s - n * (1 - e2 * s * s))
    return la * 180 / mpmath.pi, mpmath.atan2(y, x) * 180 / mpmath.pi, h


def _rot(lat0, lon0):
    la, lo = lat0 * mpmath.pi / 180, lon0 * mpmath.pi / 180
    s, c, sl, cl = mpmath.sin(lo), mpmath.cos(lo), mpmath.sin(la), mpmath.cos(la)
    return [[-s, c, 0], [-sl * c, -sl * s, cl], [cl * c, cl * s, sl]]


def _n2e(e, n, u, lat0, lon0, h0, a, b):
    o = _g2e(lat0, lon0, h0, a, b)
    R = _rot(lat0, lon0)
    v = (e, n, u)
    return tuple(o[j] + sum(R[i][j] * v[i] for i in range(3)) for j in range(3))


def _e2n(x, y, z, lat0, lon0, h0, a, b):
    o = _g2e(lat0, lon0, h0, a, b)
    R = _rot(lat0, lon0)
    d = (x - o[0], y - o[1], z - o[2])
    return tuple(sum(R[i][j] * d[j] for j in range(3)) for i in range(3))


for _n, _f in (("g2e", _g2e), ("e2g", _e2g), ("n2e", _n2e), ("e2n", _e2n)):
    for _i in range(3):
        T.FNS[f"{_n}.{_i}"] = (lambda f, i: lambda *a: f(*a)[i])(_f, _i)
for _k, _n in enumerate(("egm84", "egm96", "egm2008")):
    T.FNS["geoid." + _n] = (lambda k: lambda lat, lon: 20 + 7 * k + 9 * mpmath.sin((k + 1) * lat / 13) * mpmath.cos(lon / (17 + k)))(_k)


# ------------------------------------------------------------------ terms
def unfn(ts, name):
    """arguments when ts are the three components of one application of `name`"""
    args = None
    for i, t in enumerate(ts):
        if len(t.t) != 1:
            return None
        (m, c), = t.t.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1:
            return None
        a = T.ATOMS[m[0][0]]
        if a.kind != "fn" or a.name != f"{name}.{i}":
            return None
        if args is not None and a.args is not args and a.args != args:
            return None
        args = a.args
    return args


def same_terms(xs, ys):
    return len(xs) == len(ys) and all(T.is_zero(T.add(x, y, -1)) for x, y in zip(xs, ys))


def app(name, *args):
    return tuple(T.fn(f"{name}.{i}", *args) for i in range(3))


def g2e(lat, lon, alt, a, b):
    u = unfn((lat, lon, alt), "e2g")
    if u is not None and same_terms(u[3:], (a, b)):
        return tuple(u[:3])
    return app("g2e", lat, lon, alt, a, b)


def e2g(x, y, z, a, b):
    return app("e2g", x, y, z, a, b)


def n2e(e, n, u, lat0, lon0, h0, a, b):
    v = unfn((e, n, u), "e2n")
    if v is not None and same_terms(v[3:], (lat0, lon0, h0, a, b)):
        return tuple(v[:3])
    return app("n2e", e, n, u, lat0, lon0, h0, a, b)


def e2n(x, y, z, lat0, lon0, h0, a, b):
    v = unfn((x, y, z), "n2e")
    if v is not None and same_terms(v[3:], (lat0, lon0, h0, a, b)):
        return tuple(v[:3])
    return app("e2n", x, y, z, lat0, lon0, h0, a, b)


def phys(name, row, ellps, enu):
    """ECEF position (terms) of a row described by a CRS"""
    if name in ("cart", "ecef"):
        return tuple(row)
    a, b = axes(ellps)
    if name == "ellps":
        return g2e(row[1], row[0], row[2], a, b)
    lon0, lat0, h0 = enu
    return n2e(*row, lat0, lon0, h0, a, b)


WGS = (q(6378137.0), q(6356752.31424518))


def axes(ell):
    if ell is None:
        return WGS
    try:
        return term(ell.semimajor_axis), term(ell.semiminor_axis)
    except AttributeError:
        raise E.Unsupported("ellipsoid of type " + type(ell).__name__)


# ------------------------------------------------------------------ modules
def lift(f, args):
    """apply a function of terms to numbers and unbounded columns"""
    seq = None
    for x in args:
        if isinstance(x, SymCol):
            if seq is not None and x.seq != seq:
                raise E.Unsupported("columns of different length")
            seq = x.seq
        elif isinstance(x, SymMat) or has_block(x) and not isinstance(x, SymCol):
            raise E.Unsupported("conversion of a " + type(x).__name__)
    if any(isinstance(x, rt.rnp.ndarray) and x.ndim for x in args):
        A = rt.rnp.broadcast_arrays(*[rt.rnp.asarray(x, dtype=object) for x in args])
        outs = [rt.rnp.empty(A[0].shape, dtype=object) for _ in range(3)]
        for ix in rt.rnp.ndindex(A[0].shape):
            for o, t in zip(outs, f(*[term(a[ix]) for a in A])):
                o[ix] = mk(t)
        return tuple(o.view(SymArray) for o in outs)
    ts = f(*[x.t() if isinstance(x, SymCol) else term(x) for x in args])
    return tuple(SymCol(seq, val=mk(t)) if seq is not None else mk(t) for t in ts)


def conv(f, nargs):
    def g(args, ell, deg):
        if deg is not True:
            raise E.Unsupported("angles in radians")
        ab = axes(ell)
        return lift(lambda *t: f(*t, *ab), args)

    return g


def load_source(path, name, ext):
    src = open(path).read()
    bi = dict(vars(builtins))
    real = builtins.__import__

    def imp(n, g=None, l=None, fl=(), lev=0):
        return ext[n] if n in ext else real(n, g, l, fl, lev)

    bi["__import__"] = imp
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__["__builtins__"] = bi
    old = sys.modules.get(name)
    sys.modules[name] = m
    try:
        exec(compile(src, path, "exec"), m.__dict__)
    finally:
        if old is not None:
            sys.modules[name] = old
        else:
            del sys.modules[name]
    return m


def pm_path():
    for d in sys.path:
        p = os.path.join(d, "pymap3d", "ellipsoid.py")
        if os.path.exists(p):
            return p
    raise E.Unsupported("pymap3d is not installed")


def pymap3d():
    ell = load_source(pm_path(), "pymap3d.ellipsoid", {"math": stubs.MATH})
    G, P, N, M = conv(g2e, 3), conv(e2g, 3), conv(n2e, 6), conv(e2n, 6)

    def geodetic2ecef(lat, lon, alt, ell=None, deg=True):
        return G((lat, lon, alt), ell, deg)

    def ecef2geodetic(x, y, z, ell=None, deg=True):
        return P((x, y, z), ell, deg)

    def enu2ecef(e1, n1, u1, lat0, lon0, h0, ell=None, deg=True):
        return N((e1, n1, u1, lat0, lon0, h0), ell, deg)

    def ecef2enu(x, y, z, lat0, lon0, h0, ell=None, deg=True):
        return M((x, y, z, lat0, lon0, h0), ell, deg)

    def geodetic2enu(lat, lon, h, lat0, lon0, h0, ell=None, deg=True):
        return ecef2enu(*geodetic2ecef(lat, lon, h, ell, deg), lat0, lon0, h0, ell, deg)

    def enu2geodetic(e, n, u, lat0, lon0, h0, ell=None, deg=True):
        return ecef2geodetic(*enu2ecef(e, n, u, lat0, lon0, h0, ell, deg), ell, deg)

    fs = dict(geodetic2ecef=geodetic2ecef, ecef2geodetic=ecef2geodetic, enu2ecef=enu2ecef, ecef2enu=ecef2enu,
              geodetic2enu=geodetic2enu, enu2geodetic=enu2geodetic)
    ec = stubs.module("pymap3d.ecef", **fs)
    en = stubs.module("pymap3d.enu", **fs)
    pm = stubs.module("pymap3d", Ellipsoid=ell.Ellipsoid, ellipsoid=ell, ecef=ec, enu=en, **fs)
    return {"pymap3d": pm, "pymap3d.ellipsoid": ell, "pymap3d.ecef": ec, "pymap3d.enu": en}


class LatLon:
    def __init__(self, latlonh, lon=None, height=0, *a, **k):
        if lon is None:
            raise E.Unsupported("LatLon of one argument")
        self.lat, self.lon, self.height = latlonh, lon, height
        self.latlon = (latlonh, lon)


class Geoid:
    def __init__(self, path, *a, **k):
        s = str(path)
        self.kind = next((m for m in ("egm84", "egm96", "egm2008") if m in os.path.basename(s)), None)
        if self.kind is None:
            raise E.Unsupported("geoid data file " + s)

    def h(self, lat, lon):
        return lift(lambda a, b: (T.fn("geoid." + self.kind, a, b),), (lat, lon))[0]

    def __call__(self, *pos, **k):
        if k:
            raise E.Unsupported("geoid options")
        if len(pos) == 1 and isinstance(pos[0], LatLon):
            return self.h(pos[0].lat, pos[0].lon)
        xs = pos[0] if len(pos) == 1 else pos
        items = as_items(xs)
        if items is None:
            items = list(xs)
        if len(items) == 1 and isinstance(items[0], Block):
            b = items[0]
            return SymCol(b.seq, val=self.h(b.elem.lat, b.elem.lon))
        if any(isinstance(x, Block) for x in items):
            raise E.Unsupported("geoid heights of a list with several parts")
        return rt.sarr([self.h(x.lat, x.lon) for x in items])

    def height(self, lats, lons, **k):
        if k:
            raise E.Unsupported("geoid options")
        items = [as_items(x) if has_block(x) and not isinstance(x, SymCol) else None for x in (lats, lons)]
        if items[0] is not None and items[1] is not None:
            lats, lons = rt.from_items(items[0]), rt.from_items(items[1])
        return self.h(lats, lons)


def pygeodesy():
    ek = stubs.module("pygeodesy.ellipsoidalKarney", LatLon=LatLon)
    gk = stubs.module("pygeodesy.geoids", GeoidKarney=Geoid)
    p = stubs.module("pygeodesy", ellipsoidalKarney=ek, GeoidKarney=Geoid, geoids=gk)
    return {"pygeodesy": p, "pygeodesy.ellipsoidalKarney": ek, "pygeodesy.geoids": gk}


def resources():
    r = stubs.module("importlib.resources", files=lambda p: pathlib.PurePosixPath("/pkg") / str(getattr(p, "__name__", p)).replace(".", "/"))
    return {"importlib.resources": r, "importlib": stubs.module("importlib", resources=r)}


def geo_ext(**more):
    import confuse

    e = {"confuse": confuse, "pandas": stubs.module("pandas", DataFrame=object)}
    e.update(pymap3d())
    e.update(pygeodesy())
    e.update(resources())
    e.update(more)
    return e
