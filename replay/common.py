"""Shared pieces of the concrete replays: importing the real package, oracles, input generators.

Nothing in here is used to *prove* anything; it runs the real code of /repo (real numpy, numba,
scipy, confuse, pymap3d) on concrete inputs and compares with independent oracles.
"""
import os
import sys
import math
import warnings

REPO = os.environ.get("GEEC_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

FULL = False


class Violation(Exception):
    pass


def fail(msg):
    raise Violation(msg)


def quiet_logger():
    from loguru import logger

    logger.remove()


class FakeGeoid:
    """stands for the two geoid grids that are not shipped: height known in closed form"""

    def __init__(self, path, *a, **k):
        self.path = str(path)
        self.k = 7.0 if "2008" in self.path else (11.0 if "96" in self.path else 13.0)

    def h(self, lat, lon):
        lon = (float(lon) + 180.0) % 360.0 - 180.0
        return self.k + 0.1 * float(lat) + 0.01 * abs(lon) + math.sin(math.radians(lon))

    def __call__(self, *pos, **k):
        out = []
        single = len(pos) == 1 and not isinstance(pos[0], (list, tuple))
        seq = pos if len(pos) != 1 or single else pos[0]
        for q in seq:
            out.append(self.h(q.lat, q.lon))
        return out[0] if single else out

    def height(self, lats, lons):
        if np.ndim(lats) == 0:
            return self.h(lats, lons)
        return [self.h(a, b) for a, b in zip(lats, lons)]


_REAL_GK = None


def patch_geoids():
    """geec.crs opens three geoid grids on import; two of them are not in the repository"""
    global _REAL_GK
    if _REAL_GK is None:
        import pygeodesy as pgeo

        _REAL_GK = pgeo.GeoidKarney

        def GK(p, *a, **k):
            if os.path.exists(str(p)) and not os.environ.get("VP_FAKE_ALL_GEOIDS"):
                return _REAL_GK(str(p), *a, **k)
            return FakeGeoid(p)

        pgeo.GeoidKarney = GK


def load_geo():
    quiet_logger()
    import geec.polyhedron
    import geec.station

    return geec.polyhedron, geec.station


def load_crs():
    patch_geoids()
    quiet_logger()
    import geec.crs
    import geec.dataset
    import geec.mass
    import geec.observer

    return geec


def load_cli():
    load_crs()
    import geec.cli
    import geec.config
    import geec.api

    return geec


# ---------------------------------------------------------------- oracles
def ws(P, o, rho, Gc):
    """Werner & Scheeres (1997) polyhedron field from the hull of P, at o.
    Solid angles after van Oosterom & Strackee, edge terms ln((r1+r2+l)/(r1+r2-l)).
    Returns gravity [mGal], gradient [E], sum of solid angles."""
    from scipy.spatial import ConvexHull

    P = np.asarray(P, float)
    h = ConvexHull(P)
    c = P[h.vertices].mean(0)
    F = np.zeros(3)
    E = np.zeros(3)
    TF = np.zeros((3, 3))
    TE = np.zeros((3, 3))
    W = 0
    for s in h.simplices:
        a, b, d = P[s]
        n = np.cross(b - a, d - a)
        if n @ (a - c) < 0:
            b, d = d, b
            n = -n
        n = n / np.linalg.norm(n)
        R = [a - o, b - o, d - o]
        r = [np.linalg.norm(x) for x in R]
        num = R[0] @ np.cross(R[1], R[2])
        den = r[0] * r[1] * r[2] + R[0] @ R[1] * r[2] + R[1] @ R[2] * r[0] + R[2] @ R[0] * r[1]
        w = 2 * np.arctan2(num, den)
        W += w
        Ff = np.outer(n, n)
        F += Ff @ R[0] * w
        TF += Ff * w
        for i in range(3):
            p, q = R[i], R[(i + 1) % 3]
            e = q - p
            l = np.linalg.norm(e)
            m = np.cross(e / l, n)
            # ln((r1+r2+l)/(r1+r2-l)), without cancellation
            if p @ e > 0:
                L = np.log((r[(i + 1) % 3] + q @ e / l) / (r[i] + p @ e / l))
            elif q @ e < 0:
                L = np.log((r[i] - p @ e / l) / (r[(i + 1) % 3] - q @ e / l))
            else:
                L = np.log((r[(i + 1) % 3] + q @ e / l) * (r[i] - p @ e / l)) - 2 * np.log(
                    np.linalg.norm(np.cross(p, e / l))
                )
            Ee = np.outer(n, m)
            E += Ee @ p * L
            TE += Ee * L
    return Gc * rho * (-E + F) * 1e5, Gc * rho * (TE - TF) * 1e9, W


def diam(P):
    P = np.asarray(P, float)
    return float(np.linalg.norm(P.max(0) - P.min(0)))


def amp(P, o):
    """amplification of rounding: coordinates' size over body size"""
    P = np.asarray(P, float)
    return max(np.abs(P).max(), np.abs(o).max(), 1e-300) / diam(P)


# ---------------------------------------------------------------- generators
CUBE = np.array(
    [(-0.5, -0.5, 0.0), (0.5, -0.5, 0.0), (0.5, 0.5, 0.0), (-0.5, 0.5, 0.0),
     (-0.5, -0.5, -1.0), (0.5, -0.5, -1.0), (0.5, 0.5, -1.0), (-0.5, 0.5, -1.0)]
)


def rot(rng):
    q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    return q if np.linalg.det(q) > 0 else -q


def body(rng, kind=None):
    """a vertex array (kind, points)"""
    kinds = ["tetra", "cube", "tilted", "rand", "sphere", "grid", "slab", "lattice", "interior",
             "dup", "ecef", "tiny", "big", "needle", "int", "offaxis", "many", "regular"]
    kind = kind or kinds[int(rng.integers(len(kinds)))]
    if kind == "tetra":
        P = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0]]) + rng.uniform(-0.2, 0.2, (4, 3))
    elif kind == "cube":
        P = CUBE * rng.uniform(0.5, 3) + rng.integers(-3, 4, 3)
        P = P[rng.permutation(8)]
    elif kind == "tilted":
        P = (CUBE * rng.uniform(0.5, 2, 3)) @ rot(rng).T + rng.uniform(-2, 2, 3)
    elif kind == "rand":
        P = rng.normal(size=(int(rng.integers(5, 25)), 3))
    elif kind == "sphere":
        P = rng.normal(size=(int(rng.integers(20, 45)), 3))
        P /= np.linalg.norm(P, axis=1)[:, None]
    elif kind == "chamfer":  # an edge (or a corner) cut off very finely: long thin faces
        eps = 10.0 ** rng.uniform(-6, -2)
        if rng.random() < 0.7:
            P = [c for c in CUBE if not (c[0] > 0 and c[1] > 0)]
            for z in (0.0, -1.0):
                P += [(0.5 - eps, 0.5, z), (0.5, 0.5 - eps, z)]
        else:
            P = [c for c in CUBE if not (c[0] > 0 and c[1] > 0 and c[2] == 0)]
            P += [(0.5 - eps, 0.5, 0.0), (0.5, 0.5 - eps, 0.0), (0.5, 0.5, -eps)]
        P = (np.array(P, float) @ rot(rng).T) * rng.uniform(0.5, 5)
        P = P[rng.permutation(len(P))]
    elif kind == "crowd":  # thousands of points inside, the corners last
        R = rot(rng).T
        P = np.concatenate([rng.uniform(-0.45, 0.45, (int(rng.integers(4200, 9000)), 3)) - [0, 0, 0.5], CUBE]) @ R
    elif kind == "many":
        P = rng.normal(size=(int(rng.integers(70, 120)), 3))
        P /= np.linalg.norm(P, axis=1)[:, None]
    elif kind == "grid":
        n = int(rng.integers(3, 5))
        P = np.stack(np.meshgrid(*[np.linspace(0, 1, n)] * 3), -1).reshape(-1, 3)
        P = P[rng.permutation(len(P))]
        if rng.random() < 0.5:
            P = P @ rot(rng).T
    elif kind == "slab":
        P = CUBE * np.array([5, 3, 0.2]) @ rot(rng).T
    elif kind == "needle":
        P = CUBE * np.array([0.1, 0.2, 4]) @ rot(rng).T
    elif kind == "lattice":
        while True:
            P = rng.integers(0, 3, size=(int(rng.integers(6, 16)), 3)).astype(float)
            if np.linalg.matrix_rank(P - P[0]) == 3:
                break
    elif kind == "int":
        while True:
            P = rng.integers(-3, 4, size=(int(rng.integers(5, 12)), 3))
            if np.linalg.matrix_rank(P - P[0]) == 3:
                break
        return kind, P.astype(float)
    elif kind == "interior":
        P = np.concatenate([CUBE @ rot(rng).T, rng.uniform(-0.2, 0.2, (6, 3)) + (CUBE.mean(0) * 0)])
        c = (P[:8]).mean(0)
        P[8:] = c + rng.uniform(-0.2, 0.2, (6, 3))
        P = P[rng.permutation(len(P))]
    elif kind == "dup":
        P = np.concatenate([CUBE, CUBE[rng.integers(0, 8, 4)]]) @ rot(rng).T
    elif kind == "ecef":
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        P = (CUBE * rng.uniform(5e3, 5e4, 3)) @ rot(rng).T + u * 6.37e6
    elif kind == "shifted":  # a small body with large coordinates
        P = CUBE * rng.uniform(1, 100) + np.array([3371000.0, 4000000.0, 3500000.0]) * rng.choice([1, -1], 3)
        P = P[rng.permutation(8)]
    elif kind == "tiny":
        P = (CUBE * 10.0 ** rng.uniform(-3, -1)) @ rot(rng).T
    elif kind == "micro":
        P = (CUBE * 10.0 ** rng.uniform(-7, -5)) @ rot(rng).T
    elif kind == "nano":
        P = (CUBE * 10.0 ** rng.uniform(-11, -9)) @ rot(rng).T
    elif kind == "huge":
        P = (CUBE * 10.0 ** rng.uniform(6, 8)) @ rot(rng).T
    elif kind == "astro":
        P = (rng.normal(size=(12, 3)) * 10.0 ** rng.uniform(8, 10)) + rng.normal(size=3) * 1e11
    elif kind == "big":
        P = (CUBE * 10.0 ** rng.uniform(2, 5)) @ rot(rng).T
    elif kind == "offaxis":
        P = rng.uniform(-1, 1, (8, 3)) + np.array([0, 0, 20.0])
    elif kind == "regular":
        t = rng.random()
        if t < 0.5:  # octahedron, many exact symmetries
            P = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.0]])
        else:
            P = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.0]])
        P = P * rng.integers(1, 4) + rng.integers(-2, 3, 3)
    else:
        raise ValueError(kind)
    return kind, np.asarray(P, float)


def _hull(P):
    from scipy.spatial import ConvexHull

    return ConvexHull(P)


def outside_margin(P, o):
    """signed distance-like value: > 0 outside, < 0 inside (max over facet planes)"""
    h = _hull(P)
    return float((h.equations[:, :3] @ o + h.equations[:, 3]).max())


def surf_dist(P, o):
    """distance from o to the surface of the hull of P"""
    h = _hull(P)
    best = np.inf
    for s in h.simplices:
        best = min(best, tri_dist(P[s], o))
    return best


def tri_dist(t, p):
    a, b, c = t
    ab, ac, ap = b - a, c - a, p - a
    d1, d2 = ab @ ap, ac @ ap
    if d1 <= 0 and d2 <= 0:
        return np.linalg.norm(ap)
    bp = p - b
    d3, d4 = ab @ bp, ac @ bp
    if d3 >= 0 and d4 <= d3:
        return np.linalg.norm(bp)
    vc = d1 * d4 - d3 * d2
    if vc <= 0 and d1 >= 0 and d3 <= 0:
        return np.linalg.norm(ap - ab * (d1 / (d1 - d3)))
    cp = p - c
    d5, d6 = ab @ cp, ac @ cp
    if d6 >= 0 and d5 <= d6:
        return np.linalg.norm(cp)
    vb = d5 * d2 - d1 * d6
    if vb <= 0 and d2 >= 0 and d6 <= 0:
        return np.linalg.norm(ap - ac * (d2 / (d2 - d6)))
    va = d3 * d6 - d5 * d4
    if va <= 0 and (d4 - d3) >= 0 and (d5 - d6) >= 0:
        w = (d4 - d3) / ((d4 - d3) + (d5 - d6))
        return np.linalg.norm(p - (b + (c - b) * w))
    n = np.cross(ab, ac)
    return abs(n @ ap) / np.linalg.norm(n)


OBS = ["generic", "near", "inside", "inside_deep", "plane", "plane2", "edge_after", "edge_before",
       "above_vertex", "over_face", "mid", "axis", "far", "centroid", "below", "edge_far", "distant"]


def obs(rng, P, kind=None):
    """an observation point off the surface of hull(P): (kind, point) or None"""
    kind = kind or OBS[int(rng.integers(len(OBS)))]
    h = _hull(P)
    c = P[h.vertices].mean(0)
    D = diam(P)
    k = int(rng.integers(len(h.simplices)))
    t = P[h.simplices[k]]
    n = h.equations[k, :3]
    if kind == "generic":
        u = rng.normal(size=3)
        o = c + u / np.linalg.norm(u) * D * rng.uniform(0.7, 3)
    elif kind == "far":
        u = rng.normal(size=3)
        o = c + u / np.linalg.norm(u) * D * rng.uniform(5, 12)
    elif kind == "near":
        w = rng.dirichlet([2, 2, 2])
        o = w @ t + n * D * 10.0 ** rng.uniform(-5, -2)
    elif kind == "below":
        w = rng.dirichlet([2, 2, 2])
        o = w @ t - n * D * 10.0 ** rng.uniform(-5, -2)
    elif kind == "inside":
        w = rng.dirichlet(np.ones(len(h.vertices)))
        o = 0.9 * (w @ P[h.vertices]) + 0.1 * c
    elif kind == "inside_deep":
        o = c + (P[h.vertices[0]] - c) * rng.uniform(-0.3, 0.3)
    elif kind == "centroid":
        o = c.copy()
    elif kind in ("plane", "plane2"):
        w = rng.uniform(-3, 3, 3)
        if kind == "plane2":
            w = rng.integers(-3, 4, 3).astype(float)
        w[2] = 1 - w[0] - w[1]
        if w.min() >= -0.05:
            w = np.array([2.0, -2.0, 1.0])
        o = w @ t
    elif kind == "off_plane":  # next to the plane of a face, off the face
        w = rng.uniform(-3, 3, 3)
        w[2] = 1 - w[0] - w[1]
        if w.min() >= -0.05:
            w = np.array([2.0, -2.0, 1.0])
        o = w @ t + n * D * rng.choice([-1, 1]) * 10.0 ** rng.uniform(-14, -8)
    elif kind == "distant":
        u = rng.normal(size=3)
        o = c + u / np.linalg.norm(u) * D * 10.0 ** rng.uniform(1.2, 2.7)
    elif kind == "very_far":
        u = rng.normal(size=3)
        o = c + u / np.linalg.norm(u) * D * 10.0 ** rng.uniform(2, 4)
    elif kind == "edge_after":
        o = t[1] + (t[1] - t[0]) * rng.choice([0.5, 1.0, 2.0, rng.uniform(0.1, 3)])
    elif kind == "edge_before":
        o = t[0] - (t[1] - t[0]) * rng.choice([0.5, 1.0, 2.0, rng.uniform(0.1, 3)])
    elif kind == "edge_far":
        o = t[0] - (t[1] - t[0]) * rng.uniform(4, 9)
    elif kind == "above_vertex":
        o = t[0] + n * D * rng.choice([0.25, 1.0, rng.uniform(0.05, 2)])
    elif kind == "over_face":
        o = t.mean(0) + n * D * rng.choice([0.5, 1.0, rng.uniform(0.05, 2)])
    elif kind == "mid":
        o = (t[0] + t[1]) / 2 + (t[0] - c) * rng.uniform(0.3, 2)
    elif kind == "axis":
        o = c.copy()
        o[int(rng.integers(3))] += D * rng.choice([-1, 1]) * rng.uniform(0.8, 3)
    o = np.asarray(o, float)
    lim = 0.5e-6 if kind in ("near", "below") else 2e-3
    if surf_dist(P, o) < lim * D:
        return None
    return kind, o


def pick_obs(rng, P, kind=None):
    for _ in range(30):
        r = obs(rng, P, kind)
        if r is not None:
            return r
        if kind in ("inside", "inside_deep", "centroid"):
            continue
    return obs(rng, P, "generic") or ("generic", P.mean(0) + 3 * diam(P))


def finite(*a):
    return all(np.all(np.isfinite(np.asarray(x, float))) for x in a)


def err(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return float("inf")
    d = np.abs(a - b)
    return float("inf") if not np.all(np.isfinite(d)) else (float(d.max()) if d.size else 0.0)


def thin(P):
    """loss of precision by thin faces: 100 if the hull has one, 1 otherwise"""
    P = np.asarray(P, float)
    h = _hull(P)
    for s in h.simplices:
        a, b, c = P[s]
        m = max(np.linalg.norm(b - a), np.linalg.norm(c - b), np.linalg.norm(a - c))
        if m * m > 50 * np.linalg.norm(np.cross(b - a, c - a)):
            return 100.0
    return 1.0


def tolG(P, o, rho, Gc):
    return thin(P) * abs(rho * Gc) * 1e5 * diam(P) * (1e-10 + 1e-14 * amp(P, o)) + 1e-300


def tolT(P, o, rho, Gc):
    d = surf_dist(np.asarray(P, float), np.asarray(o, float)) / diam(P)
    return thin(P) * abs(rho * Gc) * 1e9 * (1e-9 + 4e-15 * amp(P, o) / max(min(d, 1), 1e-12)) + 1e-300
