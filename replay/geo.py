"""Concrete replays for the field computation: C01-C08."""
from common import *  # noqa: F401,F403
from common import (np, fail, load_geo, ws, body, pick_obs, err, tolG, tolT, diam, finite,
                    surf_dist, outside_margin, OBS, CUBE, rot)

GC = [6.67408e-11, 6.67e-11, 1.0, 6.6743e-11, -6.67408e-11]
RHO = [1000.0, 2670.0, -300.0, 1.0, 0.0, 917.25, 1e-4, 0.12345]


def _A(x):
    return np.array(x, dtype=float)


def field(P, o, rho, Gc, grad, p=None):
    poly, _ = load_geo()
    if p is None:
        p = poly.Polyhedron(P)
    try:
        return p.get_gravity(o, rho, Gc, grad)
    except Exception as e:
        fail(f"get_gravity raised {type(e).__name__}: {e}")


def gen_field(rng, tier, n, bodies=None, kinds=None):
    kinds_b = bodies or ["tetra", "cube", "tilted", "rand", "sphere", "grid", "slab", "lattice",
                         "interior", "dup", "ecef", "tiny", "big", "needle", "int", "offaxis",
                         "regular", "shifted", "micro", "huge", "chamfer"]
    for i in range(n):
        kb, P = body(rng, kinds_b[i % len(kinds_b)])
        ks = kinds or OBS
        pts = []
        for j in range(3):
            ko, o = pick_obs(rng, P, ks[(i * 3 + j + i // len(kinds_b)) % len(ks)])
            pts.append((ko, o.tolist()))
        yield {"body": kb, "points": P.tolist(), "obs": pts,
               "rho": RHO[i % len(RHO)], "Gc": GC[(i // 3) % len(GC)], "given": i % 4}
    kb, P = body(rng, "crowd")
    yield {"body": kb, "points": P.tolist(), "rho": 917.25, "Gc": 6.67408e-11,
           "obs": [(k, pick_obs(rng, P, k)[1].tolist()) for k in ("generic", "inside")]}
    if tier != "quick" or True:
        kb, P = body(rng, "many")
        yield {"body": kb, "points": P.tolist(),
               "obs": [(k, pick_obs(rng, P, k)[1].tolist()) for k in ("generic", "inside")],
               "rho": 2670.0, "Gc": 6.67408e-11}


def given(o, k):
    """the same point as the caller may hold it: a plain array, a read-only one, whole numbers, a view"""
    o = np.array(o, dtype=float)
    if k == 1:
        o.setflags(write=False)
    elif k == 2 and np.array_equal(o, np.round(o)) and np.abs(o).max() < 1e15:
        o = o.astype(int)
    elif k == 3:
        o = np.stack([o, o + 1.0])[0]
    elif k == 4:
        o = o.astype(np.float32)
    return o


def whole(P, o, k):
    """a point of whole numbers instead, if it is off the surface"""
    if k == 2 and np.abs(o).max() < 1e9 and diam(P) < 1e9:
        r = np.round(o)
        if surf_dist(P, r) > 2e-3 * diam(P):
            return r
    return o


def gen_thin(rng, n):
    """long thin faces, seen from points in their planes"""
    for i in range(n):
        kb, P = body(rng, "chamfer")
        yield {"body": kb, "points": P.tolist(), "rho": RHO[i % 3], "Gc": GC[i % 3],
               "obs": [(k, pick_obs(rng, P, k)[1].tolist()) for k in ("plane", "edge_after", "edge_far", "edge_before", "generic", "off_plane")]}


def N(tier, q, t):
    return q if tier == "quick" else t


# ------------------------------------------------------------------ C01
def c01_gen(rng, tier):
    yield {"body": "cube", "points": CUBE.tolist(), "obs": [("paper", [-1.05, -1.05, 0.0])],
           "rho": 1000.0, "Gc": 6.67408e-11}
    yield from gen_field(rng, tier, N(tier, 68, 400))
    yield from gen_thin(rng, N(tier, 10, 80))


def c01_run(case):
    poly, st = load_geo()
    P = _A(case["points"])
    rho, Gc = case["rho"], case["Gc"]
    p = poly.Polyhedron(P.copy())
    rng = np.random.default_rng(len(P))
    gv = case.get("given", 0)
    for ko, o in case["obs"]:
        o = given(whole(P, _A(o), gv), gv)
        G, _ = field(P, o, rho, Gc, False, p)
        g, _, w = ws(P, o, rho, Gc)
        if err(G, g) > tolG(P, o, rho, Gc):
            fail(f"gravity at {o.tolist()} ({ko}) is {np.asarray(G).tolist()}, Newton's law gives {g.tolist()}")
        # linearity
        G2, _ = field(P, o, 3 * rho, Gc * 2, False, p)
        if err(G2, 6 * np.asarray(G)) > 6 * tolG(P, o, rho, Gc):
            fail(f"gravity at {o.tolist()} is not linear in density and constant")
        s = st.Station(o.copy())
        s.compute_gravity(p, rho, Gc)
        if err(s.G, g) > tolG(P, o, rho, Gc):
            fail(f"station gravity at {o.tolist()} ({ko}) is {s.G.tolist()}, Newton's law gives {g.tolist()}")
    # translation and order of the vertices
    ko, o = case["obs"][0]
    o = _A(o)
    sh = np.round(rng.uniform(-3, 3, 3) * diam(P), 6)
    Q = (P + sh)[rng.permutation(len(P))]
    o2 = o + sh
    g, _, _ = ws(Q, o2, rho, Gc)
    G, _ = field(Q, o2, rho, Gc, False)
    if err(G, g) > tolG(Q, o2, rho, Gc):
        fail(f"gravity after translation by {sh.tolist()} is {np.asarray(G).tolist()}, expected {g.tolist()}")


# ------------------------------------------------------------------ C02
def c02_gen(rng, tier):
    yield from gen_field(rng, tier, N(tier, 68, 400))
    yield from gen_thin(rng, N(tier, 16, 120))


def c02_run(case):
    poly, st = load_geo()
    P = _A(case["points"])
    rho, Gc = case["rho"], case["Gc"]
    p = poly.Polyhedron(P.copy())
    for ko, o in case["obs"]:
        o = _A(o)
        G, T = field(P, o, rho, Gc, [True, np.True_, 1][len(ko) % 3], p)
        _, t, _ = ws(P, o, rho, Gc)
        if err(T, t) > tolT(P, o, rho, Gc):
            fail(f"gradient at {o.tolist()} ({ko}) is {np.asarray(T).tolist()}, expected {t.tolist()}")
        if err(T, np.asarray(T).T) > 1e-12 * abs(rho * Gc) * 1e9:
            fail(f"gradient at {o.tolist()} ({ko}) is not symmetric: {np.asarray(T).tolist()}")
        G0, T0 = field(P, o, rho, Gc, False, p)
        if err(G, G0) > 1e-13 * abs(rho * Gc) * 1e5 * diam(P):
            fail(f"gravity at {o.tolist()} changes with the gradient flag: {np.asarray(G).tolist()} / {np.asarray(G0).tolist()}")
        if np.any(np.asarray(T0) != 0):
            fail(f"tensor without gradient request is not zero at {o.tolist()}: {np.asarray(T0).tolist()}")
        # derivative of the reported gravity itself
        h = 1e-4 * min(surf_dist(P, o), diam(P))
        if ko not in ("near", "below") and case["body"] not in ("ecef", "chamfer"):
            for j in range(3):
                e = np.zeros(3)
                e[j] = h
                gp, _ = field(P, o + e, rho, Gc, False, p)
                gm, _ = field(P, o - e, rho, Gc, False, p)
                d = (np.asarray(gp) - np.asarray(gm)) / (2 * h) * 1e4
                lim = 1e-4 * abs(rho * Gc) * 1e9 + 1e4 * 2 * tolG(P, o, rho, Gc) / h * 1e-3
                if err(d, np.asarray(T)[:, j]) > lim:
                    fail(f"column {j} of the gradient at {o.tolist()} ({ko}) is {np.asarray(T)[:, j].tolist()}, derivative of the reported gravity is {d.tolist()}")
        s = st.Station(o.copy())
        s.compute_gravity([p], rho, Gc, gradient=True)
        if err(s.T, t) > tolT(P, o, rho, Gc):
            fail(f"station gradient at {o.tolist()} is {s.T.tolist()}, expected {t.tolist()}")
        s.compute_gravity([p], rho, Gc)
        if err(s.T, t) > tolT(P, o, rho, Gc):
            fail(f"station gradient changed by a computation without gradient at {o.tolist()}")


# ------------------------------------------------------------------ C03
def c03_gen(rng, tier):
    yield from gen_field(rng, tier, N(tier, 85, 400))
    yield from gen_thin(rng, N(tier, 16, 120))


def c03_run(case):
    poly, st = load_geo()
    P = _A(case["points"])
    rho, Gc = case["rho"], case["Gc"]
    p = poly.Polyhedron(P.copy())
    for ko, o in case["obs"]:
        o = _A(o)
        m = outside_margin(P, o)
        G, T = field(P, o, rho, Gc, True, p)
        tr = float(np.trace(np.asarray(T)))
        exp = 0.0 if m > 0 else -4 * np.pi * Gc * rho * 1e9
        if not abs(tr - exp) <= 3 * tolT(P, o, rho, Gc):
            fail(f"trace at {o.tolist()} ({ko}, {'outside' if m > 0 else 'inside'}) is {tr}, expected {exp}")


# ------------------------------------------------------------------ C04
def c04_gen(rng, tier):
    bs = ["tetra", "cube", "tilted", "rand", "lattice", "ecef", "interior"]
    for i in range(N(tier, 28, 140)):
        kb, P = body(rng, bs[i % len(bs)])
        hist = []
        for j in range(int(rng.integers(2, 6))):
            r = rng.random()
            if r < 0.25:
                hist.append(["vertex", int(rng.integers(len(P))), bool(rng.integers(2))])
            elif r < 0.35:
                hist.append(["bad", None, bool(rng.integers(2))])
            elif r < 0.45:
                hist.append(["edge", [int(x) for x in rng.integers(0, len(P), 2)], bool(rng.integers(2))])
            else:
                hist.append(["point", pick_obs(rng, P)[1].tolist(), bool(rng.integers(2))])
        hist.append(["point", pick_obs(rng, P)[1].tolist(), bool(i % 2)])
        if i % 7 == 0:  # flag changes on the same point
            q = pick_obs(rng, P)[1].tolist()
            hist += [["point", q, True], ["point", q, False], ["point", q, True]]
        if i % 4 == 2:
            hist = [["point", np.round(h[1]).tolist(), h[2]] if h[0] == "point" and surf_dist(P, np.round(h[1])) > 2e-3 * diam(P) else h for h in hist]
        yield {"body": kb, "points": P.tolist(), "history": hist, "fault": None, "given": i % 4}
    # one argument changes, the point stays; the caller overwrites what it was given
    for i in range(N(tier, 6, 30)):
        kb, P = body(rng, bs[i % len(bs)])
        q = pick_obs(rng, P)[1].tolist()
        hist = []
        for r, g, gr in ((2670.0, 6.67408e-11, True), (1000.0, 6.67408e-11, True), (1000.0, 1.0, True), (1000.0, 1.0, False),
                         (1000.0, 1.0, True), (-1.0, 1.0, True), (-1.0, 1.0, True), (2670.0, 6.67408e-11, False)):
            hist.append(["point", q, gr, r, g])
            if i % 2:
                hist.append(["point", pick_obs(rng, P)[1].tolist(), gr, r, g])
                hist.append(["point", q, gr, r, g])
        yield {"body": kb, "points": P.tolist(), "history": hist, "fault": None, "overwrite": True}
        hist = [["point", pick_obs(rng, P)[1].tolist(), bool(j // 3 % 2)] for j in range(7)]
        yield {"body": kb, "points": P.tolist(), "history": hist, "fault": None, "reuse": True}
    # fault at the k-th elementary operation, then a clean computation
    for i in range(N(tier, 24, 120)):
        kb, P = body(rng, bs[i % len(bs)])
        yield {"body": kb, "points": P.tolist(), "fault": int(i), "history": [
            ["point", pick_obs(rng, P)[1].tolist(), bool(i % 2)],
            ["point", pick_obs(rng, P)[1].tolist(), bool((i // 2) % 2)]]}


class Boom(Exception):
    pass


def _snap(p):
    fs = []
    for f in p.faces:
        fs.append((np.array(f.points), np.array(f.simplex), np.array(f.un),
                   [(np.array(e.start), np.array(e.end), np.array(e.vector), float(e.length)) for e in f.edges]))
    return fs


def _same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if not (np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1]) and np.array_equal(x[2], y[2])):
            return False
        for e, f in zip(x[3], y[3]):
            if not (np.array_equal(e[0], f[0]) and np.array_equal(e[1], f[1]) and np.array_equal(e[2], f[2]) and e[3] == f[3]):
                return False
    return True


def c04_run(case):
    import sys

    poly, st = load_geo()
    P0 = _A(case["points"])
    P = given(P0, case.get("given", 0))
    p = poly.Polyhedron(P)
    held = []
    if not np.array_equal(P, P0):
        fail("building the body modified the caller's vertices")
    geom = _snap(p)
    rho, Gc = 2670.0, 6.67408e-11
    buf = np.zeros(3)
    for step, (kind, q, grad, *more) in enumerate(case["history"]):
        rho, Gc = more or (2670.0, 6.67408e-11)
        if kind == "vertex":
            o = P0[q].copy()
        elif kind == "edge":
            o = (P0[q[0]] + P0[q[1]]) / 2
        elif kind == "bad":
            o = None
        else:
            o = given(_A(q), case.get("given", 0))
            if case.get("reuse"):  # the caller moves one array from point to point
                buf[:] = o
                o = buf
        o_in = None if o is None else o.copy()
        last = kind == "point"
        fault = case["fault"] if step == 0 else None
        try:
            if o is None:
                p.get_gravity("nonsense", rho, Gc, grad)
            elif fault is not None:
                # raise at the fault-th call made inside geec/polyhedron.py
                cnt = [0]

                def tr(frame, ev, arg):
                    if ev == "call" and frame.f_code.co_filename.endswith("polyhedron.py"):
                        nm = frame.f_code.co_name
                        if nm != "reset" and "reset" not in nm:
                            cnt[0] += 1
                            if cnt[0] == 2 + fault * 5:
                                raise Boom()
                    return None

                sys.settrace(tr)
                try:
                    r = p.get_gravity(o, rho, Gc, grad)
                finally:
                    sys.settrace(None)
            else:
                r = p.get_gravity(o, rho, Gc, grad)
        except Boom:
            last = False
        except Exception as e:
            if kind == "point":
                fail(f"step {step}: computing at {q} after this history raised {type(e).__name__}: {e}")
            last = False
        if o is not None and not np.array_equal(o, o_in):
            fail(f"step {step}: the caller's point was modified: {o_in.tolist()} -> {o.tolist()}")
        if not np.array_equal(P, P0):
            fail(f"step {step}: the caller's vertices were modified")
        if not _same(geom, _snap(p)):
            fail(f"step {step}: the geometry of the body was modified")
        for k, (res, cp) in enumerate(held):
            if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(res, cp)):
                fail(f"step {step}: a result handed out earlier (kept result {k}) changed from {[c.tolist() for c in cp]} to {[np.asarray(a).tolist() for a in res]}")
        if last and not case.get("overwrite"):
            held.append((r, [np.array(x) for x in r]))
        if last:
            fresh = poly.Polyhedron(P0.copy())
            G, T = fresh.get_gravity(o.copy(), rho, Gc, grad)
            s = 1e-12 * abs(rho * Gc)
            if err(r[0], G) > s * 1e5 * diam(P0) or err(r[1], T) > s * 1e9:
                fail(f"step {step}: result {[np.asarray(x).tolist() for x in r]} at {q} differs from a fresh body's {[np.asarray(x).tolist() for x in (G, T)]} (history {case['history'][:step]}, fault {case['fault']})")
            if case.get("overwrite"):
                # the results and the point belong to the caller
                for x in (*r, o):
                    if isinstance(x, np.ndarray) and x.flags.writeable:
                        x[...] = 17.0


# ------------------------------------------------------------------ C05
def c05_gen(rng, tier):
    for i in range(N(tier, 24, 120)):
        nb = int(rng.integers(1, 5))
        bodies = [body(rng, ["tetra", "cube", "rand", "lattice"][int(rng.integers(4))])[1].tolist() for _ in range(nb)]
        calls = []
        for _ in range(int(rng.integers(1, 5))):
            k = int(rng.integers(0, 5))
            idx = [int(x) for x in rng.integers(0, nb, k)]
            bad = bool(rng.random() < 0.25)
            calls.append({"idx": idx, "bad": int(rng.integers(0, k + 1)) if bad else None,
                          "single": bool(rng.random() < 0.3), "grad": bool(rng.integers(2)),
                          "rho": float(rng.choice([1.0, 1000.0, 2670.0, 0.0, -300.0, 0.12345])), "badkind": int(rng.integers(9))})
        yield {"bodies": bodies, "coord": (rng.normal(size=3) * 4 + 9).tolist(), "calls": calls,
               "hold": [None, "T", "G", "both", None][i % 5], "sub": i % 4 == 3, "given": i % 5 if i % 3 else 2}
    # every kind of thing that is not a body, on its own and in a list
    tetra = body(rng, "tetra")[1].tolist()
    for k in range(9):
        yield {"bodies": [tetra], "coord": [9.0, 8.0, 7.0], "hold": "both", "calls": [
            {"idx": [0] * (k % 3), "bad": k % 3, "single": k % 2 == 0, "grad": True, "rho": 1000.0, "badkind": k}]}
    # long lists, one body many times, and many bodies
    cube = body(rng, "cube")[1].tolist()
    for n in N(tier, (300,), (300, 1100, 5000)):
        yield {"bodies": [tetra, cube], "coord": [9.0, 8.0, 7.0], "hold": None, "calls": [
            {"idx": [int(x) for x in rng.integers(0, 2, n)], "bad": None, "single": False, "grad": True, "rho": 1000.0, "badkind": 0}]}
    # one call at a time
    yield {"bodies": [tetra, cube], "coord": [9.0, 8.0, 7.0], "hold": None, "calls": [
        {"idx": [j % 2], "bad": None, "single": j % 3 == 0, "grad": j % 4 != 1, "rho": 1000.0 + j, "badkind": 0} for j in range(40)]}


class Like:
    """not a body, although it has a body's methods"""

    def get_gravity(self, *a, **k):
        return np.zeros(3), np.zeros((3, 3))

    def reset(self):
        pass


def subclassed(p):
    """the same body as an object of a class derived from Polyhedron"""
    import copy

    q = copy.copy(p)
    q.__class__ = type("Body", (type(p),), {})
    return q


def c05_run(case):
    poly, st = load_geo()
    ps = [poly.Polyhedron(_A(b)) for b in case["bodies"]]
    if len(ps) > 1 and case.get("sub"):
        ps[-1] = subclassed(ps[-1])
    o = _A(case["coord"])
    gv = case.get("given", 0)
    if gv == 2 and all(np.array_equal(whole(_A(b), o, 2), np.round(o)) for b in case["bodies"]):
        o = np.round(o)
    ref = [poly.Polyhedron(_A(b)) for b in case["bodies"]]
    o = given(o, gv)
    keep = o.copy()
    s = st.Station(o)
    if np.any(s.G != 0) or np.any(s.T != 0) or s.G.shape != (3,) or s.T.shape != (3, 3):
        fail("a new station does not start from zero")
    other = st.Station(o.copy())
    G, T = np.zeros(3), np.zeros((3, 3))
    Gc = 6.67408e-11
    scale = 1e-300
    if case.get("hold") in ("G", "both"):
        s.G += [1e-4, -2e-4, 3e-4]
        G = G + [1e-4, -2e-4, 3e-4]
        scale = 1e-3
    if case.get("hold") in ("T", "both"):
        s.T += np.arange(9.0).reshape(3, 3) * 1e-3
        T = T + np.arange(9.0).reshape(3, 3) * 1e-3
    for c in case["calls"]:
        lst = [ps[i] for i in c["idx"]]
        bad = c["bad"] is not None
        if bad:
            lst.insert(c["bad"], [None, "cube", st.Station(o), _A(case["bodies"][0]), ps[0].faces[0], Like(),
                                  [ps[0]], poly.Polyhedron, (ps[0],)][c["badkind"]])
        before = (s.G.copy(), s.T.copy())
        n0 = list(lst)
        try:
            if c["single"] and len(lst) == 1 and not isinstance(lst[0], list):
                s.compute_gravity(lst[0], c["rho"], Gc, c["grad"])
            else:
                s.compute_gravity(lst, c["rho"], Gc, gradient=c["grad"])
        except TypeError:
            if not bad:
                fail(f"a computation {c} at a point of type {o.dtype} raised a TypeError")
            if not (np.array_equal(before[0], s.G) and np.array_equal(before[1], s.T)):
                fail(f"the station changed although a TypeError was raised: {c}")
            continue
        except Exception as e:
            fail(f"a computation {c} raised {type(e).__name__}: {e}")
        if bad:
            fail(f"no error for a list with an element that is not a body: {c}")
        if len(lst) != len(n0) or any(a is not b for a, b in zip(lst, n0)):
            fail("the caller's list was modified")
        for i in c["idx"]:
            g, t = ref[i].get_gravity(o.copy(), c["rho"], Gc, c["grad"])
            G = G + g
            T = T + t
            scale = max(scale, abs(c["rho"] * Gc) * 1e5 * diam(_A(case["bodies"][i])))
        if err(s.G, G) > 1e-11 * scale or err(s.T, T) > 1e-7 * scale:
            fail(f"station holds {s.G.tolist()} {s.T.tolist()}, the sum over bodies is {G.tolist()} {T.tolist()}")
    if np.any(other.G != 0) or np.any(other.T != 0):
        fail("computing at one station changed another")
    if not np.array_equal(s.coord, keep):
        fail("the station moved")


# ------------------------------------------------------------------ C06 / C07
def hull_cases(rng, tier, n):
    bs = ["tetra", "cube", "tilted", "rand", "sphere", "grid", "slab", "lattice", "interior", "dup",
          "ecef", "tiny", "big", "needle", "int", "offaxis", "regular", "grid", "lattice", "many", "shifted", "micro", "huge", "astro", "nano"]
    yield {"body": "crowd", "points": body(rng, "crowd")[1].tolist(), "int": False}
    for i in range(n):
        kb, P = body(rng, bs[i % len(bs)])
        yield {"body": kb, "points": P.tolist(), "int": kb == "int" or (kb == "lattice" and i % 2 == 0)}


def c06_gen(rng, tier):
    yield from hull_cases(rng, tier, N(tier, 80, 400))


def _build(case):
    poly, _ = load_geo()
    P = np.array(case["points"])
    P = P.astype(int) if case.get("int") else P.astype(float)
    try:
        return P, poly.Polyhedron(P)
    except Exception as e:
        fail(f"building the body raised {type(e).__name__}: {e}")


def c06_run(case):
    from scipy.spatial import ConvexHull

    P, p = _build(case)
    P = P.astype(float)
    D = diam(P)
    h = ConvexHull(P)
    c = P[h.vertices].mean(0)
    tol = 1e-12 * (1 + np.abs(P).max() / D)
    area = 0.0
    for k, f in enumerate(p.faces):
        if f.points.shape != (3, 3):
            fail(f"face {k} is not a triangle")
        if not np.array_equal(np.asarray(f.points, float), P[np.asarray(f.simplex)]):
            fail(f"face {k}: corner coordinates are not those of the points {f.simplex.tolist()}")
        un = np.asarray(f.un, float)
        if abs(np.linalg.norm(un) - 1) > 1e-12:
            fail(f"face {k}: normal {un.tolist()} has length {np.linalg.norm(un)}")
        A, B, C = np.asarray(f.points, float)
        cr = np.cross(B - A, C - A)
        nn = np.linalg.norm(cr)
        if nn < 1e-10 * D * D:
            continue  # sliver: direction not determined
        q = D * D / nn
        if max(abs(un @ (B - A)), abs(un @ (C - A)), abs(un @ (C - B))) > tol * D * q:
            fail(f"face {k}: normal {un.tolist()} is not perpendicular to the face")
        if cr @ un <= 0:
            fail(f"face {k}: corners do not run counterclockwise seen from outside")
        if un @ (c - A) >= 0 or (un @ (P - A).T).max() > 1e-9 * D * q:
            fail(f"face {k}: normal {un.tolist()} does not point outwards")
        area += nn / 2
    if abs(area - h.area) > 1e-8 * h.area:
        fail(f"faces have area {area}, the hull has {h.area}")
    if p.nfaces != len(p.faces):
        fail("nfaces is not the number of faces")
    vol = sum(np.dot(np.asarray(f.points[0], float) - c, np.cross(np.asarray(f.points[1], float) - c, np.asarray(f.points[2], float) - c)) for f in p.faces) / 6
    if abs(vol - h.volume) > 1e-8 * h.volume:
        fail(f"faces enclose volume {vol}, the hull has {h.volume}")


def c07_gen(rng, tier):
    yield from hull_cases(rng, tier, N(tier, 80, 400))


def c07_run(case):
    P, p = _build(case)
    rng = np.random.default_rng(len(P))
    owner = {}
    for f in p.faces:
        if len(f.edges) != len(f.simplex):
            fail("a face does not have one edge per side")
        for j, e in enumerate(f.edges):
            owner[id(e)] = f
            a, b = f.points[j], f.points[(j + 1) % len(f.edges)]
            if not (np.array_equal(e.start, a) and np.array_equal(e.end, b)):
                fail(f"edge {j} does not run between consecutive corners")
            if not np.array_equal(np.asarray(e.vector), np.asarray(b) - np.asarray(a)):
                fail("edge vector is not end - start")
    seen = {}
    for f in p.faces:
        for e in f.edges:
            t = e._twin
            if t is None or id(t) not in owner:
                fail(f"edge {e.start.tolist()}->{e.end.tolist()} has no pair among the edges of the body")
            if t._twin is not e:
                fail(f"pairing of edge {e.start.tolist()}->{e.end.tolist()} is not mutual")
            if owner[id(t)] is f:
                fail("an edge is paired within its own face")
            if p.faces[int(e._twinface)] is not owner[id(t)]:
                fail("an edge's pair is not on its neighbouring face")
            if not (np.array_equal(e.start, t.end) and np.array_equal(e.end, t.start)):
                fail(f"pair of edge {e.start.tolist()}->{e.end.tolist()} runs {t.start.tolist()}->{t.end.tolist()}")
            if id(t) in seen:
                fail("an edge is the pair of two edges")
            seen[id(t)] = 1
    PF = P.astype(float)
    for grad in (False, True):
        ko, o = pick_obs(rng, PF)
        order = list(rng.permutation(len(p.faces)))
        for k in order[: 1 + len(order) // 2]:
            p.faces[int(k)].get_gravity(o, 1000.0, 6.67e-11, grad)
        for f in p.faces:
            for e in f.edges:
                t = e._twin
                if (e.pqr is None) != (t.pqr is None):
                    fail("only one edge of a pair carries a value")
                if e.pqr is not None and err(e.pqr, -np.asarray(t.pqr)) > 1e-13 * (1 + np.abs(t.pqr).max()):
                    fail(f"paired edges carry {np.asarray(e.pqr).tolist()} and {np.asarray(t.pqr).tolist()} for point {o.tolist()}")
                if (e.dpqr is None) != (t.dpqr is None) or (grad and e.pqr is not None and e.dpqr is None):
                    fail("only one edge of a pair carries derivatives")
                if e.dpqr is not None and err(e.dpqr, -np.asarray(t.dpqr)) > 1e-13 * (1 + np.abs(t.dpqr).max()):
                    fail(f"paired edges carry derivatives {np.asarray(e.dpqr).tolist()} and {np.asarray(t.dpqr).tolist()}")
        for f in p.faces:
            f.reset()


# ------------------------------------------------------------------ C08
def c08_gen(rng, tier):
    special = ["plane", "plane2", "edge_after", "edge_before", "above_vertex", "over_face", "mid",
               "axis", "edge_far", "centroid", "inside", "near", "below", "far"]
    yield from gen_field(rng, tier, N(tier, 119, 600), kinds=special)
    for i in range(N(tier, 60, 400)):
        kb, P = body(rng, ["tilted", "tetra", "slab", "cube", "needle", "rand"][i % 6])
        obs_ = [pick_obs(rng, P, "off_plane") for _ in range(12)] + [pick_obs(rng, P, k) for k in ("plane", "above_vertex", "mid")]
        yield {"body": kb, "points": P.tolist(), "obs": [(k, o.tolist()) for k, o in obs_], "rho": 1000.0, "Gc": 6.67408e-11}


def c08_run(case):
    poly, st = load_geo()
    P = _A(case["points"])
    p = poly.Polyhedron(given(P, case.get("given", 0)))
    gv = case.get("given", 0)
    for ko, o in case["obs"]:
        o = given(whole(P, _A(o), gv), gv)
        for grad in (False, True):
            try:
                G, T = p.get_gravity(o, case["rho"], case["Gc"], grad)
            except Exception as e:
                fail(f"computation at {o.tolist()} ({ko}, gradient={grad}) raised {type(e).__name__}: {e}")
            if not finite(G, T):
                fail(f"computation at {o.tolist()} ({ko}, gradient={grad}) returned {np.asarray(G).tolist()} {np.asarray(T).tolist()}")


TABLE = {
    "C01": (c01_gen, c01_run), "C02": (c02_gen, c02_run), "C03": (c03_gen, c03_run),
    "C04": (c04_gen, c04_run), "C05": (c05_gen, c05_run), "C06": (c06_gen, c06_run),
    "C07": (c07_gen, c07_run), "C08": (c08_gen, c08_run),
}
