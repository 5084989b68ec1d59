"""Contracts of the field computation: Edge, Face, Polyhedron.get_gravity (C01, C02, C03, C07, C08)."""
from __future__ import annotations

from .base import *  # noqa: F401,F403
from vc.engine import ev_cond
from .base import T, E, V, arr, cmp, cand, cor, cross, dot, norm, q, vadd, vsub, vneg, vscale, nvec, num, tabs, rt, mk, term

ANCH = "geec/polyhedron.py:"


def samples(n, special=(), lo=-2, hi=2, pre="s"):
    out = [T.Env(salt=(pre, i), lo=lo, hi=hi) for i in range(n)]
    return out + list(special)


def mkvals(names_vals):
    d = {}
    for nm, v in names_vals.items():
        for c, x in zip("xyz", v):
            d[nm + c] = Fraction(repr(float(x)))
    return d


# ------------------------------------------------------------------ Edge
def edge_setup(swap):
    """an edge from o+R to o+R+L and its twin; the point o is off the edge"""
    w = world()
    poly = w.load("geec.polyhedron")
    o, R, Lv = V("o"), V("R"), V("L")
    R2 = vadd(R, Lv)
    e = E.eng()
    r1, r2, l = norm(R), norm(R2), norm(Lv)
    for t in (r1, r2, l, T.mul(l, r1), T.mul(l, r2), T.mul(l, l)):
        e.assume(cmp(">", t))
    m = q(1e-9)
    d2 = dot(R2, Lv)
    if swap:
        e.assume(cmp(">", T.neg(d2)))
        e.assume(cmp(">", T.add(T.add(r2, T.div(d2, l), -1), m, -1)), "an observation point off the edge keeps r2-R2.L/l above 1e-9 (beyond the end point)")
    else:
        e.assume(cmp(">=", d2))
        e.assume(cmp(">", T.add(T.add(r1, T.div(dot(R, Lv), l)), m, -1)), "an observation point off the edge keeps r1+R1.L/l above 1e-9")
    return poly, o, R, Lv, R2, r1, r2, l


def edge_spec(r1, r2, l, Lv):
    return [T.mul(T.div(x, l), T.fn("log", T.div(T.add(T.add(r1, r2), l), T.add(T.add(r1, r2), l, -1)))) for x in Lv]


def edge_dspec(r1, r2, l, Lv, R1, R2, j):
    """derivative of edge_spec with respect to coordinate j of the observation point"""
    d = T.neg(T.add(T.div(R1[j], r1), T.div(R2[j], r2)))
    s = T.add(r1, r2)
    dl = T.mul(d, T.add(T.inverse(T.add(s, l)), T.inverse(T.add(s, l, -1)), -1))
    return [T.mul(T.div(x, l), dl) for x in Lv]


def mk_edge(poly, o, R, R2):
    p1, p2 = arr(vadd(o, R)), arr(vadd(o, R2))
    ed = poly.Edge((p1, p2), (SymIdx("a"), SymIdx("b")), SymIdx("f"))
    tw = poly.Edge((p2.copy(), p1.copy()), (SymIdx("b"), SymIdx("a")), SymIdx("g"))
    ed.set_twin(tw)
    tw.set_twin(ed)
    return ed, tw


def near_edge():
    """observation points close to, and in line with, the edge"""
    out = []
    for k, (R, Lv) in enumerate([((-1.0, 1e-3, 0.0), (2.0, 0.0, 0.0)), ((-1.0, 0.0, 2e-3), (2.5, 0.5, 0.0)),
                                 ((0.0, 1.0, 1.0), (0.0, 1.0, 1.0)), ((0.0, -2.0, -2.0), (0.0, 1.0, 1.0)),
                                 ((-3e3, 1.0, 5.0), (7e3, 2.0, 1.0)), ((1e-2, 0.0, 0.0), (3.0, 4.0, 0.0)),
                                 ((0.25, 0.5, -3.0), (-1.0, -1.0, 1.0)), ((-2.0, 0.0, 0.0), (1.0, 0.0, 0.0))]):
        for swap in (0, 1):
            if swap:
                R2 = [a + b for a, b in zip(R, Lv)]
                Rr, Ll = [-x for x in R2], list(Lv)
            else:
                Rr, Ll = list(R), list(Lv)
            out.append(T.Env(mkvals({"o": (0.5, -0.25, 1.0), "R": Rr, "L": Ll}), salt=("near", k, swap)))
    return out


def edge_case(o, R, Lv):
    """a body with this edge, seen from this point"""
    def f(env):
        o_, R_, L_ = nvec(o, env), nvec(R, env), nvec(Lv, env)
        import numpy as np
        o_, R_, L_ = map(np.array, (o_, R_, L_))
        p1, p2 = o_ + R_, o_ + R_ + L_
        mid = R_ + L_ / 2
        away = mid / (np.linalg.norm(mid) or 1.0)
        n1 = np.cross(L_, away)
        if np.linalg.norm(n1) < 1e-9 * np.linalg.norm(L_):
            n1 = np.cross(L_, np.eye(3)[np.argmin(abs(L_))])
        n1 = n1 / np.linalg.norm(n1)
        s = np.linalg.norm(L_)
        a2 = np.cross(n1, L_) / s
        if np.dot(a2, mid) < 0:
            a2 = -a2
        P = [p1, p2, (p1 + p2) / 2 + s * (a2 + 0.6 * n1), (p1 + p2) / 2 + s * (a2 - 0.7 * n1)]
        return {"body": "witness", "points": [x.tolist() for x in P], "obs": [["witness", o_.tolist()]],
                "rho": 1000.0, "Gc": 6.67408e-11}

    return f


def run_edge(pid, tier, swap, domain=False):
    en = E.Engine("Edge._get_ccw_line_integrals" + (" (point beyond the end)" if swap else ""),
                  fn=ANCH + "Edge._get_ccw_line_integrals, Edge._line_integral_along_edge, Edge._set_twin_pqr",
                  samples=samples(24) + near_edge(), domain=domain)
    en.case_of = edge_case(V("o"), V("R"), V("L"))

    def scen():
        poly, o, R, Lv, R2, r1, r2, l = edge_setup(swap)
        e = E.eng()
        for grad in (True, False):
            ed, tw = mk_edge(poly, o, R, R2)
            obs = arr(o)
            ed._get_ccw_line_integrals(obs, grad)
            if domain:
                continue
            p = components(e, "pqr", ed.pqr, (3,))
            tp = components(e, "twin pqr", tw.pqr, (3,))
            sp = edge_spec(r1, r2, l, Lv)
            for i in range(3):
                if pid in ("C01", "C02"):
                    e.eq("line integral of 1/r along the edge" + (" (gradient requested)" if grad else ""), p[i], sp[i])
                if pid in ("C02", "C07", "C01"):
                    e.eq("the paired edge gets the opposite value", tp[i], T.neg(p[i]))
            if grad and pid in ("C02", "C07"):
                d = components(e, "dpqr", ed.dpqr, (3, 3))
                td = components(e, "twin dpqr", tw.dpqr, (3, 3))
                for i in range(3):
                    for j in range(3):
                        if pid == "C02":
                            e.eq("derivative of the line integral", d[j, i], T.neg(T.diff(sp[i], R[j])))
                            e.eq("closed form of the derivative", edge_dspec(r1, r2, l, Lv, R, R2, j)[i], T.neg(T.diff(sp[i], R[j])))
                        e.eq("the paired edge gets the opposite derivative", td[j, i], T.neg(d[j, i]))
            if pid == "C04":
                unchanged(e, "the observation point is not modified", obs, arr(o))
                unchanged(e, "the edge's start is not modified", ed.start, arr(vadd(o, R)))
                unchanged(e, "the edge's end is not modified", ed.end, arr(vadd(o, R2)))

    en.explore(scen)
    return en


@scenario("C01", "C02", "C04", "C07", weight=3)
def edge(pid, tier):
    return Result([run_edge(pid, tier, False), run_edge(pid, tier, True)],
                  [ANCH + x for x in ("Edge.__init__", "Edge.set_twin", "Edge._get_ccw_line_integrals",
                                      "Edge._line_integral_along_edge", "Edge._set_twin_pqr", "Edge._set_pqr", "Edge._set_dpqr")],
                  [], ["numba compiles _line_integral_along_edge faithfully"])


@scenario("C08", weight=3)
def edge_domain(pid, tier):
    return Result([run_edge(pid, tier, False, True), run_edge(pid, tier, True, True)],
                  [ANCH + "Edge._get_ccw_line_integrals", ANCH + "Edge._line_integral_along_edge"])


# ------------------------------------------------------------------ Face
class FaceSpec:
    """geometry of one face seen from o; corners at o+a, o+b, o+c (counterclockwise from outside)"""

    def __init__(self, side):
        self.o = V("o")
        self.side = side
        a, b = V("a"), V("b")
        if side == 0:
            s, t = T.var("ps"), T.var("pt")
            c = vadd(vscale(a, s), vscale(b, t))
        else:
            c = V("c")
        self.p = [a, b, c]
        self.N = cross(vsub(b, a), vsub(c, a))
        self.n = norm(self.N)
        self.un = [T.div(x, self.n) for x in self.N]
        self.dp1 = dot(self.un, a)
        self.r = [norm(x) for x in self.p]
        self.L = [vsub(self.p[(i + 1) % 3], self.p[i]) for i in range(3)]
        self.l = [norm(x) for x in self.L]
        self.cr = [cross(self.p[i], self.p[(i + 1) % 3]) for i in range(3)]
        self.cn = [norm(x) for x in self.cr]

    def facts(self):
        e = E.eng()
        T.SQRT_RULES.clear()
        for t in self.r + self.l + self.cn + [self.n]:
            e.assume(cmp(">", t))
        m = q(1e-9)
        for i in range(3):
            j = (i + 1) % 3
            d2 = dot(self.p[j], self.L[i])
            e.assume(cmp(">", T.mul(self.l[i], self.r[j])))
            # off the edge, with margin (see Edge)
            c1 = T.add(T.add(self.r[i], T.div(dot(self.p[i], self.L[i]), self.l[i])), m, -1)
            c2 = T.add(T.add(self.r[j], T.div(d2, self.l[i]), -1), m, -1)
            e.assume(cor([cand([cmp(">=", d2), cmp(">", c1)]), cand([cmp(">", T.neg(d2)), cmp(">", c2)])]),
                     "the observation point is off the edges (margin 1e-9)")
        if self.side:
            det = T.mul(self.dp1, self.n)
            sc = T.ZERO
            for v in [self.o] + [vadd(self.o, x) for x in self.p]:
                for x in v:
                    sc = T.add(sc, tabs(x))
            s = det if self.side > 0 else T.neg(det)
            e.assume(cmp(">", s))
            dist = self.dp1 if self.side > 0 else T.neg(self.dp1)
            e.assume(cmp(">", T.add(dist, T.mul(q(1e-9), sc), -1)),
                     "the point is off the plane of the face by more than 1e-9 of the coordinates' size, or in it")
            rr = T.ZERO
            for x in self.r:
                rr = T.add(rr, T.mul(x, x))
            e.assume(cmp(">", T.add(s, T.mul(q(1e-12), T.mul(sc, rr)), -1)),
                     "the point is off the plane of the face by so much that p1.(p2xp3) is more than its own rounding (1e-12 of the coordinates' size times the squared distances), or in it")
            e.assume(cmp(">", T.mul(self.n, dist)))
            self.b = []
            for i in range(3):
                j = (i + 1) % 3
                b = T.neg(T.div(dot(self.cr[i], self.cr[j]), T.mul(self.cn[i], self.cn[j])))
                self.b.append(b)
                root = T.div(T.mul(s, self.r[j]), T.mul(self.cn[i], self.cn[j]))
                one = T.add(T.ONE, T.mul(b, b), -1)
                # 1-b^2 = (det*|p|/(n1*n2))^2 > 0, hence |b| < 1 and the root is known
                e.lemma("1-b^2 is the square of det*|p|/(n1*n2)", cmp(">", T.add(T.ONE, b)), [T.add(one, T.mul(root, root), -1)])
                e.facts.append(cmp(">", T.add(T.ONE, b, -1)))
                T.SQRT_RULES.append((one, root))
        return e

    def omega(self):
        """signed solid angle: Girard's formula for the spherical triangle"""
        if not self.side:
            return T.ZERO
        w = T.neg(T.PI)
        for b in self.b:
            w = T.add(w, T.fn("acos", b))
        return T.neg(w) if self.side > 0 else w

    def pqr(self):
        out = [T.ZERO] * 3
        for i in range(3):
            sp = edge_spec(self.r[i], self.r[(i + 1) % 3], self.l[i], self.L[i])
            out = vadd(out, sp)
        return out

    def X(self):
        """un*omega + (pqr x un)"""
        P = [T.named(x) for x in self.pqr()]
        w = T.named(self.omega())
        un = [T.named(u) for u in self.un]
        c = cross(P, un)
        return [T.named(T.add(T.mul(u, w), y)) for u, y in zip(un, c)]

    def face(self, poly):
        np = stubs.NP
        pts = sarr([[mk(t) for t in vadd(self.o, x)] for x in self.p])
        f = poly.Face(points=pts, simplex=rt.rnp.array([0, 1, 2]), un=arr(self.un),
                      neighbors=rt.rnp.array([4, 5, 6]), simplices=rt.rnp.array([[1, 7, 2], [0, 2, 8], [1, 0, 9]]))
        for ed in f.edges:
            tw = poly.Edge((ed.end.copy(), ed.start.copy()), (ed._simplex[1], ed._simplex[0]), 0)
            ed.set_twin(tw)
            tw.set_twin(ed)
        return f, pts

    def dobs(self, t, j):
        """derivative with respect to coordinate j of the observation point"""
        r = T.ZERO
        for v in self.p:
            r = T.add(r, T.diff(t, v[j]), -1)
        return r

    def case(self, env):
        import numpy as np

        o = np.array(nvec(self.o, env))
        P = [o + np.array(nvec(x, env)) for x in self.p]
        un = np.array(nvec(self.un, env))
        c = sum(P) / 3
        s = max(np.linalg.norm(P[0] - P[1]), np.linalg.norm(P[0] - P[2]))
        out = []
        for k in (1.0, 0.3):
            d = c - k * s * un
            out.append({"body": "witness", "points": [x.tolist() for x in P + [d]], "obs": [["witness", o.tolist()]],
                        "rho": 1000.0, "Gc": 6.67408e-11})
        return out


def face_samples(side, n):
    out = []
    k = 0
    while len(out) < n and k < 40 * n:
        k += 1
        out.append(T.Env(salt=("face", side, k), lo=-2, hi=2))
    if side:
        # close to the plane of the face: inside the prism and outside of it, small and large bodies
        for i, (h, sc, org) in enumerate([(1e-3, 1.0, 0.0), (1e-6, 1.0, 0.0), (2e-4, 300.0, 0.0), (3e-2, 10.0, 6e6), (1e-7, 0.01, 0.0), (1e-5, 1e4, 0.0)]):
            for j, (u, v) in enumerate([(0.2, 0.3), (1.5, 0.7), (-0.4, 0.2)]):
                A, B, C = (0.0, 0.0), (1.0, 0.1), (0.2, 0.9)
                hh = h if side > 0 else -h
                vals = {"o": (org, org / 3, -org / 7)}
                for nm, (x, y) in zip("abc", (A, B, C)):
                    vals[nm] = (sc * (x - u), sc * (y - v), sc * hh)
                out.append(T.Env(mkvals(vals), salt=("plane", i, j)))
        # far away, very small and very large bodies, slivers, needles
        for i, (dist, sc) in enumerate([(1e2, 1.0), (3e4, 1.0), (1e6, 1.0), (1e7, 3.0), (1.0, 1e-3), (2.0, 1e-6), (1e5, 1e5), (1e3, 1e6)]):
            for j, tri in enumerate([((0, 0, 0), (1, 0.1, 0.2), (0.2, 0.9, -0.1)), ((0, 0, 0), (1, 0, 0), (0.5, 1e-4, 2e-4)),
                                     ((0, 0, 0), (1, 0.5, 0), (1.001, 0.5, 1e-3))]):
                u = (0.36, 0.48, 0.8)
                pts = [[sc * x + dist * y for x, y in zip(v, u)] for v in tri]
                det = _det(pts)
                if (det > 0) != (side > 0):
                    pts[1], pts[2] = pts[2], pts[1]
                vals = {"o": (0.0, 0.0, 0.0)}
                vals.update(zip("abc", map(tuple, pts)))
                out.append(T.Env(mkvals(vals), salt=("far", i, j)))
    return out


def _det(p):
    (a, b, c), (d, e, f), (g, h, i) = p
    return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)


FACE_FN = [ANCH + x for x in ("Face.__init__", "Face._get_edges", "Face._get_twinface", "Face._get_dot_point1", "Face._get_sign",
                              "Face._get_omega", "Face._get_A1A2", "Face._get_perp", "Face._get_b", "Face._get_angle",
                              "Face._get_dangle", "Face._get_ccw_line_integrals", "Face._add_pqr", "Face._add_dpqr",
                              "Face.get_gravity")] + ["geec/utils.py:cross_product"]
SIDE = {1: "point behind the face", -1: "point in front of the face", 0: "point in the plane of the face"}


def edge_contract(poly, S):
    """Edge._get_ccw_line_integrals by its contract (proved in the scenario `edge`)"""
    if not hasattr(poly.Edge, "_get_ccw_line_integrals"):
        return False
    spec = {}
    for i in range(3):
        spec[i] = (S.p[i], S.p[(i + 1) % 3], edge_spec(S.r[i], S.r[(i + 1) % 3], S.l[i], S.L[i]))

    def contract(self, obs, gradient=False):
        e = E.eng()
        unchanged(e, "call of Edge._get_ccw_line_integrals: the point is the observation point", list(obs), arr(S.o))
        if self._pqr is not None:
            return
        st = [term(x) for x in self.start]
        for i in range(3):
            a, b, sp = spec[i]
            if all(x == y for x, y in zip(st, vadd(S.o, a))) and all(term(x) == y for x, y in zip(self.end, vadd(S.o, b))):
                pq, k = sp, i
                break
        else:
            raise E.Unsupported("edge contract: not an edge of the face")
        self._pqr = arr(pq)
        g = bool(gradient)
        # the derivative with respect to the point: all corners move by -1
        m = (k + 1) % 3
        self._dpqr = sarr([[mk(x) for x in edge_dspec(S.r[k], S.r[m], S.l[k], S.L[k], S.p[k], S.p[m], j)]
                           for j in range(3)]) if g else None
        self._set_twin_pqr()

    poly.Edge._get_ccw_line_integrals = contract
    return True


def run_face(pid, side, grad, domain=False, n=40, modular=True):
    en = _run_face(pid, side, grad, domain, n, modular)
    if modular and en.unsup and not any(o.status() == "refuted" for o in en.obls.values()):
        en = _run_face(pid, side, grad, domain, n, False)
    return en


def _run_face(pid, side, grad, domain, n, modular):
    en = E.Engine(f"Face.get_gravity ({SIDE[side]}{', gradient' if grad else ''})", fn=ANCH + "Face.get_gravity",
                  samples=face_samples(side, n), domain=domain, max_paths=120)
    en.case_of = lambda env: FaceSpec(side).case(env)
    rho, Gc = T.var("rho"), T.var("Gc")

    def scen():
        w = world()
        poly = w.load("geec.polyhedron")
        S = FaceSpec(side)
        e = S.facts()
        if modular:
            edge_contract(poly, S)
        f, pts = S.face(poly)
        obs = arr(S.o)
        res = f.get_gravity(obs, mk(rho), mk(Gc), grad)
        if domain:
            return
        g = components(e, "g", res[0], (3,))
        fac = T.neg(T.mul(T.mul(rho, Gc), q(10**5)))
        X = S.X()
        gs = [T.mul(T.mul(fac, T.named(S.dp1)), x) for x in X]
        if pid in ("C01", "C02"):
            for i in range(3):
                e.eq("gravity of a face is -rho*G*1e5*(un.p1)*(un*omega + pqr x un)" + (" (gradient requested)" if grad else ""), g[i], gs[i])
        if pid == "C04":
            unchanged(e, "the observation point is not modified", obs, arr(S.o))
            unchanged(e, "the corners are not modified", pts.flat, [mk(t) for x in S.p for t in vadd(S.o, x)])
            unchanged(e, "the normal is not modified", f.un, arr(S.un))
        if grad and pid in ("C02", "C03"):
            t = components(e, "tensor", res[1], (3, 3))
            if pid == "C03":
                tr = T.add(T.add(t[0, 0], t[1, 1]), t[2, 2])
                e.eq("trace of a face's tensor is rho*G*1e9*omega", tr,
                     T.mul(T.mul(T.mul(rho, Gc), q(10**9)), S.omega()))
                return
            for i in range(3):
                for j in range(i, 3):
                    e.eq("the tensor of a face is symmetric", t[i, j], t[j, i])
                    if side:
                        d1 = T.scale(S.dobs(gs[i], j), Fraction(10**4))
                        d2 = T.scale(S.dobs(gs[j], i), Fraction(10**4)) if i != j else d1
                    else:
                        k = T.scale(fac, Fraction(10**4))
                        d1 = T.mul(T.mul(k, T.neg(T.named(S.un[j]))), X[i])
                        d2 = T.mul(T.mul(k, T.neg(T.named(S.un[i]))), X[j])
                    nm = "tensor of a face is 1e4 times the derivative of its gravity"
                    if i == j:
                        e.eq(nm, t[i, j], d1)
                    else:
                        # either derivative of the pair (they agree for the closed surface)
                        if T.is_zero(T.add(t[i, j], d1, -1)):
                            e.eq(nm, t[i, j], d1)
                        elif T.is_zero(T.add(t[i, j], d2, -1)):
                            e.eq(nm, t[i, j], d2)
                        else:
                            e.eq(nm, t[i, j], T.scale(T.add(d1, d2), Fraction(1, 2)))
        if not grad and pid == "C02":
            a = rt.rnp.asarray(res[1], dtype=object)
            for x in a.flat:
                e.eq("without gradients the tensor of a face is zero", term(x), T.ZERO)

    en.explore(scen)
    T.SQRT_RULES.clear()
    return en


def face_scenario(side, grad):
    def f(pid, tier):
        return Result([run_face(pid, side, grad)], FACE_FN,
                      ["Girard's formula gives the solid angle of a spherical triangle"],
                      ["Singh-Guptasarma theorem: the sum over the faces of -rho*G*(un.p1)*(un*omega + pqr x un) is the attraction of the body"])

    f.__name__ = f"face_{'plane' if not side else ('behind' if side > 0 else 'front')}{'_grad' if grad else ''}"
    return f


for _s in (1, -1, 0):
    scenario("C01", weight=4)(face_scenario(_s, False))
    scenario("C02", weight=4)(face_scenario(_s, False))
    scenario("C02", "C03", weight=9)(face_scenario(_s, True))


def face_domain_scenario(side, grad):
    def f(pid, tier):
        return Result([run_face(pid, side, grad, domain=True)], FACE_FN)

    f.__name__ = f"face_domain_{side}_{grad}"
    return f


for _s in (1, -1, 0):
    scenario("C08", weight=8)(face_domain_scenario(_s, True))


# ------------------------------------------------------------------ any rounding of norms and products
class NormHavoc:
    """np.linalg with norm() returning some positive numbers, whatever the argument (so also every
    way its result, and what is computed from it, may be rounded)"""

    def __init__(self, real):
        self.real = real

    def norm(self, x, ord=None, axis=None, **k):
        e = E.eng()

        def one():
            t = T.var(e.fresh("rnorm"), pos=True)
            e.assume(cmp(">", t))
            return mk(t)

        if axis is None:
            return one()
        a = rt.rnp.asarray(x, dtype=object)
        return sarr([one() for _ in range(a.shape[0])])

    def __getattr__(self, n):
        return getattr(self.real, n)


def havoc_dot(a, b):
    """np.dot returning any numbers"""
    e = E.eng()
    a, b = rt.rnp.asarray(a, dtype=object), rt.rnp.asarray(b, dtype=object)
    shape = rt.rnp.dot(rt.rnp.zeros(a.shape), rt.rnp.zeros(b.shape)).shape
    if shape == ():
        return mk(T.var(e.fresh("rdot")))
    out = rt.rnp.empty(shape, dtype=object)
    for ix in rt.rnp.ndindex(shape):
        out[ix] = mk(T.var(e.fresh("rdot")))
    return out.view(SymArray)


class FreeEngine(E.Engine):
    """both sides of every comparison are explored, without asking whether they are possible (only the
    sign of a single number is kept consistent)"""

    def _sign(self, l):
        if len(l.t) == 1:
            (m, c), = l.t.items()
            if len(m) == 1 and m[0][1] == 1:
                return m[0][0], (1 if c > 0 else -1)
        return None, 0

    def truth(self, c):
        if c.k == "const":
            return c.a[0]
        r = self.known.get(c.key())
        if r is not None:
            return r
        if c.k == "cmp":
            a, s = self._sign(c.a[1])
            if a is not None:
                ok = self.signs.get(a, {-1, 0, 1})
                if T.ATOMS[a].pos:
                    ok = ok & {1}
                v = {{">": s * x > 0, ">=": s * x >= 0, "==": x == 0, "!=": x != 0}[c.a[0]] for x in ok}
                if len(v) == 1:
                    return v.pop()
        return None

    def start_path(self):
        super().start_path()
        self.signs = {}

    def decide(self, c):
        r = self.truth(c)
        if r is not None:
            return r
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
        else:
            r = True
            self.pending.append(self.taken + [False])
            self.prefix = self.taken + [r]
        self.pos += 1
        self.taken.append(r)
        cc = c if r else E.cnot(c)
        self.conds.append(cc)
        self.known[c.key()] = r
        self.samples = [x for x in self.samples if ev_cond(cc, x) is True]
        if c.k == "cmp":
            a, s = self._sign(c.a[1])
            if a is not None:
                self.signs[a] = {x for x in self.signs.get(a, {-1, 0, 1})
                                 if {">": s * x > 0, ">=": s * x >= 0, "==": x == 0, "!=": x != 0}[c.a[0]] == r}
        return r


@scenario("C08", weight=4)
def face_rounding(pid, tier):
    ens = []
    for grad in (True, False):
        en = FreeEngine(f"Face._get_omega (norms and scalar products rounded in any way{', gradient' if grad else ''})", fn=ANCH + "Face._get_omega",
                      domain=True, samples=[T.Env(salt=("rnd", i)) for i in range(16)], max_paths=3000, time_limit=60)

        def scen(en=en, grad=grad):
            np = rt.NPProxy()
            np.__dict__["linalg"] = NormHavoc(np.__dict__["linalg"])
            np.__dict__["dot"] = havoc_dot
            w = world({"numpy": np})
            poly = w.load("geec.polyhedron")
            e = E.eng()
            T.SQRT_RULES.clear()
            pts = sarr([[mk(T.const(x)) for x in r] for r in ((1, 0, 2), (0, 1, 3), (1, 1, 5))])
            en.domain = False
            f = poly.Face(points=pts, simplex=rt.rnp.array([0, 1, 2]), un=arr(V("u")),
                          neighbors=rt.rnp.array([4, 5, 6]), simplices=rt.rnp.array([[1, 7, 2], [0, 2, 8], [1, 0, 9]]))
            o = arr([T.ZERO] * 3)
            f._get_dot_point1(o)
            f._get_sign()
            e.dom_nonzero = lambda name, t: None  # divisions are covered by the exact scenarios
            en.domain = True
            f._get_omega(o, grad)

        en.explore(scen)
        ens.append(en)
    return Result(ens, FACE_FN, ["rounding of anything but norms and scalar products is not modelled"])


# ------------------------------------------------------------------ Polyhedron.get_gravity
class EdgeStub:
    """an edge of which only the geometry is known"""

    vc_walk = False

    def __init__(self, a, b):
        self.start, self.end, self.vector = arr(a), arr(b), arr(vsub(b, a))
        self.length = mk(norm(vsub(b, a)))
        self._pqr = self._dpqr = None

    def reset(self):
        self._pqr = self._dpqr = None


class FaceStub:
    """a face known by its contract only"""

    vc_walk = False

    def __init__(self, name, args, fails=None, deps=()):
        self.g = V("g_" + name, deps)
        # the tensor of a face is symmetric (proved of Face.get_gravity)
        t = [V(f"t{i}_" + name, deps) for i in range(3)]
        self.t = [[t[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)]
        self.args, self.fails, self.dirty = args, fails, False
        self.name = name
        # its geometry, which the contract of the sum leaves arbitrary
        vs = [V(f"v{i}_" + name, deps) for i in range(3)]
        self.points = sarr([[mk(x) for x in v] for v in vs])
        self.un = arr(V("un_" + name, deps))
        self.edges = [EdgeStub(vs[i], vs[(i + 1) % 3]) for i in range(3)]

    def get_gravity(self, obs, density, Gc, gradient=False):
        e = E.eng()
        o, rho, gc, grad = self.args
        unchanged(e, "each face gets the observation point", list(obs), arr(o))
        e.eq("each face gets the density", term(density), rho)
        e.eq("each face gets the gravitational constant", term(Gc), gc)
        e.prove("each face gets the gradient flag", bool(gradient) == grad)
        self.dirty = True
        if self.fails:
            raise ValueError("the computation of a face fails")
        if gradient:
            return (arr(self.g), sarr([[mk(x) for x in r] for r in self.t]))
        return (arr(self.g), stubs.NP.zeros(3))

    def reset(self):
        self.dirty = False


def bare_polyhedron(poly, faces):
    p = poly.Polyhedron.__new__(poly.Polyhedron)
    p.faces = faces
    p.nfaces = rt.b_len(faces)
    p.points = SymMat(Seq("pts"), V("pt", ("pts",)))
    p.npoints = rt.b_len(p.points)
    return p


@scenario("C01", "C02", "C03", "C04", "C05")
def poly_sum(pid, tier):
    ens = []
    for grad in ((True,) if pid == "C03" else (False, True)):
        en = E.Engine(f"Polyhedron.get_gravity{' (gradient)' if grad else ''}", fn=ANCH + "Polyhedron.get_gravity")

        def scen(grad=grad):
            w = world()
            poly = w.load("geec.polyhedron")
            e = E.eng()
            o, rho, gc = V("o"), T.var("rho"), T.var("Gc")
            args = (o, rho, gc, grad)
            seq = Seq("faces")
            f0, fk, f1 = FaceStub("f0", args), FaceStub("fk", args, deps=("faces",)), FaceStub("f1", args)
            p = bare_polyhedron(poly, [f0, Block(seq, fk), f1])
            coord = arr(o)
            res = p.get_gravity(coord, mk(rho), mk(gc), grad)
            G = components(e, "G", res[0], (3,))
            Tn = components(e, "T", res[1], (3, 3))
            if pid == "C03":
                tr = T.ZERO
                for i in range(3):
                    tr = T.add(tr, T.add(T.add(f0.t[i][i], f1.t[i][i]), T.tsum(seq, fk.t[i][i])))
                e.eq("trace of a body's tensor is the sum of the traces of all its faces", T.add(T.add(Tn[0, 0], Tn[1, 1]), Tn[2, 2]), tr)
                return
            for i in range(3):
                e.eq("gravity of a body is the sum over all its faces", G[i],
                     T.add(T.add(f0.g[i], f1.g[i]), T.tsum(seq, fk.g[i])))
                for j in range(3):
                    if grad:
                        e.eq("tensor of a body is the sum over all its faces", Tn[i, j],
                             T.add(T.add(f0.t[i][j], f1.t[i][j]), T.tsum(seq, fk.t[i][j])))
                    else:
                        e.eq("without gradients the tensor of a body is zero", Tn[i, j], T.ZERO)
            unchanged(e, "the observation point is not modified", coord, arr(o))
            unchanged(e, "the body's vertices are not modified", p.points.row(), arr(V("pt", ("pts",))))

        en.explore(scen)
        ens.append(en)
    return Result(ens, [ANCH + "Polyhedron.get_gravity", ANCH + "Polyhedron.reset"])
