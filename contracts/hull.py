"""Contracts of the body's construction: orientation of the faces (C06) and pairing of the edges (C07)."""
from __future__ import annotations

import itertools

from .base import *  # noqa: F401,F403
from .base import T, E, V, arr, cmp, cand, cor, cross, dot, norm, q, vadd, vsub, vneg, nvec, num, rt, mk, term, unchanged, components
from .field import ANCH, FaceSpec, edge_contract, face_samples, FACE_FN, SIDE, mkvals

HULL_FN = [ANCH + x for x in ("Polyhedron.__init__", "Polyhedron._get_faces", "Polyhedron._in_hull", "Face.__init__",
                              "Face._get_edges", "Face._get_twinface", "Edge.__init__")] + ["geec/utils.py:cross_product"]
HULL_ASM = ["scipy.spatial.ConvexHull returns a triangulation of the hull: every facet's plane has all points on one side, not all in it; "
            "neighbor k is opposite vertex k; neighbouring facets share exactly two vertices; distinct hull vertices have distinct coordinates",
            "scipy.optimize.linprog only decides whether a point is in the hull (either answer is considered)"]


def differ(e, a, b):
    e.assume(cor([cmp("!=", T.add(x, y, -1)) for x, y in zip(a, b)]))


class Mesh:
    """the generic facet (v0,v1,v2) of a hull and its three neighbours, known by index only"""

    def __init__(self, perm=0, edges=True):
        e = E.eng()
        self.seqF, self.seqP, self.seqV = Seq("facets"), Seq("points"), Seq("vertices")
        self.v = [SymIdx("v%d" % i, self.table) for i in range(3)]
        self.w = [SymIdx("w%d" % i, self.table) for i in range(3)]  # apex of the neighbour opposite v_i
        self.n = [SymIdx("n%d" % i, self.ntable) for i in range(3)]
        self.coord = {x.name: V(x.name) for x in self.v + self.w}
        self.A, self.B, self.C = (self.coord["v%d" % i] for i in range(3))
        for a, b in itertools.combinations(self.v, 2):
            differ(e, self.coord[a.name], self.coord[b.name])
        for a in self.v:
            for b in self.w:
                differ(e, self.coord[a.name], self.coord[b.name])
        self.perm = perm

    @staticmethod
    def table(a, b):
        x, y = a.name, b.name
        if x == y:
            return True
        if x[0] == y[0] == "v" or {x[0], y[0]} == {"v", "w"}:
            return False
        return None

    @staticmethod
    def ntable(a, b):
        return a.name == b.name if a.name[0] == b.name[0] == "n" else None

    def row(self, k):
        """vertices of neighbour k, in one of the six orders"""
        r = [self.v[(k + 1) % 3], self.v[(k + 2) % 3], self.w[k]]
        return list(itertools.permutations(r))[(self.perm + 2 * k) % 6]


class Simplices:
    def __init__(self, mesh):
        self.m = mesh
        self.srow = sarr(mesh.v)

    def vc_items(self):
        return [Block(self.m.seqF, self.srow)]

    def __iter__(self):
        raise E.Unsupported("iteration over the facets outside a loop")

    def __len__(self):
        raise E.Unsupported("number of facets")

    @property
    def shape(self):
        return (mk(self.m.seqF.count), 3)

    def __getitem__(self, n):
        if isinstance(n, SymIdx):
            return sarr(self.m.row(int(n.name[1])))
        if isinstance(n, (rt.rnp.ndarray, list, tuple)) and all(isinstance(x, SymIdx) and x.name[0] == "n" for x in n):
            return sarr([self.m.row(int(x.name[1])) for x in n])
        if isinstance(n, SymPos):
            return self.srow
        raise E.Unsupported("facets by position")


class NeighborRows:
    def __init__(self, mesh):
        self.m = mesh
        self.nrow = sarr(mesh.n)

    def vc_items(self):
        return [Block(self.m.seqF, self.nrow)]

    def __getitem__(self, n):
        if isinstance(n, SymPos):
            return self.nrow
        raise E.Unsupported("neighbours by position")


class Hull:
    """contract of scipy.spatial.ConvexHull"""

    mesh = None
    made = 0

    def __init__(self, points, *a, **k):
        m = Hull.mesh
        e = E.eng()
        if a or k:
            raise E.Unsupported("ConvexHull with options")
        if not isinstance(points, SymMat):
            raise E.Unsupported("hull of something else than the given points")
        e.prove("the hull is that of the given points", all(x == y for x, y in zip(points.cols, V("p", ("points",)))))
        Hull.made += 1
        self.points = SymMat(m.seqP, V("p", ("points",)))
        self.points.vertex = lambda i: m.coord[i.name]
        points.vertex = self.points.vertex
        self.vertices = VertexSet(m.seqV, SymMat(m.seqV, V("hv", ("vertices",))))
        self.simplices = Simplices(m)
        self.neighbors = NeighborRows(m)
        self.nsimplex = rt.b_len(self.simplices)


class LP:
    def __init__(self, ok):
        self.success = ok


def linprog(*a, **k):
    return LP(E.eng().choice("the point is in the hull"))


def hull_world():
    ext = {"scipy.spatial": stubs.module("scipy.spatial", ConvexHull=Hull),
           "scipy.optimize": stubs.module("scipy.optimize", linprog=linprog)}
    ext["scipy"] = stubs.module("scipy", spatial=ext["scipy.spatial"], optimize=ext["scipy.optimize"])
    return world(ext)


def centre(m):
    """mean of the hull's vertices, mean of all points"""
    out = []
    for seq, nm in ((m.seqV, "hv"), (m.seqP, "p")):
        out.append([T.div(T.tsum(seq, x), seq.count) for x in V(nm, (seq.name,))])
    return out


def hull_case(env):
    import numpy as np

    A, B, C = (np.array(nvec(V("v%d" % i), env)) for i in range(3))
    D = np.array([num(T.div(T.tsum(Seq("vertices"), x), Seq("vertices").count), env) for x in V("hv", ("vertices",))])
    out = []
    apex = 4 * D - A - B - C
    pts = [A, B, C, apex]
    for p in (pts, [A, C, B, apex], [apex, A, B, C], [C, apex, A, B]):
        out.append({"body": "witness", "points": [x.tolist() for x in p]})
    return out


def hull_samples(n=30):
    out = [T.Env(salt=("hull", i), lo=-2, hi=2) for i in range(n)]
    k = 0
    for off, sc in ((3.3e6, 10.0), (6e6, 1.0), (4e5, 1e-2), (0.0, 1e-4), (0.0, 1e-6), (0.0, 1e-9), (0.0, 1e5), (1e7, 500.0), (0.0, 1e7)):
        for flip in (0, 1):
            tri = [(0, 0, 0), (1, 0.1, 0.2), (0.2, 0.9, -0.1)]
            if flip:
                tri[1], tri[2] = tri[2], tri[1]
            o = (off, off / 3, -off / 7)
            vals = {f"v{i}": [sc * x + y for x, y in zip(t, o)] for i, t in enumerate(tri)}
            ap = [(0.5, 0.4, -0.8), (0.7, -0.9, 0.3), (-0.5, 0.6, 0.1)]
            vals.update({f"w{i}": [sc * x + y for x, y in zip(t, o)] for i, t in enumerate(ap)})
            out.append(T.Env(mkvals(vals), salt=("hulls", k), **({} if off or sc > 10 else {"lo": -2, "hi": 2})))
            k += 1
    return out


@scenario("C06", "C07", weight=3)
def faces(pid, tier):
    ens = []
    for perm in range(6):
        for side in (1, -1):
            en = E.Engine(f"Polyhedron.__init__ (generic facet, listed {'counterclockwise' if side > 0 else 'clockwise'}, neighbours' order {perm})",
                          fn=ANCH + "Polyhedron._get_faces, Face._get_edges, Face._get_twinface", samples=hull_samples(), max_paths=100)
            en.case_of = hull_case

            def scen(perm=perm, side=side):
                e = E.eng()
                m = Hull.mesh = Mesh(perm)
                Hull.made = 0
                nv = cross(vsub(m.B, m.A), vsub(m.C, m.A))
                e.assume(cmp(">", norm(nv)))
                for x in (m.seqV.count, m.seqP.count):
                    e.assume(cmp(">", x))
                Dv, Dp = centre(m)
                s = T.const(side)
                for D in (Dv, Dp):
                    e.assume(cmp("<", T.mul(s, dot(nv, vsub(D, m.A)))), "a mean of the points lies strictly on the body's side of every facet")
                X = V("X")
                e.assume(cmp("<=", T.mul(s, dot(nv, vsub(X, m.A)))))
                w = hull_world()
                poly = w.load("geec.polyhedron")
                if hasattr(poly.Polyhedron, "_get_edge_twin"):
                    poly.Polyhedron._get_edge_twin = lambda self, faces: None  # see the scenario `pairing`
                pts = SymMat(m.seqP, V("p", ("points",)))
                pts.vertex = lambda i: m.coord[i.name]
                P = poly.Polyhedron(pts)
                unchanged(e, "the given points are not modified", pts.row(), arr(V("p", ("points",))))
                fs = P.faces
                if not (isinstance(fs, list) and len(fs) == 1 and isinstance(fs[0], Block) and fs[0].seq == m.seqF):
                    return e.fail("one face per facet of the hull", repr(fs)[:200])
                e.prove("one face per facet of the hull", True)
                f = fs[0].elem
                sx = list(f.simplex)
                perm_ok = len(sx) == 3 and sorted(x.name for x in sx) == ["v0", "v1", "v2"]
                e.prove("a face's indices are those of its facet", perm_ok)
                if not perm_ok:
                    return
                co = components(e, "corners", f.points, (3, 3))
                for i in range(3):
                    e.prove("the corners are the points the face refers to", all(x == y for x, y in zip(co[i], m.coord[sx[i].name])))
                un = components(e, "un", f.un, (3,))
                c = [list(r) for r in co]
                if pid == "C06":
                    e.eq("the normal has length one", dot(un, un), T.ONE)
                    for k in (1, 2):
                        e.eq("the normal is perpendicular to the face", dot(un, vsub(c[k], c[0])), T.ZERO)
                    e.prove("every point of the body is behind the face", cmp("<=", dot(un, vsub(X, c[0]))))
                    nn = cross(vsub(c[1], c[0]), vsub(c[2], c[0]))
                    # un.nn = |nn| > 0
                    e.eq("the corners run counterclockwise seen from outside", dot(un, nn), norm(nn))
                    return
                eds = list(f.edges)
                if len(eds) != 3:
                    return e.fail("a face has one edge per side", f"{len(eds)} edges")
                e.prove("a face has one edge per side", True)
                e.prove("a face knows the number of its edges and corners", f.nedges == 3 and f.npoints == 3)
                for i, ed in enumerate(eds):
                    a, b = sx[i], sx[(i + 1) % 3]
                    e.prove("edge i runs from corner i to the next one",
                            all(term(x) == y for x, y in zip(list(ed.start) + list(ed.end), m.coord[a.name] + m.coord[b.name])))
                    for j in range(3):
                        e.eq("the edge's vector goes from its start to its end", term(ed.vector[j]), T.add(m.coord[b.name][j], m.coord[a.name][j], -1))
                    e.eq("the edge's length is that of its vector", term(ed.length), norm(vsub(m.coord[b.name], m.coord[a.name])))
                    opp = next(k for k in range(3) if m.v[k].name not in (a.name, b.name))
                    tf = ed._twinface
                    e.prove("the edge's neighbour is the facet across it", isinstance(tf, SymIdx) and tf.name == "n%d" % opp)
                    e.prove("a new edge has no twin and no values", ed._twin is None and ed.pqr is None and ed.dpqr is None)

            en.explore(scen)
            ens.append(en)
    return Result(ens, HULL_FN, HULL_ASM)


# ------------------------------------------------------------------ pairing
def failed(en):
    """no need to go on: refuted, or out of reach"""
    return bool(en.unsup) or any(o.status() == "refuted" for o in en.obls.values())


def pair_case(env):
    import numpy as np

    out = []
    g = {x: np.array(nvec(V(x), env)) for x in ("v0", "v1", "v2", "w0", "w1", "w2")}
    for k in range(3):
        out.append({"body": "witness", "points": [g[x].tolist() for x in ("v0", "v1", "v2", f"w{k}")]})
    out.append({"body": "witness", "points": [x.tolist() for x in g.values()]})
    return out


@scenario("C07", weight=4)
def pairing(pid, tier):
    ens = []
    for state in itertools.product((False, True), repeat=3):
        for rot in itertools.product(range(3), repeat=3):
            if tier == "quick" and len(set(rot)) == 2:
                continue
            en = E.Engine(f"Polyhedron._get_edge_twin (inductive step; already paired: {''.join('ny'[x] for x in state)}, order {rot})",
                          fn=ANCH + "Polyhedron._get_edge_twin, Edge.set_twin", samples=hull_samples(12), max_paths=400, time_limit=40)
            en.case_of = pair_case

            def scen(state=state, rot=rot):
                e = E.eng()
                m = Hull.mesh = Mesh()
                w = hull_world()
                poly = w.load("geec.polyhedron")
                if not hasattr(poly.Polyhedron, "_get_edge_twin"):
                    raise E.Unsupported("no Polyhedron._get_edge_twin")

                def pts(ix):
                    return sarr([[mk(t) for t in m.coord[x.name]] for x in ix])

                un = arr(V("un"))
                face = poly.Face(points=pts(m.v), simplex=sarr(m.v), un=un, neighbors=sarr(m.n),
                                 simplices=sarr([m.row(k) for k in range(3)]))
                ok = len(face.edges) == 3
                if not ok:
                    raise E.Unsupported("the face has not three edges (see `faces`)")
                nb = {}
                me = SymIdx("me")
                for k in range(3):
                    a, b = m.v[(k + 1) % 3], m.v[(k + 2) % 3]  # edge a->b of the face, opposite v_k
                    ring = [b, a, m.w[k]]
                    ring = ring[rot[k]:] + ring[:rot[k]]
                    others = [SymIdx(f"x{k}{i}") for i in range(2)]
                    u = [SymIdx(f"u{k}{i}", lambda p, r: p.name == r.name) for i in range(2)]
                    f = poly.Face(points=pts(ring), simplex=sarr(ring), un=arr(V("un%d" % k)), neighbors=sarr([me] + others),
                                  simplices=sarr([m.v, [a, m.w[k], u[0]], [m.w[k], b, u[1]]]))
                    nb["n%d" % k] = f
                twin_of, foreign, keep = {}, {}, {}
                for ed in face.edges:
                    k = int(ed._twinface.name[1])
                    for t in nb["n%d" % k].edges:
                        if all(term(x) == term(y) for x, y in zip(list(ed.start) + list(ed.end), list(t.end) + list(t.start))):
                            twin_of[k] = (ed, t)
                        else:
                            foreign[k, len(foreign)] = t
                if len(twin_of) != 3:
                    raise E.Unsupported("the faces' edges do not match (see `faces`)")
                for i, (key, t) in enumerate(foreign.items()):
                    if i % 2:  # paired with an edge of a face that is not shown
                        z = poly.Edge((t.end, t.start), (t._simplex[1], t._simplex[0]), SymIdx("n9"))
                        t.set_twin(z)
                        z.set_twin(t)
                    keep[key] = t._twin
                for k in range(3):
                    if state[k]:
                        ed, t = twin_of[k]
                        ed.set_twin(t)
                        t.set_twin(ed)
                faces_ = [Block(m.seqF, face)]

                def hook(a, k):
                    if a is faces_ or (isinstance(a, list) and has_block(a)):
                        if isinstance(k, SymIdx) and k.name in nb:
                            return nb[k.name]
                        if isinstance(k, SymIdx) and k.name == "me":
                            return face
                    return None

                e.index_hook = hook
                P = poly.Polyhedron.__new__(poly.Polyhedron)
                P.points = SymMat(m.seqP, V("p", ("points",)))
                P.faces = faces_
                P._get_edge_twin(faces_)
                for k, (ed, t) in twin_of.items():
                    e.prove("every edge is paired with the reversed edge of the facet across it", ed._twin is t)
                    e.prove("pairing is mutual", t._twin is ed)
                for key, t in foreign.items():
                    e.prove("no other edge's pairing is changed", t._twin is keep[key])

            en.explore(scen)
            ens.append(en)
            if failed(en):
                break
        if failed(ens[-1]):
            break
    return Result(ens, [ANCH + "Polyhedron._get_edge_twin", ANCH + "Edge.set_twin"],
                  HULL_ASM + ["induction over the faces: before the step an edge is unpaired or paired with the reversed edge of the facet across it"])


# ------------------------------------------------------------------ values of paired edges
def opposite_scenario(side):
    def f(pid, tier):
        ens = []
        for grad in (True, False):
            en = E.Engine(f"Face.get_gravity keeps the values of paired edges opposite ({SIDE[side]}{', gradient' if grad else ''})",
                          fn=ANCH + "Face.get_gravity, Face._get_ccw_line_integrals", samples=face_samples(side, 24), max_paths=60)
            en.case_of = lambda env: [dict(c, values=True) for c in FaceSpec(side).case(env)]

            def scen(grad=grad):
                w = world()
                poly = w.load("geec.polyhedron")
                S = FaceSpec(side)
                e = S.facts()
                if not edge_contract(poly, S):
                    raise E.Unsupported("no Edge._get_ccw_line_integrals")
                f, pts = S.face(poly)
                f.get_gravity(arr(S.o), mk(T.var("rho")), mk(T.var("Gc")), grad)
                for i, ed in enumerate(f.edges):
                    tw = ed._twin
                    p, tp = components(e, "pqr", ed.pqr, (3,)), components(e, "pqr", tw.pqr, (3,))
                    for j in range(3):
                        e.eq("paired edges carry opposite values after the computation", tp[j], T.neg(p[j]))
                    if grad:
                        d, td = components(e, "dpqr", ed.dpqr, (3, 3)), components(e, "dpqr", tw.dpqr, (3, 3))
                        for ix in rt.rnp.ndindex(3, 3):
                            e.eq("paired edges carry opposite derivatives after the computation", td[ix], T.neg(d[ix]))

            en.explore(scen)
            T.SQRT_RULES.clear()
            ens.append(en)
        return Result(ens, [ANCH + x for x in ("Face.get_gravity", "Face._get_ccw_line_integrals", "Face._add_pqr", "Face._add_dpqr")])

    f.__name__ = f"opposite_{side}"
    return f


for _s in (1, 0):
    scenario("C07", weight=2)(opposite_scenario(_s))
