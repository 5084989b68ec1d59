"""Contracts of construction and state: history independence (C04), stations (C05), hull faces (C06), pairing (C07)."""
from __future__ import annotations

from .base import *  # noqa: F401,F403
from .base import T, E, V, arr, cmp, cand, cor, cnot, cross, dot, norm, q, vadd, vsub, vneg, nvec, num, rt, mk, term, unchanged, components
from . import field as F
from .field import FaceSpec, FaceStub, ANCH, edge_contract, bare_polyhedron

NEG = "results do not depend on earlier computations"


# ------------------------------------------------------------------ C04
def snap(x):
    """attributes of an object: (value, content of arrays)"""
    out = {}
    for k, v in rt.attrs_of(x).items():
        c = None
        if isinstance(v, rt.rnp.ndarray):
            c = list(v.flat)
        elif isinstance(v, (list, tuple)):
            c = list(v)
        elif isinstance(v, dict):
            c = list(v.items())
        elif isinstance(v, SymMat):
            c = list(v.cols)
        out[k] = (v, c)
    return out


def same_now(a, x, k):
    """attribute k of x is what it was in the snapshot entry a"""
    if k not in rt.attrs_of(x):
        return False
    v = rt.attrs_of(x)[k]
    v0, c0 = a
    if v is not v0:
        if isinstance(v, (int, float, str, bool, type(None))) and type(v) is type(v0) and v == v0:
            return True
        if isinstance(v, rt.rnp.ndarray) and isinstance(v0, rt.rnp.ndarray):
            return v.shape == v0.shape and all(rt.same_val(p, q_) for p, q_ in zip(v.flat, c0))
        if isnum(v) and isnum(v0):
            return term(v) == term(v0)
        return False
    if c0 is None:
        return True
    if isinstance(v, rt.rnp.ndarray):
        c = list(v.flat)
    elif isinstance(v, dict):
        c = list(v.items())
    elif isinstance(v, SymMat):
        c = list(v.cols)
    else:
        c = list(v)
    return len(c) == len(c0) and all(p is q_ or rt.same_val(p, q_) or p == q_ for p, q_ in zip(c, c0))


class Neighbour:
    """the other faces of a body: their own edges (twins of the face under proof) are reset by them"""

    vc_walk = False

    def __init__(self, twins, args, fail=False):
        self.edges, self.fail, self.args = twins, fail, args
        self.clean = [snap(t) for t in twins]

    def get_gravity(self, obs, density, Gc, gradient=False):
        if self.fail:
            raise ValueError("the computation fails in another face")
        return (arr([T.ZERO] * 3), stubs.NP.zeros((3, 3)) if gradient else stubs.NP.zeros(3))

    def reset(self):
        # by the contract of reset, as proved for the face under proof
        for t, s in zip(self.edges, self.clean):
            for k, (v, c) in s.items():
                object.__setattr__(t, k, v)
            for k in set(rt.attrs_of(t)) - set(s):
                object.__delattr__(t, k)


class Fault(Exception):
    pass


def build_body(S, fail=None):
    """a body [neighbours, face, neighbours]; fail: None, 'before', 'after' or an edge number"""
    w = world()
    poly = w.load("geec.polyhedron")
    F.edge_contract(poly, S)
    f, pts = S.face(poly)
    tw = [e._twin for e in f.edges]
    if fail in (0, 1, 2):
        real = poly.Edge._get_ccw_line_integrals
        state = {"n": 0}

        def faulty(self, obs, gradient=False):
            if state["n"] == fail:
                state["n"] += 1
                raise Fault("the computation fails in this face")
            state["n"] += 1
            return real(self, obs, gradient)

        poly.Edge._get_ccw_line_integrals = faulty
    args = None
    n1 = Neighbour(tw[:2], args, fail == "before")
    n2 = Neighbour(tw[2:], args, fail == "after")
    p = bare_polyhedron(poly, [n1, f, n2])
    p._norm = Opaque("norm")
    objs = {"body": p, "face": f}
    objs.update({f"edge {i}": e for i, e in enumerate(f.edges)})
    return w, poly, p, f, tw, pts, objs


def statics(w):
    """module and class level state of the package"""
    out = {}
    for n, m in w.mods.items():
        for k, v in vars(m).items():
            if isinstance(v, (list, dict, set)) and not k.startswith("__"):
                out[n, k] = repr(sorted(map(str, v)))[:2000] if not isinstance(v, list) else repr(v)[:2000]
            if isinstance(v, type) and v.__module__.startswith("geec"):
                for a, b in vars(v).items():
                    if isinstance(b, (list, dict, set)) and not a.startswith("__"):
                        out[n, k, a] = repr(b)[:2000]
                    elif isinstance(b, (int, float, str, type(None))) and not a.startswith("__"):
                        out[n, k, a] = repr(b)
    return out


def handed_out(e, w, res, holders):
    """the arrays of a result are not kept by the body, its faces and edges, the classes or the modules"""
    mine = [a for a in res if isinstance(a, rt.rnp.ndarray)]
    kept = []
    for x in holders:
        kept += list(rt.attrs_of(x).values())
    for m in w.mods.values():
        for v in list(vars(m).values()):
            kept.append(v)
            if isinstance(v, type) and v.__module__.startswith("geec"):
                kept += list(vars(v).values())
    flat = []
    for v in kept:
        flat += list(v.values()) if isinstance(v, dict) else list(v) if isinstance(v, (list, tuple)) else [v]
    e.prove("results already handed out do not change later: the body keeps none of the returned arrays",
            not any(isinstance(v, rt.rnp.ndarray) and rt.rnp.may_share_memory(v, a) for v in flat for a in mine))


def first_run(side, grad, fail, modified):
    nm = f"Polyhedron.get_gravity ({F.SIDE[side]}{', gradient' if grad else ''}{'' if fail is None else ', failing ' + ('in edge %d' % fail if isinstance(fail, int) else fail + ' this face')})"
    en = E.Engine(nm, fn=ANCH + "Polyhedron.get_gravity", samples=F.face_samples(side, 24), max_paths=60)

    def scen():
        S = FaceSpec(side)
        e = S.facts()
        w, poly, p, f, tw, pts, objs = build_body(S, fail)
        st0 = statics(w)
        before = {k: snap(x) for k, x in objs.items()}
        tws = [snap(t) for t in tw]
        obs = arr(S.o)
        try:
            r = p.get_gravity(obs, mk(T.var("rho")), mk(T.var("Gc")), grad)
            if fail is None:
                handed_out(e, w, r, list(objs.values()) + tw)
            else:
                e.fail("a failing computation is reported", "the exception of a face does not reach the caller")
        except (Fault, ValueError):
            if fail is None:
                raise
        unchanged(e, "the observation point is not modified", obs, arr(S.o))
        unchanged(e, "the corners are not modified", pts.flat, [mk(t) for x in S.p for t in vadd(S.o, x)])
        unchanged(e, "the body's vertices are not modified", p.points.row(), arr(V("pt", ("pts",))))
        for i, ed in enumerate(f.edges):
            unchanged(e, "the edges are not moved", list(ed.start) + list(ed.end),
                      [mk(t) for t in vadd(S.o, S.p[i]) + vadd(S.o, S.p[(i + 1) % 3])])
            e.prove("the pairing of the edges is not changed", ed._twin is tw[i] and tw[i]._twin is ed)
        unchanged(e, "the normal is not modified", f.un, arr(S.un))
        if statics(w) != st0:
            raise E.Unsupported("a computation changes module or class level state")
        for k, x in objs.items():
            now = rt.attrs_of(x)
            for a, v in before[k].items():
                if not same_now(v, x, a):
                    modified.add((k, a))
            for a in now:
                if a not in before[k]:
                    modified.add((k, a))
        for t, s0 in zip(tw, tws):
            for a in rt.attrs_of(t):
                if a not in s0 or not same_now(s0[a], t, a):
                    # a twin belongs to a neighbour; what is proved for the edges of this face holds for it
                    modified.add(("twin", a))
        e.prove("frame collected", True)

    en.explore(scen)
    T.SQRT_RULES.clear()
    return en


def second_run(side, grad, modified):
    en = E.Engine(f"Polyhedron.get_gravity after any earlier computation ({F.SIDE[side]}{', gradient' if grad else ''})",
                  fn=ANCH + "Polyhedron.get_gravity", samples=F.face_samples(side, 24), max_paths=60)
    en.case_of = None

    def scen():
        S = FaceSpec(side)
        e = S.facts()
        res = []
        for dirty in (False, True):
            w, poly, p, f, tw, pts, objs = build_body(S)
            if dirty:
                for k, a in sorted(modified):
                    for x in ([objs[k]] if k in objs else tw):
                        object.__setattr__(x, a, Poison(("obligation", NEG, f"{k}.{a} holds what an earlier computation left there")))
                e.prove("frame: what an earlier computation may leave behind is arbitrary", True)
            r = p.get_gravity(arr(S.o), mk(T.var("rho")), mk(T.var("Gc")), grad)
            res.append((list(rt.rnp.asarray(r[0], dtype=object).flat), list(rt.rnp.asarray(r[1], dtype=object).flat)))
        for a, b in zip(res[0], res[1]):
            e.prove(NEG, len(a) == len(b))
            for x, y in zip(a, b):
                e.eq(NEG, term(x), term(y))

    en.explore(scen)
    T.SQRT_RULES.clear()
    return en


@scenario("C04", weight=9)
def history(pid, tier):
    modified = set()
    ens = []
    for side in (1, 0, -1):
        for grad in (True, False):
            for fail in (None, "before", "after", 0, 1, 2):
                if fail is not None and side == -1:
                    continue
                ens.append(first_run(side, grad, fail, modified))
    if any(e.unsup for e in ens):
        return Result(ens, [ANCH + "Polyhedron.get_gravity"])
    for side in (1, 0, -1):
        for grad in (True, False):
            ens.append(second_run(side, grad, modified))
    return Result(ens, [ANCH + x for x in ("Polyhedron.get_gravity", "Polyhedron.reset", "Face.reset", "Edge.reset")] + F.FACE_FN,
                  ["state that an earlier computation leaves in a body: " + ", ".join(sorted({a for _, a in modified})) + " (set to arbitrary values before the second computation)"])


# ------------------------------------------------------------------ C05
def make_poly_stub(poly, name, args, deps=()):
    class Body(poly.Polyhedron):
        def __init__(self):
            self.g = V("g_" + name, deps)
            # the tensor of a body is symmetric (proved of Polyhedron.get_gravity)
            t = [V(f"t{i}_" + name, deps) for i in range(3)]
            self.t = [[t[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)]
            self.n = 0

        def get_gravity(self, coord, density, Gc, gradient=False):
            e = E.eng()
            o, rho, gc, grad = args
            unchanged(e, "each body gets the station's point", list(coord), arr(o))
            e.eq("each body gets the density", term(density), rho)
            e.eq("each body gets the gravitational constant", term(Gc), gc)
            e.prove("each body gets the gradient flag", bool(gradient) == grad)
            self.n += 1
            t = sarr([[mk(x) for x in r] for r in self.t]) if gradient else stubs.NP.zeros((3, 3))
            return (arr(self.g), t)

        __repr__ = object.__repr__

    return Body()


class LikeABody:
    """not a body, although it has a body's methods"""

    def get_gravity(self, *a, **k):
        return (stubs.NP.zeros(3), stubs.NP.zeros((3, 3)))

    def reset(self):
        pass


@scenario("C05", "C14", weight=2)
def station(pid, tier):
    o, rho, gc = V("o"), T.var("rho"), T.var("Gc")
    ens = []

    def fresh(grad, deps=("bodies",)):
        w = world()
        poly = w.load("geec.polyhedron")
        st = w.load("geec.station")
        args = (o, rho, gc, grad)
        ps = [make_poly_stub(poly, "p0", args), make_poly_stub(poly, "pk", args, deps), make_poly_stub(poly, "p1", args)]
        return w, poly, st, ps

    def held(st, e):
        s = st.Station(arr(o))
        e.prove("a new station starts from zero", all(term(x) == T.ZERO for x in list(s.G) + list(s.T.flat)) and s.G.shape == (3,) and s.T.shape == (3, 3))
        s.G = arr(V("G"))
        s.T = sarr([[mk(x) for x in V(f"T{i}")] for i in range(3)])
        return s

    def check(e, s, terms_g, terms_t, grad):
        G = components(e, "G", s.G, (3,))
        Tn = components(e, "T", s.T, (3, 3))
        for i in range(3):
            e.eq("a station adds the sum of the bodies' gravity to what it holds", G[i], T.add(V("G")[i], terms_g(i)))
            for j in range(3):
                e.eq("a station adds the sum of the bodies' tensors to what it holds", Tn[i, j],
                     T.add(V(f"T{i}")[j], terms_t(i, j) if grad else T.ZERO))
        unchanged(e, "the station's point is not modified", s.coord, arr(o))

    for grad in (False, True):
        en = E.Engine(f"Station.compute_gravity (any list{', gradient' if grad else ''})", fn="geec/station.py:Station.compute_gravity")

        def scen(grad=grad):
            w, poly, st, (p0, pk, p1) = fresh(grad)
            e = E.eng()
            seq = Seq("bodies")
            s = held(st, e)
            lst = [p0, Block(seq, pk), p1]
            s.compute_gravity(lst, mk(rho), mk(gc), grad)
            check(e, s, lambda i: T.add(T.add(p0.g[i], p1.g[i]), T.tsum(seq, pk.g[i])),
                  lambda i, j: T.add(T.add(p0.t[i][j], p1.t[i][j]), T.tsum(seq, pk.t[i][j])), grad)
            e.prove("the caller's list is not modified", len(lst) == 3 and lst[0] is p0 and lst[2] is p1)

        en.explore(scen)
        ens.append(en)
        for nm, mk_list in (("one body", lambda a, b: a), ("a list of one", lambda a, b: [a]), ("a repeated body", lambda a, b: [a, a]),
                            ("bodies in any order", lambda a, b: [b, a, b]), ("an empty list", lambda a, b: [])):
            en = E.Engine(f"Station.compute_gravity ({nm}{', gradient' if grad else ''})", fn="geec/station.py:Station.compute_gravity")

            def scen2(grad=grad, mk_list=mk_list):
                w, poly, st, (p0, pk, p1) = fresh(grad)
                e = E.eng()
                s = held(st, e)
                l = mk_list(p0, p1)
                s.compute_gravity(l, mk(rho), mk(gc), grad)
                ls = l if isinstance(l, list) else [l]

                def tot(f):
                    r = T.ZERO
                    for b in ls:
                        r = T.add(r, f(b))
                    return r

                check(e, s, lambda i: tot(lambda b: b.g[i]), lambda i, j: tot(lambda b: b.t[i][j]), grad)

            en.explore(scen2)
            ens.append(en)
    if pid == "C05":
        for nm, mk_list in (("last", lambda a, k, b: [a, k, "x"]), ("first", lambda a, k, b: [7, a, k]), ("middle", lambda a, k, b: [a, None, b]),
                            ("only", lambda a, k, b: ["x"]), ("not a list", lambda a, k, b: 3.5), ("like a body", lambda a, k, b: [a, LikeABody()]),
                            ("like a list", lambda a, k, b: [a, [k]]), ("a class", lambda a, k, b: [type(a), b]), ("in the unbounded part", None)):
            en = E.Engine(f"Station.compute_gravity (an element is not a body: {nm})", fn="geec/station.py:Station.compute_gravity")

            def scen3(mk_list=mk_list):
                w, poly, st, (p0, pk, p1) = fresh(True)
                e = E.eng()
                seq = Seq("bodies")
                s = held(st, e)
                if mk_list is None:
                    e.assume(cmp(">", seq.count))
                    l = [p0, Block(seq, "x"), p1]
                else:
                    l = mk_list(p0, Block(seq, pk), p1)
                try:
                    s.compute_gravity(l, mk(rho), mk(gc), True)
                    e.fail("something that is not a body is refused with TypeError", "no exception")
                except TypeError:
                    e.prove("something that is not a body is refused with TypeError", True)
                except Exception as ex:
                    e.fail("something that is not a body is refused with TypeError", f"raised {type(ex).__name__}")
                unchanged(e, "a refused call leaves the station unchanged", list(s.G) + list(s.T.flat),
                          [mk(x) for x in V("G")] + [mk(x) for i in range(3) for x in V(f"T{i}")])

            en.explore(scen3)
            ens.append(en)
    return Result(ens, ["geec/station.py:Station.__init__", "geec/station.py:Station.compute_gravity"])
