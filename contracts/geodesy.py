"""Contracts of coordinates: normalisation (C09), conversions (C10), consistency of the CRS (C11)."""
from __future__ import annotations

import pathlib

from .base import *  # noqa: F401,F403
from .base import T, E, V, arr, cmp, cand, cor, q, num, rt, mk, term, stubs, loader
from . import geostub as G
from .body import statics

FN = "geec/crs.py:"
DS = "geec/dataset.py:Dataset."
ROW = ("rows",)
KEY = (("rows", 0),)
OPS = ("ecef", "wgs84", "enu")
ORG = ["lonO", "latO", "altO"]  # origin of the data set's own frame
REQ = ["lonR", "latR", "altR"]  # origin asked for
ELLS = ("wgs84", "airy", "axes")
PRE = [("cart", None), ("ecef", None)] + [(r, x) for r in ("ellps", "enu") for x in ELLS]
VDATUMS = ("ellps", "egm84", "egm96", "egm2008")


def geo_world():
    w = world(G.geo_ext(pathlib=pathlib))
    try:
        for m in ("geec.crs", "geec.dataset", "geec.mass", "geec.observer"):
            w.load(m)
    except E.Unsupported:
        raise
    return w


def samples(n, lons=None):
    import random

    out = []
    special = [180, -180, 0, 360, 359.5, 181, 179.25, 270, -179, 90, -90, 45.5]
    for i in range(n):
        r = random.Random(i)
        lon = special[i] if i < len(special) else r.uniform(-180, 360)
        lat, alt = r.uniform(-88, 88), r.uniform(-500, 8000)
        if i == 3:
            lat = 90.0
        if i % 7 == 5:
            lat = r.choice([89.9, -89.97, 89.6, -89.55, 89.999, -90.0, 0.0])
        v = {("px", KEY): Fraction(lon), ("py", KEY): Fraction(lat), ("pz", KEY): Fraction(alt),
             "lonO": Fraction(r.uniform(-180, 180)), "latO": Fraction(r.uniform(-85, 85)), "altO": Fraction(r.uniform(-430, 3000) if i % 4 else r.uniform(-430, 0)),
             "lonR": Fraction(r.uniform(-180, 180)), "latR": Fraction(r.uniform(-85, 85)), "altR": Fraction(r.uniform(-430, 3000)),
             "axA": Fraction(6390000 + i), "axB": Fraction(6340000 + 3 * i)}
        out.append(T.Env(v, salt=i))
    return out


def ecef_samples(n):
    out = []
    for s in samples(n):
        x = G._g2e(*(s.vals[(k, KEY)] + mpmath.mpf(0) for k in ("py", "px", "pz")), mpmath.mpf(6378137), mpmath.mpf("6356752.31424518"))
        for k, v in zip(("px", "py", "pz"), x):
            s.vals[(k, KEY)] = Fraction(float(v))
        out.append(s)
    return out


class Pre:
    """a data set in one of the possible coordinate systems, with a generic row"""

    def __init__(self, w, ref, ell, vdatum="ellps", seq=None, deps=ROW):
        c = w.mods["geec.crs"]
        e = E.eng()
        self.ref, self.ell, self.vd = ref, ell, vdatum
        self.seq = seq or Seq("rows")
        self.row = [T.var("p" + k, frozenset(deps)) for k in XYZ]
        self.coords = SymMat(self.seq, self.row)
        self.org = [T.var(x) for x in ORG]
        obj = None
        if ell == "axes":
            a, b = T.var("axA", pos=True), T.var("axB", pos=True)
            e.assume(cmp(">", T.add(a, b, -1)))
            e.assume(cmp(">", b))
            obj = c.Ellipsoid(semimajor_axis=mk(a), semiminor_axis=mk(b))
        elif ell is not None:
            obj = c.Ellipsoid(name=ell)
        self.ellobj = obj
        vd = c.VDatumEnum(vdatum)
        if ref == "ellps":
            self.crs = c.CRS(name=c.CRSEnum.ELLPS, ellps=obj, vdatum=vd)
        elif ref == "enu":
            enu = c.ENU(ellps=obj, longitude_origin=mk(self.org[0]), latitude_origin=mk(self.org[1]), altitude_origin=mk(self.org[2]))
            self.crs = c.CRS(name=c.CRSEnum.ENU, ellps=obj, enu=enu, vdatum=vd)
        else:
            self.crs = c.CRS(name=c.CRSEnum(ref), vdatum=vd)
        self.ds = w.mods["geec.dataset"].Dataset(coords=self.coords, crs=self.crs)
        self.axes = G.axes(obj)

    def place(self):
        return G.phys(self.ref, self.row, self.ellobj, self.org)


def name_of(crs):
    return str(getattr(crs.name, "value", crs.name))


def origin(enu):
    return [term(enu.longitude_origin), term(enu.latitude_origin), term(enu.altitude_origin)]


def row_of(pre, ds, e, what):
    """terms of the generic row of the data set; same number of points, in the same order"""
    m = ds.coords
    if isinstance(m, SymMatT):
        e.fail(what, "the coordinates are transposed")
        return None
    if not isinstance(m, SymMat):
        raise E.Unsupported(f"coordinates of type {type(m).__name__}")
    e.prove(what, m.seq == pre.seq and len(m.cols) == 3)
    if m.seq != pre.seq or len(m.cols) != 3:
        return None
    return list(m.cols)


def case_conv(pre_ref, ell, op, via, vd="ellps"):
    def f(env):
        if env is None:
            return None
        row = [num(T.var("p" + k, frozenset(ROW)), env) for k in XYZ]
        spec = ell if ell != "axes" else [num(T.var("axA", pos=True), env), num(T.var("axB", pos=True), env)]
        return {"ref": pre_ref, "ell": spec, "org": [num(T.var(x), env) for x in ORG],
                "coords": [row, [row[0] * 0.5, row[1] * 0.5, row[2]]],
                "chain": [[op, [num(T.var(x), env) for x in REQ]]], "via": via, "vdatum": vd}

    return f


def run_op(w, pre, op, via):
    args = tuple(mk(T.var(x)) for x in REQ) if op == "enu" else ()
    mass, obs = w.mods["geec.mass"], w.mods["geec.observer"]
    if via == "ds":
        getattr(pre.ds, "to_" + op)(*args)
        return pre.ds
    if via == "observer":
        o = obs.Observer(dataset=pre.ds)
        getattr(o, "to_" + op)(*args)
        return o.dataset
    m = mass.Mass(density=mk(T.var("rho")), gravity_constant=mk(T.var("Gc")), dataset=pre.ds)
    if via == "mass":
        getattr(m, "to_" + op)(*args)
    else:
        getattr(mass, "to_" + op)([Block(Seq("masses"), m)], *args)
    e = E.eng()
    e.prove("density and gravity constant are not changed", term(m.density) == T.var("rho") and term(m.gravity_constant) == T.var("Gc"))
    return m.dataset


def check_c10(e, w, pre, op, ds):
    what = "the number and order of the points are kept"
    r = row_of(pre, ds, e, what)
    if r is None:
        return
    crs = ds.crs
    nm = name_of(crs)
    if pre.ref == "cart" or pre.ref == op or (op == "wgs84" and pre.ref == "ellps" and pre.ell == "wgs84"):
        for i in range(3):
            e.eq("coordinates already in the requested system (or plain cartesian) are kept", r[i], pre.row[i])
        if pre.ref == "cart":
            return
    if nm == "enu" and crs.enu is None:
        e.fail("the position of every point is kept", "ENU coordinates without a frame")
        return
    after = G.phys(nm, r, crs.ellps, None if crs.enu is None else origin(crs.enu))
    before = pre.place()
    for i in range(3):
        e.eq("the position of every point is kept", after[i], before[i])


def same_ell(e, name, ell, ab):
    if ell is None:
        return e.fail(name, "no ellipsoid")
    a, b = G.axes(ell)
    e.eq(name, a, ab[0])
    e.eq(name, b, ab[1])


def check_c11(e, w, pre, op, ds):
    c = w.mods["geec.crs"]
    crs, nm = ds.crs, name_of(ds.crs)
    C = c.CRSEnum

    def sys_is(x):
        e.prove("the CRS names the system of the coordinates", crs.name == C(x))

    if pre.ref == "cart":
        return sys_is("cart")
    if op == "ecef":
        sys_is("ecef")
        e.prove("ECEF carries no ellipsoid", crs.ellps is None)
        e.prove("ECEF carries no ENU frame", crs.enu is None)
    elif op == "wgs84":
        sys_is("ellps")
        same_ell(e, "WGS84 carries the WGS84 ellipsoid", crs.ellps, G.WGS)
        if crs.ellps is not None:
            e.prove("WGS84 carries the WGS84 ellipsoid", bool(crs.ellps == c.Ellipsoid(name="wgs84")))
        e.prove("WGS84 carries no ENU frame", crs.enu is None)
    else:
        sys_is("enu")
        if crs.enu is None:
            e.fail("ENU carries a frame with the requested origin", "no frame")
            return
        want = pre.org if pre.ref == "enu" else [T.var(x) for x in REQ]
        for a, b in zip(origin(crs.enu), want):
            e.eq("ENU carries a frame with the requested origin", a, b)
        if crs.ellps is None or crs.enu.ellps is None:
            e.fail("the ellipsoid of the frame is the ellipsoid of the CRS", "missing")
            return
        e.prove("the ellipsoid of the frame is the ellipsoid of the CRS", bool(crs.enu.ellps == crs.ellps))
        same_ell(e, "the ellipsoid of the frame is the ellipsoid of the CRS", crs.enu.ellps, G.axes(crs.ellps))
        if pre.ref == "enu":
            same_ell(e, "data already in an ENU frame keep it", crs.ellps, pre.axes)


CONV_FN = [FN + x for x in ("ellps_to_ecef", "enu_to_ecef", "ecef_to_wgs84", "ellps_to_wgs84", "enu_to_wgs84", "ecef_to_enu",
                            "wgs84_to_enu", "CRS.__post_init__", "Ellipsoid.__init__")] + \
    [DS + x for x in ("to_ecef", "to_wgs84", "to_enu")] + \
    ["geec/mass.py:" + x for x in ("Mass.to_ecef", "Mass.to_wgs84", "Mass.to_enu", "to_ecef", "to_wgs84", "to_enu")] + \
    ["geec/observer.py:Observer." + x for x in ("to_ecef", "to_wgs84", "to_enu")]


@scenario("C10", "C11", weight=5)
def conversions(pid, tier):
    ens = []
    for ref, ell in PRE:
        for op in OPS:
            for via in ("ds", "mass", "observer", "masses"):
                if via != "ds" and ell == "axes":
                    continue
                vd = VDATUMS[len(ens) % 4]
                en = E.Engine(f"{ {'ds': 'Dataset', 'mass': 'Mass', 'observer': 'Observer', 'masses': 'mass'}[via]}.to_{op} (from {ref}{' on ' + ell if ell else ''})",
                              fn=DS + "to_" + op, samples=(ecef_samples if ref == "ecef" else samples)(8), max_paths=60)
                en.case_of = case_conv(ref, ell, op, via)

                def scen(ref=ref, ell=ell, op=op, via=via, vd=vd):
                    w = geo_world()
                    e = E.eng()
                    pre = Pre(w, ref, ell, vd)
                    if ref == "ellps":
                        for c in (cmp(">=", T.add(q(90), pre.row[1])), cmp(">=", T.add(q(90), pre.row[1], -1))):
                            e.assume(c)
                    st = statics(w)
                    try:
                        ds = run_op(w, pre, op, via)
                    except Exception as ex:
                        refusal(ex)
                        e.fail("the conversion succeeds", f"raised {type(ex).__name__}: {ex}")
                        return
                    if statics(w) != st:
                        raise E.Unsupported("a conversion changes module or class level state")
                    wg = w.mods["geec.crs"]._WGS84_ if hasattr(w.mods["geec.crs"], "_WGS84_") else None
                    if wg is not None:
                        e.prove("frame: the shared WGS84 ellipsoid is not modified",
                                term(wg.semimajor_axis) == G.WGS[0] and term(wg.semiminor_axis) == G.WGS[1] and wg.name == "wgs84")
                    (check_c10 if pid == "C10" else check_c11)(e, w, pre, op, ds)

                en.explore(scen)
                ens.append(en)
    return Result(ens, CONV_FN, ["a chain of conversions is a sequence of single steps: every state after a step is again one of the states the contracts start from (C11)"] + G.ASM)


@scenario("C11", weight=1)
def refuse(pid, tier):
    ens = []
    kinds = ["wgs84", "airy", "axes", "axes2", "grs80"]
    for a in kinds:
        for b in kinds + ["none"]:
            en = E.Engine(f"CRS.__post_init__ (frame on {a}, CRS on {b})", fn=FN + "CRS.__post_init__", samples=samples(6), max_paths=30)
            if a in ("wgs84", "airy", "grs80") and b in ("wgs84", "airy", "grs80"):
                en.case_of = lambda env, a=a, b=b: {"refuse": [a, b]}
            elif b == "none":
                en.case_of = lambda env, a=a: {"refuse": [a if not a.startswith("axes") else [6390000.0, 6340000.0], "none"]}

            def scen(a=a, b=b):
                w = geo_world()
                e = E.eng()
                c = w.mods["geec.crs"]

                def mkell(k):
                    if k == "none":
                        return None
                    if not k.startswith("axes"):
                        return c.Ellipsoid(name=k)
                    n = k[4:]
                    x, y = T.var("axA", pos=True), T.var("axB" + n, pos=True)
                    e.assume(cmp(">", T.add(x, y, -1)))
                    e.assume(cmp(">", y))
                    return c.Ellipsoid(semimajor_axis=mk(x), semiminor_axis=mk(y))

                ea, eb = mkell(a), mkell(b)
                if a != b and a.startswith("axes") and b.startswith("axes"):
                    e.assume(cmp("!=", T.add(T.var("axB", pos=True), T.var("axB2", pos=True), -1)))
                enu = c.ENU(ellps=ea, longitude_origin=mk(T.var("lonO")), latitude_origin=mk(T.var("latO")), altitude_origin=mk(T.var("altO")))
                try:
                    crs = c.CRS(name=c.CRSEnum.ENU, ellps=eb, enu=enu)
                    ok = True
                except ValueError:
                    ok = False
                except (AttributeError, TypeError, KeyError):  # a CRS without ellipsoid: refused in some way
                    if b != "none":
                        raise
                    ok = False
                if a == b:
                    e.prove("a frame on the CRS's own ellipsoid is accepted", ok)
                else:
                    e.prove("a frame on another ellipsoid is refused", not ok)

            en.explore(scen)
            ens.append(en)
    return Result(ens, [FN + "CRS.__post_init__"])


# ------------------------------------------------------------------ C09
def case_norm(ref, ell, vd, order):
    def f(env):
        if env is None:
            return None
        row = [num(T.var("p" + k, frozenset(ROW)), env) for k in XYZ]
        spec = ell if ell != "axes" else [num(T.var("axA", pos=True), env), num(T.var("axB", pos=True), env)]
        return {"ref": ref, "coords": [row, [10.0, 20.0, 30.0]], "ell": spec, "org": [num(T.var(x), env) for x in ORG],
                "vdatum": vd, "order": order}

    return f


def holders(w, pre, via):
    """(object to call, how to get the data set back)"""
    mass, obs = w.mods["geec.mass"], w.mods["geec.observer"]
    if via == "ds":
        return pre.ds, lambda: pre.ds
    if via == "observer":
        o = obs.Observer(dataset=pre.ds)
        return o, lambda: o.dataset
    m = mass.Mass(density=mk(T.var("rho")), gravity_constant=mk(T.var("Gc")), dataset=pre.ds)
    if via == "mass":
        return m, lambda: m.dataset

    class All:
        def to_lon180(self):
            mass.to_lon180([Block(Seq("masses"), m)])

        def to_ellipsoid_height(self):
            mass.to_ellipsoid_height([Block(Seq("masses"), m)])

    return All(), lambda: m.dataset


def inside(e, t, lo, hi):
    e.assume(cmp(">=", T.add(t, q(lo), -1)))
    e.assume(cmp(">=", T.add(q(hi), t, -1)))


NORM_FN = [FN + "wrap180", FN + "ellipsoid_height", FN + "ellpsgeoid", DS + "to_lon180", DS + "to_ellipsoid_height"] + \
    ["geec/mass.py:" + x for x in ("Mass.to_lon180", "Mass.to_ellipsoid_height", "to_lon180", "to_ellipsoid_height")] + \
    ["geec/observer.py:Observer.to_lon180", "geec/observer.py:Observer.to_ellipsoid_height"]


@scenario("C09", weight=3)
def longitudes(pid, tier):
    ens = []
    for ref, ell in PRE:
        for via in ("ds", "mass", "observer", "masses"):
            en = E.Engine(f"to_lon180 via {via} ({ref}{' on ' + ell if ell else ''})", fn=FN + "wrap180, " + DS + "to_lon180",
                          samples=samples(40), max_paths=60)
            en.case_of = case_norm(ref, ell, "ellps", "mass" if via == "mass" else "lon")

            def scen(ref=ref, ell=ell, via=via):
                w = geo_world()
                e = E.eng()
                pre = Pre(w, ref, ell, VDATUMS[len(ens) % 4])
                lon = pre.row[0]
                if ref == "ellps":
                    inside(e, lon, -180, 360)
                obj, get = holders(w, pre, via)
                obj.to_lon180()
                ds = get()
                check_meta(e, pre, ds, ds.crs)
                r = row_of(pre, ds, e, "the number and order of the points are kept")
                if r is None:
                    return
                if ref != "ellps":
                    for i in range(3):
                        e.eq("coordinates that are not longitudes are not touched", r[i], pre.row[i])
                    return
                for i in (1, 2):
                    e.eq("latitudes and heights are not touched", r[i], pre.row[i])
                nm = "the longitude is normalised to [-180, 180]"
                e.prove(nm, cmp(">=", T.add(r[0], q(180))))
                e.prove(nm, cmp(">=", T.add(q(180), r[0], -1)))
                d = T.add(r[0], lon, -1)
                e.prove("the normalised longitude is the same longitude", cor([cmp("==", T.add(d, q(k))) for k in (0, 360, -360)]))

            en.explore(scen)
            ens.append(en)
    return Result(ens, NORM_FN, G.ASM)


def check_meta(e, pre, ds, crs):
    e.prove("the coordinate system is not changed", name_of(crs) == pre.ref and (crs.enu is None) == (pre.ref != "enu"))
    if pre.ellobj is not None:
        same_ell(e, "the coordinate system is not changed", crs.ellps, pre.axes)
    if pre.ref == "enu" and crs.enu is not None:
        for a, b in zip(origin(crs.enu), pre.org):
            e.eq("the coordinate system is not changed", a, b)


@scenario("C09", weight=4)
def heights(pid, tier):
    ens = []
    for ref, ell in PRE:
        for vd in VDATUMS:
            for via in ("ds", "mass", "observer", "masses"):
                if via != "ds" and ell in ("axes", "airy"):
                    continue
                en = E.Engine(f"to_ellipsoid_height via {via} ({ref}{' on ' + ell if ell else ''}, heights above {vd})",
                              fn=FN + "ellipsoid_height, " + DS + "to_ellipsoid_height", samples=samples(16), max_paths=60)
                en.case_of = case_norm(ref, ell, vd, "mass" if via == "mass" else "hgt")

                def scen(ref=ref, ell=ell, via=via, vd=vd):
                    w = geo_world()
                    e = E.eng()
                    pre = Pre(w, ref, ell, vd)
                    if ref == "ellps":
                        inside(e, pre.row[0], -180, 180)
                        inside(e, pre.row[1], -90, 90)
                        e.assume(cmp(">", pre.seq.count), "a data set has points; the geoid grids refuse an empty list")
                    obj, get = holders(w, pre, via)
                    for again in (False, True):
                        obj.to_ellipsoid_height()
                        ds = get()
                        check_meta(e, pre, ds, ds.crs)
                        r = row_of(pre, ds, e, "the number and order of the points are kept")
                        if r is None:
                            return
                        if ref != "ellps":
                            for i in range(3):
                                e.eq("coordinates without geographic heights are not touched", r[i], pre.row[i])
                            continue
                        for i in (0, 1):
                            e.eq("horizontal coordinates are not touched", r[i], pre.row[i])
                        geo = T.ZERO if vd == "ellps" else T.fn("geoid." + vd, pre.row[1], pre.row[0])
                        e.eq("repeating the conversion changes nothing" if again else
                             "the geoid height of the datum at the point's own position is added", r[2], T.add(pre.row[2], geo))
                        e.prove("the heights are marked as ellipsoidal", ds.crs.vdatum == w.mods["geec.crs"].VDatumEnum("ellps"))

                en.explore(scen)
                ens.append(en)
    return Result(ens, NORM_FN, G.ASM)
