"""Concrete replays for coordinates, configuration, run and output: C09-C16."""
import contextlib
import math
import os
import shutil
import tempfile

from common import np, fail, load_crs, load_cli, ws, err, FakeGeoid, diam, REPO, CUBE, rot, surf_dist


def N(tier, q, t):
    return q if tier == "quick" else t


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="geec_replay_")
    cwd = os.getcwd()
    old = dict(os.environ)
    os.environ.pop("GEECDIR", None)
    os.environ["HOME"] = os.path.join(d, "home")
    os.environ.pop("XDG_CONFIG_HOME", None)
    os.makedirs(os.path.join(d, "home", ".config", "geec"))
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        for k in set(os.environ) - set(old):
            del os.environ[k]
        os.environ.update(old)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------ independent geodesy
ELL = {"wgs84": (6378137.0, 6356752.31424518)}


def axes(ell):
    if ell is None:
        return ELL["wgs84"]
    return float(ell.semimajor_axis), float(ell.semiminor_axis)


def geo2ecef(lon, lat, h, a, b):
    la, lo = math.radians(lat), math.radians(lon)
    n = a * a / math.hypot(a * math.cos(la), b * math.sin(la))
    return np.array([(n + h) * math.cos(la) * math.cos(lo), (n + h) * math.cos(la) * math.sin(lo),
                     (n * (b / a) ** 2 + h) * math.sin(la)])


def enu_rot(lon0, lat0):
    la, lo = math.radians(lat0), math.radians(lon0)
    return np.array([[-math.sin(lo), math.cos(lo), 0],
                     [-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)],
                     [math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)]])


def phys(name, row, ell, enu):
    """ECEF position of one point of a data set (name: cart/ecef/ellps/enu)"""
    name = str(getattr(name, "value", name))
    if name in ("cart", "ecef"):
        return np.array(row, float)
    a, b = axes(ell)
    if name == "ellps":
        return geo2ecef(row[0], row[1], row[2], a, b)
    lon0, lat0, h0 = enu
    a, b = axes(ell)
    return geo2ecef(lon0, lat0, h0, a, b) + enu_rot(lon0, lat0).T @ np.array(row, float)


def ell_obj(geec, spec):
    if spec is None:
        return geec.crs.Ellipsoid()
    if isinstance(spec, str):
        return geec.crs.Ellipsoid(name=spec)
    return geec.crs.Ellipsoid(semimajor_axis=spec[0], semiminor_axis=spec[1])


def mk_ds(geec, c):
    ref = c["ref"]
    C = geec.crs.CRSEnum
    vd = geec.crs.VDatumEnum(c.get("vdatum", "ellps"))
    coords = np.array(c["coords"], float).reshape(-1, 3)
    if ref == "ellps":
        crs = geec.crs.CRS(name=C.ELLPS, ellps=ell_obj(geec, c["ell"]), vdatum=vd)
    elif ref == "enu":
        e = ell_obj(geec, c["ell"])
        lon0, lat0, h0 = c["org"]
        crs = geec.crs.CRS(name=C.ENU, ellps=e, vdatum=vd, enu=geec.crs.ENU(
            ellps=e, longitude_origin=lon0, latitude_origin=lat0, altitude_origin=h0))
    elif ref == "ecef":
        crs = geec.crs.CRS(name=C.ECEF, vdatum=vd)
    else:
        crs = geec.crs.CRS(name=C.CART, vdatum=vd)
    return geec.dataset.Dataset(coords=coords, crs=crs)


ELLS = ["wgs84", "airy", "grs80", "clarke1866", "australian", "hayford", [6390000.0, 6340000.0], None, "krassovsky1940", "bessel"]


def gen_coords(rng, ref, n, org=(0, 0, 0)):
    if ref == "ellps":
        lon = rng.uniform(-180, 360, n)
        lat = rng.uniform(-89, 89, n)
        h = rng.uniform(-1e3, 9e3, n)
        return np.stack([lon, lat, h], 1)
    if ref == "enu":
        return rng.uniform(-5e3, 5e3, (n, 3))
    if ref == "ecef":
        u = rng.normal(size=(n, 3))
        return u / np.linalg.norm(u, axis=1)[:, None] * rng.uniform(6.3e6, 6.4e6, (n, 1))
    return rng.uniform(-1e3, 1e3, (n, 3))


# ------------------------------------------------------------------ C09
def c09_gen(rng, tier):
    special = [0, 180, -180, 360, 359.999, 180.0000001, 179.9999999, -0.0, 270, 90, 181, -179.5, 200.25, 1e-12]
    for i in range(N(tier, 120, 600)):
        ref = ["ellps", "ellps", "enu", "ecef", "cart"][i % 5]
        n = [1, 2, 7, 23, 1, 3][i % 6]
        if i in (35, 36, 65, 67, 68):
            n = 0 if i % 2 and ref != "ellps" else 1500
        co = gen_coords(rng, ref, n)
        if ref == "ellps":
            for k in range(n):
                if rng.random() < 0.5:
                    co[k, 0] = special[int(rng.integers(len(special)))]
                if rng.random() < 0.3:
                    co[k, 1] = [90, -90, 89.9, -89.75, 89.999, 0, -0.0, 89.5, -1e-9][int(rng.integers(9))]
                if rng.random() < 0.2:
                    co[k, 2] = [0, -11000, 1e5, 1e-6, 8848][int(rng.integers(5))]
            if i % 11 == 5 and n > 1:  # points close together
                co[:, :2] = co[0, :2] * [1, 0.9] + rng.uniform(-4e-4, 4e-4, (n, 2))
            if i % 11 == 7 and n > 2:  # points of one meridian, of one parallel
                co[1:, i % 2] = co[0, i % 2]
            if ["lon", "hgt", "both", "hb", "mass"][(i // 3) % 5] in ("hgt", "hb"):
                co[:, 0] = (co[:, 0] + 180) % 360 - 180  # height conversion expects normalised longitudes
        else:
            co[:, 0] = rng.uniform(-500, 800, n)
        yield {"ref": ref, "coords": co.tolist(), "ell": ELLS[int(rng.integers(len(ELLS)))],
               "org": [float(rng.uniform(-180, 180)), float(rng.uniform(-80, 80)), 100.0],
               "vdatum": ["ellps", "egm84", "egm96", "egm2008"][(i // 5) % 4],
               "order": ["lon", "hgt", "both", "hb", "mass"][(i // 3) % 5]}


def geoid_h(vd, lat, lon):
    if vd == "ellps":
        return 0.0
    if vd == "egm84":
        import common
        import pygeodesy as pgeo

        g = getattr(geoid_h, "g", None)
        if g is None:
            g = geoid_h.g = common._REAL_GK(os.path.join(REPO, "geec/data/geoids/egm84-15.pgm"))
        return float(g(pgeo.ellipsoidalKarney.LatLon(lat, lon)))
    return FakeGeoid("egm2008" if vd == "egm2008" else "egm96").h(lat, lon)


def c09_run(case):
    geec = load_crs()
    ds = mk_ds(geec, case)
    c0 = np.array(case["coords"], float)
    name0 = ds.crs.name
    o = case["order"]
    obj = ds
    if o == "mass":
        obj = geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=ds)

    def same(a, b, what):
        if a.shape != b.shape or not np.array_equal(a, b):
            fail(f"{what}: {b.tolist()} -> {a.tolist()}")

    def lon():
        before = np.array(ds.coords, float)
        obj.to_lon180()
        after = np.asarray(ds.coords, float)
        if case["ref"] != "ellps":
            same(after, before, f"longitude normalisation touched {case['ref']} coordinates")
            return
        same(after[:, 1:], before[:, 1:], "longitude normalisation touched latitude or height")
        if after.shape != before.shape:
            fail("number of points changed")
        for a, b in zip(after[:, 0], before[:, 0]):
            if not (-180 <= a <= 180):
                fail(f"longitude {b} normalised to {a}, outside [-180,180]")
            d = (a - b) / 360.0
            if abs(d - round(d)) > 1e-13:
                fail(f"longitude {b} normalised to {a}, not the same longitude")
            if -180 <= b < 180 and abs(a - b) > 1e-11 and abs(b) != 180:
                fail(f"longitude {b} in range changed to {a}")

    def hgt():
        before = np.array(ds.coords, float)
        vd = str(ds.crs.vdatum.value)
        obj.to_ellipsoid_height()
        after = np.asarray(ds.coords, float)
        if case["ref"] != "ellps":
            same(after, before, f"height conversion touched {case['ref']} coordinates")
            return
        same(after[:, :2], before[:, :2], "height conversion touched horizontal coordinates")
        for a, b in zip(after, before):
            e = b[2] + geoid_h(vd, b[1], b[0])
            if abs(a[2] - e) > 1e-6 * (1 + abs(e)) * 1e-2:
                fail(f"height of {b.tolist()} ({vd}) converted to {a[2]}, expected {e}")
        if ds.crs.vdatum != geec.crs.VDatumEnum.ELLPS:
            fail("heights are not marked as ellipsoidal after conversion")
        again = np.array(ds.coords, float)
        obj.to_ellipsoid_height()
        same(np.asarray(ds.coords, float), again, "repeating the height conversion changed coordinates")

    {"lon": lambda: lon(), "hgt": lambda: hgt(), "both": lambda: (lon(), hgt()),
     "hb": lambda: (hgt(), lon()), "mass": lambda: (lon(), hgt())}[o]()
    if ds.crs.name != name0:
        fail("normalisation changed the coordinate system")


# ------------------------------------------------------------------ C10 / C11
def conv_gen(rng, tier):
    refs = ["ellps", "enu", "ecef", "cart"]
    ops = ["ecef", "wgs84", "enu"]
    i = 0
    # every source system, every target, every ellipsoid
    for ref in refs:
        for op in ops:
            for ell in ELLS:
                i += 1
                yield conv_case(rng, ref, ell, [op], [1, 2, 5, 3][i % 4], i)
    for ref in refs:
        for a in ops:
            for b in ops:
                i += 1
                yield conv_case(rng, ref, ELLS[i % len(ELLS)], [a, b], [1, 3, 4, 2][i % 4], i)
    for ref in refs:
        for op in ops:
            i += 1
            yield conv_case(rng, ref, ELLS[i % len(ELLS)], [op], [0, 1300][i % 2], i)
            yield conv_case(rng, ref, ELLS[i % len(ELLS)], [op, ops[i % 3]], [1300, 0][i % 2], i + 1)
    for _ in range(N(tier, 150, 900)):
        i += 1
        k = int(rng.integers(1, 7))
        yield conv_case(rng, refs[i % 4], ELLS[i % len(ELLS)], [ops[int(x)] for x in rng.integers(0, 3, k)],
                        [1, 2, 3, 8][int(rng.integers(4))], i)


def conv_case(rng, ref, ell, ops, n, i):
    org = [float(rng.uniform(-180, 180)), float(rng.uniform(-85, 85)), float(rng.uniform(-100, 3000))]
    chain = []
    for op in ops:
        o = [float(rng.uniform(-180, 180)), float(rng.uniform(-85, 85)), float(rng.uniform(-100, 3000))]
        chain.append([op, o])
    co = gen_coords(rng, ref, n)
    return {"ref": ref, "ell": ell, "org": org, "coords": co.tolist(), "chain": chain,
            "via": ["ds", "mass", "observer", "masses"][i % 4], "vdatum": "ellps"}


def apply_conv(geec, case, check):
    ds = mk_ds(geec, case)
    via = case["via"]
    obj = ds
    if via == "mass":
        obj = geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=ds)
    elif via == "observer":
        obj = geec.observer.Observer(dataset=ds)
    for op, org in case["chain"]:
        before = (np.array(ds.coords, float), ds.crs.name, ds.crs.ellps,
                  None if ds.crs.enu is None else (ds.crs.enu.longitude_origin, ds.crs.enu.latitude_origin, ds.crs.enu.altitude_origin))
        args = tuple(org) if op == "enu" else ()
        if via == "masses":
            m = geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=ds)
            getattr(geec.mass, "to_" + op)([m], *args)
        else:
            getattr(obj, "to_" + op)(*args)
        check(geec, ds, before, op, org)


def c10_check(geec, ds, before, op, org):
    co, name, ell, enu = before
    after = np.asarray(ds.coords, float)
    if after.shape != co.shape:
        fail(f"to_{op} changed the shape {co.shape} -> {after.shape}")
    n = str(name.value)
    enu2 = None if ds.crs.enu is None else (ds.crs.enu.longitude_origin, ds.crs.enu.latitude_origin, ds.crs.enu.altitude_origin)
    if n == "cart" or n == op or (op == "wgs84" and n == "ellps" and axes(ell) == axes(geec.crs.Ellipsoid())):
        if n != "ellps" or True:
            if err(after, co) > 1e-7:
                fail(f"to_{op} changed {n} coordinates: {co.tolist()} -> {after.tolist()}")
        return
    for a, b in zip(after, co):
        p = phys(name, b, ell, enu)
        q = phys(ds.crs.name, a, ds.crs.ellps, enu2)
        lim = 2e-6 + 1e-8 * 0
        if not np.linalg.norm(p - q) < max(lim, 1e-9 * np.linalg.norm(p) / 6.4e6):
            fail(f"to_{op}: point {b.tolist()} ({n}) moved from {p.tolist()} to {q.tolist()} [m, ECEF]")


def c11_check(geec, ds, before, op, org):
    co, name, ell, enu = before
    C = geec.crs.CRSEnum
    crs = ds.crs
    if name == C.CART:
        if crs.name != C.CART:
            fail(f"to_{op} turned cartesian data into {crs.name}")
        return
    if op == "ecef":
        if crs.name != C.ECEF or crs.ellps is not None or crs.enu is not None:
            fail(f"after to_ecef from {name}: {crs}")
    elif op == "wgs84":
        if crs.name != C.ELLPS or crs.ellps is None or axes(crs.ellps) != axes(geec.crs.Ellipsoid()) or crs.ellps != geec.crs.Ellipsoid(name="wgs84") or crs.enu is not None:
            fail(f"after to_wgs84 from {name}: {crs}")
    else:
        if crs.name != C.ENU or crs.enu is None or crs.ellps is None:
            fail(f"after to_enu from {name}: {crs}")
        if crs.enu.ellps != crs.ellps:
            fail(f"after to_enu from {name}: the frame's ellipsoid differs from the CRS's: {crs}")
        if name == C.ENU:
            got = (crs.enu.longitude_origin, crs.enu.latitude_origin, crs.enu.altitude_origin)
            if got != enu or crs.ellps != ell:
                fail(f"to_enu on ENU data changed the frame: {enu} -> {got}")
        else:
            got = [crs.enu.longitude_origin, crs.enu.latitude_origin, crs.enu.altitude_origin]
            if got != list(org):
                fail(f"after to_enu with origin {org}: frame origin {got}")
            if crs.ellps != geec.crs.Ellipsoid(name="wgs84"):
                fail(f"after to_enu from {name}: ellipsoid {crs.ellps}")


def c10_run(case):
    apply_conv(load_crs(), case, c10_check)


def c11_gen(rng, tier):
    yield from conv_gen(rng, tier)
    for i in range(len(ELLS)):
        for j in range(len(ELLS)):
            yield {"refuse": [ELLS[i], ELLS[j]]}
        yield {"refuse": [ELLS[i], "none"]}
    own = [[6390000.0, 6340000.0], [6390000.0, 6340000.5], [6390000.5, 6340000.0], [6378137.0, 6356752.31424518], [6371000.0, 6371000.0], "grs80", "wgs84"]
    for a in own:
        for b in own:
            yield {"refuse": [a, b]}


def c11_run(case):
    geec = load_crs()
    if "refuse" in case:
        a, b = (None if x == "none" else ell_obj(geec, x) for x in case["refuse"])
        enu = geec.crs.ENU(ellps=a, longitude_origin=1.0, latitude_origin=2.0, altitude_origin=3.0)
        try:
            geec.crs.CRS(name=geec.crs.CRSEnum.ENU, ellps=b, enu=enu)
            ok = True
        except ValueError:
            ok = False
        except Exception:
            if b is not None:
                raise
            ok = False
        if ok != (a == b):
            fail(f"ENU frame on {a} in a CRS on {b} was {'accepted' if ok else 'refused'}")
        return
    apply_conv(geec, case, c11_check)


# ------------------------------------------------------------------ C12
def c12_gen(rng, tier):
    refs = ["cart", "ellps", "enu", "ecef", None, "<absent>"]
    vds = ["ellps", "egm84", "egm96", "egm2008", None, "<absent>"]
    names = [None, "wgs84", "airy", "<absent>", "clarke1866", "mars"]
    axs = [(None, None), (7e6, 6e6), (7e6, None), (None, 6e6), (6378137.0, 6356752.0), (6371000.0, 6371000.0)]
    cases = []
    for r in refs:
        for v in vds:
            for nm in names:
                for ax in axs:
                    cases.append((r, v, nm, ax))
    for i, (r, v, nm, ax) in enumerate(cases):
        f = [str.lower, str.upper, str.title, str.swapcase, lambda s: s[0].upper() + s[1:]][i % 5]
        yield {"ref": f(r) if r not in (None, "<absent>") else r,
               "vdatum": f(v) if v not in (None, "<absent>") else v, "name": nm,
               "axes": ax, "org": [float(x) for x in rng.uniform(-80, 80, 3)], "bad": None}
    for i in range(30):
        bad = ["ref", "vdatum", "name"][i % 3]
        tok = ["egm", "xyz", "elps", "wgs", "enuu", "egm08x", "car", "WGS84X", "ellipsoid", "geo"][i // 3]
        yield {"ref": ["ellps", "enu"][i % 2], "vdatum": "ellps", "name": None, "axes": (None, None),
               "org": [1.0, 2.0, 3.0], "bad": [bad, tok]}
    for i, (k, tok) in enumerate([("ref", " cart"), ("ref", "enu "), ("ref", "ecef\n"), ("vdatum", " egm96"), ("vdatum", "egm84 "), ("vdatum", "egm-96"),
                                  ("ref", "ca-rt"), ("ref", "-enu"), ("ref", "ec_ef"), ("ref", "e n u"), ("ref", "ecef-"), ("ref", "ellps."), ("ref", "(enu)"),
                                  ("ref", "'cart'"), ("ref", "\tenu"), ("ref", "ELLPS0"), ("vdatum", "egm 96"), ("vdatum", "egm_84"), ("vdatum", "EGM-2008"),
                                  ("vdatum", "egm96."), ("vdatum", "egm96m"), ("vdatum", "0egm84"), ("name", "wgs-84"), ("name", "wgs 84"), ("name", "wgs_84"),
                                  ("name", "wgs84."), ("name", "clarke-1866"), ("name", "clarke 1866"), ("name", "wgs84\n"), ("name", "WGS84"), ("name", "Airy"), ("name", " wgs84"), ("name", "grs80 "), ("name", "GRS80"), ("ref", ""), ("vdatum", ""), ("ref", " "), ("vdatum", " "), ("name", " "), ("vdatum", "none"), ("ref", "none"), ("vdatum", "null"), ("vdatum", "0"), ("ref", "wgs84"), ("vdatum", "wgs84"), ("name", "ellps")]):
        for ref in ("ellps", "enu"):
            yield {"ref": ref, "vdatum": "ellps", "name": None, "axes": (None, None), "org": [1.0, 2.0, 3.0], "bad": [k, tok]}
    # all the documented ellipsoids
    import pymap3d as pm

    for nm in sorted(pm.Ellipsoid.models):
        yield {"ref": "ellps", "vdatum": None, "name": nm, "axes": (None, None), "org": [0.0, 0.0, 0.0], "bad": None}


def c12_cfg(case):
    d = {}
    for k in ("ref", "vdatum", "name"):
        if case[k] != "<absent>":
            d[k] = case[k]
    d.setdefault("name", None)
    a, b = case["axes"]
    d["semimajor_axis"], d["semiminor_axis"] = a, b
    d["longitude_origin"], d["latitude_origin"], d["altitude_origin"] = case["org"]
    if case["bad"]:
        d[case["bad"][0]] = case["bad"][1]
    return d


def c12_run(case):
    import confuse
    import pymap3d as pm

    geec = load_crs()
    cfg = confuse.RootView([confuse.ConfigSource.of({"crs": c12_cfg(case)})])
    if case["bad"]:
        try:
            r = geec.crs.get_crs(cfg["crs"])
        except confuse.ConfigError:
            return
        except Exception as e:
            fail(f"{case['bad']} gives {type(e).__name__} instead of a configuration error")
        fail(f"unknown value {case['bad']} was accepted: {r}")
    crs = geec.crs.get_crs(cfg["crs"])
    ref = case["ref"].lower() if case["ref"] not in (None, "<absent>") else "ellps"
    if str(crs.name.value) != ref or crs.name is not geec.crs.CRSEnum(ref):
        fail(f"ref {case['ref']} gives {crs.name}")
    if ref in ("cart", "ecef"):
        if crs.enu is not None or crs.ellps is not None:
            fail(f"ref {ref} carries an ellipsoid or frame: {crs}")
        return
    vd = case["vdatum"].lower() if case["vdatum"] not in (None, "<absent>") else "ellps"
    if str(crs.vdatum.value) != vd:
        fail(f"vdatum {case['vdatum']} gives {crs.vdatum}")
    nm = None if case["name"] == "<absent>" else case["name"]
    a, b = case["axes"]
    if nm:
        exp = (pm.Ellipsoid.models[nm]["a"], pm.Ellipsoid.models[nm]["b"])
    elif a and b:
        exp = (a, b)
    else:
        exp = (pm.Ellipsoid.models["wgs84"]["a"], pm.Ellipsoid.models["wgs84"]["b"])
    if axes(crs.ellps) != exp:
        fail(f"ellipsoid name={nm} axes={case['axes']} gives axes {axes(crs.ellps)}, expected {exp}")
    if ref == "enu":
        got = [crs.enu.longitude_origin, crs.enu.latitude_origin, crs.enu.altitude_origin]
        if got != list(case["org"]):
            fail(f"origin {case['org']} gives {got}")
        if crs.enu.ellps != crs.ellps or axes(crs.enu.ellps) != exp:
            fail("frame's ellipsoid differs")
    elif crs.enu is not None:
        fail("ellps carries a frame")


# ------------------------------------------------------------------ C13
def c13_gen(rng, tier):
    same0 = [[350.0, 0.25, 10.5], [351.0, 0.5, 11.5], [350.5, 1.25, -3.0], [350.5, 0.5, 100.0]]
    for i in range(N(tier, 90, 400)):
        n = int(rng.integers(1, 12))
        pts = rng.uniform(-100, 100, (n, 3)).round(4).tolist()
        if i % 3 == 0:
            pts = rng.integers(-50, 50, (n, 3)).tolist()
        if i % 9 == 4:
            pts[0][0] = int(3)
        src = ["points", "file", "grid", "all", "file+grid", "missing", "points+missing", "none"][i % 8]
        m = int(rng.integers(1, 9))
        fp = rng.uniform(-100, 100, (m, 3)).round(4).tolist()
        if i % 4 == 1:
            fp = rng.integers(-9, 9, (m, 3)).tolist()
        grid = []
        for k in range(3):
            s = float(rng.integers(-5, 5)) if i % 2 else int(rng.integers(-5, 5))
            st = float(rng.choice([0.5, 1.0, 0.25, 2.0, 0.1]))
            if i % 2 == 0:
                st = int(rng.integers(1, 3))
            cnt = int(rng.integers(1, 5))
            grid.append([s, s + st * (cnt - 0.5) if i % 4 else s + st * cnt - st / 2, st])
        if i % 5 in (1, 3):  # repeated points, in any order
            pts = [list(pts[int(j)]) for j in rng.integers(0, n, n + 3)]
            fp = [list(fp[int(j)]) for j in rng.integers(0, m, m + 3)]
        if i % 7 == 2:
            pts.insert(int(rng.integers(len(pts) + 1)), [0, 0, 0])
            fp.insert(int(rng.integers(len(fp) + 1)), [0, 0, 0])
        if i % 11 == 5:  # end on a node: not part of the grid
            grid = [[a, a + 2 * st if st in (0.5, 1.0, 2.0, 0.25, 1, 2) else b, st] for a, b, st in grid]
        yield {"kind": "ds", "src": src, "points": pts, "filepts": fp, "grid": grid}
    for src, n in (("points", 1), ("file", 1), ("points", 1500), ("file", 1500)):
        pts = rng.uniform(-100, 100, (n, 3)).round(4).tolist()
        if n > 1:
            pts[3] = [1, 2, 3]
        yield {"kind": "ds", "src": src, "points": pts, "filepts": pts, "grid": [[0, 2, 1]] * 3}
    for z in ([0, 1, 0.25], [0.0, 0.3, 0.1], [-1, 1, 1], [0, 1, 2], [1e-7, 5.5e-7, 1e-7], [1 / 3, 3, 1 / 3 + 1e-9], [-180, 180, 7.3], [2, 2, 1],
              [-6.4e6, -6.39e6, 1234.5], [0, 40, 1 / 7]):
        yield {"kind": "ds", "src": "grid", "points": [], "filepts": [[0, 0, 0]], "grid": [z, [0, 2, 1], [-3, -1, 0.5]], "crs": ["cart", "ellps"][len(str(z)) % 2]}
        yield {"kind": "ds", "src": "grid", "points": [], "filepts": [[0, 0, 0]], "grid": [[0, 2, 1], [-3, -1, 0.5], z], "crs": "cart"}
    # values of every magnitude with all their digits, a value that is not a number, large data sets
    for k, crs in enumerate(("cart", "ellps", "enu", "ecef", "cart", "ellps")):
        pts = (rng.uniform(-1, 1, (7, 3)) * 10.0 ** rng.integers(-9, 8, (7, 3))).tolist()
        if k >= 4:
            pts[2][k - 4] = pts[5][2] = float("nan")
        yield {"kind": "ds", "src": ["file", "points"][k % 2], "points": pts, "filepts": pts, "grid": [[0, 2, 1]] * 3, "crs": crs}
    for src, n in (("points", 20001), ("file", 150001)):
        yield {"kind": "big", "src": src, "n": n}
    yield {"kind": "masses", "same": True, "masses": [
        {"points": same0, "density": d, "gravity_constant": 6.67e-11, "file": True, "crs": c} for d, c in (
            (1000, ["ellps", "egm96"]), (500, ["ellps", "ellps"]), (1000, ["ecef", "ellps"]), (1000, ["ellps", "egm96"]))]}
    yield {"kind": "masses", "same": False, "masses": [
        {"points": same0, "density": d, "gravity_constant": -6.67e-11 * (1 + i), "file": bool(i % 2), "crs": c} for i, (d, c) in enumerate((
            (-1000, ["ellps", "egm96"]), (500, ["cart", "ellps"]), (0.5, ["ellps", "ellps"])))]}
    yield {"kind": "masses", "masses": []}
    same = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    yield {"kind": "masses", "masses": [{"points": same, "density": d, "gravity_constant": g, "file": False}
                                        for d, g in ((1000, 6.67e-11), (1000, 6.67e-11), (0, 6.67e-11), (-500.5, 1), (1000, 6.67e-11))]}
    for i in range(N(tier, 25, 100)):
        nb = int(rng.integers(1, 7))
        yield {"kind": "masses", "masses": [
            {"points": rng.uniform(-9, 9, (int(rng.integers(4, 7)), 3)).round(3).tolist(),
             "density": float(rng.uniform(-500, 5000)) if k % 2 else int(rng.integers(1, 4000)), "gravity_constant": float(rng.choice([6.67e-11, 1.0, 6.67408e-11])) ,
             "file": bool(rng.integers(2))} for k in range(nb)]}


CRS0 = {"ref": "cart", "name": None, "semimajor_axis": None, "semiminor_axis": None, "vdatum": None}


def off(a, b, rel=4e-15):
    """do two lists of points differ (by more than the rounding of a decimal number)"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return True
    with np.errstate(invalid="ignore"):
        return not ((np.abs(a - b) <= rel * (np.abs(b).max(initial=0) if rel > 1e-14 else np.abs(b)) + 1e-15) | (np.isnan(a) & np.isnan(b))).all()


def write_csv(path, pts):
    with open(path, "w") as f:
        for p in pts:
            f.write(",".join(repr(x) for x in p) + "\n")


def c13_run(case):
    import confuse

    geec = load_crs()
    with scratch() as d:
        if case["kind"] == "masses":
            ms = []
            for k, m in enumerate(case["masses"]):
                e = {"density": m["density"], "gravity_constant": m["gravity_constant"], "crs": dict(CRS0),
                     "points": m["points"], "file_path": None}
                if m["file"]:
                    f = os.path.join(d, f"b{k}.csv")
                    write_csv(f, m["points"])
                    e["points"], e["file_path"] = None, f
                if "crs" in m:
                    e["crs"] = dict(CRS0, ref=m["crs"][0], vdatum=m["crs"][1])
                if case.get("same") and ms:
                    e["file_path"] = ms[0]["file_path"]
                ms.append(e)
            cfg = confuse.RootView([confuse.ConfigSource.of({"masses": ms})])
            got = geec.mass.get_masses(cfg)
            if len(got) != len(ms):
                fail(f"{len(ms)} configured bodies give {len(got)} bodies")
            for k, (g, m) in enumerate(zip(got, case["masses"])):
                if g.density != m["density"] or g.gravity_constant != m["gravity_constant"]:
                    fail(f"body {k}: density {g.density}, constant {g.gravity_constant} instead of {m['density']}, {m['gravity_constant']}")
                if off(g.dataset.coords, m["points"]):
                    fail(f"body {k}: points {np.asarray(g.dataset.coords).tolist()} instead of {m['points']}")
                if "crs" in m and (g.dataset.crs.name != m["crs"][0] or (m["crs"][0] == "ellps" and g.dataset.crs.vdatum != m["crs"][1])):
                    fail(f"body {k}: reference system {g.dataset.crs} instead of {m['crs']}")
            for k, g in enumerate(got):  # every body has its own points
                g.dataset.coords[:] = k + 0.5
            for k, g in enumerate(got):
                if not (np.asarray(g.dataset.coords) == k + 0.5).all():
                    fail(f"body {k} shares its points with another body")
            return
        if case["kind"] == "big":
            v = np.arange(3 * case["n"], dtype=float).reshape(-1, 3)
            v = np.where(v % 7 == 3, -v, v / 8)
            case = dict(case, points=v.tolist() if case["src"] == "points" else [], filepts=v.tolist() if case["src"] == "file" else [[0.0, 0.0, 0.0]],
                        grid=[[0, 2, 1]] * 3)
        src = case["src"]
        f = os.path.join(d, "pts.csv")
        write_csv(f, case["filepts"])
        e = {"points": [] if len(case["points"]) % 2 else None, "file_path": None, "crs": dict(CRS0, ref=case.get("crs", "cart"))}
        if case.get("crs") == "enu":
            e["crs"].update(longitude_origin=1.5, latitude_origin=2.5, altitude_origin=0.0)
        g = {k + "start_" + k + "end_" + k + "step": v for k, v in zip("xyz", case["grid"])}
        if src in ("points", "all", "points+missing"):
            e["points"] = case["points"]
        if src in ("file", "all", "file+grid"):
            e["file_path"] = f
        if src in ("grid", "all", "file+grid"):
            e["grid"] = g
        if src in ("missing", "points+missing"):
            e["file_path"] = os.path.join(d, "nothere.csv")
            e["grid"] = g
        cfg = confuse.RootView([confuse.ConfigSource.of({"observers": e})])
        try:
            ds = geec.dataset.get_dataset(cfg["observers"])
        except Exception as x:
            if src == "none" or (src == "missing" and isinstance(x, FileNotFoundError)):
                return
            fail(f"loading from {src} raised {type(x).__name__}: {x}")
        if src in ("missing", "none"):
            fail(f"loading from {src} did not fail")
        co = np.asarray(ds.coords)
        if src in ("points", "all", "points+missing"):
            exp = np.array(case["points"], float)
        elif src in ("file", "file+grid"):
            exp = np.array(case["filepts"], float)
        else:
            ax = []
            for s, en, st in case["grid"]:
                v, i = [], 0
                while s + i * st < en:
                    v.append(s + i * st)
                    i += 1
                ax.append(v)
            exp = np.array([[x, y, z] for x in ax[0] for y in ax[1] for z in ax[2]], float).reshape(-1, 3)
        if co.dtype.kind != "f":
            fail(f"coordinates are not floating point: {co.dtype}")
        if off(co, exp, 1e-12 if src == "grid" else 4e-15):
            fail(f"source {src}: points {co.tolist()[:6]}.. ({co.shape}) instead of {exp.tolist()[:6]}.. ({exp.shape})")
        for k, n in enumerate(("lon", "lat", "alt")):
            v = np.asarray(getattr(ds, n))
            if v.shape != (len(exp),) or not np.array_equal(v, co[:, k], equal_nan=True):
                fail(f"{n} gives {v.tolist()[:6]} instead of column {k}: {co[:6, k].tolist()}")


# ------------------------------------------------------------------ C14
def local_body(rng, name, ell, org, size):
    """a small body near org expressed in the given system; returns (points, phys)"""
    base = CUBE
    if name is not None:  # number of points
        base = rng.normal(size=(name, 3))
        base = 0.5 + 0.5 * base / np.linalg.norm(base, axis=1)[:, None]
        if name == 4:
            base = np.array([[0, 0, 0], [1, 0, 0.1], [0.2, 1, 0], [0.1, 0.3, 1]])
    P = (base * size * rng.uniform(0.5, 1.5, 3)) @ rot(rng).T
    return P


def ecef2geo(p, a, b):
    """ECEF -> (lon, lat, h) by Newton iteration"""
    x, y, z = p
    lon = math.atan2(y, x)
    r = math.hypot(x, y)
    e2 = 1 - (b / a) ** 2
    lat = math.atan2(z, r * (1 - e2))
    for _ in range(60):
        n = a / math.sqrt(1 - e2 * math.sin(lat) ** 2)
        lat = math.atan2(z + e2 * n * math.sin(lat), r)
    n = a / math.sqrt(1 - e2 * math.sin(lat) ** 2)
    h = r * math.cos(lat) + z * math.sin(lat) - a * a / n
    return np.array([math.degrees(lon), math.degrees(lat), h])


TOL14 = 3e-9  # of the largest component; errors seen: 6e-11


def c14_gen(rng, tier):
    import pymap3d as pm

    n0 = N(tier, 40, 200)
    for i in range(n0 + N(tier, 5, 6)):
        cart = i % 4 == 0
        nb = 1 + i % 3
        if i in (0, 5, 10):
            nb = 0
        no = [1, 2, 4, 3][i % 4]
        if i >= n0:  # many bodies, many observation points
            nb, no = [(7, 3), (2, 70), (5, 12), (14, 2), (1, 130), (1, 1200)][i - n0]
        lon0, lat0 = float(rng.uniform(-179, 179)), float(rng.uniform(-70, 70))
        frame = lambda nm: tuple(float(pm.Ellipsoid.models[nm][k]) for k in "ab")
        c0 = geo2ecef(lon0, lat0, 500.0, *frame("wgs84"))
        R = enu_rot(lon0, lat0)
        masses, observers = [], None
        for k in range(nb):
            P = local_body(rng, [None, (9, 7, 6, 4)[k % 4], (4, 6, 7, 9)[k % 4]][i % 3], None, None, 1000.0 if not cart else 1.0) + rng.uniform(-1, 1, 3) * (3000 if not cart else 3)
            ell = ["wgs84", "airy", "grs80"][int(rng.integers(3))]
            ref = "cart" if cart else ["ecef", "ellps", "enu", "ellps"][(i + k) % 4]
            vd = ["ellps", "egm96", "egm84", "egm2008"][int(rng.integers(4))] if ref == "ellps" else "ellps"
            org = [lon0 + 0.01, lat0 - 0.01, 300.0]
            X = P if cart else (P @ R + c0)
            if ref == "ellps":
                pts = np.array([ecef2geo(x, *frame(ell)) for x in X])
                pts[:, 0] = np.where(rng.random() < 0.5, pts[:, 0] % 360.0, pts[:, 0])
            elif ref == "enu":
                o = geo2ecef(*org, *frame(ell))
                pts = (X - o) @ enu_rot(org[0], org[1]).T
            else:
                pts = X
            masses.append({"ref": ref, "ell": ell, "org": org, "vdatum": vd, "points": pts.tolist(),
                           "density": float(rng.choice([1000.0, 2670.0, 500.0, 3300.0])) + k,
                           "gc": float(rng.choice([6.67e-11, 6.67408e-11, 1e-10]))})
        O = rng.normal(size=(no, 3))
        if no >= 12:  # close points
            O[6:] = O[6:] * np.where(rng.random((no - 6, 1)) < 0.3, 0, 1) + O[2] * (1 + 1e-7 * rng.integers(0, 3, (no - 6, 1)))
        if i % 4 in (1, 2) and nb > 1:  # the same density in different bodies
            for m in masses:
                m["density"], m["gc"] = masses[0]["density"], masses[0]["gc"]
        if i % 16 in (8, 9) and nb:
            masses[0]["density"] = [-750.0, 0.0][(i // 16) % 2]
        if i % 16 == 13 and nb:
            masses[-1]["density"] = [0.0, -0.25, -3000.0][(i // 16) % 3]
        if i % 8 in (3, 4) and nb:
            masses[-1]["gc"] *= -1
        if i % 16 == 7 and nb > 1:  # the same body twice
            masses[1] = dict(masses[0], density=masses[0]["density"] * 2)
        O = O / np.linalg.norm(O, axis=1)[:, None] * ((9000.0 if not cart else 9.0) + rng.uniform(0, 3, (no, 1)) * (1000 if not cart else 1))
        if no >= 4:  # a repeated point
            O[-1] = O[1]
        if no >= 3 and i % 8 in (0, 3, 7):  # points that share two coordinates of the frame of the computation
            O = np.repeat(O[:1], no, 0) @ (np.eye(3) if cart else R)
            for k in range(1, no):
                O[k, (k + i // 8) % 3] *= 1 + k / no
            O = O if cart else O @ R.T
        ref = "cart" if cart else ["ellps", "enu", "ecef"][(i // 2) % 3]
        ell = ["wgs84", "airy", "wgs84", "hayford"][int(rng.integers(4))]
        org = [lon0 - 0.02, lat0 + 0.01, 100.0]
        X = O if cart else (O @ R + c0)
        if nb and not cart and i % 4 == 2:  # the observers' reference system is written like the last body's
            m = masses[-1]
            ref, ell, org = m["ref"], m["ell"], m["org"]
        if ref == "ellps":
            pts = np.array([ecef2geo(x, *frame(ell)) for x in X])
        elif ref == "enu":
            pts = (X - geo2ecef(*org, *frame(ell))) @ enu_rot(org[0], org[1]).T
        else:
            pts = X
        if nb and not cart and i % 4 == 2:
            masses[-1]["vdatum"] = "ellps"
        yield {"masses": masses, "obs": {"ref": ref, "ell": ell, "org": org, "points": pts.tolist()},
               "gradient": bool(i % 2) or no > 1000, "cart": cart, "filesrc": bool(i % 5 == 0)}


def crs_yaml(m):
    return {"ref": m["ref"], "name": m["ell"], "semimajor_axis": None, "semiminor_axis": None,
            "longitude_origin": m["org"][0], "latitude_origin": m["org"][1], "altitude_origin": m["org"][2],
            "vdatum": m.get("vdatum", "ellps")}


def c14_expect(case):
    import pymap3d as pm

    fr = lambda nm: tuple(float(pm.Ellipsoid.models[nm][k]) for k in "ab")

    class E:
        def __init__(s, nm):
            s.semimajor_axis, s.semiminor_axis = fr(nm)

    bodies = []
    for m in case["masses"]:
        pts = np.array(m["points"], float)
        X = []
        for r in pts:
            r = r.copy()
            if m["ref"] == "ellps":
                if r[0] > 180:
                    r[0] -= 360
                r[2] += geoid_h(m["vdatum"], r[1], r[0])
            X.append(phys(m["ref"], r, E(m["ell"]), m["org"]))
        bodies.append((np.array(X), m["density"], m["gc"]))
    rows = []
    ob = case["obs"]
    for r in np.array(ob["points"], float):
        x = phys(ob["ref"], r, E(ob["ell"]), ob["org"])
        G, T = np.zeros(3), np.zeros((3, 3))
        sg = st = 0.0
        for X, rho, gc in bodies:
            g, t, _ = ws(X, x, rho, gc)
            G += g
            T += t
            sg += np.abs(g).max()
            st += np.abs(t).max()
        pos = r if ob["ref"] == "cart" else ecef2geo(x, *fr("wgs84"))
        rows.append((pos, G, T, sg, st))
    return rows


def c14_run(case):
    import yaml
    import pandas as pd

    geec = load_cli()
    with scratch() as d:
        ms = []
        for k, m in enumerate(case["masses"]):
            e = {"points": m["points"], "file_path": None, "density": m["density"],
                 "gravity_constant": m["gc"], "crs": crs_yaml(m)}
            if case["filesrc"] and k == 0:
                f = os.path.join(d, "body.csv")
                write_csv(f, m["points"])
                e["points"], e["file_path"] = None, f
            ms.append(e)
        cfg = {"masses": ms, "observers": {"points": case["obs"]["points"], "file_path": None,
                                           "crs": crs_yaml(case["obs"])}}
        with open(os.path.join(d, "c.yaml"), "w") as f:
            yaml.safe_dump(cfg, f)
        out = os.path.join(d, "res.csv")
        geec.cli.run(output=out, usercfg=os.path.join(d, "c.yaml"), gradient=case["gradient"])
        if not os.path.isfile(out):
            fail("no output file")
        df = pd.read_csv(out, header=[0, 1])
    cart = case["cart"]
    names = (["x_mes", "y_mes", "z_mes"] if cart else ["lon_mes", "lat_mes", "alt_mes"]) + ["Gx", "Gy", "Gz", "txx", "txy", "txz", "tyy", "tyz", "tzz"]
    units = (["(m)"] * 3 if cart else ["(degree_east)", "(degree_north)", "(m)"]) + ["(mGal)"] * 3 + ["(E)"] * 6
    if [tuple(c) for c in df.columns] != list(zip(names, units)):
        fail(f"columns {list(df.columns)}")
    rows = c14_expect(case)
    if len(df) != len(rows):
        fail(f"{len(rows)} observation points give {len(df)} rows")
    for k, (pos, G, T, sg, st) in enumerate(rows):
        v = df.values[k]
        dl = (v[0] - pos[0]) / 360 if not cart else 0
        if not cart and abs(dl - round(dl)) * 360 > 1e-8:
            fail(f"row {k}: longitude {v[0]} instead of {pos[0]}")
        if (cart and off(v[:3], pos)) or abs(v[1] - pos[1]) > 1e-8 or abs(v[2] - pos[2]) > 1e-4:
            fail(f"row {k}: point {v[:3].tolist()} instead of {pos.tolist()}")
        if err(v[3:6], G) > TOL14 * sg:
            fail(f"row {k}: gravity {v[3:6].tolist()} instead of {G.tolist()}")
        t = T[np.triu_indices(3)] if case["gradient"] else np.zeros(6)
        if err(v[6:12], t) > (TOL14 * st if case["gradient"] else 0):
            fail(f"row {k}: tensor {v[6:12].tolist()} instead of {t.tolist()}")


# ------------------------------------------------------------------ C15
KEYS = [("masses", 0, "density"), ("masses", 0, "gravity_constant"), ("observers", "points"), ("observers", "file_path")]


PATHS = (("observers", "file_path"), ("observers", "points"), ("observers", "crs", "ref"), ("observers", "grid", "xstart_xend_xstep"),
         ("masses", 0, "density"), ("masses", 1, "crs", "vdatum"), ("output",))


def put(d, path, v):
    for i, k in enumerate(path[:-1]):
        if isinstance(path[i + 1], int):
            d = d.setdefault(k, [{}, {}])
        elif isinstance(k, int):
            d = d[k]
        else:
            d = d.setdefault(k, {})
    d[path[-1]] = v


def c15_gen(rng, tier):
    for i in range(32):
        yield {"kind": "prio", "arg": bool(i & 1), "user": bool(i & 2), "akeys": bool(i & 4), "ukeys": bool(i & 8),
               "over": bool(i & 16), "d": [float(x) for x in rng.integers(1, 9999, 2)]}
    for path in PATHS:
        for bits in range(8):
            has = [n for j, n in enumerate(("arg", "user", "def")) if bits >> j & 1]
            yield {"kind": "path", "path": list(path), "has": has, "arg": "given"}
            if "arg" not in has:
                yield {"kind": "path", "path": list(path), "has": has, "arg": ["none", "empty"][bits % 2]}
    P0, full = ["observers", "file_path"], ["arg", "user", "def"]
    for k, v in enumerate((0, False, "", [], 0.0, -1.5, "no")):
        yield {"kind": "path", "path": [P0, ["masses", 0, "density"], ["output"]][k % 3], "has": full, "arg": "given", "value": v}
    for k, f in enumerate(("a", "run.cfg", "A.YML", "d.d/conf.txt", "c o/n f.yaml", "config.json", "x.yaml.bak", "config.yaml", " a.yaml", "a.yaml ", "b.yaml\t", "\u00e9.yaml", "a'b\"c.yaml", "#x.yaml", "a%20b.yaml", "$HOME.yaml", "x~1.yaml")):
        yield {"kind": "path", "path": P0, "has": full if k % 2 else ["arg"], "arg": "given", "file": f, "rel": bool(k % 3 == 1)}
    yield {"kind": "path", "path": P0, "has": full, "arg": "given", "pad": 40000}
    for has in (["arg"], ["user"], ["arg", "user"]):
        yield {"kind": "path", "path": P0, "has": has, "arg": "given",
               "env": {"GEEC_OBSERVERS__FILE_PATH": "env", "GEEC_observers__file_path": "env", "GEEC_FILE_PATH": "env", "GEECDIR_": "x"}}
    for a in ("none", "empty", "given"):
        yield {"kind": "path", "path": P0, "has": ["user", "def"] + (["arg"] if a == "given" else []), "arg": a, "decoys": True}
    for k in ("badyaml", "missing", "badyaml_user", "dir", "badyaml_setup"):
        yield {"kind": k}
    for i, o in enumerate(["t.yaml", "t", "sub.dir/t.yml", "a/b/t.txt", "", "~/cfg", "t.v1.yaml", "./x/../y.yaml", "sub/", "sub/deep.d/", " t ", "x~1/t~.yml", "t.YAML", "-t", "a.yaml/b.yaml", "..t.yaml", ".t", "$HOME.yml"]):
        yield {"kind": "template", "out": o}
    yield {"kind": "show"}


def c15_run(case):
    import yaml

    geec = load_cli()
    pkg = os.path.join(os.path.dirname(os.path.abspath(geec.__file__)), "cfg")
    with scratch() as d:
        gdir = os.path.join(d, "home", ".config", "geec")
        k = case["kind"]
        default = yaml.safe_load(open(os.path.join(pkg, "config_default.yaml")))
        if k == "prio":
            lv = []
            a = {"observers": {"points": [[case["d"][0], 0.0, 0.0]]}}
            u = {"observers": {"points": [[case["d"][1], 1.0, 1.0]], "file_path": "user.csv"}}
            if case["akeys"]:
                a["masses"] = [{"density": case["d"][0], "gravity_constant": 1.5}]
            if case["ukeys"]:
                u["masses"] = [{"density": case["d"][1], "gravity_constant": 2.5, "file_path": "u.csv"}]
            if case["over"]:
                a["observers"].pop("points")
                a["observers"]["file_path"] = "arg.csv"
            if case["user"]:
                yaml.safe_dump(u, open(os.path.join(gdir, "config.yaml"), "w"))
                lv.append(u)
            if case["arg"]:
                yaml.safe_dump(a, open(os.path.join(d, "a.yaml"), "w"))
                lv.insert(0, a)
            lv.append(default)
            cfg = geec.config.setup(os.path.join(d, "a.yaml") if case["arg"] else "")

            def look(path):
                for src in lv:
                    x = src
                    try:
                        for q in path:
                            x = x[q]
                        return x
                    except (KeyError, TypeError, IndexError):
                        continue
                return None

            for path in KEYS + [("observers", "grid", "xstart_xend_xstep")]:
                v = cfg
                for q in path:
                    v = v[q]
                got, exp = v.get(), look(path)
                if got != exp:
                    fail(f"{'.'.join(map(str, path))}: {got} instead of {exp} ({case})")
            before = cfg.flatten()
            geec.config.show(cfg)
            if cfg.flatten() != before:
                fail("showing the configuration changed it")
        elif k == "path":
            import confuse

            docs = {}
            for n, s in enumerate(("arg", "user")):
                docs[s] = {"other_" + s: "x"}
                if s in case["has"]:
                    put(docs[s], case["path"], case.get("value", 11.5) if s == "arg" else 11.5 + n)
            # "def": in the packaged default (only parameters of that file can be looked up)
            f = os.path.join(d, case.get("file", "a.yaml"))
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as fh:
                fh.write(" # remark\n" * case.get("pad", 0))
                yaml.safe_dump(docs["arg"], fh)
            for n, v in case.get("env", {}).items():
                os.environ[n] = v
            if case.get("decoys"):  # other files that are none of the sources
                dec = {"observers": {"file_path": "decoy"}, "output": "decoy", "masses": [{"density": 6.5}]}
                for n in ("decoy.yaml", "config.yaml", "geec.yaml", "config_default.yaml", "cfg/config.yaml", "cfg/config_default.yaml", "home/config.yaml",
                          "home/geec.yaml", "home/.geec.yaml", "home/.config/config.yaml", "home/.config/geec.yaml", "home/.config/geec/config.yml",
                          "home/.config/geec/geec.yaml", "home/.config/geec/config_default.yaml", "home/.config/GEEC/config.yaml", ".geec.yaml", "a.yml", "home/.geec/config.yaml"):
                    if not os.path.exists(n):
                        os.makedirs(os.path.dirname(n) or ".", exist_ok=True)
                        yaml.safe_dump(dec, open(n, "w"))
                for n in ("GEEC_CONFIG", "GEEC_CFG", "GEECCONFIG", "GEEC_CONFIG_FILE", "GEEC_CONFIG_PATH", "GEEC_USER_CFG", "GEEC_USERCFG", "GEEC_FILE", "GEEC_DEFAULT", "GEEC"):
                    os.environ[n] = os.path.abspath("decoy.yaml")
            if "user" in case["has"] or case["arg"] == "empty":
                yaml.safe_dump(docs["user"], open(os.path.join(gdir, "config.yaml"), "w"))
            cfg = geec.config.setup({"given": os.path.relpath(f) if case.get("rel") else f, "none": None, "empty": ""}[case["arg"]])
            exp = default
            try:
                for q in case["path"]:
                    exp = exp[q]
            except (KeyError, IndexError, TypeError):
                exp = "<none>"
            if "user" in case["has"]:
                exp = 12.5
            if "arg" in case["has"] and case["arg"] == "given":
                exp = case.get("value", 11.5)
            v = cfg
            for q in case["path"]:
                v = v[q]
            try:
                got = v.get()
            except confuse.NotFoundError:
                got = "<none>"
            if got != exp:
                fail(f"{'.'.join(map(str, case['path']))} given in {case['has']}, argument {case['arg']}: {got} instead of {exp}")
            if case["arg"] == "given" and cfg["other_arg"].get() != "x":
                fail("a parameter of the argument file is not found")
        elif k == "show":
            cfg = geec.config.setup(None)
            before, n = cfg.flatten(), len(list(cfg.sources))
            geec.config.show(cfg)
            if cfg.flatten() != before or len(list(cfg.sources)) != n:
                fail("showing the configuration changed it")
        elif k in ("badyaml", "missing", "dir", "badyaml_user", "badyaml_setup"):
            p = os.path.join(d, "bad.yaml")
            if k in ("badyaml", "badyaml_setup"):
                open(p, "w").write("masses: [unclosed\n  - : :\n\t{")
            elif k == "dir":
                os.makedirs(p)
            if k == "badyaml_user":
                open(os.path.join(gdir, "config.yaml"), "w").write("masses: [unclosed\n  - : :\n\t{")
                p = ""
            try:
                if k == "badyaml_setup":
                    geec.config.setup(p)["masses"].get()
                else:
                    geec.cli.run(output=os.path.join(d, "o.csv"), usercfg=p)
            except (Exception, SystemExit):
                if os.path.exists(os.path.join(d, "o.csv")):
                    fail("output written in spite of an unreadable configuration file")
                return
            fail(f"{k}: an unreadable configuration file was ignored")
        else:
            o = case["out"]
            from pathlib import Path

            exp = Path(o).expanduser().resolve().with_suffix(".yaml") if o else Path("config_template.yaml").resolve()
            exp.parent.mkdir(parents=True, exist_ok=True)
            exp.write_text("old " * 5000)
            before = {str(x) for x in Path(d).rglob("*") if x.is_file()}
            geec.cli.config(output=o)
            if exp.read_bytes() != open(os.path.join(pkg, "config_template.yaml"), "rb").read():
                fail(f"template command with output '{o}' did not write the template to {exp}")
            now = {str(x) for x in Path(d).rglob("*") if x.is_file()}
            extra = now - before
            if extra:
                fail(f"template command wrote other files: {sorted(extra)}")


# ------------------------------------------------------------------ C16
def c16_gen(rng, tier):
    outs = ["r.csv", "r", "r.txt", "a/b/c/r.csv", "~/res/x", "r.v2.csv", "./p/../q.out", "", "deep/er/x.tar.gz", "pre.csv"]
    for i in range(N(tier, 60, 200)):
        n, m = int(rng.integers(0, 9)), 12
        v = rng.normal(size=(n, m)) * 10.0 ** rng.integers(-12, 9, (n, m)).astype(float)
        if n and i % 3 == 0:
            v[0, 0] = 1 / 3
            v[-1, -1] = 6.67408e-11
        yield {"out": outs[i % len(outs)], "values": v.tolist(), "multi": bool((i // 10) % 2 == 0), "pre": bool((i // 3) % 2), "n": n}
    more = ["R.CSV", "r.Csv", " r.csv", "r .csv", "a b/c d.csv", "r\u00e9s.csv", "r%20.csv", "r#1", "$HOME.csv", "a.csv/b.csv", "x" * 120 + ".dat", "-r.csv", "back~up/r~1.csv", "r~", "x/~/r.csv", "sub/", ".r", "r.csv.gz", "r.zip", "r.txt ", "a/b/..", "a/./b", "q/../q/s", "r\t.csv"]
    for i, o in enumerate(more + ["idx1", "idx2", "idx3", "nan", "blank", "inf", "one", "dup", "int", "text", "big", "big.csv"]):
        n = {"one": 1, "big": 120007, "big.csv": 300}.get(o, 6)
        v = rng.normal(size=(n, 12)) * 10.0 ** rng.integers(-12, 9, (n, 12)).astype(float)
        if o in ("nan", "inf"):
            v[2, 4] = v[5, 11] = v[0, 0] = float(o)
        if o == "blank":
            v[2] = v[5] = v[:, 3] = float("nan")
        if o == "dup":
            v[3:] = v[:3]
            v[4] = v[5] = 0.0
        if n > 10:
            yield {"out": o, "values": None, "rows": n, "seed": int(rng.integers(1 << 30)), "multi": True, "pre": 3000000 if o == "big.csv" else False, "n": n}
        else:
            yield {"out": o, "values": v.tolist(), "multi": bool(i % 4), "pre": bool(i % 2), "n": n, "shape": o}
    for i, o in enumerate(("r.csv", "r", "a/r.txt", "r.tar.gz", "pre.csv", "r.tmp")):
        v = rng.normal(size=(4, 12))
        yield {"out": o, "values": v.tolist(), "multi": bool(i % 2), "pre": ["empty", True][i % 2] if i != 3 else False, "n": 4, "near": i != 4}
    for i, o in enumerate(outs[:N(tier, 6, 10)] + ["", "R.CSV", "a b/c d.csv"]):
        yield {"run": o, "gradient": bool(i % 2), "seed": i}


def c16_whole(case):
    """a whole run: the file holds what stations report, digit by digit"""
    import pandas as pd
    import yaml
    from pathlib import Path

    geec = load_cli()
    from geec.polyhedron import Polyhedron
    from geec.station import Station

    rng = np.random.default_rng(case.get("seed", 0))
    bodies = [np.array([[0, 0, 0], [2, 0.1, 0], [0.3, 1.9, -0.2], [0.7, 0.6, 1.8]]), np.array(CUBE, float) * 1.5 + [3.1, -0.4, 0.2]]
    cart = {"ref": "cart", "ell": None, "org": [0.0, 0.0, 0.0], "vdatum": "ellps"}
    obs = rng.uniform(-6, 6, (5, 3)) + [0, 0, 11]
    with scratch() as d:
        cfg = {"masses": [{"points": P.tolist(), "file_path": None, "density": 1000.0 + 7 * i, "gravity_constant": 6.67e-11, "crs": crs_yaml(cart)}
                          for i, P in enumerate(bodies)],
               "observers": {"points": obs.tolist(), "file_path": None, "crs": crs_yaml(cart)}}
        with open("c.yaml", "w") as f:
            yaml.safe_dump(cfg, f)
        o = case["run"]
        exp = Path(o).expanduser().resolve().with_suffix(".csv") if o else None
        geec.cli.run(output=o, usercfg="c.yaml", gradient=case["gradient"])
        files = sorted(str(x) for x in Path(d).rglob("*") if x.is_file() and x.name != "c.yaml")
        if files != ([str(exp)] if exp is not None else []):
            fail(f"a run with output '{o}' created {files}, expected {exp}")
        if exp is None:
            return
        back = pd.read_csv(exp, header=[0, 1], float_precision="round_trip")
    if back.shape != (5, 12):
        fail(f"5 points give a table of shape {back.shape}")
    for k in range(5):
        s = Station(obs[k].copy())
        for i, P in enumerate(bodies):
            s.compute_gravity(Polyhedron(P.copy()), 1000.0 + 7 * i, 6.67e-11, gradient=case["gradient"])
        want = np.concatenate([obs[k], s.G, s.T.flatten()[[0, 1, 2, 4, 5, 8]]])
        got = back.values[k].astype(float)
        # digits may differ where the sums are taken in another order
        lim = np.concatenate([np.abs(obs[k]) * 1e-15, [1e-9 * np.abs(s.G).max()] * 3, [1e-9 * np.abs(s.T).max()] * 6])
        if not np.all(np.abs(got - want) <= lim):
            fail(f"row {k} is {got.tolist()}, the results are {want.tolist()}")


def c16_run(case):
    import pandas as pd
    from pathlib import Path

    if "run" in case:
        return c16_whole(case)

    geec = load_cli()
    names = ["lon", "lat", "alt", "Gx", "Gy", "Gz", "txx", "txy", "txz", "tyy", "tyz", "tzz"]
    units = ["(d)", "(d)", "(m)"] + ["(mGal)"] * 3 + ["(E)"] * 6
    cols = pd.MultiIndex.from_tuples(zip(names, units)) if case["multi"] else names
    if case["values"] is None:
        v = np.random.default_rng(case["seed"]).normal(size=(case["rows"], 12)) / 3
    else:
        v = np.array(case["values"], float).reshape(-1, 12)
    df = pd.DataFrame(v, columns=cols)
    sh = case.get("shape")
    if sh == "idx1":
        df.index = range(10, 10 + len(df))
    elif sh == "idx2":
        df.index = [f"s{i % 2}" for i in range(len(df))]
    elif sh == "idx3":
        df = df[df.iloc[:, 0] > -np.inf].iloc[::-1].iloc[::-1][[True] * len(df)]
        df.index.name = "station"
    elif sh == "int":
        v = np.round(v * 1e3) % 1000
        df = pd.DataFrame(v.astype(int), columns=cols)
    elif sh == "text":
        df = df.astype({cols[3]: str})
    copy = df.copy(deep=True)
    with scratch() as d:
        o = case["out"]
        exp = Path(o).expanduser().resolve().with_suffix(".csv") if o else None
        if exp is not None and case["pre"]:
            exp.parent.mkdir(parents=True, exist_ok=True)
            exp.write_text("" if case["pre"] == "empty" else "old,content\n" * (500 if case["pre"] is True else case["pre"] // 12))
        near = {}
        if exp is not None and case.get("near"):  # other files of the same name must not be touched
            exp.parent.mkdir(parents=True, exist_ok=True)
            for sfx in ("", ".tmp", ".txt", ".csv.bak", ".csv~", ".csv.tmp", ".bak", ".part", ".csv.part"):
                f = exp.with_suffix("") if not sfx else exp.with_suffix(sfx)
                if f.name != exp.name:
                    near[str(f)] = "other file " + sfx
                    f.write_text(near[str(f)])
        geec.api.write_file(df, o)
        files = sorted(str(x) for x in Path(d).rglob("*") if x.is_file() and str(x) not in near)
        for f, text in near.items():
            if not os.path.isfile(f) or open(f).read() != text:
                fail(f"output '{o}' changed another file, {f}")
        if files != ([str(exp)] if exp is not None else []):
            fail(f"output '{o}' created {files}, expected {exp}")
        if not df.equals(copy):
            fail("writing changed the table")
        if exp is None:
            return
        back = pd.read_csv(exp, header=[0, 1] if case["multi"] else 0, float_precision="round_trip")
        if case["multi"]:
            if [tuple(c) for c in back.columns] != list(zip(names, units)):
                fail(f"header {list(back.columns)}")
        elif list(back.columns) != names:
            fail(f"header {list(back.columns)}")
        if back.shape != v.shape:
            fail(f"table of shape {v.shape} reads back as {back.shape}")
        if v.size and not np.array_equal(back.values.astype(float), v, equal_nan=True):
            fail("values do not survive reading back")


TABLE = {
    "C09": (c09_gen, c09_run), "C10": (conv_gen, c10_run), "C11": (c11_gen, c11_run),
    "C12": (c12_gen, c12_run), "C13": (c13_gen, c13_run), "C14": (c14_gen, c14_run),
    "C15": (c15_gen, c15_run), "C16": (c16_gen, c16_run),
}
