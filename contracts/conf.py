"""Contracts of the configuration: coordinate reference systems (C12), points and bodies (C13), sources (C15),
written files (C15, C16).  The views and templates of confuse are confuse's own source, instrumented like
the code under test."""
from __future__ import annotations

import copy
import itertools

from .base import *  # noqa: F401,F403
from .base import T, E, V, arr, cmp, q, num, rt, mk, term, stubs, loader
from vc.sym import SymStr
from . import geostub as G
from . import vfs
from .vfs import VPath

FN = "geec/crs.py:"
CONF_ASM = ["confuse reads a YAML file into the mapping the file holds, or raises ConfigReadError when it cannot be read; "
            "everything else of confuse is its own source, executed by the verifier",
            "the directory of a package is where its files are"]
REFS = ("cart", "ellps", "enu", "ecef")
VDS = ("ellps", "egm84", "egm96", "egm2008")
MISSING = "<absent>"


def conf_world(read_csv=None, mods=("geec.crs", "geec.dataset", "geec.mass", "geec.observer"), patches=None, **more):
    vfs.reset()
    osm = vfs.OS()
    ext = G.geo_ext(pathlib=vfs.pathlib(), pandas=vfs.pandas(read_csv), os=osm, shutil=vfs.shutil(), typer=vfs.typer())
    ext.update({"os.path": osm.path})
    ext.update(vfs.resources())
    ext.pop("confuse", None)
    ext.update(more)
    e = dict(stubs.BASE)
    e.update(ext)
    w = loader.World(e, patches or vfs.patches(), ("geec", "confuse"))
    w.load("confuse")
    for m in mods:
        w.load(m)
    return w


def root(w, d):
    c = w.mods["confuse"]
    return c.RootView([c.ConfigSource.of(d)])


def spellings(s):
    """every way of writing a name with upper and lower case letters"""
    opts = [(c,) if c.lower() == c.upper() else (c.lower(), c.upper()) for c in s]
    return ["".join(x) for x in itertools.product(*opts)]


ORIGIN = ["lonO", "latO", "altO"]


def crs_dict(ref, vd, name, axes, origin=True):
    d = {}
    if ref != MISSING:
        d["ref"] = ref
    if vd != MISSING:
        d["vdatum"] = vd
    d["name"] = name
    a, b = T.var("axA", pos=True), T.var("axB", pos=True)
    d["semimajor_axis"] = mk(a) if axes in ("both", "a") else None
    d["semiminor_axis"] = mk(b) if axes in ("both", "b") else None
    for k, v in zip(("longitude_origin", "latitude_origin", "altitude_origin"), ORIGIN):
        d[k] = mk(T.var(v)) if origin else None
    return d


def axes_ok(e):
    a, b = T.var("axA", pos=True), T.var("axB", pos=True)
    e.assume(cmp(">", b))
    e.assume(cmp(">=", T.add(a, b, -1)))


def case12(ref, vd, name, axes, bad=None):
    def f(env):
        v = (lambda t: num(t, env)) if env is not None else (lambda t: 7e6)
        a, b = T.var("axA", pos=True), T.var("axB", pos=True)
        ax = (v(a) if axes in ("both", "a") else None, v(b) if axes in ("both", "b") else None)
        if env is None:
            ax = tuple(x and y for x, y in zip(ax, (7e6, 6.9e6)))
        org = [v(T.var(x)) for x in ORIGIN] if env is not None else [11.0, 22.0, 33.0]
        c = {"ref": ref, "vdatum": vd, "name": name, "axes": ax, "org": org, "bad": None}
        if bad:
            c["bad"] = bad
            c[bad[0]] = None
        return c

    return f


def conf_samples(n):
    out = []
    import random

    for i in range(n):
        r = random.Random(i)
        b = Fraction(6340000 + 3 * i)
        out.append(T.Env({"axA": b if i == 2 else Fraction(6390000 + i), "axB": b, "lonO": Fraction(r.uniform(-180, 180)),
                          "latO": Fraction(r.uniform(-80, 80)), "altO": Fraction(r.uniform(-100, 4000))}, salt=i))
    return out


def models():
    return G.load_source(G.pm_path(), "pymap3d.ellipsoid", {"math": stubs.MATH}).Ellipsoid.models


def check_crs(e, w, crs, ref, vd, name, axes):
    c = w.mods["geec.crs"]
    ref = "ellps" if ref in (None, MISSING) else ref.lower()
    vd = "ellps" if vd in (None, MISSING) else vd.lower()
    e.prove("the CRS is of the configured system", crs.name == c.CRSEnum(ref) and str(getattr(crs.name, "value", crs.name)) == ref)
    if ref in ("cart", "ecef"):
        e.prove("cart and ecef carry no ellipsoid and no frame", crs.ellps is None and crs.enu is None)
        return
    e.prove("the CRS carries the configured vertical datum", crs.vdatum == c.VDatumEnum(vd) and str(getattr(crs.vdatum, "value", crs.vdatum)) == vd)
    what = "the CRS carries the named ellipsoid, else that of the two axes, else WGS84"
    if name:
        want = (q(models()[name]["a"]), q(models()[name]["b"]))
    elif axes == "both":
        want = (T.var("axA", pos=True), T.var("axB", pos=True))
    else:
        want = (q(models()["wgs84"]["a"]), q(models()["wgs84"]["b"]))
    if crs.ellps is None:
        e.fail(what, "no ellipsoid")
        return
    for x, y in zip(G.axes(crs.ellps), want):
        e.eq(what, x, y)
    if ref == "ellps":
        e.prove("only enu carries a frame", crs.enu is None)
        return
    if crs.enu is None:
        e.fail("enu carries the configured origin", "no frame")
        return
    for x, y in zip((crs.enu.longitude_origin, crs.enu.latitude_origin, crs.enu.altitude_origin), ORIGIN):
        e.eq("enu carries the configured origin", term(x), T.var(y))
    if crs.enu.ellps is None:
        e.fail("the frame is on the ellipsoid of the CRS", "no ellipsoid")
        return
    for x, y in zip(G.axes(crs.enu.ellps), want):
        e.eq("the frame is on the ellipsoid of the CRS", x, y)


CRS_FN = [FN + x for x in ("get_crs", "read_ref", "read_vdatum", "read_ellipsoid_parameters", "read_enu_parameters", "create_cartesian_crs",
                           "create_ecef_crs", "create_ellipsoid_crs", "create_local_enu_crs", "Ellipsoid.__init__", "CRS.__post_init__")]


def crs_combos():
    seen = set()
    ells = [(None, "none"), (None, "both"), (None, "a"), (None, "b"), ("wgs84", "none"), ("airy", "both"), ("mars", "a")]
    for ref in REFS + (None, MISSING):
        for vd in VDS + (None, MISSING):
            for name, axes in ells:
                seen.add((ref, vd, name, axes))
    for ref in REFS:
        for sp in spellings(ref):
            seen.add((sp, None, None, "none"))
    for vd in VDS:
        for sp in spellings(vd):
            for ref in ("ellps", "enu"):
                seen.add((ref, sp, None, "none"))
    for nm in sorted(models()):
        for ref in ("ellps", "enu"):
            for axes in ("none", "both"):
                seen.add((ref, None, nm, axes))
    return sorted(seen, key=str)


@scenario("C12", weight=4)
def get_crs(pid, tier):
    ens = []
    for ref, vd, name, axes in crs_combos():
        en = E.Engine(f"get_crs (ref {ref}, vdatum {vd}, ellipsoid {name}, axes {axes})", fn=FN + "get_crs", samples=conf_samples(3), max_paths=40)
        en.case_of = case12(ref, vd, name, axes)

        def scen(ref=ref, vd=vd, name=name, axes=axes):
            w = shared_world()
            e = E.eng()
            axes_ok(e)
            d = crs_dict(ref, vd, name, axes)
            cfg = root(w, {"crs": d})
            before = dict(d)
            try:
                crs = w.mods["geec.crs"].get_crs(cfg["crs"])
            except Exception as ex:
                refusal(ex)
                e.fail("a documented configuration is accepted", f"raised {type(ex).__name__}: {ex}")
                return
            check_crs(e, w, crs, ref, vd, name, axes)
            e.prove("reading does not change the configuration", d.keys() == before.keys() and all(d[k] is before[k] for k in d))

        en.explore(scen)
        ens.append(en)
    return Result(ens, CRS_FN, CONF_ASM)


_SHARED = []


def shared_world():
    if not _SHARED:
        _SHARED.append(conf_world())
    vfs.reset()
    return _SHARED[0]


def misspelt():
    """names that are not known, written like a known one"""
    for n in REFS:
        for t in (" " + n, n + " ", n + "\n", n[:-1], n + n[-1], "'" + n + "'"):
            yield "ref", t
    for n in VDS + ("egm08",):
        for t in (" " + n, n + " ", n + "\t", n[:-1] + "_", n + "0", n.replace("egm", "egm-") if "egm" in n else n + "-"):
            yield "vdatum", t
    for n in sorted(models()):
        for t in (n.upper(), n.title(), " " + n, n + " ", n + "_", n.replace("8", "-8") if "8" in n else n[:-1]):
            if t not in models():
                yield "name", t


@scenario("C12")
def misspelt_names(pid, tier):
    ens = []
    for bad in ("ref", "vdatum", "name"):
        for ref in REFS[1:3]:
            toks = [t for b, t in misspelt() if b == bad]
            if bad != "name":
                toks = [t for t in toks if t.lower() not in REFS + VDS + ("egm08",)] + ["", " "]
            for t in toks:
                en = E.Engine(f"get_crs ({bad} {t!r}, {ref})", fn=FN + {"ref": "read_ref", "vdatum": "read_vdatum", "name": "read_ellipsoid_parameters"}[bad],
                              samples=conf_samples(1), max_paths=8)
                en.case_of = case12(ref, None, None, "none", [bad, t])

                def scen(bad=bad, ref=ref, t=t):
                    w = shared_world()
                    e = E.eng()
                    axes_ok(e)
                    d = crs_dict(ref, None, None, "none")
                    d[bad] = t
                    what = f"a misspelt {bad} is refused with a configuration error"
                    try:
                        crs = w.mods["geec.crs"].get_crs(root(w, {"crs": d})["crs"])
                    except w.mods["confuse"].ConfigError:
                        return e.prove(what, True)
                    except Exception as ex:
                        refusal(ex)
                        return e.fail(what, f"raised {type(ex).__name__}: {ex}")
                    e.fail(what, f"accepted as {crs.name}")

                en.explore(scen)
                ens.append(en)
    return Result(ens, CRS_FN, CONF_ASM)


@scenario("C12")
def unknown_names(pid, tier):
    ens = []
    known = {"ref": REFS, "vdatum": VDS + ("egm08",), "name": tuple(models())}
    for ref in REFS[1:3]:
        for bad in ("ref", "vdatum", "name"):
            for axes in ("none", "both"):
                en = E.Engine(f"get_crs (unknown {bad}, {ref}, axes {axes})", fn=FN + {"ref": "read_ref", "vdatum": "read_vdatum", "name": "read_ellipsoid_parameters"}[bad],
                              samples=conf_samples(3), max_paths=80)
                strs = {}

                def case(env, bad=bad, ref=ref, axes=axes, strs=strs):
                    return [case12(ref, None, None, axes, [bad, v])(env) for v in (strs.get("words") or ["qwerty"])[:6]]

                en.case_of = case

                def scen(ref=ref, bad=bad, axes=axes, strs=strs):
                    w = shared_world()
                    e = E.eng()
                    axes_ok(e)
                    d = crs_dict(ref, None, None, axes)
                    s = SymStr(bad, known[bad])
                    d[bad] = s
                    cfg = root(w, {"crs": d})
                    what = f"an unknown {bad} is refused with a configuration error"
                    try:
                        crs = w.mods["geec.crs"].get_crs(cfg["crs"])
                    except w.mods["confuse"].ConfigError:
                        e.prove(what, True)
                        return
                    except Exception as ex:
                        refusal(ex)
                        e.fail(what, f"raised {type(ex).__name__}: {ex}")
                        return
                    strs.setdefault("words", [])
                    strs["words"] += [x for x in s.words if x not in strs["words"] and x.lower() not in s.never]
                    e.fail(what, f"accepted as {crs.name}")

                en.explore(scen)
                ens.append(en)
    return Result(ens, CRS_FN, CONF_ASM)


# ------------------------------------------------------------------ C13
DSF = "geec/dataset.py:"
AX = [("xs", "xe", "xd"), ("ys", "ye", "yd"), ("zs", "ze", "zd")]


def raw(t):
    return rt.RawReal(t)


def points_value(seq, names=("px", "py", "pz"), deps=("rows",)):
    return [T.var(n, frozenset(deps)) for n in names]


def grid_cfg(e):
    g = {}
    for c, a in zip("xyz", AX):
        ts = [T.var(x) for x in a]
        e.assume(cmp(">", ts[2]))
        e.assume(cmp(">", T.add(ts[1], ts[0], -1)))
        g[f"{c}start_{c}end_{c}step"] = [raw(t) for t in ts]
    return g


def case13(src):
    def f(env):
        if env is None:
            env = conf_samples(1)[0]
        row = [num(T.var(n, frozenset(("rows",))), env) for n in ("px", "py", "pz")]
        frow = [num(T.var(n, frozenset(("lines",))), env) for n in ("fx", "fy", "fz")]
        grid = []
        for a in AX:
            s, en, st = (num(T.var(x), env) for x in a)
            st = abs(st) or 1.0
            n = (en - s) / st
            grid.append([s, s + st * 2.5 if not 0.3 < n < 6 else en, st])
        return {"kind": "ds", "src": src, "points": [row, [x * 0.5 + 1 for x in row], row, [1, 2, 3]],
                "filepts": [frow, [x * 0.25 - 1 for x in frow], frow], "grid": grid}

    return f


SOURCES = ("points", "file", "grid", "all", "file+grid", "missing", "points+missing", "none")


@scenario("C13", weight=3)
def get_dataset(pid, tier):
    ens = []
    for src in SOURCES:
        for empty in ("none", "empty"):
            for crs in ("cart", "ellps"):
                en = E.Engine(f"get_dataset ({src}; unused sources {empty}; {crs})", fn=DSF + "get_dataset", samples=conf_samples(4), max_paths=60)
                en.case_of = case13(src)

                def scen(src=src, empty=empty, crs=crs):
                    e = E.eng()
                    lines, rows = Seq("lines"), Seq("rows")
                    ft = points_value(lines, ("fx", "fy", "fz"), ("lines",))
                    pt = points_value(rows)
                    asked = []

                    def read_csv(path, sep=",", header="infer", **k):
                        part = [a for a in k if a in ("nrows", "skiprows", "skipfooter") and k[a] not in (None, 0)]
                        if set(k) - {"delimiter", "dtype", "engine", "skipinitialspace", "float_precision", "low_memory", "encoding", "nrows", "skiprows", "skipfooter"}:
                            raise E.Unsupported("read_csv arguments " + ", ".join(k))
                        asked.append(vfs.pathkey(path))
                        what = "the file is read whole: comma separated, no header line"
                        e.prove(what, (k.get("delimiter") or sep) == "," and header is None)
                        m = SymMat(lines, ft)
                        m.raw = k.get("dtype") is None
                        if k.get("dtype") not in (None, float, "float", "float64", "f8", rt.rnp.float64):
                            raise E.Unsupported("read_csv dtype")
                        return vfs.DF(m) if not part else vfs.DF(m)._other("read_csv " + ", ".join(part))

                    w = conf_world(read_csv)
                    un = None if empty == "none" else []
                    d = {"points": un, "file_path": None if empty == "none" else "", "crs": crs_dict(crs, None, None, "none")}
                    if empty == "empty":
                        d["grid"] = {}
                    name = SymStr("file_path")
                    if "points" in src or src == "all":
                        e.assume(cmp(">", rows.count))
                        d["points"] = PointList([Block(rows, [raw(t) for t in pt])])
                    if "file" in src or "missing" in src or src == "all":
                        d["file_path"] = name
                    if "grid" in src or src == "all" or "missing" in src:
                        d["grid"] = grid_cfg(e)
                    if "missing" not in src:
                        vfs.fs().files[vfs.pathkey(name)] = "csv"
                        if src in ("none",):
                            vfs.fs().files.clear()
                    else:
                        vfs.fs().absent.add(vfs.pathkey(name))
                    cfg = root(w, {"observers": d})
                    try:
                        ds = w.mods["geec.dataset"].get_dataset(cfg["observers"])
                    except Exception as ex:
                        refusal(ex)
                        if src == "missing":
                            e.prove("a missing file is an error", isinstance(ex, (FileNotFoundError, OSError)))
                        elif src == "none":
                            e.prove("without a source loading fails", True)
                        else:
                            e.fail("the points are loaded", f"raised {type(ex).__name__}: {ex}")
                        return
                    if src in ("missing", "none"):
                        e.fail("a missing file is an error" if src == "missing" else "without a source loading fails", "no exception")
                        return
                    m = ds.coords
                    if isinstance(m, SymMatT):
                        e.fail("every point is kept as a triple", "the coordinates are transposed")
                        return
                    if not isinstance(m, SymMat):
                        raise E.Unsupported("coordinates of type " + type(m).__name__)
                    e.prove("the points are floating-point numbers", not m.raw)
                    e.prove("every point is kept as a triple", len(m.cols) == 3)
                    if len(m.cols) != 3:
                        return
                    views(e, ds, m)
                    if "points" in src or src == "all":
                        right(e, m, rows, pt, "the explicit list comes first, with every point in order")
                    elif "file" in src:
                        right(e, m, lines, ft, "the file comes next, with every line in order")
                        e.prove("the named file is read", asked == [vfs.pathkey(name)])
                    else:
                        what = "a grid lists every node below the end of each axis, x varying slowest"
                        g = getattr(m.seq, "grid", None)
                        if g is None:
                            e.fail(what, "not the grid")
                            return
                        e.prove(what, m.seq.order == (0, 1, 2) and len(g) == 3)
                        if len(g) != 3:
                            return
                        for i, a in enumerate(AX):
                            for x, y in zip(g[i], a):
                                e.eq(what, x, T.var(y))
                            idx = T.var(f"#i{i}:" + m.seq.name, frozenset([m.seq.name]))
                            e.eq(what, m.cols[i], T.add(T.var(a[0]), T.mul(T.var(a[2]), idx)))
                    check_crs(e, w, ds.crs, crs, None, None, "none")

                en.explore(scen)
                ens.append(en)
    return Result(ens, [DSF + "_read_coords", DSF + "get_dataset", DSF + "Dataset.lon", DSF + "Dataset.lat", DSF + "Dataset.alt"] + CRS_FN, CONF_ASM + [
        "pandas.read_csv(sep=',', header=None) returns every line of the file, in order; numpy.mgrid lists start+i*step below stop, first axis slowest"])


def right(e, m, seq, terms, what):
    e.prove(what, m.seq == seq)
    if m.seq == seq:
        for x, y in zip(m.cols, terms):
            e.eq(what, x, y)


def views(e, ds, m):
    what = "lon, lat and alt are the first, second and third coordinate of every point"
    for i, n in enumerate(("lon", "lat", "alt")):
        c = getattr(ds, n)
        if not isinstance(c, SymCol):
            raise E.Unsupported(n + " of type " + type(c).__name__)
        e.prove(what, c.seq == m.seq)
        if c.seq == m.seq:
            e.eq(what, c.t(), m.cols[i])


class PointList(list):
    """a non-empty list"""

    def __bool__(self):
        return True


CRS3 = ["cart", "ellps", "ecef"]


@scenario("C13", weight=2)
def get_masses(pid, tier):
    ens = []
    for shape in ("any number", "none", "one", "three", "three, one file", "three, one file in one system"):
        en = E.Engine(f"get_masses ({shape} of bodies)" if "file" not in shape else f"get_masses ({shape})", fn="geec/mass.py:get_masses", samples=conf_samples(4), max_paths=40)

        def case(env, shape=shape):
            if env is None:
                env = conf_samples(1)[0]
            if "file" in shape:
                pts = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
                return {"kind": "masses", "same": True, "masses": [
                    {"points": pts, "density": 1000.0 + i, "gravity_constant": 6.67e-11, "file": True, "crs": [c, "ellps"]}
                    for i, c in enumerate(CRS3 if "system" not in shape else ["cart"] * 3)]}
            out = []
            for i in range({"any number": 3, "none": 0, "one": 1, "three": 3}[shape]):
                r = [float(i + 1), 2.0 * i - 1, 0.5 * i]
                out.append({"points": [r, [r[0] + 1, r[1], r[2]], [r[0], r[1] + 1, r[2]], [r[0], r[1], r[2] + 1 + i]], "density": 1000.0 + i,
                            "gravity_constant": 6.67e-11 * (1 + i), "file": False})
            return {"kind": "masses", "masses": out}

        en.case_of = case

        def scen(shape=shape):
            e = E.eng()
            lines, reads = Seq("lines"), []
            e.assume(cmp(">", lines.count))
            ft = points_value(lines, ("fx", "fy", "fz"), ("lines",))

            def read_csv(path, sep=",", header="infer", **k):
                if set(k) - {"delimiter", "dtype", "engine", "skipinitialspace", "float_precision", "low_memory", "encoding"} or sep != "," or header is not None:
                    raise E.Unsupported("read_csv arguments")
                reads.append(vfs.pathkey(path))
                m = SymMat(lines, ft)
                m.raw = k.get("dtype") is None
                return vfs.DF(m)

            w = conf_world(read_csv)

            def filebody(tag, ref):
                rho, gc = T.var("rho" + tag), T.var("Gc" + tag)
                cfg = {"points": None, "file_path": name, "density": raw(rho), "gravity_constant": raw(gc), "crs": crs_dict(ref, None, None, "none")}
                return cfg, (lines, ft, rho, gc)

            def body(tag, deps):
                rows = Seq("rows" + tag)
                e.assume(cmp(">", rows.count))
                d = frozenset(deps)
                pt = [T.var(f"p{c}{tag}", d | {rows.name}) for c in XYZ]
                rho, gc = T.var("rho" + tag, d), T.var("Gc" + tag, d)
                cfg = {"points": PointList([Block(rows, [raw(t) for t in pt])]), "file_path": None, "density": raw(rho), "gravity_constant": raw(gc),
                       "crs": crs_dict("cart", None, None, "none")}
                return cfg, (rows, pt, rho, gc)

            seq = Seq("masses")
            specs = []
            if shape == "any number":
                c, s = body("", ("masses",))
                cfgs = [Block(seq, c)]
                specs.append(s)
            elif "file" in shape:
                name = SymStr("file_path")
                vfs.fs().files[vfs.pathkey(name)] = "csv"
                cfgs = []
                for i in range(3):
                    c, s = filebody(str(i), "cart" if "system" in shape else CRS3[i])
                    cfgs.append(c)
                    specs.append(s)
            else:
                cfgs = []
                for i in range({"none": 0, "one": 1, "three": 3}[shape]):
                    c, s = body(str(i), ())
                    cfgs.append(c)
                    specs.append(s)
            cfg = root(w, {"masses": cfgs})
            try:
                ms = w.mods["geec.mass"].get_masses(cfg)
            except Exception as ex:
                refusal(ex)
                e.fail("the bodies are loaded", f"raised {type(ex).__name__}: {ex}")
                return
            if not isinstance(ms, (list, tuple)):
                raise E.Unsupported("bodies in a " + type(ms).__name__)
            what = "every configured body gives one body, in order"
            if shape == "any number":
                ok = len(ms) == 1 and isinstance(ms[0], Block) and ms[0].seq == seq
                if len(ms) == 1 and not ok and not isinstance(ms[0], Block):
                    raise E.Unsupported("bodies of an unbounded list")
                e.prove(what, ok)
                if not ok:
                    return
                ms = [ms[0].elem]
            else:
                e.prove(what, len(ms) == len(specs))
                if len(ms) != len(specs):
                    return
            for m, (rows, pt, rho, gc) in zip(ms, specs):
                e.eq("a body has its own density", term(m.density), rho)
                e.eq("a body has its own gravity constant", term(m.gravity_constant), gc)
                if not isinstance(m.dataset.coords, SymMat):
                    raise E.Unsupported("coordinates of type " + type(m.dataset.coords).__name__)
                right(e, m.dataset.coords, rows, pt, "a body has its own points, in order")
                e.prove("the points are floating-point numbers", not m.dataset.coords.raw)
            if "file" in shape:
                for m, c in zip(ms, CRS3 if "system" not in shape else ["cart"] * 3):
                    check_crs(e, w, m.dataset.crs, c, None, None, "none")
            e.prove("bodies do not share coordinates or reference systems",
                    len({id(m.dataset) for m in ms}) == len(ms) and len({id(m.dataset.crs) for m in ms}) == len(ms) and len({id(m.dataset.coords) for m in ms}) == len(ms))

        en.explore(scen)
        ens.append(en)
    return Result(ens, ["geec/mass.py:get_masses", DSF + "get_dataset", DSF + "_read_coords"], CONF_ASM)


@scenario("C13")
def get_observer(pid, tier):
    en = E.Engine("get_observer", fn="geec/observer.py:get_observer", samples=conf_samples(4))

    def scen():
        w = conf_world()
        e = E.eng()
        rows = Seq("rows")
        e.assume(cmp(">", rows.count))
        pt = points_value(rows)
        d = {"points": PointList([Block(rows, [raw(t) for t in pt])]), "file_path": None, "crs": crs_dict("enu", None, None, "none")}
        o = w.mods["geec.observer"].get_observer(root(w, {"observers": d}))
        if not isinstance(o.dataset.coords, SymMat):
            raise E.Unsupported("coordinates of type " + type(o.dataset.coords).__name__)
        right(e, o.dataset.coords, rows, pt, "the observer has the configured points, in order")
        check_crs(e, w, o.dataset.crs, "enu", None, None, "none")

    en.explore(scen)
    return Result([en], ["geec/observer.py:get_observer", "geec/observer.py:Observer.__post_init__"], CONF_ASM)
