"""Contracts of configuration sources and the template command (C15), of the result writer (C16), and of a
whole run (C14)."""
from __future__ import annotations

import os

from .base import *  # noqa: F401,F403
from .base import T, E, V, arr, cmp, q, num, rt, mk, term, stubs, loader
from vc.sym import SymStr
from . import geostub as G
from . import vfs, conf
from .vfs import VPath
from .conf import CONF_ASM, raw, PointList, conf_world, conf_samples, MISSING

CFG = "geec/config.py:"
USER = vfs.HOME + "/.config/geec/config.yaml"
DEFAULT = os.path.join(loader.REPO, "geec", "cfg", "config_default.yaml")
TEMPLATE = os.path.join(loader.REPO, "geec", "cfg", "config_template.yaml")
PATHS = (("observers", "file_path"), ("observers", "points"), ("observers", "crs", "ref"), ("observers", "grid", "xstart_xend_xstep"),
         ("masses", 0, "density"), ("masses", 1, "crs", "vdatum"), ("output",))
NAMES = {"arg": "argument file", "user": "user file", "def": "packaged default"}


def put(d, path, v):
    """value v at the path, in dictionaries (lists of two)"""
    for i, k in enumerate(path[:-1]):
        nxt = path[i + 1]
        if isinstance(nxt, int):
            if k not in d:
                d[k] = [{}, {}]
            d = d[k]
        else:
            if isinstance(k, int):
                d = d[k]
            else:
                d = d.setdefault(k, {})
    d[path[-1]] = v


def look(cfg, path):
    for k in path:
        cfg = cfg[k]
    return cfg


def snap(x):
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, list):
        return [snap(v) for v in x]
    return x


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b


def cfg_world(mods=("geec.config",), read_csv=None, **more):
    w = conf_world(read_csv, mods=mods, **more)
    f = vfs.fs()
    f.dirs.add(os.path.dirname(USER))
    return w


ARGS = ("none", "empty", "given")


def prio_case(path, has, arg):
    def f(env):
        return {"kind": "path", "path": list(path), "has": [s for s in ("arg", "user", "def") if has[s]], "arg": arg}

    return f


@scenario("C15", weight=3)
def sources(pid, tier):
    ens = []
    for path in PATHS:
        for bits in range(16):
            has = {"arg": bool(bits & 1), "user": bool(bits & 2), "def": bool(bits & 4)}
            uf = bool(bits & 8)  # the user's file exists
            for arg in ARGS:
                if (arg != "given" and has["arg"]) or (has["user"] and not uf):
                    continue
                nm = ".".join(map(str, path))
                en = E.Engine(f"setup ({nm} in {[NAMES[s] for s in has if has[s]]}, argument {arg}, user file {'exists' if uf else 'absent'})",
                              fn=CFG + "setup", samples=conf_samples(2), max_paths=40)
                en.case_of = prio_case(path, has, arg)

                def scen(path=path, has=has, uf=uf, arg=arg):
                    e = E.eng()
                    w = cfg_world()
                    f = vfs.fs()
                    val = {s: raw(T.var("v_" + s)) for s in has}
                    docs = {}
                    for s in has:
                        d = docs[s] = {"other_" + s: "x"}
                        if has[s]:
                            put(d, path, val[s])
                        elif path[0] == "masses":
                            put(d, ("masses", 0, "other"), "x")
                    name = SymStr("config")
                    f.files[DEFAULT] = docs["def"]
                    f.files[vfs.DECOY] = dict(full_cfg("decoy"), output=raw(T.var("decoy.output")), other_arg="y", other_user="y", other_def="y")
                    if uf:
                        f.files[USER] = docs["user"]
                    if arg == "given":
                        f.files[vfs.pathkey(name)] = docs["arg"]
                    before = snap(docs)
                    a = {"none": None, "empty": "", "given": name}[arg]
                    try:
                        cfg = w.mods["geec.config"].setup(a)
                    except Exception as ex:
                        refusal(ex)
                        e.fail("readable files are accepted", f"raised {type(ex).__name__}: {ex}")
                        return
                    what = "a parameter comes from the argument file, else the user's file, else the packaged default"
                    order = [s for s in ("arg", "user", "def") if has[s] and (s != "arg" or arg == "given")]
                    try:
                        got = look(cfg, path).get()
                    except w.mods["confuse"].NotFoundError:
                        e.prove(what, not order)
                        return
                    e.prove(what, bool(order) and got is val[order[0]])
                    for s in ("arg", "user", "def"):
                        if (s == "arg" and arg != "given") or (s == "user" and not uf):
                            continue
                        try:
                            v = cfg["other_" + s].get()
                        except w.mods["confuse"].NotFoundError:
                            v = None
                        e.prove("a parameter given in one source only is found", v == "x")
                    e.prove("reading changes no file", same(docs, before) and not [x for x in f.events if x[0] != "mkdir"])

                en.explore(scen)
                ens.append(en)
    return Result(ens, [CFG + "setup", CFG + "_default_setup"], CONF_ASM)


def full_cfg(tag, n=2):
    """a complete configuration with opaque values"""
    def v(k):
        return raw(T.var(f"{tag}.{k}"))

    def crs(k):
        return {"ref": "cart", "vdatum": None, "name": None, "semimajor_axis": v(k + "a"), "semiminor_axis": v(k + "b"),
                "longitude_origin": v(k + "lo"), "latitude_origin": v(k + "la"), "altitude_origin": v(k + "al")}

    ms = [{"points": [[v(f"p{i}{c}") for c in "xyz"]], "file_path": None, "density": v(f"d{i}"), "gravity_constant": v(f"g{i}"), "crs": crs(f"m{i}")}
          for i in range(n)]
    g = {f"{c}start_{c}end_{c}step": [v(f"{c}{j}") for j in range(3)] for c in "xyz"}
    return {"masses": ms, "observers": {"points": [[v(f"o{c}") for c in "xyz"]], "file_path": None, "grid": g, "crs": crs("ob")}}


@scenario("C15", weight=2)
def showing(pid, tier):
    ens = []
    for n in (0, 1, 2):
        for via in ("show", "main"):
            en = E.Engine(f"{via} ({n} bodies)", fn=CFG + via, samples=conf_samples(2), max_paths=40)
            en.case_of = lambda env: {"kind": "show"}

            def scen(n=n, via=via):
                e = E.eng()
                w = cfg_world()
                f = vfs.fs()
                docs = {DEFAULT: full_cfg("def", n), USER: {"observers": {"file_path": "u.csv"}}}
                f.files.update(docs)
                before = snap(docs)
                c = w.mods["geec.config"]
                what = "showing the configuration changes nothing"
                try:
                    if via == "show":
                        cfg = c.setup(None)
                        srcs = list(cfg.sources)
                        docs0 = [snap(dict(s)) for s in srcs]
                        c.show(cfg)
                        now = list(cfg.sources)
                        e.prove(what, len(now) == len(srcs) and all(a is b for a, b in zip(now, srcs)))
                        e.prove(what, all(same(snap(dict(s)), d) for s, d in zip(now, docs0)))
                    else:
                        c.main(None)
                except Exception as ex:
                    refusal(ex)
                    e.fail("a complete configuration is shown", f"raised {type(ex).__name__}: {ex}")
                    return
                e.prove(what, same(docs, before) and not [x for x in f.events if x[0] != "mkdir"])

            en.explore(scen)
            ens.append(en)
    return Result(ens, [CFG + "show", CFG + "main"], CONF_ASM)


def cli_world(read_csv=None, **more):
    return cfg_world(("geec.cli",), read_csv, **more)


class WentOn(BaseException):
    pass


def went_on(m):
    def get_masses(*a, **k):
        raise WentOn()

    m.get_masses = get_masses


@scenario("C15", weight=2)
def unreadable(pid, tier):
    ens = []
    for bad in ("arg", "arg missing", "user", "default"):
        for via in ("setup", "run"):
            en = E.Engine(f"{via} (unreadable: {bad})", fn=CFG + "setup" if via == "setup" else "geec/cli.py:run", samples=conf_samples(2), max_paths=40)
            en.case_of = lambda env, bad=bad, via=via: {"kind": {"arg": "badyaml_setup" if via == "setup" else "badyaml", "arg missing": "missing", "user": "badyaml_user", "default": "badyaml"}[bad]}

            def scen(bad=bad, via=via):
                e = E.eng()
                w = cfg_world() if via == "setup" else run_world(mass=went_on)
                f = vfs.fs()
                name = SymStr("config")
                f.files[DEFAULT] = full_cfg("def")
                f.files[USER] = full_cfg("user")
                k = vfs.pathkey(name)
                arg = name if bad.startswith("arg") else ""
                if bad == "arg missing":
                    f.absent.add(k)
                else:
                    f.unread.add({"arg": k, "user": USER, "default": DEFAULT}[bad])
                    if bad == "arg":
                        f.files[k] = None
                what = "an unreadable configuration file makes the command fail"
                try:
                    if via == "setup":
                        w.mods["geec.config"].setup(arg)["masses"].get()
                    else:
                        w.mods["geec.cli"].run(output="/work/out.csv", usercfg=arg, gradient=False)
                except E.Unsupported:
                    raise
                except WentOn:
                    e.fail(what, "the bodies were read")
                    return
                except (Exception, SystemExit) as ex:
                    if not isinstance(ex, (SystemExit, w.mods["confuse"].ConfigError)):
                        refusal(ex)
                    e.prove(what, True)
                    e.prove("nothing is written after an unreadable configuration", not [x for x in f.events if x[0] != "mkdir"])
                    return
                e.fail(what, "it went on")

            en.explore(scen)
            ens.append(en)
    return Result(ens, [CFG + "setup", "geec/cli.py:run"], CONF_ASM)


@scenario("C15")
def template(pid, tier):
    ens = []
    for out in ("given", "empty", "default"):
        for uf in (True, False):
            en = E.Engine(f"config command (output {out}, user file {'exists' if uf else 'absent'})", fn="geec/cli.py:config", samples=conf_samples(2), max_paths=40)
            en.case_of = lambda env, out=out: {"kind": "template", "out": "sub.dir/t.yml" if out == "given" else ""}

            def scen(out=out, uf=uf):
                e = E.eng()
                w = cli_world()
                f = vfs.fs()
                f.files[DEFAULT] = full_cfg("def")
                f.files[TEMPLATE] = "template"
                if uf:
                    f.files[USER] = full_cfg("user")
                name = SymStr("output")
                want = VPath(name).expanduser().resolve().with_suffix(".yaml") if out == "given" else VPath(vfs.CWD + "/config_template.yaml")
                f.dirs.add(want.parent.key())
                try:
                    if out == "default":
                        w.mods["geec.cli"].config()
                    else:
                        w.mods["geec.cli"].config(output=name if out == "given" else "")
                except Exception as ex:
                    refusal(ex)
                    e.fail("the template command succeeds", f"raised {type(ex).__name__}: {ex}")
                    return
                ev = [x for x in f.events if x[0] != "mkdir"]
                what = "the template command writes exactly the packaged template to the requested path"
                e.prove(what, len(ev) == 1 and ev[0][0] == "write" and ev[0][1] == want.key())
                if len(ev) == 1 and ev[0][0] == "write":
                    e.prove(what, isinstance(ev[0][2], vfs.Content) and ev[0][2].key == TEMPLATE)

            en.explore(scen)
            ens.append(en)
    return Result(ens, ["geec/cli.py:config", CFG + "setup", CFG + "_default_setup"], CONF_ASM)


# ------------------------------------------------------------------ C16
def lossless(fmt):
    """does this float_format keep every double"""
    if fmt is None:
        return True
    if isinstance(fmt, str):
        import re

        m = re.fullmatch(r"%\.(\d+)([eg])", fmt)
        if m:
            return int(m[1]) >= (17 if m[2] == "g" else 16)
        return False
    return fmt in (repr,)


PLAIN = {"index": False, "header": True, "sep": ",", "mode": "w", "columns": None, "na_rep": "", "lineterminator": None, "compression": "infer",
         "quoting": None, "chunksize": None, "date_format": None, "decimal": ".", "errors": "strict", "quotechar": '"', "doublequote": True,
         "escapechar": None, "index_label": None, "storage_options": None}


def check_csv(e, f, want, df=None):
    ev = [x for x in f.events if x[0] != "mkdir"]
    what = "exactly one CSV file is written, at the requested path with the suffix .csv"
    ok = len(ev) == 1 and ev[0][0] == "csv" and ev[0][1] == want.key()
    e.prove(what, ok)
    if len(ev) != 1 or ev[0][0] != "csv":
        return None
    d, kw = ev[0][2], ev[0][3]
    e.prove("the file has no index column", kw.get("index", True) is False)
    for k, v in kw.items():
        if k in ("encoding", "chunksize", "errors", "date_format", "storage_options") or (k, v) in (("lineterminator", "\n"), ("lineterminator", "\r\n"), (
                "quoting", 0), ("compression", None), ("na_rep", "nan"), ("na_rep", "NaN"), ("na_rep", "NA")):
            continue
        if k == "float_format":
            e.prove("values survive reading back", lossless(v))
        elif k == "header":
            e.prove("the file has the header rows", v is True)
        elif k == "mode":
            e.prove("earlier content is replaced", v == "w")
        elif k == "columns":
            e.prove("every column is written", v is None or (list(v) == d.columns if d.columns is not None else False))
        elif k in PLAIN:
            e.prove("the file is plain comma-separated text", v == PLAIN[k])
        else:
            raise E.Unsupported("to_csv argument " + k)
    if df is not None:
        e.prove("the file holds the table", d.data is df[0] and d.columns == df[1])
    return d


@scenario("C16", weight=3)
def write_file(pid, tier):
    ens = []
    for out in ("given", "~/given", "empty", "none", "default"):
        en = E.Engine(f"write_file (output {out})", fn="geec/api.py:write_file", samples=conf_samples(3), max_paths=60)

        def case(env, out=out):
            o = {"given": "deep/er/x.tar.gz", "~/given": "~/res/x"}.get(out, "")
            r = [1 / 3, 6.67408e-11, 123456.789012345, -1e-9, 2.5, 1e9 / 7, 1 / 7, 0.1, 3.0, -2 / 3, 1e-12 / 3, 0.0]
            return {"out": o, "values": [r, r[::-1]], "multi": True, "pre": True, "n": 2}

        en.case_of = case

        def scen(out=out):
            e = E.eng()
            w = cfg_world(("geec.api",))
            f = vfs.fs()
            seq = Seq("rows")
            m = SymMat(seq, [T.var(f"c{i}", frozenset(["rows"])) for i in range(12)])
            cols = [(f"n{i}", f"(u{i})") for i in range(12)]
            df = vfs.DF(m, columns=cols)
            name = SymStr("output")
            arg = {"given": name, "~/given": "~/res/x.txt", "empty": "", "none": None}.get(out)
            want = VPath(arg).expanduser().resolve().with_suffix(".csv") if out in ("given", "~/given") else None
            try:
                if out == "default":
                    w.mods["geec.api"].write_file(df)
                else:
                    w.mods["geec.api"].write_file(df, arg)
            except Exception as ex:
                if not isinstance(ex, OSError):
                    refusal(ex)
                if want is None:
                    e.fail("without an output path nothing is written", f"raised {type(ex).__name__}: {ex}")
                else:
                    e.fail("missing directories are created and existing ones accepted", f"raised {type(ex).__name__}: {ex}")
                return
            e.prove("writing does not change the table", df.data is m and df.columns == cols)
            if want is None:
                e.prove("without an output path nothing is written", not f.events)
                return
            check_csv(e, f, want, (m, cols))

        en.explore(scen)
        ens.append(en)
    return Result(ens, ["geec/api.py:write_file"], [
        "pathlib.Path and os follow their documentation (the paths are an unknown string, existence of files and directories is decided both ways)",
        "pandas.DataFrame.to_csv with its default number format writes every row and column so that the values survive reading back"])


# ------------------------------------------------------------------ C14
FLD = {}
for _i in range(3):
    FLD["g%d" % _i] = "field.g%d" % _i
    for _j in range(3):
        FLD["t%d%d" % (_i, _j)] = "field.t%d%d" % (min(_i, _j), max(_i, _j))
for _k, _n in enumerate(sorted(set(FLD.values()))):
    T.FNS[_n] = (lambda k: lambda b, x, y, z, r, g: r * g * (x + (k + 2) * y - k * z + b * (k + 1)) / (1 + x * x + y * y + z * z + k * b * b))(_k)


class MassSpec:
    """a configured body: any number of points in a given reference system"""

    def __init__(self, tag, ref, vd, ell, deps=()):
        self.tag, self.ref, self.vd, self.ell = tag, ref, vd, ell
        self.rows = Seq("rows" + tag)
        d = frozenset(deps)
        self.pt = [T.var(f"p{c}{tag}", d | {self.rows.name}) for c in XYZ]
        self.rho, self.gc, self.bid = (T.var(n + tag, d) for n in ("rho", "Gc", "body"))
        self.org = [T.var(n + tag, d) for n in ("lon0", "lat0", "alt0")]

    def crs(self):
        return {"ref": self.ref, "vdatum": self.vd, "name": self.ell, "semimajor_axis": None, "semiminor_axis": None,
                "longitude_origin": raw(self.org[0]), "latitude_origin": raw(self.org[1]), "altitude_origin": raw(self.org[2])}

    def cfg(self):
        d = {"points": PointList([Block(self.rows, [raw(t) for t in self.pt])]), "file_path": None, "crs": self.crs()}
        d["density"], d["gravity_constant"] = raw(self.rho), raw(self.gc)
        return d

    def field(self, kind, obs):
        return T.fn(FLD[kind], self.bid, *obs, self.rho, self.gc)

    def position(self, row):
        """ECEF position of the point as given"""
        m = conf.models()
        ell = type("Ell", (), {"semimajor_axis": m[self.ell]["a"], "semiminor_axis": m[self.ell]["b"]})() if self.ell else None
        return G.phys(self.ref, row, ell, self.org)

    def normalised(self, w):
        """the row with longitude and height normalised, by the contracts of C09 (run on a data set of its own)"""
        c, ds = w.mods["geec.crs"], w.mods["geec.dataset"]
        if self.ref != "ellps":
            return self.pt
        x = ds.Dataset(coords=SymMat(self.rows, list(self.pt)), crs=c.CRS(name=c.CRSEnum.ELLPS, ellps=c.Ellipsoid(name=self.ell) if self.ell else c.Ellipsoid(),
                                                                      vdatum=c.VDatumEnum(self.vd or "ellps")))
        x.to_lon180()
        x.to_ellipsoid_height()
        if not isinstance(x.coords, SymMat) or len(x.coords.cols) != 3:
            raise E.Unsupported("normalised coordinates")
        return x.coords.cols


def stub_polyhedron(specs):
    """contract of Polyhedron: its field is that of the body with the given points"""

    def patch(m):
        real = m.Polyhedron

        class Polyhedron(real):
            vc_walk = False

            def __init__(self, points, *a, **k):
                e = E.eng()
                if a or k:
                    raise E.Unsupported("arguments of Polyhedron")
                what = "a body is built from its own points, longitudes and heights normalised, in ECEF coordinates"
                self.spec = None
                if isinstance(points, SymMatT):
                    e.fail(what, "the points are transposed")
                    raise E.Unsupported("transposed points")
                if not isinstance(points, SymMat) or len(points.cols) != 3:
                    raise E.Unsupported("points of type " + type(points).__name__)
                for s in specs["masses"]:
                    if points.seq == s.rows:
                        self.spec = s
                e.prove(what, self.spec is not None)
                if self.spec is None:
                    raise E.Unsupported("points of an unknown body")
                want = self.spec.position(self.spec.normalised(specs["w"]))
                for x, y in zip(points.cols, want):
                    e.eq(what, x, y)
                self.points = points
                self.npoints = mk(points.seq.count)

            def get_gravity(self, obs, density, Gc, gradient=False):
                e = E.eng()
                o = [term(x) for x in obs]
                s = self.spec
                e.eq("a body is used with its own density", term(density), s.rho)
                e.eq("a body is used with its own gravity constant", term(Gc), s.gc)
                g = arr([T.fn(FLD["g%d" % i], s.bid, *o, term(density), term(Gc)) for i in range(3)])
                if not gradient:
                    return g, stubs.NP.zeros((3, 3))
                t = sarr([[mk(T.fn(FLD["t%d%d" % (i, j)], s.bid, *o, term(density), term(Gc))) for j in range(3)] for i in range(3)])
                return g, t

            __repr__ = object.__repr__

        m.Polyhedron = Polyhedron

    return patch


def run_world(read_csv=None, specs=None, mass=None):
    real = vfs.patches()
    if mass is not None:
        real["geec.mass"] = mass
    if specs is not None:
        real["geec.polyhedron"] = stub_polyhedron(specs)
    w = conf_world(read_csv, mods=("geec.cli",), patches=real)
    vfs.fs().dirs.add(os.path.dirname(USER))
    if specs is not None:
        specs["w"] = w
    return w


GEO = [("ellps", "egm96", "airy"), ("ellps", None, None), ("ellps", "egm2008", "wgs84"), ("enu", None, "grs80"), ("ecef", None, None)]
OBS = [("ellps", None, "wgs84"), ("ellps", None, "airy"), ("ellps", None, None), ("enu", None, "hayford"), ("ecef", None, None)]


def run_combos(tier):
    out = []
    for grad in (False, True):
        out.append((("cart", None, None), ("cart", None, None), grad, "arg"))
        for i, m in enumerate(GEO):
            for j, o in enumerate(OBS):
                out.append((m, o, grad, ("arg", "user", "default")[(i + j) % 3]))
        for o in (("cart", None, None), OBS[1], OBS[4]):
            out.append((None, o, grad, "arg"))  # no bodies
    return out


NAMES_CART = [("x_mes", "(m)"), ("y_mes", "(m)"), ("z_mes", "(m)")]
NAMES_GEO = [("lon_mes", "(degree_east)"), ("lat_mes", "(degree_north)"), ("alt_mes", "(m)")]
NAMES_F = [(n, "(mGal)") for n in ("Gx", "Gy", "Gz")] + [(n, "(E)") for n in ("txx", "txy", "txz", "tyy", "tyz", "tzz")]


def case14(ms, ob, grad):
    """a replay case with the same reference systems: small bodies around one place"""
    import math

    md = conf.models()
    cart = ob[0] == "cart"
    lon0, lat0 = 179.99, 41.0

    def local(x, ref, ell, org):
        """point x [m, ENU at (lon0, lat0, 500) on WGS84] in the given system"""
        if cart:
            return list(x)
        a, b = (mpmath.mpf(md["wgs84"][k]) for k in "ab")
        p = G._n2e(*map(mpmath.mpf, x), mpmath.mpf(lat0), mpmath.mpf(lon0), mpmath.mpf(500), a, b)
        if ref == "ecef":
            return [float(v) for v in p]
        a, b = (mpmath.mpf(md[ell or "wgs84"][k]) for k in "ab")
        if ref == "ellps":
            la, lo, h = G._e2g(*p, a, b)
            return [float(lo if lo > 0 else lo + 360), float(la), float(h)]
        return [float(v) for v in G._e2n(*p, mpmath.mpf(org[1]), mpmath.mpf(org[0]), mpmath.mpf(org[2]), a, b)]

    def f(env):
        L = 1.0 if cart else 1000.0
        out = []
        for i, (ref, vd, ell) in enumerate(ms):
            rho, gc = 1000.0 + 700 * i, 6.67e-11 * (1 + i)
            if env is not None and i != 2:  # signs and magnitudes as in the counterexample
                tag, d = (("A", ()), ("K", ("masses",)), None, ("Z", ()))[i]
                x, y = (num(T.var(n + tag, frozenset(d)), env) for n in ("rho", "Gc"))
                rho = x if abs(x) < 1e5 else rho * (1 if x > 0 else -1)
                gc = 6.67e-11 * y if abs(y) < 1e3 else gc * (1 if y > 0 else -1)
            org = [lon0 - 0.01 * (i + 1), lat0 + 0.01, 200.0 + i]
            c = [3 * L * i, L * i, -L]
            pts = [[c[0] + L * (k & 1), c[1] + L * (k >> 1 & 1) * 1.5, c[2] + L * (k >> 2)] for k in range(8)]
            out.append({"ref": ref, "ell": ell or "wgs84", "org": org, "vdatum": vd or "ellps", "points": [local(p, ref, ell, org) for p in pts],
                        "density": rho, "gc": gc})
        org = [lon0 - 0.02, lat0 - 0.01, 100.0]
        pts = [[-4 * L, 5 * L, 6 * L], [9 * L, -7 * L, 2 * L], [1 * L, 2 * L, 8 * L]]
        return {"masses": out, "obs": {"ref": ob[0], "ell": ob[2] or "wgs84", "org": org, "points": [local(p, ob[0], ob[2], org) for p in pts]},
                "gradient": grad, "cart": cart, "filesrc": False}

    return f


@scenario("C14", weight=8)
def run(pid, tier):
    ens = []
    for m, ob, grad, src in run_combos(tier):
        none = m is None
        m = m or ("cart", None, None)
        first = ("cart", None, None) if m[0] == "cart" else ("ellps", "egm84", "clarke1866")
        last = ("cart", None, None) if m[0] == "cart" else ("enu", None, "wgs84")
        bodies = "no bodies" if none else f"bodies {first[0]}, {m[0]} {m[1] or ''} {m[2] or ''}..., {last[0]}"
        en = E.Engine(f"run ({bodies}; observers {ob[0]} {ob[2] or ''}; {'gradient; ' if grad else ''}configuration {src})",
                      fn="geec/cli.py:run", samples=conf_samples(3), max_paths=400)
        en.case_of = case14([] if none else [first, m, m, last], ob, grad)

        def scen(none=none, m=m, ob=ob, grad=grad, src=src, first=first, last=last):
            e = E.eng()
            seq = Seq("masses")
            ms = [MassSpec("A", *first), MassSpec("K", *m, deps=("masses",)), MassSpec("Z", *last)]
            specs = {"masses": ms}
            w = run_world(None, specs)
            f = vfs.fs()
            o = MassSpec("O", *ob)
            for x in ms + [o]:
                e.assume(cmp(">", x.rows.count))
            ocfg = o.cfg()
            del ocfg["density"], ocfg["gravity_constant"]
            ocfg["grid"] = {f"{c}start_{c}end_{c}step": [0, 1, 1] for c in XYZ}
            cfg = {"masses": [] if none else [ms[0].cfg(), Block(seq, ms[1].cfg()), ms[2].cfg()], "observers": ocfg}
            name, out = SymStr("config"), SymStr("output")
            decoy = full_cfg("decoy")
            arg = ""
            f.files[DEFAULT] = decoy
            if src == "arg":
                arg = name
                f.files[vfs.pathkey(name)] = cfg
                f.files[USER] = full_cfg("decoy2")
            elif src == "user":
                f.files[USER] = cfg
            else:
                f.files[DEFAULT] = cfg
            want = VPath(out).expanduser().resolve().with_suffix(".csv")
            f.dirs.add(want.parent.key())
            try:
                w.mods["geec.cli"].run(output=out, usercfg=arg, gradient=grad)
            except Exception as ex:
                refusal(ex)
                e.fail("a run on a valid configuration succeeds", f"raised {type(ex).__name__}: {ex}")
                return
            d = check_csv(e, f, want)
            if d is None:
                return
            m_ = d.data
            cart = ob[0] == "cart"
            e.prove("columns have their documented names and units",
                    d.columns is not None and [tuple(c) for c in d.columns] == (NAMES_CART if cart else NAMES_GEO) + NAMES_F)
            if not isinstance(m_, SymMat):
                raise E.Unsupported("table of type " + type(m_).__name__)
            what = "one row per observation point, in the given order"
            e.prove(what, m_.seq == o.rows and len(m_.cols) == 12)
            if m_.seq != o.rows or len(m_.cols) != 12:
                return
            pos = o.position(o.pt)
            if cart:
                coords = o.pt
            elif ob[0] == "ellps" and ob[2] in (None, "wgs84"):
                coords = o.pt
            else:
                la, lo, h = G.e2g(*pos, *G.WGS)
                coords = (lo, la, h)
            for i in range(3):
                e.eq("a row starts with the point (WGS84 longitude, latitude, altitude unless cartesian)", m_.cols[i], coords[i])

            def total(kind):
                if none:
                    return T.ZERO
                r = T.add(ms[0].field(kind, pos), ms[2].field(kind, pos))
                return T.add(r, T.tsum(seq, ms[1].field(kind, pos)))

            for i in range(3):
                e.eq("gravity is the sum over all bodies at the point's position", m_.cols[3 + i], total("g%d" % i))
            k = 6
            for i in range(3):
                for j in range(i, 3):
                    e.eq("the tensor is the sum over all bodies, zeros unless gradients were requested", m_.cols[k], total("t%d%d" % (i, j)) if grad else T.ZERO)
                    k += 1

        en.explore(scen)
        ens.append(en)
    return Result(ens, ["geec/cli.py:run", "geec/mass.py:get_masses", "geec/mass.py:to_lon180", "geec/mass.py:to_ellipsoid_height", "geec/mass.py:to_ecef",
                        "geec/observer.py:get_observer", "geec/observer.py:Observer.__post_init__", "geec/observer.py:Observer.to_wgs84", "geec/observer.py:Observer.to_ecef",
                        "geec/station.py:Station.__init__", "geec/station.py:Station.compute_gravity", CFG + "setup", CFG + "show", "geec/api.py:write_file"],
                  CONF_ASM + G.ASM + ["the field of a body is an unknown function of the body, the point, the density and the gravity constant (its meaning is C01, C02; that it has no memory is C04)",
                                      "normalised longitudes and heights are those of the contracts of C09"])


def roundings(cols):
    """functions of the columns' terms that lose digits"""
    bad = set()
    for c in cols:
        for i in term(c).atoms(deep=True):
            n = T.ATOMS[i].name.split("(")[0]
            if n.startswith(("round", "floor", "ceil", "trunc", "float32", "int")):
                bad.add(n)
    return bad


@scenario("C16", weight=3)
def run_file(pid, tier):
    """a run's results are in the file at the path that was asked for"""
    ens = []
    for out in ("given", "~/given", "empty"):
        for grad in (False, True):
            m, ob = ("cart", None, None), ("cart", None, None)
            en = E.Engine(f"run (output {out}{'; gradient' if grad else ''})", fn="geec/cli.py:run", samples=conf_samples(3), max_paths=60)
            en.case_of = lambda env, out=out, grad=grad: {"run": {"given": "deep/er/x.tar.gz", "~/given": "~/res/x"}.get(out, ""), "gradient": grad}

            def scen(m=m, ob=ob, grad=grad, out=out):
                e = E.eng()
                seq = Seq("masses")
                ms = [MassSpec("A", *m), MassSpec("K", *m, deps=("masses",)), MassSpec("Z", *m)]
                w = run_world(None, {"masses": ms})
                f = vfs.fs()
                o = MassSpec("O", *ob)
                for x in ms + [o]:
                    e.assume(cmp(">", x.rows.count))
                ocfg = o.cfg()
                del ocfg["density"], ocfg["gravity_constant"]
                ocfg["grid"] = {f"{c}start_{c}end_{c}step": [0, 1, 1] for c in XYZ}
                name = SymStr("config")
                f.files[DEFAULT] = full_cfg("decoy")
                f.files[vfs.pathkey(name)] = {"masses": [ms[0].cfg(), Block(seq, ms[1].cfg()), ms[2].cfg()], "observers": ocfg}
                arg = {"given": SymStr("output"), "~/given": "~/res/x.txt", "empty": ""}[out]
                want = VPath(arg).expanduser().resolve().with_suffix(".csv") if arg != "" else None
                try:
                    w.mods["geec.cli"].run(output=arg, usercfg=name, gradient=grad)
                except Exception as ex:
                    refusal(ex)
                    e.fail("writing the results of a run succeeds", f"raised {type(ex).__name__}: {ex}")
                    return
                if want is None:
                    e.prove("without an output path nothing is written", not [x for x in f.events if x[0] != "mkdir"])
                    return
                d = check_csv(e, f, want)
                if d is None:
                    return
                m_ = d.data
                if not isinstance(m_, SymMat):
                    raise E.Unsupported("table of type " + type(m_).__name__)
                e.prove("every row and every column of the results is written", m_.seq == o.rows and len(m_.cols) == 12)
                e.prove("the file has the header rows", d.columns is not None and len(d.columns) == len(m_.cols) and all(
                    isinstance(c, tuple) and len(c) == 2 for c in d.columns))
                bad = roundings(m_.cols)
                e.prove("the results are written with all their digits" + (": " + ", ".join(sorted(bad)) if bad else ""), not bad)

            en.explore(scen)
            ens.append(en)
    return Result(ens, ["geec/cli.py:run", "geec/api.py:write_file"], CONF_ASM)
