"""Stand-ins for the file system, the process environment, pandas, typer: they record what is written
and answer reads from a virtual file system.  Paths given by the user are unknown strings."""
from __future__ import annotations

import os as _os
import posixpath
import pathlib as _pathlib

from .base import *  # noqa: F401,F403
from .base import T, E, rt, mk, term, stubs, loader
from vc.sym import SymStr

HOME, CWD = "/home/u", "/work"
PKGDIR = _os.path.join(loader.REPO, "geec")


class FS:
    """current virtual file system (one per path of the symbolic execution)"""

    def __init__(self):
        self.files = {}  # known file name -> content
        self.events = []
        self.unread = set()
        self.absent = set()
        self.dirs = set()

    def isdir(self, k):
        """does the directory exist? decided both ways where it is not known"""
        if k in self.dirs:
            return True
        if isinstance(k, str) and (k in (HOME, CWD, "/") or k.startswith(loader.REPO)):
            return True
        return bv("directory exists: " + str(k))

    def mkdir(self, p, parents, exist_ok):
        p = VPath(p)
        k = p.key()
        self.events.append(("mkdir", k))
        if not exist_ok and self.isdir(k):
            raise FileExistsError(17, "File exists", str(p))
        if not parents and not self.isdir(p.parent.key()):
            raise FileNotFoundError(2, "No such file or directory", str(p))
        self.dirs.add(k)

    def write(self, kind, p, *what):
        p = VPath(p)
        if not self.isdir(p.parent.key()):
            raise FileNotFoundError(2, "No such file or directory", str(p))
        self.events.append((kind, p.key()) + what)


CUR = None


def fs() -> FS:
    return CUR


def reset():
    global CUR
    CUR = FS()
    return CUR


def pathkey(x):
    """identity of the file a path denotes"""
    if isinstance(x, VPath):
        return x.key()
    if isinstance(x, SymStr):
        return VPath(x).key()
    return posixpath.normpath(posixpath.join(CWD, str(x)))


class VPath:
    """pathlib.Path: `base` is a concrete string or an unknown string, followed by known operations"""

    def __init__(self, *parts):
        p = parts[0] if parts else "."
        if len(parts) > 1:
            q = VPath(p)
            for y in parts[1:]:
                q = q / y
            self.base, self.exp, self.abs, self.suf, self.up, self.tail = q.base, q.exp, q.abs, q.suf, q.up, q.tail
            return
        if isinstance(p, PathStr):
            p = p.path
        if isinstance(p, VPath):
            self.base, self.exp, self.abs, self.suf, self.up, self.tail = p.base, p.exp, p.abs, p.suf, p.up, p.tail
        else:
            if not isinstance(p, (str, SymStr)):
                if hasattr(p, "vc_tostr"):
                    p = p.vc_tostr()
                elif isinstance(p, _os.PathLike):
                    p = _os.fspath(p)
                else:
                    raise TypeError("argument should be a str or an os.PathLike object, not " + type(p).__name__)
            self.base, self.exp, self.abs, self.suf, self.up, self.tail = p, False, False, None, 0, ()

    def _with(self, **k):
        r = VPath(self)
        for a, b in k.items():
            setattr(r, a, b)
        return r

    @property
    def conc(self):
        return isinstance(self.base, str)

    def s(self):
        """concrete text"""
        p = _pathlib.PurePosixPath(self.base)
        return str(p)

    def key(self):
        if self.conc:
            return posixpath.normpath(posixpath.join(CWD, self.s()))
        return ("?" + self.base.name, self.exp, self.suf, self.up, self.tail)

    # --- pure operations
    def expanduser(self):
        if self.conc:
            b = self.base
            return VPath(HOME + b[1:]) if b == "~" or b.startswith("~/") else self
        if self.abs:
            return self  # an absolute path does not start with ~
        if self.suf is not None or self.up or self.tail:
            pass  # the first part is not touched by these
        return self._with(exp=True)

    def resolve(self, *a, **k):
        if self.conc:
            return VPath(posixpath.normpath(posixpath.join(CWD, self.s())))
        return self._with(abs=True)

    absolute = resolve

    def with_suffix(self, suf):
        if self.conc:
            return VPath(str(_pathlib.PurePosixPath(self.base).with_suffix(suf)))
        if self.up or self.tail:
            raise E.Unsupported("suffix of a derived path")
        return self._with(suf=suf)

    @property
    def parent(self):
        if self.conc:
            return VPath(str(_pathlib.PurePosixPath(self.base).parent))
        if self.tail:
            return self._with(tail=self.tail[:-1])
        # the directory does not depend on the suffix of the last part
        return self._with(up=self.up + 1, suf=None)

    def __truediv__(self, o):
        if self.conc and isinstance(o, (str, _pathlib.PurePath)):
            return VPath(str(_pathlib.PurePosixPath(self.base) / str(o)))
        if isinstance(o, str) and not o.startswith("/"):
            return self._with(tail=self.tail + (o,))
        if isinstance(o, VPath) and o.abs:
            return o
        raise E.Unsupported("join of unknown paths")

    def joinpath(self, *o):
        r = self
        for x in o:
            r = r / x
        return r

    @property
    def name(self):
        if self.conc:
            return _pathlib.PurePosixPath(self.base).name
        raise E.Unsupported("name of an unknown path")

    @property
    def suffix(self):
        if self.conc:
            return _pathlib.PurePosixPath(self.base).suffix
        if self.suf is not None:
            return self.suf
        return SymStr("suffix of " + self.base.name)

    @property
    def stem(self):
        if self.conc:
            return _pathlib.PurePosixPath(self.base).stem
        raise E.Unsupported("stem of an unknown path")

    def as_posix(self):
        return self.vc_tostr()

    def vc_tostr(self):
        if self.conc:
            return self.s()
        if not (self.up or self.tail or self.suf or self.exp):
            return self.base
        return PathStr(self)

    def __fspath__(self):
        if self.conc:
            return self.s()
        raise E.Unsupported("text of an unknown path")

    def __str__(self):
        return self.s() if self.conc else "<path>"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __eq__(self, o):
        if not isinstance(o, VPath):
            return False
        return self.key() == o.key()

    def __hash__(self):
        return hash(str(self.key()))

    def vc_isinstance(self, t):
        if t in (_pathlib.Path, _pathlib.PurePath, _os.PathLike, VPath):
            return True
        return None

    @classmethod
    def cwd(cls):
        return VPath(CWD)

    @classmethod
    def home(cls):
        return VPath(HOME)

    # --- effects
    def is_file(self):
        return exists(self)

    def exists(self):
        k = self.key()
        if isinstance(k, tuple) and (k[3] or k in fs().dirs):
            return fs().isdir(k)
        return exists(self)

    def is_dir(self):
        return fs().isdir(self.key())

    def open(self, mode="r", *a, **k):
        return VFile(self, mode)

    def unlink(self, missing_ok=False):
        fs().events.append(("unlink", self.key()))

    def touch(self, *a, **k):
        fs().write("write", self, "")

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        fs().mkdir(self, parents, exist_ok)

    def read_text(self, *a, **k):
        return read(self)

    read_bytes = read_text

    def write_text(self, data, *a, **k):
        fs().write("write", self, data)
        return 0

    write_bytes = write_text

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise E.Unsupported("Path." + n)


class PathStr(SymStr):
    """text of a path derived from an unknown string"""

    def __init__(self, path):
        super().__init__("text of " + str(path.key()))
        self.path = path


def bv(name):
    return bool(SymBool(E.Cond("bv", name, frozenset())))


def exists(p):
    k = pathkey(p)
    if k in fs().files:
        return True
    if isinstance(k, str) or k in fs().absent:
        return False
    return bv("file exists: " + str(k))


class Content:
    """unknown text of a file"""

    def __init__(self, key):
        self.key = key

    def vc_isinstance(self, t):
        return True if t in (str, bytes) else None

    def encode(self, *a):
        return self

    decode = encode

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise E.Unsupported("text of a file: " + n)


def read(p):
    k = pathkey(p)
    if isinstance(k, str) and k not in fs().files and not _os.path.isfile(k):
        raise FileNotFoundError(k)
    return Content(k)


# ------------------------------------------------------------------ os, shutil
def _u(n):
    def f(*a, **k):
        raise E.Unsupported(n)

    return f


class OSPath:
    sep = "/"

    @staticmethod
    def isfile(p):
        return exists(p)

    exists = isfile

    @staticmethod
    def isdir(p):
        return fs().isdir(pathkey(p))

    @staticmethod
    def dirname(p):
        if isinstance(p, (SymStr, VPath)):
            return VPath(p).parent.vc_tostr()
        return posixpath.dirname(p)

    @staticmethod
    def abspath(p):
        if isinstance(p, SymStr):
            return p
        if isinstance(p, VPath):
            return p.resolve().vc_tostr()
        return posixpath.normpath(posixpath.join(CWD, p))

    realpath = abspath

    @staticmethod
    def expanduser(p):
        if isinstance(p, (SymStr, VPath)):
            return VPath(p).expanduser()
        return HOME + p[1:] if p == "~" or p.startswith("~/") else p

    @staticmethod
    def expandvars(p):
        raise E.Unsupported("expandvars")

    def __getattr__(self, n):
        f = getattr(posixpath, n)
        if not callable(f):
            return f
        if n not in ("join", "dirname", "basename", "splitext", "split", "normpath", "isabs", "relpath"):
            raise E.Unsupported("os.path." + n)

        def g(*a):
            if any(not isinstance(x, str) for x in a):
                raise E.Unsupported("os.path.%s of an unknown path" % n)
            return f(*a)

        return g


# variables of the process that no configuration may be taken from
ENVIRON = {"GEEC_OUTPUT": "env", "GEEC_OBSERVERS__FILE_PATH": "env", "GEEC_OBSERVERS__POINTS": "env", "GEEC_OBSERVERS__CRS__REF": "env",
           "GEEC_OBSERVERS__GRID__XSTART_XEND_XSTEP": "env", "GEEC_MASSES__0__DENSITY": "3.5", "GEEC_MASSES__1__CRS__VDATUM": "env",
           "GEEC_DENSITY": "4.5", "GEEC_FILE_PATH": "env", "FILE_PATH": "env", "OUTPUT": "env", "PATH": "/usr/bin:/bin", "USER": "u"}


class Environ(dict):
    """any other variable named after the program holds the path of a readable configuration file that is no source"""

    def __missing__(self, k):
        if self.decoy(k):
            return DECOY
        raise KeyError(k)

    @staticmethod
    def decoy(k):
        return isinstance(k, str) and k.upper().startswith("GEEC") and not k.endswith("DIR")

    def __contains__(self, k):
        return dict.__contains__(self, k) or self.decoy(k)

    def get(self, k, d=None):
        return self[k] if k in self else d


DECOY = "/elsewhere/decoy.yaml"


class OS(type(_os)):
    def __init__(self):
        super().__init__("os")
        self.path = OSPath()
        self.environ = Environ(ENVIRON, HOME=HOME)
        self.getenv = self.environ.get
        self.sep, self.linesep, self.name = "/", "\n", "posix"
        self.PathLike, self.fspath = _os.PathLike, _os.fspath

    def makedirs(self, p, mode=0o777, exist_ok=False):
        fs().mkdir(p, True, exist_ok)

    def mkdir(self, p, mode=0o777):
        fs().mkdir(p, False, False)

    def getcwd(self):
        return CWD

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise E.Unsupported("os." + n)


def shutil():
    def copy(a, b, *x, **k):
        fs().write("write", b, read(a))
        return b

    m = stubs.module("shutil", copy=copy, copyfile=copy, copy2=copy)
    return m


class VFile:
    """an open file"""

    def __init__(self, p, mode="r", *a, **k):
        self.p, self.mode, self.parts = VPath(p), mode.replace("t", "").replace("b", ""), []
        if self.mode not in ("r", "w", "a", "x"):
            raise E.Unsupported("open mode " + mode)
        if self.mode == "r":
            self.text = read(self.p)
        elif self.mode == "x" and exists(self.p):
            raise FileExistsError(17, "File exists", str(self.p))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def read(self, *a):
        return self.text

    def write(self, x):
        self.parts.append(x)

    vc_write = write

    def close(self):
        if self.mode == "r" or self.parts is None:
            return
        parts, self.parts = self.parts, None
        one = parts[0] if len(parts) == 1 else tuple(parts)
        kind = "append" if self.mode == "a" else "write"
        if isinstance(one, CSVText) and kind == "write":
            fs().write("csv", self.p, one.df, one.kw)
        else:
            fs().write(kind, self.p, one)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise E.Unsupported("file." + n)


class CSVText:
    def __init__(self, df, kw):
        self.df, self.kw = df, kw

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise E.Unsupported("text of a table: " + n)


def _open(p, mode="r", *a, **k):
    return VFile(p, mode)


rt.OPEN = _open


# ------------------------------------------------------------------ pandas
class DF:
    """pandas.DataFrame"""

    def __init__(self, data=None, index=None, columns=None, dtype=None, **k):
        if k or index is not None:
            raise E.Unsupported("DataFrame arguments")
        if isinstance(columns, MI):
            columns = columns.tuples
        self.data, self.columns = data, None if columns is None else list(columns)

    @property
    def values(self):
        return self.data

    def to_numpy(self, dtype=None, **k):
        return self.data.astype(float) if dtype is not None else self.data

    def to_csv(self, path=None, **k):
        if hasattr(path, "vc_write"):
            path.vc_write(CSVText(self, k))
        elif path is None:
            return CSVText(self, k)
        else:
            fs().write("csv", path, self, k)

    def copy(self, *a, **k):
        return DF(self.data, columns=self.columns)

    def astype(self, *a, **k):
        return DF(self.data.astype(float), columns=self.columns)

    def dropna(self, *a, **k):
        return self  # files of complete triples

    def reset_index(self, drop=False, **k):
        return self if drop else self._no("reset_index")

    def _no(self, n):
        raise E.Unsupported("DataFrame." + n)

    def _other(self, n):
        """rows that depend on the values of all rows: in general not those of the table"""
        if not isinstance(self.data, SymMat):
            self._no(n)
        s = Seq(f"{self.data.seq.name} after {n}")
        m = SymMat(s, [T.var(f"{n}({T.show(c, 40)})", frozenset([s.name])) for c in self.data.cols])
        m.raw = self.data.raw
        return DF(m, columns=self.columns)

    def drop_duplicates(self, *a, **k):
        return self._other("drop_duplicates")

    def sort_values(self, *a, **k):
        return self._other("sort_values")

    def round(self, decimals=0, **k):
        return DF(self.data.round(decimals), columns=self.columns)

    @property
    def shape(self):
        return self.data.shape

    @property
    def empty(self):
        return not self.data.shape[0] > 0

    def vc_len(self):
        return self.data.shape[0]

    def head(self, *a):
        return self._other("head")

    def tail(self, *a):
        return self._other("tail")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise E.Unsupported("DataFrame." + n)


class MI:
    def __init__(self, tuples):
        self.tuples = tuples

    @classmethod
    def from_tuples(cls, it, **k):
        return cls([tuple(x) for x in it])

    @classmethod
    def from_arrays(cls, it, **k):
        return cls(list(zip(*it)))

    def __iter__(self):
        return iter(self.tuples)

    def __len__(self):
        return len(self.tuples)


def pandas(read_csv=None):
    return stubs.module("pandas", DataFrame=DF, MultiIndex=MI, read_csv=read_csv or _u("pandas.read_csv"))


# ------------------------------------------------------------------ typer
def typer():
    class Typer:
        def __init__(self, *a, **k):
            pass

        def command(self, *a, **k):
            return lambda f: f

        callback = command

        def __call__(self, *a, **k):
            raise E.Unsupported("typer application")

    class Exit(RuntimeError):
        pass

    class BadParameter(Exception):
        pass

    return stubs.module("typer", Typer=Typer, Argument=lambda *a, **k: None, Option=lambda *a, **k: None, Exit=Exit, BadParameter=BadParameter,
                        Abort=Exit, echo=lambda *a, **k: None, run=_u("typer.run"))


def pathlib():
    return stubs.module("pathlib", Path=VPath, PosixPath=VPath, PurePath=_pathlib.PurePath, PurePosixPath=_pathlib.PurePosixPath)


def resources():
    def files(p):
        n = getattr(p, "__name__", p)
        return VPath(_os.path.join(loader.REPO, *str(n).split(".")))

    r = stubs.module("importlib.resources", files=files)
    return {"importlib.resources": r, "importlib": stubs.module("importlib", resources=r)}


# ------------------------------------------------------------------ confuse
def patches():
    """contracts of confuse's own access to the outside: reading a YAML file, the directory of a package;
    iteration over a list of unknown length"""

    def yaml_util(m):
        def load_yaml(filename, loader=None):
            k = pathkey(filename)
            f = fs()
            if k in f.unread:
                raise m.ConfigReadError(str(filename)) if hasattr(m, "ConfigReadError") else E.Unsupported("confuse")
            if k in f.files:
                return f.files[k]
            raise m.ConfigReadError(str(filename), None)

        m.load_yaml = load_yaml

    def util(m):
        def find(name):
            d = _os.path.join(loader.REPO, *name.split("."))
            return d if _os.path.isdir(d) else _os.path.dirname(d)

        m.find_package_path = find

    def core(m):
        def vc_items(self):
            try:
                v, _ = self.first()
            except Exception:
                return None
            if isinstance(v, (list, tuple)) and has_block(v):
                return [Block(b.seq, m.Subview(self, ItemPos(v, i))) if isinstance(b, Block) else m.Subview(self, ItemPos(v, i)) for i, b in enumerate(v)]
            return None

        real = m.ConfigView.sequence

        def sequence(self):
            r = vc_items(self)
            return real(self) if r is None else SymSeq(r)

        m.ConfigView.vc_items = vc_items
        m.ConfigView.sequence = sequence

    return {"confuse.yaml_util": yaml_util, "confuse.util": util, "confuse.core": core}
