"""Loads the modules of /repo/geec for symbolic execution.  The source text is parsed on every run and
only these rewrites are made (nothing is dropped): loops and comprehensions are routed through vc.rt
(so that an unbounded sequence is handled by one generic iteration), calls of a few builtins (len, zip,
range, sum, isinstance, ...), subscript reads and membership tests are routed through vc.rt, and imports of external
packages are answered by contracts (vc.stubs)."""
from __future__ import annotations

import ast
import builtins
import os
import sys
import types

from . import rt

REPO = os.environ.get("GEEC_REPO", "/repo")
PKG = os.path.join(REPO, "geec")


def assigned(stmts):
    """names bound by the statements (not in nested scopes)"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out and not n.id.startswith("vc__"):
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda

    for s in stmts:
        V().visit(s)
    return out


class Rewrite(ast.NodeTransformer):
    def __init__(self, fname, shadowed):
        self.fname = fname
        self.shadowed = shadowed
        self.n = 0

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def visit_FunctionDef(self, n):
        ret = n.returns
        n.returns = None
        self.generic_visit(n)
        n.returns = ret
        return n

    def visit_For(self, n):
        names = assigned([n])
        self.generic_visit(n)
        self.n += 1
        lv, kv = f"vc___L{self.n}", f"vc___k{self.n}"
        src = f"{lv} = vc___loop(None, None, None)"
        init = ast.parse(src).body[0]
        init.value.args = [n.iter, ast.Constant((self.fname, n.lineno)), ast.Constant(tuple(names))]
        pre = []
        for x in names:
            pre.append(ast.parse(f"if {x!r} in {kv}.h: {x} = {kv}.h[{x!r}]").body[0])
        head = ast.parse(f"if {kv}.h is not None: pass").body[0]
        head.body = pre or head.body
        tgt = ast.Assign(targets=[n.target], value=ast.parse(f"{kv}.v", mode="eval").body)
        loop = ast.For(target=ast.Name(kv, ast.Store()), iter=ast.Name(lv, ast.Load()), body=[head, tgt] + n.body, orelse=n.orelse)
        tr = ast.Try(body=[loop], handlers=[], orelse=[], finalbody=ast.parse(f"{lv}.leave()").body)
        post = []
        for x in names:
            post.append(ast.parse(f"if {x!r} in {lv}.result: {x} = {lv}.result[{x!r}]").body[0])
        out = [init, tr] + post
        for o in out:
            ast.copy_location(o, n)
            for c in ast.walk(o):
                if not hasattr(c, "lineno"):
                    ast.copy_location(c, n)
            ast.fix_missing_locations(o)
        return out

    def _comp(self, n, kind):
        for c in ast.walk(n):
            if isinstance(c, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
                self.generic_visit(n)
                return n
        self.generic_visit(n)
        it = n.generators[0].iter
        n.generators[0].iter = ast.Name("vc___it", ast.Load())
        lam = ast.parse("lambda vc___it: 0", mode="eval").body
        lam.body = n
        call = ast.Call(ast.Name("vc___comp", ast.Load()),
                        [lam, it, ast.Constant(kind), ast.Constant(bool(n.generators[0].ifs or len(n.generators) > 1))], [])
        ast.copy_location(call, n)
        return ast.fix_missing_locations(call)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in rt.OVERRIDE and n.func.id not in self.shadowed:
            n.func = ast.copy_location(ast.Name("vc___b_" + n.func.id, ast.Load()), n.func)
        elif (isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "setdefault") and n.args and not n.keywords
              and not any(isinstance(x, ast.Starred) for x in n.args)):
            n.args = [n.func.value, ast.copy_location(ast.Constant(n.func.attr), n.func)] + n.args
            n.func = ast.copy_location(ast.Name("vc___dictcall", ast.Load()), n.func)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n

        def conv(s):
            if isinstance(s, ast.Slice):
                none = ast.Constant(None)
                return ast.Call(ast.Name("vc___slice", ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
            if isinstance(s, ast.Tuple):
                return ast.Tuple([conv(x) for x in s.elts], ast.Load())
            return s

        if any(isinstance(x, ast.Starred) for x in getattr(n.slice, "elts", [])):
            return n
        c = ast.Call(ast.Name("vc___get", ast.Load()), [n.value, conv(n.slice)], [])
        ast.copy_location(c, n)
        return ast.fix_missing_locations(c)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1 or not isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return n
        c = ast.Call(ast.Name("vc___in", ast.Load()), [n.left, n.comparators[0]], [])
        if isinstance(n.ops[0], ast.NotIn):
            c = ast.UnaryOp(ast.Not(), c)
        ast.copy_location(c, n)
        return ast.fix_missing_locations(c)


_CODE = {}


def root_of(top):
    """directory of an instrumented package"""
    if top == "geec":
        return PKG
    for d in sys.path:
        p = os.path.join(d, top)
        if os.path.exists(os.path.join(p, "__init__.py")):
            return p
    raise rt.Unsupported("package " + top)


def code_of(name):
    if name in _CODE:
        return _CODE[name]
    path = os.path.join(root_of(name.split(".")[0]), *name.split(".")[1:])
    if os.path.isdir(path):
        path = os.path.join(path, "__init__.py")
        ispkg = True
    else:
        path += ".py"
        ispkg = False
    if not os.path.exists(path):
        if ispkg:
            _CODE[name] = (compile("", path, "exec"), path, True, "")
            return _CODE[name]
        raise ModuleNotFoundError(name)
    src = open(path).read()
    tree = ast.parse(src, path)
    shadowed = {a.arg for a in ast.walk(tree) if isinstance(a, ast.arg)}
    shadowed |= {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    shadowed |= {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    tree = Rewrite(path, shadowed).visit(tree)
    ast.fix_missing_locations(tree)
    _CODE[name] = (compile(tree, path, "exec"), path, ispkg, src)
    return _CODE[name]


class World:
    """one fresh set of the package's modules, with the given stand-ins for external packages"""

    def __init__(self, externals, patches=None, packages=("geec",)):
        self.ext = externals  # top-level or dotted module name -> module
        self.packages = packages  # instrumented packages
        self.mods = {}
        self.patches = patches or {}  # module name -> function(module) run after loading
        self.bi = dict(vars(builtins))
        self.bi["__import__"] = self._import
        self.bi["vc___loop"] = rt.vc_loop
        self.bi["vc___comp"] = rt.vc_comp
        self.bi["vc___get"] = rt.vc_get
        self.bi["vc___in"] = rt.vc_in
        self.bi["vc___dictcall"] = rt.vc_dictcall
        self.bi["vc___slice"] = slice
        for k, f in rt.OVERRIDE.items():
            self.bi["vc___b_" + k] = f

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        code, path, ispkg, _ = code_of(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.bi
        self.mods[name] = m
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        old = sys.modules.get(name)
        sys.modules[name] = m  # dataclasses look the module up
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        finally:
            if old is not None:
                sys.modules[name] = old
            else:
                sys.modules.pop(name, None)
        if name in self.patches:
            self.patches[name](m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__", "geec")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top in self.packages:
            m = self.load(name)
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f):
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m if fromlist else self.mods[top]
        if name in self.ext or top in self.ext:
            if fromlist:
                if name in self.ext:
                    return self.ext[name]
                m = self.ext[top]
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
                return m
            return self.ext[top] if top in self.ext else self.ext[name]
        if top in ("copy", "functools", "itertools", "dataclasses", "enum", "typing", "collections", "operator", "abc",
                   "importlib", "__future__", "types", "contextlib", "warnings", "sys", "os", "time", "datetime",
                   "atexit", "numbers", "re", "string", "io", "csv", "json", "shutil", "textwrap", "inspect", "logging",
                   "decimal", "fractions", "random", "weakref", "tempfile", "platform", "traceback", "errno", "plotly",
                   "yaml", "pathlib", "argparse", "optparse", "pkgutil"):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise rt.Unsupported("import of " + name)
