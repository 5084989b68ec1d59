#!/usr/bin/env python3
"""Self-test of the checks by mutation: for every small syntactic change of geec/*.py that still passes the
existing tests, run the checks and list the changes no check reports.

mutate.py [-j N] [--files a.py,b.py] [--out FILE] [--sample K]     (works on copies under --work)
"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"polyhedron.py": "C07 C05 C08 C03 C06 C01 C02 C04", "station.py": "C05 C14", "crs.py": "C12 C11 C10 C09 C13 C14",
         "dataset.py": "C13 C11 C10 C09 C14", "mass.py": "C13 C11 C10 C09 C14", "observer.py": "C13 C11 C14", "config.py": "C15 C14",
         "api.py": "C16 C14", "cli.py": "C15 C14", "utils.py": "C08 C03 C01 C02 C07 C06"}
SKIPF = ("__repr__", "__rich_repr__", "plot", "show", "setup_logger", "setup_logdir", "_version_callback", "_logdir_callback")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(("logger.", "print", "rprint"))


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.out = []
        self.fn = []

    def add(self, n, desc, fun):
        self.out.append((n, desc, fun, ".".join(self.fn)))

    def visit_FunctionDef(self, n):
        if n.name in SKIPF or n.name.startswith("plot"):
            return
        self.fn.append(n.name)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import

    def visit_Raise(self, n):
        self.add(n, "drop raise", lambda x: ast.Pass())

    def visit_Expr(self, n):
        if is_log(n) or isinstance(n.value, ast.Constant):
            return
        self.add(n, "drop", lambda x: ast.Pass())
        self.generic_visit(n)

    def visit_Assign(self, n):
        if ast.unparse(n.targets[0]) in ("msg",):
            return
        if self.fn and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, "drop", lambda x: ast.Pass())
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "drop", lambda x: ast.Pass())
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
        if sw:
            self.add(n, sw.__name__, lambda x: ast.AugAssign(x.target, sw(), x.value))
        self.add(n, "plain assignment", lambda x: ast.Assign([x.target], x.value))
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            t = type(n.ops[0])
            for o in {ast.Lt: (ast.LtE, ast.Gt), ast.LtE: (ast.Lt, ast.Gt), ast.Gt: (ast.GtE, ast.Lt), ast.GtE: (ast.Gt, ast.Lt), ast.Eq: (ast.NotEq,),
                      ast.NotEq: (ast.Eq,), ast.In: (ast.NotIn,), ast.NotIn: (ast.In,), ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,)}.get(t, ()):
                self.add(n, o.__name__, lambda x, o=o: ast.Compare(x.left, [o()], x.comparators))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        for o in {ast.Add: (ast.Sub,), ast.Sub: (ast.Add,), ast.Mult: (ast.Div, ast.Add), ast.Div: (ast.Mult,), ast.Pow: (ast.Mult,), ast.Mod: (ast.Mult,),
                  ast.MatMult: ()}.get(type(n.op), ()):
            self.add(n, o.__name__, lambda x, o=o: ast.BinOp(x.left, o(), x.right))
        if isinstance(n.op, (ast.Add, ast.Mult)):
            self.add(n, "left operand only", lambda x: x.left)
            self.add(n, "right operand only", lambda x: x.right)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, "no " + type(n.op).__name__, lambda x: x.operand)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = ast.Or if isinstance(n.op, ast.And) else ast.And
        self.add(n, o.__name__, lambda x: ast.BoolOp(o(), x.values))
        for i in range(len(n.values)):
            self.add(n, f"without operand {i}", lambda x, i=i: ast.BoolOp(x.op, x.values[:i] + x.values[i + 1:]) if len(x.values) > 2 else x.values[1 - i])
        self.generic_visit(n)

    def visit_If(self, n):
        if "__main__" in ast.unparse(n.test):
            return
        self.add(n.test, "negated condition", lambda x: ast.UnaryOp(ast.Not(), x))
        self.add(n.test, "always", lambda x: ast.Constant(True))
        self.add(n.test, "never", lambda x: ast.Constant(False))
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, "else value", lambda x: x.orelse)
        self.add(n, "then value", lambda x: x.body)
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), lambda x: ast.Constant(not v))
        elif isinstance(v, int):
            self.add(n, str(v + 1), lambda x: ast.Constant(v + 1))
            if v:
                self.add(n, str(v - 1), lambda x: ast.Constant(v - 1))
        elif isinstance(v, float):
            self.add(n, str(v * 2), lambda x: ast.Constant(v * 2 if v else 1.0))
            if v:
                self.add(n, str(v * 1.001), lambda x: ast.Constant(v * 1.001))
        elif isinstance(v, str) and v and self.fn != [] and len(v) < 40:
            self.add(n, repr(v + "_"), lambda x: ast.Constant(v + "_"))
        elif v is None:
            pass

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        if ast.unparse(n.func).startswith("logger."):
            return
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            def sw(x):
                c = copy.copy(x)
                c.args = [x.args[1], x.args[0]] + x.args[2:]
                return c

            self.add(n, "swapped arguments", sw)
        for i, k in enumerate(n.keywords):
            if k.arg:
                def dk(x, i=i):
                    c = copy.copy(x)
                    c.keywords = x.keywords[:i] + x.keywords[i + 1:]
                    return c

                self.add(n, "without " + k.arg, dk)
        f = ast.unparse(n.func).split(".")[-1]
        if len(n.args) == 1 and f in ("copy", "abs", "array", "flatten", "sqrt", "float", "list", "fabs", "unique", "deepcopy"):
            self.add(n, "argument only", lambda x: x.args[0])
        if len(n.args) == 0 and isinstance(n.func, ast.Attribute) and f in ("copy", "flatten", "lower", "upper", "expanduser", "resolve"):
            self.add(n, "receiver only", lambda x: x.func.value)
        self.generic_visit(n)

    def visit_For(self, n):
        self.visit(n.iter)
        for s in n.body:
            self.visit(s)

    def visit_Slice(self, n):
        self.generic_visit(n)


class Swap(ast.NodeTransformer):
    def __init__(self, node, fun):
        self.node, self.fun = node, fun

    def visit(self, n):
        if n is self.node:
            return ast.copy_location(self.fun(n), n)
        return self.generic_visit(n)


def mutants(path):
    src = open(path).read()
    n = None
    i = 0
    while True:
        tree = ast.parse(src)
        s = Sites()
        for x in tree.body:
            s.visit(x)
        n = len(s.out)
        if i >= n:
            return
        node, desc, fun, fn = s.out[i]
        old = ast.unparse(node)
        line = node.lineno
        t = ast.fix_missing_locations(Swap(node, fun).visit(tree))
        try:
            new = ast.unparse(t)
            compile(new, path, "exec")
            yield i, f"{os.path.basename(path)}:{line} {fn}: {old[:70]!r} -> {desc}", new
        except Exception:
            pass
        i += 1


def work(arg):
    path, k, desc, text, base = arg
    d = os.path.join(base, f"w{os.getpid()}")
    repo, ver = os.path.join(d, "repo"), os.path.join(d, "verif")
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", repo], check=True)
        shutil.copytree(VERIF, ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    f = os.path.join(repo, "geec", os.path.basename(path))
    keep = open(f).read()
    try:
        open(f, "w").write(text)
        e = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", GEEC_REPO=repo)
        x = os.path.join(d, "j.xml")
        if os.path.exists(x):
            os.remove(x)
        try:
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors",
                            "--ignore=tests/test_crs.py", "--ignore=tests/test_geec.py", "-o", "junit_family=xunit2", "--junitxml=" + x],
                           cwd=repo, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            import xml.etree.ElementTree as ET

            ok = {c.get("classname") + "::" + c.get("name") for c in ET.parse(x).iter("testcase") if not list(c)}
        except Exception:
            ok = set()
        if not STABLE <= ok:
            return desc, "tests", "", 0
        t0 = time.time()
        e.pop("PYTHONPATH")
        log = []
        for p in PROPS[os.path.basename(path)].split():
            try:
                r = subprocess.run([sys.executable, "check.py", p], cwd=ver, env=e, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                log.append(p + ": timeout")
                continue
            if r.returncode == 1:
                return desc, "caught " + p + (" (no input)" if "no-failing-input" in r.stdout else ""), "; ".join(log), time.time() - t0
            if r.returncode != 0:
                log.append(f"{p}: rc {r.returncode} {r.stdout[-200:]}")
            elif "out of reach" in r.stdout or "proof process" in r.stdout or "undecided (" in r.stdout:
                log.append(p + ": bounded")
        return desc, "SURVIVED", "; ".join(log), time.time() - t0
    finally:
        open(f, "w").write(keep)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--files", default=",".join(PROPS))
    ap.add_argument("--out", default="/tmp/mut/out.jsonl")
    ap.add_argument("--work", default="/tmp/mut")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    jobs = []
    for f in a.files.split(","):
        p = os.path.join("/repo/geec", f)
        jobs += [(p, k, d, t, a.work) for k, d, t in mutants(p) if a.only in d]
    random.Random(1).shuffle(jobs)
    if a.sample:
        jobs = jobs[:a.sample]
    seen = set()
    if os.path.exists(a.out):
        seen = {json.loads(l)["d"] for l in open(a.out)}
    jobs = [j for j in jobs if j[2] not in seen]
    print(len(jobs), "mutants")
    with mp.Pool(a.j) as pool, open(a.out, "a") as o:
        for d, r, log, t in pool.imap_unordered(work, jobs):
            o.write(json.dumps({"d": d, "r": r, "log": log, "t": round(t)}) + "\n")
            o.flush()


if __name__ == "__main__":
    main()
