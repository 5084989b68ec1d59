"""Path exploration, decisions and obligations."""
from __future__ import annotations

import time
from fractions import Fraction

import mpmath

from . import terms as T
from .terms import L, ATOMS


class Unsupported(BaseException):
    """the code uses something outside the supported subset (never a verdict)"""


class Prune(BaseException):
    """the current path is infeasible"""


class PathLimit(BaseException):
    pass


CUR = None  # current Engine


def eng() -> "Engine":
    if CUR is None:
        raise Unsupported("symbolic value used outside of a run")
    return CUR


# ------------------------------------------------------------------ conditions
class Cond:
    """condition over terms; kinds: cmp(rel, L), bv(name), ideq(a,b), and/or(list), not(c)"""

    __slots__ = ("k", "a", "_key")

    def __init__(self, k, *a):
        self.k, self.a = k, a
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (self.k,) + tuple(x.key() if isinstance(x, (Cond, L)) else
                                          (tuple(y.key() for y in x) if isinstance(x, (list, tuple)) else x)
                                          for x in self.a)
        return self._key

    def deps(self):
        d = frozenset()
        for x in self.a:
            if isinstance(x, (Cond, L)):
                d |= x.deps()
            elif isinstance(x, (list, tuple)):
                for y in x:
                    d |= y.deps()
            elif hasattr(x, "deps") and not callable(x.deps):
                d |= x.deps
        return d

    def deps_terms(self):
        """the terms compared in the condition"""
        out = []
        for x in self.a:
            if isinstance(x, L):
                out.append(x)
            elif isinstance(x, Cond):
                out += x.deps_terms()
            elif isinstance(x, (list, tuple)):
                for y in x:
                    out += y.deps_terms() if isinstance(y, Cond) else ([y] if isinstance(y, L) else [])
        return out

    def __repr__(self):
        if self.k == "cmp":
            return f"({T.show(self.a[1])}) {self.a[0]} 0"
        return f"{self.k}{self.a}"


TRUE, FALSE = Cond("const", True), Cond("const", False)


def cmp(rel, l):
    if rel in ("<", "<="):
        rel, l = (">" if rel == "<" else ">="), T.neg(l)
    """rel in > >= == != against 0"""
    if l.is_const():
        c = l.const()
        return TRUE if {">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[rel] else FALSE
    return Cond("cmp", rel, l)


def cnot(c):
    if c.k == "const":
        return FALSE if c.a[0] else TRUE
    if c.k == "cmp":
        rel, l = c.a
        if rel == ">":
            return cmp(">=", T.neg(l))
        if rel == ">=":
            return cmp(">", T.neg(l))
        return cmp("!=" if rel == "==" else "==", l)
    if c.k == "not":
        return c.a[0]
    if c.k == "and":
        return Cond("or", [cnot(x) for x in c.a[0]])
    if c.k == "or":
        return Cond("and", [cnot(x) for x in c.a[0]])
    return Cond("not", c)


def cand(cs):
    cs = [c for c in cs if c is not TRUE and not (c.k == "const" and c.a[0])]
    if any(c.k == "const" for c in cs):
        return FALSE
    if not cs:
        return TRUE
    return cs[0] if len(cs) == 1 else Cond("and", cs)


def cor(cs):
    cs = [c for c in cs if not (c.k == "const" and not c.a[0])]
    if any(c.k == "const" for c in cs):
        return TRUE
    if not cs:
        return FALSE
    return cs[0] if len(cs) == 1 else Cond("or", cs)


def ev_cond(c, env):
    """True/False/None under a valuation"""
    if c.k == "const":
        return c.a[0]
    if c.k == "cmp":
        rel, l = c.a
        try:
            v, big = T.ev_mag(l, env)
        except Exception:
            return None
        if isinstance(v, mpmath.mpc):
            if abs(v.imag) > mpmath.mpf(10) ** -25 * (1 + abs(v.real)):
                return None
            v = v.real
        z = abs(v) <= big * mpmath.mpf(10) ** -30
        if rel == "==":
            return bool(z)
        if rel == "!=":
            return not z
        if rel == ">":
            return bool(v > 0) and not z
        return bool(v > 0) or bool(z)
    if c.k == "bv":
        nm, deps = c.a
        v = env.vals.get(nm)
        if v is None:
            v = T.hrand(env.salt, "bv", nm, tuple((d, env.idx.get(d, 0)) for d in sorted(deps))) > 0.5
        return bool(v)
    if c.k == "not":
        r = ev_cond(c.a[0], env)
        return None if r is None else not r
    if c.k in ("and", "or"):
        rs = [ev_cond(x, env) for x in c.a[0]]
        if c.k == "and":
            return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)
    return None


# ------------------------------------------------------------------ z3
def z3mod():
    import z3

    return z3


class Z3Conv:
    """terms to z3; mode 'mono': every monomial is an independent real (linear abstraction);
    mode 'full': atoms are reals, square roots are defined, functions are opaque"""

    def __init__(self, mode):
        self.z = z3mod()
        self.mode = mode
        self.cache = {}
        self.side = []
        self.defs = set()

    def q(self, f):
        return self.z.RealVal(f"{f.numerator}/{f.denominator}")

    def atom(self, x):
        z = self.z
        if x in self.cache:
            return self.cache[x]
        at = ATOMS[x]
        if at.kind == "fn" and at.name in ("max", "min"):
            args = [self.term(y) for y in at.args]
            r = args[0]
            for y in args[1:]:
                r = z.If(r >= y, r, y) if at.name == "max" else z.If(r <= y, r, y)
            v = z.Real(f"a{x}")
            self.side.append(v == r)
        elif at.kind == "fn" and at.name == "abs":
            y = self.term(at.args[0])
            v = z.Real(f"a{x}")
            self.side.append(v == z.If(y >= 0, y, -y))
        elif at.kind == "fn" and at.name == "sign":
            y = self.term(at.args[0])
            v = z.Real(f"a{x}")
            self.side.append(v == z.If(y > 0, z.RealVal(1), z.If(y < 0, z.RealVal(-1), z.RealVal(0))))
        elif at.kind == "fn" and at.name == "floor":
            y = self.term(at.args[0])
            v = z.Real(f"a{x}")
            n = z.Int(f"i{x}")
            self.side += [v == z.ToReal(n), v <= y, y < v + 1]
        else:
            v = z.Real(f"a{x}")
        self.cache[x] = v
        if at.pos:
            self.side.append(v >= 0)
        if at.kind == "def":
            self.side.append(v == self.term(at.args[0]))
        if at.kind == "sqrt" and self.mode == "full":
            self.side.append(v * v == self.term(at.args[0]))
        if at.kind == "inv" and self.mode == "full":
            self.side.append(v * self.term(at.args[0]) == 1)
        if at.kind == "var" and at.name == "pi":
            self.side += [v > self.q(Fraction(314159, 100000)), v < self.q(Fraction(31416, 10000))]
        return v

    def mono(self, m):
        z = self.z
        if not m:
            return z.RealVal(1)
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        if self.mode == "mono":
            if m in self.cache:
                return self.cache[m]
            fs = [x for x, e in m if ATOMS[x].kind == "fn" and ATOMS[x].name in ("max", "min", "abs")]
            if len(fs) == 1 and dict(m)[fs[0]] == 1:
                rest = tuple(z for z in m if z[0] != fs[0])
                if all(ATOMS[x].pos or ATOMS[x].kind == "sqrt" or e % 2 == 0 for x, e in rest):
                    args = [self.term(T.mulm(y, rest)) for y in ATOMS[fs[0]].args]
                    r = args[0]
                    nm = ATOMS[fs[0]].name
                    if nm == "abs":
                        r = z.If(r >= 0, r, -r)
                    for y in args[1:]:
                        r = z.If(r >= y, r, y) if nm == "max" else z.If(r <= y, r, y)
                    v = z.Real("m_" + "_".join(f"{x}p{e}" for x, e in m).replace("-", "n"))
                    self.side.append(v == r)
                    self.cache[m] = v
                    return v
            v = z.Real("m_" + "_".join(f"{x}p{e}" for x, e in m).replace("-", "n"))
            self.cache[m] = v
            if all(ATOMS[x].pos or e % 2 == 0 for x, e in m):
                self.side.append(v >= 0)
            return v
        r = None
        for x, e in m:
            a = self.atom(x)
            for _ in range(abs(e)):
                if e > 0:
                    r = a if r is None else r * a
                else:
                    r = 1 / a if r is None else r / a
        return r

    def term(self, l):
        z = self.z
        if not l.t:
            return z.RealVal(0)
        return z.Sum([self.q(c) * self.mono(m) if m else self.q(c) for m, c in l.t.items()])

    def cond(self, c):
        z = self.z
        if c.k == "const":
            return z.BoolVal(bool(c.a[0]))
        if c.k == "cmp":
            rel, l = c.a
            l = positive_form(l)
            t = self.term(l)
            return {">": t > 0, ">=": t >= 0, "==": t == 0, "!=": t != 0}[rel]
        if c.k == "and":
            return z.And([self.cond(x) for x in c.a[0]])
        if c.k == "or":
            return z.Or([self.cond(x) for x in c.a[0]])
        if c.k == "not":
            return z.Not(self.cond(c.a[0]))
        if c.k == "bv":
            return z.Bool("b_" + str(c.a[0]))
        if c.k == "ideq":
            a, b = sorted([c.a[0].name, c.a[1].name])
            return z.Bool(f"eq_{a}_{b}")
        raise Unsupported("cond " + c.k)


def _nonneg(l):
    """a term that is a sum of non-negative monomials"""
    for m, c in l.t.items():
        if c < 0:
            return False
        for x, e in m:
            a = ATOMS[x]
            if e % 2 and not (a.pos or a.kind == "sqrt" or (a.kind == "fn" and a.name == "abs")
                              or (a.kind == "fn" and a.name == "max" and any(_nonneg(y) for y in a.args))):
                return False
    return True


def without_max(c):
    """a condition that implies c: in what is subtracted, the k-th power of the largest of some non-negative
    numbers is replaced by the sum of their k-th powers (None if there is nothing to replace)"""
    if c.k != "cmp" or c.a[0] not in (">", ">="):
        return None
    t, again = c.a[1], False
    for _ in range(3):
        out, hit = T.ZERO, False
        for m, q in t.t.items():
            one = L({m: q})
            if q < 0:
                for x, e in m:
                    a = ATOMS[x]
                    rest = tuple(z for z in m if z[0] != x)
                    if a.kind == "fn" and a.name == "max" and e > 0 and all(_nonneg(y) for y in a.args) and _nonneg(L({rest: Fraction(1)})):
                        s = T.ZERO
                        for y in a.args:
                            p = y
                            for _k in range(e - 1):
                                p = T.mul(p, y)
                            s = T.add(s, p)
                        one, hit = T.mul(L({rest: q}), s), True
                        break
            out = T.add(out, one)
        t = out
        if not hit:
            break
        again = True
    return cmp(c.a[0], t) if again else None


_MC = {}


def monos(c):
    """monomials a condition talks about (linear abstraction)"""
    k = c.key()
    r = _MC.get(k)
    if r is not None and r[1] is CUR.sgn_version:
        return r[0]
    out = set()
    if c.k == "cmp":
        _lm(positive_form(c.a[1]), out, 0)
    elif c.k in ("and", "or"):
        for x in c.a[0]:
            out |= monos(x)
    elif c.k == "not":
        out |= monos(c.a[0])
    elif c.k != "const":
        out.add(("b", str(c.a[0])))
    _MC[k] = (out, CUR.sgn_version)
    return out


def _lm(l, out, depth):
    for m in l.t:
        if not m or m in out:
            continue
        out.add(m)
        if depth > 4:
            continue
        for x, e in m:
            at = ATOMS[x]
            if at.kind == "fn" and at.name in ("max", "min", "abs", "sign", "floor"):
                rest = tuple(z for z in m if z[0] != x)
                for y in at.args:
                    if isinstance(y, L):
                        _lm(T.mulm(y, rest), out, depth + 1)
            elif at.kind == "def":
                _lm(at.args[0], out, depth + 1)


_PF = {}


def positive_form(l):
    """multiply by something positive so that negative powers and inverses vanish; divide by the
    common positive factor; even powers of roots folded.  Sign (and zero set) is preserved."""
    sg = CUR.sgn if CUR is not None else {}
    key = (l, tuple(sorted(sg.items())))
    r = _PF.get(key)
    if r is not None:
        return r
    a = l
    if len(l.t) > 400:
        return l
    old = T.EXACT, T.LIMIT
    T.EXACT, T.LIMIT = 1, 1500
    try:
        for _ in range(30):
            inv = None
            for m in a.t:
                for x, e in m:
                    if ATOMS[x].kind == "inv":
                        inv = x
            if inv is None:
                break
            p = ATOMS[inv].args[0]
            top = max(dict(m).get(inv, 0) for m in a.t)
            flip = False
            if top % 2:
                if inv in sg:
                    flip = sg[inv] < 0
                else:
                    top += 1  # multiply by an even power: positive
            groups = {}
            for m, c in a.t.items():
                e = dict(m).get(inv, 0)
                groups.setdefault(e, {})[tuple(z for z in m if z[0] != inv)] = c
            res = T.ZERO
            for e, t in groups.items():
                res = T.add(res, T.mul(L(t), T.powi(p, top - e)))
                if len(res.t) > 1500:
                    raise T.TooBig
            a = T.neg(res) if flip else res
            if not a.t:
                break
        for _ in range(20):
            if not a.t:
                break
            mono = T.common_mono(a)
            if len(a.t) == 1 and all(e > 0 for _, e in mono):
                break
            fac = []
            for x, e in mono:
                at = ATOMS[x]
                if at.pos or at.kind == "sqrt":
                    fac.append((x, -e))
                elif e < 0:
                    fac.append((x, -e if e % 2 == 0 else -e + 1))
            if fac:
                a = T.mulm(a, tuple(sorted(fac)))
            b = T.reduce(a)
            if b is a and not fac:
                break
            a = b
        if a.t:
            # scale: largest coefficient 1 in absolute value
            c = max(abs(v) for v in a.t.values())
            a = T.scale(a, 1 / c)
    except T.TooBig:
        a = l
    finally:
        T.EXACT, T.LIMIT = old
    _PF[key] = a
    return a


def model_env(m, conv, base):
    """an Env from a z3 model (full mode)"""
    vals = dict(base)
    z = conv.z
    for x, v in conv.cache.items():
        if not isinstance(x, int):
            continue
        at = ATOMS[x]
        if at.kind != "var" or at.name == "pi":
            continue
        r = m.eval(v, model_completion=True)
        try:
            if z.is_algebraic_value(r):
                r = r.approx(30)
            f = Fraction(r.numerator_as_long(), r.denominator_as_long())
        except Exception:
            continue
        ks = tuple((d, 0) for d in sorted(at.deps))
        vals[(at.name, ks) if ks else at.name] = f
    for d in m.decls():
        if d.name().startswith("b_"):
            vals[d.name()[2:]] = z.is_true(m[d])
    return T.Env(vals, salt="z3model")


# ------------------------------------------------------------------ engine
class Obl:
    def __init__(self, name, fnname):
        self.name, self.fn = name, fnname
        self.n = 0
        self.proved = 0
        self.backends = {}
        self.refuted = []
        self.undecided = []
        self.time = 0.0

    def status(self):
        if self.refuted:
            return "refuted"
        if self.undecided:
            return "undecided"
        return "proved" if self.n else "absent"


class Engine:
    def __init__(self, name, samples=None, max_paths=600, time_limit=240.0, fn="", domain=False):
        self.name = name
        self.fn = fn
        self.samples0 = samples or [T.Env(salt=i) for i in range(6)]
        self.max_paths, self.time_limit = max_paths, time_limit
        self.obls = {}
        self.npaths = 0
        self.nwit = 0
        self.errors = []
        self.z3_time = 0.0
        self.z3_calls = 0
        self.domain = domain
        self.log = []
        self.quick_ms = 4000
        self.full_ms = 2500
        self.dry = 0
        self.active = []  # active symbolic loops (index set names)
        self.assumed = []
        self.H = {}  # loop -> state cells carried from one iteration to the next
        self.suspects = []
        self.rebound = set()  # names bound to another array in every iteration
        self.unsup = []
        self.index_hook = None
        self.complete = True

    # ---- exploration
    def explore(self, fn):
        global CUR
        t0 = time.time()
        work = [[]]
        old = CUR
        CUR = self
        try:
            while work:
                if self.npaths >= self.max_paths or time.time() - t0 > self.time_limit:
                    raise PathLimit(f"path limit in {self.name}")
                self.prefix = work.pop()
                pre = list(self.prefix)
                self.start_path()
                try:
                    fn()
                    self.end_path()
                except Prune:
                    pass
                except Unsupported as e:
                    self.out_of_reach(str(e))
                except T.TooBig:
                    self.out_of_reach("term too big")
                except PathLimit:
                    raise
                except BaseException as e:
                    if type(e).__name__ == "Restart":
                        self.restarts += 1
                        if self.restarts > 200:
                            raise PathLimit("loop state")
                        work.append(pre)
                        self.dropobs()
                        continue
                    if isinstance(e, (KeyboardInterrupt, SystemExit)):
                        raise
                    import traceback

                    tb = traceback.extract_tb(e.__traceback__)
                    where = f"{tb[-1].filename}:{tb[-1].lineno}" if tb else ""
                    self.out_of_reach(f"{type(e).__name__}: {e} at {where}")
                    self.log.append(traceback.format_exc()[-1500:])
                finally:
                    self.npaths += 1
                work.extend(reversed(self.pending))
        except PathLimit as e:
            self.out_of_reach(str(e))
        finally:
            CUR = old

    def out_of_reach(self, msg):
        self.complete = False
        self.suspect(msg)
        if msg not in self.unsup:
            self.unsup.append(msg)

    def suspect(self, why):
        """a path that is not decided: its witnesses are replayed on the real code"""
        ss = getattr(self, "samples", None) or []
        if len(self.suspects) < 12 and sum(w == why for w, _ in self.suspects) < 4:
            self.suspects += [(why, s) for s in (ss[:1] + ss[-1:] if len(ss) > 1 else ss)]

    def partial(self, msg):
        self.is_partial = True
        self.out_of_reach(msg)

    def poison_hit(self, what, how):
        if what[0] == "obligation":
            self.fail(what[1], f"{what[2] if len(what) > 2 else ''} ({how})")
            raise Prune()
        raise Unsupported(what[1] + f" ({how})")

    def exc_exit(self, b):
        pass

    def dropobs(self):
        """forget the obligations recorded on the path that is run again"""
        for name, kind, backend in self.pathlog:
            o = self.obls.get(name)
            if o is None:
                continue
            o.n -= 1
            if kind == "proved":
                o.proved -= 1
                o.backends[backend] -= 1
                if not o.backends[backend]:
                    del o.backends[backend]
            elif kind == "refuted":
                o.refuted.pop()
            else:
                o.undecided.pop()

    restarts = 0

    def start_path(self):
        self.growing = set()
        self.rows = {}  # rows of unbounded matrices handed to a loop
        self.loops = {}  # sequence -> token of the current loop over it
        self.nloop = 0
        self.is_partial = False
        self.pathlog = []
        self.seqs = {}
        self.pos = 0
        self.taken = []
        self.pending = []
        self.facts = []
        self.conds = []
        self.samples = list(self.samples0)
        self.known = {}
        self.active = []
        self.dry = 0
        self.fresh_n = {}
        self.unwit = False
        self.sgn = {}
        self.sgn_version = object()
        self.nonzero = []

    def end_path(self):
        if self.samples:
            self.nwit += 1

    def fresh(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return f"{base}#{n}"

    # ---- facts
    def assume(self, c, why=""):
        if isinstance(c, bool):
            if not c:
                raise Prune()
            return
        c = getattr(c, "c", c)
        self.facts.append(c)
        self.samples = [s for s in self.samples if ev_cond(c, s) is True]
        if why and why not in self.assumed:
            self.assumed.append(why)

    def lemma(self, name, c, by_zero=None):
        """a fact that is proved: by_zero is a list of terms that must vanish identically; the
        implication from those identities is documented by the caller"""
        ok = all(T.is_zero(z) for z in by_zero or [])
        self._rec("lemma: " + name, ok, T.LAST, None if ok else "identity does not hold")
        self.facts.append(c)

    # ---- decisions
    def relevant(self, goals):
        """facts and path conditions connected to the goals through common monomials"""
        pool = [(c, monos(c)) for c in self.facts + self.conds]
        cur = set()
        for g in goals:
            cur |= monos(g)
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c, ms in pool:
                if ms & cur or not ms:
                    out.append(c)
                    cur |= ms
                    changed = True
                else:
                    rest.append((c, ms))
            pool = rest
        return out

    def _z3(self, mode, extra, ms, want_model=False, only=None):
        z = z3mod()
        conv = Z3Conv(mode)
        s = z.Solver()
        s.set("timeout", ms)
        for c in (self.facts + self.conds if only is None else only) + extra:
            try:
                s.add(conv.cond(c))
            except Unsupported:
                pass
        # equality theory of symbolic indices
        for x in conv.side:
            s.add(x)
        t = time.time()
        r = s.check()
        self.z3_time += time.time() - t
        self.z3_calls += 1
        if want_model and r == z.sat:
            try:
                return "sat", model_env(s.model(), conv, {})
            except Exception:
                return "sat", None
        return str(r), None

    def entails(self, c, deep=False):
        """c follows from facts and path conditions (True) or unknown (False)"""
        if c.k == "const":
            return bool(c.a[0])
        if c.k == "ideq":
            return False
        if c.k == "cmp" and c.a[0] == ">=" and _nonneg(c.a[1]):
            return True
        n = cnot(c)
        try:
            if self._z3("mono", [n], self.quick_ms, only=self.relevant([n]))[0] == "unsat":
                return True
            w = without_max(c)
            if w is not None:
                w = cnot(w)
                if self._z3("mono", [w], self.quick_ms, only=self.relevant([w]))[0] == "unsat":
                    return True
            if deep and self._z3("full", [n], self.full_ms)[0] == "unsat":
                return True
        except Exception as e:
            if e.__class__.__name__ != "Z3Exception":
                raise
        return False

    def truth(self, c):
        """True / False when decided by what is known, None otherwise (no fork)"""
        if c.k == "const":
            return bool(c.a[0])
        k = c.key()
        if k in self.known:
            return self.known[k]
        nk = cnot(c).key()
        if nk in self.known:
            return not self.known[nk]
        if c.k == "ideq":
            return None
        votes = {ev_cond(c, s) for s in self.samples}
        votes.discard(None)
        r = None
        if True not in votes or False not in votes:
            if False not in votes and self.entails(c):
                r = True
            elif True not in votes and self.entails(cnot(c)):
                r = False
        if r is not None:
            self.known[k] = r
        return r

    def decide(self, c):
        r = self.truth(c)
        if r is not None:
            return r
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
            self.pos += 1
            self._take(c, r)
            return r
        # both sides possible?
        yes = [s for s in self.samples if ev_cond(c, s) is True]
        no = [s for s in self.samples if ev_cond(c, s) is False]
        opts = []
        for val, wit in ((True, yes), (False, no)):
            if wit:
                opts.append(val)
                continue
            if c.k in ("ideq",) or c.k == "bv":
                opts.append(val)
                continue
            try:
                res, _ = self._z3("full", [c if val else cnot(c)], self.full_ms)
            except Exception as e:
                if e.__class__.__name__ != "Z3Exception":
                    raise
                res = "unknown"
            if res != "unsat":
                opts.append(val)
        if not opts:
            raise Prune()
        r = opts[0]
        for o in opts[1:]:
            self.pending.append(self.prefix[: self.pos] + [o] if False else self.taken + [o])
        self.prefix = self.taken + [r]
        self.pos = len(self.prefix)
        self._take(c, r)
        return r

    def _take(self, c, r):
        self.taken.append(r)
        cc = c if r else cnot(c)
        self.conds.append(cc)
        self.known[c.key()] = r
        if c.k != "ideq":
            new = [s for s in self.samples if ev_cond(cc, s) is True]
            if not new and self.samples is not None:
                try:
                    res, env = self._z3("full", [], self.full_ms, True)
                except Exception:
                    res, env = "unknown", None
                if res == "unsat":
                    raise Prune()
                if env is not None and all(ev_cond(x, env) is True for x in self.facts + self.conds):
                    new = [env]
                if not new:
                    new = self._search(cc)
            self.samples = new

    def _search(self, c, limit=4.0):
        """a valuation on this path, among the samples with all, or one group of, their values scaled"""
        if c.k == "bv":
            return []
        t0 = time.time()
        groups = {}
        for l in c.deps_terms():
            for x in l.atoms(True):
                if ATOMS[x].kind == "var" and not ATOMS[x].name.startswith("h:"):
                    n = ATOMS[x].name
                    groups.setdefault(n[:-1] if n[-1:] in "xyz" and len(n) > 1 else n, set()).add(x)
        for g in [None] + list(groups.values()):
            for k in (3, -3, 5, -5, 7, -7, 1, -1, 9, -9, 11):
                f = mpmath.mpf(10) ** k
                for s in self.samples0[:40]:
                    if time.time() - t0 > limit:
                        return []
                    if g is None:
                        e = T.Env({n: v * f for n, v in s.vals.items()}, s.salt, s.lo * f, s.hi * f, s.fns, s.idx, s.counts)
                    else:
                        e = T.Env(dict(s.vals), s.salt, s.lo, s.hi, s.fns, s.idx, s.counts)
                        for x in g:
                            e.vals[ATOMS[x].name] = T.ev_atom(x, s) * f
                    try:
                        if all(ev_cond(y, e) is True for y in [c] + self.facts + self.conds):
                            return [e]
                    except Exception:
                        continue
        return []

    def choice(self, name, deps=frozenset()):
        """a free boolean"""
        return self.decide(Cond("bv", self.fresh("choice:" + name), frozenset(deps)))

    # ---- obligations
    def _rec(self, name, ok, backend, why=None, witness=None, dt=0.0):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name, self.fn)
        o.n += 1
        o.time += dt
        if ok is True and self.is_partial:
            ok, why = None, "proved only on a part of the cases"
        self.pathlog.append((name, "proved" if ok is True else ("refuted" if ok is False else "undecided"), backend))
        if ok is True:
            o.proved += 1
            o.backends[backend] = o.backends.get(backend, 0) + 1
        elif ok is False:
            o.refuted.append({"why": str(why)[:2000], "witness": witness, "path": [str(x)[:200] for x in self.conds][:12]})
        else:
            self.suspect(name)
            o.undecided.append(str(why)[:500])

    def prove(self, name, c):
        """obligation: condition c holds on this path"""
        t0 = time.time()
        c = getattr(c, "c", c)
        if isinstance(c, bool):
            c = TRUE if c else FALSE
        if c.k == "const":
            if c.a[0]:
                return self._rec(name, True, "symbolic execution (syntactic)", dt=time.time() - t0)
            return self._fail(name, "does not hold", t0, None)
        if c.k == "cmp" and c.a[0] == "==" and T.is_zero(c.a[1]):
            return self._rec(name, True, T.LAST, dt=time.time() - t0)
        if c.k == "and":
            for x in c.a[0]:
                self.prove(name, x)
            return
        for s in self.samples:
            if ev_cond(c, s) is False and self._refutes(c, s):
                return self._rec(name, False, None, f"{c!r} is false"[:1500], witness=s, dt=time.time() - t0)
        if c.k == "cmp" and c.a[0] == "==" and self._heavy(c.a[1]):
            return self._rec(name, None, None, f"identity not established: {c!r}"[:600], dt=time.time() - t0)
        if self.truth(c) is True:
            return self._rec(name, True, "z3", dt=time.time() - t0)
        if self.entails(c, deep=True):
            return self._rec(name, True, "z3", dt=time.time() - t0)
        res, env = self._z3("full", [cnot(c)], 8000, True)
        if res == "unsat":
            return self._rec(name, True, "z3", dt=time.time() - t0)
        if env is not None and all(ev_cond(x, env) is True for x in self.facts + self.conds) and ev_cond(c, env) is False and self._refutes(c, env):
            return self._rec(name, False, None, f"{c!r} is false"[:1500], witness=env, dt=time.time() - t0)
        if not self.samples and self._z3("full", [], 8000)[0] == "unsat":
            return self._rec(name, True, "z3", dt=time.time() - t0)
        self._rec(name, None, None, f"not decided: {c!r}", dt=time.time() - t0)

    @staticmethod
    def _heavy(l):
        return len(l.t) > 60 or any(ATOMS[x].kind == "def" for x in l.atoms(True))

    def dom_nonzero(self, name, b):
        """obligation: b is not zero; remembers the sign of b"""
        t0 = time.time()
        if b.is_const():
            return self.prove(name, cmp("!=", b))
        for s in self.samples:
            if ev_cond(cmp("!=", b), s) is False:
                return self.prove(name, cmp("!=", b))
        try:
            v = T.fingerprint(b)
            ks = self.nonzero
            for i, (k, w) in enumerate(ks):
                if T.close(v, w) and T.is_zero(T.add(b, k, -1)):
                    return self._rec(name, True, T.LAST, dt=time.time() - t0)
                for k2, w2 in ks[i:]:
                    if T.close(v, w * w2) and T.is_zero(T.add(b, T.mul(k, k2), -1)):
                        return self._rec(name, True, T.LAST, dt=time.time() - t0)
        except Exception:
            v = None
        pos = [s for s in self.samples if ev_cond(cmp(">", b), s) is True]
        want = cmp(">", b) if (pos or not self.samples) else cmp(">", T.neg(b))
        sg = 1 if (pos or not self.samples) else -1
        if self.truth(want) is True or self.entails(want, deep=True):
            self._rec(name, True, "z3", dt=time.time() - t0)
            self.known[want.key()] = True
            iv = T.inverse(b)
            if len(iv.t) == 1:
                (m, c), = iv.t.items()
                odd = [x for x, e in m if e % 2 and not (ATOMS[x].pos or ATOMS[x].kind == "sqrt")]
                if len(odd) == 1 and ATOMS[odd[0]].kind == "inv" and odd[0] not in self.sgn:
                    self.sgn[odd[0]] = sg if c > 0 else -sg
                    self.sgn_version = object()
            if v is not None:
                self.nonzero.append((b, v))
            return
        n = len(self.pathlog)
        self.prove(name, cmp("!=", b))
        if v is not None and self.pathlog[n:] and self.pathlog[-1][1] == "proved":
            self.nonzero.append((b, v))

    def _refutes(self, c, s):
        if c.k == "cmp" and c.a[0] == "==":
            v, big = T.ev_mag(c.a[1], s)
            return abs(v) > mpmath.mpf(10) ** -12 * big and abs(v) > 0
        return True

    def _fail(self, name, why, t0, witness):
        """a structural mismatch on this path: refuted when the path has a witness"""
        if self.samples:
            return self._rec(name, False, None, why, witness=self.samples[0], dt=time.time() - t0)
        res, env = self._z3("full", [], 8000, True)
        if res == "unsat":
            return self._rec(name, True, "z3", dt=time.time() - t0)
        if env is not None and all(ev_cond(x, env) in (True, None) for x in self.facts + self.conds):
            return self._rec(name, False, None, why, witness=env, dt=time.time() - t0)
        if not any(c.k == "cmp" for c in self.facts + self.conds):
            return self._rec(name, False, None, why, witness=None, dt=time.time() - t0)
        self._rec(name, None, None, why, dt=time.time() - t0)

    def fail(self, name, why):
        self._fail(name, why, time.time(), None)

    def eq(self, name, a, b):
        """obligation: two terms are equal"""
        self.prove(name, cmp("==", T.add(a, b, -1)))
