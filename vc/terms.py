"""Exact real terms: Laurent polynomials over interned atoms.

An atom is a variable, a square root, an application of a (possibly uninterpreted) function, the
inverse of a polynomial, or a sum over an index set of unknown size.  All arithmetic is exact
(rationals); float literals are read as the decimal they are written as.  `is_zero` is the
normaliser: it clears inverses and negative powers and replaces even powers of square roots by their
argument; it answers True only when the term is identically zero wherever it is defined.
"""
from __future__ import annotations

import hashlib
from fractions import Fraction
from math import gcd, isqrt

import mpmath

mp = mpmath.mp
mp.dps = 40


class TooBig(Exception):
    pass


LIMIT = 60000
THR = 120  # larger products are named (a "def" atom) instead of expanded
EXACT = 0  # >0: expand everything (raises TooBig)

ATOMS = []  # index -> Atom
_INTERN = {}
_BYNAME = {}


class Atom:
    __slots__ = ("id", "kind", "name", "args", "deps", "pos", "fp", "_red", "extra")

    def __init__(self, kind, name, args, deps, pos=False, extra=None):
        self.id = len(ATOMS)
        self.kind, self.name, self.args = kind, name, args
        self.deps, self.pos = deps, pos
        self.fp = None
        self._red = None
        self.extra = extra
        ATOMS.append(self)

    def __repr__(self):
        return show_atom(self)


def _mk(kind, name, args, deps, pos=False, extra=None):
    key = (kind, name, args)
    a = _INTERN.get(key)
    if a is None:
        a = Atom(kind, name, args, deps, pos, extra)
        _INTERN[key] = a
    return a


class L:
    """Laurent polynomial: dict monomial -> Fraction, monomial = tuple of (atom id, exponent)"""

    __slots__ = ("t", "_h", "_deps")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._deps = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, L) and self.t == o.t

    def deps(self):
        if self._deps is None:
            d = frozenset()
            for m in self.t:
                for a, _ in m:
                    d |= ATOMS[a].deps
            self._deps = d
        return self._deps

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def atoms(self, deep=False, acc=None):
        acc = set() if acc is None else acc
        for m in self.t:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    if deep:
                        for x in ATOMS[a].args:
                            if isinstance(x, L):
                                x.atoms(True, acc)
        return acc

    def __repr__(self):
        return show(self)


ZERO = L({})
ONE = L({(): Fraction(1)})


def const(q):
    q = Fraction(q)
    return L({(): q}) if q else ZERO


def from_float(x):
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise ValueError("not finite")
        return const(Fraction(repr(x)))
    raise TypeError(type(x))


def atom_term(a, e=1):
    return L({((a.id, e),): Fraction(1)})


def var(name, deps=frozenset(), pos=False):
    return atom_term(_mk("var", name, (), frozenset(deps), pos))


PI = atom_term(_mk("var", "pi", (), frozenset(), True))


def add(a, b, s=1):
    if not b.t:
        return a
    r = dict(a.t)
    for m, c in b.t.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return L(r)


def neg(a):
    return L({m: -c for m, c in a.t.items()})


def scale(a, q):
    if not q:
        return ZERO
    return L({m: c * q for m, c in a.t.items()})


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    i = j = 0
    r = []
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a, b = m[i], n[j]
        if a[0] < b[0]:
            r.append(a)
            i += 1
        elif a[0] > b[0]:
            r.append(b)
            j += 1
        else:
            e = a[1] + b[1]
            if e:
                r.append((a[0], e))
            i += 1
            j += 1
    r.extend(m[i:])
    r.extend(n[j:])
    return tuple(r)


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) > len(b.t):
        a, b = b, a
    if not EXACT and len(a.t) > 1:
        r = _cancel(a, b) or _cancel(b, a)
        if r is not None:
            return r
    n = len(a.t) * len(b.t)
    if EXACT:
        if n > LIMIT * 4:
            raise TooBig
    elif n > THR and len(a.t) > 1:
        b = named(b)
        if len(a.t) > THR // 4:
            a = named(a)
    r = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return L(r)


def _cancel(a, b):
    """(x/p) * (c*mono*p) = x*c*mono, for the divisors p of a (p was shown different from zero where it divided)"""
    m0 = next(iter(a.t))
    for x, e in m0:
        at = ATOMS[x]
        if at.kind != "inv" or e < 1 or len(at.args[0].t) != len(b.t):
            continue
        mono = common_mono(b)
        p = mulm(b, tuple((y, -k) for y, k in mono))
        c = p.t[max(p.t)]
        if scale(p, 1 / c) != at.args[0]:
            continue
        if all(any(y == x and k >= 1 for y, k in m) for m in a.t):
            return mulm(scale(a, c), mmul(((x, -1),), mono) if mono else ((x, -1),))
    return None


def named(a):
    """a as one atom"""
    if len(a.t) <= 1:
        return a
    return atom_term(_unify("def", "def", (a,), a.deps()))


def _undef(a):
    """expand the named subterms (exact mode)"""
    while True:
        target = None
        for m in a.t:
            for x, e in m:
                if ATOMS[x].kind == "def" and (target is None or x > target):
                    target = x
        if target is None:
            return a
        arg = ATOMS[target].args[0]
        groups = {}
        for m, c in a.t.items():
            e = dict(m).get(target, 0)
            groups.setdefault(e, {})[tuple(z for z in m if z[0] != target)] = c
        r = ZERO
        for e, t in groups.items():
            r = add(r, mul(L(t), powi(arg, e)) if e else L(t))
            if len(r.t) > LIMIT:
                raise TooBig
        a = r


def powi(a, n):
    if n < 0:
        return powi(inverse(a), -n)
    r = ONE
    b = a
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def inverse(a):
    if not a.t:
        raise ZeroDivisionError
    if len(a.t) == 1:
        (m, c), = a.t.items()
        return L({tuple((x, -e) for x, e in m): 1 / c})
    # try: fold even powers of square roots first (may become a monomial)
    a = reduce(a)
    if not a.t:
        raise ZeroDivisionError
    if len(a.t) == 1:
        return inverse(a)
    # canonical polynomial p (no negative exponents, leading coefficient 1), a = c * mono * p
    mono = common_mono(a)
    p = mulm(a, tuple((x, -e) for x, e in mono))
    lead = max(p.t)
    c = p.t[lead]
    p = scale(p, 1 / c)
    at = _mk("inv", "inv", (p,), p.deps())
    r = L({((at.id, 1),): 1 / c})
    return mulm(r, tuple((x, -e) for x, e in mono))


def mulm(a, m):
    if not m:
        return a
    return L({mmul(k, m): c for k, c in a.t.items()})


def common_mono(a):
    """gcd monomial (smallest exponents, may be negative) of all monomials"""
    it = iter(a.t)
    cur = dict(next(it))
    for m in it:
        d = dict(m)
        for k in list(cur):
            e = min(cur[k], d.get(k, 0))
            if e:
                cur[k] = e
            else:
                del cur[k]
        for k, e in d.items():
            if e < 0 and k not in cur:
                cur[k] = e
    return tuple(sorted(cur.items()))


def div(a, b):
    return mul(a, inverse(b))


# ------------------------------------------------------------------ reduction
def reduce(a):
    """replace s^(2k) by arg^k for square roots s (positive powers), x*inv(x) cancelled"""
    while True:
        target = None
        for m in a.t:
            for x, e in m:
                at = ATOMS[x]
                if at.kind == "sqrt" and e >= 2:
                    target = x
                    break
            if target is not None:
                break
        if target is None:
            return a
        arg = ATOMS[target].args[0]
        pows = {}
        parts = {}
        for m, c in a.t.items():
            e = dict(m).get(target, 0)
            k = e // 2 if e >= 2 else 0
            if k:
                mm = tuple((x, ee - 2 * k if x == target else ee) for x, ee in m if x != target or ee - 2 * k)
                parts.setdefault(k, {})
                parts[k][mm] = parts[k].get(mm, 0) + c
            else:
                parts.setdefault(0, {})[m] = parts.get(0, {}).get(m, 0) + c
        r = ZERO
        for k, t in parts.items():
            t = L({m: c for m, c in t.items() if c})
            if k:
                if k not in pows:
                    pows[k] = powi(arg, k)
                t = mul(t, pows[k])
            r = add(r, t)
            if len(r.t) > LIMIT:
                raise TooBig
        a = r


def sum_of_squares(a):
    """True: a is a sum of squares with non-negative rational weights (exact LDL^T of its Gram matrix over the
    monomials whose squares occur)"""
    a = reduce(a)
    basis = [tuple((x, e // 2) for x, e in m) for m, c in a.t.items() if c > 0 and all(e % 2 == 0 for _, e in m)]
    if not basis or len(basis) > 24:
        return False
    n = len(basis)
    pairs = {}
    for i in range(n):
        for j in range(i, n):
            pairs.setdefault(mmul(basis[i], basis[j]), (i, j))
    g = [[Fraction(0)] * n for _ in range(n)]
    for m, c in a.t.items():
        if m not in pairs:
            return False
        i, j = pairs[m]
        g[i][j] = g[j][i] = Fraction(c) if i == j else Fraction(c) / 2
    for k in range(n):
        if g[k][k] < 0:
            return False
        if g[k][k] == 0:
            if any(g[k][j] for j in range(k, n)):
                return False
            continue
        for i in range(k + 1, n):
            f = g[i][k] / g[k][k]
            for j in range(k, n):
                g[i][j] -= f * g[k][j]
    return True


def clear(a):
    """multiply by nonzero things until no inverse atom and no negative exponent is left; reduced"""
    for _ in range(60):
        inv = None
        for m in a.t:
            for x, e in m:
                if ATOMS[x].kind == "inv":
                    inv = x
                    break
            if inv is not None:
                break
        if inv is not None:
            p = ATOMS[inv].args[0]
            ks = [dict(m).get(inv, 0) for m in a.t]
            top = max(ks)
            lo = min(ks)
            groups = {}
            for m, c in a.t.items():
                e = dict(m).get(inv, 0)
                groups.setdefault(e, {})[tuple(z for z in m if z[0] != inv)] = c
            r = ZERO
            pw = {}
            for e, t in groups.items():
                k = top - e
                if k not in pw:
                    pw[k] = powi(p, k)
                r = add(r, mul(L(t), pw[k]))
            a = r
            if not a.t:
                return a
            continue
        mono = common_mono(a) if a.t else ()
        negs = tuple((x, -e) for x, e in mono if e < 0)
        if negs:
            a = mulm(a, negs)
        b = reduce(a)
        if b is a and not negs:
            return a
        a = b
        if not a.t:
            return a
    return a


_ZC = {}


STATS = {"exact": 0, "pit": 0, "pit_max_err_log2": -10**9}


def is_zero(a, exact=False):
    """True: a is identically zero (see STATS for how)"""
    global LAST
    LAST = "polynomial identity (exact)"
    if not a.t:
        return True
    if len(a.t) == 1:
        return False
    r = _ZC.get(a)
    if r is None:
        r = _is_zero(a)
        r = _ZC[a] = (r, LAST)
    LAST = r[1]
    return r[0]


LAST = ""


def _numeric_zero(a):
    for salt in ("nz0",):
        try:
            v, big = ev_mag(a, Env(salt=salt, lo=0.5, hi=1.7))
            if abs(v) > big * mpmath.mpf(10) ** -22:
                return False
        except Exception:
            pass
    return True


def _is_zero(a):
    """numeric filter at two real points (refutes), then modular identity test, then, within a size
    limit, exact expansion"""
    global EXACT, LAST
    try:
        z, err = pit(a)
    except PitFail:
        z, err = None, 0
    if z and not _numeric_zero(a):
        return False
    if z is False and not any(ATOMS[x].name == "log" for x in a.atoms()):
        return False
    if z:
        # exact expansion where it is small
        if len(a.t) <= 400:
            EXACT += 1
            try:
                if not clear(_undef(a)).t:
                    STATS["exact"] += 1
                    return True
            except (TooBig, ZeroDivisionError):
                pass
            finally:
                EXACT -= 1
        STATS["pit"] += 1
        LAST = "polynomial identity (modular, error < 2^-90)"
        STATS["pit_max_err_log2"] = max(STATS["pit_max_err_log2"], err)
        return True
    EXACT += 1
    try:
        return _is_zero_exact(a)
    except (TooBig, ZeroDivisionError):
        return False
    finally:
        EXACT -= 1


# ------------------------------------------------------------------ modular identity test
P = 2**127 - 1
TRIALS = 4


class PitFail(Exception):
    pass


class _NoRoot(Exception):
    pass


class _Pit:
    """values in GF(P)[i]/(i^2+1): every element of GF(P) has a square root there"""

    def __init__(self, seed, signs):
        self.seed, self.signs, self.memo = seed, signs, {}

    def rnd(self, *k):
        h = hashlib.sha256(repr((self.seed,) + k).encode()).digest()
        return int.from_bytes(h, "big") % P

    def atom(self, x):
        v = self.memo.get(x)
        if v is not None:
            return v
        at = ATOMS[x]
        if at.kind == "def":
            v = self.ev(at.args[0])
        elif at.kind == "inv":
            v = _pinv(self.ev(at.args[0]))
        elif at.kind == "sqrt":
            v = _psqrt(self.ev(at.args[0]))
            if self.rnd("sign", x, self.signs) & 1:
                v = ((P - v[0]) % P, (P - v[1]) % P)
        else:
            v = (self.rnd("atom", x), 0)
        self.memo[x] = v
        return v

    def power(self, x, e):
        k = (x, e)
        v = self.memo.get(k)
        if v is None:
            w = self.atom(x)
            if e < 0:
                w = _pinv(w)
                e = -e
            v = w
            for _ in range(e - 1):
                v = _pmul(v, w)
            self.memo[k] = v
        return v

    def ev(self, a):
        rr = ri = 0
        for m, c in a.t.items():
            n, d = c.numerator, c.denominator
            vr, vi = (n if d == 1 else n * _dinv(d)), 0
            for x, e in m:
                wr, wi = self.power(x, e)
                if wi == 0:
                    vr = vr * wr % P
                    if vi:
                        vi = vi * wr % P
                else:
                    vr, vi = (vr * wr - vi * wi) % P, (vr * wi + vi * wr) % P
            rr += vr
            ri += vi
        return (rr % P, ri % P)


_DI = {}


def _dinv(d):
    v = _DI.get(d)
    if v is None:
        v = _DI[d] = pow(d, P - 2, P)
    return v


def _pmul(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def _pinv(a):
    n = (a[0] * a[0] + a[1] * a[1]) % P
    if not n:
        raise _NoRoot
    n = pow(n, P - 2, P)
    return (a[0] * n % P, -a[1] * n % P)


def _rt(w):
    v = pow(w, (P + 1) // 4, P)
    return v if v * v % P == w else None


def _psqrt(a):
    if a[1] == 0:
        v = _rt(a[0])
        if v is not None:
            return (v, 0)
        return (0, _rt(-a[0] % P))
    # x+iy with x^2-y^2 = a0, 2xy = a1
    n = _rt((a[0] * a[0] + a[1] * a[1]) % P)
    if n is None:
        raise _NoRoot
    half = (P + 1) // 2
    for s in (n, P - n):
        x = _rt((a[0] + s) * half % P)
        if x:
            return (x, a[1] * half * pow(x, P - 2, P) % P)
    raise _NoRoot


_DEG = {}


def _adeg(x):
    d = _DEG.get(x)
    if d is None:
        at = ATOMS[x]
        if at.kind in ("def", "inv", "sqrt"):
            d = _ldeg(at.args[0])
        else:
            d = 1
        _DEG[x] = d
    return d


def _ldeg(a):
    """crude bound on numerator and denominator degree"""
    s = set()
    top = 1
    for m in a.t:
        k = 0
        for x, e in m:
            k += abs(e) * _adeg(x)
            if e < 0 or ATOMS[x].kind != "var":
                s.add((x, abs(e)))
        top = max(top, k)
    return top + sum(_adeg(x) * e for x, e in s)


def pit(a):
    """identity test modulo the prime 2^127-1 at random points, square roots taken with random signs
    (so it must vanish on every branch); function values are independent unknowns"""
    import math as _m

    deps = a.atoms(True)
    nroots = sum(1 for x in deps if ATOMS[x].kind == "sqrt")
    deg = _ldeg(a)
    done = 0
    seed = 0
    while done < TRIALS:
        seed += 1
        if seed > 400:
            raise PitFail
        pt = _Pit(("pit", seed), seed)
        try:
            v = pt.ev(a)
        except _NoRoot:
            continue
        if v != (0, 0):
            return False, 0
        done += 1
    err = (_m.log2(deg + 1) + 2 * nroots - 126) * 1.0  # one trial alone
    return True, err


def _is_zero_exact(a):
    c = clear(_undef(a))
    if not c.t:
        return True
    c2 = merge_logs(c)
    if c2 is not None:
        return c2
    return False


def merge_logs(c):
    """sum of coefficient*log(x): zero if all coefficients are integer multiples of one and the
    product of the arguments is 1.  None: not applicable"""
    logs = [x for x in c.atoms() if ATOMS[x].kind == "fn" and ATOMS[x].name == "log"]
    if not logs:
        return None
    co = {x: {} for x in logs}
    for m, q in c.t.items():
        d = [(x, e) for x, e in m if x in co]
        if len(d) != 1 or d[0][1] != 1:
            return None
        x = d[0][0]
        co[x][tuple(z for z in m if z[0] != x)] = q
    base = L(co[logs[0]])
    m0 = max(base.t)
    prod = ONE
    for x in logs:
        cx = L(co[x])
        if m0 not in cx.t:
            q = None
            # try reduction on the cross product
            return None
        q = cx.t[m0] / base.t[m0]
        if q.denominator != 1 or not is_zero(add(cx, scale(base, q), -1)):
            return None
        prod = mul(prod, powi(ATOMS[x].args[0], int(q)))
    return is_zero(add(prod, ONE, -1))


# ------------------------------------------------------------------ functions
SQRT_RULES = []  # (argument, root): root is known to be non-negative and root^2 = argument


def _unify(kind, name, args, deps, pos=False, extra=None):
    """intern a function/sqrt atom, reusing an existing one whose arguments are equal"""
    key = (kind, name, args)
    a = _INTERN.get(key)
    if a is not None:
        return a
    fp = None
    try:
        fp = tuple(fingerprint(x) if isinstance(x, L) else x for x in args)
    except Exception:
        fp = None
    if fp is not None:
        for b in _BYNAME.get((kind, name, len(args)), []):
            if b.fp is None:
                continue
            if all((close(p, q) if isinstance(x, L) and isinstance(y, L) else p == q)
                   for p, q, x, y in zip(fp, b.fp, args, b.args)):
                if all((is_zero(add(x, y, -1)) if isinstance(x, L) else x == y) for x, y in zip(args, b.args)):
                    _INTERN[key] = b
                    return b
    a = Atom(kind, name, args, deps, pos, extra)
    a.fp = fp
    _INTERN[key] = a
    _BYNAME.setdefault((kind, name, len(args)), []).append(a)
    return a


def close(p, q):
    return abs(p - q) <= mpmath.mpf(10) ** (-25) * (1 + abs(p) + abs(q))


def deps_of(args):
    d = frozenset()
    for x in args:
        if isinstance(x, L):
            d |= x.deps()
    return d


def fn(name, *args, pos=False, deps=None):
    return atom_term(_unify("fn", name, args, (deps_of(args) if deps is None else deps_of(args) | deps), pos))


def _sq(n):
    r = isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    if not a.t:
        return ZERO
    a = reduce(a)
    if not a.t:
        return ZERO
    if a.is_const():
        q = a.const()
        if q < 0:
            raise ValueError("sqrt of a negative number")
        n, d = _sq(q.numerator), _sq(q.denominator)
        if n is not None and d is not None:
            return const(Fraction(n, d))
    for arg, root in SQRT_RULES:
        if is_zero(add(a, arg, -1)):
            return root
    # pull out even powers of positive atoms
    out = []
    mono = common_mono(a)
    for x, e in mono:
        if ATOMS[x].pos or ATOMS[x].kind == "sqrt":
            k = e // 2 if e >= 0 else -((-e + 1) // 2)
            if k:
                out.append((x, k))
    if out:
        a = mulm(a, tuple((x, -2 * k) for x, k in out))
        a = reduce(a)
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if not m:
            return mulm(sqrt(a), tuple(out)) if out else _sqrt_const(c)
    # rational square content
    g = 0
    dl = 1
    for c in a.t.values():
        g = gcd(g, c.numerator)
        dl = dl * c.denominator // gcd(dl, c.denominator)
    g2 = gcd(*[int(c * dl) for c in a.t.values()]) if len(a.t) > 1 else abs(int(list(a.t.values())[0] * dl))
    content = Fraction(g2, dl)
    n, d = _sq(content.numerator), _sq(content.denominator)
    q = Fraction(1)
    if n and d:
        q = Fraction(n, d)
        a = scale(a, 1 / content)
    s = atom_term(_unify("sqrt", "sqrt", (a,), a.deps(), True))
    return scale(mulm(s, tuple(sorted(out))), q)


def _sqrt_const(c):
    n, d = _sq(c.numerator), _sq(c.denominator)
    if n is not None and d is not None:
        return const(Fraction(n, d))
    return atom_term(_unify("sqrt", "sqrt", (const(c),), frozenset(), True))


def tsum(seq, body):
    """sum of body over the index set `seq` (an object with .name, .count term)"""
    body = reduce(body)
    res = ZERO
    for m, c in body.t.items():
        dep = tuple((x, e) for x, e in m if seq.name in ATOMS[x].deps)
        ind = tuple((x, e) for x, e in m if seq.name not in ATOMS[x].deps)
        if not dep:
            t = mulm(scale(seq.count, c), ind)
        else:
            b = L({dep: Fraction(1)})
            d = b.deps() - {seq.name}
            at = _unify("sum", "sum", (seq.name, b), d)
            t = L({mmul(((at.id, 1),), ind): c})
        res = add(res, t)
    return res


# ------------------------------------------------------------------ derivative
def diff(a, v):
    """derivative with respect to the variable term v (a single var atom)"""
    (m, _), = v.t.items()
    vid = m[0][0]
    memo = {}

    def da(x):
        if x in memo:
            return memo[x]
        at = ATOMS[x]
        if x == vid:
            r = ONE
        elif at.kind == "var":
            r = ZERO
        elif at.kind == "sqrt":
            d = dl(at.args[0])
            r = mul(scale(d, Fraction(1, 2)), L({((x, -1),): Fraction(1)})) if d.t else ZERO
        elif at.kind == "def":
            r = dl(at.args[0])
        elif at.kind == "inv":
            d = dl(at.args[0])
            r = neg(mul(d, L({((x, 2),): Fraction(1)}))) if d.t else ZERO
        elif at.kind == "fn":
            ds = [dl(y) if isinstance(y, L) else ZERO for y in at.args]
            if not any(d.t for d in ds):
                r = ZERO
            elif at.name == "log":
                r = mul(ds[0], inverse(at.args[0]))
            elif at.name == "acos":
                b = at.args[0]
                r = neg(mul(ds[0], inverse(sqrt(add(ONE, mul(b, b), -1)))))
            else:
                raise NotImplementedError("derivative of " + at.name)
        elif at.kind == "sum":
            d = dl(at.args[1])
            if d.t:
                raise NotImplementedError("derivative of sum")
            r = ZERO
        else:
            raise NotImplementedError(at.kind)
        memo[x] = r
        return r

    def dl(p):
        r = ZERO
        for mm, c in p.t.items():
            for x, e in mm:
                d = da(x)
                if d.t:
                    rest = mmul(mm, ((x, -1),))
                    r = add(r, mul(L({rest: c * e}), d))
        return r

    return dl(a)


# ------------------------------------------------------------------ numbers
def hrand(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return mpmath.mpf(int.from_bytes(h[:16], "big")) / mpmath.mpf(2) ** 128


class Env:
    """a valuation: values of variables (by name), index values, functions"""

    def __init__(self, vals=None, salt=0, lo=-2, hi=2, fns=None, idx=None, counts=None):
        self.vals = vals or {}
        self.salt, self.lo, self.hi = salt, lo, hi
        self.memo = {}
        self.idx = idx or {}
        self.fns = fns or {}
        self.counts = counts or {}

    def child(self, name, i):
        return Env(self.vals, self.salt, self.lo, self.hi, self.fns, {**self.idx, name: i}, self.counts)

    def count(self, name):
        return self.counts.get(name, 3)


def _key(at, env):
    return tuple((d, env.idx.get(d, 0)) for d in sorted(at.deps))


def ev_atom(x, env):
    if x in env.memo:
        return env.memo[x]
    at = ATOMS[x]
    if at.kind == "var":
        if at.name == "pi":
            r = mp.pi + 0
        else:
            ks = _key(at, env)
            v = env.vals.get((at.name, ks)) if ks else None
            if v is None:
                v = env.vals.get(at.name) if not ks else env.vals.get((at.name, ks))
            if v is None:
                if at.name.startswith("#n:"):
                    v = env.count(at.name[3:])
                else:
                    v = env.lo + (env.hi - env.lo) * hrand(env.salt, at.name, ks)
                    if at.pos:
                        v = abs(v) + mpmath.mpf("0.01")
            if isinstance(v, Fraction):
                v = mpmath.mpf(v.numerator) / v.denominator
            elif not isinstance(v, mpmath.mpf):
                v = mpmath.mpf(v)
            r = v
    elif at.kind == "sqrt":
        v = ev(at.args[0], env)
        r = mpmath.sqrt(v)
    elif at.kind == "inv":
        r = 1 / ev(at.args[0], env)
    elif at.kind == "def":
        r = ev(at.args[0], env)
    elif at.kind == "sum":
        n = env.count(at.args[0])
        r = mpmath.mpf(0)
        for i in range(1, n + 1):
            r += ev(at.args[1], env.child(at.args[0], i))
    else:
        f = env.fns.get(at.name) or FNS.get(at.name)
        args = [ev(y, env) if isinstance(y, L) else y for y in at.args]
        if f is not None:
            r = f(*args)
        else:
            ks = tuple(_round(y) for y in args)
            r = env.lo + (env.hi - env.lo) * hrand(env.salt, at.name, ks, _key(at, env))
            if at.pos:
                r = abs(r) + mpmath.mpf("0.01")
    env.memo[x] = r
    return r


def _round(y):
    if isinstance(y, (mpmath.mpf, mpmath.mpc)):
        return mpmath.nstr(y, 18)
    return y


def ev(a, env):
    r = mpmath.mpf(0)
    for m, c in a.t.items():
        v = mpmath.mpf(c.numerator) / c.denominator
        for x, e in m:
            v = v * ev_atom(x, env) ** e
        r += v
    return r


def ev_mag(a, env):
    """value and size of the largest summand (to judge cancellation)"""
    r = mpmath.mpf(0)
    big = mpmath.mpf(0)
    for m, c in a.t.items():
        v = mpmath.mpf(c.numerator) / c.denominator
        for x, e in m:
            v = v * ev_atom(x, env) ** e
        r += v
        big = max(big, abs(v))
    return r, big


def _re(x):
    return x.real if isinstance(x, mpmath.mpc) else x


FNS = {
    "log": lambda x: mpmath.log(x),
    "acos": lambda x: mpmath.acos(x),
    "asin": lambda x: mpmath.asin(x),
    "atan": lambda x: mpmath.atan(x),
    "atan2": lambda y, x: mpmath.atan2(_re(y), _re(x)),
    "sin": mpmath.sin,
    "cos": mpmath.cos,
    "exp": mpmath.exp,
    "abs": lambda x: abs(_re(x)),
    "sign": lambda x: mpmath.sign(_re(x)),
    "max": lambda *a: max(_re(x) for x in a),
    "min": lambda *a: min(_re(x) for x in a),
    "floor": lambda x: mpmath.floor(_re(x)),
    "ite": lambda *a: None,
}

_FPENV = None


def fingerprint(a):
    global _FPENV
    if _FPENV is None:
        _FPENV = Env(salt="fp", lo=0.5, hi=1.7)
    return ev(a, _FPENV)


# ------------------------------------------------------------------ printing
def show_atom(at):
    if at.kind == "var":
        return at.name + ("[" + ",".join(sorted(at.deps)) + "]" if at.deps else "")
    if at.kind == "sqrt":
        return "sqrt(" + show(at.args[0]) + ")"
    if at.kind == "def":
        return "(" + show(at.args[0], 6) + ")"
    if at.kind == "inv":
        return "1/(" + show(at.args[0]) + ")"
    if at.kind == "sum":
        return "Sum_" + at.args[0] + "(" + show(at.args[1]) + ")"
    return at.name + "(" + ",".join(show(x) if isinstance(x, L) else repr(x) for x in at.args) + ")"


def show(a, n=12):
    if not a.t:
        return "0"
    out = []
    for m, c in list(a.t.items())[:n]:
        s = "*".join(show_atom(ATOMS[x]) + (f"^{e}" if e != 1 else "") for x, e in m)
        out.append((f"{c}" if (c != 1 or not s) else "") + ("*" if s and c != 1 else "") + s)
    return " + ".join(out) + (" + ..." if len(a.t) > n else "")
