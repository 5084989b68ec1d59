"""Symbolic values that run inside the real source: reals, booleans, identities, arrays, matrices with
an unbounded number of rows, and sequences with an unbounded number of elements (Block)."""
from __future__ import annotations

import builtins
import math as _math
import operator
from fractions import Fraction

import numpy as rnp

from . import terms as T
from .terms import L
from . import engine as E
from .engine import Unsupported, cmp, cnot, cand, cor, Cond, eng

NUM = (int, float, Fraction, rnp.integer, rnp.floating)


def term(x):
    """term of a number or symbolic real"""
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, L):
        return x
    if isinstance(x, (bool, rnp.bool_)):
        return T.const(int(x))
    if isinstance(x, (int, rnp.integer)):
        return T.const(int(x))
    if isinstance(x, (float, rnp.floating)):
        try:
            return T.from_float(float(x))
        except ValueError:
            raise Unsupported("not a finite number")
    if isinstance(x, Fraction):
        return T.const(x)
    if isinstance(x, SymBool):
        return T.const(int(bool(x)))
    if isinstance(x, Poison):
        x._hit("arithmetic")
    if isinstance(x, rnp.ndarray) and x.ndim == 0:
        return term(x.item())
    raise Unsupported(f"not a number: {type(x).__name__}")


def isnum(x):
    return isinstance(x, NUM + (SymReal, bool)) or (isinstance(x, rnp.ndarray) and x.ndim == 0)


class Poison:
    """a value that must not be read"""

    def __init__(self, what):
        object.__setattr__(self, "_what", what)

    def _hit(self, how):
        e = eng()
        e.poison_hit(object.__getattribute__(self, "_what"), how)

    def __getattr__(self, n):
        if n.startswith("__array"):
            raise AttributeError(n)
        self._hit("." + n)

    def _bin(self, *a):
        self._hit("use")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bin
    __neg__ = __abs__ = __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __iter__ = __len__ = _bin
    __bool__ = __call__ = __float__ = __int__ = __iadd__ = __pow__ = __eq__ = __ne__ = _bin
    __hash__ = object.__hash__

    def __repr__(self):
        return "<poison>"


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return eng().decide(self.c)

    def __and__(self, o):
        return mkbool(cand([self.c, bcond(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(cor([self.c, bcond(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(cnot(self.c))

    def __xor__(self, o):
        return bool(self) != bool(o)

    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(self.c.key())

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __mul__(self, o):
        return (1 if bool(self) else 0) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def all(self, *a):
        return self

    any = all

    def item(self):
        return self


def bcond(o):
    if isinstance(o, SymBool):
        return o.c
    return E.TRUE if bool(o) else E.FALSE


def mkbool(c):
    if c.k == "const":
        return bool(c.a[0])
    return SymBool(c)


def _fl(name):
    def f(self):
        return SymReal(T.fn(name, self.t))

    return f


class SymReal:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # arithmetic
    def _ar(op):
        def f(self, o):
            if isinstance(o, rnp.ndarray) and o.ndim > 0:
                out = rnp.empty(o.shape, dtype=object)
                for ix in rnp.ndindex(o.shape):
                    out[ix] = mk(op(self.t, term(o[ix])))
                return out.view(SymArray)
            if isinstance(o, (SymMat, SymCol, SymMatT)):
                return NotImplemented
            if not isnum(o) and not isinstance(o, (SymBool, Poison)):
                return NotImplemented
            return mk(op(self.t, term(o)))

        return f

    __add__ = _ar(T.add)
    __radd__ = _ar(lambda a, b: T.add(b, a))
    __sub__ = _ar(lambda a, b: T.add(a, b, -1))
    __rsub__ = _ar(lambda a, b: T.add(b, a, -1))
    __mul__ = _ar(T.mul)
    __rmul__ = _ar(lambda a, b: T.mul(b, a))
    __truediv__ = _ar(lambda a, b: tdiv(a, b))
    __rtruediv__ = _ar(lambda a, b: tdiv(b, a))
    __mod__ = _ar(lambda a, b: tmod(a, b))
    __rmod__ = _ar(lambda a, b: tmod(b, a))
    __floordiv__ = _ar(lambda a, b: T.fn("floor", tdiv(a, b)))

    def __pow__(self, n):
        if isinstance(n, SymReal) and n.t.is_const():
            n = n.t.const()
        if isinstance(n, (int, rnp.integer)) or (isinstance(n, (float, Fraction)) and n == int(n)):
            n = int(n)
            if n < 0:
                dom("division by zero", cmp("!=", self.t))
            return mk(T.powi(self.t, n))
        if n == 0.5 or n == Fraction(1, 2):
            return fsqrt(self)
        if n == -0.5:
            return 1 / fsqrt(self)
        if n == 1.5:
            return self * fsqrt(self)
        raise Unsupported("power")

    def __neg__(self):
        return mk(T.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return fabs(self)

    # comparison
    def _cm(rel, sign):
        def f(self, o):
            if o is None or isinstance(o, str):
                return NotImplemented
            if isinstance(o, rnp.ndarray) and o.ndim > 0:
                out = rnp.empty(o.shape, dtype=object)
                for ix in rnp.ndindex(o.shape):
                    out[ix] = f(self, o[ix])
                return out.view(SymArray)
            if isinstance(o, (SymCol,)):
                return NotImplemented
            if isinstance(o, float) and o in (float("inf"), float("-inf")):
                big = o > 0
                return {">": (not big) if sign > 0 else big, ">=": (not big) if sign > 0 else big, "==": False, "!=": True}[rel]
            if isinstance(o, float) and o != o:
                return rel == "!="
            if not isnum(o) and not isinstance(o, (SymBool, Poison)):
                return NotImplemented
            d = T.add(self.t, term(o), -1)
            if sign < 0:
                d = T.neg(d)
            return mkbool(cmp(rel, d))

        return f

    __gt__ = _cm(">", 1)
    __ge__ = _cm(">=", 1)
    __lt__ = _cm(">", -1)
    __le__ = _cm(">=", -1)
    __eq__ = _cm("==", 1)
    __ne__ = _cm("!=", 1)

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("conversion of a symbolic number to a machine float")

    def __int__(self):
        if self.t.is_const() and self.t.const().denominator == 1:
            return int(self.t.const())
        raise Unsupported("conversion of a symbolic number to a machine integer")

    def __index__(self):
        return self.__int__()

    def __round__(self, n=None):
        return fround(self, n)

    def __format__(self, spec):
        return "<real>"

    def __repr__(self):
        return "<" + T.show(self.t, 6) + ">"

    # used by numpy on object arrays
    def sqrt(self):
        return fsqrt(self)

    def log(self):
        return flog(self)

    def arccos(self):
        return facos(self)

    def sin(self):
        return mk(T.fn("sin", self.t))

    def cos(self):
        return mk(T.fn("cos", self.t))

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def is_integer(self):
        raise Unsupported("is_integer")

    def astype(self, dtype=float, *a, **k):
        return converted(self, conversion(dtype))

    @property
    def real(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1


class RawReal(SymReal):
    """a number as read from a file: an integer or a float"""

    def __float__(self):
        return super().__float__()


class CountReal(SymReal):
    """number of elements of lists of the structure sig"""

    sig = None


def mk(t):
    return SymReal(t)


def dom(name, c):
    e = eng()
    if e.domain:
        e.prove("domain: " + name, c)


def tdiv(a, b):
    e = eng()
    if e.domain:
        e.dom_nonzero("domain: denominator is not zero", b)
    if not b.t:
        raise Unsupported("division by a term that is identically zero")
    return T.div(a, b)


def tmod(a, b):
    return T.add(a, T.mul(b, T.fn("floor", T.div(a, b))), -1)


def const_bounds(t):
    """(lower, upper) constant bounds of a term built from min and max of constants, None if unknown"""
    if t.is_const():
        return t.const(), t.const()
    if len(t.t) != 1:
        return None, None
    (m, c), = t.t.items()
    if len(m) != 1 or m[0][1] != 1:
        return None, None
    a = T.ATOMS[m[0][0]]
    lo = hi = None
    if a.kind == "fn" and a.name in ("max", "min"):
        bs = [const_bounds(x) for x in a.args]
        los, his = [b[0] for b in bs], [b[1] for b in bs]
        if a.name == "max":
            known = [x for x in los if x is not None]
            lo = max(known) if known else None
            hi = max(his) if None not in his else None
        else:
            known = [x for x in his if x is not None]
            hi = min(known) if known else None
            lo = min(los) if None not in los else None
    if c < 0:
        lo, hi = hi, lo
    return (None if lo is None else lo * c), (None if hi is None else hi * c)


def clamped(t, m):
    """-m <= t <= m by construction"""
    lo, hi = const_bounds(t)
    return lo is not None and hi is not None and lo >= -m and hi <= m


def sqrt_dom(t):
    e = eng()
    if not e.domain:
        return
    name = "domain: square root of a non-negative number"
    for arg, root in T.SQRT_RULES:
        if T.is_zero(T.add(t, arg, -1)):
            return e._rec(name, True, "lemma: 1-b^2 is a square")
    # c - k*x^2 with x clamped
    d = T.add(t, T.const(t.t.get((), 0)), -1) if () in t.t else None
    if d is not None and len(d.t) == 1:
        (m, c), = d.t.items()
        if len(m) == 1 and m[0][1] == 2 and c < 0:
            x = T.L({((m[0][0], 1),): Fraction(1)})
            lo, hi = const_bounds(x)
            if lo is not None and hi is not None and t.t[()] + c * max(lo * lo, hi * hi) >= 0:
                return e._rec(name, True, "bounds of min and max")
    if T.sum_of_squares(t):
        return e._rec(name, True, "sum of squares (exact LDL^T)")
    e.prove(name, cmp(">=", t))


def fsqrt(x):
    t = term(x)
    sqrt_dom(t)
    try:
        return mk(T.sqrt(t))
    except ValueError:
        raise Unsupported("square root of a negative constant")


def flog(x):
    t = term(x)
    dom("logarithm of a positive number", cmp(">", t))
    if t == T.ONE:
        return mk(T.ZERO)
    return mk(T.fn("log", t))


def facos(x):
    t = term(x)
    if eng().domain and clamped(t, 1):
        eng()._rec("domain: arc cosine of a number in [-1, 1]", True, "bounds of min and max")
        return mk(T.fn("acos", t))
    dom("arc cosine of a number in [-1, 1]", cand([cmp(">=", T.add(T.ONE, t)), cmp(">=", T.add(T.ONE, t, -1))]))
    return mk(T.fn("acos", t))


def fabs(x):
    t = term(x)
    if t.is_const():
        return mk(T.const(abs(t.const())))
    r = eng().truth(cmp(">=", t))
    if r is True:
        return mk(t)
    if r is False:
        return mk(T.neg(t))
    return mk(T.fn("abs", t))


def fsign(x):
    x = mk(term(x))
    if x > 0:
        return mk(T.ONE)
    if x < 0:
        return mk(T.const(-1))
    return mk(T.ZERO)


def fround(x, n=0):
    """round half to even at n decimals: an uninterpreted function (evaluated when searching inputs)"""
    n = 0 if n is None else int(n)
    t = term(x)
    if t.is_const():
        from fractions import Fraction

        return mk(T.const(Fraction(round(t.const(), n))))
    name = f"round{n}"
    if name not in T.FNS:
        T.FNS[name] = lambda v, k=T.mpmath.mpf(10) ** n: T.mpmath.nint(T._re(v) * k) / k
    return mk(T.fn(name, t))


def fmaxmin(name, args):
    """max or min of numbers; picks one when the facts decide it"""
    out = []
    for a in args:
        t = term(a)
        done = False
        for i, b in enumerate(out):
            d = T.add(t, b, -1) if name == "max" else T.add(b, t, -1)
            if not d.t:
                done = True
                break
            r = eng().truth(cmp(">=", d))
            if r is True:
                out[i] = t
                done = True
                break
            if r is False:
                done = True
                break
        if not done:
            out.append(t)
    if len(out) == 1:
        return mk(out[0])
    return mk(T.fn(name, *sorted(out, key=lambda l: l.key())))


# ------------------------------------------------------------------ identities
class SymIdx:
    """an integer known only by identity (an index); `rel` tells whether two are equal"""

    def __init__(self, name, table=None, ref=None):
        self.name, self.table, self.ref = name, table, ref
        self.deps = frozenset()

    def _eq(self, o):
        if self is o or (isinstance(o, SymIdx) and o.name == self.name):
            return True
        if isinstance(o, SymIdx):
            r = self.table(self, o) if self.table else None
            if r is not None:
                return r
            a, b = sorted([self.name, o.name])
            return eng().decide(Cond("bv", f"eq:{a}:{b}", frozenset()))
        if isinstance(o, (int, rnp.integer)):
            return eng().decide(Cond("bv", f"eqc:{self.name}:{int(o)}", frozenset()))
        return False

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        return not self._eq(o)

    def __lt__(self, o):
        if self._eq(o):
            return False
        if isinstance(o, SymIdx):
            a, b = sorted([self.name, o.name])
            r = eng().decide(Cond("bv", f"lt:{a}:{b}", frozenset()))
            return r if a == self.name else not r
        return eng().decide(Cond("bv", f"ltc:{self.name}:{o}", frozenset()))

    def __gt__(self, o):
        return not self._eq(o) and not (self < o)

    def __le__(self, o):
        return self._eq(o) or self < o

    def __ge__(self, o):
        return not (self < o)

    def __hash__(self):
        return hash(self.name)

    def __index__(self):
        raise Unsupported("a symbolic index is used as a machine integer")

    __int__ = __index__

    def __add__(self, o):
        raise Unsupported("arithmetic on a symbolic index")

    __radd__ = __sub__ = __rsub__ = __mul__ = __mod__ = __add__

    def item(self):
        return self

    def __repr__(self):
        return "#" + self.name


# ------------------------------------------------------------------ sequences
class SymStr:
    """an unknown non-empty string; `never`: strings it is known to differ from in every letter case.
    Comparison with any other string is decided both ways."""

    vc_str = True

    def __init__(self, name, never=(), form="", root=None):
        self.name, self.never, self.form = name, frozenset(x.lower() for x in never), form
        self.known = {}
        self.root = root or self
        if root is None:
            self.words = []  # what it, or something made of it, turned out to be

    def vc_isinstance(self, t):
        return t is str or t is object

    def _eq(self, o):
        if isinstance(o, SymStr):
            if o is self or (o.name == self.name and o.form == self.form):
                return True
            raise Unsupported("comparison of unknown strings")
        if not isinstance(o, str) or o == "" or o.lower() in self.never:
            return False
        if (self.form == "upper" and o != o.upper()) or (self.form == "lower" and o != o.lower()):
            return False
        for v, r in self.known.items():
            if r and v != o:
                return False
        if o not in self.known:
            self.known[o] = bool(SymBool(E.Cond("bv", "str:%s:%s=%s" % (self.name, self.form, o), ())))
            if self.known[o]:
                self.root.words.append(o)
        return self.known[o]

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        return not self._eq(o)

    def __hash__(self):
        raise Unsupported("hash of an unknown string")

    def __bool__(self):
        return True

    def upper(self):
        return SymStr(self.name, self.never, "upper", self.root)

    def lower(self):
        return SymStr(self.name, self.never, "lower", self.root)

    casefold = lower

    def _made(self, what):
        """what a string method makes of it: any string, the same one every time"""
        return SymStr("%s.%s.%s" % (self.name, self.form, what), (), self.form, self.root)

    def strip(self, *a):
        return self._made("strip%r" % (a,))

    def lstrip(self, *a):
        return self._made("lstrip%r" % (a,))

    def rstrip(self, *a):
        return self._made("rstrip%r" % (a,))

    def removeprefix(self, *a):
        return self._made("removeprefix%r" % (a,))

    def removesuffix(self, *a):
        return self._made("removesuffix%r" % (a,))

    def replace(self, *a):
        if not all(isinstance(x, (str, int)) for x in a):
            raise Unsupported("str.replace of an unknown string")
        r = self._made("replace%r" % (a,))
        r.form = ""
        return r

    def __str__(self):
        return "<%s>" % self.name

    def __format__(self, s):
        return "<%s>" % self.name

    __repr__ = __str__

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("str.%s of an unknown string" % n)


class Seq:
    """an index set of unknown size"""

    def __init__(self, name):
        self.name = name
        self.count = T.var("#n:" + name, pos=True)

    def __eq__(self, o):
        return isinstance(o, Seq) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "Seq(" + self.name + ")"


class Block:
    """stands, inside a list, for any number of consecutive elements: element kappa of `seq` is `elem`"""

    __slots__ = ("seq", "elem")

    def __init__(self, seq, elem):
        self.seq, self.elem = seq, elem

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported(f"an element of an unbounded sequence is used by position (.{n})")

    def _no(self, *a):
        raise Unsupported("an element of an unbounded sequence is used by position")

    __getitem__ = __iter__ = __call__ = __add__ = __len__ = __bool__ = _no

    def __repr__(self):
        return f"Block({self.seq.name})"


class SymPos:
    """position of the generic element of seq"""

    def __init__(self, seq):
        self.seq = seq

    def __index__(self):
        raise Unsupported("position in an unbounded sequence used as a number")

    def _no(self, *a):
        raise Unsupported("arithmetic on a position in an unbounded sequence")

    __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = __mod__ = __lt__ = __gt__ = __eq__ = __ne__ = _no
    __hash__ = object.__hash__


def parts(a):
    """structure of a list: name of the sequence of each unbounded part, None for a single element"""
    return tuple(x.seq.name if isinstance(x, Block) else None for x in a)


class ItemPos(SymPos):
    """position of one part (an element or the generic one of an unbounded part) in lists of this structure"""

    def __init__(self, home, i):
        super().__init__(home[i].seq if isinstance(home[i], Block) else None)
        self.sig, self.i = parts(home), i


class SymSeq(list):
    """result of a generator expression over unbounded sequences"""

    def __next__(self):
        raise Unsupported("next() on an unbounded generator")


def has_block(x):
    if isinstance(x, (list, tuple)):
        return any(isinstance(y, Block) for y in x)
    return isinstance(x, (SymMat, SymMatT, SymCol))


def as_items(x):
    """list of concrete elements and Blocks"""
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, SymMat):
        r = x.row()
        eng().rows[id(r)] = (r, x, list(x.cols))  # a view: what a loop writes into it is written to the matrix
        return [Block(x.seq, r)]
    if isinstance(x, SymCol):
        return [Block(x.seq, x.value())]
    if isinstance(x, SymMatT):
        return [x[i] for i in range(len(x.m.cols))]
    if hasattr(x, "vc_items"):
        return x.vc_items()
    return None


def count_of(items):
    n = T.ZERO
    k = 0
    for x in items:
        if isinstance(x, Block):
            n = T.add(n, x.seq.count)
        else:
            k += 1
    r = CountReal(T.add(n, T.const(k)))
    r.sig = parts(items)
    return r


EXACT = (None, float, object, "float", "float64", "f8", "d", "O")


def conversion(dtype):
    """None where converting to dtype keeps every number, else the name of the function that loses digits"""
    for d in EXACT:
        if dtype is d or (isinstance(dtype, str) and dtype == d):
            return None
    if dtype in (rnp.float64, rnp.floating, rnp.longdouble):
        return None
    if isinstance(dtype, SymReal) or is_opaque(dtype):
        raise Unsupported("type of numbers")
    d = rnp.dtype(dtype)
    if d.kind == "f":
        if d.itemsize >= 8:
            return None
        name = d.name
        T.FNS.setdefault(name, lambda v: T.mpmath.mpf(float(d.type(float(T._re(v))))))
        return name
    if d.kind in "iu":
        T.FNS.setdefault("int", lambda v: T.mpmath.mpf(int(T._re(v))))
        return "int"
    raise Unsupported("conversion to " + str(d))


def is_opaque(x):
    return type(x).__name__ == "Opaque"


def converted(x, name):
    """x (number, column, table, array) after the conversion"""
    if name is None:
        return x

    def one(v):
        t = term(v)
        if t.is_const() and name != "int":
            return v if float(t.const()) == float(rnp.dtype(name).type(float(t.const()))) else mk(T.fn(name, t))
        if t.is_const():
            return mk(T.const(int(t.const())))
        return mk(T.fn(name, t))

    if isinstance(x, SymCol):
        return SymCol(x.seq, val=one(x.value()))
    if isinstance(x, SymMat):
        return SymMat(x.seq, [term(one(mk(c))) for c in x.cols])
    if isinstance(x, rnp.ndarray):
        out = rnp.empty(x.shape, dtype=object)
        for ix in rnp.ndindex(x.shape):
            out[ix] = one(x[ix])
        return out.view(SymArray)
    return one(x)


# ------------------------------------------------------------------ small arrays
def np_round(x, n=0):
    if isinstance(x, SymCol):
        return SymCol(x.seq, val=fround(x.value(), n))
    if isinstance(x, SymMat):
        return SymMat(x.seq, [term(fround(mk(c), n)) for c in x.cols])
    if isinstance(x, rnp.ndarray):
        out = rnp.empty(x.shape, dtype=object)
        for ix in rnp.ndindex(x.shape):
            out[ix] = fround(x[ix], n)
        return out.view(SymArray)
    return fround(x, n)


class SymArray(rnp.ndarray):
    """object array of symbolic numbers (fixed shape)"""

    def max(self, axis=None, **k):
        return amaxmin("max", self, axis)

    def min(self, axis=None, **k):
        return amaxmin("min", self, axis)

    def round(self, decimals=0, **k):
        return np_round(self, decimals)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def astype(self, dtype, *a, **k):
        n = conversion(dtype)
        return self.copy() if n is None else converted(self, n)

    def __contains__(self, x):
        for y in self.flat:
            if bool(y == x):
                return True
        return False

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __array_finalize__(self, o):
        pass

    def all(self, axis=None, **k):
        if axis is not None or k:
            return rnp.array([bool(x) for x in self.flat]).reshape(self.shape).all(axis=axis, **k)
        return all(bool(x) for x in self.flat)

    def any(self, axis=None, **k):
        if axis is not None or k:
            return rnp.array([bool(x) for x in self.flat]).reshape(self.shape).any(axis=axis, **k)
        return any(bool(x) for x in self.flat)

    def std(self, *a, **k):
        raise Unsupported("std")

    def argmax(self, *a, **k):
        raise Unsupported("argmax")

    argmin = argsort = sort = argmax


def amaxmin(name, a, axis):
    if axis is None:
        return fmaxmin(name, list(a.flat))
    m = rnp.moveaxis(a, axis, -1)
    if m.ndim == 1:
        return fmaxmin(name, list(m))
    out = rnp.empty(m.shape[:-1], dtype=object)
    for i in rnp.ndindex(out.shape):
        out[i] = fmaxmin(name, list(m[i]))
    return out.view(SymArray)


def sarr(x):
    """SymArray from nested lists of numbers"""
    a = rnp.array(x, dtype=object)
    return a.view(SymArray)


def is_sym(x):
    if isinstance(x, (SymReal, SymBool, SymArray, SymMat, SymCol, SymMatT, SymIdx, Block, Poison, SymPos)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    if isinstance(x, rnp.ndarray):
        return x.dtype == object
    return False


# ------------------------------------------------------------------ matrices with unbounded rows
class SymMat:
    """N x k matrix, N unknown: the generic row is a list of terms; mutable in place"""

    raw = False  # True: elements as read (perhaps integers), not yet converted to floating point
    read = written = False  # the loop over the rows that last used all rows, or changed one

    def __init__(self, seq, cols, owner=None):
        self.seq, self.cols = seq, list(cols)

    def row(self):
        return sarr([mk(c) for c in self.cols])

    @property
    def T(self):
        return SymMatT(self)

    def transpose(self, *a):
        return SymMatT(self)

    @property
    def shape(self):
        return (mk(self.seq.count), len(self.cols))

    @property
    def ndim(self):
        return 2

    @property
    def size(self):
        return mk(T.scale(self.seq.count, Fraction(len(self.cols))))

    @property
    def dtype(self):
        if self.raw:
            raise Unsupported("type of numbers as read")
        return rnp.dtype(float)

    def astype(self, dtype, *a, **k):
        n = conversion(dtype)
        if dtype is None or dtype is object:
            raise Unsupported("astype " + str(dtype))
        return SymMat(self.seq, self.cols) if n is None else converted(self, n)

    def round(self, decimals=0, **k):
        return np_round(self, decimals)

    def copy(self, *a, **k):
        r = SymMat(self.seq, self.cols)
        r.raw = self.raw
        return r

    def __len__(self):
        raise Unsupported("len of an unbounded matrix in uninstrumented code")

    def __iter__(self):
        raise Unsupported("iteration over an unbounded matrix in uninstrumented code")

    def _sel(self, key):
        """(row selector cond or None, list of columns, scalar column?)"""
        if isinstance(key, tuple) and len(key) == 2:
            r, c = key
        else:
            r, c = key, slice(None)
        if isinstance(r, slice) and r == slice(None):
            rs = None
        elif r is Ellipsis:
            rs = None
        elif isinstance(r, SymCol) and r.isbool:
            rs = r
        elif isinstance(r, SymPos) and r.seq == self.seq:
            rs = r
        else:
            raise Unsupported("row selection of an unbounded matrix")
        n = len(self.cols)
        if isinstance(c, slice):
            return rs, list(range(n))[c], False
        if isinstance(c, (int, rnp.integer)):
            return rs, [range(n)[int(c)]], True
        if isinstance(c, (list, tuple)):
            return rs, [range(n)[int(i)] for i in c], False
        raise Unsupported("column selection")

    def __getitem__(self, key):
        if isinstance(key, VertexSet):
            return key.matrix(self)
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], VertexSet) and key[1] == slice(None):
            return key[0].matrix(self)
        if isinstance(key, rnp.ndarray) and key.dtype == object and all(isinstance(i, SymIdx) for i in key.flat):
            if hasattr(self, "vertex"):
                return sarr([[mk(t) for t in self.vertex(i)] for i in key])
        if isinstance(key, SymIdx) and hasattr(self, "vertex"):
            return sarr([mk(t) for t in self.vertex(key)])
        if isinstance(key, MatMask):
            return MaskedMat(key, list(self.cols))
        rs, cs, sc = self._sel(key)
        if isinstance(rs, SymPos):
            r = [mk(self.cols[i]) for i in cs]
            return r[0] if sc else SymRow(self, cs)
        if rs is not None:
            if sc:
                return MaskedView(SymCol(self.seq, mat=self, i=cs[0]), rs)
            raise Unsupported("masked read of an unbounded matrix")
        self.whole()
        if sc:
            return SymCol(self.seq, mat=self, i=cs[0])
        return SymMat(self.seq, [self.cols[i] for i in cs]) if cs != list(range(len(self.cols))) else SymView(self)

    def __setitem__(self, key, v):
        if isinstance(key, MatMask):
            if key.seq != self.seq or len(key.conds) != len(self.cols):
                raise Unsupported("mask of another shape")
            if isinstance(v, MaskedMat) and v.mask is key:
                vals = v.cols
            elif isnum(v):
                vals = [term(v)] * len(self.cols)
            else:
                raise Unsupported("assignment to masked elements")
            for i, c in enumerate(key.conds):
                if bool(c):
                    self.cols[i] = vals[i]
            return
        rs, cs, sc = self._sel(key)
        if not isinstance(rs, SymPos):
            self.whole(True)
        else:
            self.rowwrite()
        if rs is not None and not isinstance(rs, SymPos):
            if not bool(rs.value()):
                return
        vals = self._rhs(v, len(cs), sc, isinstance(rs, SymPos))
        for i, t in zip(cs, vals):
            self.cols[i] = t

    def whole(self, write=False):
        """all rows are used at once: not while they are visited one by one and change"""
        m = getattr(self, "_m", self)
        if m.seq.name in eng().active:
            k = eng().loops.get(m.seq.name)
            if write or m.written is k:
                raise Unsupported("all rows of a matrix are used while a loop changes them")
            m.read = k

    def rowwrite(self):
        m = getattr(self, "_m", self)
        if m.seq.name in eng().active:
            k = eng().loops.get(m.seq.name)
            if m.read is k:
                raise Unsupported("all rows of a matrix are used while a loop changes them")
            m.written = k

    def _rhs(self, v, k, sc, single=False):
        if isnum(v):
            return [term(v)] * k
        if isinstance(v, MaskedView):
            v = SymCol(self.seq, val=v.value())
        if isinstance(v, MaskedCol):
            v = v.col
        if isinstance(v, SymCol) and v.seq == self.seq:
            return [v.t()] * k
        if isinstance(v, SymMat) and v.seq == self.seq and len(v.cols) == k:
            return list(v.cols)
        if sc and isinstance(v, (list, tuple)) and len(v) == 1 and isinstance(v[0], Block) and v[0].seq == self.seq:
            return [term(v[0].elem)]
        if single and isinstance(v, (list, tuple, rnp.ndarray)) and len(v) == k:
            return [term(x) for x in v]
        if isinstance(v, rnp.ndarray) and v.ndim == 1 and len(v) == k and not sc:
            return [term(x) for x in v]
        raise Unsupported("assignment to an unbounded matrix")

    def _map2(self, o, f):
        if isnum(o):
            t = term(o)
            return SymMat(self.seq, [f(c, t) for c in self.cols])
        if isinstance(o, SymMat) and o.seq == self.seq and len(o.cols) == len(self.cols):
            return SymMat(self.seq, [f(a, b) for a, b in zip(self.cols, o.cols)])
        if isinstance(o, (rnp.ndarray, list, tuple)) and len(o) == len(self.cols):
            return SymMat(self.seq, [f(a, term(b)) for a, b in zip(self.cols, o)])
        raise Unsupported("matrix operand")

    def __add__(self, o):
        return self._map2(o, T.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._map2(o, lambda a, b: T.add(a, b, -1))

    def __rsub__(self, o):
        return self._map2(o, lambda a, b: T.add(b, a, -1))

    def __mul__(self, o):
        return self._map2(o, T.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._map2(o, T.div)

    def __iadd__(self, o):
        self.whole(True)
        self.cols[:] = (self + o).cols
        return self

    def __isub__(self, o):
        self.whole(True)
        self.cols[:] = (self - o).cols
        return self

    def __imul__(self, o):
        self.whole(True)
        self.cols[:] = (self * o).cols
        return self

    def __itruediv__(self, o):
        self.whole(True)
        self.cols[:] = (self / o).cols
        return self

    def mean(self, axis=None, **k):
        if axis != 0:
            raise Unsupported("mean")
        return sarr([mk(T.div(rowsum(self.seq, c), self.seq.count)) for c in self.cols])

    def sum(self, axis=None, **k):
        if axis != 0:
            raise Unsupported("sum")
        return sarr([mk(rowsum(self.seq, c)) for c in self.cols])

    def max(self, *a, **k):
        raise Unsupported("max over an unbounded matrix")

    min = std = max

    def flatten(self):
        raise Unsupported("flatten of an unbounded matrix")

    ravel = flatten

    def tolist(self):
        return [Block(self.seq, [mk(c) for c in self.cols])]

    def reshape(self, *a):
        if len(a) == 1 and isinstance(a[0], tuple):
            a = a[0]
        if a == (-1, len(self.cols)):
            return self
        raise Unsupported("reshape of an unbounded matrix")

    def __array__(self, *a, **k):
        raise Unsupported("unbounded matrix in uninstrumented code")

    def __repr__(self):
        return f"SymMat({self.seq.name}, {self.cols})"

    def __eq__(self, o):
        raise Unsupported("comparison of unbounded matrices")

    __hash__ = object.__hash__


def _matcmp(op):
    def f(self, o):
        if isnum(o):
            os_ = [o] * len(self.cols)
        elif isinstance(o, SymMat) and o.seq == self.seq and len(o.cols) == len(self.cols):
            os_ = [mk(c) for c in o.cols]
        elif isinstance(o, (rnp.ndarray, list, tuple)) and len(o) == len(self.cols):
            os_ = list(o)
        else:
            raise Unsupported("comparison of an unbounded matrix")
        return MatMask(self.seq, [op(mk(a), b) for a, b in zip(self.cols, os_)])

    return f


class MatMask:
    """boolean matrix: one condition per column of the generic row"""

    def __init__(self, seq, conds):
        self.seq, self.conds = seq, list(conds)

    def _bin(self, o, f):
        if isinstance(o, MatMask) and o.seq == self.seq and len(o.conds) == len(self.conds):
            return MatMask(self.seq, [mkbool(f([bcond(a), bcond(b)])) for a, b in zip(self.conds, o.conds)])
        if isinstance(o, (rnp.ndarray, list, tuple)) and len(o) == len(self.conds):
            return MatMask(self.seq, [mkbool(f([bcond(a), bcond(bool(b))])) for a, b in zip(self.conds, o)])
        raise Unsupported("mask operand")

    def __and__(self, o):
        return self._bin(o, cand)

    def __or__(self, o):
        return self._bin(o, cor)

    def __invert__(self):
        return MatMask(self.seq, [mkbool(cnot(bcond(a))) for a in self.conds])

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and isinstance(key[1], int):
            return SymCol(self.seq, val=self.conds[key[1]])
        raise Unsupported("index of a mask")

    def __setitem__(self, key, v):
        if isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and isinstance(v, bool):
            ix = range(len(self.conds))[key[1]]
            for i in ([ix] if isinstance(ix, int) else ix):
                self.conds[i] = v
            return
        raise Unsupported("assignment to a mask")

    @property
    def T(self):
        return [SymCol(self.seq, val=c) for c in self.conds]

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("mask." + n)

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")


class MaskedMat:
    """m[mask] read: only used to be written back under the same mask"""

    def __init__(self, mask, cols):
        self.mask, self.cols = mask, cols

    def _op(self, o, f):
        if not isnum(o):
            raise Unsupported("operand of masked elements")
        return MaskedMat(self.mask, [f(c, term(o)) for c in self.cols])

    def __add__(self, o):
        return self._op(o, T.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: T.add(a, b, -1))

    def __mul__(self, o):
        return self._op(o, T.mul)

    def __truediv__(self, o):
        return self._op(o, T.div)

    def __mod__(self, o):
        return self._op(o, tmod)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("masked elements." + n)


for _n in ("gt", "ge", "lt", "le"):
    setattr(SymMat, "__%s__" % _n, _matcmp(getattr(operator, _n)))


class SymView(SymMat):
    """m[:] (shares the storage)"""

    def __init__(self, m):
        object.__setattr__(self, "_m", m)

    @property
    def cols(self):
        return self._m.cols

    @cols.setter
    def cols(self, v):
        self._m.cols[:] = v

    @property
    def seq(self):
        return self._m.seq


def rowsum(seq, t):
    e = eng()
    if any(seq.name in c.deps() for c in e.conds):
        raise Unsupported("a sum over rows after a case split on a row")
    return T.tsum(seq, t)


class SymRow:
    """row of a SymMat at the generic position (a view)"""

    def __init__(self, m, cs):
        self.m, self.cs = m, cs

    def __iter__(self):
        return iter([mk(self.m.cols[i]) for i in self.cs])

    def __len__(self):
        return len(self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymRow(self.m, self.cs[i])
        return mk(self.m.cols[self.cs[i]])

    def __setitem__(self, i, v):
        self.m.rowwrite()
        if isinstance(i, slice):
            v = list(v) if not isnum(v) else [v] * len(self.cs[i])
            if len(v) != len(self.cs[i]):
                raise ValueError("could not broadcast")
            for j, y in zip(self.cs[i], v):
                self.m.cols[j] = term(y)
            return
        self.m.cols[self.cs[i]] = term(v)

    def arr(self):
        return sarr([mk(self.m.cols[i]) for i in self.cs])

    def copy(self):
        return self.arr()

    @property
    def shape(self):
        return (len(self.cs),)

    ndim = 1

    def __array__(self, *a, **k):
        raise Unsupported("row of an unbounded matrix in uninstrumented code")

    def _put(self, v):
        self.m.rowwrite()
        for i, y in zip(self.cs, v):
            self.m.cols[i] = term(y)
        return self

    def __iadd__(self, o):
        return self._put(self.arr() + (o.arr() if isinstance(o, SymRow) else o))

    def __isub__(self, o):
        return self._put(self.arr() - (o.arr() if isinstance(o, SymRow) else o))


def _rowop(op, swap=False):
    def f(self, o):
        o = o.arr() if isinstance(o, SymRow) else o
        return op(o, self.arr()) if swap else op(self.arr(), o)

    return f


for _n in ("add", "sub", "mul", "truediv"):
    setattr(SymRow, f"__{_n}__", _rowop(getattr(operator, _n)))
    setattr(SymRow, f"__r{_n}__", _rowop(getattr(operator, _n), True))
SymRow.__neg__ = lambda self: -self.arr()
SymRow.__array_priority__ = 1000
SymRow.__array_ufunc__ = None


class SymMatT:
    """transposed view of a SymMat: a short list of unbounded columns"""

    def __init__(self, m):
        self.m = m

    @property
    def T(self):
        return self.m

    @property
    def shape(self):
        return (len(self.m.cols), mk(self.m.seq.count))

    ndim = 2

    def __iter__(self):
        return iter([SymCol(self.m.seq, mat=self.m, i=i) for i in range(len(self.m.cols))])

    def __len__(self):
        return len(self.m.cols)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and i[1] == slice(None):
            i = i[0]
        if isinstance(i, (int, rnp.integer)):
            i = range(len(self.m.cols))[int(i)]
            return SymCol(self.m.seq, mat=self.m, i=i)
        if isinstance(i, slice):
            return [SymCol(self.m.seq, mat=self.m, i=j) for j in range(len(self.m.cols))[i]]
        raise Unsupported("index of a transposed matrix")

    def __setitem__(self, i, v):
        if isinstance(i, tuple) and len(i) == 2 and i[1] == slice(None):
            i = i[0]
        if not isinstance(i, (int, rnp.integer)):
            raise Unsupported("assignment to a transposed matrix")
        if isinstance(v, SymCol) and v.mat is self.m and v.i == range(len(self.m.cols))[int(i)]:
            return
        self.m[:, int(i)] = v

    def copy(self):
        return SymMatT(self.m.copy())

    def __array__(self, *a, **k):
        raise Unsupported("unbounded matrix in uninstrumented code")


class MaskedCol:
    def __init__(self, col, mask):
        self.col, self.mask = col, mask


def _colop(f):
    def g(self, o):
        if isinstance(o, MaskedCol):
            o = o.col
        if isnum(o):
            return SymCol(self.seq, val=mk(f(self.t(), term(o))))
        if isinstance(o, SymCol) and o.seq == self.seq:
            return SymCol(self.seq, val=mk(f(self.t(), o.t())))
        if isinstance(o, (list, tuple)) and len(o) == 1 and isinstance(o[0], Block) and o[0].seq == self.seq:
            return SymCol(self.seq, val=mk(f(self.t(), term(o[0].elem))))
        raise Unsupported(f"column operand {type(o).__name__}")

    return g


class SymCol:
    """column of unknown length: view of a matrix column, or a value"""

    __array_priority__ = 2000
    ndim = 1
    raw = False

    def __init__(self, seq, mat=None, i=None, val=None):
        self.seq, self.mat, self.i, self.val = seq, mat, i, val

    def value(self):
        return mk(self.mat.cols[self.i]) if self.mat is not None else self.val

    def t(self):
        return term(self.value())

    @property
    def isbool(self):
        return self.mat is None and isinstance(self.val, (SymBool, bool))

    @property
    def shape(self):
        return (mk(self.seq.count),)

    @property
    def size(self):
        return mk(self.seq.count)

    @property
    def dtype(self):
        return rnp.dtype(bool if self.isbool else float)

    __add__ = __radd__ = _colop(T.add)
    __sub__ = _colop(lambda a, b: T.add(a, b, -1))
    __rsub__ = _colop(lambda a, b: T.add(b, a, -1))
    __mul__ = __rmul__ = _colop(T.mul)
    __truediv__ = _colop(T.div)
    __rtruediv__ = _colop(lambda a, b: T.div(b, a))
    __mod__ = _colop(tmod)
    __floordiv__ = _colop(lambda a, b: T.fn("floor", T.div(a, b)))

    def __neg__(self):
        return SymCol(self.seq, val=-self.value())

    def __abs__(self):
        return SymCol(self.seq, val=abs(self.value()))

    def _cmp(op):
        def f(self, o):
            if isinstance(o, SymCol):
                o = o.value()
            return SymCol(self.seq, val=op(self.value(), o))

        return f

    __gt__, __lt__, __ge__, __le__ = _cmp(operator.gt), _cmp(operator.lt), _cmp(operator.ge), _cmp(operator.le)
    __eq__, __ne__ = _cmp(operator.eq), _cmp(operator.ne)
    __hash__ = object.__hash__

    def __and__(self, o):
        return SymCol(self.seq, val=mkbool(cand([bcond(self.value()), bcond(o.value() if isinstance(o, SymCol) else o)])))

    def __or__(self, o):
        return SymCol(self.seq, val=mkbool(cor([bcond(self.value()), bcond(o.value() if isinstance(o, SymCol) else o)])))

    def __invert__(self):
        return SymCol(self.seq, val=mkbool(cnot(bcond(self.value()))))

    def round(self, decimals=0, **k):
        return np_round(self, decimals)

    def clip(self, lo=None, hi=None, **k):
        v = self.value()
        v = v if lo is None else fmaxmin("max", [lo, v])
        return SymCol(self.seq, val=v if hi is None else fmaxmin("min", [hi, v]))

    def _set(self, v, row=False):
        if self.mat is not None:
            self.mat.rowwrite() if row else self.mat.whole(True)
            self.mat.cols[self.i] = term(v)
        elif not row and self.seq.name in eng().active:
            raise Unsupported("a whole column changes in a loop over its elements")
        else:
            self.val = v

    def __iadd__(self, o):
        self._set((self + o).value())
        return self

    def __isub__(self, o):
        self._set((self - o).value())
        return self

    def __imul__(self, o):
        self._set((self * o).value())
        return self

    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None):
            return self
        if isinstance(k, SymPos) and k.seq == self.seq:
            return self.value()
        if isinstance(k, SymCol) and k.isbool:
            return MaskedView(self, k)
        raise Unsupported("index of an unbounded column")

    def __setitem__(self, k, v):
        if isinstance(k, SymCol) and k.isbool:
            if not bool(k.value()):
                return
        elif isinstance(k, SymPos) and k.seq == self.seq:
            pass
        elif not (isinstance(k, slice) and k == slice(None)):
            raise Unsupported("assignment to an unbounded column")
        if isinstance(v, MaskedView):
            v = v.value()
        if isinstance(v, SymCol):
            v = v.value()
        if isinstance(v, (list, tuple)) and len(v) == 1 and isinstance(v[0], Block) and v[0].seq == self.seq:
            v = v[0].elem
        if not isnum(v):
            raise Unsupported("assignment to an unbounded column")
        self._set(v, isinstance(k, SymPos))

    def fill(self, v):
        self._set(v if isnum(v) and v == v else mk(T.var("nan")))

    def copy(self):
        return SymCol(self.seq, val=self.value())

    def astype(self, dtype=float, *a, **k):
        n = conversion(dtype)
        return self.copy() if n is None else converted(self, n)

    def tolist(self):
        return [Block(self.seq, self.value())]

    def any(self, *a, **k):
        # either some row satisfies the condition, or no row (so not the generic one) does
        c = bcond(self.value())
        if c.k == "const":
            return bool(c.a[0])
        if bool(SymBool(Cond("bv", "any:" + str(hash(c.key())), frozenset()))):
            return True
        eng().assume(cnot(c))
        return False

    def all(self, *a, **k):
        c = bcond(self.value())
        if c.k == "const":
            return bool(c.a[0])
        if bool(SymBool(Cond("bv", "all:" + str(hash(c.key())), frozenset()))):
            eng().assume(c)
            return True
        return False

    def __iter__(self):
        raise Unsupported("iteration over an unbounded column in uninstrumented code")

    def __len__(self):
        raise Unsupported("len of an unbounded column in uninstrumented code")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __array__(self, *a, **k):
        raise Unsupported("unbounded column in uninstrumented code")

    def max(self, *a, **k):
        raise Unsupported("max over an unbounded column")

    min = mean = sum = max


class MaskedView:
    """col[mask] read: only used to be written back under the same mask"""

    def __init__(self, col, mask):
        self.col, self.mask = col, mask

    def value(self):
        return self.col.value()

    def _op(self, o, f):
        return SymCol(self.col.seq, val=f(self.value(), o.value() if isinstance(o, (SymCol, MaskedView)) else o))

    def __add__(self, o):
        return self._op(o, operator.add)

    def __sub__(self, o):
        return self._op(o, operator.sub)

    def __mul__(self, o):
        return self._op(o, operator.mul)


class VertexSet:
    """index array of unknown length (hull.vertices)"""

    def __init__(self, seq, matrix):
        self.seq, self._m = seq, matrix

    def matrix(self, m):
        return self._m

    def vc_items(self):
        raise Unsupported("iteration over the vertex indices")


class Opaque:
    """a value whose content does not matter; any use of its content is unsupported"""

    def __init__(self, name="opaque"):
        self.__dict__["_n"] = name

    def fill(self, *a, **k):
        return None

    def __setitem__(self, k, v):
        return None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"use of {self._n}.{n}")

    def __len__(self):
        raise Unsupported("len of " + self._n)

    def __iter__(self):
        raise Unsupported("iteration over " + self._n)

    def __bool__(self):
        raise Unsupported("truth of " + self._n)
