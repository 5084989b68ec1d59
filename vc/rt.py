"""Run-time support called from the instrumented source: loops, comprehensions, builtins, numpy, math."""
from __future__ import annotations

import builtins
import math as _math
import sys
import types
from fractions import Fraction

import numpy as rnp
import numpy.typing  # noqa: F401

from . import terms as T
from .terms import L, ATOMS
from . import engine as E
from .engine import Unsupported, cmp, cand, cor, cnot, eng
from .sym import *  # noqa: F401,F403
from .sym import _math, mk, term, isnum


class Restart(BaseException):
    """run the path again: more loop-carried state was found"""


# ------------------------------------------------------------------ heap walk
def _geec(x):
    return type(x).__module__.startswith(("geec", "confuse")) and not isinstance(x, type)


def attrs_of(x):
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict):
        return dict(d)
    out = {}
    for k in type(x).__mro__:
        for s in getattr(k, "__slots__", ()) or ():
            if hasattr(x, s):
                out[s] = getattr(x, s)
    return out


class Cell:
    __slots__ = ("kind", "val", "obj", "set")

    def __init__(self, kind, val, obj, set_):
        self.kind, self.val, self.obj, self.set = kind, val, obj, set_


def walk(roots, seqname=None):
    """cells reachable from roots (name -> value), not crossing Blocks of seqname"""
    cells = {}
    seen = set()
    stack = []

    def visit(path, v, setter, depth):
        if isinstance(v, (SymReal,) + NUM) and not isinstance(v, bool):
            cells[path] = Cell("num", v, None, setter)
        elif isinstance(v, SymArray):
            cells[path] = Cell("arr", list(v.flat), v, setter)
        elif isinstance(v, rnp.ndarray):
            cells[path] = Cell("rarr", v.tobytes() if v.dtype != object else None, v, setter)
        elif isinstance(v, (SymMat, SymMatT, SymCol)) and (v.m if isinstance(v, SymMatT) else v).seq.name == seqname:
            cells[path] = Cell("obj", v, v, setter)  # its element is visited by this iteration only
        elif isinstance(v, SymMat):
            cells[path] = Cell("mat", list(v.cols), v, setter)
        elif isinstance(v, list):
            cells[path] = Cell("list", list(v), v, setter)
            if id(v) in seen or depth > 7:
                return
            seen.add(id(v))
            for i, y in enumerate(v):
                if isinstance(y, Block):
                    if y.seq.name != seqname and not (seqname and y.seq.name in eng().active):
                        visit(path + ("B%d" % i,), y.elem, None, depth + 1)
                else:
                    visit(path + (i,), y, (lambda z, v=v, i=i: v.__setitem__(i, z)), depth + 1)
        elif isinstance(v, tuple):
            if id(v) in seen or depth > 7:
                return
            seen.add(id(v))
            for i, y in enumerate(v):
                if isinstance(y, Block):
                    if y.seq.name != seqname and not (seqname and y.seq.name in eng().active):
                        visit(path + ("B%d" % i,), y.elem, None, depth + 1)
                else:
                    visit(path + (i,), y, None, depth + 1)
        elif isinstance(v, dict):
            cells[path] = Cell("dict", dict(v), v, setter)
        else:
            cells[path] = Cell("obj", v, v, setter)
            if (_geec(v) or getattr(type(v), "vc_walk", False)) and not isinstance(v, type):
                if id(v) in seen or depth > 7:
                    return
                seen.add(id(v))
                for k, y in attrs_of(v).items():
                    visit(path + ("." + k,), y, (lambda z, v=v, k=k: object.__setattr__(v, k, z)), depth + 1)

    for n, v in roots.items():
        if n.startswith("vc__"):
            continue
        visit((n,), v, None, 0)
    return cells


def same(a, b):
    if a.kind != b.kind:
        return False
    if a.kind == "num":
        return term(a.val) == term(b.val)
    if a.kind in ("arr", "mat"):
        return a.obj is b.obj and len(a.val) == len(b.val) and all(x is y or same_val(x, y) for x, y in zip(a.val, b.val))
    if a.kind == "rarr":
        return a.obj is b.obj and a.val == b.val
    if a.kind == "list":
        return a.obj is b.obj and len(a.val) == len(b.val) and all(x is y or same_val(x, y) for x, y in zip(a.val, b.val))
    if a.kind == "dict":
        return a.obj is b.obj and a.val.keys() == b.val.keys() and all(a.val[k] is b.val[k] for k in a.val)
    return a.val is b.val or (isinstance(a.val, (str, bool, type(None))) and type(a.val) is type(b.val) and a.val == b.val)


def same_val(x, y):
    if isinstance(x, L) or isinstance(y, L):
        return x == y
    if isnum(x) and isnum(y):
        return term(x) == term(y)
    return x is y


def rows_back(e, seq):
    """what the iteration wrote into the visited row is written to the matrix"""
    for k, (r, m, old) in list(e.rows.items()):
        if m.seq != seq:
            continue
        new = [term(x) for x in r]
        if new != old:
            token = e.loops.get(seq.name)
            if m.written is token or m.read is token:
                raise Unsupported("rows of a matrix are written in two ways")
            m.cols[:] = new
        del e.rows[k]


# ------------------------------------------------------------------ loops
class K:
    __slots__ = ("v", "h")

    def __init__(self, v, h=None):
        self.v, self.h = v, h


class LoopIter:
    def __init__(self, it, loc, names):
        self.loc, self.names = loc, names
        self.result = {}
        self.open = None
        self.finished = False
        items = as_items(it) if not isinstance(it, (str, bytes, dict)) else None
        if items is not None and any(isinstance(x, Block) for x in items):
            self.it = iter(items)
            self.sym = True
        else:
            self.it = iter(it)
            self.sym = False

    def __iter__(self):
        return self

    def __next__(self):
        fr = sys._getframe(1)
        if self.open is not None:
            self._close(fr)
        try:
            x = next(self.it)
        except StopIteration:
            self.finished = True
            raise
        if isinstance(x, Block) and self.sym:
            return self._enter(fr, x)
        h = self.result if self.result else None
        self.result = {}
        return K(x, h)

    # ---- one symbolic iteration
    def _enter(self, fr, b):
        e = eng()
        if b.seq.name in e.active:
            raise Unsupported("nested iteration over the same unbounded sequence")
        if fr.f_code.co_flags & 0x2a0:
            raise Unsupported("generator function iterating over an unbounded sequence")
        loc = dict(fr.f_locals)
        loc.update(self.result)
        pre = walk(loc, b.seq.name)
        e.nloop += 1
        key = (self.loc, b.seq.name)
        H = e.H.setdefault(key, set())
        hav, fresh, hl = {}, {}, dict(self.result)
        self.result = {}
        for p in sorted(H, key=str):
            c = pre.get(p)
            if c is None:
                continue
            base = "h:%s:%s" % (self.loc[1], ".".join(map(str, p)))
            if c.kind == "num":
                v = mk(T.var(base, frozenset(e.active)))
                hav[p] = [v.t]
                if len(p) == 1:
                    hl[p[0]] = v
                elif c.set:
                    c.set(v)
                else:
                    raise Unsupported("loop-carried value in a tuple")
            elif c.kind in ("arr", "mat"):
                vs = [T.var(f"{base}:{i}", frozenset(e.active)) for i in range(len(c.val))]
                hav[p] = vs
                if c.kind == "arr" and (key, p) in e.rebound and len(p) == 1:
                    # the name is bound to another array in every iteration: this one is left alone
                    fr_ = c.obj.copy()
                    for i, ix in enumerate(rnp.ndindex(fr_.shape)):
                        fr_[ix] = mk(vs[i])
                    hl[p[0]] = fr_
                    fresh[p] = fr_
                elif c.kind == "arr":
                    for i, ix in enumerate(rnp.ndindex(c.obj.shape)):
                        c.obj[ix] = mk(vs[i])
                else:
                    c.obj.cols[:] = vs
            elif c.kind == "list":
                e.growing.add(id(c.obj))
                hav[p] = None
            elif c.kind == "obj":
                v = Poison(("unsupported", "state carried from one iteration to the next: " + ".".join(map(str, p))))
                hav[p] = None
                if len(p) == 1:
                    hl[p[0]] = v
                elif c.set:
                    c.set(v)
            else:
                raise Unsupported("loop-carried state: " + str(p))
        self.open = (b, pre, hav, key, len(e.conds), loc, fresh)
        e.loops[b.seq.name] = object()
        e.active.append(b.seq.name)
        return K(b.elem, hl or None)

    def _split(self, e, n0, name):
        return any(name in c.deps() for c in e.conds[n0:])

    def _close(self, fr):
        e = eng()
        b, pre, hav, key, n0, loc0, fresh = self.open
        self.open = None
        e.active.pop()
        rows_back(e, b.seq)
        loc = dict(fr.f_locals)
        post = walk({k: v for k, v in loc.items()}, b.seq.name)
        H = e.H[key]
        split = self._split(e, n0, b.seq.name)
        changed = []
        new = set()
        for p, c in pre.items():
            d = post.get(p)
            if p in hav:
                changed.append((p, c, d))
                continue
            if d is None:
                # the container changed; reported at the container
                continue
            if not same(c, d):
                if any(p[:i] in H or p[:i] in new for i in range(1, len(p))):
                    continue
                if c.kind == "list" and len(d.val) > len(c.val) and d.obj is c.obj and all(x is y or same_val(x, y) for x, y in zip(c.val, d.val)):
                    new.add(p)
                elif c.kind in ("num", "arr", "mat", "obj"):
                    new.add(p)
                    if c.kind == "arr" and len(p) == 1 and d.kind == "arr" and d.obj is not c.obj and all(same_val(x, y) for x, y in zip(c.val, c.obj.flat)):
                        e.rebound.add((key, p))
                elif c.kind == "list" and len(p) == 1:
                    raise Unsupported("a list is changed in a loop: " + str(p))
                else:
                    raise Unsupported("loop changes " + ".".join(map(str, p)))
        if new:
            H |= new
            raise Restart()
        for p, f in fresh.items():
            d = post.get(p)
            if d is None or d.obj is f or any(term(x) != h for x, h in zip(f.flat, hav[p])):
                raise Unsupported("an array is changed in place and bound again in a loop: " + p[0])
        done = set()
        for p, c, d in changed:
            self._infer(e, b, p, c, d, hav[p], split, done, (loc0, loc))
        for n in self.names:
            if n in loc and (n,) not in pre:
                self.result[n] = Poison(("unsupported", "value of the last iteration of a loop: " + n))

    def _infer(self, e, b, p, c, d, hv, split, done, locs):
        seq = b.seq
        if c.kind == "list":
            if d is None or d.obj is not c.obj:
                raise Unsupported("a list is replaced in a loop")
            e.growing.discard(id(c.obj))
            add = c.obj[len(c.val):]
            if len(add) == 0:
                return
            if split:
                e.partial("a list grows under a condition on an element of an unbounded sequence")
            if len(add) > 1:
                raise Unsupported("several elements are added per iteration")
            if isinstance(add[0], Block):
                raise Unsupported("unbounded list extended in a loop")
            c.obj[len(c.val):] = [Block(seq, add[0])]
            return
        if c.kind == "obj":
            v = Poison(("unsupported", "value of the last iteration of a loop: " + str(p)))
            if d is not None and isinstance(d.val, Poison):
                v = c.val  # not touched
            if len(p) == 1:
                self.result[p[0]] = v
            elif c.set:
                c.set(v)
            return
        if d is None or d.kind != c.kind:
            raise Unsupported("type of loop-carried state changes: " + str(p))
        olds = [term(x) for x in ([c.val] if c.kind == "num" else c.val)]
        news = [term(x) for x in ([d.val] if d.kind == "num" else d.val)]
        if len(olds) != len(news):
            raise Unsupported("shape of loop-carried state changes")
        hids = set()
        for t in hv:
            hids |= t.atoms()
        out = []
        overwritten = False
        for o, h, n in zip(olds, hv, news):
            if n == h:
                out.append(o)
                continue
            x = T.add(n, h, -1)
            at = x.atoms(deep=True)
            if any(ATOMS[i].name.startswith("h:") for i in at):
                nat = n.atoms(deep=True)
                if not (nat & hids):
                    overwritten = True
                    break
                raise Unsupported("loop-carried state is not a sum: " + ".".join(map(str, p)))
            if split:
                e.partial("a sum under a condition on an element of an unbounded sequence")
            out.append(T.add(o, T.tsum(seq, x)))
        if overwritten:
            v = Poison(("unsupported", "value of the last iteration of a loop: " + str(p)))
            if len(p) == 1:
                self.result[p[0]] = v
                return
            old, now = locs[0].get(p[0]), locs[1].get(p[0])
            if isinstance(old, tuple) and isinstance(now, tuple) and old is not now and c.kind == "arr" and d.obj is not c.obj:
                for i, ix in enumerate(rnp.ndindex(c.obj.shape)):
                    c.obj[ix] = mk(olds[i])
                self.result[p[0]] = v
                return
            raise Unsupported("overwritten in every iteration: " + ".".join(map(str, p)))
        if c.kind == "num":
            v = mk(out[0])
            if len(p) == 1:
                self.result[p[0]] = v
            else:
                d.set(v)
        elif c.kind == "arr":
            if id(d.obj) in done:
                return
            done.add(id(d.obj))
            for i, ix in enumerate(rnp.ndindex(d.obj.shape)):
                d.obj[ix] = mk(out[i])
            if d.obj is not c.obj:
                for i, ix in enumerate(rnp.ndindex(c.obj.shape)):
                    c.obj[ix] = mk(olds[i])
        else:
            d.obj.cols[:] = out
            if d.obj is not c.obj:
                c.obj.cols[:] = olds

    def leave(self):
        if self.open is None:
            return
        b = self.open[0]
        self.open = None
        e = eng()
        if b.seq.name in e.active:
            e.active.remove(b.seq.name)
        ex = sys.exc_info()[1]
        if ex is None:
            raise Unsupported("a loop over an unbounded sequence is left early")
        e.exc_exit(b)


def vc_loop(it, loc, names):
    return LoopIter(it, loc, names)


def generic(seq, fn, roots):
    """run fn() for the generic element; shared state must not change"""
    e = eng()
    if seq.name in e.active:
        raise Unsupported("nested iteration over the same unbounded sequence")
    pre = walk(roots, seq.name)
    n0 = len(e.conds)
    e.loops[seq.name] = object()
    e.active.append(seq.name)
    try:
        r = fn()
    finally:
        if seq.name in e.active:
            e.active.remove(seq.name)
    rows_back(e, seq)
    post = walk(roots, seq.name)
    for p, c in pre.items():
        d = post.get(p)
        if d is None or not same(c, d):
            raise Unsupported("an element-wise operation changes shared state: " + ".".join(map(str, p)))
    return r, any(seq.name in c.deps() for c in e.conds[n0:])


def vc_comp(fn, it, kind, filtered):
    items = as_items(it) if not isinstance(it, (str, bytes, dict)) else None
    if items is None or not any(isinstance(x, Block) for x in items):
        return fn(it)
    if kind not in ("list", "gen"):
        raise Unsupported("set or dict comprehension over an unbounded sequence")
    fr = sys._getframe(1)
    roots = dict(fr.f_locals)
    out = []
    for x in items:
        if isinstance(x, Block):
            r, split = generic(x.seq, lambda: list(fn([x.elem])), roots)
            if filtered and split:
                eng().partial("a filter on the elements of an unbounded sequence")
            if len(r) == 1:
                out.append(Block(x.seq, r[0]))
            elif len(r) > 1:
                raise Unsupported("several elements per element of an unbounded sequence")
        else:
            out.extend(fn([x]))
    return out if kind == "list" else SymSeq(out)


def block_index(a, k):
    """index or slice that only cuts the listed (single) elements before and after the unbounded part"""
    lead = next(i for i, x in enumerate(a) if isinstance(x, Block))
    trail = next(i for i, x in enumerate(reversed(a)) if isinstance(x, Block))
    n = len(a)
    if isinstance(k, int):
        if 0 <= k < lead:
            return [a[k]]
        if -trail <= k < 0:
            return [a[k]]
        return None
    if k.step not in (None, 1):
        return None
    lo, hi = k.start, k.stop
    if lo is None:
        lo = 0
    if hi is None:
        hi = n
    elif isinstance(hi, int) and hi < 0 and -hi <= trail:
        hi = n + hi
    elif not (isinstance(hi, int) and 0 <= hi <= lead):
        return None
    if not isinstance(lo, int):
        return None
    if lo < 0:
        if -lo > trail:
            return None
        lo = n + lo
    elif lo > lead:
        return None
    return a[lo:hi]


def vc_get(a, k):
    if isinstance(a, (list, tuple)) and has_block(a):
        if isinstance(k, ItemPos):
            if k.sig != parts(a):
                raise Unsupported("position of another list")
            return a[k.i].elem if isinstance(a[k.i], Block) else a[k.i]
        if isinstance(k, SymPos):
            c = [x for x in a if isinstance(x, Block) and x.seq == k.seq]
            if len(c) == 1 and len(a) == 1:
                return c[0].elem
            raise Unsupported("position in a list with several parts")
        if isinstance(k, slice) and k == slice(None):
            return type(a)(a)
        if isinstance(k, int) or isinstance(k, slice):
            r = block_index(list(a), k)
            if r is not None:
                return r[0] if isinstance(k, int) else type(a)(r) if type(a) in (list, tuple) else r
        hook = getattr(eng(), "index_hook", None)
        if hook is not None:
            r = hook(a, k)
            if r is not None:
                return r
        raise Unsupported("element of an unbounded sequence by position")
    if isinstance(a, rnp.ndarray) and a.dtype != object and isinstance(k, SymReal):
        raise Unsupported("symbolic index")
    if isinstance(k, SymStr):
        if isinstance(a, type) or not hasattr(a, "keys"):
            m = getattr(a, "__members__", None)
            if m is None:
                return a[k]
            a = m
        for y in a.keys():
            if k == y:
                return a[y]
        raise KeyError(k)
    return a[k]


def vc_in(x, c):
    if isinstance(x, SymStr):
        for y in c:
            if x == y:
                return True
        return False
    if isinstance(c, SymStr):
        raise Unsupported("search in an unknown string")
    if isinstance(c, (list, tuple)) and has_block(c):
        raise Unsupported("membership in an unbounded sequence")
    return x in c


DICTS = (dict, types.MappingProxyType)


def vc_dictcall(o, name, *args):
    """o.get(...) and the like: a plain dictionary asked with an unknown string compares it with every key"""
    if type(o) in DICTS and args and isinstance(args[0], SymStr):
        for k in list(o):
            if args[0] == k:
                return getattr(o, name)(k, *args[1:])
        if name == "setdefault":
            raise Unsupported("an unknown string as a new key")
        return getattr(o, name)(_MISS, *args[1:])
    return getattr(o, name)(*args)


_MISS = object()


# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, (list, tuple)) and id(x) in eng().growing:
        raise Unsupported("len of a list that grows in the loop")
    if isinstance(x, (SymMat, SymCol)):
        return mk(x.seq.count)
    if isinstance(x, VertexSet):
        return mk(x.seq.count)
    items = x if isinstance(x, (list, tuple)) else (x.vc_items() if hasattr(x, "vc_items") else None)
    if isinstance(x, SymStr):
        raise Unsupported("length of an unknown string")
    if items is not None and any(isinstance(y, Block) for y in items):
        return count_of(items)
    return len(x)


def b_range(*a):
    if any(isinstance(x, SymReal) and not x.t.is_const() for x in a):
        if isinstance(a[-1], CountReal) and (len(a) == 1 or (len(a) == 2 and a[0] == 0)) and len(a[-1].sig) > 1:
            return SymSeq(positions(a[-1].sig))
        if len(a) == 1 or (len(a) == 2 and a[0] == 0):
            t = a[-1].t
            if len(t.t) == 1:
                (m, c), = t.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name.startswith("#n:"):
                    s = Seq(ATOMS[m[0][0]].name[3:])
                    s = eng().seqs.setdefault(s.name, s)
                    return SymSeq([Block(s, SymPos(s))])
        raise Unsupported("range with a symbolic bound")
    return range(*[int(x) if isinstance(x, SymReal) else x for x in a])


def positions(sig):
    home = [Block(eng().seqs.setdefault(x, Seq(x)), None) if x is not None else None for x in sig]
    return [Block(b.seq, ItemPos(home, i)) if isinstance(b, Block) else ItemPos(home, i) for i, b in enumerate(home)]


def b_zip(*its, strict=False):
    its = [list(y) if (has_block(x) or hasattr(x, "vc_items")) and (y := as_items(x)) is not None else x for x in its]
    if not any(isinstance(x, list) and has_block(x) for x in its):
        return zip(*its, strict=strict)
    ls = [x if isinstance(x, list) else list(x) for x in its]
    if len({len(x) for x in ls}) != 1:
        raise Unsupported("zip of sequences of different structure")
    out = []
    for t in zip(*ls):
        bs = [x for x in t if isinstance(x, Block)]
        if not bs:
            out.append(tuple(t))
        elif len(bs) == len(t) and all(x.seq == bs[0].seq for x in bs):
            out.append(Block(bs[0].seq, tuple(x.elem for x in bs)))
        else:
            raise Unsupported("zip of different unbounded sequences")
    return SymSeq(out)


def b_enumerate(x, start=0):
    items = as_items(x) if not isinstance(x, (str, dict)) else None
    if items is None or not any(isinstance(y, Block) for y in items):
        return enumerate(x, start)
    if len(items) == 1 and start == 0:
        return SymSeq([Block(items[0].seq, (SymPos(items[0].seq), items[0].elem))])
    if start == 0:
        return SymSeq([Block(x.seq, (k.elem, x.elem)) if isinstance(x, Block) else (k, x) for k, x in zip(positions(parts(items)), items)])
    # numbers that are only shown
    return SymSeq([Block(x.seq, (SymPos(x.seq), x.elem)) if isinstance(x, Block) else (Poison(("unsupported", "position in an unbounded list")), x)
                   for x in items])


def b_sum(x, start=0):
    items = as_items(x)
    if items is None or not any(isinstance(y, Block) for y in items):
        r = start
        for y in x:
            r = r + y
        return r
    r = start
    for y in items:
        if isinstance(y, Block):
            v = y.elem
            if isinstance(v, SymArray):
                w = rnp.empty(v.shape, dtype=object)
                for ix in rnp.ndindex(v.shape):
                    w[ix] = mk(rowsum(y.seq, term(v[ix])))
                r = r + w.view(SymArray)
            elif isinstance(v, (SymReal,) + NUM):
                r = r + mk(rowsum(y.seq, term(v)))
            else:
                raise Unsupported("sum of " + type(v).__name__)
        else:
            r = r + y
    return r


def _quant(x, allq):
    items = as_items(x)
    if items is None:
        items = x
    for y in items:
        if isinstance(y, Block):
            v = y.elem
            c = v.c if isinstance(v, SymBool) else (E.TRUE if v else E.FALSE)
            if c.k == "const":
                if bool(c.a[0]) != allq:
                    # at least one element?  a non-empty part is the interesting case
                    if eng().decide(cmp(">", y.seq.count)):
                        return not allq
                continue
            if y.seq.name not in c.deps():
                if bool(SymBool(c)) != allq:
                    return not allq
                continue
            raise Unsupported("quantifier over an unbounded sequence")
        elif bool(y) != allq:
            return not allq
    return allq


def b_all(x):
    return _quant(x, True)


def b_any(x):
    return _quant(x, False)


def _mm(name, a, k):
    default = k.pop("default", None)
    if k:
        raise Unsupported(name + " with key")
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, Block) for x in xs):
        raise Unsupported(name + " over an unbounded sequence")
    if any(isinstance(x, SymReal) for x in xs):
        return fmaxmin(name, xs)
    return getattr(builtins, name)(xs)


def b_min(*a, **k):
    return _mm("min", a, k)


def b_max(*a, **k):
    return _mm("max", a, k)


def b_list(*a):
    if a and (has_block(a[0]) or hasattr(a[0], "vc_items")):
        y = as_items(a[0])
        if y is not None:
            return list(y)
    return list(*a)


def b_tuple(*a):
    if a and has_block(a[0]):
        return tuple(as_items(a[0]))
    return tuple(*a)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for y in ts:
        if isinstance(y, types.UnionType):
            if b_isinstance(x, y.__args__):
                return True
            continue
        if y is rnp.ndarray and isinstance(x, (SymMat, SymCol, SymMatT)):
            return True
        if isinstance(x, SymReal):
            if y in (float, rnp.floating, rnp.float64) or getattr(y, "__name__", "") in ("Number", "Real"):
                return True
            continue
        if isinstance(x, SymBool):
            if y is bool:
                return True
            continue
        if isinstance(x, SymIdx):
            if y in (int, rnp.integer):
                return True
            continue
        if isinstance(x, Poison):
            x._hit("isinstance")
        if hasattr(x, "vc_isinstance"):
            r = x.vc_isinstance(y)
            if r is not None:
                if r:
                    return True
                continue
        if isinstance(x, y):
            return True
    return False


def b_abs(x):
    return abs(x)


def b_float(*a):
    if a and isinstance(a[0], SymReal):
        return mk(a[0].t)
    if a and isinstance(a[0], rnp.ndarray) and a[0].ndim == 0:
        return a[0].item()
    return float(*a)


def b_int(*a):
    if a and isinstance(a[0], SymIdx):
        return a[0]
    if a and isinstance(a[0], (SymBool,)):
        return int(bool(a[0]))
    return int(*a)


def b_reversed(x):
    if has_block(x):
        raise Unsupported("reversed unbounded sequence")
    return reversed(x)


def b_map(f, *its):
    if len(its) == 1 and has_block(its[0]):
        return vc_comp(lambda it: (f(x) for x in it), its[0], "gen", False)
    return map(f, *its)


def b_filter(f, it):
    if has_block(it):
        return vc_comp(lambda s: (x for x in s if f(x)), it, "gen", True)
    return filter(f, it)


def b_sorted(x, **k):
    if has_block(x):
        raise Unsupported("sorted unbounded sequence")
    return sorted(x, **k)


def b_set(*a):
    if a and has_block(a[0]):
        raise Unsupported("set of an unbounded sequence")
    return set(*a)


def b_dict(*a, **k):
    if a and has_block(a[0]):
        raise Unsupported("dict of an unbounded sequence")
    return dict(*a, **k)


def b_iter(x, *a):
    if has_block(x):
        return SymSeq(as_items(x))
    return iter(x, *a)


OPEN = None  # the virtual file system of the contracts


def b_open(*a, **k):
    if OPEN is None:
        raise Unsupported("open()")
    return OPEN(*a, **k)


def b_str(*a, **k):
    if len(a) == 1 and isinstance(a[0], SymStr):
        return a[0]
    if len(a) == 1 and hasattr(a[0], "vc_tostr"):
        return a[0].vc_tostr()
    return str(*a, **k)


def b_print(*a, **k):
    return None


def b_round(x, *a):
    if isinstance(x, SymReal):
        return fround(x, *a)
    return round(x, *a)


def b_divmod(a, b):
    raise Unsupported("divmod")


def b_pow(a, b, *r):
    return a ** b


OVERRIDE = {n[2:]: f for n, f in list(globals().items()) if n.startswith("b_")}


# ------------------------------------------------------------------ numpy
def _shape_sym(s):
    return is_sym(s)


def _zeros(shape, v):
    a = rnp.empty(shape, dtype=object)
    for ix in rnp.ndindex(a.shape):
        a[ix] = v
    return a.view(SymArray)


def ew(f, x, *rest):
    """element-wise application"""
    if isinstance(x, (SymArray, rnp.ndarray)) and x.ndim > 0:
        out = rnp.empty(x.shape, dtype=object)
        bs = [rnp.broadcast_to(r, x.shape) if isinstance(r, rnp.ndarray) else r for r in rest]
        for ix in rnp.ndindex(x.shape):
            out[ix] = f(x[ix], *[b[ix] if isinstance(b, rnp.ndarray) else b for b in bs])
        return out.view(SymArray)
    if isinstance(x, SymCol):
        return SymCol(x.seq, val=f(x.value(), *[r.value() if isinstance(r, SymCol) else r for r in rest]))
    if isinstance(x, SymMat):
        return SymMat(x.seq, [term(f(mk(c), *rest)) for c in x.cols])
    if isinstance(x, (list, tuple)):
        return ew(f, sarr(x), *rest)
    return f(x, *rest)


def colterm(v):
    if isinstance(v, (SymReal,) + NUM):
        return term(v)
    raise Unsupported("element of a matrix is " + type(v).__name__)


def from_items(items):
    """list with Blocks -> SymMat or SymCol"""
    if len(items) != 1:
        raise Unsupported("array of a list with several unbounded parts")
    b = items[0]
    v = b.elem
    if isinstance(v, (list, tuple, SymRow)) or (isinstance(v, rnp.ndarray) and v.ndim == 1):
        m = SymMat(b.seq, [colterm(x) for x in v])
        m.raw = any(isinstance(x, RawReal) for x in v)
        return m
    return SymCol(b.seq, val=v)


def np_array(x, dtype=None, copy=True, **k):
    r = np_array_(x, dtype, copy, **k)
    if dtype is not None and isinstance(r, (SymMat, SymCol, SymArray)):
        n = conversion(dtype)
        if n is not None or (isinstance(r, SymMat) and r.raw):
            return r.astype(dtype)
    elif dtype is not None and is_sym(r):
        if conversion(dtype) is not None:
            raise Unsupported("conversion")
    return r


def np_array_(x, dtype=None, copy=True, **k):
    if hasattr(x, "vc_items") and not isinstance(x, rnp.ndarray):
        x = x.vc_items()
    if isinstance(x, SymMat):
        return x.copy() if copy else x
    if isinstance(x, SymMatT):
        return x.copy() if copy else x
    if isinstance(x, SymCol):
        return x.copy() if copy else x
    if isinstance(x, SymRow):
        return sarr(list(x))
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, Block) for y in x):
            return from_items(list(x))
        if grid_fields(x):
            return MGrid(x[0].axes, x[0].order)
        cs = [y for y in x if isinstance(y, (SymCol, MaskedCol))]
        if cs:
            return SymMatT(np_cols(x))
        x = [list(y) if isinstance(y, SymRow) else y for y in x]
    if is_sym(x):
        a = rnp.array(x, dtype=object)
        return a.view(SymArray) if not isinstance(a, SymArray) else a
    if k.get("ndmin"):
        raise Unsupported("ndmin")
    if dtype is float or dtype is rnp.float64 or (dtype is None and _allnum(x)):
        try:
            a = rnp.array(x, dtype=dtype)
        except Exception:
            a = rnp.array(x, dtype=object)
        if a.dtype.kind in "fi" and dtype is not int:
            return exactarr(a)
        return a
    return rnp.array(x, dtype=dtype)


def exactarr(a):
    out = rnp.empty(a.shape, dtype=object)
    for ix in rnp.ndindex(a.shape):
        v = a[ix]
        out[ix] = int(v) if a.dtype.kind == "i" else float(v)
    return out.view(SymArray)


def _allnum(x):
    if isinstance(x, (list, tuple)):
        return all(_allnum(y) for y in x)
    if isinstance(x, rnp.ndarray):
        return x.dtype.kind in "fi"
    return isinstance(x, NUM)


def np_cols(xs):
    cs = [y for y in xs if isinstance(y, SymCol)]
    seq = cs[0].seq
    out = []
    for y in xs:
        if isinstance(y, SymCol):
            if y.seq != seq:
                raise Unsupported("columns of different length")
            out.append(y.t())
        else:
            raise Unsupported("mixed columns")
    m = SymMat(seq, out)
    m.raw = any(getattr(y, "raw", False) for y in cs)
    return m


def nsqrt(x):
    """root of a sum of squares: no obligation"""
    return mk(T.sqrt(term(x)))


def np_norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    if isinstance(x, SymMat):
        if axis not in (1, -1):
            raise Unsupported("norm axis")
        s = T.ZERO
        for c in x.cols:
            s = T.add(s, T.mul(c, c))
        return SymCol(x.seq, val=fsqrt(mk(s)))
    a = x if isinstance(x, rnp.ndarray) else sarr([list(r) if isinstance(r, rnp.ndarray) else r for r in x])
    if a.dtype != object:
        a = exactarr(a)
    if axis is None:
        s = 0
        for v in a.flat:
            s = s + v * v
        return nsqrt(s)
    sq = a * a
    s = sq.sum(axis=axis)
    return ew(nsqrt, s)


def np_array_equal(a, b, **k):
    if a is b:
        return True
    if a is None or b is None:
        return False
    a = a if isinstance(a, rnp.ndarray) else (sarr(a) if isinstance(a, (list, tuple)) else a)
    b = b if isinstance(b, rnp.ndarray) else (sarr(b) if isinstance(b, (list, tuple)) else b)
    if isinstance(a, rnp.ndarray) and isinstance(b, rnp.ndarray):
        if a.shape != b.shape:
            return False
        cs = []
        for x, y in zip(a.flat, b.flat):
            if isinstance(x, SymIdx) or isinstance(y, SymIdx):
                if not (x == y):
                    return False
                continue
            cs.append(cmp("==", T.add(term(x), term(y), -1)))
        return mkbool(cand(cs))
    raise Unsupported("array_equal")


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = term(x), term(y)
        d, m = fabs(mk(T.add(x, y, -1))), fabs(mk(y))
        return d <= atol + rtol * m

    if isnum(a) and isnum(b):
        return f(a, b)
    a, b = (x if isinstance(x, rnp.ndarray) or isnum(x) else sarr(x) for x in (a, b))
    A, B = rnp.broadcast_arrays(rnp.asarray(a, dtype=object), rnp.asarray(b, dtype=object))
    out = rnp.empty(A.shape, dtype=object)
    for ix in rnp.ndindex(A.shape):
        out[ix] = f(A[ix], B[ix])
    return out.view(SymArray)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_isclose(a, b, rtol, atol)
    if not isinstance(r, rnp.ndarray):
        return r
    return mkbool(cand([bcond(x) for x in r.flat]))


def np_concatenate(xs, axis=0, **k):
    xs = list(xs)
    if any(isinstance(x, (SymMat, SymMatT)) for x in xs):
        ms = [x for x in xs]
        if all(isinstance(x, SymMat) for x in ms) and axis in (1, -1):
            if any(x.seq != ms[0].seq for x in ms):
                raise Unsupported("concatenate of matrices with different numbers of rows")
            return SymMat(ms[0].seq, [c for x in ms for c in x.cols])
        if all(isinstance(x, SymMatT) for x in ms) and axis == 0:
            return SymMatT(SymMat(ms[0].m.seq, [c for x in ms for c in x.m.cols]))
        raise Unsupported("concatenate")
    if any(isinstance(x, SymCol) for x in xs):
        raise Unsupported("concatenate columns")
    r = rnp.concatenate([x if isinstance(x, rnp.ndarray) else rnp.array(x, dtype=object) for x in xs], axis=axis)
    return r.view(SymArray) if r.dtype == object else r


def np_hstack(xs):
    xs = list(xs)
    if any(isinstance(x, SymMat) for x in xs):
        return np_concatenate(xs, axis=1)
    r = rnp.hstack(xs)
    return r.view(SymArray) if r.dtype == object else r


def np_vstack(xs):
    xs = list(xs)
    if any(isinstance(x, Opaque) for x in xs):
        return Opaque("np.vstack")
    if any(isinstance(x, (SymCol, SymMatT)) for x in xs):
        cols = []
        for x in xs:
            cols += list(x) if isinstance(x, SymMatT) else [x]
        return SymMatT(np_cols(cols))
    r = rnp.vstack(xs)
    return r.view(SymArray) if r.dtype == object else r


def np_column_stack(xs):
    xs = list(xs)
    if any(isinstance(x, SymMat) for x in xs):
        seq = [x for x in xs if isinstance(x, SymMat)][0].seq
        cols = []
        for x in xs:
            if x.seq != seq:
                raise Unsupported("column_stack")
            cols += x.cols if isinstance(x, SymMat) else [x.t()]
        return SymMat(seq, cols)
    if any(isinstance(x, SymCol) for x in xs):
        return np_cols(xs)
    r = rnp.column_stack(xs)
    return r.view(SymArray) if r.dtype == object else r


def np_stack(xs, axis=0):
    xs = list(xs) if not has_block(xs) else as_items(xs)
    if grid_fields(xs):
        if axis in (-1, len(xs)):
            return GridStack(xs[0].axes, xs[0].order)
        if axis == 0:
            return MGrid(xs[0].axes, xs[0].order)
        raise Unsupported("stack")
    if any(isinstance(x, Block) for x in xs):
        if axis == 0:
            return from_items(xs)
        raise Unsupported("stack")
    if any(isinstance(x, SymCol) for x in xs):
        m = np_cols(xs)
        return m if axis in (1, -1) else SymMatT(m)
    r = rnp.stack([x if isinstance(x, rnp.ndarray) else rnp.array(x, dtype=object) for x in xs], axis=axis)
    return r.view(SymArray) if r.dtype == object else r


def np_apply_along_axis(f, axis, arr, *a, **k):
    if isinstance(arr, SymMat):
        if axis not in (1, -1):
            raise Unsupported("apply_along_axis axis")
        roots = {}
        for n, c in zip(getattr(getattr(f, "__code__", None), "co_freevars", ()), getattr(f, "__closure__", None) or ()):
            try:
                roots[n] = c.cell_contents
            except ValueError:
                pass
        r, _ = generic(arr.seq, lambda: f(arr.row(), *a, **k), roots)
        if isinstance(r, (list, tuple, rnp.ndarray)):
            return SymMat(arr.seq, [colterm(x) for x in r])
        return SymCol(arr.seq, val=r)
    return rnp.apply_along_axis(f, axis, arr, *a, **k)


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    def pick(x):
        return x.value() if isinstance(x, SymCol) else x
    if isinstance(c, SymCol):
        return SymCol(c.seq, val=pick(a) if bool(c.value()) else pick(b))
    if isinstance(c, MatMask):
        def col(x, i):
            if isinstance(x, SymMat) and x.seq == c.seq and len(x.cols) == len(c.conds):
                return x.cols[i]
            if isnum(x):
                return term(x)
            raise Unsupported("where on a matrix")
        return SymMat(c.seq, [col(a, i) if bool(k) else col(b, i) for i, k in enumerate(c.conds)])
    if isinstance(c, (SymBool, bool)):
        return a if bool(c) else b
    if isinstance(c, rnp.ndarray):
        out = rnp.empty(c.shape, dtype=object)
        for ix in rnp.ndindex(c.shape):
            pa = a[ix] if isinstance(a, rnp.ndarray) and a.ndim else a
            pb = b[ix] if isinstance(b, rnp.ndarray) and b.ndim else b
            out[ix] = pa if bool(c[ix]) else pb
        return out.view(SymArray)
    raise Unsupported("where")


def np_mean(x, axis=None, **k):
    if isinstance(x, (SymMat, SymArray)):
        return x.mean(axis=axis)
    if isinstance(x, (list, tuple)):
        return sarr(x).mean(axis=axis)
    return rnp.mean(x, axis=axis, **k)


def np_sum(x, axis=None, **k):
    if isinstance(x, (SymMat, SymArray)):
        return x.sum(axis=axis)
    if has_block(x):
        if axis == 0 or not isinstance(as_items(x)[0].elem, rnp.ndarray):
            return b_sum(x)
        raise Unsupported("sum axis")
    if isinstance(x, (list, tuple)) and is_sym(x):
        return sarr(x).sum(axis=axis)
    return rnp.sum(x, axis=axis, **k)


def np_clip(x, lo, hi, **k):
    return ew(lambda v: fmaxmin("max", [lo, fmaxmin("min", [hi, v])]), x)


def np_around(x, decimals=0, **k):
    if k.get("out") is not None:
        raise Unsupported("np.round")
    return np_round(sarr(x) if isinstance(x, (list, tuple)) else x, decimals) if is_sym(x) else rnp.round(x, decimals)


def np_ew2(name):
    def f(a, b, **k):
        if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray):
            A, B = rnp.broadcast_arrays(rnp.asarray(a, dtype=object), rnp.asarray(b, dtype=object))
            return ew(lambda x, y: fmaxmin(name, [x, y]), A.view(SymArray), B)
        if isinstance(a, SymCol) or isinstance(b, SymCol):
            if not isinstance(a, SymCol):
                a, b = b, a
            if isinstance(b, SymCol) and b.seq != a.seq:
                raise Unsupported("maximum of columns")
            return ew(lambda x, y: fmaxmin(name, [x, y]), a, b)
        return fmaxmin(name, [a, b])

    return f


class GridFlat:
    def __init__(self, axes, order=None):
        self.axes, self.order = axes, order

    def transpose(self):
        return self.T

    @property
    def T(self):
        return grid_matrix(self.axes, self.order)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("grid." + n)


class GridField:
    """one coordinate at all nodes of a grid"""

    def __init__(self, axes, i, order):
        self.axes, self.i, self.order = axes, i, order

    def ravel(self, order="C"):
        if order != "C":
            raise Unsupported("order")
        return grid_col(self.axes, self.i, self.order)

    flatten = ravel

    def reshape(self, *a):
        if a in ((-1,), ((-1,),)):
            return self.ravel()
        raise Unsupported("reshape of a grid")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("grid." + n)


class ARange:
    """np.arange(start, stop, step) with unknown bounds"""

    def __init__(self, ax):
        self.ax = ax

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("arange." + n)

    def _no(self, *a):
        raise Unsupported("operation on a symbolic arange")

    __iter__ = __len__ = __add__ = __mul__ = __sub__ = __radd__ = __rmul__ = __getitem__ = _no


def np_arange(*a, **k):
    if not is_sym(list(a)):
        return rnp.arange(*a, **k)
    if k or len(a) > 3:
        raise Unsupported("arange")
    st = a[2] if len(a) == 3 else 1
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    return ARange((term(lo), term(hi), term(st)))


def np_meshgrid(*xs, indexing="xy", **k):
    if not any(isinstance(x, ARange) for x in xs):
        return rnp.meshgrid(*xs, indexing=indexing, **k)
    if k or not all(isinstance(x, ARange) for x in xs):
        raise Unsupported("meshgrid")
    axes = [x.ax for x in xs]
    order = tuple(range(len(xs)))
    if indexing == "xy" and len(xs) > 1:
        order = (1, 0) + order[2:]
    return [GridField(axes, i, order) for i in range(len(xs))]


def grid_col(axes, i, order):
    m = grid_matrix(axes, order)
    c = SymCol(m.seq, val=mk(m.cols[i]))
    c.raw = True
    return c


def grid_matrix(axes, order=None):
    """all nodes of a regular grid; order: the axes from the slowest to the fastest"""
    order = tuple(range(len(axes))) if order is None else tuple(order)
    key = "grid(" + ("" if order == tuple(range(len(axes))) else str(order) + ":") + ";".join(",".join(T.show(t, 40) for t in a) for a in axes) + ")"
    s = eng().seqs.setdefault(key, None)
    if s is None:
        s = eng().seqs[key] = Seq(key)
        s.grid, s.order = axes, order
    cols = []
    for i, (a, b, st) in enumerate(axes):
        cols.append(T.add(a, T.mul(st, T.var(f"#i{i}:" + key, frozenset([key])))))
    m = SymMat(s, cols)
    m.raw = True
    return m


class GridStack:
    """coordinates of all nodes of a grid along the last axis"""

    def __init__(self, axes, order):
        self.axes, self.order = axes, order

    def reshape(self, *a):
        if len(a) == 1 and isinstance(a[0], tuple):
            a = a[0]
        if tuple(a) == (-1, len(self.axes)):
            return grid_matrix(self.axes, self.order)
        raise Unsupported("reshape of a grid")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("grid." + n)


def grid_fields(xs):
    xs = list(xs)
    return bool(xs) and all(isinstance(x, GridField) for x in xs) and [x.i for x in xs] == list(range(len(xs[0].axes))) \
        and all(x.axes is xs[0].axes for x in xs)


class MGrid:
    """value of np.mgrid[...]"""

    def __init__(self, axes, order=None):
        self.axes, self.order = axes, tuple(range(len(axes))) if order is None else order

    def __len__(self):
        return len(self.axes)

    def __iter__(self):
        return iter([self[i] for i in range(len(self.axes))])

    def __getitem__(self, i):
        if isinstance(i, int):
            return GridField(self.axes, range(len(self.axes))[i], self.order)
        raise Unsupported("index of a grid")

    @property
    def shape(self):
        raise Unsupported("shape of a grid")

    def reshape(self, *a):
        if len(a) == 1 and isinstance(a[0], tuple):
            a = a[0]
        if tuple(a) == (len(self.axes), -1):
            return GridFlat(self.axes, self.order)
        raise Unsupported("reshape of a grid")

    @property
    def T(self):
        return GridStack(self.axes, tuple(reversed(self.order)))

    def transpose(self, *a):
        if len(a) == 1 and isinstance(a[0], tuple):
            a = a[0]
        n = len(self.axes)
        if not a:
            return self.T
        a = [range(n + 1)[x] for x in a]
        if a[-1] == 0:
            return GridStack(self.axes, tuple(self.order[x - 1] for x in a[:-1]))
        if a[0] == 0:
            return MGrid(self.axes, tuple(self.order[x - 1] for x in a[1:]))
        raise Unsupported("transpose of a grid")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported("grid." + n)


class _MGridMaker:
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if not any(is_sym([s.start, s.stop, s.step]) for s in key):
            return rnp.mgrid[key]
        axes = []
        for s in key:
            if not isinstance(s, slice):
                raise Unsupported("mgrid")
            axes.append((term(s.start if s.start is not None else 0), term(s.stop), term(s.step if s.step is not None else 1)))
        return MGrid(axes)


class _RMaker:
    def __getitem__(self, key):
        if is_sym(key) or any(isinstance(x, (Opaque, SymMat, SymMatT)) for x in (key if isinstance(key, tuple) else (key,))):
            return Opaque("np.r_")
        return rnp.r_[key]


class _CMaker:
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(x, (SymCol, SymMat)) for x in key):
            return np_column_stack(key)
        return rnp.c_[key]


def np_transpose(x, *a):
    if isinstance(x, (SymMat, SymMatT, GridFlat)):
        return x.T
    if isinstance(x, MGrid):
        return x.transpose(*a)
    if isinstance(x, (list, tuple)) and any(isinstance(y, SymCol) for y in x) and not a:
        return np_column_stack(x)
    return rnp.transpose(x, *a)


def np_insert(arr, i, v, axis=None):
    return rnp.insert(arr, i, v, axis=axis)


def np_dot(a, b):
    if isinstance(a, (SymMat, SymMatT)) or isinstance(b, (SymMat, SymMatT)):
        if isinstance(b, SymMatT) and isinstance(a, rnp.ndarray) and a.ndim == 1:
            s = T.ZERO
            for x, c in zip(a, b.m.cols):
                s = T.add(s, T.mul(term(x), c))
            return SymCol(b.m.seq, val=mk(s))
        if isinstance(a, SymMat) and isinstance(b, rnp.ndarray) and b.ndim == 1:
            s = T.ZERO
            for x, c in zip(b, a.cols):
                s = T.add(s, T.mul(term(x), c))
            return SymCol(a.seq, val=mk(s))
        raise Unsupported("dot of unbounded matrices")
    a = a if isinstance(a, rnp.ndarray) else (sarr(a) if isinstance(a, (list, tuple)) else a)
    b = b if isinstance(b, rnp.ndarray) else (sarr(b) if isinstance(b, (list, tuple)) else b)
    r = rnp.dot(a, b)
    return r.view(SymArray) if isinstance(r, rnp.ndarray) and r.dtype == object else r


class _Linalg:
    norm = staticmethod(np_norm)

    @staticmethod
    def det(m):
        m = [[v for v in r] for r in m]
        if len(m) != 3:
            raise Unsupported("det")
        (a, b, c), (d, e_, f), (g, h, i) = m
        return a * (e_ * i - f * h) - b * (d * i - f * g) + c * (d * h - e_ * g)

    def __getattr__(self, n):
        raise Unsupported("np.linalg." + n)


def _bool(f):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)):
            return f(x)
        if isinstance(x, rnp.ndarray):
            return f(list(x.flat))
        if isinstance(x, (SymBool, bool)):
            return x
        if isinstance(x, SymCol):
            return x.all() if f is b_all else x.any()
        raise Unsupported("np.any/all")

    return g


def sized(shape, t):
    """array with as many rows as an unbounded sequence has elements"""
    if not isinstance(shape, tuple):
        shape = (shape,)
    n = shape[0]
    if t is not None and isinstance(n, SymReal) and len(n.t.t) == 1 and len(shape) <= 2 and not is_sym(shape[1:]):
        (m, c), = n.t.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name.startswith("#n:"):
            s = Seq(ATOMS[m[0][0]].name[3:])
            if len(shape) == 1:
                return SymCol(s, val=mk(t))
            return SymMat(s, [t] * int(shape[1]))
    return Opaque("array of unknown length")


def np_const(v):
    def f(shape, dtype=None, **k):
        if is_sym(shape):
            if conversion(dtype) is not None:
                raise Unsupported("array of " + str(dtype))
            return sized(shape, T.const(v))
        if dtype in (int, bool):
            return rnp.full(shape, v, dtype=dtype)
        if conversion(dtype) is not None:
            raise Unsupported("array of " + str(dtype))
        return _zeros(shape, mk(T.const(v)))

    return f


def np_like(v):
    def f(x, dtype=None, *a, **k):
        if conversion(dtype) is not None:
            raise Unsupported("array of " + str(dtype))
        if isinstance(x, SymMat):
            return SymMat(x.seq, [T.const(v)] * len(x.cols))
        if isinstance(x, SymCol):
            return SymCol(x.seq, val=mk(T.const(v)))
        return _zeros(rnp.shape(x), mk(T.const(v)))

    return f


def np_full(shape, v, dtype=None, **k):
    if dtype is not bool and conversion(dtype) is not None and (is_sym(shape) or is_sym(v)):
        raise Unsupported("array of " + str(dtype))
    if is_sym(shape):
        return sized(shape, term(v) if isnum(v) and v == v else None)
    if is_sym(v):
        return _zeros(shape, v)
    return rnp.full(shape, v, dtype=dtype)


def np_empty(shape, dtype=None, **k):
    if dtype not in (int, bool) and conversion(dtype) is not None:
        raise Unsupported("array of " + str(dtype))
    if is_sym(shape):
        return sized(shape, T.var("uninitialised"))
    if dtype in (int, bool):
        return rnp.empty(shape, dtype=dtype)
    return _zeros(shape, Poison(("unsupported", "uninitialised array")))


def np_any_isnan(x, *a):
    if isinstance(x, rnp.ndarray):
        return rnp.zeros(x.shape, dtype=bool)
    return False


def np_isfinite(x, *a):
    if isinstance(x, rnp.ndarray):
        return rnp.ones(x.shape, dtype=bool)
    return True


def np_asarray(x, dtype=None, **k):
    if isinstance(x, (SymArray, SymMat, SymMatT, SymCol)) and (dtype is None or (conversion(dtype) is None and not getattr(x, "raw", False))):
        return x
    return np_array(x, dtype=dtype, copy=False)


def np_squeeze(x, *a, **k):
    return rnp.squeeze(x, *a, **k)


def np_broadcast_to(x, shape):
    return rnp.broadcast_to(x, shape)


def np_einsum(spec, *ops, **k):
    ops = [o if isinstance(o, rnp.ndarray) else sarr(o) for o in ops]
    ins, _, out = spec.replace(" ", "").partition("->")
    if "." in spec or not _:
        raise Unsupported("einsum " + spec)
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    import itertools

    inner = [c for c in dims if c not in out]
    res = rnp.empty(tuple(dims[c] for c in out), dtype=object)
    for ix in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, ix))
        tot = mk(T.ZERO)
        for jx in itertools.product(*[range(dims[c]) for c in inner]):
            env.update(zip(inner, jx))
            v = 1
            for s, o in zip(ins, ops):
                v = v * o[tuple(env[c] for c in s)]
            tot = tot + v
        res[ix] = tot
    return res.view(SymArray) if out else res.item()


def np_isin(x, test, invert=False, **k):
    """membership among indices known by identity"""
    flat = [y for y in (rnp.asarray(x, dtype=object).ravel())]
    tests = list(test.ravel()) if isinstance(test, rnp.ndarray) else list(test)
    if k or not all(isinstance(y, (SymIdx, int, rnp.integer)) for y in flat + tests):
        raise Unsupported("np.isin")
    r = rnp.array([any(bool(y == t) for t in tests) != bool(invert) for y in flat], dtype=bool)
    return r.reshape(rnp.shape(x))


def _pass(name):
    f = getattr(rnp, name)

    def g(*a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, (SymMat, SymMatT, SymCol, Opaque, Block)) or (isinstance(x, (list, tuple)) and any(isinstance(y, (SymMat, SymMatT, SymCol, Block)) for y in x)):
                raise Unsupported("np." + name + " of an unbounded array")
        a = [sarr(x) if isinstance(x, list) and is_sym(x) else x for x in a]
        r = f(*a, **k)
        if isinstance(r, rnp.ndarray) and r.dtype == object and not isinstance(r, SymArray):
            r = r.view(SymArray)
        return r

    return g


PASS = ["cross", "vdot", "inner", "outer", "reshape", "ravel", "roll", "flip", "append", "delete", "add", "subtract",
        "multiply", "divide", "true_divide", "negative", "square", "matmul", "expand_dims", "atleast_2d", "atleast_1d",
        "tile", "repeat", "diag", "trace", "copy", "take", "swapaxes", "moveaxis", "triu_indices", "tril_indices", "triu",
        "tril", "split", "array_split", "broadcast_arrays", "cumsum", "prod", "tensordot", "kron", "shape", "ndim", "size",
        "fill_diagonal", "concatenate", "arange", "linspace", "eye", "identity", "dstack", "block", "diff"]


class NPProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d.update(
            pi=mk(T.PI), newaxis=None, ndarray=rnp.ndarray, float64=rnp.float64, nan=float("nan"), inf=float("inf"),
            array=np_array, asarray=np_asarray, ascontiguousarray=np_asarray, asanyarray=np_asarray,
            zeros=np_const(0), ones=np_const(1), full=np_full, empty=np_empty,
            zeros_like=np_like(0), ones_like=np_like(1), linalg=_Linalg(), array_equal=np_array_equal, isclose=np_isclose, allclose=np_allclose,
            sqrt=lambda x: ew(fsqrt, x), log=lambda x: ew(flog, x), arccos=lambda x: ew(facos, x),
            abs=lambda x: ew(fabs, x), absolute=lambda x: ew(fabs, x), fabs=lambda x: ew(fabs, x),
            sign=lambda x: ew(fsign, x), concatenate=np_concatenate, hstack=np_hstack, vstack=np_vstack,
            column_stack=np_column_stack, stack=np_stack, apply_along_axis=np_apply_along_axis, where=np_where,
            round=np_around, around=np_around, rint=np_around, mean=np_mean, average=np_mean, sum=np_sum, clip=np_clip, maximum=np_ew2("max"), minimum=np_ew2("min"),
            mgrid=_MGridMaker(), arange=np_arange, meshgrid=np_meshgrid, r_=_RMaker(), c_=_CMaker(), transpose=np_transpose, insert=np_insert, dot=np_dot,
            any=_bool(b_any), all=_bool(b_all), isnan=np_any_isnan, isfinite=np_isfinite, einsum=np_einsum, isin=np_isin,
            max=lambda x, axis=None, **k: x.max(axis=axis) if isinstance(x, rnp.ndarray) else _mm("max", (x,), {}),
            min=lambda x, axis=None, **k: x.min(axis=axis) if isinstance(x, rnp.ndarray) else _mm("min", (x,), {}),
            mod=lambda a, b: a % b, remainder=lambda a, b: a % b, squeeze=np_squeeze, broadcast_to=np_broadcast_to,
            hypot=lambda a, b: fsqrt(a * a + b * b), power=lambda a, b: a ** b,
            sin=lambda x: ew(lambda v: mk(T.fn("sin", term(v))), x), cos=lambda x: ew(lambda v: mk(T.fn("cos", term(v))), x),
            finfo=rnp.finfo, typing=rnp.typing, dtype=rnp.dtype, integer=rnp.integer, floating=rnp.floating,
        )
        d["amax"], d["amin"] = d["max"], d["min"]
        d["random"] = Opaque("np.random")
        for n in PASS:
            if n not in d:
                d[n] = _pass(n)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = getattr(rnp, n)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
                    raise Unsupported("np." + n)
                return v(*a, **k)

            return f
        return v


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        d = self.__dict__

        def only(name, f):
            def g(*a):
                if any(is_sym(x) for x in a):
                    return f(*a)
                return getattr(_math, name)(*a)

            return g

        d.update(
            pi=mk(T.PI), sqrt=only("sqrt", fsqrt), log=only("log", flog), acos=only("acos", facos), fabs=only("fabs", fabs),
            sin=only("sin", lambda x: mk(T.fn("sin", term(x)))), cos=only("cos", lambda x: mk(T.fn("cos", term(x)))),
            hypot=only("hypot", lambda *a: fsqrt(b_sum([x * x for x in a]))), pow=lambda a, b: a ** b,
            copysign=only("copysign", lambda a, b: (fabs(a) if b >= 0 else -fabs(a))),
            isnan=lambda x: False if is_sym(x) else _math.isnan(x), isfinite=lambda x: True if is_sym(x) else _math.isfinite(x),
            inf=_math.inf, nan=_math.nan, tau=mk(T.scale(T.PI, Fraction(2))), e=_math.e,
            fsum=b_sum, radians=only("radians", lambda x: mk(T.scale(T.mul(term(x), T.PI), Fraction(1, 180)))),
            dist=only("dist", lambda a, b: fsqrt(b_sum([(x - y) * (x - y) for x, y in zip(a, b)]))),
            sumprod=only("sumprod", lambda a, b: b_sum([x * y for x, y in zip(a, b)])) if hasattr(_math, "sumprod") else None,
        )

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = getattr(_math, n)

        def f(*a):
            if any(is_sym(x) for x in a):
                raise Unsupported("math." + n)
            return v(*a)

        return f if callable(v) else v
