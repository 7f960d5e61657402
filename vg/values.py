"""Structured abstract values of the value-graph analysis."""
from .term import *


class Undecided(Exception):
    """construct outside the modelled fragment"""


class DeadFlow(Exception):
    pass


class Tup:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return "Tup%r" % (self.v,)


class Adt:
    """struct or enum; tag is an I-term, pay maps variant index -> tuple of field values"""
    __slots__ = ("path", "tag", "pay")

    def __init__(self, path, tag, pay):
        self.path, self.tag, self.pay = path, tag, pay

    def __repr__(self):
        return "%s<%s>%r" % (self.path.split("::")[-1], self.tag, self.pay)


class Lst:
    """list with concrete spine; g[i] is the presence condition of slot i (or None: all present)"""
    __slots__ = ("v", "g")

    def __init__(self, v, g=None):
        self.v = tuple(v)
        self.g = tuple(g) if g is not None and any(x is not TRUE for x in g) else None

    def guard(self, i):
        return TRUE if self.g is None else self.g[i]

    def __repr__(self):
        return "Lst%r" % (self.v,)


class SymL:
    """list of symbolic length n; f(idx) -> value"""
    __slots__ = ("n", "f")

    def __init__(self, n, f):
        self.n, self.f = n, f


class MRef:
    __slots__ = ("key", "proj")

    def __init__(self, key, proj=()):
        self.key, self.proj = key, proj

    def __repr__(self):
        return "MRef(%r,%r)" % (self.key, self.proj)


class HRef:
    """interior-mutable heap cell (RefCell/Cell)"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class Fnv:
    __slots__ = ("callee",)

    def __init__(self, callee):
        self.callee = callee


class Clo:
    __slots__ = ("d", "frame", "snap")

    def __init__(self, d, frame, snap):
        self.d, self.frame, self.snap = d, frame, snap


class Phi:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class It:
    """iterator: pending source items [(guard,value)], then a chain of adaptors"""
    __slots__ = ("src", "ops", "inf")

    def __init__(self, src, ops=(), inf=None):
        self.src, self.ops, self.inf = tuple(src), tuple(ops), inf


class SymIt:
    __slots__ = ("n", "f")

    def __init__(self, n, f):
        self.n, self.f = n, f


class MapV:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)


class Opq:
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "Opq(%s)" % (self.what,)


UNIT = Tup(())
OPTION = "std::option::Option"
RESULT = "std::result::Result"
ORDERING = "std::cmp::Ordering"


def some(v):
    return Adt(OPTION, I(1), {1: (v,)})


NONE = Adt(OPTION, I(0), {0: ()})


def opt(c, v):
    """Some(v) if c else None"""
    if c is TRUE:
        return some(v)
    if c is FALSE:
        return NONE
    return Adt(OPTION, ite(c, I(1), I(0)), {0: (), 1: (v,)})


def ok(v):
    return Adt(RESULT, I(0), {0: (v,)})


def err(v):
    return Adt(RESULT, I(1), {1: (v,)})


def vlen(l):
    if l.g is None:
        return I(len(l.v))
    n = I(0)
    for g in l.g:
        n = add(n, ite(g, I(1), I(0)))
    return n


def sized(l, n):
    """the condition that a list has n elements"""
    if isinstance(l, Phi):
        return ite(l.c, sized(l.a, n), sized(l.b, n))
    return eq(vlen(l), I(n))


def same(a, b):
    """syntactic identity of values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Tup):
        return len(a.v) == len(b.v) and all(map(same, a.v, b.v))
    if isinstance(a, Adt):
        return (a.path == b.path and a.tag is b.tag and a.pay.keys() == b.pay.keys()
                and all(all(map(same, a.pay[k], b.pay[k])) for k in a.pay))
    if isinstance(a, Lst):
        return len(a.v) == len(b.v) and a.g == b.g and all(map(same, a.v, b.v))
    if isinstance(a, MRef):
        return a.key == b.key and a.proj == b.proj
    if isinstance(a, HRef):
        return a.key == b.key
    if isinstance(a, Opq):
        return a.what == b.what
    if isinstance(a, Fnv):
        return a.callee["def"] == b.callee["def"]
    if isinstance(a, MapV):
        return len(a.e) == len(b.e) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.e, b.e))
    return False


def join(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if same(a, b):
        return a
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.v) == len(b.v):
        return Tup([join(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path:
        pay = {}
        for k in set(a.pay) | set(b.pay):
            if k in a.pay and k in b.pay:
                pay[k] = tuple(join(c, x, y) for x, y in zip(a.pay[k], b.pay[k]))
            else:
                pay[k] = a.pay.get(k, b.pay.get(k))
        return Adt(a.path, ite(c, a.tag, b.tag), pay)
    if isinstance(a, Lst) and isinstance(b, Lst):
        if len(a.v) == len(b.v):
            g = [ite(c, a.guard(i), b.guard(i)) for i in range(len(a.v))]
            return Lst([join(c, x, y) for x, y in zip(a.v, b.v)], g)
        la, lb = len(a.v), len(b.v)
        n = min(la, lb)
        # conditional pushes share a prefix
        if all(same(a.v[i], b.v[i]) and a.guard(i) is b.guard(i) for i in range(n)):
            v = list(a.v[:n])
            g = [a.guard(i) for i in range(n)]
            for i in range(n, max(la, lb)):
                if la > lb:
                    v.append(a.v[i]); g.append(and_(c, a.guard(i)))
                else:
                    v.append(b.v[i]); g.append(and_(not_(c), b.guard(i)))
            return Lst(v, g)
        return Phi(c, a, b)
    if isinstance(a, It) and isinstance(b, It) and not a.ops and not b.ops and len(a.src) == len(b.src):
        return It([(ite(c, x[0], y[0]), join(c, x[1], y[1])) for x, y in zip(a.src, b.src)])
    if isinstance(a, MapV) and isinstance(b, MapV):
        if len(a.e) == len(b.e) and all(same(x[0], y[0]) for x, y in zip(a.e, b.e)):
            return MapV([(x[0], join(c, x[1], y[1])) for x, y in zip(a.e, b.e)])
        return Phi(c, a, b)
    return Phi(c, a, b)
