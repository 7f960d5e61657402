"""Context in which property rules generate obligations over the value graphs of /repo's current source."""
import os
import re
import struct
import sys
import time
from .term import *
from .values import *
from . import prog as prog_
from . import sym
from .ev import Ev, State
from .rel import Ob, Dom, tvars
from .prog import Missing, FrontendError

sys.setrecursionlimit(20000)


class Skip(Exception):
    pass


class Ctx:
    def __init__(self, pid, deep=False, prog=None):
        self.pid, self.deep = pid, deep
        self.p = prog or prog_.load()
        self.obs = []
        self.fns = set()
        self.calls = 0
        self.unmodelled = []
        self.instances = 0
        self.dom = None
        self.site = ""          # reported for obligations about no function in particular
        self.seenpanic = set()
        self.sites = set()
        self.pathcache = {}
        # the error function is kept symbolic; that the crate's implementation approximates it is an obligation of its own
        self.summ = {}
        for b in self.p.bypath:
            if b.startswith("trueskill::") and b.split("::")[-1] in ("erfc", "inverse_erfc"):
                op = "erfc" if b.endswith("::erfc") else "ierfc"
                self.summ[b] = lambda x, op=op: mk(op, (x,), "R")

    # ---------------------------------------------------------------- names
    def path(self, path):
        """resolve a public path; a function moved into a submodule and re-exported is found by its last segment"""
        if path in self.pathcache:
            return self.pathcache[path]
        r = None
        if path in self.p.bypath:
            r = path
        else:
            last, top = path.split("::")[-1], path.split("::")[0]
            c = [b for b in self.p.bypath if b.split("::")[-1] == last and not b.startswith("<")]
            d = [b for b in c if b.split("::")[0] == top]
            c = d or c
            if len(c) == 1:
                r = c[0]
        if r is None:
            raise Missing(path)
        self.pathcache[path] = r
        return r

    def adtpath(self, path):
        if path in self.p.adts:
            return path
        last = path.split("::")[-1]
        c = [a for a in self.p.adts if a.split("::")[-1] == last]
        if len(c) == 1:
            return c[0]
        raise Missing(path)

    # ---------------------------------------------------------------- values
    def sym(self, adt, name, **over):
        """symbolic instance of an ADT; over: field -> value"""
        path = self.adtpath(adt)
        vs = self.p.adts[path]["variants"]
        if len(vs) > 1:
            if any(v["fields"] for v in vs):
                raise Undecided("symbolic enum")
            return Adt(path, var("e:%d:%s" % (len(vs), name), "I"), {i: () for i in range(len(vs))})
        f = []
        for fd in vs[0]["fields"]:
            f.append(over[fd["name"]] if fd["name"] in over else sym.build(self.p, fd["ty"], "%s.%s" % (name, fd["name"])))
        return Adt(path, I(0), {0: tuple(f)})

    def new(self, adt, **kw):
        path = self.adtpath(adt)
        fs = self.p.fields(path)
        if set(fs) != set(kw):
            raise Undecided("fields of %s are %s" % (adt, fs))
        return Adt(path, I(0), {0: tuple(kw[f] for f in fs)})

    def put(self, v, **kw):
        """copy of struct v with fields replaced"""
        fs = self.p.fields(v.path)
        return Adt(v.path, v.tag, {0: tuple(kw.get(f, x) for f, x in zip(fs, v.pay[0]))})

    def get(self, v, f):
        fs = self.p.fields(v.path)
        return v.pay[0][fs.index(f)]

    def fields(self, v):
        return dict(zip(self.p.fields(v.path), v.pay[0]))

    def outcome(self, o):
        """WIN/LOSS/DRAW by name or a symbolic outcome"""
        path = self.adtpath("Outcomes")
        vs = self.p.variants(path)
        if o in vs:
            return Adt(path, I(vs.index(o)), {i: () for i in range(len(vs))})
        return Adt(path, var("e:%d:%s" % (len(vs), o), "I"), {i: () for i in range(len(vs))})

    def ocase(self, o, win, draw, loss):
        """case distinction on an outcome value"""
        vs = self.p.variants(o.path)
        m = {"WIN": win, "DRAW": draw, "LOSS": loss}
        if isc(o.tag):
            return m[vs[cv(o.tag)]]
        j = lambda c, a, b: join(c, a, b)
        return j(eq(o.tag, I(vs.index("WIN"))), win, j(eq(o.tag, I(vs.index("LOSS"))), loss, draw))

    def score(self, o):
        return self.ocase(o, R(1), R("0.5"), R(0))

    def flip(self, o):
        vs = self.p.variants(o.path)
        i = lambda n: I(vs.index(n))
        return Adt(o.path, self.ocase(o, i("LOSS"), i("DRAW"), i("WIN")), o.pay)

    def none(self):
        return NONE

    def rank(self, n):
        """MultiTeamOutcome"""
        return Adt(self.adtpath("MultiTeamOutcome"), I(0), {0: (n if isinstance(n, T) else I(n),)})

    # ---------------------------------------------------------------- evaluation
    def body(self, path):
        return self.p.fn(self.path(path))

    def evaluate(self, body, args):
        ev = Ev(self.p)
        ev.summ = self.summ
        st = State({}, ())
        self.calls += 1
        try:
            v = ev.inline(body, args, st, {})
            v = ev.deep(v, st)
        except DeadFlow:
            v = None
        self.fns |= ev.called
        self.sites |= ev.sites
        return v, ev.panics

    def raw(self, f):
        """result of f(evaluator, state)"""
        ev = Ev(self.p)
        ev.summ = self.summ
        st = State({}, ())
        self.calls += 1
        v = ev.deep(f(ev, st), st)
        self.fns |= ev.called
        return v

    def call(self, path, *args, facts=(), total=True):
        """abstract result of a public function on the given inputs. Reachable panics become obligations."""
        return self.callb(self.body(path), args, facts, total)

    def method(self, trait, selfadt, m, *args, facts=(), total=True):
        b = self.p.trait_method(trait, self.adtpath(selfadt), m)
        if b is None:
            raise Missing("<%s as %s>::%s" % (selfadt, trait, m))
        return self.callb(b, args, facts, total)

    def from_(self, dst, src, v, facts=()):
        """<dst as From<src>>::from(v)"""
        d = self.adtpath(dst)
        for im in self.p.impls:
            if im.get("trait", "") == "std::convert::From" and self.p.types[im["self"]].get("path") == d:
                for it in im["items"]:
                    b = self.p.bodies.get(it[1]) if it[0] == "from" else None
                    if b is None:
                        continue
                    t = self.p.types[[q for q in b["params"] if "pat" in q][0]["ty"]]
                    if t["s"] == src or t.get("path") == src:
                        return self.callb(b, (v,), facts)
        raise Missing("<%s as From<%s>>" % (dst, src))

    def callb(self, body, args, facts=(), total=True):
        v, panics = self.evaluate(body, list(args))
        if total:
            self.nopanic(body["path"], panics, facts)
        if v is None:
            raise Skip("%s panics on every input of this shape" % body["path"])
        return v

    def nopanic(self, fn, panics, facts=()):
        for pc, kind, sp, where in panics:
            c = and_(*pc)
            key = (fn, c.id, kind, where)
            if c is FALSE or key in self.seenpanic:
                continue
            self.seenpanic.add(key)
            self.holds("%s does not panic (%s in %s)" % (fn, kind, where), where, not_(c), facts, panic=True)

    # ---------------------------------------------------------------- obligations
    def span(self, fn):
        if not fn:
            return self.site
        b = self.p.bypath.get(fn)
        if b is None:
            try:
                b = self.body(fn)
            except Missing:
                return fn
        sp = b.get("sp", "")
        return "%s (%s)" % (sp.replace("/repo/", ""), b["path"])

    def add(self, kind, a, b, name, fn, facts=(), panic=False, tol=None):
        o = Ob(kind, a, b, name, self.span(fn), self.dom, facts)
        tol = tol or getattr(self.dom, "tol", None)
        if tol is not None:
            o.tol = tol
        self.obs.append(o)
        self.instances += 1

    def eq(self, name, fn, a, b, facts=(), tol=None):
        """structural equality of two abstract values"""
        a, b = unmask(a), unmask(b)
        if isinstance(a, Phi):
            self.eq(name, fn, a.a, b, tuple(facts) + (a.c,), tol)
            self.eq(name, fn, a.b, b, tuple(facts) + (not_(a.c),), tol)
        elif isinstance(b, Phi):
            self.eq(name, fn, a, b.a, tuple(facts) + (b.c,), tol)
            self.eq(name, fn, a, b.b, tuple(facts) + (not_(b.c),), tol)
        elif isinstance(a, T) and isinstance(b, T):
            self.add("eq", a, b, name, fn, facts, tol=tol)
        elif isinstance(a, Tup) and isinstance(b, Tup) and len(a.v) == len(b.v):
            for i, (x, y) in enumerate(zip(a.v, b.v)):
                self.eq("%s .%d" % (name, i), fn, x, y, facts, tol)
        elif isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path:
            if not (a.tag is b.tag):
                self.add("eq", a.tag, b.tag, name + " variant", fn, facts)
            n = self.p.adts[a.path]["variants"] if a.path in self.p.adts else None
            for k in a.pay:
                if k not in b.pay:
                    continue
                fk = tuple(facts)
                if not isc(a.tag):
                    fk += (eq(a.tag, I(k)),)
                if not isc(b.tag):
                    fk += (eq(b.tag, I(k)),)
                if isc(a.tag) and cv(a.tag) != k or isc(b.tag) and cv(b.tag) != k:
                    continue
                for i, (x, y) in enumerate(zip(a.pay[k], b.pay[k])):
                    f = n[k]["fields"][i]["name"] if n else str(i)
                    self.eq("%s .%s" % (name, f), fn, x, y, fk, tol)
        elif isinstance(a, Lst) and isinstance(b, Lst):
            a, b = compact(a), compact(b)
            if a.g is None and b.g is None and len(a.v) == len(b.v):
                for i, (x, y) in enumerate(zip(a.v, b.v)):
                    self.eq("%s [%d]" % (name, i), fn, x, y, facts, tol)
            elif a.g is None and b.g is None:
                self.add("bool", FALSE, None, "%s: %d entries instead of %d" % (name, len(a.v), len(b.v)), fn, facts)
            else:
                self.add("eq", vlen(a), vlen(b), name + " length", fn, facts)
                if len(a.v) == len(b.v):
                    for i, (x, y) in enumerate(zip(a.v, b.v)):
                        self.eq("%s [%d]" % (name, i), fn, x, y, tuple(facts) + (a.guard(i), b.guard(i)), tol)
        else:
            raise Undecided("comparison of %s with %s" % (type(a).__name__, type(b).__name__))

    def le(self, name, fn, a, b, facts=()):
        self.add("le", a, b, name, fn, facts)

    def mono(self, name, fn, t, x, sign, step=None, facts=()):
        """t never decreases (sign '+') / never increases ('-') in the input x; refuted through a step d > 0"""
        d = var(step or "δ", "R") if x.sort == "R" else var("n:δ", "I")
        t2 = subst(t, {x: add(x, d)})
        self.le(name, fn, t, t2, facts) if sign == "+" else self.le(name, fn, t2, t, facts)
        self.obs[-1].mono = (t, x, sign)

    def holds(self, name, fn, c, facts=(), panic=False):
        if c is TRUE:
            self.instances += 1
            o = Ob("bool", c, None, name, self.span(fn), self.dom, facts)
            self.obs.append(o)
            return
        self.add("bool", c, None, name, fn, facts)

    def finite(self, name, fn, v, facts=()):
        """every number of the result is finite under f64 semantics"""
        def go(v, facts):
            v = unmask(v)
            if isinstance(v, Phi):
                go(v.a, facts + (v.c,))
                go(v.b, facts + (not_(v.c),))
            elif isinstance(v, T):
                if v.sort == "R":
                    self.add("fin", v, None, name, fn, facts)
            elif isinstance(v, (Tup, Lst)):
                for x in v.v if isinstance(v, Tup) else leaves(v):
                    go(x, facts)
            else:
                for x in leaves(v):
                    go(x, facts)
        go(v, tuple(facts))

    def gone(self, path, label):
        """an item of the public interface that no longer exists is a violation; private helpers may move"""
        if re.match(r"<?trueskill::(erf|math|matrix|schedule|factor_graph|gaussian|weights)::", path):
            self.unmodelled.append("%s: %s is not there" % (label, path))
            return
        self.add("bool", FALSE, None, "the public item %s exists" % path, None)
        self.obs[-1].where = path

    # ---------------------------------------------------------------- grouping
    def group(self, label):
        return Group(self, label)

    def lens(self, *fns, base=(0, 1, 2, 3), cap=300, spread=(-1, 0, 1)):
        """list lengths to unroll: the base ones with independent elements; harvested: lengths singled out by integer
        constants in comparisons/patterns of the functions reachable from fns"""
        cs = set()
        for f in fns:
            if isinstance(f, tuple):
                b = self.p.trait_method(f[0], self.adtpath(f[1]), f[2])
                cs |= self.consts(b["path"]) if b else set()
            else:
                cs |= self.consts(self.path(f))
        out = set()
        for c in cs:
            for d in (c + k for k in (spread if c <= 40 else (1,))):
                if max(base) < d <= cap:
                    out.add(d)
        return list(base), sorted(out)

    def consts(self, path):
        if not hasattr(self, "_cg"):
            self._cg = callgraph(self.p)
        seen, todo, cs = set(), [path], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            c, k = self._cg.get(x, ((), ()))
            todo += c
            cs |= set(k)
        return cs


class Group:
    def __init__(self, ctx, label):
        self.ctx, self.label = ctx, label

    def __enter__(self):
        self.n = len(self.ctx.obs)
        return self

    def __exit__(self, t, e, tb):
        if t in (Undecided, DeadFlow, RecursionError) or (t and issubclass(t, Undecided)):
            self.ctx.unmodelled.append("%s: %s" % (self.label, e))
            return True
        if t is Skip:
            # panics on every input: an unconditional violation of the value clause
            self.ctx.unmodelled.append("%s: %s" % (self.label, e))
            return True
        if t is Missing:
            self.ctx.gone(str(e), self.label)
            return True
        if t and issubclass(t, (AttributeError, TypeError, ValueError, LookupError, ArithmeticError, AssertionError)) and not os.environ.get("VG_RAISE"):
            # a value of a shape the rule did not foresee
            self.ctx.unmodelled.append("%s: %s: %s" % (self.label, t.__name__, e))
            return True
        return False


def unmask(v):
    return v


def compact(l):
    if l.g is None or all(g is TRUE or g is FALSE for g in l.g):
        if l.g is None:
            return l
        return Lst([x for x, g in zip(l.v, l.g) if g is TRUE])
    keep = [i for i, g in enumerate(l.g) if g is not FALSE]
    if len(keep) < len(l.v):
        return Lst([l.v[i] for i in keep], [l.g[i] for i in keep])
    return l


def leaves(v, out=None):
    out = [] if out is None else out
    if isinstance(v, T):
        out.append(v)
    elif isinstance(v, (Tup, Lst)):
        for x in v.v:
            leaves(x, out)
    elif isinstance(v, Adt):
        if not isc(v.tag):
            out.append(v.tag)
        for k in v.pay:
            for x in v.pay[k]:
                leaves(x, out)
    elif isinstance(v, Phi):
        leaves(v.a, out)
        leaves(v.b, out)
    return out


CMP = ("lt", "le", "gt", "ge", "eq", "ne", "Lt", "Le", "Gt", "Ge", "Eq", "Ne")


def callgraph(p):
    """path -> (callees, integral literals used in comparisons or patterns)"""
    bydef = {d: b["path"] for d, b in p.bodies.items()}
    g = {}
    for b in p.bodies.values():
        calls, ks = set(), set()
        scan(b["body"], bydef, p, calls, ks, False)
        g[b["path"]] = (calls, ks)
    return g


def scan(e, bydef, p, calls, ks, incmp):
    def note(x):
        try:
            z = float(x)
        except (TypeError, ValueError):
            return
        if z == z and 0 <= z <= 1000 and z == int(z):
            ks.add(int(z))
    st = [(e, False)]
    while st:
        x, c = st.pop()
        if isinstance(x, list):
            st += [(y, c) for y in x]
        elif isinstance(x, dict):
            k = x.get("k")
            if k == "lit":
                if "i" in x and isint(p, x):
                    note(x["i"])
                elif c and ("f" in x or "i" in x):
                    note(x.get("f", x.get("i")).replace("_", ""))
            elif k == "bits" and isint(p, x):
                note(x["bits"])
            elif k == "const" and isinstance(x.get("val"), dict):
                if isint(p, x):
                    note(x["val"]["bits"])
                elif c and x["val"]["ty"] == "f64":
                    note(struct.unpack("<d", int(x["val"]["bits"]).to_bytes(8, "little"))[0])
            elif k in ("cast", "as") and p.types[x["ty"]]["s"] in ("u8", "i8"):
                note(255 if p.types[x["ty"]]["s"] == "u8" else 127)
            if x.get("p") == "const":
                note(x.get("bits"))
            elif x.get("p") == "range":
                note(x.get("lo")), note(x.get("hi"))
            cc = c
            if k == "bin":
                cc = x.get("op") in CMP
            elif k in ("block", "call", "if", "match", "closure"):
                cc = False
            d = x.get("def")
            if isinstance(d, str) and d in bydef:
                calls.add(bydef[d])
            if x.get("trait") and x.get("method"):
                for im, key in p.byitem.get((x["trait"], x["method"]), []):
                    if key in bydef:
                        calls.add(bydef[key])
            for kk, y in x.items():
                if isinstance(y, (dict, list)):
                    st.append((y, cc))


def isint(p, x):
    return p.types[x["ty"]]["s"] in ("usize", "u64", "u32", "u8", "u16", "i64", "i32", "isize", "i16", "i8", "u128", "i128")
