"""Value-graph construction: structural evaluation of THIR in the Herbrand/term domain.

Branches are joined with gated phi (ite) nodes; no path is enumerated and no solver is consulted.
Loops over sequences whose spine is known are unrolled; data-dependent loops become `loop` nodes."""
import re
import struct
from .term import *
from .values import *

MAXDEPTH = 150
MAXUNROLL = 400


class State:
    __slots__ = ("store", "pc")

    def __init__(self, store, pc):
        self.store, self.pc = store, pc

    def fork(self, lit):
        return State(dict(self.store), self.pc + (lit,))


class Frame:
    _n = [0]

    def __init__(self, body, parent=None, subst=None):
        Frame._n[0] += 1
        self.id = Frame._n[0]
        self.body = body
        self.parent = parent       # defining frame id for closures
        self.snap = {}
        self.subst = subst or {}
        self.rets = []
        self.loops = {}            # label -> (breaks, continues, base)
        self.base = 0
        self.clo = False


def conj(lits, known=()):
    return and_(*[l for l in lits if l not in known])


def merge_outs(outs):
    """outs: [(relpc, store, value)] mutually exclusive & exhaustive, in program order"""
    conds = []
    known = set()
    for rel, _, _ in outs[:-1]:
        lits = [l for l in rel if l not in known]
        conds.append(conj(lits))
        if len(lits) == 1:
            known.add(not_(lits[0]))
    store, val = outs[-1][1], outs[-1][2]
    for (rel, s, v), c in zip(reversed(outs[:-1]), reversed(conds)):
        store = join_store(c, s, store)
        val = join(c, v, val)
    return store, val


def join_store(c, a, b):
    r = dict(b)
    for k, va in a.items():
        vb = b.get(k)
        if vb is None:
            r[k] = va
        elif va is not vb:
            r[k] = join(c, va, vb)
    return r


F64C = {
    "PI": lambda: PI, "TAU": lambda: mul(R(2), PI), "E": lambda: exp(R(1)),
    "FRAC_PI_2": lambda: div(PI, R(2)), "FRAC_PI_3": lambda: div(PI, R(3)), "FRAC_PI_4": lambda: div(PI, R(4)),
    "FRAC_PI_6": lambda: div(PI, R(6)), "FRAC_PI_8": lambda: div(PI, R(8)),
    "FRAC_1_PI": lambda: div(R(1), PI), "FRAC_2_PI": lambda: div(R(2), PI),
    "FRAC_2_SQRT_PI": lambda: div(R(2), sqrt(PI)), "SQRT_2": lambda: sqrt(R(2)),
    "FRAC_1_SQRT_2": lambda: div(R(1), sqrt(R(2))), "LN_2": lambda: ln(R(2)), "LN_10": lambda: ln(R(10)),
    "LOG2_E": lambda: div(R(1), ln(R(2))), "LOG10_E": lambda: div(R(1), ln(R(10))),
    "LOG2_10": lambda: div(ln(R(10)), ln(R(2))), "LOG10_2": lambda: div(ln(R(2)), ln(R(10))),
}


class Ev:
    def __init__(self, prog):
        self.p = prog
        self.depth = 0
        self.panics = []          # (pc literals, kind, span)
        self.sites = set()        # every potential panic / partial-operation site seen
        self.called = set()       # local functions inlined
        self.opaque = set()
        self.summ = {}            # functions replaced by a special-function summary
        self.nheap = 0
        self.loopdepth = 0
        self.stack = []

    # ------------------------------------------------------------ entry point
    def run(self, fnpath, args, pc=()):
        """args: list of values; MRef arguments must have been placed in store via extra"""
        body = self.p.fn(fnpath)
        st = State({}, tuple(pc))
        v = self.inline(body, args, st, None)
        return v

    def ty(self, i):
        return self.p.types[i]

    # ------------------------------------------------------------ calls
    def inline(self, body, args, st, subst, parent=None, snap=None):
        if self.depth > MAXDEPTH:
            raise Undecided("call depth")
        self.called.add(body["path"])
        sm = self.summ.get(body["path"])
        if sm is not None and all(isinstance(a, T) for a in args):
            return sm(*args)
        fr = Frame(body, parent, subst)
        if snap is not None:
            fr.snap = snap
        fr.base = len(st.pc)
        params = [p for p in body["params"] if "pat" in p]
        if len(params) != len(args):
            raise Undecided("arity of %s" % body["path"])
        self.depth += 1
        self.stack.append(fr)
        pc0 = st.pc
        try:
            for p, a in zip(params, args):
                c = self.match(p["pat"], a, None, st, fr)
                if c is not TRUE:
                    raise Undecided("refutable parameter")
            outs = fr.rets
            try:
                v = self.ev(body["body"], st, fr)
                outs.append((st.pc[fr.base:], st.store, v))
            except DeadFlow:
                pass
            if not outs:
                raise DeadFlow()
            store, val = merge_outs(outs)
        finally:
            self.depth -= 1
            self.stack.pop()
        if not fr.clo:
            fid = fr.id
            store = {k: v for k, v in store.items() if not (k.__class__ is tuple and k[0] == fid)}
        st.store = store
        st.pc = pc0
        return val

    def panic(self, st, kind, e, cond=TRUE):
        """record a potential panic under cond; continue assuming not cond"""
        sp = e.get("sp", "?") if e else "?"
        fr = self.stack[-1] if self.stack else None
        where = fr.body["path"] if fr else "?"
        self.sites.add((kind, where))
        if cond is FALSE:
            return
        self.panics.append((st.pc + ((cond,) if cond is not TRUE else ()), kind, sp, where))
        if cond is TRUE:
            raise DeadFlow()
        st.pc = st.pc + (not_(cond),)

    def call_value(self, f, args, st, e):
        if isinstance(f, Phi):
            return self.branch(st, f.c, lambda s: self.call_value(f.a, args, s, e), lambda s: self.call_value(f.b, args, s, e))
        if isinstance(f, MRef):
            return self.call_value(self.read(f.key, f.proj, st), args, st, e)
        if isinstance(f, Fnv):
            return self.call(f.callee, args, st, e, {})
        if isinstance(f, Clo):
            return self.inline(self.p.bodies[f.d], args, st, f.frame.subst, f.frame, f.snap)
        raise Undecided("call of %r" % (f,))

    def tystr(self, i, subst):
        t = self.ty(i)
        s = t["s"]
        if subst:
            if t["k"] == "param" and t["name"] in subst:
                return subst[t["name"]]
            for k, v in subst.items():
                s = re.sub(r"\b%s\b" % re.escape(k), lambda m: v, s)
        return s

    def call(self, c, args, st, e, subst):
        from . import std
        key = c.get("rdef", c["def"])
        if c["kind"].startswith("Ctor"):
            return Adt(c["ctor_adt"], I(c["ctor_variant"]), {c["ctor_variant"]: tuple(args)})
        body = self.p.bodies.get(key)
        if body is not None:
            if body.get("impl_derived") and body["name"] in std.DERIVED:
                return std.derived(self, body, args, st, e)
            sub = {}
            gen = body.get("generics") or []
            targs = [self.tystr(t, subst) for t in c.get("rargs", c.get("args", []))]
            if gen and len(targs) >= len(gen):
                sub = dict(zip(gen, targs[-len(gen):]))
            return self.inline(body, args, st, sub)
        if "trait" in c:
            # dynamic resolution on the abstract receiver
            r = self.p.find_impl(self, c, args, subst, st)
            if r is not None:
                if r.get("impl_derived") and r["name"] in std.DERIVED:
                    return std.derived(self, r, args, st, e)
                return self.inline(r, args, st, {})
        name = std.canon(c["path"])
        rname = std.canon(c.get("rpath", c["path"]))
        f = std.TABLE.get(name) or std.TABLE.get(rname)
        if f is None and "trait" in c:
            f = std.TABLE.get(std.canon(c["trait"]).split("::")[-1] + "::" + c["method"])
        if f is None:
            self.opaque.add(name)
            raise Undecided("no model of %s" % name)
        return f(self, st, args, e, c)

    # ------------------------------------------------------------ control
    def branch(self, st, c, fa, fb):
        if isinstance(c, Phi):
            raise Undecided("phi condition")
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        if c in st.pc:
            return fa(st)
        if not_(c) in st.pc:
            return fb(st)
        pc0 = st.pc
        sa, sb = st.fork(c), st.fork(not_(c))
        va = vb = None
        try:
            va = fa(sa)
        except DeadFlow:
            pass
        try:
            vb = fb(sb)
        except DeadFlow:
            pass
        if va is None and vb is None:
            raise DeadFlow()
        if va is None:
            st.store, st.pc = sb.store, sb.pc
            return vb
        if vb is None:
            st.store, st.pc = sa.store, sa.pc
            return va
        st.store = join_store(c, sa.store, sb.store)
        n = len(pc0)
        ra, rb = sa.pc[n:], sb.pc[n:]
        if len(ra) == 1 and len(rb) == 1:
            st.pc = pc0
        else:
            o = or_(conj(ra), conj(rb))
            st.pc = pc0 + ((o,) if o is not TRUE else ())
        return join(c, va, vb)

    def lift(self, st, v, f):
        """apply f(v, st) distributing over Phi"""
        if isinstance(v, Phi):
            return self.branch(st, v.c, lambda s: self.lift(s, v.a, f), lambda s: self.lift(s, v.b, f))
        return f(v, st)

    # ------------------------------------------------------------ places
    def lookup(self, vid, fr, st):
        f = fr
        while f is not None:
            if vid in f.snap:
                return f.snap[vid]
            k = (f.id, vid)
            if k in st.store:
                return k
            f = f.parent
        raise Undecided("unbound variable")

    def read(self, key, proj, st):
        v = st.store[key]
        for p in proj:
            v = self.proj(v, p, st)
        return v

    def proj(self, v, p, st):
        if isinstance(v, Phi):
            return join(v.c, self.proj(v.a, p, st), self.proj(v.b, p, st))
        if isinstance(v, MRef):
            v = self.read(v.key, v.proj, st)
            return self.proj(v, p, st)
        if p[0] == "f":
            if isinstance(v, Tup):
                return v.v[p[2]]
            if isinstance(v, Adt):
                if p[1] not in v.pay:
                    raise Undecided("payload of unbuilt variant")
                return v.pay[p[1]][p[2]]
            raise Undecided("field of %r" % type(v).__name__)
        if p[0] == "i":
            return self.index(v, p[1])
        if p[0] == "m" and isinstance(v, MapV):
            return v.e[p[1]][1]
        if p[0] == "s" and isinstance(v, Lst) and v.g is None:
            return Lst(v.v[p[1]:p[2]])
        raise Undecided("proj")

    def index(self, v, i):
        if isinstance(v, Phi):
            return join(v.c, self.index(v.a, i), self.index(v.b, i))
        if isinstance(v, Lst):
            if isc(i):
                k = cv(i)
                if v.g is not None:
                    if not all(g is TRUE for g in v.g[:k + 1]):
                        return self.select(v, i)
                return v.v[k]
            if not v.v:
                raise Undecided("index into an empty list")
            if v.g is not None:
                return self.select(v, i)
            r = v.v[-1]
            for k in range(len(v.v) - 2, -1, -1):
                r = join(eq(i, I(k)), v.v[k], r)
            return r
        if isinstance(v, SymL):
            return v.f(i)
        raise Undecided("index of %s" % type(v).__name__)

    def select(self, v, i):
        """the i-th of the slots that are present"""
        from .std import positions
        ps = positions(v)
        r = v.v[-1]
        for p, x in reversed(list(zip(ps, v.v))[:-1]):
            c = p(i)
            if c is not FALSE:
                r = join(c, x, r)
        return r

    def listlen(self, v, st=None):
        if isinstance(v, MRef):
            v = self.read(v.key, v.proj, st)
        if isinstance(v, Lst):
            return vlen(v)
        if isinstance(v, SymL):
            return v.n
        if isinstance(v, Phi):
            return ite(v.c, self.listlen(v.a, st), self.listlen(v.b, st))
        if isinstance(v, Opq):
            raise Undecided("len of opaque")
        raise Undecided("len of %s" % type(v).__name__)

    def write(self, key, proj, val, st):
        if not proj:
            st.store[key] = val
            return
        old = st.store[key]
        st.store[key] = self.upd(old, proj, val, st)

    def upd(self, v, proj, val, st):
        if not proj:
            return val
        p = proj[0]
        if isinstance(v, Phi):
            return Phi(v.c, self.upd(v.a, proj, val, st), self.upd(v.b, proj, val, st))
        if isinstance(v, MRef):
            self.write(v.key, v.proj + tuple(proj), val, st)
            return v
        if p[0] == "f":
            if isinstance(v, Tup):
                l = list(v.v)
                l[p[2]] = self.upd(l[p[2]], proj[1:], val, st)
                return Tup(l)
            if isinstance(v, Adt):
                pay = dict(v.pay)
                l = list(pay[p[1]])
                l[p[2]] = self.upd(l[p[2]], proj[1:], val, st)
                pay[p[1]] = tuple(l)
                return Adt(v.path, v.tag, pay)
        if p[0] == "i" and isinstance(v, Lst):
            i = p[1]
            l = list(v.v)
            if isc(i):
                k = cv(i)
                if v.g is not None and not all(g is TRUE for g in v.g[:k + 1]):
                    return self.updsel(v, i, proj, val, st)
                l[k] = self.upd(l[k], proj[1:], val, st)
            else:
                if v.g is not None:
                    return self.updsel(v, i, proj, val, st)
                for k in range(len(l)):
                    l[k] = join(eq(i, I(k)), self.upd(l[k], proj[1:], val, st), l[k])
            return Lst(l, v.g)
        if p[0] == "s" and isinstance(v, Lst) and v.g is None:
            w = self.upd(Lst(v.v[p[1]:p[2]]), proj[1:], val, st)
            return Lst(v.v[:p[1]] + w.v + v.v[p[2]:])
        if p[0] == "m" and isinstance(v, MapV):
            l = list(v.e)
            l[p[1]] = (l[p[1]][0], self.upd(l[p[1]][1], proj[1:], val, st))
            return MapV(l)
        raise Undecided("update of %s" % type(v).__name__)

    def updsel(self, v, i, proj, val, st):
        from .std import positions
        l = list(v.v)
        for k, p in enumerate(positions(v)):
            c = p(i)
            if c is not FALSE:
                l[k] = join(c, self.upd(l[k], proj[1:], val, st), l[k])
        return Lst(l, v.g)

    def place(self, e, st, fr):
        """-> ('p', key, proj) or ('v', value)"""
        k = e["k"]
        if k in ("var", "upvar"):
            return ("p", self.lookup(e["id"], fr, st), ())
        if k == "deref":
            pl = self.place(e["a"], st, fr)
            v = self.getp(pl, st)
            if isinstance(v, MRef):
                return ("p", v.key, v.proj)
            if isinstance(v, Phi):
                return ("v", self.deref(v, st))
            return pl
        if k == "field":
            pl = self.place(e["a"], st, fr)
            pr = ("f", e["vi"], e["i"])
            if pl[0] == "p":
                v = self.getp(pl, st)
                if isinstance(v, MRef):
                    return ("p", v.key, v.proj + (pr,))
                return ("p", pl[1], pl[2] + (pr,))
            return ("v", self.proj(pl[1], pr, st))
        if k == "index":
            pl = self.place(e["a"], st, fr)
            i = self.ev(e["i"], st, fr)
            base = self.getp(pl, st)
            if isinstance(base, MRef):
                pl = ("p", base.key, base.proj)
                base = self.read(base.key, base.proj, st)
            self.bounds(base, i, st, e)
            if pl[0] == "p":
                return ("p", pl[1], pl[2] + (("i", i),))
            return ("v", self.index(base, i))
        if k == "call" and "callee" in e:
            m = e["callee"].get("method")
            tr = e["callee"].get("trait", "")
            if m in ("index", "index_mut", "deref", "deref_mut") and tr.startswith("std::ops::"):
                v = self.ev(e, st, fr)
                if isinstance(v, MRef):
                    return ("p", v.key, v.proj)
                return ("v", v)
        return ("v", self.ev(e, st, fr))

    def bounds(self, base, i, st, e):
        n = self.listlen(base, st)
        self.panic(st, "index out of bounds", e, not_(lt(i, n)))

    def getp(self, pl, st):
        return pl[1] if pl[0] == "v" else self.read(pl[1], pl[2], st)

    def deref(self, v, st):
        if isinstance(v, MRef):
            return self.deref_read(v, st)
        if isinstance(v, Phi):
            return join(v.c, self.deref(v.a, st), self.deref(v.b, st))
        return v

    def deref_read(self, v, st):
        return self.read(v.key, v.proj, st)

    def val(self, v, st):
        """strip mutable references"""
        while isinstance(v, MRef):
            v = self.read(v.key, v.proj, st)
        return v

    def deep(self, v, st):
        """strip mutable references everywhere (for observation)"""
        v = self.val(v, st)
        if isinstance(v, Tup):
            return Tup([self.deep(x, st) for x in v.v])
        if isinstance(v, Lst):
            return Lst([self.deep(x, st) for x in v.v], v.g)
        return v

    # ------------------------------------------------------------ patterns
    def match(self, p, v, pl, st, fr):
        """returns the condition under which p matches; binds variables"""
        k = p["p"]
        if k == "wild":
            return TRUE
        if k == "bind":
            key = (fr.id, p["var"])
            if p.get("bymut") and pl is not None:
                st.store[key] = MRef(pl[0], pl[1])
            else:
                st.store[key] = v
            if "sub" in p:
                return self.match(p["sub"], v, pl, st, fr)
            return TRUE
        if k == "deref":
            if isinstance(v, MRef):
                return self.match(p["sub"], self.read(v.key, v.proj, st), (v.key, v.proj), st, fr)
            return self.match(p["sub"], v, pl, st, fr)
        if isinstance(v, MRef):
            pl = (v.key, v.proj)
            v = self.read(v.key, v.proj, st)
        if isinstance(v, Phi):
            v = self.unphi(v)
        if k == "leaf":
            c = TRUE
            for i, s in p["subs"]:
                pr = ("f", 0, i)
                c = and_(c, self.match(s, self.proj(v, pr, st), (pl[0], pl[1] + (pr,)) if pl else None, st, fr))
            return c
        if k == "variant":
            if not isinstance(v, Adt):
                raise Undecided("variant pattern on %s" % type(v).__name__)
            c = eq(v.tag, I(p["vi"]))
            if c is FALSE or p["vi"] not in v.pay:
                if p["subs"] and c is not FALSE and p["vi"] not in v.pay:
                    return FALSE
                if p["vi"] not in v.pay:
                    return c if not p["subs"] else FALSE
                return FALSE
            for i, s in p["subs"]:
                pr = ("f", p["vi"], i)
                c = and_(c, self.match(s, v.pay[p["vi"]][i], (pl[0], pl[1] + (pr,)) if pl else None, st, fr))
            return c
        if k == "const":
            return self.pconst(p, v)
        if k == "range":
            if not isinstance(v, T):
                raise Undecided("range pattern")
            c = TRUE
            ts = self.ty(p["ty"])["s"]
            if p["lo"] != "-inf":
                c = and_(c, le(self.bits(p["lo"], ts), v))
            if p["hi"] != "inf":
                h = self.bits(p["hi"], ts)
                mx = {"usize": 2**64 - 1, "u64": 2**64 - 1, "u32": 2**32 - 1, "u8": 255, "i32": 2**31 - 1, "i64": 2**63 - 1}.get(ts)
                if not (p["incl"] and isc(h) and cv(h) == mx):
                    c = and_(c, le(v, h) if p["incl"] else lt(v, h))
            return c
        if k == "or":
            c = FALSE
            for s in p["pats"]:
                c = or_(c, self.match(s, v, pl, st, fr))
            return c
        if k == "slice":
            if isinstance(v, SymL):
                raise Undecided("slice pattern on symbolic list")
            if not isinstance(v, Lst) or v.g is not None:
                raise Undecided("slice pattern")
            n, a, b = len(v.v), p["prefix"], p["suffix"]
            if "mid" not in p and n != len(a) + len(b) or n < len(a) + len(b):
                return FALSE
            c = TRUE
            for i, s in enumerate(a):
                c = and_(c, self.match(s, v.v[i], (pl[0], pl[1] + (("i", I(i)),)) if pl else None, st, fr))
            for i, s in enumerate(b):
                j = n - len(b) + i
                c = and_(c, self.match(s, v.v[j], (pl[0], pl[1] + (("i", I(j)),)) if pl else None, st, fr))
            if "mid" in p:
                c = and_(c, self.match(p["mid"], Lst(v.v[len(a):n - len(b)]), None, st, fr))
            return c
        if k == "guard":
            c = self.match(p["sub"], v, pl, st, fr)
            return and_(c, self.ev(p["cond"], st, fr))
        raise Undecided("pattern " + k)

    def unphi(self, v):
        if isinstance(v, Phi):
            return join(v.c, self.unphi(v.a), self.unphi(v.b))
        return v

    def bits(self, b, ts):
        b = int(b)
        if ts == "f64":
            return R(struct.unpack("<d", struct.pack("<Q", b))[0])
        if ts == "f32":
            return R(struct.unpack("<f", struct.pack("<I", b))[0])
        if ts == "bool":
            return B(b)
        w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(ts)
        if w and b >= 1 << (w - 1):
            b -= 1 << w
        return I(b)

    def pconst(self, p, v):
        ts = self.ty(p["ty"])["s"]
        if "bits" in p and isinstance(v, T):
            return eq(v, self.bits(p["bits"], ts))
        if ts in ("str", "&str", "&'static str") and isinstance(v, Opq) and v.what[0] == "lit":
            m = re.match(r"Branch\(\[(.*)\]\): &?(?:'static )?str$", p.get("val", ""))
            if m:
                return B(bytes(int(x.split("_")[0]) for x in m.group(1).split(",") if x.strip()).decode() == v.what[1])
        raise Undecided("constant pattern %s" % ts)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        return getattr(self, "x_" + e["k"])(e, st, fr)

    def x_block(self, e, st, fr):
        lab = e.get("label")
        if lab is not None:
            rec = ([], [], len(st.pc))
            fr.loops[lab] = rec
            pc0 = st.pc
            outs = rec[0]
            try:
                v = self.x_block_inner(e, st, fr)
                outs.append((st.pc[rec[2]:], st.store, v))
            except DeadFlow:
                pass
            if not outs:
                raise DeadFlow()
            st.store, v = merge_outs(outs)
            st.pc = pc0
            return v
        return self.x_block_inner(e, st, fr)

    def x_block_inner(self, e, st, fr):
        for s in e["stmts"]:
            if "e" in s:
                self.ev(s["e"], st, fr)
            else:
                if "init" in s:
                    pl = self.place(s["init"], st, fr)
                    v = self.getp(pl, st)
                    c = self.match(s["let"], v, pl[1:] if pl[0] == "p" else None, st, fr)
                    if "else" in s:
                        def dead(s2, blk=s["else"]):
                            self.x_block(blk, s2, fr)
                            raise DeadFlow()
                        self.branch(st, c, lambda s2: UNIT, dead)
                    elif c is not TRUE:
                        raise Undecided("refutable let")
                else:
                    for b in self.binders(s["let"]):
                        st.store.pop((fr.id, b), None)
        if "expr" in e:
            return self.ev(e["expr"], st, fr)
        return UNIT

    def binders(self, p):
        if p["p"] == "bind":
            yield p["var"]
        for x in p.get("subs", []):
            yield from self.binders(x[1])
        if "sub" in p:
            yield from self.binders(p["sub"])

    def x_if(self, e, st, fr):
        c = self.ev(e["c"], st, fr)
        return self.branch(st, c, lambda s: self.ev(e["t"], s, fr),
                           lambda s: self.ev(e["e"], s, fr) if "e" in e else UNIT)

    def x_let(self, e, st, fr):
        pl = self.place(e["e"], st, fr)
        return self.match(e["pat"], self.getp(pl, st), pl[1:] if pl[0] == "p" else None, st, fr)

    def x_logic(self, e, st, fr):
        a = self.ev(e["l"], st, fr)
        if e["op"] == "And":
            return self.branch(st, a, lambda s: self.ev(e["r"], s, fr), lambda s: FALSE)
        return self.branch(st, a, lambda s: TRUE, lambda s: self.ev(e["r"], s, fr))

    def x_match(self, e, st, fr):
        if e["src"].startswith("ForLoop"):
            r = self.forloop(e, st, fr)
            if r is not None:
                return r
        pl = self.place(e["e"], st, fr)
        v = self.getp(pl, st)
        return self.arms(e["arms"], 0, v, pl, st, fr)

    def arms(self, arms, i, v, pl, st, fr):
        if i >= len(arms):
            raise DeadFlow()
        a = arms[i]
        c = self.match(a["pat"], v, pl[1:] if pl[0] == "p" else None, st, fr)
        if c is FALSE:
            return self.arms(arms, i + 1, v, pl, st, fr)
        if "guard" in a:
            g = self.branch(st, c, lambda s: self.ev(a["guard"], s, fr), lambda s: FALSE)
            c = g
        elif i == len(arms) - 1:
            c = TRUE
        return self.branch(st, c, lambda s: self.ev(a["body"], s, fr), lambda s: self.arms(arms, i + 1, v, pl, s, fr))

    def x_use(self, e, st, fr):
        return self.ev(e["a"], st, fr)

    x_never = x_use

    def x_coerce(self, e, st, fr):
        return self.ev(e["a"], st, fr)

    def x_deref(self, e, st, fr):
        return self.getp(self.place(e, st, fr), st)

    x_field = x_var = x_upvar = x_index = x_deref

    def x_borrow(self, e, st, fr):
        if e["mut"]:
            pl = self.place(e["a"], st, fr)
            if pl[0] == "p":
                v = self.getp(pl, st)
                if isinstance(v, MRef) and e["a"]["k"] != "var" and e["a"]["k"] != "upvar":
                    return v
                return MRef(pl[1], pl[2])
            self.nheap += 1
            k = ("tmp", self.nheap)
            st.store[k] = pl[1]
            return MRef(k)
        v = self.getp(self.place(e["a"], st, fr), st)
        return v

    def x_lit(self, e, st, fr):
        ts = self.ty(e["ty"])["s"]
        s = "-" if e["neg"] else ""
        if "f" in e:
            return R(s + e["f"].replace("_", "").rstrip("."))
        if "i" in e:
            if ts in ("f64", "f32"):
                return R(s + e["i"])
            return I(int(s + e["i"]))
        if "b" in e:
            return B(e["b"])
        return Opq(("lit", e.get("str", e.get("ch", "?"))))

    def x_bits(self, e, st, fr):
        return self.bits(e["bits"], self.ty(e["ty"])["s"])

    def x_zst(self, e, st, fr):
        t = self.ty(e["ty"])
        if t["k"] == "fndef":
            return Fnv(t["callee"])
        if t["k"] == "adt":
            return Adt(t["path"], I(0), {0: ()})
        return Opq(("zst", t["s"]))

    def x_const(self, e, st, fr):
        last = e["path"].split("::")[-1]
        if "f64::consts" in e["path"] and last in F64C:
            return F64C[last]()
        b = self.p.bodies.get(e["def"])
        if b is not None:
            f2 = Frame(b)
            return self.ev(b["body"], State({}, ()), f2)
        if "val" in e:
            return self.bits(e["val"]["bits"], e["val"]["ty"])
        raise Undecided("const %s" % e["path"])

    def x_constblock(self, e, st, fr):
        b = self.p.bodies.get(e["def"])
        if b is None:
            raise Undecided("const block")
        return self.ev(b["body"], State({}, ()), Frame(b))

    def x_static(self, e, st, fr):
        raise Undecided("static %s" % e["path"])

    def x_other(self, e, st, fr):
        raise Undecided("expr %s" % e.get("what"))

    def x_tuple(self, e, st, fr):
        return Tup([self.ev(x, st, fr) for x in e["fs"]])

    def x_array(self, e, st, fr):
        return Lst([self.ev(x, st, fr) for x in e["fs"]])

    def x_repeat(self, e, st, fr):
        v = self.ev(e["v"], st, fr)
        if "n" not in e:
            raise Undecided("repeat count")
        return Lst([v] * e["n"])

    def x_adt(self, e, st, fr):
        fs = {i: self.ev(x, st, fr) for i, x in e["fs"]}
        nf = self.p.nfields(e["adt"], e["vi"])
        if "base" in e:
            b = self.val(self.ev(e["base"], st, fr), st)
            for i in range(nf):
                if i not in fs:
                    fs[i] = self.proj(b, ("f", 0, i), st)
        if nf is None:
            nf = len(fs)
        return Adt(e["adt"], I(e["vi"]), {e["vi"]: tuple(fs[i] for i in range(nf))})

    def x_closure(self, e, st, fr):
        fr.clo = True
        roots = {}
        for cap, up in zip(e["caps"], e["upvars"]):
            roots.setdefault(cap["id"], []).append(up["k"] == "borrow")
        snap = {}
        for vid, bor in roots.items():
            if not any(bor):
                k = self.lookup(vid, fr, st)
                self.nheap += 1
                nk = ("cap", self.nheap)
                st.store[nk] = st.store[k]
                snap[vid] = nk
        return Clo(e["def"], fr, snap)

    def x_assign(self, e, st, fr):
        r = self.ev(e["r"], st, fr)
        l = e["l"]
        if l["k"] == "var" and (fr.id, l["id"]) not in st.store and self._unbound(l["id"], fr, st):
            st.store[(fr.id, l["id"])] = r      # deferred initialisation
            return UNIT
        pl = self.place(l, st, fr)
        if pl[0] != "p":
            raise Undecided("assignment to temporary")
        self.write(pl[1], pl[2], r, st)
        return UNIT

    def _unbound(self, vid, fr, st):
        try:
            self.lookup(vid, fr, st)
            return False
        except Undecided:
            return True

    def x_assignop(self, e, st, fr):
        r = self.val(self.ev(e["r"], st, fr), st)
        pl = self.place(e["l"], st, fr)
        if pl[0] != "p":
            raise Undecided("assignment to temporary")
        old = self.val(self.getp(pl, st), st)
        v = self.binop(e["op"].replace("Assign", ""), old, r, e, st, self.ty(e["l"]["ty"])["s"])
        self.write(pl[1], pl[2], v, st)
        return UNIT

    def x_bin(self, e, st, fr):
        l = self.val(self.ev(e["l"], st, fr), st)
        r = self.val(self.ev(e["r"], st, fr), st)
        return self.binop(e["op"], l, r, e, st, self.ty(e["l"]["ty"])["s"])

    def binop(self, op, l, r, e, st, ts):
        if not (isinstance(l, T) and isinstance(r, T)):
            if op in ("Eq", "Ne") and isinstance(l, Opq) and isinstance(r, Opq) and l.what[0] == r.what[0] == "bits":
                q = eq(l.what[1], r.what[1])
                return q if op == "Eq" else not_(q)
            if op in ("Eq", "Ne") and isinstance(l, Tup) and isinstance(r, Tup) and not l.v and not r.v:
                return B(op == "Eq")
            raise Undecided("operator %s on %s" % (op, type(l).__name__))
        if op == "Add":
            return add(l, r)
        if op == "Sub":
            if l.sort == "I" and ts.startswith("u"):
                self.panic(st, "unsigned subtraction underflow", e, lt(l, r))
            return sub(l, r)
        if op == "Mul":
            return mul(l, r)
        if op == "Div":
            if l.sort == "I":
                self.panic(st, "integer division by zero", e, eq(r, I(0)))
            return div(l, r)
        if op == "Rem":
            if l.sort == "I":
                self.panic(st, "integer remainder by zero", e, eq(r, I(0)))
            return rem(l, r)
        if op == "Eq":
            return eq(l, r)
        if op == "Ne":
            return not_(eq(l, r))
        if op == "Lt":
            return lt(l, r)
        if op == "Le":
            return le(l, r)
        if op == "Gt":
            return lt(r, l)
        if op == "Ge":
            return le(r, l)
        if l.sort == "B":
            if op == "BitAnd":
                return and_(l, r)
            if op == "BitOr":
                return or_(l, r)
            if op == "BitXor":
                return not_(eq(l, r))
        if l.sort == "I" and isc(l) and isc(r):
            a, b = cv(l), cv(r)
            f = {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}
            if op in f:
                return I(f[op])
            if op == "Shl":
                return I(a << b)
            if op == "Shr":
                return I(a >> b)
        if l.sort == "I" and ts.startswith("u"):
            if op in ("BitAnd", "BitOr") and isc(l):
                l, r = r, l
            if isc(r):
                k = cv(r)
                if op == "Shr" and 0 <= k < 64:
                    return div(l, I(2 ** k))
                if op == "BitAnd" and k >= 0:
                    lo = (k & -k).bit_length() - 1 if k else 0
                    if k == 0 or (k >> lo) & ((k >> lo) + 1) == 0:
                        if k == 0:
                            return I(0)
                        x = rem(l, I(k + (1 << lo)))
                        return x if lo == 0 else sub(x, rem(l, I(1 << lo)))
        if l.sort == "I" and op == "BitAnd" and isc(r) and cv(r) == 1:
            return rem(l, I(2))
        raise Undecided("operator %s" % op)

    def x_un(self, e, st, fr):
        a = self.val(self.ev(e["a"], st, fr), st)
        if not isinstance(a, T):
            raise Undecided("unary operator")
        if e["op"] == "Neg":
            return neg(a)
        if a.sort == "B":
            return not_(a)
        raise Undecided("bitwise not")

    INTR = {"i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
            "isize": (-2**63, 2**63 - 1), "u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1),
            "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "i128": (None, None), "u128": (0, None)}

    def x_cast(self, e, st, fr):
        a = self.val(self.ev(e["a"], st, fr), st)
        ts = self.ty(e["ty"])["s"]
        if isinstance(a, Adt):
            a = a.tag
        if not isinstance(a, T):
            if isinstance(a, (Fnv, Clo)):
                return a
            raise Undecided("cast to %s" % ts)
        if ts == "f32":
            return fround(tof(a))
        if ts == "f64":
            return tof(a)
        if ts in self.INTR:
            lo, hi = self.INTR[ts]
            if a.sort == "R":
                return toi(a, lo, hi)
            if a.sort == "B":
                return toi(a)
            if isc(a) and lo is not None and hi is not None:
                v = (cv(a) - lo) % (hi - lo + 1) + lo
                return I(v)
            wide = self.ty(e["a"]["ty"])["s"] in ("usize", "u64", "i64", "isize", "u128", "i128")
            if ts in ("u8", "u16") and self.ty(e["a"]["ty"])["s"] not in ("u8", "u16", "bool") or ts == "u32" and wide:
                return rem(a, I(hi + 1))
            if ts in ("i8", "i16") and self.ty(e["a"]["ty"])["s"] not in ("u8", "i8", "i16", "bool") or ts == "i32" and wide:
                r = rem(a, I(hi - lo + 1))
                return ite(le(r, I(hi)), r, sub(r, I(hi - lo + 1)))
            return a
        raise Undecided("cast to %s" % ts)

    def x_call(self, e, st, fr):
        if "callee" in e:
            c = e["callee"]
            if c.get("method") in ("call", "call_mut", "call_once") and c.get("trait", "").startswith("std::ops::Fn"):
                f = self.ev(e["args"][0], st, fr)
                a = self.ev(e["args"][1], st, fr)
                return self.call_value(self.val(f, st), list(a.v), st, e)
            args = [self.ev(a, st, fr) for a in e["args"]]
            return self.call(c, args, st, e, fr.subst)
        f = self.ev(e["fun"], st, fr)
        args = [self.ev(a, st, fr) for a in e["args"]]
        return self.call_value(self.val(f, st), args, st, e)

    # ------------------------------------------------------------ jumps & loops
    def x_return(self, e, st, fr):
        v = self.ev(e["v"], st, fr) if "v" in e else UNIT
        fr.rets.append((st.pc[fr.base:], st.store, v))
        raise DeadFlow()

    def x_break(self, e, st, fr):
        v = self.ev(e["v"], st, fr) if "v" in e else UNIT
        rec = fr.loops.get(e["label"])
        if rec is None:
            raise Undecided("break label")
        rec[0].append((st.pc[rec[2]:], st.store, v))
        raise DeadFlow()

    def x_continue(self, e, st, fr):
        rec = fr.loops.get(e["label"])
        if rec is None:
            raise Undecided("continue label")
        rec[1].append((st.pc[rec[2]:], st.store, UNIT))
        raise DeadFlow()

    def one_iter(self, rec, st, run):
        """run one iteration; merges normal + continue flows into st; returns False if dead"""
        conts = rec[1]
        del conts[:]
        base = len(st.pc)
        pc0 = st.pc
        outs = []
        try:
            run(st)
            outs.append((st.pc[base:], st.store, UNIT))
        except DeadFlow:
            pass
        outs = [(c[0][base - rec[2]:], c[1], c[2]) for c in conts] + outs
        del conts[:]
        if not outs:
            return False
        rels = [o[0] for o in outs]
        st.store, _ = merge_outs(outs)
        if len(outs) == 1:
            st.pc = pc0 + tuple(rels[0])
        else:
            o = or_(*[conj(r) for r in rels])
            st.pc = pc0 + ((o,) if o is not TRUE else ())
        return True

    def finish_loop(self, rec, st, alive, pc0):
        outs = list(rec[0])
        if alive:
            outs.append((st.pc[rec[2]:], st.store, UNIT))
        if not outs:
            raise DeadFlow()
        st.store, v = merge_outs(outs)
        st.pc = pc0
        return v

    def x_loop(self, e, st, fr):
        rec = ([], [], len(st.pc))
        fr.loops[e["label"]] = rec
        pc0 = st.pc
        st0 = State(dict(st.store), st.pc)
        npan = len(self.panics)
        n = 0
        bounded = False
        while True:
            nb = len(rec[0])
            if not self.one_iter(rec, st, lambda s: self.ev(e["body"], s, fr)):
                return self.finish_loop(rec, st, False, pc0)
            # a conditional exit in a data-dependent loop: summarise from the start
            if len(rec[0]) > nb and n == 0 and self.counted(e, st0, st, fr, pc0):
                bounded = True
            if len(rec[0]) > nb and not bounded:
                del self.panics[npan:]
                st.store, st.pc = dict(st0.store), st0.pc
                try:
                    return self.sumloop(e, st, fr, pc0)
                except Undecided:
                    del self.panics[npan:]
                    st.store, st.pc = st0.store, st0.pc
                    return self.unroll(e, st, fr, pc0)
            n += 1
            if n > MAXUNROLL:
                raise Undecided("loop unrolling bound")

    def unroll(self, e, st, fr, pc0, most=24):
        """a loop with a data-dependent exit that ends after a few rounds anyway (a list runs out, a bound is passed)"""
        from .std import impossible
        rec = ([], [], len(pc0))
        fr.loops[e["label"]] = rec
        for _ in range(most):
            if not self.one_iter(rec, st, lambda s: self.ev(e["body"], s, fr)):
                return self.finish_loop(rec, st, False, pc0)
            if any(impossible(c) for c in st.pc[len(pc0):]):
                return self.finish_loop(rec, st, False, pc0)
        raise Undecided("loop without bound")

    def counted(self, e, st0, st1, fr, pc0, most=40):
        """is there a counter with constant steps that ends this loop after a few rounds whatever the data are?"""
        for k, a in st0.store.items():
            b = st1.store.get(k)
            if not (isinstance(a, T) and isinstance(b, T) and a.sort == "I" and isc(a) and isc(b)) or a is b:
                continue
            v = var("κ", "I")
            keep = fr.loops[e["label"]]
            npan = len(self.panics)
            rec = ([], [], len(pc0))
            fr.loops[e["label"]] = rec
            try:
                self.one_iter(rec, State({**st0.store, k: v}, pc0), lambda s: self.ev(e["body"], s, fr))
                exitc = or_(*[conj(r[0]) for r in rec[0]])
                step = cv(b) - cv(a)
                if any(subst(exitc, {v: I(int(cv(a) + step * j))}) is TRUE for j in range(most)):
                    return True
            except Undecided:
                pass
            finally:
                del self.panics[npan:]
                fr.loops[e["label"]] = keep
        return False

    def sumloop(self, e, st, fr, pc0):
        """data-dependent loop -> loop(init, exit, next, out) nodes over phi variables"""
        d = self.loopdepth
        self.loopdepth += 1
        try:
            keys = []
            shapes = {}
            for _ in range(6):
                phis, phistore = [], dict(st.store)
                for j, k in enumerate(keys):
                    phistore[k] = self.phiize(st.store[k], shapes.get(k), "φ%d.%d" % (d, j), phis)
                s2 = State(phistore, pc0)
                rec = ([], [], len(pc0))
                fr.loops[e["label"]] = rec
                alive = self.one_iter(rec, s2, lambda s: self.ev(e["body"], s, fr))
                if not alive:
                    raise Undecided("loop without back edge")
                if not rec[0]:
                    raise Undecided("loop without exit")
                changed = [k for k in st.store if k not in keys and not same(s2.store.get(k), st.store[k])]
                ostore, oval = merge_outs(rec[0])
                changed += [k for k in st.store if k not in keys and k not in changed and not same(ostore.get(k), st.store[k])]
                if not changed:
                    break
                keys += changed
            else:
                raise Undecided("loop variable discovery")
            exitc = or_(*[conj(r[0]) for r in rec[0]])
            ini, nxt = [], []
            for k in keys:
                self.flat(st.store[k], ini)
                self.flat(s2.store[k], nxt)
            if not (len(ini) == len(nxt) == len(phis)):
                raise Undecided("loop-carried shape")
            for b in rec[0]:
                if b[2] is not UNIT and not (isinstance(b[2], Tup) and not b[2].v):
                    pass
            def outterm(t):
                if not any(x in ph for x in walk(t)):
                    return t
                return mk_loop(phis, ini, nxt, exitc, t)
            ph = set(phis)
            newstore = dict(ostore)
            for k in list(newstore):
                if k in st.store and (k in keys):
                    newstore[k] = self.mapleaf(newstore[k], outterm)
                elif k not in st.store:
                    try:
                        newstore[k] = self.mapleaf(newstore[k], outterm)
                    except Undecided:
                        del newstore[k]
            st.store = newstore
            st.pc = pc0
            return self.mapleaf(oval, outterm)
        finally:
            self.loopdepth -= 1

    def phiize(self, v, shape, name, out):
        if isinstance(v, T):
            p = var("%s.%d" % (name, len(out)), v.sort)
            out.append(p)
            return p
        if isinstance(v, Tup):
            return Tup([self.phiize(x, None, name, out) for x in v.v])
        if isinstance(v, Adt) and isc(v.tag):
            return Adt(v.path, v.tag, {k: tuple(self.phiize(x, None, name, out) for x in f) for k, f in v.pay.items()})
        raise Undecided("loop-carried %s" % type(v).__name__)

    def flat(self, v, out):
        if isinstance(v, T):
            out.append(v)
        elif isinstance(v, Tup):
            for x in v.v:
                self.flat(x, out)
        elif isinstance(v, Adt) and isc(v.tag):
            for k in v.pay:
                for x in v.pay[k]:
                    self.flat(x, out)
        else:
            raise Undecided("loop-carried %s" % type(v).__name__)

    def mapleaf(self, v, f):
        if isinstance(v, T):
            return f(v)
        if isinstance(v, Tup):
            return Tup([self.mapleaf(x, f) for x in v.v])
        if isinstance(v, Adt):
            return Adt(v.path, f(v.tag), {k: tuple(self.mapleaf(x, f) for x in p) for k, p in v.pay.items()})
        if isinstance(v, Lst):
            return Lst([self.mapleaf(x, f) for x in v.v], [f(g) for g in v.g] if v.g else None)
        if isinstance(v, Phi):
            return Phi(f(v.c), self.mapleaf(v.a, f), self.mapleaf(v.b, f))
        if isinstance(v, (Opq, MRef, HRef, Fnv, Clo)):
            return v
        raise Undecided("mapleaf %s" % type(v).__name__)

    def forloop(self, e, st, fr):
        from . import std
        try:
            arm = e["arms"][0]
            lp = arm["body"]
            while lp["k"] in ("use", "never") or (lp["k"] == "block" and not lp["stmts"] and "expr" in lp):
                lp = lp["a"] if "a" in lp else lp["expr"]
            blk = lp["body"]
            while blk["k"] in ("use", "never"):
                blk = blk["a"]
            m = None
            if blk["k"] == "block":
                m = blk["stmts"][0]["e"] if blk["stmts"] else blk["expr"]
            while m["k"] in ("use", "never"):
                m = m["a"]
            somearm = [a for a in m["arms"] if a["pat"].get("vname") == "Some"][0]
            pat = somearm["pat"]["subs"][0][1]
            src = e["e"]
            assert src["k"] == "call" and len(src["args"]) == 1
        except (KeyError, IndexError, AssertionError, TypeError):
            raise Undecided("for-loop shape")
        if src["callee"].get("rdef", "X").startswith("L"):
            return None       # user-defined iterator: evaluate the desugared loop
        x = self.ev(src["args"][0], st, fr)
        it = std.into_iter(self, x, st)
        if isinstance(it, SymIt):
            return self.symfor(it, pat, somearm["body"], lp["label"], st, fr)
        if it is None:
            return None
        pc0 = st.pc
        rec = ([], [], len(st.pc))
        fr.loops[lp["label"]] = rec
        alive = True
        cur = it
        first = True
        while True:
            try:
                r = std.it_step(self, cur, st)
            except DeadFlow:
                alive = False
                break
            if r is None:
                break
            g, v, cur = r

            def body(s, v=v):
                c = self.match(pat, v, None, s, fr)
                if c is not TRUE:
                    raise Undecided("refutable for pattern")
                self.ev(somearm["body"], s, fr)

            def run(s, g=g, body=body):
                if g is TRUE:
                    body(s)
                else:
                    self.branch(s, g, lambda q: (body(q), UNIT)[1], lambda q: UNIT)
            fr.loops[lp["label"]] = rec
            if not self.one_iter(rec, st, run):
                alive = False
                break
        self.finish_loop(rec, st, alive, pc0)
        return UNIT

    def symfor(self, it, pat, body, label, st, fr):
        from . import symseq
        return symseq.symfor(self, it, pat, body, label, st, fr)


def mk_loop(phis, ini, nxt, exitc, out):
    """canonical loop node: keep only the phis needed, rename them in first-use order"""
    need = []
    seen = set()
    todo = [out, exitc]
    phset = {p: i for i, p in enumerate(phis)}
    while todo:
        t = todo.pop(0)
        # deterministic left-to-right traversal
        st = [t]
        vis = set()
        while st:
            x = st.pop()
            if x in vis:
                continue
            vis.add(x)
            if x in phset and x not in seen:
                seen.add(x)
                need.append(phset[x])
                todo.append(nxt[phset[x]])
            for a in reversed(x.args):
                if isinstance(a, T):
                    st.append(a)
    depth = 0
    m = {}
    for j, i in enumerate(need):
        m[phis[i]] = var("ψ%d.%d" % (len(need), j), phis[i].sort)
    s = lambda t: subst(t, m)
    ps = tuple(m[phis[i]] for i in need)
    return mk("loop", (len(need),) + ps + tuple(ini[i] for i in need) + tuple(s(nxt[i]) for i in need) + (s(exitc), s(out)), out.sort)
