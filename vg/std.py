"""Models of the std functions the crate uses (and of the ones a refactoring is likely to reach for)."""
from .term import *
from .values import *
from . import values as V


def canon(path):
    out, d = [], 0
    for i, ch in enumerate(path):
        if ch == "<":
            d += 1
        elif ch == ">" and not (i and path[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(ch)
    segs = [s for s in "".join(out).split("::") if s]
    return "::".join(segs[-2:])


TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def lifted(f):
    """evaluate on each arm of a Phi receiver"""
    def g(ev, st, args, e, c):
        def go(v, s):
            return f(ev, s, [v] + list(args[1:]), e, c)
        a0 = args[0]
        if isinstance(a0, MRef):
            r = ev.val(a0, st)
            if not isinstance(r, Phi):
                return f(ev, st, args, e, c)
            return f(ev, st, args, e, c)
        return ev.lift(st, a0, go)
    return g


# ------------------------------------------------------------------ scalars
def num1(f):
    def g(ev, st, args, e, c):
        a = ev.val(args[0], st)
        if not isinstance(a, T):
            raise Undecided("numeric argument")
        return f(a)
    return g


def num2(f):
    def g(ev, st, args, e, c):
        a, b = ev.val(args[0], st), ev.val(args[1], st)
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Undecided("numeric argument")
        return f(a, b)
    return g


def num3(f):
    def g(ev, st, args, e, c):
        a, b, d = (ev.val(x, st) for x in args[:3])
        if not all(isinstance(x, T) for x in (a, b, d)):
            raise Undecided("numeric argument")
        return f(a, b, d)
    return g


def signum(a):
    return ite(lt(a, R(0)), R(-1), R(1)) if a.sort == "R" else ite(lt(a, I(0)), I(-1), ite(eq(a, I(0)), I(0), I(1)))


def fract(a):
    return sub(a, trunc(a))


def ceil(a):
    return neg(floor(neg(a)))


def isinf(a):
    if isc(a):
        return FALSE
    if a is INF or a is NINF:
        return TRUE
    return mk("isinf", (a,), "B")


def isnan(a):
    if isc(a) or a is INF or a is NINF:
        return FALSE
    if a is NAN:
        return TRUE
    return mk("isnan", (a,), "B")


NUM1 = {
    "sqrt": sqrt, "exp": exp, "ln": ln, "abs": abs_, "floor": floor, "round": round_, "trunc": trunc, "ceil": ceil,
    "recip": lambda a: div(R(1), a), "exp_m1": lambda a: sub(exp(a), R(1)), "ln_1p": lambda a: ln(add(R(1), a)),
    "log10": lambda a: div(ln(a), ln(R(10))), "log2": lambda a: div(ln(a), ln(R(2))), "cbrt": lambda a: pow_(a, R(Fr(1, 3))),
    "signum": signum, "fract": fract, "exp2": lambda a: pow_(R(2), a), "is_sign_negative": lambda a: lt(a, R(0)),
    "is_sign_positive": lambda a: not_(lt(a, R(0))), "is_infinite": isinf, "is_nan": isnan,
    "is_finite": lambda a: not_(or_(isinf(a), isnan(a))),
    "tanh": lambda a: sub(R(1), div(R(2), add(exp(mul(R(2), a)), R(1)))),
    "sinh": lambda a: div(sub(exp(a), exp(neg(a))), R(2)), "cosh": lambda a: div(add(exp(a), exp(neg(a))), R(2)),
    "to_radians": lambda a: mul(a, div(PI, R(180))), "to_degrees": lambda a: mul(a, div(R(180), PI)),
    "sin": lambda a: fn("sin", a), "cos": lambda a: fn("cos", a), "tan": lambda a: fn("tan", a), "atan": lambda a: fn("atan", a),
    "is_positive": lambda a: lt(I(0), a), "is_negative": lambda a: lt(a, I(0)),
}
NUM2 = {
    "powi": lambda a, n: powi(a, n), "powf": pow_, "min": min_, "max": max_, "hypot": lambda a, b: sqrt(add(powi(a, 2), powi(b, 2))),
    "midpoint": lambda a, b: div(add(a, b), R(2)), "log": lambda a, b: div(ln(a), ln(b)), "rem_euclid": lambda a, b: rem(a, b),
    "copysign": lambda a, b: mul(abs_(a), signum(b)), "abs_sub": lambda a, b: max_(sub(a, b), R(0)),
    "abs_diff": lambda a, b: abs_(sub(a, b)), "pow": lambda a, n: mk("ipow", (a, n), "I") if not (isc(a) and isc(n)) else I(cv(a) ** cv(n)),
    "isqrt": None,
}
for _t in ("f64", "f32", "num"):
    for _n, _f in NUM1.items():
        TABLE["%s::%s" % (_t, _n)] = num1(_f)
    for _n, _f in NUM2.items():
        if _f:
            TABLE["%s::%s" % (_t, _n)] = num2(_f)
    TABLE["%s::mul_add" % _t] = num3(lambda a, b, c: add(mul(a, b), c))
    TABLE["%s::clamp" % _t] = num3(lambda a, b, c: min_(max_(a, b), c))
TABLE["Ord::min"] = num2(min_)
TABLE["Ord::max"] = num2(max_)
TABLE["cmp::min"] = num2(min_)
TABLE["cmp::max"] = num2(max_)
TABLE["Ord::clamp"] = num3(lambda a, b, c: min_(max_(a, b), c))


@model("num::checked_sub")
def _(ev, st, args, e, c):
    a, b = ev.val(args[0], st), ev.val(args[1], st)
    ts = ev.ty(e["args"][0]["ty"])["s"]
    if not ts.startswith("u"):
        return some(sub(a, b))
    return opt(le(b, a), sub(a, b))


@model("num::checked_add", "num::checked_mul")
def _(ev, st, args, e, c):
    a, b = ev.val(args[0], st), ev.val(args[1], st)
    r = (add if "add" in c["path"] else mul)(a, b)
    lo, hi, ts = int_range(ev, e)
    if ts in ("usize", "u64", "u128", "i128"):
        return some(r)
    return opt(and_(le(I(lo), r), le(r, I(hi))), r)


def int_range(ev, e):
    """range and name of the integer type an inherent method is called on"""
    ts = ev.ty(e["args"][0]["ty"])["s"].lstrip("&").replace("mut ", "").strip() if e and e.get("args") else ""
    if ts not in ev.INTR:
        raise Undecided("integer type")
    return ev.INTR[ts] + (ts,)


@model("num::saturating_sub", "num::saturating_add", "num::saturating_mul", "num::wrapping_sub", "num::wrapping_add", "num::wrapping_mul")
def _(ev, st, args, e, c):
    a, b = ev.val(args[0], st), ev.val(args[1], st)
    if not (isinstance(a, T) and isinstance(b, T)):
        raise Undecided("arithmetic")
    m = c["path"].split("::")[-1]
    r = {"sub": sub, "add": add, "mul": mul}[m.split("_")[1]](a, b)
    lo, hi, ts = int_range(ev, e)
    wide = ts in ("usize", "u64", "u128", "i128")       # the upper end of a 64-bit counter is out of reach
    if m.startswith("sat"):
        r = max_(r, I(lo)) if lo is not None and (ts[0] == "u" and m.endswith("sub") or not wide) else r
        return r if wide else min_(r, I(hi))
    if wide:
        return ite(lt(r, I(0)), add(r, I(hi + 1)), r) if m.endswith("sub") and hi is not None and ts[0] == "u" else r
    if ts[0] == "u":
        return ite(lt(r, I(0)), add(r, I(hi + 1)), r) if m.endswith("sub") else rem(r, I(hi + 1))
    k = hi - lo + 1
    if m.endswith("mul"):
        raise Undecided("wrapping multiplication")
    return ite(lt(I(hi), r), sub(r, I(k)), ite(lt(r, I(lo)), add(r, I(k)), r))


@model("f64::total_cmp", "PartialOrd::partial_cmp", "Ord::cmp")
def _cmp(ev, st, args, e, c):
    o = vcmp(ev, st, args[0], args[1])
    return some(o) if "partial_cmp" in c["path"] else o


def ordering(a, b):
    return Adt(ORDERING, ite(lt(a, b), I(0), ite(eq(a, b), I(1), I(2))), {0: (), 1: (), 2: ()})


def handwritten(ev, v, *methods):
    """body of a hand-written comparison of a type of the crate (derived ones are structural)"""
    if not isinstance(v, Adt) or v.path not in ev.p.adts:
        return None, None
    for tr, m in methods:
        b = ev.p.trait_method(tr, v.path, m)
        if b is not None and not b.get("impl_derived") and not any(f.body is b for f in ev.stack):
            return b, m
    return None, None


def vcmp(ev, st, a, b):
    a, b = ev.unphi(ev.val(a, st)), ev.unphi(ev.val(b, st))
    h, m = handwritten(ev, a, ("std::cmp::Ord", "cmp"), ("std::cmp::PartialOrd", "partial_cmp"))
    if h is not None:
        r = ev.unphi(ev.val(ev.inline(h, [a, b], st, {}), st))
        return r if m == "cmp" else ev.unphi(ev.val(r.pay[1][0], st))
    if isinstance(a, T) and isinstance(b, T):
        return ordering(a, b)
    if isinstance(a, Tup):
        xs = list(zip(a.v, b.v))
    elif isinstance(a, Adt) and isinstance(b, Adt):
        if isc(a.tag) and isc(b.tag) and a.tag is b.tag:
            xs = list(zip(a.pay[cv(a.tag)], b.pay[cv(b.tag)]))
        elif all(not p for p in a.pay.values()) and all(not p for p in b.pay.values()):
            return ordering(a.tag, b.tag)
        else:
            raise Undecided("ordering of enum")
    else:
        raise Undecided("comparison of %s" % type(a).__name__)
    r = Adt(ORDERING, I(1), {0: (), 1: (), 2: ()})
    for x, y in reversed(xs):
        o = vcmp(ev, st, x, y)
        r = Adt(ORDERING, ite(eq(o.tag, I(1)), r.tag, o.tag), r.pay)
    return r


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(ev, st, args, e, c):
    a = ev.unphi(ev.val(args[0], st))
    h, _ = handwritten(ev, a, ("std::cmp::PartialOrd", "partial_cmp"))
    if h is not None:
        r = ev.unphi(ev.val(ev.inline(h, [a, ev.unphi(ev.val(args[1], st))], st, {}), st))
        if not isc(r.tag) or cv(r.tag) != 1:
            raise Undecided("partial order")
        t = ev.unphi(ev.val(r.pay[1][0], st)).tag
    else:
        t = vcmp(ev, st, args[0], args[1]).tag
    m = c["method"]
    return {"lt": eq(t, I(0)), "le": not_(eq(t, I(2))), "gt": eq(t, I(2)), "ge": not_(eq(t, I(0)))}[m]


@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def _(ev, st, args, e, c):
    t = ev.val(args[0], st).tag
    m = c["path"].split("::")[-1]
    return {"is_lt": eq(t, I(0)), "is_le": not_(eq(t, I(2))), "is_gt": eq(t, I(2)), "is_ge": not_(eq(t, I(0))),
            "is_eq": eq(t, I(1)), "is_ne": not_(eq(t, I(1)))}[m]


@model("Ordering::reverse")
def _(ev, st, args, e, c):
    o = ev.val(args[0], st)
    return Adt(ORDERING, sub(I(2), o.tag), {0: (), 1: (), 2: ()})


def veq(ev, st, a, b):
    a, b = ev.unphi(ev.val(a, st)), ev.unphi(ev.val(b, st))
    if isinstance(a, T) and isinstance(b, T):
        return eq(a, b)
    h, _ = handwritten(ev, a, ("std::cmp::PartialEq", "eq"))
    if h is not None:
        return ev.val(ev.inline(h, [a, b], st, {}), st)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return and_(*[veq(ev, st, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path:
        c = eq(a.tag, b.tag)
        for k in set(a.pay) & set(b.pay):
            if a.pay[k]:
                q = and_(*[veq(ev, st, x, y) for x, y in zip(a.pay[k], b.pay[k])])
                c = and_(c, or_(not_(eq(a.tag, I(k))), q))
        return c
    if isinstance(a, Lst) and isinstance(b, Lst) and a.g is None and b.g is None:
        if len(a.v) != len(b.v):
            return FALSE
        return and_(*[veq(ev, st, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Opq) and isinstance(b, Opq) and a.what[0] == "lit" and b.what[0] == "lit":
        return B(a.what == b.what)
    if isinstance(a, Opq) and isinstance(b, Opq) and a.what[0] == "bits" and b.what[0] == "bits":
        return eq(a.what[1], b.what[1])
    if isinstance(a, HRef) and isinstance(b, HRef):
        return veq(ev, st, st.store[a.key], st.store[b.key])
    raise Undecided("equality of %s" % type(a).__name__)


@model("PartialEq::eq")
def _(ev, st, args, e, c):
    return veq(ev, st, args[0], args[1])


@model("PartialEq::ne")
def _(ev, st, args, e, c):
    return not_(veq(ev, st, args[0], args[1]))


def deepclone(ev, v, st):
    v = ev.val(v, st)
    if isinstance(v, Tup):
        return Tup([deepclone(ev, x, st) for x in v.v])
    if isinstance(v, Lst):
        return Lst([deepclone(ev, x, st) for x in v.v], v.g)
    return v


@model("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Iterator::by_ref", "Box::new", "Rc::new", "Arc::new", "Borrow::borrow",
       "slice::into_vec", "Vec::as_slice", "Vec::into_boxed_slice", "hint::black_box", "boxed::box_assume_init_into_vec_unsafe", "AsRef::as_ref",
       "Rc::as_ref", "array::as_slice", "slice::as_ref", "Vec::as_ref", "Cow::into_owned", "convert::identity", "Box::pin", "intrinsics::write_box_via_move_")
def _ident(ev, st, args, e, c):
    nm = canon(c["path"])
    if nm == "Iterator::by_ref":
        return args[0]
    if nm in ("Clone::clone", "ToOwned::to_owned", "slice::to_vec"):
        return deepclone(ev, args[0], st)
    return ev.val(args[0], st) if nm != "Box::new" and nm != "Rc::new" else args[0]


@model("Box::new_uninit")
def _(ev, st, args, e, c):
    return Opq(("uninit",))


@model("intrinsics::write_box_via_move")
def _(ev, st, args, e, c):
    return args[1]


@model("From::from", "Into::into", "TryFrom::try_from", "TryInto::try_into")
def _from(ev, st, args, e, c):
    a = ev.val(args[0], st)
    ts = ev.ty(e["ty"])["s"] if e else ""
    src = ev.ty(e["args"][0]["ty"])["s"] if e and e.get("args") else None
    m = c.get("method")
    if m in ("from", "into") and len(c.get("args", ())) >= 2:
        fr = ev.stack[-1] if ev.stack else None
        x, y = (ev.tystr(t, fr.subst if fr else None) for t in c["args"][:2])
        ts, src = (x, y) if m == "from" else (y, x)
    r = into_local(ev, st, a, ts, src)
    if r is not None:
        return r
    if m in ("try_from", "try_into") and isinstance(a, T) and a.sort == "I":
        t = ev.ty(e["ty"])
        if t.get("path") == RESULT:
            g = ts[ts.index("<") + 1:].split(",")[0]
            if g in ev.INTR:
                lo, hi = ev.INTR[g]
                fit = and_(le(I(lo), a) if lo is not None else TRUE, le(a, I(hi)) if hi is not None else TRUE)
                return Adt(RESULT, ite(fit, I(0), I(1)), {0: (a,), 1: (Opq(("TryFromIntError",)),)})
    if isinstance(a, T):
        if ts in ("f64", "f32"):
            return tof(a)
        if ts in ev.INTR:
            return toi(a) if a.sort != "I" else a
    if isinstance(a, Lst) and ("Vec<" in ts or "Box<" in ts):
        return a
    if ("HashMap" in ts or "BTreeMap" in ts) and isinstance(a, Lst):
        return MapV([(x.v[0], x.v[1]) for x in a.v])
    if src == ts:
        return a
    raise Undecided("conversion into %s" % ts)


def into_local(ev, st, a, ts, src=None):
    """blanket Into<U> for T where U: From<T>; or the crate's own Into"""
    for tr, m in (("std::convert::From", "from"), ("std::convert::Into", "into")):
        for im, key in ev.p.byitem.get((tr, m), []):
            b = ev.p.bodies.get(key)
            if b is None:
                continue
            me = ev.p.types[im["self"]]
            pt = ev.p.types[[p for p in b["params"] if "pat" in p][0]["ty"]]
            if m == "into":
                r = ev.p.types[im["args"][1]] if len(im.get("args", ())) > 1 else {"s": ""}
                if r["s"] != ts or me["s"] != src:
                    continue
            else:
                if not (me["s"] == ts or me.get("path") and me["path"] == ts.split("<")[0]):
                    continue
                if not (pt["s"] == src or isinstance(a, Adt) and pt.get("path") == a.path):
                    continue
            if any(f.body is b for f in ev.stack):
                continue
            return ev.inline(b, [a], st, {})
    return None


for _op, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
    def _f(ev, st, args, e, c, _op=_op):
        a, b = ev.val(args[0], st), ev.val(args[1], st)
        ts = "i64"
        if e and e.get("args"):
            ts = ev.ty(e["args"][0]["ty"])["s"].lstrip("&")
        return ev.binop(_op, a, b, e, st, ts)
    TABLE["%s::%s" % (_op, _m)] = _f

    def _g(ev, st, args, e, c, _op=_op):
        a, b = ev.val(args[0], st), ev.val(args[1], st)
        r = ev.binop(_op, a, b, e, st, "i64")
        ev.write(args[0].key, args[0].proj, r, st)
        return UNIT
    TABLE["%sAssign::%s_assign" % (_op, _m)] = _g


@model("Neg::neg")
def _(ev, st, args, e, c):
    return neg(ev.val(args[0], st))


@model("Not::not")
def _(ev, st, args, e, c):
    return not_(ev.val(args[0], st))


# ------------------------------------------------------------------ defaults & derives
def default_of(ev, ti, st, subst=None):
    t = ev.ty(ti)
    s = t["s"]
    if s in ("f64", "f32"):
        return R(0)
    if s in ev.INTR:
        return I(0)
    if s == "bool":
        return FALSE
    if t["k"] == "tuple":
        return Tup([default_of(ev, x, st) for x in t["ts"]])
    if t["k"] == "adt":
        p = t["path"]
        if p.endswith("vec::Vec"):
            return Lst([])
        if p.endswith("option::Option"):
            return NONE
        if p.endswith("HashMap") or p.endswith("BTreeMap"):
            return MapV([])
        b = ev.p.trait_method("std::default::Default", p, "default")
        if b is not None:
            if b.get("impl_derived"):
                return Adt(p, I(0), {0: tuple(default_of(ev, f["ty"], st) for f in ev.p.adts[p]["variants"][0]["fields"])})
            return ev.inline(b, [], st, {})
    raise Undecided("default of %s" % s)


@model("Default::default")
def _(ev, st, args, e, c):
    return default_of(ev, e["ty"], st)


DERIVED = ("clone", "eq", "ne", "partial_cmp", "cmp", "default", "fmt", "hash", "assert_fields_are_eq", "assert_receiver_is_total_eq")


def derived(ev, body, args, st, e):
    m = body["name"]
    if m == "clone":
        return deepclone(ev, args[0], st)
    if m == "eq":
        return veq(ev, st, args[0], args[1])
    if m == "ne":
        return not_(veq(ev, st, args[0], args[1]))
    if m == "partial_cmp":
        return some(vcmp(ev, st, args[0], args[1]))
    if m == "cmp":
        return vcmp(ev, st, args[0], args[1])
    if m == "default":
        return ev.inline(body, args, st, {})
    raise Undecided("derived %s" % m)


# ------------------------------------------------------------------ lazily evaluated iterators
class Node:
    def step(self, ev, st):
        """None at the end, else (guard, value, rest)"""
        raise NotImplementedError


class Src(Node):
    def __init__(self, items):
        self.items = items

    def step(self, ev, st):
        if not self.items:
            return None
        return self.items[0][0], self.items[0][1], Src(self.items[1:])


class Un(Node):
    def __init__(self, kind, inner, *a):
        self.kind, self.inner, self.a = kind, inner, a

    def step(self, ev, st):
        k = self.kind
        if k == "flat":
            cur = self.a[1]
            while True:
                if cur is not None:
                    r = cur.step(ev, st)
                    if r is not None:
                        return and_(self.a[2], r[0]), r[1], Un("flat", self.inner, self.a[0], r[2], self.a[2])
                r = self.inner.step(ev, st)
                if r is None:
                    return None
                x = r[1]
                if self.a[0] is not None:
                    x = guarded_call(ev, st, r[0], self.a[0], [x])
                nx = node(ev, x, st)
                self = Un("flat", r[2], self.a[0], nx, r[0])
                cur = nx
        if k == "take":
            n = self.a[0]
            if isc(n) and len(self.a) == 1:
                if cv(n) == 0:
                    return None
                r = self.inner.step(ev, st)
                if r is None:
                    return None
                if r[0] is TRUE:
                    return r[0], r[1], Un("take", r[2], sub(n, I(1)))
                return r[0], r[1], Un("take", r[2], n, ite(r[0], I(1), I(0)))
            r = self.inner.step(ev, st)
            if r is None:
                return None
            i = self.a[1] if len(self.a) > 1 else I(0)
            return and_(r[0], lt(i, n)), r[1], Un("take", r[2], n, add(i, ite(r[0], I(1), I(0))))
        if k == "skip":
            n = self.a[0]
            if not isc(n) or len(self.a) > 1:
                i = self.a[1] if len(self.a) > 1 else I(0)
                r = self.inner.step(ev, st)
                if r is None:
                    return None
                return and_(r[0], le(n, i)), r[1], Un("skip", r[2], n, add(i, ite(r[0], I(1), I(0))))
            inner = self.inner
            for j in range(cv(n)):
                r = inner.step(ev, st)
                if r is None:
                    return None
                if r[0] is not TRUE:
                    return FALSE, r[1], Un("skip", r[2], n, add(I(j), ite(r[0], I(1), I(0))))
                inner = r[2]
            return inner.step(ev, st)
        r = self.inner.step(ev, st)
        if r is None:
            return None
        g, v, rest = r
        if k == "map":
            return g, guarded_call(ev, st, g, self.a[0], [v]), Un("map", rest, *self.a)
        if k == "inspect":
            guarded_call(ev, st, g, self.a[0], [v])
            return g, v, Un("inspect", rest, *self.a)
        if k == "deref":
            return g, deepclone(ev, v, st), Un("deref", rest)
        if k == "filter":
            c = guarded_call(ev, st, g, self.a[0], [v])
            return and_(g, c), v, Un("filter", rest, *self.a)
        if k == "filter_map":
            o = ev.unphi(guarded_call(ev, st, g, self.a[0], [v]))
            return and_(g, eq(o.tag, I(1))), (o.pay[1][0] if 1 in o.pay else UNIT), Un("filter_map", rest, *self.a)
        if k == "take_while":
            live = self.a[1] if len(self.a) > 1 else TRUE
            c = guarded_call(ev, st, and_(g, live), self.a[0], [v])
            live2 = and_(live, or_(not_(g), c))
            return and_(g, live2), v, Un("take_while", rest, self.a[0], live2)
        if k == "skip_while":
            sk = self.a[1] if len(self.a) > 1 else TRUE
            c = guarded_call(ev, st, and_(g, sk), self.a[0], [v])
            sk2 = and_(sk, or_(not_(g), c))
            return and_(g, not_(sk2)), v, Un("skip_while", rest, self.a[0], sk2)
        if k == "enumerate":
            i = self.a[0]
            return g, Tup([i, v]), Un("enumerate", rest, add(i, ite(g, I(1), I(0))))
        if k == "step_by":
            n, i = self.a
            while i > 0:
                i -= 1
                r = rest.step(ev, st) if False else None
            inner2 = rest
            for _ in range(n - 1):
                r2 = inner2.step(ev, st)
                if r2 is None:
                    inner2 = Src(())
                    break
                inner2 = r2[2]
            if g is not TRUE:
                raise Undecided("step_by of guarded iterator")
            return g, v, Un("step_by", inner2, n, 0)
        if k == "scan":
            key = self.a[1]
            o = ev.unphi(guarded_call(ev, st, g, self.a[0], [MRef(key), v]))
            if not (isc(o.tag) and cv(o.tag) == 1):
                raise Undecided("scan exit")
            return g, o.pay[1][0], Un("scan", rest, *self.a)
        raise Undecided("iterator " + k)


class Zip(Node):
    def __init__(self, a, b):
        self.x, self.y = a, b

    def step(self, ev, st):
        r = self.x.step(ev, st)
        if r is None:
            return None
        q = self.y.step(ev, st)
        if q is None:
            return None
        if r[0] is not q[0] and not (q[0] is TRUE and isinstance(self.y, Inf)):
            raise Undecided("zip of guarded iterators")
        if r[0] is not TRUE and r[0] is not q[0]:
            raise Undecided("zip of guarded iterators")
        return r[0], Tup([r[1], q[1]]), Zip(r[2], q[2])


class Chain(Node):
    def __init__(self, a, b):
        self.x, self.y = a, b

    def step(self, ev, st):
        r = self.x.step(ev, st)
        if r is None:
            return self.y.step(ev, st)
        return r[0], r[1], Chain(r[2], self.y)


class Inf(Node):
    def __init__(self, f):
        self.f = f

    def step(self, ev, st):
        return self.f(ev, st)


def repeat_node(v):
    return Inf(lambda ev, st: (TRUE, v, repeat_node(v)))


def count_node(i):
    return Inf(lambda ev, st: (TRUE, i, count_node(add(i, I(1)))))


class PhiN(Node):
    """joined iterators (c ? a : b)"""
    def __init__(self, c, a, b):
        self.c, self.x, self.y = c, a, b

    def step(self, ev, st):
        r, q = self.x.step(ev, st), self.y.step(ev, st)
        if r is None and q is None:
            return None
        if r is None:
            return and_(not_(self.c), q[0]), q[1], PhiN(self.c, Src(()), q[2])
        if q is None:
            return and_(self.c, r[0]), r[1], PhiN(self.c, r[2], Src(()))
        return ite(self.c, r[0], q[0]), join(self.c, r[1], q[1]), PhiN(self.c, r[2], q[2])


def guarded_call(ev, st, g, f, args):
    if g is TRUE:
        return ev.call_value(f, args, st, None)
    if g is FALSE:
        return TRUE
    s2 = st.fork(g)
    keep = dict(s2.store)
    v = ev.call_value(f, args, s2, None)
    from .ev import join_store
    st.store = join_store(g, s2.store, keep)
    return v


def map_order(ev, st, m):
    """iteration order: by key (any order is a behaviour of a hash map)"""
    def key(v):
        v = ev.val(v, st)
        if isinstance(v, T) and isc(v):
            return (cv(v),)
        if isinstance(v, Tup):
            return sum((key(x) for x in v.v), ())
        raise Undecided("iteration over a map with symbolic keys")
    n = range(len(m.e))
    return n if len(m.e) < 2 else sorted(n, key=lambda i: key(m.e[i][0]))


def node(ev, x, st):
    """value -> iterator node (or SymIt)"""
    if isinstance(x, (Node, SymIt)):
        return x
    if isinstance(x, MRef):
        v = ev.read(x.key, x.proj, st)
        if isinstance(v, MRef):
            return node(ev, v, st)
        if isinstance(v, Lst):
            return Src(tuple((v.guard(i), MRef(x.key, x.proj + (("i", I(i)),))) for i in range(len(v.v))))
        if isinstance(v, (Node, SymIt)):
            return v
        if isinstance(v, SymL):
            raise Undecided("mutable iteration over a symbolic list")
        if isinstance(v, Adt) and v.path == OPTION:
            return Src(((eq(v.tag, I(1)), MRef(x.key, x.proj + (("f", 1, 0),))),))
        if isinstance(v, MapV):
            return Src(tuple((TRUE, Tup([v.e[i][0], MRef(x.key, x.proj + (("m", i),))])) for i in map_order(ev, st, v)))
        x = v
    if isinstance(x, Phi):
        a, b = node(ev, x.a, st), node(ev, x.b, st)
        if isinstance(a, SymIt) or isinstance(b, SymIt):
            raise Undecided("joined symbolic iterators")
        return PhiN(x.c, a, b)
    if isinstance(x, Lst):
        return Src(tuple((x.guard(i), x.v[i]) for i in range(len(x.v))))
    if isinstance(x, SymL):
        return SymIt(x.n, lambda i, s: x.f(i))
    if isinstance(x, MapV):
        return Src(tuple((TRUE, Tup([x.e[i][0], x.e[i][1]])) for i in map_order(ev, st, x)))
    if isinstance(x, Adt):
        nm = x.path.split("::")[-1]
        if nm == "Cow" and isc(x.tag):
            return node(ev, x.pay[cv(x.tag)][0], st)
        if x.path == OPTION:
            return Src(((eq(x.tag, I(1)), x.pay[1][0]),)) if 1 in x.pay else Src(())
        if nm in ("Range", "RangeInclusive"):
            lo, hi = x.pay[0][0], x.pay[0][1]
            if nm == "RangeInclusive":
                hi = add(hi, I(1))
            if isc(lo) and isc(hi):
                return Src(tuple((TRUE, I(k)) for k in range(cv(lo), cv(hi))))
            if lo.sort == "I" and isc(lo) and cv(lo) <= 3:
                b = upper(hi)
                if b is not None and b <= 64:
                    return Src(tuple((lt(I(k), hi), I(k)) for k in range(cv(lo), b)))
            n = max_(sub(hi, lo), I(0)) if not (isc(lo) and cv(lo) == 0 and nonneg_int(hi)) else hi
            return SymIt(n, lambda i, s: add(lo, i))
        if nm == "RangeFrom":
            return count_node(x.pay[0][0])
        # user-defined iterator
        b = None
        for im, key in ev.p.byitem.get(("std::iter::Iterator", "next"), []):
            if ev.p.types[im["self"]].get("path") == x.path:
                b = ev.p.bodies[key]
        if b is not None:
            ev.nheap += 1
            k = ("it", ev.nheap)
            st.store[k] = x
            return user_node(b, k)
        b = None
        for im, key in ev.p.byitem.get(("std::iter::IntoIterator", "into_iter"), []):
            if ev.p.types[im["self"]].get("path") == x.path:
                return node(ev, ev.inline(ev.p.bodies[key], [x], st, {}), st)
    raise Undecided("iteration over %s" % type(x).__name__)


def user_node(b, k):
    def f(ev, st):
        o = ev.unphi(ev.inline(b, [MRef(k)], st, {}))
        if isc(o.tag):
            return (TRUE, o.pay[1][0], user_node(b, k)) if cv(o.tag) == 1 else None
        raise Undecided("data-dependent iterator end")
    return Inf(f)


def upper(t):
    """small syntactic upper bound of an integer term built from guarded counts"""
    if isc(t):
        return cv(t)
    if t.op == "ite":
        a, b = upper(t.args[1]), upper(t.args[2])
        return None if a is None or b is None else max(a, b)
    if t.op == "add":
        a, b = upper(t.args[0]), upper(t.args[1])
        return None if a is None or b is None else a + b
    if t.op == "min":
        xs = [y for y in map(upper, t.args) if y is not None]
        return min(xs) if xs else None
    return None


def lower(t):
    if isc(t):
        return cv(t)
    if t.op == "ite":
        a, b = lower(t.args[1]), lower(t.args[2])
        return None if a is None or b is None else min(a, b)
    if t.op == "add":
        a, b = lower(t.args[0]), lower(t.args[1])
        return None if a is None or b is None else a + b
    if t.op == "max":
        xs = [y for y in map(lower, t.args) if y is not None]
        return max(xs) if xs else None
    return None


def impossible(c):
    """an integer comparison that its bounds contradict"""
    if c is FALSE:
        return True
    if c.op == "not" and c.args[0].op in ("lt", "le"):
        x = c.args[0]
        c, a, b = ("lt" if x.op == "le" else "le"), x.args[1], x.args[0]
    elif c.op in ("lt", "le"):
        c, a, b = c.op, c.args[0], c.args[1]
    elif c.op == "and":
        return any(impossible(x) for x in c.args)
    else:
        return False
    if a.sort != "I":
        return False
    l, u = lower(a), upper(b)
    return l is not None and u is not None and (l > u if c == "le" else l >= u)


def into_iter(ev, x, st):
    return node(ev, x, st)


def it_step(ev, it, st):
    r = it.step(ev, st)
    while r is not None and r[0] is FALSE:
        r = r[2].step(ev, st)
    return r


def drain(ev, it, st, limit=500):
    out = []
    while True:
        r = it_step(ev, it, st)
        if r is None:
            return out
        out.append((r[0], r[1]))
        it = r[2]
        if len(out) > limit:
            raise Undecided("unbounded iterator")


def as_node(ev, a, st):
    return node(ev, a, st)


@model("IntoIterator::into_iter", "slice::iter", "slice::iter_mut", "Vec::iter", "Option::iter", "Option::iter_mut", "HashMap::iter", "HashMap::iter_mut",
       "Vec::into_iter", "array::iter", "Iterator::fuse", "HashMap::into_iter", "BTreeMap::iter")
def _(ev, st, args, e, c):
    a = args[0]
    if canon(c["path"]).endswith("::iter") and isinstance(a, MRef):
        a = ev.val(a, st)
    return node(ev, a, st)


@model("Vec::drain")
def _(ev, st, args, e, c):
    v = ev.val(args[0], st)
    r = ev.val(args[1], st)
    lo, hi = slice_bounds(ev, st, v, r, e)
    if not (isinstance(v, Lst) and v.g is None and isc(lo) and isc(hi)):
        raise Undecided("drain")
    ev.write(args[0].key, args[0].proj, Lst(v.v[:cv(lo)] + v.v[cv(hi):]), st)
    return Src(tuple((TRUE, x) for x in v.v[cv(lo):cv(hi)]))


@model("Iterator::next")
def _(ev, st, args, e, c):
    a = args[0]
    if not isinstance(a, MRef):
        raise Undecided("next on temporary")
    cur = ev.read(a.key, a.proj, st)
    while isinstance(cur, MRef):
        a = cur
        cur = ev.read(a.key, a.proj, st)
    it = node(ev, cur, st)
    if isinstance(it, SymIt):
        raise Undecided("next on symbolic iterator")
    r = it_step(ev, it, st)
    if r is None:
        ev.write(a.key, a.proj, Src(()), st)
        return NONE
    if r[0] is not TRUE:
        raise Undecided("next on guarded iterator")
    ev.write(a.key, a.proj, r[2], st)
    return some(r[1])


@model("DoubleEndedIterator::next_back")
def _(ev, st, args, e, c):
    a = args[0]
    it = node(ev, ev.read(a.key, a.proj, st), st)
    xs = drain(ev, it, st)
    if not xs:
        return NONE
    if xs[-1][0] is not TRUE:
        raise Undecided("next_back on guarded iterator")
    ev.write(a.key, a.proj, Src(tuple(xs[:-1])), st)
    return some(xs[-1][1])


def adaptor(kind):
    def f(ev, st, args, e, c):
        it = node(ev, args[0], st)
        if isinstance(it, SymIt):
            from . import symseq
            return symseq.adapt(ev, st, kind, it, args[1:])
        return Un(kind, it, *[a for a in args[1:]])
    return f


for _k in ("map", "filter", "filter_map", "inspect", "take_while", "skip_while"):
    TABLE["Iterator::" + _k] = adaptor(_k)


@model("Iterator::map_while")
def _(ev, st, args, e, c):
    raise Undecided("map_while")


@model("Iterator::take", "Iterator::skip")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        from . import symseq
        return symseq.adapt(ev, st, c["method"], it, args[1:])
    return Un(c["method"], it, ev.val(args[1], st))


@model("Iterator::enumerate")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        from . import symseq
        return symseq.adapt(ev, st, "enumerate", it, [])
    return Un("enumerate", it, I(0))


@model("Iterator::copied", "Iterator::cloned")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    return it if isinstance(it, SymIt) else Un("deref", it)


@model("Iterator::step_by")
def _(ev, st, args, e, c):
    it, n = node(ev, args[0], st), ev.val(args[1], st)
    if isinstance(it, SymIt) or not isc(n) or cv(n) < 1:
        raise Undecided("step_by")
    return Un("step_by", it, cv(n), 0)


@model("Iterator::scan")
def _(ev, st, args, e, c):
    ev.nheap += 1
    k = ("scan", ev.nheap)
    st.store[k] = ev.val(args[1], st)
    return Un("scan", node(ev, args[0], st), args[2], k)


@model("Iterator::flat_map")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        from . import symseq
        return symseq.adapt(ev, st, "flat_map", it, args[1:])
    return Un("flat", it, args[1], None, TRUE)


@model("Iterator::flatten")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        raise Undecided("flatten of symbolic iterator")
    return Un("flat", it, None, None, TRUE)


@model("Iterator::zip", "iter::zip")
def _(ev, st, args, e, c):
    a, b = node(ev, args[0], st), node(ev, args[1], st)
    if isinstance(a, SymIt) or isinstance(b, SymIt):
        from . import symseq
        return symseq.zip_(ev, st, a, b)
    return Zip(a, b)


@model("Iterator::chain")
def _(ev, st, args, e, c):
    a, b = node(ev, args[0], st), node(ev, args[1], st)
    if isinstance(a, SymIt) or isinstance(b, SymIt):
        raise Undecided("chain of symbolic iterator")
    return Chain(a, b)


@model("Iterator::rev")
def _(ev, st, args, e, c):
    a = node(ev, args[0], st)
    if isinstance(a, SymIt):
        from . import symseq
        return symseq.adapt(ev, st, "rev", a, [])
    return Src(tuple(reversed(drain(ev, a, st))))


@model("Iterator::cycle")
def _(ev, st, args, e, c):
    raise Undecided("cycle")


@model("Iterator::peekable")
def _(ev, st, args, e, c):
    return node(ev, args[0], st)


@model("Peekable::peek", "Peekable::next_if")
def _(ev, st, args, e, c):
    a, cur = recv(ev, st, args[0])
    it = node(ev, cur, st)
    if isinstance(it, SymIt):
        raise Undecided("peek on symbolic iterator")
    r = it_step(ev, it, st)
    if r is None:
        ev.write(a.key, a.proj, Src(()), st)
        return NONE
    if r[0] is not TRUE:
        raise Undecided("peek on guarded iterator")
    back = Chain(Src(((TRUE, r[1]),)), r[2])
    if c["path"].endswith("next_if"):
        q = ev.call_value(args[1], [r[1]], st, None)
        if q is not TRUE and q is not FALSE:
            raise Undecided("next_if")
        ev.write(a.key, a.proj, r[2] if q is TRUE else back, st)
        return some(r[1]) if q is TRUE else NONE
    ev.write(a.key, a.proj, back, st)
    return some(r[1])


@model("iter::successors")
def _(ev, st, args, e, c):
    def mkn(o):
        def f(ev, st):
            x = ev.unphi(ev.val(o, st))
            if not isc(x.tag):
                raise Undecided("end of successors")
            if cv(x.tag) != 1:
                return None
            v = x.pay[1][0]
            return TRUE, v, mkn(ev.call_value(args[1], [v], st, None))
        return Inf(f)
    return mkn(args[0])


@model("BTreeMap::values", "HashMap::values", "BTreeMap::keys", "HashMap::keys", "BTreeMap::into_values", "HashMap::into_values")
def _(ev, st, args, e, c):
    m = ev.val(args[0], st)
    if not isinstance(m, MapV):
        raise Undecided("map values")
    k = 0 if c["path"].endswith("keys") else 1
    return Src(tuple((TRUE, m.e[i][k]) for i in map_order(ev, st, m)))


@model("slice::chunks_mut", "slice::chunks_exact_mut")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    n = ev.val(args[1], st)
    if not isinstance(v, Lst) or v.g is not None or not isc(n) or cv(n) < 1:
        raise Undecided("chunks_mut")
    n = cv(n)
    xs = [(i, min(i + n, len(v.v))) for i in range(0, len(v.v), n)]
    return Src(tuple((TRUE, MRef(a.key, a.proj + (("s", i, j),))) for i, j in xs if j - i == n or "exact" not in c["path"]))


@model("slice::split_at_mut")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    n = ev.val(args[1], st)
    if not isinstance(v, Lst) or v.g is not None or not isc(n):
        raise Undecided("split_at_mut")
    ev.panic(st, "split_at out of bounds", e, B(cv(n) > len(v.v)))
    return Tup([MRef(a.key, a.proj + (("s", 0, cv(n)),)), MRef(a.key, a.proj + (("s", cv(n), len(v.v)),))])


@model("iter::once")
def _(ev, st, args, e, c):
    return Src(((TRUE, args[0]),))


@model("iter::empty")
def _(ev, st, args, e, c):
    return Src(())


@model("iter::repeat")
def _(ev, st, args, e, c):
    return repeat_node(args[0])


@model("iter::repeat_n")
def _(ev, st, args, e, c):
    n = ev.val(args[1], st)
    if not isc(n):
        return SymIt(n, lambda i, s: args[0])
    return Src(tuple((TRUE, args[0]) for _ in range(cv(n))))


@model("iter::from_fn")
def _(ev, st, args, e, c):
    def mkn():
        def f(ev, st):
            o = ev.unphi(ev.call_value(args[0], [], st, None))
            if isc(o.tag):
                return (TRUE, o.pay[1][0], mkn()) if cv(o.tag) == 1 else None
            raise Undecided("from_fn end")
        return Inf(f)
    return mkn()


def zero_like(ev, e, xs):
    ts = ev.ty(e["ty"])["s"] if e else "f64"
    return R(0) if ts in ("f64", "f32") else I(0)


@model("Iterator::sum", "Iterator::product")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        from . import symseq
        return symseq.reduce_sum(ev, st, it, c["method"], zero_like(ev, e, None))
    xs = drain(ev, it, st)
    z = zero_like(ev, e, xs)
    s = c["method"] == "sum"
    acc = z if s else (R(1) if z.sort == "R" else I(1))
    for g, v in xs:
        v = ev.val(v, st)
        if not isinstance(v, T):
            raise Undecided("sum of %s" % type(v).__name__)
        acc = ite(g, add(acc, v) if s else mul(acc, v), acc)
    return acc


@model("Iterator::count", "ExactSizeIterator::len")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        from . import symseq
        return symseq.count(ev, st, it)
    n = I(0)
    for g, _v in drain(ev, it, st):
        n = add(n, ite(g, I(1), I(0)))
    return n


@model("Iterator::fold", "Iterator::rfold")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        from . import symseq
        return symseq.fold(ev, st, it, args[1], args[2])
    acc = args[1]
    xs = drain(ev, it, st)
    if c["method"] == "rfold":
        xs.reverse()
    for g, v in xs:
        acc = step_acc(ev, st, g, acc, lambda s, a, v=v: ev.call_value(args[2], [a, v], s, None))
    return acc


def step_acc(ev, st, g, acc, f):
    return ev.branch(st, g, lambda s: f(s, acc), lambda s: acc)


@model("Iterator::reduce")
def _(ev, st, args, e, c):
    xs = drain(ev, node(ev, args[0], st), st)
    if not xs:
        return NONE
    if any(g is not TRUE for g, _ in xs):
        raise Undecided("reduce of guarded iterator")
    acc = xs[0][1]
    for g, v in xs[1:]:
        acc = ev.call_value(args[1], [acc, v], st, None)
    return some(acc)


@model("Iterator::try_fold", "Iterator::try_for_each")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        raise Undecided("try_fold over symbolic iterator")
    xs = drain(ev, it, st)
    each = c["method"] == "try_for_each"
    ty = ev.ty(e["ty"])
    isres = ty.get("path") == RESULT
    acc = UNIT if each else args[1]
    f = args[1] if each else args[2]
    okv = (lambda v: ok(v)) if isres else some
    oki = 0 if isres else 1

    def go(i, acc, s):
        if i == len(xs):
            return okv(acc)
        g, v = xs[i]

        def run(s2):
            r = ev.unphi(ev.call_value(f, [v] if each else [acc, v], s2, None))
            if oki not in r.pay:
                return r
            return ev.branch(s2, eq(r.tag, I(oki)), lambda q: go(i + 1, r.pay[oki][0], q),
                             lambda q: Adt(r.path, r.tag, {k: p for k, p in r.pay.items() if k != oki}))
        return ev.branch(s, g, run, lambda q: go(i + 1, acc, q))
    return go(0, acc, st)


@model("Iterator::for_each")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        from . import symseq
        return symseq.for_each(ev, st, it, args[1])
    while True:
        r = it_step(ev, it, st)
        if r is None:
            return UNIT
        g, v, it = r
        ev.branch(st, g, lambda s: (ev.call_value(args[1], [v], s, None), UNIT)[1], lambda s: UNIT)


@model("Iterator::any", "Iterator::all")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        from . import symseq
        return symseq.anyall(ev, st, it, args[1], c["method"])
    xs = []
    while True:
        r = it_step(ev, it, st)
        if r is None:
            break
        g, v, it = r
        x = guarded_call(ev, st, g, args[1], [v])
        xs.append(and_(g, x) if c["method"] == "any" else or_(not_(g), x))
    return or_(*xs) if c["method"] == "any" else and_(*xs)


@model("Iterator::find", "Iterator::find_map", "Iterator::position", "Iterator::rposition", "Iterator::rfind")
def _(ev, st, args, e, c):
    m = c["method"]
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        raise Undecided("search in symbolic iterator")
    xs = drain(ev, it, st)
    res = NONE
    out = []
    pos = I(0)
    for g, v in xs:
        if m == "find_map":
            o = ev.unphi(guarded_call(ev, st, g, args[1], [v]))
            hit, val = and_(g, eq(o.tag, I(1))), o.pay.get(1, (UNIT,))[0]
        else:
            hit = and_(g, guarded_call(ev, st, g, args[1], [v]))
            val = pos if "position" in m else v
        pos = add(pos, ite(g, I(1), I(0)))
        out.append((hit, val))
    if m.startswith("r"):
        out.reverse()
    for hit, val in reversed(out):
        res = join(hit, some(val), res)
    return res


@model("Iterator::last")
def _(ev, st, args, e, c):
    r = NONE
    for g, v in drain(ev, node(ev, args[0], st), st):
        r = join(g, some(v), r)
    return r


@model("Iterator::nth")
def _(ev, st, args, e, c):
    n = ev.val(args[1], st)
    it = node(ev, args[0], st)
    if not isc(n) or isinstance(it, SymIt):
        raise Undecided("nth")
    for k in range(cv(n) + 1):
        r = it_step(ev, it, st)
        if r is None:
            return NONE
        if r[0] is not TRUE:
            raise Undecided("nth of guarded iterator")
        it = r[2]
    if isinstance(args[0], MRef):
        ev.write(args[0].key, args[0].proj, it, st)
    return some(r[1])


@model("Iterator::min", "Iterator::max", "Iterator::min_by", "Iterator::max_by", "Iterator::min_by_key", "Iterator::max_by_key")
def _(ev, st, args, e, c):
    m = c["method"]
    xs = drain(ev, node(ev, args[0], st), st)
    res = NONE
    for g, v in xs:
        if m in ("min", "max"):
            cmpf = lambda a, b: vcmp(ev, st, a, b).tag
        elif m.endswith("_key"):
            cmpf = lambda a, b: vcmp(ev, st, ev.call_value(args[1], [a], st, None), ev.call_value(args[1], [b], st, None)).tag
        else:
            cmpf = lambda a, b: ev.unphi(ev.call_value(args[1], [a, b], st, None)).tag
        if 1 not in res.pay:
            res = opt(g, v)
            continue
        t = cmpf(res.pay[1][0], v)
        better = eq(t, I(2)) if m.startswith("min") else not_(eq(t, I(2)))
        use = and_(g, or_(eq(res.tag, I(0)), better))
        res = Adt(OPTION, ite(or_(g, eq(res.tag, I(1))), I(1), I(0)), {0: (), 1: (join(use, v, res.pay[1][0]),)})
    return res


@model("Iterator::unzip")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    if isinstance(it, SymIt):
        raise Undecided("unzip of symbolic iterator")
    xs = drain(ev, it, st)
    gs = [g for g, _ in xs]
    return Tup([Lst([v.v[0] for _, v in xs], gs), Lst([v.v[1] for _, v in xs], gs)])


@model("Iterator::partition")
def _(ev, st, args, e, c):
    xs = drain(ev, node(ev, args[0], st), st)
    a, ga, b, gb = [], [], [], []
    for g, v in xs:
        x = guarded_call(ev, st, g, args[1], [v])
        a.append(v); ga.append(and_(g, x))
        b.append(v); gb.append(and_(g, not_(x)))
    return Tup([mklst(a, ga), mklst(b, gb)])


def positions(l):
    """for every slot the condition that it is the i-th present one"""
    out, k = [], I(0)
    for j in range(len(l.v)):
        g = l.guard(j)
        out.append(lambda i, g=g, k=k: and_(g, eq(k, i)))
        k = add(k, ite(g, I(1), I(0)))
    return out


def mklst(v, g):
    z = [(x, y) for x, y in zip(v, g) if y is not FALSE]
    return Lst([x for x, _ in z], [y for _, y in z])


@model("Iterator::collect", "FromIterator::from_iter")
def _(ev, st, args, e, c):
    it = node(ev, args[0], st)
    ty = ev.ty(e["ty"])
    p = ty.get("path", "")
    if isinstance(it, SymIt):
        from . import symseq
        return symseq.collect(ev, st, it, p)
    xs = drain(ev, it, st)
    if p.endswith("HashMap") or p.endswith("BTreeMap"):
        if any(g is not TRUE for g, _ in xs):
            raise Undecided("guarded map")
        m = MapV([])
        for _, v in xs:
            m = map_insert(ev, st, m, v.v[0], v.v[1])
        return m
    if p == RESULT or p == OPTION:
        oki = 0 if p == RESULT else 1
        vals, gs = [], []
        bad = None
        outs = [(g, ev.unphi(v)) for g, v in xs]
        res = Adt(p, I(oki), {oki: (mklst([o.pay.get(oki, (UNIT,))[0] for _, o in outs], [g for g, _ in outs]),)})
        for g, o in reversed(outs):
            fail = and_(g, not_(eq(o.tag, I(oki))))
            if fail is not FALSE:
                res = join(fail, Adt(p, I(1 - oki), {1 - oki: o.pay.get(1 - oki, ())}), res)
        return res
    if p.endswith("String"):
        return Opq(("string",))
    return mklst([v for _, v in xs], [g for g, _ in xs])


# ------------------------------------------------------------------ vectors & slices
@model("Vec::new", "Vec::with_capacity", "Vec::from_elem_")
def _(ev, st, args, e, c):
    return Lst([])


@model("vec::from_elem")
def _(ev, st, args, e, c):
    n = ev.val(args[1], st)
    if isc(n):
        return Lst([args[0]] * cv(n))
    v = args[0]
    return SymL(n, lambda i: v)


def recv(ev, st, a):
    if not isinstance(a, MRef):
        raise Undecided("mutation of temporary")
    while True:
        v = ev.read(a.key, a.proj, st)
        if isinstance(v, MRef):
            a = v
        else:
            return a, flatphi(v)


def flatphi(v):
    """one of two lists as a single list with exclusive presence conditions"""
    if not isinstance(v, Phi):
        return v
    a, b = flatphi(v.a), flatphi(v.b)
    if not (isinstance(a, Lst) and isinstance(b, Lst)):
        return v
    n = 0
    while n < min(len(a.v), len(b.v)) and same(a.v[n], b.v[n]):
        n += 1
    gs = [ite(v.c, a.guard(i), b.guard(i)) for i in range(n)]
    gs += [and_(v.c, a.guard(i)) for i in range(n, len(a.v))] + [and_(not_(v.c), b.guard(i)) for i in range(n, len(b.v))]
    return mklst(a.v + b.v[n:], gs)


def pushv(v, x):
    if isinstance(v, Phi):
        return Phi(v.c, pushv(v.a, x), pushv(v.b, x))
    if not isinstance(v, Lst):
        raise Undecided("push onto %s" % type(v).__name__)
    return Lst(v.v + (x,), None if v.g is None else v.g + (TRUE,))


@model("Vec::push")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    ev.write(a.key, a.proj, pushv(v, args[1]), st)
    return UNIT


@model("Vec::append", "Vec::extend_from_slice", "Extend::extend")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    if isinstance(v, MapV):
        raise Undecided("map extend")
    if not isinstance(v, Lst):
        raise Undecided("extend of %s" % type(v).__name__)
    it = node(ev, ev.val(args[1], st) if c["path"].split("::")[-1] != "extend" else args[1], st)
    if isinstance(it, SymIt):
        if not v.v:
            from . import symseq
            ev.write(a.key, a.proj, symseq.collect(ev, st, it, "Vec"), st)
            return UNIT
        raise Undecided("extend by symbolic iterator")
    xs = drain(ev, it, st)
    a, v = recv(ev, st, args[0])
    gv = [v.guard(i) for i in range(len(v.v))] + [g for g, _ in xs]
    ev.write(a.key, a.proj, mklst(list(v.v) + [x for _, x in xs], gv), st)
    if c["path"].endswith("append"):
        b, _ = recv(ev, st, args[1])
        ev.write(b.key, b.proj, Lst([]), st)
    return UNIT


@model("Vec::clear")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    ev.write(a.key, a.proj, Lst([]), st)
    return UNIT


@model("Vec::reserve", "Vec::shrink_to_fit", "mem::drop", "mem::forget")
def _(ev, st, args, e, c):
    return UNIT


@model("Vec::pop")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    if not isinstance(v, Lst):
        raise Undecided("pop")
    if not v.v:
        return NONE
    if v.g is not None:
        r = v.v[0]
        for i in range(1, len(v.v)):
            r = join(v.g[i], v.v[i], r)
        later, gs = FALSE, []
        for g in reversed(v.g):
            gs.append(and_(g, later))
            later = or_(later, g)
        ev.write(a.key, a.proj, mklst(v.v, gs[::-1]), st)
        return opt(later, r)
    ev.write(a.key, a.proj, Lst(v.v[:-1]), st)
    return some(v.v[-1])


@model("Vec::insert")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    i = ev.val(args[1], st)
    if isinstance(v, MapV):
        ev.write(a.key, a.proj, map_insert(ev, st, v, args[1], args[2]), st)
        return UNIT
    if not isinstance(v, Lst) or v.g is not None or not isc(i):
        raise Undecided("insert")
    ev.panic(st, "insert out of bounds", e, B(cv(i) > len(v.v)))
    ev.write(a.key, a.proj, Lst(v.v[:cv(i)] + (args[2],) + v.v[cv(i):]), st)
    return UNIT


@model("Vec::remove", "Vec::swap_remove")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    i = ev.val(args[1], st)
    if not isinstance(v, Lst):
        raise Undecided("remove")
    if v.g is not None or not isc(i):
        ev.panic(st, "remove out of bounds", e, le(vlen(v), i))
        ps = positions(v)
        r = v.v[-1]
        for p, x in reversed(list(zip(ps, v.v))[:-1]):
            r = join(p(i), x, r)
        if c["path"].endswith("swap_remove"):
            if v.g is not None:
                raise Undecided("swap_remove from a filtered list")
            ev.write(a.key, a.proj, Lst([join(eq(i, I(k)), v.v[-1], x) for k, x in enumerate(v.v[:-1])]), st)
        else:
            ev.write(a.key, a.proj, mklst(v.v, [and_(v.guard(k), not_(p(i))) for k, p in enumerate(ps)]), st)
        return r
    ev.panic(st, "remove out of bounds", e, B(cv(i) >= len(v.v)))
    k = cv(i)
    l = list(v.v)
    x = l[k]
    if c["path"].endswith("swap_remove"):
        l[k] = l[-1]
        l.pop()
    else:
        del l[k]
    ev.write(a.key, a.proj, Lst(l), st)
    return x


@model("Vec::truncate")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    i = ev.val(args[1], st)
    if not isinstance(v, Lst):
        raise Undecided("truncate")
    if v.g is not None or not isc(i):
        gs, k = [], I(0)
        for j in range(len(v.v)):
            gs.append(and_(v.guard(j), lt(k, i)))
            k = add(k, ite(v.guard(j), I(1), I(0)))
        ev.write(a.key, a.proj, mklst(v.v, gs), st)
        return UNIT
    ev.write(a.key, a.proj, Lst(v.v[:cv(i)]), st)
    return UNIT


@model("Vec::resize")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    i = ev.val(args[1], st)
    if not isinstance(v, Lst) or v.g is not None or not isc(i):
        raise Undecided("resize")
    ev.write(a.key, a.proj, Lst((v.v + (args[2],) * cv(i))[:cv(i)]), st)
    return UNIT


@model("Vec::retain", "Vec::retain_mut")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    if not isinstance(v, Lst):
        raise Undecided("retain")
    gs = [and_(v.guard(i), guarded_call(ev, st, v.guard(i), args[1], [x])) for i, x in enumerate(v.v)]
    ev.write(a.key, a.proj, mklst(v.v, gs), st)
    return UNIT


@model("slice::len", "Vec::len", "array::len", "HashMap::len", "str::len")
def _(ev, st, args, e, c):
    v = ev.val(args[0], st)
    if isinstance(v, MapV):
        return I(len(v.e))
    return ev.listlen(v, st)


@model("slice::is_empty", "Vec::is_empty", "HashMap::is_empty")
def _(ev, st, args, e, c):
    v = ev.val(args[0], st)
    if isinstance(v, MapV):
        return B(not v.e)
    if isinstance(v, Lst) and v.g is not None:
        return not_(or_(*v.g))
    return eq(ev.listlen(v, st), I(0))


@model("ExactSizeIterator::is_empty")
def _(ev, st, args, e, c):
    raise Undecided("is_empty")


@model("Deref::deref", "DerefMut::deref_mut", "Vec::as_mut_slice", "Vec::deref", "AsMut::as_mut")
def _(ev, st, args, e, c):
    a = args[0]
    if isinstance(a, MRef):
        v = ev.read(a.key, a.proj, st)
        if isinstance(v, MRef):
            return v
        if canon(c["path"]) == "Deref::deref":
            return v
    return a


def slice_bounds(ev, st, v, r, e):
    n = ev.listlen(v, st)
    nm = r.path.split("::")[-1]
    f = r.pay[0]
    if nm == "Range":
        lo, hi = f[0], f[1]
    elif nm == "RangeTo":
        lo, hi = I(0), f[0]
    elif nm == "RangeFrom":
        lo, hi = f[0], n
    elif nm == "RangeFull":
        lo, hi = I(0), n
    elif nm == "RangeInclusive":
        lo, hi = f[0], add(f[1], I(1))
    elif nm == "RangeToInclusive":
        lo, hi = I(0), add(f[0], I(1))
    else:
        raise Undecided("slice by %s" % nm)
    if e is not None:
        ev.panic(st, "slice out of bounds", e, or_(lt(hi, lo), lt(n, hi)))
    return lo, hi


@model("Index::index", "IndexMut::index_mut", "SliceIndex::index")
def _(ev, st, args, e, c):
    a = args[0]
    i = ev.val(args[1], st)
    base = ev.val(a, st)
    mutref = isinstance(a, MRef)
    if mutref:
        a, base = recv(ev, st, a)
    if isinstance(base, MapV):
        k = map_find(ev, st, base, i)
        if k is None:
            ev.panic(st, "missing map key", e, TRUE)
        return base.e[k][1]
    if isinstance(i, Adt):
        base = flatphi(base)
        lo, hi = slice_bounds(ev, st, base, i, e)
        if isinstance(base, Lst) and base.g is None and isc(lo) and isc(hi):
            if mutref and c["method"] == "index_mut":
                return MRef(a.key, a.proj + (("s", cv(lo), cv(hi)),))
            return Lst(base.v[cv(lo):cv(hi)])
        if isinstance(base, SymL):
            return SymL(sub(hi, lo), lambda j: base.f(add(lo, j)))
        if isinstance(base, Lst) and not (mutref and c["method"] == "index_mut"):
            # every slot with the condition that its position lies in the range
            gs, k = [], I(0)
            for j in range(len(base.v)):
                g = base.guard(j)
                gs.append(and_(g, le(lo, k), lt(k, hi)))
                k = add(k, ite(g, I(1), I(0)))
            return mklst(base.v, gs)
        raise Undecided("slice")
    ev.bounds(base, i, st, e)
    if mutref and c["method"] == "index_mut":
        return MRef(a.key, a.proj + (("i", i),))
    return ev.index(base, i)


@model("slice::get", "slice::get_mut", "Vec::get")
def _(ev, st, args, e, c):
    a = args[0]
    i = ev.val(args[1], st)
    base = ev.val(a, st)
    if isinstance(i, Adt):
        lo, hi = slice_bounds(ev, st, base, i, None)
        if isinstance(base, Lst) and base.g is None and isc(lo) and isc(hi):
            if cv(lo) > cv(hi) or cv(hi) > len(base.v):
                return NONE
            return some(Lst(base.v[cv(lo):cv(hi)]))
        raise Undecided("slice get")
    n = ev.listlen(base, st)
    c0 = lt(i, n)
    if c0 is FALSE:
        return NONE
    if c["path"].endswith("get_mut") and isinstance(a, MRef):
        a, _ = recv(ev, st, a)
        return opt(c0, MRef(a.key, a.proj + (("i", i),)))
    if isinstance(base, Lst) and base.g is not None:
        if isc(i):
            return guarded_nth(base, cv(i))
        raise Undecided("get on guarded list")
    return opt(c0, ev.index(base, i))


def guarded_nth(l, k):
    """k-th present element of a guarded list"""
    res = NONE
    cnt = I(0)
    hits = []
    for j, x in enumerate(l.v):
        g = l.guard(j)
        hits.append((and_(g, eq(cnt, I(k))), x))
        cnt = add(cnt, ite(g, I(1), I(0)))
    for h, x in reversed(hits):
        res = join(h, some(x), res)
    return res


@model("slice::first", "slice::first_mut")
def _(ev, st, args, e, c):
    v = ev.val(args[0], st)
    n = ev.listlen(v, st)
    if isinstance(v, Lst) and not v.v:
        return NONE
    if isinstance(args[0], MRef) and c["path"].endswith("_mut"):
        a, _ = recv(ev, st, args[0])
        return some(MRef(a.key, a.proj + (("i", I(0)),)))
    if isinstance(v, Lst) and v.g is not None:
        return guarded_nth(v, 0)
    return opt(lt(I(0), n), ev.index(v, I(0)))


@model("slice::last", "slice::last_mut")
def _(ev, st, args, e, c):
    v = ev.val(args[0], st)
    if isinstance(v, Lst):
        if v.g is not None:
            r = NONE
            for i, x in enumerate(v.v):
                r = join(v.g[i], some(x), r)
            return r
        if not v.v:
            return NONE
        if isinstance(args[0], MRef) and c["path"].endswith("_mut"):
            a, _ = recv(ev, st, args[0])
            return some(MRef(a.key, a.proj + (("i", I(len(v.v) - 1)),)))
        return some(v.v[-1])
    if isinstance(v, SymL):
        return opt(lt(I(0), v.n), v.f(sub(v.n, I(1))))
    raise Undecided("last")


@model("slice::contains")
def _(ev, st, args, e, c):
    v = ev.val(args[0], st)
    if isinstance(v, Lst):
        return or_(*[and_(v.guard(i), veq(ev, st, x, args[1])) for i, x in enumerate(v.v)])
    raise Undecided("contains")


def plain(ev, st, a):
    v = ev.val(a, st)
    if not isinstance(v, Lst) or v.g is not None:
        raise Undecided("slice operation on %s" % type(v).__name__)
    return v


@model("slice::windows")
def _(ev, st, args, e, c):
    v, n = plain(ev, st, args[0]), cv(ev.val(args[1], st))
    return Src(tuple((TRUE, Lst(v.v[i:i + n])) for i in range(len(v.v) - n + 1)))


@model("slice::chunks", "slice::chunks_exact")
def _(ev, st, args, e, c):
    v, n = plain(ev, st, args[0]), cv(ev.val(args[1], st))
    xs = [v.v[i:i + n] for i in range(0, len(v.v), n)]
    if c["path"].endswith("exact"):
        xs = [x for x in xs if len(x) == n]
    return Src(tuple((TRUE, Lst(x)) for x in xs))


@model("slice::split_at")
def _(ev, st, args, e, c):
    v, n = plain(ev, st, args[0]), ev.val(args[1], st)
    if not isc(n):
        raise Undecided("split_at")
    ev.panic(st, "split_at out of bounds", e, B(cv(n) > len(v.v)))
    return Tup([Lst(v.v[:cv(n)]), Lst(v.v[cv(n):])])


@model("slice::split_first")
def _(ev, st, args, e, c):
    v = plain(ev, st, args[0])
    return some(Tup([v.v[0], Lst(v.v[1:])])) if v.v else NONE


@model("slice::split_last")
def _(ev, st, args, e, c):
    v = plain(ev, st, args[0])
    return some(Tup([v.v[-1], Lst(v.v[:-1])])) if v.v else NONE


@model("slice::concat")
def _(ev, st, args, e, c):
    v = plain(ev, st, args[0])
    out = []
    for x in v.v:
        out += list(plain(ev, st, x).v)
    return Lst(out)


@model("slice::swap")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    i, j = ev.val(args[1], st), ev.val(args[2], st)
    if not (isinstance(v, Lst) and v.g is None and isc(i) and isc(j)):
        raise Undecided("swap")
    l = list(v.v)
    l[cv(i)], l[cv(j)] = l[cv(j)], l[cv(i)]
    ev.write(a.key, a.proj, Lst(l), st)
    return UNIT


@model("slice::reverse")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    if not (isinstance(v, Lst)):
        raise Undecided("reverse")
    ev.write(a.key, a.proj, Lst(v.v[::-1], None if v.g is None else v.g[::-1]), st)
    return UNIT


@model("slice::fill")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    ev.write(a.key, a.proj, Lst([args[1]] * len(v.v), v.g), st)
    return UNIT


def do_sort(ev, st, xs, less_or_eq):
    """stable insertion sort; data-dependent comparisons become compare-exchange gates"""
    out = []
    for x in xs:
        i = len(out)
        conds = []
        # position: after the last element y with y <= x
        out.append(x)
        while i > 0:
            le_ = less_or_eq(out[i - 1], out[i])
            if le_ is TRUE:
                break
            a, b = out[i - 1], out[i]
            out[i - 1], out[i] = join(le_, a, b), join(le_, b, a)
            i -= 1
    return out


@model("slice::sort_by_key", "slice::sort_by", "slice::sort_unstable_by_key", "slice::sort_unstable_by", "slice::sort", "slice::sort_unstable",
       "slice::sort_by_cached_key")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    if not (isinstance(v, Lst) and v.g is None):
        raise Undecided("sort")
    m = c["path"].split("::")[-1]
    if m in ("sort", "sort_unstable"):
        le_ = lambda x, y: not_(eq(vcmp(ev, st, x, y).tag, I(2)))
    elif "key" in m:
        keys = {}

        def le_(x, y):
            kx = ev.call_value(args[1], [x], st, None)
            ky = ev.call_value(args[1], [y], st, None)
            return not_(eq(vcmp(ev, st, kx, ky).tag, I(2)))
    else:
        le_ = lambda x, y: not_(eq(ev.unphi(ev.call_value(args[1], [x, y], st, None)).tag, I(2)))
    ev.write(a.key, a.proj, Lst(do_sort(ev, st, list(v.v), le_)), st)
    return UNIT


@model("array::map")
def _(ev, st, args, e, c):
    v = plain(ev, st, args[0])
    return Lst([ev.call_value(args[1], [x], st, None) for x in v.v])


@model("array::from_fn")
def _(ev, st, args, e, c):
    n = ev.ty(e["ty"]).get("n")
    if n is None:
        raise Undecided("array::from_fn")
    return Lst([ev.call_value(args[0], [I(i)], st, None) for i in range(int(n))])


@model("RangeInclusive::new")
def _(ev, st, args, e, c):
    return Adt("std::ops::RangeInclusive", I(0), {0: (args[0], args[1])})


@model("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains", "RangeBounds::contains")
def _(ev, st, args, e, c):
    r, x = ev.val(args[0], st), ev.val(args[1], st)
    nm = r.path.split("::")[-1]
    f = r.pay[0]
    if nm == "Range":
        return and_(le(f[0], x), lt(x, f[1]))
    if nm == "RangeInclusive":
        return and_(le(f[0], x), le(x, f[1]))
    if nm == "RangeFrom":
        return le(f[0], x)
    if nm == "RangeTo":
        return lt(x, f[0])
    if nm == "RangeToInclusive":
        return le(x, f[0])
    raise Undecided("contains")


# ------------------------------------------------------------------ mem
@model("intrinsics::discriminant_value", "mem::discriminant")
def _(ev, st, args, e, c):
    v = ev.unphi(ev.val(args[0], st))
    if not isinstance(v, Adt):
        raise Undecided("discriminant")
    return v.tag


@model("mem::swap")
def _(ev, st, args, e, c):
    (a, x), (b, y) = recv(ev, st, args[0]), recv(ev, st, args[1])
    ev.write(a.key, a.proj, y, st)
    ev.write(b.key, b.proj, x, st)
    return UNIT


@model("mem::replace")
def _(ev, st, args, e, c):
    a, x = recv(ev, st, args[0])
    ev.write(a.key, a.proj, args[1], st)
    return x


@model("mem::take")
def _(ev, st, args, e, c):
    a, x = recv(ev, st, args[0])
    ev.write(a.key, a.proj, default_of(ev, e["ty"], st), st)
    return x


# ------------------------------------------------------------------ Option / Result / bool
def enumv(ev, st, a):
    v = ev.unphi(ev.val(a, st))
    if not isinstance(v, Adt):
        raise Undecided("enum method on %s" % type(v).__name__)
    return v


def pay(o, i):
    return o.pay[i][0] if i in o.pay else None


def on(ev, st, o, i, fi, fo):
    """branch on variant i"""
    c = eq(o.tag, I(i))
    if i not in o.pay:
        return fo(st)
    if (1 - i) not in o.pay and c is TRUE:
        return fi(st, o.pay[i][0])
    return ev.branch(st, c, lambda s: fi(s, o.pay[i][0]), fo)


def is_res(o):
    return o.path == RESULT


def good(o):
    return 0 if is_res(o) else 1


def bad(o):
    g = good(o)
    return Adt(o.path, I(1 - g), {1 - g: o.pay.get(1 - g, ())})


@model("Option::unwrap_or", "Result::unwrap_or")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, good(o), lambda s, x: x, lambda s: args[1])


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, good(o), lambda s, x: x, lambda s: default_of(ev, e["ty"], s))


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, good(o), lambda s, x: x, lambda s: ev.call_value(args[1], [pay(o, 1)] if is_res(o) else [], s, e))


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    g = good(o)
    if c["path"].endswith("_err"):
        g = 1
    ev.panic(st, "unwrap", e, not_(eq(o.tag, I(g))))
    return pay(o, g)


@model("Option::map", "Result::map")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    g = good(o)
    wrap = ok if is_res(o) else some
    return on(ev, st, o, g, lambda s, x: wrap(ev.call_value(args[1], [x], s, e)), lambda s: bad(o))


@model("Result::map_err")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, 1, lambda s, x: err(ev.call_value(args[1], [x], s, e)), lambda s: Adt(RESULT, I(0), {0: o.pay.get(0, ())}))


@model("Option::and_then", "Result::and_then")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, good(o), lambda s, x: ev.call_value(args[1], [x], s, e), lambda s: bad(o))


@model("Option::map_or", "Result::map_or")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, good(o), lambda s, x: ev.call_value(args[2], [x], s, e), lambda s: args[1])


@model("Option::map_or_else", "Result::map_or_else")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, good(o), lambda s, x: ev.call_value(args[2], [x], s, e),
              lambda s: ev.call_value(args[1], [pay(o, 1)] if is_res(o) else [], s, e))


@model("Option::is_some", "Result::is_ok", "Option::is_none", "Result::is_err")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    r = eq(o.tag, I(good(o)))
    return not_(r) if c["path"].endswith(("is_none", "is_err")) else r


@model("Option::is_some_and", "Result::is_ok_and", "Option::is_none_or")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, good(o), lambda s, x: ev.call_value(args[1], [x], s, e), lambda s: B(c["path"].endswith("is_none_or")))


@model("Option::ok_or")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, 1, lambda s, x: ok(x), lambda s: err(args[1]))


@model("Option::ok_or_else")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, 1, lambda s, x: ok(x), lambda s: err(ev.call_value(args[1], [], s, e)))


@model("Result::ok")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, 0, lambda s, x: some(x), lambda s: NONE)


@model("Result::err")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, 1, lambda s, x: some(x), lambda s: NONE)


@model("Option::copied", "Option::cloned", "Option::as_ref", "Result::as_ref", "Option::as_deref", "Result::copied", "Result::cloned")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    if not c["path"].endswith("ref"):
        return Adt(o.path, o.tag, {k: tuple(deepclone(ev, x, st) for x in p) for k, p in o.pay.items()})
    return o


@model("Option::as_mut")
def _(ev, st, args, e, c):
    a, o = recv(ev, st, args[0])
    if 1 not in o.pay:
        return NONE
    return opt(eq(o.tag, I(1)), MRef(a.key, a.proj + (("f", 1, 0),)))


@model("Option::filter")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, 1, lambda s, x: opt(ev.call_value(args[1], [x], s, e), x), lambda s: NONE)


@model("Option::or")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, 1, lambda s, x: some(x), lambda s: args[1])


@model("Option::or_else")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, 1, lambda s, x: some(x), lambda s: ev.call_value(args[1], [], s, e))


@model("Option::and")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, 1, lambda s, x: args[1], lambda s: NONE)


@model("Option::zip")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    q = enumv(ev, st, args[1])
    return on(ev, st, o, 1, lambda s, x: on(ev, s, q, 1, lambda s2, y: some(Tup([x, y])), lambda s2: NONE), lambda s: NONE)


@model("Option::take")
def _(ev, st, args, e, c):
    a, o = recv(ev, st, args[0])
    ev.write(a.key, a.proj, NONE, st)
    return o


@model("bool::then")
def _(ev, st, args, e, c):
    return ev.branch(st, ev.val(args[0], st), lambda s: some(ev.call_value(args[1], [], s, e)), lambda s: NONE)


@model("bool::then_some")
def _(ev, st, args, e, c):
    return opt(ev.val(args[0], st), args[1])


CF = "std::ops::ControlFlow"


@model("Try::branch")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    g = good(o)
    pl = {}
    if g in o.pay:
        pl[0] = o.pay[g]
    if (1 - g) in o.pay or not isc(o.tag):
        pl[1] = (Adt(o.path, I(1 - g), {1 - g: o.pay.get(1 - g, ())}),)
    return Adt(CF, ite(eq(o.tag, I(g)), I(0), I(1)), pl)


@model("FromResidual::from_residual")
def _(ev, st, args, e, c):
    return enumv(ev, st, args[0])


@model("Try::from_output")
def _(ev, st, args, e, c):
    return (ok if ev.ty(e["ty"]).get("path") == RESULT else some)(args[0])


# ------------------------------------------------------------------ maps
def map_find(ev, st, m, k):
    for j, (x, _) in enumerate(m.e):
        q = veq(ev, st, x, k)
        if q is TRUE:
            return j
        if q is not FALSE:
            raise Undecided("symbolic map key")
    return None


def map_insert(ev, st, m, k, v):
    j = map_find(ev, st, m, k)
    l = list(m.e)
    if j is None:
        l.append((k, v))
    else:
        l[j] = (k, v)
    return MapV(l)


@model("HashMap::new", "HashMap::with_capacity", "BTreeMap::new")
def _(ev, st, args, e, c):
    return MapV([])


@model("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut")
def _(ev, st, args, e, c):
    m = ev.val(args[0], st)
    if not isinstance(m, MapV):
        raise Undecided("map get")
    j = map_find(ev, st, m, ev.val(args[1], st))
    if j is None:
        return NONE
    if c["path"].endswith("get_mut"):
        a, _ = recv(ev, st, args[0])
        return some(MRef(a.key, a.proj + (("m", j),)))
    return some(m.e[j][1])


@model("HashMap::insert", "BTreeMap::insert")
def _(ev, st, args, e, c):
    a, m = recv(ev, st, args[0])
    j = map_find(ev, st, m, args[1])
    old = NONE if j is None else some(m.e[j][1])
    ev.write(a.key, a.proj, map_insert(ev, st, m, args[1], args[2]), st)
    return old


@model("HashMap::contains_key", "BTreeMap::contains_key")
def _(ev, st, args, e, c):
    m = ev.val(args[0], st)
    return B(map_find(ev, st, m, ev.val(args[1], st)) is not None)


@model("HashMap::entry", "BTreeMap::entry")
def _(ev, st, args, e, c):
    a, m = recv(ev, st, args[0])
    return Tup([a, args[1]])


@model("Entry::or_default", "Entry::or_insert", "Entry::or_insert_with")
def _(ev, st, args, e, c):
    a, k = args[0].v
    m = ev.read(a.key, a.proj, st)
    if not isinstance(m, MapV):
        raise Undecided("map entry")
    j = map_find(ev, st, m, k)
    if j is None:
        nm = c["path"].split("::")[-1]
        if nm == "or_default":
            rt = ev.ty(e["ty"])
            v = default_of(ev, rt["t"], st)
        elif nm == "or_insert":
            v = args[1]
        else:
            v = ev.call_value(args[1], [], st, e)
        m = ev.read(a.key, a.proj, st)
        m = MapV(list(m.e) + [(k, v)])
        ev.write(a.key, a.proj, m, st)
        j = len(m.e) - 1
    return MRef(a.key, a.proj + (("m", j),))


# ------------------------------------------------------------------ further list operations
def last_kept(ks, xs, upto):
    """the last element kept among xs[:upto] (only meaningful where one is kept)"""
    r = None
    for k, x in zip(ks[:upto], xs):
        if k is not FALSE:
            r = x if r is None or k is TRUE else join(k, x, r)
    return r


@model("Vec::dedup", "Vec::dedup_by", "Vec::dedup_by_key")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    if not isinstance(v, Lst):
        raise Undecided("dedup")
    m = c["path"].split("::")[-1]
    keep = []
    for i, x in enumerate(v.v):
        g = v.guard(i)
        p = last_kept(keep, v.v, i)
        if p is None:
            keep.append(g)
            continue
        if m == "dedup":
            same = veq(ev, st, x, p)
        elif m == "dedup_by":
            same = guarded_call(ev, st, g, args[1], [x, p])
        else:
            same = veq(ev, st, guarded_call(ev, st, g, args[1], [x]), guarded_call(ev, st, g, args[1], [p]))
        keep.append(and_(g, not_(and_(or_(*keep), same))))
    ev.write(a.key, a.proj, mklst(v.v, keep), st)
    return UNIT


@model("Vec::split_off")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    n = ev.val(args[1], st)
    if not isinstance(v, Lst) or v.g is not None or not isc(n):
        raise Undecided("split_off")
    ev.panic(st, "split_off out of bounds", e, B(cv(n) > len(v.v)))
    ev.write(a.key, a.proj, Lst(v.v[:cv(n)]), st)
    return Lst(v.v[cv(n):])


@model("slice::rotate_left", "slice::rotate_right")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    n = ev.val(args[1], st)
    if not isinstance(v, Lst) or v.g is not None or not isc(n):
        raise Undecided("rotate")
    k = cv(n)
    ev.panic(st, "rotate out of bounds", e, B(k > len(v.v)))
    if c["path"].endswith("right"):
        k = len(v.v) - k
    ev.write(a.key, a.proj, Lst(v.v[k:] + v.v[:k]), st)
    return UNIT


@model("slice::copy_from_slice", "slice::clone_from_slice")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    w = plain(ev, st, args[1])
    if not isinstance(v, Lst) or v.g is not None:
        raise Undecided("copy_from_slice")
    ev.panic(st, "copy_from_slice of different lengths", e, B(len(v.v) != len(w.v)))
    ev.write(a.key, a.proj, Lst([deepclone(ev, x, st) for x in w.v]), st)
    return UNIT


@model("Vec::extend_from_within")
def _(ev, st, args, e, c):
    raise Undecided("extend_from_within")


@model("slice::starts_with", "slice::ends_with")
def _(ev, st, args, e, c):
    v, w = plain(ev, st, args[0]), plain(ev, st, args[1])
    if len(w.v) > len(v.v):
        return FALSE
    xs = v.v[:len(w.v)] if "starts" in c["path"] else v.v[len(v.v) - len(w.v):]
    return and_(*[veq(ev, st, x, y) for x, y in zip(xs, w.v)])


def sorted_(ev, st, xs, args, m):
    if m == "is_sorted":
        f = lambda x, y: not_(eq(vcmp(ev, st, x, y).tag, I(2)))
    elif m == "is_sorted_by_key":
        ks = {}
        f = lambda x, y: not_(eq(vcmp(ev, st, ev.call_value(args[1], [x], st, None), ev.call_value(args[1], [y], st, None)).tag, I(2)))
    else:
        f = lambda x, y: ev.call_value(args[1], [x, y], st, None)
    return and_(*[f(x, y) for x, y in zip(xs, xs[1:])])


@model("slice::is_sorted", "slice::is_sorted_by", "slice::is_sorted_by_key")
def _(ev, st, args, e, c):
    return sorted_(ev, st, plain(ev, st, args[0]).v, args, c["path"].split("::")[-1])


@model("Iterator::is_sorted", "Iterator::is_sorted_by", "Iterator::is_sorted_by_key")
def _(ev, st, args, e, c):
    xs = drain(ev, node(ev, args[0], st), st)
    if any(g is not TRUE for g, _ in xs):
        raise Undecided("is_sorted of a filtered iterator")
    return sorted_(ev, st, [x for _, x in xs], args, c["method"])


@model("slice::partition_point")
def _(ev, st, args, e, c):
    # the number of leading elements that satisfy the predicate (the list is partitioned by contract)
    n, run = I(0), TRUE
    for x in plain(ev, st, args[0]).v:
        run = and_(run, ev.call_value(args[1], [x], st, None))
        n = add(n, ite(run, I(1), I(0)))
    return n


@model("slice::chunk_by")
def _(ev, st, args, e, c):
    v = plain(ev, st, args[0])
    out = []                                     # runs [i, j) with the condition that they are maximal
    n = len(v.v)
    link = [ev.call_value(args[1], [v.v[i], v.v[i + 1]], st, None) for i in range(n - 1)]
    for i in range(n):
        for j in range(i + 1, n + 1):
            g = and_(*(link[i:j - 1] + ([not_(link[i - 1])] if i else []) + ([not_(link[j - 1])] if j < n else [])))
            if g is not FALSE:
                out.append((g, Lst(v.v[i:j])))
    return Src(tuple(out))


@model("Iterator::eq", "Iterator::ne")
def _(ev, st, args, e, c):
    xs, ys = drain(ev, node(ev, args[0], st), st), drain(ev, node(ev, args[1], st), st)
    if any(g is not TRUE for g, _ in xs + ys):
        raise Undecided("comparison of filtered iterators")
    r = and_(*[veq(ev, st, x, y) for (_, x), (_, y) in zip(xs, ys)]) if len(xs) == len(ys) else FALSE
    return r if c["method"] == "eq" else not_(r)


@model("Ordering::then")
def _(ev, st, args, e, c):
    a, b = enumv(ev, st, args[0]), enumv(ev, st, args[1])
    return Adt(ORDERING, ite(eq(a.tag, I(1)), b.tag, a.tag), {0: (), 1: (), 2: ()})


@model("Ordering::then_with")
def _(ev, st, args, e, c):
    a = enumv(ev, st, args[0])
    b = ev.unphi(ev.val(guarded_call(ev, st, eq(a.tag, I(1)), args[1], []), st)) if a.tag is not I(0) and a.tag is not I(2) else a
    return Adt(ORDERING, ite(eq(a.tag, I(1)), b.tag, a.tag), {0: (), 1: (), 2: ()})


@model("Option::flatten")
def _(ev, st, args, e, c):
    o = enumv(ev, st, args[0])
    return on(ev, st, o, 1, lambda s, x: x, lambda s: NONE)


@model("Option::xor")
def _(ev, st, args, e, c):
    a, b = enumv(ev, st, args[0]), enumv(ev, st, args[1])
    return on(ev, st, a, 1, lambda s, x: on(ev, s, b, 1, lambda s2, y: NONE, lambda s2: some(x)), lambda s: b)


@model("HashSet::new", "HashSet::with_capacity", "BTreeSet::new")
def _(ev, st, args, e, c):
    return Lst([])


def member(ev, st, v, x):
    if not isinstance(v, Lst):
        raise Undecided("set")
    return or_(*[and_(v.guard(i), veq(ev, st, y, x)) for i, y in enumerate(v.v)])


@model("HashSet::insert", "BTreeSet::insert")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    new = not_(member(ev, st, v, args[1]))
    if new is not FALSE:
        ev.write(a.key, a.proj, Lst(v.v + (args[1],), (v.g or (TRUE,) * len(v.v)) + (new,)), st)
    return new


@model("HashSet::contains", "BTreeSet::contains")
def _(ev, st, args, e, c):
    return member(ev, st, ev.val(args[0], st), ev.val(args[1], st))


@model("HashSet::len", "BTreeSet::len", "HashSet::is_empty", "BTreeSet::is_empty")
def _(ev, st, args, e, c):
    n = ev.listlen(ev.val(args[0], st), st)
    return n if c["path"].endswith("len") else eq(n, I(0))


@model("HashSet::iter", "BTreeSet::iter", "HashSet::into_iter", "BTreeSet::into_iter")
def _(ev, st, args, e, c):
    raise Undecided("iteration over a set")


@model("BTreeMap::len")
def _(ev, st, args, e, c):
    m = ev.val(args[0], st)
    if not isinstance(m, MapV):
        raise Undecided("map len")
    return I(len(m.e))


@model("f64::to_bits")
def _(ev, st, args, e, c):
    # one bit pattern per value (the two zeros and the NaNs apart)
    return Opq(("bits", ev.val(args[0], st)))


@model("VecDeque::new", "VecDeque::with_capacity")
def _(ev, st, args, e, c):
    return Lst([])


@model("VecDeque::push_back", "VecDeque::push_front")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    if not isinstance(v, Lst):
        raise Undecided("deque")
    if c["path"].endswith("back"):
        ev.write(a.key, a.proj, pushv(v, args[1]), st)
    else:
        ev.write(a.key, a.proj, Lst((args[1],) + v.v, None if v.g is None else (TRUE,) + v.g), st)
    return UNIT


@model("VecDeque::pop_front", "VecDeque::pop_back")
def _(ev, st, args, e, c):
    a, v = recv(ev, st, args[0])
    if not isinstance(v, Lst) or v.g is not None:
        raise Undecided("deque")
    if not v.v:
        return NONE
    fr = c["path"].endswith("front")
    ev.write(a.key, a.proj, Lst(v.v[1:] if fr else v.v[:-1]), st)
    return some(v.v[0] if fr else v.v[-1])


@model("VecDeque::len", "VecDeque::is_empty")
def _(ev, st, args, e, c):
    n = ev.listlen(ev.val(args[0], st), st)
    return n if c["path"].endswith("len") else eq(n, I(0))


# ------------------------------------------------------------------ interior mutability
@model("RefCell::new", "Cell::new")
def _(ev, st, args, e, c):
    ev.nheap += 1
    k = ("heap", ev.nheap)
    st.store[k] = args[0]
    return HRef(k)


@model("RefCell::borrow", "RefCell::borrow_mut", "Cell::get")
def _(ev, st, args, e, c):
    h = ev.val(args[0], st)
    if not isinstance(h, HRef):
        raise Undecided("borrow of %s" % type(h).__name__)
    if c["path"].endswith("get"):
        return st.store[h.key]
    return MRef(h.key)


@model("Cell::set")
def _(ev, st, args, e, c):
    h = ev.val(args[0], st)
    st.store[h.key] = args[1]
    return UNIT


@model("Rc::clone", "Arc::clone")
def _(ev, st, args, e, c):
    return ev.val(args[0], st)


# ------------------------------------------------------------------ panics & formatting
@model("rt::panic_fmt", "panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::assert_failed", "panicking::unreachable_display",
       "panicking::panic_explicit", "rt::begin_panic", "panicking::panic_nounwind", "option::unwrap_failed", "panicking::unreachable")
def _(ev, st, args, e, c):
    ev.panic(st, "explicit panic", e, TRUE)


for _n in ("Arguments::new_const", "Arguments::new_v1", "Arguments::new", "Arguments::from_str", "Argument::new_display", "Argument::new_debug",
           "Arguments::from_str_nonconst", "fmt::format", "string::to_string", "ToString::to_string", "Arguments::new_v1_formatted",
           "Argument::none", "Argument::new_lower_exp", "alloc::format", "String::from", "String::new", "Placeholder::new"):
    TABLE[_n] = lambda ev, st, args, e, c: Opq(("fmt",))
