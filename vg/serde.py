"""Models of serde's data model: a serializer that records the value as a tree and a deserializer that replays the tree.

Trees: Tup([Opq(("d", kind, ...)), payload...]). The crate's (derived or hand-written) Serialize and Deserialize code is interpreted
as it is; only the serde interface itself is modelled. MODE[0] is "map" (self-describing formats: fields and variants by name) or
"seq" (compact formats: by position)."""
from .term import *
from .values import *
from .std import TABLE, model, canon, default_of

MODE = ["map"]
SER = Opq(("ser",))
ERR = Opq(("serde error",))


def data(kind, *pay, **kw):
    return Tup((Opq(("d",) + tuple(kind if isinstance(kind, tuple) else (kind,))),) + pay)


def isdata(v):
    return isinstance(v, Tup) and v.v and isinstance(v.v[0], Opq) and v.v[0].what[0] == "d"


def lit(v):
    if isinstance(v, Opq) and v.what[0] == "lit":
        return v.what[1]
    raise Undecided("string that is not a constant")


def ser_value(ev, st, v):
    """Result<data>"""
    v = ev.unphi(ev.val(v, st))
    if isinstance(v, T):
        return ok(data({"R": "f64", "I": "int", "B": "bool"}[v.sort], v))
    if isdata(v):
        return ok(v)
    if isinstance(v, Adt):
        b = ev.p.trait_method("serde::Serialize", v.path, "serialize") or ev.p.trait_method("serde::ser::Serialize", v.path, "serialize")
        if b is not None:
            return ev.inline(b, [v, SER], st, {})
        if v.path == OPTION and isc(v.tag):
            if cv(v.tag) == 0:
                return ok(data("none"))
            r = ser_value(ev, st, v.pay[1][0])
            return ok(data("some", unok(r)))
        raise Undecided("Serialize of %s" % v.path)
    if isinstance(v, Lst) and v.g is None:
        return ok(data("seq", Lst([unok(ser_value(ev, st, x)) for x in v.v])))
    if isinstance(v, Tup):
        return ok(data("seq", Lst([unok(ser_value(ev, st, x)) for x in v.v])))
    if isinstance(v, Opq) and v.what[0] == "lit":
        return ok(data("str", v))
    raise Undecided("Serialize of %s" % type(v).__name__)


def unok(r):
    if isinstance(r, Adt) and r.path == RESULT and isc(r.tag) and cv(r.tag) == 0:
        return r.pay[0][0]
    raise Undecided("fallible serialization")


@model("Serialize::serialize")
def _(ev, st, args, e, c):
    return ser_value(ev, st, args[0])


for _n in ("f64", "f32", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool", "str", "char"):
    def _f(ev, st, args, e, c, _n=_n):
        v = ev.val(args[1], st)
        if _n == "str":
            return ok(data("str", v))
        return ser_value(ev, st, v)
    TABLE["Serializer::serialize_" + _n] = _f


@model("Serializer::serialize_unit", "Serializer::serialize_none")
def _(ev, st, args, e, c):
    return ok(data("none"))


@model("Serializer::serialize_unit_struct")
def _(ev, st, args, e, c):
    return ok(data("none"))


@model("Serializer::serialize_some")
def _(ev, st, args, e, c):
    return ok(data("some", unok(ser_value(ev, st, args[1]))))


@model("Serializer::serialize_newtype_struct")
def _(ev, st, args, e, c):
    return ok(data("newtype", unok(ser_value(ev, st, args[2]))))


def vkey(args):
    return ("variant", lit(args[3]), cv(args[2]) if isc(args[2]) else -1)


@model("Serializer::serialize_unit_variant")
def _(ev, st, args, e, c):
    return ok(data(vkey(args), data("none")))


@model("Serializer::serialize_newtype_variant")
def _(ev, st, args, e, c):
    return ok(data(vkey(args), unok(ser_value(ev, st, args[4]))))


@model("Serializer::serialize_struct", "Serializer::serialize_map")
def _(ev, st, args, e, c):
    return ok(data("map", Lst([])))


@model("Serializer::serialize_tuple_struct", "Serializer::serialize_tuple", "Serializer::serialize_seq")
def _(ev, st, args, e, c):
    return ok(data("seq", Lst([])))


@model("Serializer::serialize_struct_variant")
def _(ev, st, args, e, c):
    return ok(data(vkey(args), data("map", Lst([]))))


@model("Serializer::serialize_tuple_variant")
def _(ev, st, args, e, c):
    return ok(data(vkey(args), data("seq", Lst([]))))


def put(ev, st, ref, x):
    d = ev.val(ref, st)
    if not isdata(d) or not isinstance(ref, MRef):
        raise Undecided("serializer state")

    def app(d):
        if isinstance(d.v[1], Lst):
            return Tup((d.v[0], Lst(d.v[1].v + (x,))))
        return Tup((d.v[0], app(d.v[1])))
    ev.write(ref.key, ref.proj, app(d), st)
    return ok(UNIT)


@model("SerializeStruct::serialize_field", "SerializeStructVariant::serialize_field", "SerializeMap::serialize_entry")
def _(ev, st, args, e, c):
    return put(ev, st, args[0], Tup([Opq(("lit", lit(ev.val(args[1], st)))), unok(ser_value(ev, st, args[2]))]))


@model("SerializeTupleStruct::serialize_field", "SerializeTupleVariant::serialize_field", "SerializeTuple::serialize_element", "SerializeSeq::serialize_element")
def _(ev, st, args, e, c):
    return put(ev, st, args[0], unok(ser_value(ev, st, args[1])))


@model("SerializeStruct::skip_field", "SerializeStructVariant::skip_field")
def _(ev, st, args, e, c):
    return ok(UNIT)


@model("SerializeStruct::end", "SerializeStructVariant::end", "SerializeMap::end", "SerializeTupleStruct::end", "SerializeTupleVariant::end", "SerializeTuple::end", "SerializeSeq::end")
def _(ev, st, args, e, c):
    return ok(ev.val(args[0], st))


# ------------------------------------------------------------------ reading
def de(d):
    return Tup([Opq(("de",)), d])


def dedata(v):
    if isinstance(v, Tup) and len(v.v) == 2 and isinstance(v.v[0], Opq) and v.v[0].what == ("de",):
        return v.v[1]
    raise Undecided("deserializer")


def visitor(ev, v, m):
    v = ev.unphi(v)
    if isinstance(v, Adt):
        b = ev.p.trait_method("serde::de::Visitor", v.path, m)
        if b is not None:
            return b
    return None


def visit(ev, st, vis, m, *args):
    b = visitor(ev, ev.val(vis, st), m)
    if b is None:
        return err(ERR)
    return ev.inline(b, [vis] + list(args), st, {})


def read(ev, st, ts, d, subst=None):
    """Result<T> for the type named ts"""
    ts = ts.strip()
    kind = d.v[0].what[1]
    if ts == "f64":
        return ok(tof(d.v[1])) if kind in ("f64", "int") else err(ERR)
    if ts == "f32":
        return ok(mk("fround", (tof(d.v[1]),), "R")) if kind in ("f64", "int") else err(ERR)
    if ts in ev.INTR:
        return ok(d.v[1]) if kind == "int" else err(ERR)
    if ts == "bool":
        return ok(d.v[1]) if kind == "bool" else err(ERR)
    if ts.endswith("IgnoredAny") or ts == "()":
        return ok(UNIT)
    if ts.endswith("string::String") or ts in ("&str", "&'de str"):
        return ok(d.v[1]) if kind == "str" else err(ERR)
    if ts.startswith("std::option::Option<"):
        if kind == "none":
            return ok(NONE)
        r = read(ev, st, ts[20:-1], d.v[1] if kind == "some" else d)
        return r if not isc(r.tag) or cv(r.tag) else ok(some(r.pay[0][0]))
    if ts.startswith("std::vec::Vec<") and kind == "seq":
        return ok(Lst([unok(read(ev, st, ts[14:-1], x)) for x in d.v[1].v]))
    if ts.startswith("(") and ts.endswith(")") and "<" not in ts and "(" not in ts[1:] and kind == "seq":
        parts = [x.strip() for x in ts[1:-1].split(",") if x.strip()]
        if len(parts) != len(d.v[1].v):
            return err(ERR)
        return ok(Tup([unok(read(ev, st, p, x)) for p, x in zip(parts, d.v[1].v)]))
    if ts.startswith("std::marker::PhantomData"):
        return ok(Opq(("zst", ts)))
    for tr in ("serde::Deserialize", "serde::de::Deserialize"):
        for im, key in ev.p.byitem.get((tr, "deserialize"), []):
            t = ev.p.types[im["self"]]
            if t["s"] == ts or (t.get("path") and t["path"] == base(ts)):
                return ev.inline(ev.p.bodies[key], [de(d)], st, {})
    raise Undecided("Deserialize of %s" % ts)


def base(ts):
    """type name without its trailing generic arguments"""
    if not ts.endswith(">"):
        return ts
    n = 0
    for i in range(len(ts) - 1, -1, -1):
        n += (ts[i] == ">") - (ts[i] == "<")
        if n == 0:
            return ts[:i]
    return ts


def targ(ev, c, i=-1):
    fr = ev.stack[-1] if ev.stack else None
    return ev.tystr(c["args"][i], fr.subst if fr else None)


@model("Deserialize::deserialize")
def _(ev, st, args, e, c):
    return read(ev, st, targ(ev, c, 0), dedata(ev.val(args[0], st)))


def generic(ev, st, d, vis, hint=None):
    """what a self-describing format would hand to the visitor"""
    if isinstance(vis, Opq) and vis.what == ("untagged unit",):
        return ok(UNIT) if d.v[0].what[1] == "none" else err(ERR)
    kind = d.v[0].what[1]
    if kind == "f64":
        return visit(ev, st, vis, "visit_f64", d.v[1])
    if kind == "int":
        for m in ("visit_u64", "visit_i64", "visit_f64"):
            if visitor(ev, ev.val(vis, st), m):
                return visit(ev, st, vis, m, tof(d.v[1]) if m == "visit_f64" else d.v[1])
        return err(ERR)
    if kind == "bool":
        return visit(ev, st, vis, "visit_bool", d.v[1])
    if kind == "str":
        return visit(ev, st, vis, "visit_str" if visitor(ev, ev.val(vis, st), "visit_str") else "visit_string", d.v[1])
    if kind == "map":
        if MODE[0] == "seq" and hint == "struct":
            return visit(ev, st, vis, "visit_seq", Tup([Opq(("acc",)), Lst([x.v[1] for x in d.v[1].v])]))
        return visit(ev, st, vis, "visit_map", Tup([Opq(("acc",)), d.v[1]]))
    if kind == "seq":
        return visit(ev, st, vis, "visit_seq", Tup([Opq(("acc",)), d.v[1]]))
    if kind == "newtype":
        return generic(ev, st, d.v[1], vis, hint)
    if kind == "none":
        return visit(ev, st, vis, "visit_none" if visitor(ev, ev.val(vis, st), "visit_none") else "visit_unit")
    raise Undecided("deserialize_any of %s" % kind)


for _n in ("any", "f64", "f32", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool", "str", "string", "seq", "map", "unit", "option"):
    def _f(ev, st, args, e, c, _n=_n):
        return generic(ev, st, dedata(ev.val(args[0], st)), args[1], "struct" if _n == "any" else _n)
    TABLE["Deserializer::deserialize_" + _n] = _f


@model("Deserializer::deserialize_tuple")
def _(ev, st, args, e, c):
    return generic(ev, st, dedata(ev.val(args[0], st)), args[2])


@model("Deserializer::deserialize_struct", "Deserializer::deserialize_tuple_struct")
def _(ev, st, args, e, c):
    return generic(ev, st, dedata(ev.val(args[0], st)), args[3], "struct")


@model("Deserializer::deserialize_newtype_struct")
def _(ev, st, args, e, c):
    d = dedata(ev.val(args[0], st))
    return visit(ev, st, args[2], "visit_newtype_struct", de(d.v[1] if d.v[0].what[1] == "newtype" else d))


@model("Deserializer::deserialize_unit_struct")
def _(ev, st, args, e, c):
    return visit(ev, st, args[2], "visit_unit")


@model("Deserializer::deserialize_ignored_any")
def _(ev, st, args, e, c):
    raise Undecided("deserialize_ignored_any")


@model("Deserializer::deserialize_identifier")
def _(ev, st, args, e, c):
    d = dedata(ev.val(args[0], st))
    if d.v[0].what[1] == "int":
        return visit(ev, st, args[1], "visit_u64", d.v[1])
    return visit(ev, st, args[1], "visit_str", d.v[1])


@model("Deserializer::deserialize_enum")
def _(ev, st, args, e, c):
    d = dedata(ev.val(args[0], st))
    if d.v[0].what[1] != "variant":
        return err(ERR)
    return visit(ev, st, args[3], "visit_enum", Tup([Opq(("enum",)), d]))


@model("EnumAccess::variant")
def _(ev, st, args, e, c):
    d = ev.val(args[0], st).v[1]
    k = d.v[0].what
    ident = data("str", Opq(("lit", k[2]))) if MODE[0] == "map" else data("int", I(k[3]))
    r = read(ev, st, targ(ev, c), ident)
    if isc(r.tag) and cv(r.tag) == 1:
        return r
    return ok(Tup([unok(r), Tup([Opq(("var",)), d.v[1]])]))


@model("VariantAccess::unit_variant")
def _(ev, st, args, e, c):
    return ok(UNIT)


@model("VariantAccess::newtype_variant")
def _(ev, st, args, e, c):
    return read(ev, st, targ(ev, c), ev.val(args[0], st).v[1])


@model("VariantAccess::tuple_variant", "VariantAccess::struct_variant")
def _(ev, st, args, e, c):
    return generic(ev, st, ev.val(args[0], st).v[1], args[2], "struct")


def access(ev, st, ref):
    a = ev.val(ref, st)
    if not isinstance(ref, MRef):
        raise Undecided("access")
    return a


@model("SeqAccess::next_element")
def _(ev, st, args, e, c):
    a = access(ev, st, args[0])
    xs = a.v[1].v
    if not xs:
        return ok(NONE)
    ev.write(args[0].key, args[0].proj, Tup([a.v[0], Lst(xs[1:])]), st)
    r = read(ev, st, targ(ev, c), xs[0])
    return r if isc(r.tag) and cv(r.tag) else ok(some(unok(r)))


@model("MapAccess::next_key")
def _(ev, st, args, e, c):
    xs = access(ev, st, args[0]).v[1].v
    if not xs:
        return ok(NONE)
    r = read(ev, st, targ(ev, c), data("str", xs[0].v[0]))
    return r if isc(r.tag) and cv(r.tag) else ok(some(unok(r)))


@model("MapAccess::next_value")
def _(ev, st, args, e, c):
    a = access(ev, st, args[0])
    xs = a.v[1].v
    ev.write(args[0].key, args[0].proj, Tup([a.v[0], Lst(xs[1:])]), st)
    return read(ev, st, targ(ev, c), xs[0].v[1])


@model("MapAccess::next_entry")
def _(ev, st, args, e, c):
    a = access(ev, st, args[0])
    xs = a.v[1].v
    if not xs:
        return ok(NONE)
    ev.write(args[0].key, args[0].proj, Tup([a.v[0], Lst(xs[1:])]), st)
    k = read(ev, st, targ(ev, c, -2), data("str", xs[0].v[0]))
    v = read(ev, st, targ(ev, c), xs[0].v[1])
    return ok(some(Tup([unok(k), unok(v)])))


@model("de::missing_field")
def _(ev, st, args, e, c):
    if ev.ty(e["ty"])["s"].startswith("std::result::Result<std::option::Option<"):
        return ok(NONE)
    return err(ERR)


for _n in ("custom", "invalid_length", "invalid_type", "invalid_value", "unknown_variant", "unknown_field", "missing_field", "duplicate_field"):
    TABLE["Error::" + _n] = lambda ev, st, args, e, c: ERR


def guarded(d):
    """first slot of the tree whose presence depends on the value: its guard, and the trees with and without it"""
    if isinstance(d, Lst):
        for i, x in enumerate(d.v):
            if d.guard(i) is not TRUE:
                g = list(d.g)
                g[i] = TRUE
                return d.guard(i), Lst(d.v, g), Lst(d.v[:i] + d.v[i + 1:], g[:i] + g[i + 1:])
            r = guarded(x)
            if r:
                return r[0], Lst(d.v[:i] + (r[1],) + d.v[i + 1:], d.g), Lst(d.v[:i] + (r[2],) + d.v[i + 1:], d.g)
    if isinstance(d, Tup):
        for i, x in enumerate(d.v):
            r = guarded(x)
            if r:
                return r[0], Tup(d.v[:i] + (r[1],) + d.v[i + 1:]), Tup(d.v[:i] + (r[2],) + d.v[i + 1:])
    return None


def roundtrip(ev, st, v, ts, mode):
    """Result<T>: deserialize(serialize(v))"""
    d = unok(ser_value(ev, st, v))

    def go(d, s):
        g = guarded(d)
        if g is None:
            return read(ev, s, ts, d)
        if mode == "seq":
            raise Undecided("fields left out in a positional format")
        return ev.branch(s, g[0], lambda s1: go(g[1], s1), lambda s2: go(g[2], s2))
    MODE[0] = mode
    return go(d, st)


# untagged enums: the content is read first and tried against the variants in order
@model("ContentVisitor::new")
def _(ev, st, args, e, c):
    return Opq(("content",))


@model("UntaggedUnitVisitor::new")
def _(ev, st, args, e, c):
    return Opq(("untagged unit",))


@model("DeserializeSeed::deserialize")
def _(ev, st, args, e, c):
    if isinstance(args[0], Opq) and args[0].what == ("content",):
        return ok(dedata(ev.val(args[1], st)))
    raise Undecided("DeserializeSeed")


@model("ContentRefDeserializer::new", "ContentDeserializer::new")
def _(ev, st, args, e, c):
    return de(ev.val(args[0], st))
