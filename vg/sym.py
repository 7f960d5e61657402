"""Symbolic inputs from types."""
from .term import *
from .values import *


def build(p, ti, name, lens=None, k=2, enums=None):
    """a fresh symbolic value of type index ti. lens: list lengths by name prefix"""
    t = p.types[ti]
    s = t["s"]
    if t["k"] == "ref":
        return build(p, t["t"], name, lens, k, enums)
    if s in ("f64", "f32"):
        return var(name, "R")
    if s == "bool":
        return var(name, "B")
    if s in ("usize", "u64", "u32", "u8", "u16"):
        return var("n:" + name, "I")
    if s in ("i64", "i32", "isize", "i16", "i8"):
        return var("i:" + name, "I")
    if t["k"] == "tuple":
        return Tup([build(p, x, "%s.%d" % (name, i), lens, k, enums) for i, x in enumerate(t["ts"])])
    if t["k"] in ("slice", "array"):
        n = (lens or {}).get(name, t.get("n", k))
        return Lst([build(p, t["t"], "%s[%d]" % (name, i), lens, k, enums) for i in range(int(n))])
    if t["k"] == "adt":
        if t["path"].endswith("vec::Vec"):
            n = (lens or {}).get(name, k)
            return Lst([build(p, t["args"][0], "%s[%d]" % (name, i), lens, k, enums) for i in range(n)])
        if t["path"] == OPTION:
            return Adt(OPTION, var("n:%s.tag" % name, "I"), {0: (), 1: (build(p, t["args"][0], name + ".some", lens, k, enums),)})
        a = p.adts[t["path"]]
        vs = a["variants"]
        pay = {}
        for vi, v in enumerate(vs):
            pre = name + "." if len(vs) == 1 else "%s.%s." % (name, v["name"])
            pay[vi] = tuple(build(p, f["ty"], pre + f["name"], lens, k, enums) for f in v["fields"])
        tag = I(0) if len(vs) == 1 else var("e:%d:%s" % (len(vs), name), "I")
        return Adt(t["path"], tag, pay)
    raise Undecided("symbolic %s" % s)
