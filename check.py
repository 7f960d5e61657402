#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current source. Exit 0 quiet, 1 with VIOLATION lines."""
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
T0 = time.time()
OBS = []
DEEP = False
DEADLINE = 0
PASS = 0


def work(i):
    o = OBS[i]
    if time.time() > DEADLINE:
        return i, "undecided", o.how or "time budget of the run", None, o.t
    try:
        if PASS:
            o.again(PASS)
        else:
            o.decide(DEEP)
    except RecursionError:
        o.status, o.how = "undecided", "recursion"
    except MemoryError:
        o.status, o.how = "undecided", "memory"
    except Exception as e:
        if os.environ.get("VG_RAISE"):
            raise
        o.status, o.how = "undecided", "internal %s: %s" % (type(e).__name__, e)
    return i, o.status, o.how, o.witness, o.t


def farm(todo, k):
    """forked workers pulling indices; a worker that dies (memory, stack) costs only the obligation it was deciding"""
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    todo = list(todo)[::-1]
    live = {}

    def serve(conn):
        while True:
            i = conn.recv()
            if i is None:
                os._exit(0)
            conn.send(work(i))

    def spawn():
        a, b = ctx.Pipe()
        pr = ctx.Process(target=serve, args=(b,), daemon=True)
        pr.start()
        b.close()
        live[a] = [pr, None, 0.0]
        give(a)

    def give(a):
        if todo:
            live[a][1], live[a][2] = todo.pop(), time.time()
            a.send(live[a][1])
        else:
            pr = live.pop(a)[0]
            try:
                a.send(None)
            except OSError:
                pass
            pr.join(1)

    for _ in range(k):
        spawn()
    while live:
        for a in wait(list(live), timeout=5):
            try:
                r = a.recv()
                yield r
                give(a)
            except (EOFError, OSError):
                pr, i, _ = live.pop(a)
                pr.join(1)
                if i is not None:
                    yield i, "undecided", "analysis process ended", None, 0.0
                if todo:
                    spawn()
        for a in list(live):
            pr, i, t = live[a]
            if time.time() > max(DEADLINE, t + 30) + 20:
                live.pop(a)
                pr.kill()
                pr.join(1)
                yield i, "undecided", "time budget of the run", None, 0.0
                if todo:
                    spawn()


def main():
    global OBS, DEEP, DEADLINE, PASS
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    verbose = "-v" in sys.argv
    DEEP = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import rules.all
    from rules.reg import PROPS
    from vg.api import Ctx, Missing, FrontendError
    ctx = Ctx(pid, DEEP)
    rule = PROPS[pid]
    with ctx.group("rule"):
        rule.fn(ctx)
    if "--list" in sys.argv:
        for o in ctx.obs:
            print(o.name)
        return 0
    # identical obligations are decided once
    seen, OBS = {}, []
    for o in ctx.obs:
        k = (o.name if o.kind == "bool" and o.a.op == "c" else o.kind, o.a.id, o.b.id if o.b is not None else 0, tuple(f.id for f in o.facts), id(o.dom))
        if k not in seen:
            seen[k] = o
            OBS.append(o)
    # quick: normally done within seconds; the budget only matters for code that makes the proofs harder, or on a loaded machine
    DEADLINE = T0 + 780 if DEEP else min(T0 + 600, time.time() + float(os.environ.get("VG_BUDGET", "240")))
    n = len(OBS)
    # cheap ones (identical graphs) in process, the rest in forked workers
    todo = []
    nbad = 0
    known = load_known(pid)
    for i, o in enumerate(OBS):
        if o.kind == "eq" and o.a is o.b or o.kind == "bool" and o.a.op == "c":
            work(i)
        else:
            todo.append(i)
    if todo:
        for i, st, how, wit, t in farm(todo, min(8, len(todo))):
            OBS[i].status, OBS[i].how, OBS[i].witness, OBS[i].t = st, how, wit, t
            if st == "refuted" and OBS[i].name not in known:
                nbad += 1
                if nbad >= 12 and not DEEP:
                    DEADLINE = 0        # enough violations to report
                    break
    # what is left undecided gets further candidate boxes for a while
    stop = min(DEADLINE, time.time() + (240 if DEEP else float(os.environ.get("VG_EXTRA", "12"))))
    while not nbad and time.time() < stop:
        left = [i for i, o in enumerate(OBS) if o.status == "undecided" and o.how != "time budget of the run"]
        if not left:
            break
        PASS, DEADLINE = PASS + 1, stop
        for i, st, how, wit, t in farm(left, min(8, len(left))):
            OBS[i].status, OBS[i].how, OBS[i].witness, OBS[i].t = st, how, wit, t
            nbad += st == "refuted" and OBS[i].name not in known
    cnt = {"proved": 0, "refuted": 0, "undecided": 0}
    for o in OBS:
        if o.status is None:
            o.status, o.how = "undecided", "not examined: enough violations found"
        cnt[o.status] += 1
    bad, knownhit = {}, {}
    for o in OBS:
        if o.status == "refuted":
            key = o.name
            (knownhit if key in known else bad).setdefault(key, o)
    floors = load_floors()
    short = None
    fl = floors.get(pid)
    if fl and ctx.instances < fl and not bad:
        short = "only %d obligations were generated, %d are expected" % (ctx.instances, fl)
    hows = {}
    for o in OBS:
        h = "%s: %s" % (o.status, (o.how or "").split(" (")[0][:60])
        hows[h] = hows.get(h, 0) + 1
    und = sorted({o.name for o in OBS if o.status == "undecided"})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": rule.explain + " Value graphs of the listed functions were computed from the type-checked source (THIR) of the working tree; "
            "an obligation is 'proved' when the normal forms of both sides coincide in every sign cell of its guards or interval analysis "
            "establishes the relation on the whole domain, 'refuted' when interval analysis shows that every point of a concrete input box violates it.",
            "obligations": n, "discharged": cnt["proved"], "refuted": cnt["refuted"], "undecided": cnt["undecided"],
            "obligations_before_dedup": len(ctx.obs),
            "undecided_names": und[:60],
            "how": hows,
            "functions_analysed": sorted(ctx.fns),
            "abstract_evaluations": ctx.calls,
            "panic_sites_seen": len(ctx.sites),
            "unmodelled": ctx.unmodelled[:40],
            "samples": [{"name": o.name, "where": o.where, "status": o.status, "how": o.how} for o in OBS[:: max(1, n // 6)]][:8],
        },
        "assumptions": ["real-number semantics of f64 (rounding, overflow and NaN propagation are outside the abstraction)",
                        "list lengths: those unrolled by the rule (named in each obligation)"],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(bad),
    }
    evid = os.environ.get("VG_EVID", os.path.join(HERE, "evidence"))
    os.makedirs(evid, exist_ok=True)
    with open(os.path.join(evid, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d obligations over %d functions, %d proved, %d refuted, %d undecided, %d unmodelled groups, %.1fs" % (
        pid, tier, n, len(ctx.fns), cnt["proved"], cnt["refuted"], cnt["undecided"], len(ctx.unmodelled), time.time() - T0))
    if verbose:
        for o in sorted(OBS, key=lambda o: o.status):
            print("  %-9s %.1fs %s | %s" % (o.status, o.t, o.name, o.how))
        for u in ctx.unmodelled:
            print("  UNMODELLED", u)
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if not bad:
        if short:
            print("note: " + short)
        return 0
    rd = os.path.join(evid, "replay")
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, pid + ".json")
    rep = []
    for k, o in bad.items():
        rep.append({"obligation": k, "construct": o.where, "relation": o.kind, "witness_box": o.witness and o.witness.get("box"),
                    "values": o.witness and o.witness.get("values"), "facts": [str(f) for f in o.facts],
                    "lhs": str(o.a)[:2000], "rhs": str(o.b)[:2000] if o.b is not None else None})
    with open(rp, "w") as f:
        json.dump(rep, f, indent=1, default=str)
    for k, o in list(bad.items())[:20]:
        w = o.witness or {}
        print("  broken: %s\n    at %s\n    for every input in %s\n    values %s" % (k, o.where, fmt(w.get("box")), fmt(w.get("values"))))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


def fmt(d):
    if not d:
        return "(all inputs)"
    out = []
    for k, v in d.items():
        if isinstance(v, (tuple, list)) and len(v) == 2 and all(isinstance(x, (int, float)) for x in v):
            out.append("%s=%s" % (k, "%.9g" % v[0] if v[0] == v[1] else "[%.9g,%.9g]" % tuple(v)))
        else:
            out.append("%s=%s" % (k, v))
    return ", ".join(out)


def load_known(pid):
    p = os.path.join(HERE, "known-findings.txt")
    out = set()
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            pre = "known: property=%s " % pid
            if l.startswith(pre):
                out.add(l[len(pre):])
    return out


def load_floors():
    p = os.path.join(HERE, "rules", "floors.json")
    return json.load(open(p)) if os.path.exists(p) else {}


if __name__ == "__main__":
    import resource
    if not os.environ.get("VG_STACK"):
        os.environ["VG_STACK"] = "1"
        os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
        try:
            hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
            want = 2 << 30
            resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
        except (ValueError, OSError):
            pass
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
