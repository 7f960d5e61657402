"""Runs the THIR dumper on /repo's current working tree and indexes the result."""
import json
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VG_REPO", "/repo")


class FrontendError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def driver():
    exe = os.path.join(HERE, ".build/driver/release/vgdump")
    if not os.path.exists(exe):
        r = subprocess.run(["bash", os.path.join(HERE, "driver/build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise FrontendError("driver build failed:\n" + r.stdout[-3000:])
    return exe


def serde_lib():
    """compiler arguments naming the serde library, built once with the front end's compiler"""
    import glob
    root = os.path.join(HERE, ".build/serde")
    find = lambda pat: sorted(glob.glob(os.path.join(root, "**", pat), recursive=True))
    if not find("libserde-*.rmeta"):
        r = subprocess.run(["bash", os.path.join(HERE, "driver/build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise FrontendError("serde build failed:\n" + r.stdout[-3000:])
    dirs = {os.path.dirname(x) for x in find("libserde*.rlib") + find("libserde_derive*.so")}
    return ["--cfg", 'feature="serde"', "--extern", "serde=" + find("libserde-*.rmeta")[0]] + [x for d in sorted(dirs) for x in ("-L", "dependency=" + d)]


def dump(repo=REPO, serde=False):
    exe = driver()
    sr = sysroot()
    ed = "2021"
    try:
        m = re.search(r'^\s*edition\s*=\s*"(\d+)"', open(os.path.join(repo, "Cargo.toml")).read(), re.M)
        if m:
            ed = m.group(1)
    except OSError:
        pass
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    env = dict(os.environ, LD_LIBRARY_PATH=sr + "/lib", VGDUMP_OUT=out)
    try:
        r = subprocess.run([exe, "--edition", ed, "--crate-type", "lib", "--crate-name", "skillratings", "-Zno-steal-thir",
                            "--sysroot", sr, "--cap-lints", "allow", os.path.join(repo, "src/lib.rs")] + (serde_lib() if serde else []),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=repo)
        if r.returncode:
            raise FrontendError("front end failed on %s:\n%s" % (repo, r.stdout[-3000:]))
        return json.load(open(out))
    finally:
        os.unlink(out)


class Prog:
    def __init__(self, d):
        self.types = d["types"]
        self.bodies = {b["def"]: b for b in d["bodies"]}
        self.bypath = {}
        for b in d["bodies"]:
            self.bypath.setdefault(b["path"], b)
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.statics = d["statics"]
        # trait name (without generics) -> [(self type string, {item: key})]
        self.byitem = {}
        for im in self.impls:
            if im.get("trait"):
                for it in im["items"]:
                    if it[0] != "type":
                        self.byitem.setdefault((im["trait"], it[0]), []).append((im, it[1]))

    def fn(self, path):
        b = self.bypath.get(path)
        if b is None:
            raise Missing(path)
        return b

    def has(self, path):
        return path in self.bypath

    def nfields(self, path, vi):
        a = self.adts.get(path)
        return len(a["variants"][vi]["fields"]) if a else None

    def fields(self, path, vi=0):
        return [f["name"] for f in self.adts[path]["variants"][vi]["fields"]]

    def variants(self, path):
        return [v["name"] for v in self.adts[path]["variants"]]

    def trait_method(self, trait, selfpath, method):
        """body of the implementation of trait::method for the type named selfpath"""
        for im, key in self.byitem.get((trait, method), []):
            t = self.types[im["self"]]
            if t["s"] == selfpath or t.get("path") == selfpath:
                return self.bodies.get(key)
        return None

    def same_trait(self, ev, im, c, subst):
        """From<A> for T and From<B> for T are different implementations"""
        if c["trait"] not in ("std::convert::From", "std::convert::Into"):
            return True
        x, y = im.get("args", ()), c.get("args", ())
        return len(x) < 2 or len(y) < 2 or strip(self.types[x[1]]["s"]) == strip(ev.tystr(y[1], subst))

    def find_impl(self, ev, c, args, subst, st):
        from .values import Adt, MRef
        cands = self.byitem.get((c["trait"], c["method"]))
        if not cands:
            return None
        want = None
        if "impl_self" in c:
            want = ev.tystr(c["impl_self"], subst)
        elif c.get("args"):
            want = ev.tystr(c["args"][0], subst)
        recv = ev.val(args[0], st) if args else None
        for im, key in cands:
            s = self.types[im["self"]]["s"]
            if want is not None and strip(s) == strip(want) and self.same_trait(ev, im, c, subst):
                return self.bodies.get(key)
        if c["trait"] in ("std::convert::From", "std::convert::Into"):
            return None
        if isinstance(recv, Adt):
            for im, key in cands:
                if self.types[im["self"]].get("path") == recv.path:
                    return self.bodies.get(key)
        return None


def strip(s):
    return s.lstrip("&").replace("mut ", "").strip()


class Missing(Exception):
    pass


def load(repo=REPO, serde=False):
    return Prog(dump(repo, serde))
