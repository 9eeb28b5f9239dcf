"""Loading: which file a name finds, what runs, and what comes of it."""
import os
import shutil
from ..engine import Part
from .. import strs, build
from . import common, c14

ID = "C23"
RULE = ("trees of modules (source, bytecode compiled by the tool itself, shared library, other files, directories, in several directories of the search path) and programs which load some of them, by name, with extension, from a "
        "variable, nested and repeatedly (also more often than files may be open), are compared with a model of the search; some run under generated schedules of collections; non-trivial: at least three loads find a file, from two directories")
ASSUMPTIONS = ["the library directory of the installation prefix does not exist"]


def prepare(paths):
    g = build.build("gc")
    return {"gc": g.potion, "so": os.path.join(paths.lib, "potion/buffile.so"), "gcso": os.path.join(g.lib, "potion/buffile.so")}


EXTS = [".pnb", ".pn", ".so"]
DIRS = ["lib/potion", ".", "d1", "d.2", "d1/sub", "ö d"]
NAMES = ["m0", "m1", "m2", "sub", "sub/m0", "sub/m1", "ö", "a.b", "buffile"]


class World:
    def __init__(self, c):
        self.c = c
        self.files = {}           # path -> kind, source or None
        self.count = 0
        self.err = []
        self.found = set()
        self.loads = 0
        self.many = False
        for _ in range(c.n(2, 14)):
            d, n = c.pick(DIRS), c.pick(NAMES[:-1])
            k = c.weighted([(10, ".pn"), (6, ".pnb"), (2, ""), (2, ".txt"), (1, ".so")])
            p = n + k if c.bool(4, 5) else n + "/" + n.split("/")[-1] + k
            p = os.path.normpath(d + "/" + p)
            if any(q == p or q.startswith(p + "/") or p.startswith(q + "/") for q in self.files):
                continue
            # a directory of that name is no module
            self.files[p] = {"kind": "dir"} if k == ".so" or c.bool(1, 8) else self.module(k)
        if c.bool(1, 3):
            p = os.path.normpath(c.pick(DIRS) + "/buffile.so")
            if not any(q == p or q.startswith(p + "/") or p.startswith(q + "/") for q in self.files):
                self.files[p] = {"kind": ".so"}
        self.opts = [d for d in c.shuffle(["d1", "d.2", "./d.2", "d1/sub", "ö d", "none"])[:c.n(0, 4)]]

    def module(self, k):
        """lines of a module: what they do is played by run()"""
        c = self.c
        self.count += 1
        tag = "M%d" % self.count
        body = []
        for _ in range(c.n(0, 3)):
            q = c.raw(6)
            if q < 2:
                body.append(["say", "%s-%d" % (tag, c.n(0, 9))])
            elif q == 2:
                body.append(["global", c.pick("ABC"), c.n(0, 99)])
            elif q == 3:
                body.append(["get", c.pick("ABC")])
            elif q == 4:
                body.append(["load", c.pick(NAMES[:-1])])
            else:
                body.append(["method", c.pick(["twice", "inc"]), c.n(1, 9)])
        q = c.raw(5)
        val = [["str", tag], ["num", c.n(-5, 5)], ["nil"], ["str", tag * 9], ["pad", c.n(100, 3000)]][q]
        return {"kind": k, "body": body, "val": val}

    def source(self, m):
        out = []
        for b in m["body"]:
            if b[0] == "say":
                out.append("'%s' say" % b[1])
            elif b[0] == "global":
                out.append("%sx = %d" % (b[1], b[2]))
            elif b[0] == "get":
                out.append("%sx say" % b[1])
            elif b[0] == "load":
                out.append("Depth = Depth - 1\nif (Depth > 0): load '%s'." % b[1])
            else:
                out.append("Number %s = (): self * 2 + %d." % (b[1], b[2]))
        v = m["val"]
        out.append({"str": lambda: "'%s'" % v[1], "num": lambda: str(v[1]), "nil": lambda: "nil", "pad": lambda: "x = '%s'\nx length" % ("p" * v[1])}[v[0]]())
        return "\n".join(out) + "\n"

    def names(self):
        """of what there is"""
        out = []
        for p in self.files:
            for d in DIRS:
                if d == ".":
                    d = ""
                elif not p.startswith(d + "/"):
                    continue
                else:
                    d += "/"
                n = p[len(d):]
                for e in EXTS:
                    if n.endswith(e):
                        n = n[:-len(e)]
                out.append(n)
                x = n.split("/")
                if len(x) > 1 and x[-1] == x[-2]:
                    out.append("/".join(x[:-1]))
        return out

    def find(self, name):
        for d in ["lib/potion", "."] + self.opts:
            for p in (d + "/" + name, d + "/" + name + "/" + name.split("/")[-1]):
                for e in [""] + EXTS:
                    q = os.path.normpath(p + e)
                    if q in self.files and self.files[q]["kind"] != "dir":
                        return d, q, p + e
        return None

    def load(self, name, st):
        """the value as printed; runs the module"""
        f = self.find(name)
        if f is None:
            self.err.append("** can't find %s" % name)
            return "nil"
        d, q, p = f
        self.found.add(d)
        self.loads += 1
        m = self.files[q]
        if m["kind"] == ".so":
            st["lib"] = True
            return None
        # the extension is what follows the last dot
        e = p.rsplit(".", 1)[1] if "." in p else ""
        if e not in ("pn", "pnb"):
            return "nil"
        for b in m["body"]:
            if b[0] == "say":
                self.out.append(b[1])
            elif b[0] == "global":
                st[b[1]] = b[2]
            elif b[0] == "get":
                self.out.append(str(st[b[1]]))
            elif b[0] == "load":
                st["Depth"] -= 1
                if st["Depth"] > 0:
                    self.load(b[1], st)
            else:
                st[b[1]] = b[2]
        v = m["val"]
        return {"str": lambda: v[1], "num": lambda: str(v[1]), "nil": lambda: "nil", "pad": lambda: str(v[1])}[v[0]]()

    def program(self):
        c = self.c
        st = {"A": 1, "B": 2, "C": 3, "Depth": 8, "twice": 0, "inc": 0}
        lines = ["Ax = 1", "Bx = 2", "Cx = 3", "Depth = 8", "Number twice = (): self * 2.", "Number inc = (): self * 2."]
        self.out = []
        for i in range(c.n(2, 14)):
            q = c.raw(8)
            if q == 0:
                n = c.pick(["twice", "inc"])
                lines.append("7 %s say" % n)
                self.out.append(str(14 + st[n]))
                continue
            if q == 1:
                g = c.pick("ABC")
                lines.append("%sx say" % g)
                self.out.append(str(st[g]))
                continue
            if q == 2 and c.bool(1, 2):
                d = c.pick(["d1", "d.2", "ö d", "d1/sub/.."])
                if d not in self.opts and (d != "d1/sub/.." or any(x.startswith("d1/sub/") for x in self.files)):
                    lines.append("LOADER_PATH push('%s')" % d)
                    self.opts.append(d)
                continue
            if q == 3:
                lines.append(c.pick(["list(30000)", "300 times (i): ('j', i) string."]))
                continue
            n = c.pick(NAMES if not self.files or c.bool(1, 4) else self.names())
            if c.bool(1, 4):
                n += c.pick([".pn", ".pnb"])
            if c.bool(1, 10):
                n = "./" + n
            kind = self.find(n)
            if kind and self.files[kind[1]]["kind"] != ".so" and c.bool(1, 12):
                # more often than there may be open files
                k = c.n(20, 40)
                lines.append("z = 0\nwhile (z < %d): x = load(%s), z++.\nx say" % (k, strs.literal(c, n)))
                for _ in range(k):
                    v = self.load(n, st)
                self.out.append(v)
                self.many = True
                continue
            v = self.load(n, st)
            src = strs.literal(c, n)
            if kind and self.files[kind[1]]["kind"] == ".so":
                lines.append("load %s\nfopen('probe', 'w') close say" % src)
                self.out.append("0")
                continue
            if c.bool(1, 6):
                lines.append(c.pick(["x = %s load", "x = 'zz' load(%s)", "x = 7 load(%s)"]) % src + "\nx say")
                self.out.append(v)
            elif c.bool(1, 3):
                lines.append("n%d = %s\nload(n%d) say\nn%d say" % (i, src, i, i))
                self.out += [v, n]
            else:
                lines.append("load %s say" % src if 0 else "x = load(%s)\nx say" % src)
                self.out.append(v)
        return "\n".join(lines) + "\n"


def gen(c):
    w = World(c)
    opts = list(w.opts)
    src = w.program()
    k = {"src": src, "exp": "".join(x + "\n" for x in w.out), "err": w.err, "opts": [("-L" + d if c.bool() else ["-L", d]) for d in opts],
         "files": {p: [m["kind"], None if m["kind"] in (".so", "dir") else w.source(m)] for p, m in w.files.items()}, "nt": len(w.found) > 1 and w.loads > 2, "e": c.bool(1, 4), "many": w.many}
    if w.many:
        c.tag("many loads")
    if c.bool(1, 4):
        k["sched"] = c14.schedule(c)
    return k


def check(ctx, case):
    sched = case.get("sched")
    d = ctx.fresh("tree")
    if case["files"].get("lib/potion") is None:
        os.makedirs(os.path.join(d, "lib/potion"))
    for p, (kind, src) in case["files"].items():
        f = os.path.join(d, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if kind == "dir":
            os.makedirs(f)
            continue
        if kind == ".so":
            shutil.copyfile(ctx.extra["gcso" if sched else "so"], f)
            continue
        s = f[:-1] if kind == ".pnb" else f
        with open(s if kind != ".pnb" else s + "x", "w", encoding="utf-8") as o:
            o.write(src)
        if kind == ".pnb":
            ctx.run([ctx.potion, "-c", s + "x"], cwd=d)
            os.rename(s + "xb", f)
            os.remove(s + "x")
    opts = []
    for o in case["opts"]:
        opts += [o] if isinstance(o, str) else o
    for m in ("-B", "-X"):
        src, s = case["src"], sched
        env = None
        if sched and m == "-X":
            src, s = "list(60000)\n" + src, "@400000:" + sched
        if sched:
            env = {"POTION_GC_SCHEDULE": s}
        f = ctx.write("t.pn", src)
        argv = [ctx.extra["gc"] if sched else ctx.potion, m] + opts + (["-e", src] if case["e"] else [f])
        if case.get("many"):
            argv = ["/bin/sh", "-c", 'ulimit -n 24; exec "$@"', "sh"] + argv
        r = ctx.run(argv, cwd=d, env=env)
        e = common.diff(case["exp"], r, {"-B": "bytecode VM", "-X": "JIT"}[m] + (" collecting at " + s if s else ""))
        if e:
            return e + " (stderr %r)" % r.err[-300:].decode("utf-8", "replace")
        missing = [x for x in r.err.decode("utf-8", "replace").splitlines() if x.startswith("** can't find")]
        if missing != case["err"]:
            return "%s: reports %r instead of %r" % (m, missing, case["err"])
    return None


PARTS = [Part("search", gen, check, 2000, 80000, nontrivial=lambda k: k["nt"], show=lambda k: k)]
