"""Garbage collection cannot be observed: whenever it runs, programs print the same."""
import importlib
from .. import build, strs
from ..engine import Part
from . import common

ID = "C14"
RULE = ("programs of all the language checks, and histories on graphs of long-lived objects of every kind, run under a generated schedule of collections: at any one "
        "allocation of the program (reading, compiling or running), further ones at least 64 KB of allocations apart, minor and full ones mixed, or as they come by themselves "
        "after garbage of a generated size; output must be the one expected without any collection; non-trivial: the schedule has at least two collections or the history is long")
ASSUMPTIONS = ["the scheduled collections use the guarded hook POTION_GC_SCHEDULE; they are no closer together than a quarter of what separates collections without it"]

GAP = 65536


def prepare(paths):
    return build.build("gc").potion


def schedule(c):
    first = c.weighted([(3, c.n(0, 3000)), (3, c.n(0, 20000)), (3, c.n(0, 80000)), (2, c.n(0, 400000))])
    out = [first]
    for _ in range(c.n(1, 12)):
        out.append(GAP + c.weighted([(3, c.n(0, 4000)), (2, c.n(0, 60000)), (1, c.n(0, 300000))]))
    return ",".join("%d%s" % (x, c.pick(["", "", "f"])) for x in out)


def drawn(c):
    from . import c02, c03, c04, c05, c06, c08, c09, c11, c12, c13
    g = c.weighted([(3, c05.gen), (2, c05.counters), (2, c05.deep), (1, c02.gen), (1, c04.gen), (2, c06.positional), (1, c06.flexible), (1, c06.signatures), (1, c03.gen), (3, c08.gen), (1, c08.wide),
                    (2, c09.PARTS[0].gen), (3, c11.gen), (3, c12.gen), (2, c13.gen)])
    k = g(c)
    c.tag("from " + g.__module__[-3:])
    return {"src": k["src"], "exp": k["exp"], "modes": k.get("modes", ["-B", "-X"]), "sched": schedule(c), "nt": True}


def check(ctx, case):
    if case["exp"] is None:
        return None
    for m in case.get("modes", ("-B", "-X")):
        src, s = case["src"], case["sched"]
        if m == "-X":
            # from the start of the program on; the compiler of the JIT is done by then
            src, s = "list(60000)\n" + src, "@400000:" + s
        f = ctx.write("t.pn", src)
        r = ctx.run([ctx.extra, m, f], env={"POTION_GC_SCHEDULE": s})
        d = common.diff(case["exp"], r, {"-B": "bytecode VM", "-X": "JIT"}[m] + " collecting at " + s)
        if d:
            return d
    return None


KINDS = ["tuple", "table", "object", "closure", "box", "wide", "grown"]

HEAD = """Node = class (v, a, b):
  /v = v
  /a = a
  /b = b.
Node v = (): /v.
Node a = (): /a.
Node b = (): /b.
Node w = (x): /v = x.
Node c = (x): /a = x.
Node d = (x): /b = x.
mkc = (v, a, b):
  (m, x):
    r = v
    if (m == 1): r = a. elsif (m == 2): r = b.
    elsif (m == 3): v = x. elsif (m == 4): a = x. elsif (m == 5): b = x.
    r.
.
mkb = (v, a, b):
  (():v., (x):v = x., ():a., (x):a = x., ():b., (x):b = x.).
Wide = class (v, a, b):
  /p0 = 0, /p1 = 1, /p2 = 2, /p3 = 3, /p4 = b, /p5 = 5, /p6 = 6, /p7 = 7, /p8 = 8, /p9 = v, /pa = 10, /pb = 11, /pc = a, /pd = 13.
Wide v = (): /p9.
Wide a = (): /pc.
Wide b = (): /p4.
Wide w = (x): /p9 = x.
Wide c = (x): /pc = x.
Wide d = (x): /p4 = x.
mkg = (v, a, b):
  t = ()
  t push(v)
  t push(a)
  t push(b)
  6 times (i): t push(i).
  t.
"""


def make(kind, v, a, b):
    return {"tuple": "(%s, %s, %s)", "table": "('v'=%s, 'a'=%s, 'b'=%s)", "object": "Node(%s, %s, %s)", "wide": "Wide(%s, %s, %s)", "grown": "mkg(%s, %s, %s)", "closure": "mkc(%s, %s, %s)", "box": "mkb(%s, %s, %s)"}[kind] % (v, a, b)


def get(kind, e, f):
    i = "vab".index(f)
    if kind in ("tuple", "grown"):
        return "%s at(%d)" % (e, i)
    if kind == "table":
        return "%s at('%s')" % (e, f)
    if kind in ("object", "wide"):
        return "%s %s" % (e, f)
    if kind == "closure":
        return "%s(%d, 0)" % (e, i)
    return "%s(%d)" % (e, 2 * i), "()"


def put(kind, e, f, x):
    i = "vab".index(f)
    if kind in ("tuple", "grown"):
        return "%s put(%d, %s)" % (e, i, x)
    if kind == "table":
        return "%s put('%s', %s)" % (e, f, x)
    if kind in ("object", "wide"):
        return "%s %s(%s)" % (e, "wcd"[i], x)
    if kind == "closure":
        return "%s(%d, %s)" % (e, i + 3, x)
    return None


class Graph:
    """N numbered slots n(0) .. n(N-1) hold nodes of five kinds, each with a value and two links to other nodes"""

    def __init__(self, c):
        self.c = c
        self.N = c.pick([3, 5, 8, 13])
        self.src = [HEAD + "n = list(%d)" % self.N]
        self.exp = []
        self.slots = [None] * self.N
        self.t = 0
        self.size = 0
        self.methods = {}       # (kind of node, name) -> what the method answers
        self.meta = {}

    def value(self):
        """source of a value made at run time, and how it prints"""
        c = self.c
        k = c.n(0, 9999)
        s = c.pick(["", "x", "long " * c.n(1, 20)])
        kind = c.weighted([(3, "join"), (2, "num"), (2, "double"), (1, "str"), (1, "tuple"), (1, "conc"), (1, "error"), (1, "bytes"), (1, "lick"), (1, "file")])
        if kind == "num":
            return "%d" % k, "%d" % k
        if kind == "double":
            return "%d + 0.5" % k, "%d.5" % k
        if kind == "join":
            return "('%s', %d) join" % (s, k), "%s%d" % (s, k)
        if kind == "str":
            return "'s%d'" % k, "s%d" % k
        if kind == "error":
            return "File('/nonexistent/%d', 'r')" % k, "** Error open: No such file or directory\n"
        if kind == "bytes":
            return "('%s', %d) join bytes" % (s, k), "%s%d" % (s, k)
        if kind == "file":
            # many names of one file, made at run time
            m = c.n(1, 60)
            return "File(('/dev', '%s', 'null') join, 'r')" % ("/" * m), "<file /dev%snull fd: #>" % ("/" * m)
        if kind == "lick":
            return "[item (%d, 'a%d') 'text']" % (k, k), "[item text (%d, a%d)]" % (k, k)
        if kind == "conc":
            return "'%s%d' + 'y'" % (s, k), "%s%dy" % (s, k)
        return "(%d, ('q', %d) join)" % (k, k), "(%d, q%d)" % (k, k)

    def temp(self):
        self.t += 1
        return "t%d" % (self.t % 6)

    def read(self, kind, e, f):
        """statements, expression"""
        g = get(kind, e, f)
        if isinstance(g, str):
            return g
        t = self.temp()
        self.src.append("%s = %s" % (t, g[0]))
        return t + "()"

    def write(self, kind, e, f, x):
        p = put(kind, e, f, x)
        if p is None:
            t = self.temp()
            self.src.append("%s = %s(%d)" % (t, e, 2 * "vab".index(f) + 1))
            p = "%s(%s)" % (t, x)
        self.src.append(p)

    def slot(self, i):
        t = self.temp()
        self.src.append("%s = n(%d)" % (t, i))
        return t

    def path(self, i, links):
        """reads along links, -> (variable, node)"""
        e, node = self.slot(i), self.slots[i]
        for f in links:
            x = self.read(node["kind"], e, f)
            node = node[f]
            e = self.temp()
            self.src.append("%s = %s" % (e, x))
            if node is None:
                break
        return e, node

    def garbage(self):
        c = self.c
        k = c.n(0, 4)
        if k == 0:
            self.src.append("list(%d)" % c.n(1, 33000))
        elif k == 1:
            self.src.append("%d times (i): ('garbage', i) join." % c.n(1, 1200))
        elif k == 2:
            self.src.append("%d times (i): (i, (i, 'x')) clone." % c.n(1, 900))
        elif k == 3:
            self.src.append("%d times (i): mkc(i, i, i)." % c.n(1, 900))
        else:
            self.src.append("%d times (i): Node(i, 'x', i + 0.5)." % c.n(1, 900))
        self.size += 1

    def new(self):
        c = self.c
        kind = c.pick(KINDS)
        node = {"kind": kind}
        s, node["v"] = self.value()
        links = []
        for f in "ab":
            j = c.n(0, self.N - 1)
            node[f] = self.slots[j]
            links.append(self.slot(j) if node[f] is not None else "nil")
        i = c.n(0, self.N - 1)
        t = self.temp()
        self.src.append("%s = %s" % (t, make(kind, s if kind != "closure" or True else s, links[0], links[1])))
        self.src.append("n put(%d, %s)" % (i, t))
        self.slots[i] = node

    def anynode(self):
        live = [i for i in range(self.N) if self.slots[i] is not None]
        if not live:
            return None
        i = self.c.pick(live)
        return self.path(i, [self.c.pick("ab") for _ in range(self.c.weighted([(4, 0), (3, 1), (2, 2), (1, 3)]))])

    def show(self, e, node):
        if node is None:
            self.src.append("(%s, 'none') say" % e)
            self.exp.append("(nil, none)")
        else:
            r = self.read(node["kind"], e, "v")
            self.src.append("(%s, 1) say" % r)
            self.exp.append("(%s, 1)" % node["v"])

    def mass(self):
        """a loop which replaces all slots again and again, each node linked to what was there"""
        c = self.c
        kind = c.pick(["tuple", "table", "object", "closure", "wide", "grown"])
        n, a, s = c.n(1, 400), c.n(1, 7), c.pick(["z", "mass "])
        self.src.append("%d times (i):\n  x = n((i + %d) %% %d)\n  n put(i %% %d, %s)\n." % (n, a, self.N, self.N, make(kind, "('%s', i) join" % s, "x", "nil")))
        for i in range(n):
            self.slots[i % self.N] = {"kind": kind, "v": "%s%d" % (s, i), "a": self.slots[(i + a) % self.N], "b": None}
        self.size += n // 50

    def method(self):
        """a method, made or changed late in the life of its class, and what it says then and later"""
        c = self.c
        kind = c.pick(["object", "wide"])
        m = "q%d" % c.n(0, 3)
        cls = {"object": "Node", "wide": "Wide"}[kind]
        s, v = self.value()
        k = c.pick(["value", "captured", "def", "constant", "meta"])
        if k == "value" and v.startswith("** "):
            k = "captured"
        t = self.temp()
        if k == "value":
            self.src.append("%s %s = %s" % (cls, m, s))
        elif k == "captured":
            self.src.append("mkm = (z): ((): z.).\n%s = mkm(%s)\n%s def('%s', %s(0))" % (t, s, cls, m, t))
            self.src[-1] = "mkm = (z): (): z..\n%s = mkm(%s)\n%s def('%s', %s)" % (t, s, cls, m, t)
        elif k == "def":
            self.src.append("%s def('%s', (): ('m', %d) join.)" % (cls, m, len(self.src)))
            v = "m%d" % len(self.src[:-1])
        elif k == "constant":
            self.src.append("%s %s = (): 'constant %d'." % (cls, m, len(self.src)))
            v = "constant %d" % (len(self.src) - 1)
        else:
            self.src.append("%s meta %s = (x): ('c%d', x) join." % (cls, m, len(self.src)))
            self.meta[cls, m] = len(self.src) - 1
            return
        self.methods[kind, m] = v

    def ask(self):
        c = self.c
        if self.meta and c.bool(1, 4):
            cls, m = c.pick(sorted(self.meta))
            self.src.append("(%s %s(7), 1) say" % (cls, m))
            self.exp.append("(c%d7, 1)" % self.meta[cls, m])
            return
        have = [i for i in range(self.N) if self.slots[i] is not None and any(k == self.slots[i]["kind"] for k, m in self.methods)]
        if not have:
            return
        i = c.pick(have)
        k, m = c.pick([q for q in sorted(self.methods) if q[0] == self.slots[i]["kind"]])
        self.src.append("(%s %s, 1) say" % (self.slot(i), m))
        self.exp.append("(%s, 1)" % self.methods[k, m])

    def step(self):
        c = self.c
        k = c.weighted([(4, "new"), (4, "link"), (3, "value"), (3, "show"), (2, "garbage"), (1, "mass"), (1, "drop"), (1, "cut"), (1, "method"), (2, "ask")])
        if k == "method":
            return self.method()
        if k == "ask":
            return self.ask()
        if k == "new":
            self.new()
        elif k == "garbage":
            self.garbage()
        elif k == "mass":
            self.mass()
        elif k == "drop":
            i = c.n(0, self.N - 1)
            self.src.append("n put(%d, nil)" % i)
            self.slots[i] = None
        else:
            en = self.anynode()
            if en is None:
                return
            e, node = en
            if k == "show" or node is None:
                self.show(e, node)
            elif k == "value":
                s, v = self.value()
                self.write(node["kind"], e, "v", s)
                node["v"] = v
            elif k == "cut":
                f = c.pick("ab")
                self.write(node["kind"], e, f, "nil")
                node[f] = None
            else:
                f, j = c.pick("ab"), c.n(0, self.N - 1)
                t = self.slot(j)
                self.write(node["kind"], e, f, t)
                node[f] = self.slots[j]

    def run(self, steps):
        for _ in range(steps):
            self.step()
        for i in range(self.N):
            if self.slots[i] is None:
                e = self.slot(i)
                self.show(e, None)
                continue
            e, node = self.path(i, [])
            self.show(e, node)
            for l in ("a", "b", "ab", "ba", "aaa"):
                e, node = self.path(i, l)
                self.show(e, node)
        return {"src": "\n".join(self.src) + "\n", "exp": "".join(x + "\n" for x in self.exp), "nt": self.size > 2 or steps > 20}


def graph(c):
    k = Graph(c).run(c.n(3, 60))
    k["sched"] = schedule(c)
    return k


def evaled(c):
    """source text read, compiled and run after a generated amount of garbage"""
    from . import c03, c04, c05, c08
    src, exp = [], ""
    for i in range(c.n(1, 3)):
        g = c.pick([c05.gen, c04.gen, c05.counters, c03.gen])
        k = g(c)
        if k["exp"] is None:
            continue
        src.append("list(%d)" % c.n(1, 33000))
        src.append("%s eval" % strs.literal(c, k["src"]))
        exp += k["exp"]
    return {"src": "\n".join(src) + "\n", "exp": exp, "modes": ["-B"], "sched": schedule(c), "nt": True}


def natural(c):
    k = Graph(c).run(c.n(3, 60))
    pads = ["list(%d)" % c.n(1, 33000) for _ in range(c.n(0, 3))]
    k["src"] = "\n".join(pads) + "\n" + k["src"]
    return k


def callbacks(c):
    """collections while a built-in method is at work and calls a block for every element"""
    src, exp = [], []
    names = {}                  # variable -> what its elements print as
    num = [0]

    def fresh(e, k):
        """source of a value made of the expression E, which prints as K, and how it prints"""
        f = c.raw(4)
        if f == 0:
            return "(%s, 'm') join" % e, lambda x: x + "m"
        if f == 1:
            return "(%s, %d)" % (e, k), lambda x: "(%s, %d)" % (x, k)
        if f == 2:
            return "('%s', %s) join" % ("long " * k, e), lambda x: "long " * k + x
        return "((%s, 'x') join, %d + 0.5)" % (e, k), lambda x: "(%sx, %d.5)" % (x, k)

    def garbage(n):
        k = c.raw(5)
        m = max(1, c.n(1, 4000) // max(n, 1))
        if k == 0:
            return "list(%d)" % (m * 4)
        if k == 1:
            return "%d times (z): ('garbage', z) join." % (m // 4)
        if k == 2:
            return "%d times (z): (z, (z, 'x')) clone." % (m // 4)
        if k == 3:
            return "z = (1, 'g') join"
        return "z = 0.5"

    def new(e, xs):
        num[0] += 1
        v = "t%d" % num[0]
        src.append("%s = %s" % (v, e))
        names[v] = xs
        return v

    def base():
        n = c.weighted([(4, c.n(0, 12)), (3, c.n(8, 60)), (1, c.n(60, 400))])
        e, f = fresh("i", c.n(0, 5))
        v = new("()", [f("%d" % i) for i in range(n)])
        if c.bool():
            src.append("%d times (i): %s push(%s)." % (n, v, e))
        elif c.bool():
            src.append("0 to(%d) (i):\n  %s\n  %s push(%s)\n." % (n - 1, garbage(n), v, e) if n else "1")
        else:
            src.append("0 step(%d, 2) (i):\n  %s push(%s)\n  %s\n." % (n - 1, v, e, garbage(n)) if n else "1")
            if n:
                names[v] = [f("%d" % i) for i in range(0, n, 2)]
        return v

    base()
    for _ in range(c.n(1, 7)):
        v = c.pick(sorted(names))
        xs = names[v]
        n = len(xs)
        g = garbage(n)
        k = c.pick(["map", "filter", "each", "reduce", "sort", "ins_sort", "table", "tablemap", "tablefilter", "bytes", "new", "nested", "loop"])
        c.tag("during " + k)
        if k == "new":
            base()
        elif k == "map":
            e, f = fresh("q", c.n(0, 5))
            first = c.bool()
            new("%s map (q):\n%s  %s\n." % (v, "  r = %s\n  %s\n" % (e, g) if first else "  %s\n" % g, "r" if first else e), [f(x) for x in xs])
        elif k == "nested":
            e, f = fresh("p", c.n(0, 5))
            new("%s map (q): (q, 'n') map (p): %s, %s.." % (v, g, e), ["(%s, %s)" % (f(x), f("n")) for x in xs])
        elif k == "filter":
            m = c.n(1, 4)
            new("%s filter (q, i):\n  %s\n  i %% %d == 0\n." % (v, g, m), xs[::m])
        elif k == "each":
            e, f = fresh("q", c.n(0, 5))
            u = new("()", [f(x) for x in xs])
            src.append("%s each (q):\n  %s\n  %s push(%s)\n." % (v, g, u, e))
        elif k == "loop":
            e, f = fresh("q", c.n(0, 5))
            u = new("list(%d)" % n, [f(x) for x in xs])
            src.append("i = 0\nwhile (i < %d):\n  q = %s(i)\n  %s put(i, %s)\n  %s\n  i = i + 1\n." % (n, v, u, e, g))
        elif k == "reduce":
            if n < 60:
                new("(%s reduce((p, q): %s, (p, q) join., 's'), 1)" % (v, g), ["s" + "".join(xs), "1"])
        elif k in ("sort", "ins_sort"):
            m = 2 * n + 1
            a = c.pick([q for q in range(1, m + 1) if all(q % d or m % d for d in range(2, min(q, m) + 1))][:20])
            keys = [(i * a + 3) % m for i in range(n)]
            down = c.bool()
            src.append("i = 0 - 1\nu = %s map (q): i = i + 1, ((i * %d + 3) %% %d, (q, 'k') join).\n" % (v, a, m))
            e = "b at(0) - a at(0)" if down else "a at(0) - b at(0)"
            z = sorted(zip(keys, xs), reverse=down)
            new("u %s((a, b): %s, %s.)" % (k, g, e), ["(%d, %sk)" % q for q in z])
        else:
            h = "h%d" % num[0]
            e, f = fresh("q", c.n(0, 5))
            src.append("%s = (-1='no')\ni = 0\n%s each (q): %s put(i, %s), i = i + 1.\n%s remove(-1)" % (h, v, h, e, h))
            if k == "table":
                u = new("list(%d)" % n, [f(x) for x in xs])
                src.append("%s each (k, v):\n  %s\n  %s put(k, v)\n." % (h, g, u))
            elif k == "tablemap":
                u = new("list(%d)" % n, ["(%s, m)" % f(x) for x in xs])
                src.append("r = %s map (k, v):\n  %s\n  (k, (v, 'm'))\n.\nr each (q): %s put(q at(0), q at(1))." % (h, g, u))
            elif k == "tablefilter":
                u = new("list(%d)" % n, [f(x) if i % 2 == 0 else "nil" for i, x in enumerate(xs)])
                src.append("r = %s filter (k, v):\n  %s\n  k %% 2 == 0\n.\nr each (k, v): %s put(k, v)." % (h, g, u))
            else:
                u = new("()", ["(%s, b)" % ch for ch in "some text"])
                src.append("'some text' bytes each (q): %s, %s push((q, 'b'))." % (g, u))
    for v in sorted(names):
        src.append("%s say" % v)
        exp.append("(%s)" % ", ".join(names[v]))
    return {"src": "\n".join(src) + "\n", "exp": "".join(x + "\n" for x in exp), "nt": any(len(x) > 3 for x in names.values()), "sched": schedule(c)}


PARTS = [Part("programs", drawn, check, 2500, 200000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("graphs", graph, check, 3000, 200000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("callbacks", callbacks, check, 2000, 100000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("read while collecting", evaled, check, 700, 50000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("graphs, unscheduled", natural, common.run_program, 1500, 100000, nontrivial=lambda k: k["nt"], show=common.show)]
