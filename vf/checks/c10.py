"""Strings of equal text are one value, however and whenever they were made."""
from .. import strs, build
from ..engine import Part
from . import common

ID = "C10"
RULE = ("histories which make equal and nearly equal strings in many ways (literals of both kinds, join, +, slice, indexing, numbers, bytes, repeated doubling, conversion of tuples), "
        "by the thousand, keep some, drop others while collections run, and then compare with == and != and look each up in a table by another string of that text; long strings which differ in one place; "
        "non-trivial: more than 100 strings or a collection between the two makings")
ASSUMPTIONS = ["strings contain no NUL character"]


def prepare(paths):
    return build.build("gc").potion


def ways(c, s):
    """an expression of string s"""
    lit = lambda x: strs.literal(c, x)
    n = len(s)
    k = c.n(0, 7)
    c.tag("way %d" % k)
    i = c.n(0, n)
    if k == 0:
        return lit(s)
    if k == 1:
        return "(%s, %s) join" % (lit(s[:i]), lit(s[i:]))
    if k == 2:
        return "(%s + %s)" % (lit(s[:i]), lit(s[i:]))
    if k == 3:
        a, b = strs.text(c, 3), strs.text(c, 3)
        return "%s slice(%d, %d)" % (lit(a + s + b), len(a), len(a) + n)
    if k == 4 and n:
        return "(%s) join" % ", ".join("%s(%d)" % (lit(s), j) for j in range(n)) if 1 < n < 9 else lit(s)
    if k == 5:
        return "%s bytes string" % lit(s)
    if k == 6:
        return "(%s) join(%s)" % (", ".join([lit(s[:i]), lit(s[i + 1:])]), lit(s[i])) if i < n else lit(s)
    return "%s string" % lit(s)


NUM = {"i string": str, "('', i) join": str, "(1000000 + i) string slice(1, nil)": lambda i: "%06d" % i, "('k', i) join": lambda i: "k%d" % i,
       "'k' + i string": lambda i: "k%d" % i, "(i, ',', i) join": lambda i: "%d,%d" % (i, i), "(i, i) string": lambda i: "(%d, %d)" % (i, i),
       "(i, i) join(', ')": lambda i: "%d, %d" % (i, i), "('<', i string, '>') join slice(1, 0 - 1)": str, "|i * 1.0 + 0.5. string": lambda i: "%d.5" % i}


def wrap(e):
    return e


def gen(c):
    src, exp = [], []
    # many strings
    if c.bool(2, 3):
        m = c.weighted([(3, c.n(1, 60)), (3, c.n(60, 600)), (1, c.n(600, 6000))])
        a = c.pick(sorted(NUM))
        same = [b for b in sorted(NUM) if [NUM[b](i) for i in range(30)] == [NUM[a](i) for i in range(30)]]
        b = c.pick(same) if c.bool(3, 4) else c.pick(sorted(NUM))
        src.append("t = (yes='no')\nkeep = ()\nf = (i): %s.\ng = (i): %s." % (a, b))
        src.append("%d times (i):\n  x = f(i)\n  t(x) = i\n  if (i %% %d == 0): keep append(x)..\n" % (m, c.n(1, 7)))
        k = int(src[-1].split("% ")[1].split(" ==")[0])
        src.append("list(%d)" % c.n(0, 120000))
        src.append("bad = 0, hit = 0, j = 0\n%d times (i):\n  y = g(i)\n  if (t(y) == i): hit++.\n  if (i %% %d == 0):\n    if (keep(j) == y): j = j + 1, 1. else: j = j + 1, bad++..\n." % (m, k))
        A, B = [NUM[a](i) for i in range(m)], [NUM[b](i) for i in range(m)]
        d = {}
        for i, x in enumerate(A):
            d[x] = i
        hit = sum(d.get(y) == i for i, y in enumerate(B))
        bad = sum(A[i] != B[i] for i in range(0, m, k))
        src.append("(hit, bad, t length) say")
        exp.append("(%d, %d, %d)" % (hit, bad, len(d) + 1))
        nt = m > 100
    else:
        nt = False
    # a few strings and close relatives of them
    pool = []
    for _ in range(c.n(1, 6)):
        s = strs.text(c, c.pick([3, 20, 60]))
        pool.append(s)
        if s and c.bool():
            i = c.n(0, len(s) - 1)
            pool.append(c.pick([s[:i] + s[i + 1:], s[:i] + strs.char(c) + s[i + 1:], s + strs.char(c), s[::-1], s + s, s.upper() if s.isascii() else s]))
    vs = []
    for _ in range(c.n(2, 14)):
        s = c.pick(pool)
        nm = "s%d" % len(vs)
        e = ways(c, s)
        src.append("%s = %s" % (nm, e[1:-1] if e.startswith("(") and e.endswith(")") and " + " in e and not e.endswith(") join)") else e))
        vs.append(s)
        if c.bool(1, 4):
            src.append("list(%d)" % c.n(0, 60000))
            nt = True
    src.append("h = (zz='zz')")
    d = {"zz": "zz"}
    for i, s in enumerate(vs):
        if c.bool():
            src.append("h(s%d) = %d" % (i, i))
            d[s] = i
    for _ in range(c.n(1, 10)):
        i, j = c.n(0, len(vs) - 1), c.n(0, len(vs) - 1)
        src.append("(s%d == s%d, s%d != s%d, h(s%d)) say" % (i, j, i, j, j))
        q = vs[i] == vs[j]
        exp.append("(%s, %s, %s)" % (str(q).lower(), str(not q).lower(), d.get(vs[j], "nil")))
    src.append("(h length, 1) say")
    exp.append("(%d, 1)" % len(d))
    sched = ",".join([str(c.n(0, 300000))] + [str(65536 + c.n(0, 100000)) for _ in range(8)]) if c.bool() else None
    return {"src": "\n".join(src) + "\n", "exp": "".join(e + "\n" for e in exp), "nt": nt or bool(sched), "sched": sched}


def check(ctx, case):
    d = common.run_program(ctx, case)
    if d or not case["sched"]:
        return d
    f = ctx.write("t.pn", case["src"])
    return common.diff(case["exp"], ctx.run([ctx.extra, "-B", f], env={"POTION_GC_SCHEDULE": case["sched"]}), "bytecode VM collecting at " + case["sched"])


def long(c):
    """long strings which differ in one place, made one after the other"""
    n = c.pick([31, 32, 33, 64, 255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 16384, 30000]) + c.n(-2, 2) if c.bool() else c.n(1, 9000)
    u = c.pick(["a", "ab", "0123456789", "é", "x☃"])
    k = max(1, n // len(u))
    x = u * k
    w = max(1, int(k ** 0.5))
    src = ["u = %s, w = '', x = ''" % strs.literal(None, u), "%d times: w = w + u." % w, "%d times: x = x + w." % (k // w), "%d times: x = x + u." % (k % w), "x length say"]
    exp = [str(len(x))]
    vs = ["x"]
    vals = [x]
    for _ in range(c.n(2, 14)):
        p = c.pick([0, len(x) - 1, len(x) // 2, c.n(0, len(x) - 1)])
        ch = c.pick(["a", "b", "c", "0", "é", "☃", "z", "\u00e8"])
        b = c.n(0, len(vals) - 1) if c.bool() else 0
        nm = "v%d" % len(vs)
        y = vals[b]
        src.append("%s = %s slice(0, %d) + %s + %s slice(%d, nil)" % (nm, vs[b], p, strs.literal(None, ch), vs[b], p + 1) if p else
                   "%s = %s + %s slice(1, nil)" % (nm, strs.literal(None, ch), vs[b]))
        vs.append(nm)
        vals.append(y[:p] + ch + y[p + 1:])
        if c.bool(1, 6):
            src.append("list(%d)" % c.n(0, 60000))
    src.append("h = (zz='zz')")
    d = {}
    for v, y in zip(vs, vals):
        src.append("h(%s) = '%s'" % (v, v))
        d[y] = v
    for i, v in enumerate(vs):
        src.append("h(%s) say" % v)
        exp.append(d[vals[i]])
        j = c.n(0, len(vs) - 1)
        p = c.n(0, len(x) - 1)
        src.append("(%s == %s, %s length, %s(%d), %s cmp(%s) > 0) say" % (v, vs[j], v, v, p, v, vs[j]))
        a, b = vals[i].encode(), vals[j].encode()
        exp.append("(%s, %d, %s, %s)" % (str(a == b).lower(), len(vals[i]), vals[i][p], str(a > b).lower()))
    return {"src": "\n".join(src) + "\n", "exp": "".join(e + "\n" for e in exp), "nt": len(x) > 100, "sched": None}


PARTS = [Part("histories", gen, check, 4000, 150000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("long", long, check, 800, 20000, nontrivial=lambda k: k["nt"], show=common.show)]
