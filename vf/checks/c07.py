"""Compiled files: a program saved as bytecode and loaded again does what its source does."""
import importlib, os
from ..engine import Part
from . import common
from .. import choice

ID = "C07"
RULE = ("a generated program (from the generators of the other language properties, or one with up to 1200 constants, long strings, nested "
        "functions and doubles of full precision) is compiled to a .pnb file, which is run by the bytecode VM and by the JIT, or loaded from a "
        "second program, and must print what its source prints; non-trivial: the program has functions, strings, doubles or more than 20 constants")
ASSUMPTIONS = []


def drawn(c):
    from . import c02, c03, c04, c05, c06
    g = c.pick([c04.gen, c05.gen, c02.gen, c05.counters, c06.positional, c06.flexible, c03.gen])
    k = g(c)
    c.tag("from " + g.__module__[-3:])
    modes = k.get("modes", ["-B", "-X"])
    return {"src": k["src"], "exp": k["exp"], "modes": modes, "nt": "(" in k["src"], "load": c.bool(1, 4) and "-X" in modes}


def big(c):
    """constants of every kind, in nested functions"""
    src, exp = [], ""
    nf = c.n(1, 4)
    for f in range(nf):
        n = c.weighted([(4, c.n(1, 20)), (3, c.n(20, 260)), (2, c.n(240, 300))])
        body, acc = [], []
        for i in range(n):
            k = c.weighted([(5, 0), (2, 1), (2, 2), (1, 3)])
            if k == 0:
                v = c.n(2048, 4000) + i * 7919 + c.bits(c.n(1, 40))
                s, p = str(v), str(v)
            elif k == 1:
                x = (c.bits(40) - (1 << 39)) / float(1 << c.n(0, 44))
                x = abs(x)
                from .. import numsem as N
                s, p = N.lit(x), N.fmt(x)
            elif k == 2:
                if c.bool(1, 40):
                    # every length in bytes may be a border of the file's format
                    q = c.pick([1, 8, 16, 64, 127, 255, 256, 1024, 4095, 4096, 32767, 65534, 65535, 65536, 131072]) + c.n(-1, 1)
                    p = "xyz " * (q // 4) + "abcd"[:q % 4]
                else:
                  p = "".join(c.pick(["a", "b", " ", "é", "日", "x1", "''"]) for _ in range(c.small(0, 60))) + "_%d" % i
                if len(p) > 200:
                    src.append("('%s' length, 1) say" % p)
                    exp += "(%d, 1)\n" % len(p)
                    p = p[:9]
                s, p = "'%s'" % p, p.replace("''", "'")
            else:
                s, p = c.pick([("true",) * 2, ("nil",) * 2, ("false",) * 2])
            body.append("  x%d = %s" % (i % 10, s))
            acc.append(p)
        last = {}
        for i, p in enumerate(acc):
            last[i % 10] = p
        names = sorted(last)
        k = c.n(0, 99999)
        tiny = c.bool()
        t = 3.0 ** -c.n(5, 30)
        from .. import numsem as N
        import decimal
        b = "(a%d):\n%s\n  h = (y): (%s, a%d + y).\n  h(%d) say\n%s." % (
            f, "\n".join(body), ", ".join("x%d" % j for j in names), f, k,
            "  ((%s * %s) == (%s * %s), 1) say\n" % ((N.lit(t), N.lit(1 / t)) * 2) + "  ((%s + 0.0) * %s) say\n" % (N.lit(t), N.lit(float(3 ** 20))) if tiny else "")
        src.append("f%d = %s\nf%d(%d)" % (f, b, f, f))
        exp += "(%s)\n" % ", ".join([last[j] for j in names] + [str(f + k)])
        if tiny:
            exp += "(true, 1)\n(%s)\n" % N.fmt(t * float(3 ** 20))
    return {"src": "\n".join(src) + "\n", "exp": exp, "modes": ["-B", "-X"], "nt": True, "load": c.bool(1, 4)}


def check(ctx, case):
    if case["exp"] is None:
        return None
    d = ctx.fresh("pnb")
    f = os.path.join(d, "prog.pn")
    with open(f, "w", newline="") as o:
        o.write(case["src"])
    r = ctx.run([ctx.potion, "-c", f], cwd=d)
    if r.rc != 0 or not os.path.exists(f + "b"):
        return "compiling: %r" % (r,)
    os.unlink(f)
    for m in case["modes"]:
        x = common.diff(case["exp"], ctx.run([ctx.potion, m, f + "b"], cwd=d), "compiled, " + m)
        if x:
            return x
    if case["load"]:
        g = os.path.join(d, "main.pn")
        with open(g, "w") as o:
            o.write("'start' say\nload 'prog'\n'end' say\n")
        x = common.diff("start\n" + case["exp"] + "end\n", ctx.run([ctx.potion, "-B", g], cwd=d), "loaded")
        if x:
            return x


PARTS = [Part("drawn", drawn, check, 3500, 100000, nontrivial=lambda k: k["nt"] and k["exp"] is not None, show=common.show),
         Part("constants", big, check, 1500, 40000, nontrivial=lambda k: k["nt"], show=common.show)]
