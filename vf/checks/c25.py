"""Code evaluated at run time."""
from ..engine import Part
from .. import strs, build
from . import common, c14

ID = "C25"
RULE = ("generated programs with known output (control flow, closures, arguments, classes, strings, collections, expressions) are evaluated from strings: literals, variables, joined pieces, bytes, within functions, loops, blocks of "
        "collections and other evaluated code, several in one process, with variables of the surrounding program alive and functions and values coming out of it; output, values and variables are compared with the model, some under generated "
        "schedules of collections; non-trivial: at least two pieces of code or one nested in another")
ASSUMPTIONS = ["a syntax error in evaluated code ends the process, which is how the tool treats all syntax errors"]


def prepare(paths):
    return build.build("gc").potion


def inner(c, last):
    from . import c03, c04, c05, c06, c09, c11, c12, c13, c02, c08
    gens = [(3, c05.gen), (1, c05.counters), (3, c04.gen), (2, c06.positional), (1, c03.gen), (1, c09.PARTS[0].gen), (2, c11.gen), (2, c12.gen), (1, c13.gen), (1, c02.gen)]
    if last:
        gens.append((4, c08.gen))
    k = c.weighted(gens)(c)
    if k.get("exp") is None or len(k["src"]) > 6000 or k.get("modes", ["-B", "-X"]) != ["-B", "-X"] and not last:
        return "'small' say\n", "small\n", ["-B", "-X"]
    return k["src"], k["exp"], k.get("modes", ["-B", "-X"])


def quote(s):
    if any(x < " " and x not in "\n\r\t" or x == "\x7f" for x in s):
        return '"%s"' % "".join('\\' + x if x in '"\\' else "\\u%04x" % ord(x) if x < " " or x == "\x7f" else x for x in s)
    return "'%s'" % s.replace("'", "''")


def gen(c):
    src, out = [], []
    modes = ["-B", "-X"]
    n = c.n(1, 4)
    nest = 0
    locs = {}
    funs = []
    for i in range(n):
        last = i == n - 1
        if c.bool():
            v = c.pick(["x", "y", "f", "n", "k0", "t"])
            locs[v] = c.n(0, 999)
            src.append("%s = %d" % (v, locs[v]))
        s, e, m = inner(c, last)
        modes = [x for x in modes if x in m]
        val, vals = None, c.raw(6)
        if vals == 0:
            val = c.n(0, 9999)
            s += "\n%d" % val
        elif vals == 1:
            t = strs.text(c, 12)
            val = t
            s += "\n" + strs.literal(c, t)
        elif vals == 2:
            a = c.n(0, 99)
            s += "\nzz = %d\n(a): zz = zz + a, zz." % a
            val = ("fun", a)
        if not s.endswith("\n") and val is None:
            s += "\n"
        if val is None:
            s += "nil"
        while c.bool(1, 5) and len(s) < 3000:
            s = quote(s) + " eval"
            nest += 1
        q = quote(s)
        k = c.raw(8)
        rv, tail = "r%d" % i, ""
        times = 1
        if k == 0:
            src.append("%s = %s eval" % (rv, q))
        elif k == 1:
            src.append("src%d = %s\n%s = src%d eval" % (i, q, rv, i))
        elif k == 2:
            cuts = sorted(c.n(0, len(s)) for _ in range(c.n(1, 4)))
            ps = [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])]
            src.append("src%d = (%s) join('')\n%s = src%d eval" % (i, ", ".join(map(quote, ps)), rv, i))
        elif k == 3:
            src.append("ff%d = (p): q = p * 2, r = %s eval, (p, q, r).\nrr = ff%d(4)\n(rr(0), rr(1)) say\n%s = rr(2)" % (i, q, i, rv))
            tail = "(4, 8)\n"
        elif k == 4:
            times = c.n(0, 3)
            src.append("%s = nil\n%d times (i): %s = %s eval." % (rv, times, rv, q))
            if not times:
                val = None
        elif k == 5:
            src.append("%s = %s bytes string eval" % (rv, q))
        elif k == 6:
            times = c.n(1, 3)
            src.append("%s = (%s) map((i): %s eval.)\n%s length say\n%s = %s(%d)" % (rv, ", ".join("1" * times), q, rv, rv, rv, times - 1))
        else:
            src.append("if (%s eval): 1. else: 2.\n%s = nil" % (q, rv))
            val = None
        out.append(e * times + tail)
        if k == 6:
            out.append("%d\n" % times)
        if isinstance(val, tuple):
            b = c.n(0, 9)
            src.append("%s(%d) say\n%s(1) say" % (rv, b, rv))
            out.append("%d\n%d\n" % (val[1] + b, val[1] + b + 1))
            funs.append((rv, val[1] + b + 1))
        elif val is not None:
            src.append("%s say" % rv)
            out.append("%s\n" % val)
        else:
            src.append("%s say" % rv)
            out.append("nil\n")
        if locs and c.bool():
            v = c.pick(sorted(locs))
            src.append("%s say" % v)
            out.append("%d\n" % locs[v])
    for v in sorted(locs):
        src.append("%s say" % v)
        out.append("%d\n" % locs[v])
    for f, v in funs:
        src.append("%s(5) say" % f)
        out.append("%d\n" % (v + 5))
    sched = c14.schedule(c) if c.bool(1, 3) else None
    return {"src": "\n".join(src) + "\n", "exp": "".join(out), "modes": modes, "nt": n > 1 or nest > 0, "sched": sched}


def check(ctx, case):
    d = common.run_program(ctx, case)
    if d or not case["sched"]:
        return d
    return c14.check(ctx, case)


PARTS = [Part("programs", gen, check, 3000, 100000, nontrivial=lambda k: k["nt"], show=common.show)]
