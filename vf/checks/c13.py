"""Sorting: an ordered permutation, for every comparison, size and arrangement."""
import functools
from ..engine import Part
from .. import strs
from . import common

ID = "C13"
RULE = ("tuples of integers, strings or pairs (sorted, reversed, constant, few distinct, random; 0 to some 400 elements) are sorted by every way of sorting (ascending, descending, "
        "by comparison functions, by default; copying and in place) and must be the ordered permutation; non-trivial: at least 10 elements or a comparison function")
ASSUMPTIONS = ["comparison functions are consistent; elements they call equal come in any order"]


def ints(c, n):
    k = c.weighted([(4, "rand"), (2, "few"), (1, "sorted"), (1, "back"), (1, "same"), (1, "wide"), (1, "organ")])
    if k == "rand":
        return [c.n(-200, 200) for _ in range(n)]
    if k == "few":
        m = c.n(1, 5)
        return [c.n(-m, m) for _ in range(n)]
    if k == "sorted" or k == "back":
        xs = sorted(c.n(-99, 999) for _ in range(n))
        if n and c.bool():
            xs[c.n(0, n - 1)] = c.n(-99, 999)
        return xs if k == "sorted" else xs[::-1]
    if k == "same":
        return [c.n(-5, 5)] * n
    if k == "organ":
        return [min(i, n - i) for i in range(n)]
    return [c.pick([0, 1, -1, (1 << 60), -(1 << 60), (1 << 61) - 1, -(1 << 61), (1 << 62) - 1, 1 - (1 << 62), 1 << 31, -(1 << 31), 1 << 32, c.bits(60), -c.bits(60)]) for _ in range(n)]


def gen(c):
    src, exp = [], []
    nt = False
    for r in range(c.n(1, 4)):
        n = c.weighted([(3, c.n(0, 4)), (5, c.n(5, 14)), (3, c.n(15, 40)), (1, c.n(41, 150)), (1, c.n(151, 420))])
        kind = c.weighted([(5, "int"), (3, "str"), (3, "pair")])
        wide = False
        if kind == "int":
            vs = ints(c, n)
            wide = any(abs(v) > 1 << 40 for v in vs)
            txt = [str(v) for v in vs]
        elif kind == "str":
            vs = [strs.text(c, 5) if c.bool() else c.pick(["a", "b", "ab", "", "zz", "é", "Z", "a b"]) for _ in range(n)]
            txt = [strs.literal(c, v) for v in vs]
        else:
            vs = [(k, i) for i, k in enumerate(ints(c, n))]
            wide = any(abs(v[0]) > 1 << 40 for v in vs)
            txt = ["(%d, %d)" % v for v in vs]
        if n > 60 and kind == "int" and not wide and c.bool():
            # made by the program itself
            a, b, m = c.n(1, 99999), c.n(0, 99999), c.pick([2, 7, 97, 1009, 65537])
            vs, z = [], c.n(0, 500)
            src.append("t = ()\nz = %d\n%d times:\n  z = (z * %d + %d) %% %d\n  t push(z)\n." % (z, n, a, b, m))
            for _ in range(n):
                z = (z * a + b) % m
                vs.append(z)
        else:
            src.append("t = (%s)" % ", ".join(txt))
        show = lambda v: v if isinstance(v, str) else "(%d, %d)" % v if isinstance(v, tuple) else str(v)
        say = lambda xs: "(%s)" % ", ".join(show(x) for x in xs)
        for q in range(c.n(1, 3)):
            how = c.pick(["sort", "sort", "ins_sort"])
            sign = lambda x, y: (x > y) - (x < y)
            opts = []
            if kind == "int":
                opts += [("true", sign, None), ("false", lambda x, y: sign(y, x), None), ("(a, b): a cmp(b).", sign, None)]
                if not wide:
                    opts += [("(a, b): a - b.", sign, None), ("(a, b): b - a.", lambda x, y: sign(y, x), None), ("(a, b): (a - b) * 3.", sign, None)]
                    m = c.n(2, 7)
                    if all(abs(v) < 1000000 for v in vs): opts += [("(a, b): ((a + 1000000) %% %d) - ((b + 1000000) %% %d)." % (m, m), lambda x, y: sign((x + 1000000) % m, (y + 1000000) % m), lambda x: (x + 1000000) % m)]
                    opts += [("(a, b):\n  g = ('x', a, b) join\n  g = (g, g, g) join\n  a - b.", sign, None)]
                opts += [("(a, b):\n  if (a < b): -1. elsif (b < a): 1. else: 0..", sign, None)]
            elif kind == "str":
                opts += [("(a, b): a cmp(b).", sign, None), ("(a, b): b cmp(a).", lambda x, y: sign(y, x), None), ("(a, b): a length - b length.", lambda x, y: sign(len(x), len(y)), len),
                         ("(a, b):\n  g = (a, b, a) join\n  a cmp(b).", sign, None)]
            else:
                opts += [("(a, b): a(0) cmp(b(0)).", lambda x, y: sign(x[0], y[0]), lambda x: x[0])]
                if not wide:
                    opts += [("(a, b): a first - b first.", lambda x, y: sign(x[0], y[0]), lambda x: x[0]),
                             ("(a, b):\n  r = b first - a first\n  if (r == 0): r = a last - b last.\n  r.", lambda x, y: sign(y[0], x[0]) or sign(x[1], y[1]), None)]
            opts.append(("", None, None))
            blk, cmp, by = c.pick(opts)
            call = "%s(%s)" % (how, blk) if blk else how
            if blk.startswith("(") and c.bool(1, 3) and "\n" not in blk:
                src.append("f = %s" % blk)
                call = "%s(f)" % how
            nt = nt or n >= 10 or blk.startswith("(")
            src.append("r = %s %s" % ("t" if how == "sort" else "t clone", call))
            if cmp is None:
                # any order: the same elements
                src.append("s = 0\nr each (x): s = s + x string length.\n(r length, s, 1) say")
                exp.append("(%d, %d, 1)" % (n, sum(len(show(v)) for v in vs)))
                # whatever the order is, the search by that order finds every element
                if not wide and c.bool(2, 3):
                    src.append("s = 0\nr each (x): if (r(r bsearch(x)) == x): s = s + 1..\n(s, r bsearch(%s), 1) say" % ("987654321" if kind == "int" else "'not in it'"))
                    exp.append("(%d, -1, 1)" % n)
                if kind == "int":
                    src.append("r sort(true) say")
                    exp.append(say(sorted(vs)))
                elif kind == "str":
                    src.append("r sort((a, b): a cmp(b).) say")
                    exp.append(say(sorted(vs)))
            else:
                o = sorted(vs, key=functools.cmp_to_key(cmp))
                if by is None:
                    src.append("r say")
                    exp.append(say(o))
                else:
                    f = {"int": "(x + 1000000) %% %d" % (m if kind == "int" and not wide else 1), "str": "x length", "pair": "x(0)"}[kind]
                    src.append("r map (x): %s. say" % f)
                    exp.append(say([by(v) for v in o]))
                    if kind == "int":
                        src.append("r sort(true) say")
                        exp.append(say(sorted(vs)))
                    elif kind == "pair":
                        src.append("r map (x): x(1). sort(true) say")
                        exp.append(say(sorted(v[1] for v in vs)))
            if c.bool(1, 3):
                src.append("t say")
                exp.append(say(vs))
            if kind == "int" and how == "ins_sort" and c.bool():
                src.append("u = t\nt %s\n(t == u, u length, 1) say" % ("ins_sort(true)"))
                exp.append("(true, %d, 1)" % n)
                src.append("u say")
                vs = sorted(vs)
                exp.append(say(vs))
    return {"src": "\n".join(src) + "\n", "exp": "".join(e + "\n" for e in exp), "nt": nt}


PARTS = [Part("sorts", gen, common.run_program, 6000, 200000, nontrivial=lambda k: k["nt"], show=common.show)]
