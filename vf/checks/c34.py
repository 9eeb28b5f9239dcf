"""Numbers as objects: conversions, tests, comparison and counting loops."""
import math
from ..engine import Part
from .. import numsem as N, strs
from . import common
from .c02 import gint, gdbl, opnd

ID = "C34"
RULE = ("conversions, tests, ordering and square roots of generated numbers (as literals, variables, results of calls and elements of collections) and counting loops over generated ranges, nested, with blocks of any arity and changing "
        "variables around them, are compared with a model; non-trivial: a loop crosses zero or runs near the ends of the integer range, or a value lies beyond 2**53")
ASSUMPTIONS = ["integer is applied to doubles within the integer range", "no NaN is compared"]


def kinds(c, say, src, a):
    """nil is 0, '' or false, whichever it is compared with; false is less than anything and true more; numbers see them as 0 and 1"""
    sign = lambda x, y: (x > y) - (x < y)
    if c.bool(1, 4):
        # a text sees the text of anything else
        t = c.pick(["", "1", "12", "nil", "true", "false", "(1, 2)", "-", "a", N.fmt(a)])
        v, x = c.pick([("nil", "nil"), ("true", "true"), ("false", "false"), ("(1, 2)", "(1, 2)"), ("k", N.fmt(a)), ("'%s'" % t, t)])
        if v == "k":
            src.append("k = %s" % (opnd(a)[1:-1] if opnd(a)[0] == "(" else opnd(a)))
        r = sign(t.encode(), x.encode())
        src.append("r = '%s' cmp(%s)" % (t, v))
        return say("(r < 0, r == 0, r > 0)", "(%s, %s, %s)" % tuple("true" if q else "false" for q in (r < 0, r == 0, r > 0)))
    w = c.pick([None, None, False, True])
    k = c.pick(["num", "nil", "bool", "str", "tuple"])
    if k == "num":
        v, r = opnd(a), sign(1 if w else 0, a)
    elif k == "bool":
        b = c.bool()
        v, r = "true" if b else "false", sign(bool(w), b)
    elif k == "nil":
        v, r = "nil", 0 if w is None else 1 if w else -1
    elif k == "str":
        t = c.pick(["", "a", "zz", "0", "é"])
        v, r = "'%s'" % t, sign("", t) if w is None else 1 if w else -1
    else:
        v, r = c.pick(["()", "(1, 2)", "(a=1)"]), 1 if w else -1
    if v[0] == "(" and k == "num":
        src.append("k%d = %s" % (len(src), v[1:-1]))
        v = "k%d" % (len(src) - 1)
    t = {None: "nil", True: "true", False: "false"}[w]
    if c.bool():
        src.append("w = %s" % t)
        t = "w"
    src.append("r = %s cmp(%s)" % (t, v))
    say("(r < 0, r == 0, r > 0)", "(%s, %s, %s)" % tuple("true" if q else "false" for q in (r < 0, r == 0, r > 0)))


def gen(c):
    src, out, nt = [], [], False

    def say(e, v):
        src.append("x%d = %s\nx%d say" % (len(src), e, len(src)))
        out.append(v)

    def val(v):
        """the number in some place"""
        k = c.raw(5)
        if k == 0 and not opnd(v).startswith("("):
            return opnd(v)
        k = max(k, 1)
        n = "v%d" % len(src)
        q = opnd(v)
        q = q[1:-1] if q[0] == "(" else q
        if k == 1:
            src.append("%s = %s" % (n, q))
            return n
        if k == 2:
            src.append("%s = (%s, 1)" % (n, q))
            return "%s(0)" % n
        if k == 3:
            src.append("%s = (): %s." % (n, q))
            return "%s()" % n
        src.append("%s = (x): x." % n)
        return "%s(%s)" % (n, q)

    for _ in range(c.n(1, 12)):
        a = gint(c) if c.bool() else gdbl(c)
        if isinstance(a, float) and (a != a or math.isinf(a)):
            a = 1.5
        if abs(a) > 2 ** 53:
            nt = True
        k = c.raw(11)
        if k == 10:
            kinds(c, say, src, a)
            continue
        e = val(a)
        if k == 0:
            say(e + " number?", "true")
            say(e + " integer?", "true" if N.is_int(a) else "false")
            say(e + " double?", "false" if N.is_int(a) else "true")
            say(e + " kind", "Number")
        elif k == 1:
            say(e + " abs", N.fmt(N.mk(abs(a)) if N.is_int(a) else abs(a)))
        elif k == 2:
            if abs(a) < 2.0 ** 61:
                say(e + " integer", str(math.floor(a)))
        elif k == 3:
            say(e + " double", N.fmt(float(a)))
            say(e + " number", N.fmt(a))
            say(e + " string", N.fmt(a))
        elif k == 4:
            if a >= 0:
                say(e + " sqrt", N.fmt(math.sqrt(a)))
        elif k < 8:
            b = gint(c) if c.bool() else gdbl(c)
            if c.bool(1, 3):
                b = c.pick([a, float(a) if abs(a) < 2 ** 53 else a, a + 1, a - 1])
            if isinstance(b, float) and (b != b or math.isinf(b)):
                b = -0.5
            if N.is_int(b) and not N.fits(b):
                b = 7
            f = val(b)
            c.tag('%s cmp %s' % (type(a).__name__, type(b).__name__))
            if N.is_int(a) and N.is_int(b):
                r = (a > b) - (a < b)
            else:
                r = (float(a) > float(b)) - (float(a) < float(b))
            say("%s cmp(%s)" % (e, f), str(r))
        elif k == 8:
            b = c.pick(["true", "false", "nil"])
            w = 1 if b == "true" else 0
            say("%s cmp(%s)" % (e, b), str((a > w) - (a < w)))
            i = c.n(-10 ** 6, 10 ** 6)
            say("%s cmp('%d')" % (e, i), str((a > i) - (a < i)))
        else:
            i = c.n(1, 127)
            if i != 10:
                say("%s chr ord" % val(i), str(i))
                say("%s chr length" % val(i), "1")
    return {"src": "\n".join(src) + "\n", "exp": "".join(x + "\n" for x in out), "nt": nt}


def loops(c):
    src, out = [], []
    nt = [False]
    uid = [0]

    def rng():
        """kind, source of the head, values"""
        k = c.raw(3)
        uid[0] += 1
        x, y = "x%d" % uid[0], "y%d" % uid[0]
        pre = lambda v, n: "%s = %s\n" % (n, opnd(v)[1:-1] if v < 0 else v)
        if k == 0:
            n = c.pick([0, 1, 2, 7, 40]) if c.bool() else c.n(-3, 12)
            if n < 0 or c.bool():
                return pre(n, x), "%s times" % x, list(range(max(n, 0))), True
            return "", "%d times" % n, list(range(n)), True
        q = c.raw(5)
        lo = c.n(-6, 6) if q < 3 else c.pick([N.HI - 5, N.LO + 2, 2 ** 53 - 2, -2 ** 31 - 2, 2 ** 31 - 3, 2 ** 32 - 2]) + c.n(0, 2)
        n = c.n(0, 9)
        if k == 1:
            hi = lo + n if c.bool() or lo - n < N.LO + 1 else lo - n
            hi = min(hi, N.HI - 1)
            vs = list(range(lo, hi + 1)) if hi >= lo else list(range(lo, hi - 1, -1))
            w = c.raw(4)
            free = w < 3
            p = pre(lo, x) + pre(hi, y)
            if w == 0 and lo >= 0 and hi >= 0:
                p, e = "", "%d to %d" % (lo, hi)
            elif w == 2 and hi >= 0:
                e = "%s to %d" % (x, hi)
            else:
                free, e = False, "%s to(%s)" % (x, y)
        else:
            s = c.n(1, 4)
            hi = min(lo + n * s + c.n(-2, 2), N.HI - 1)
            vs = list(range(lo, hi + 1, s))
            free = False
            p, e = pre(lo, x) + pre(hi, y), "%s step(%s, %d)" % (x, y, s)
        if vs and (vs[0] < 0 < vs[-1] or abs(vs[0]) > 2 ** 31):
            nt[0] = True
        return p, e, vs, free

    def loop(depth, ind):
        """source of a loop; returns a function running it with the accumulators"""
        p, head, vs, free = rng()
        uid[0] += 1
        i = "i%d" % uid[0]
        pad = "  " * ind
        body, run = [], []
        par = not free or c.raw(4) != 0
        for _ in range(c.n(1, 2)):
            k = c.raw(4)
            if k == 0 and par:
                body.append("%s  s = s + %s %% 1000" % (pad, i))
                run.append(lambda st, v: st.__setitem__("s", st["s"] + (v - 1000 * N.tdiv(v, 1000))))
            elif k == 1:
                body.append("%s  n = n + 1" % pad)
                run.append(lambda st, v: st.__setitem__("n", st["n"] + 1))
            elif k == 2 and depth:
                l, r = loop(depth - 1, ind + 1)
                body.append(l)
                run.append(lambda st, v, r=r: r(st))
            elif par:
                body.append("%s  r append(%s)" % (pad, i))
                run.append(lambda st, v: st["r"].append(v))
            else:
                body.append("%s  r append(n)" % pad)
                run.append(lambda st, v: st["r"].append(st["n"]))

        def go(st):
            for v in vs:
                for f in run:
                    f(st, v)
        return "%s%s%s%s:\n%s." % (p, pad, head, " (%s)" % i if par else "", "\n".join(body)), go

    for _ in range(c.n(1, 4)):
        st = {"s": 0, "n": 0, "r": []}
        l, go = loop(2, 0)
        go(st)
        if len(st["r"]) > 3000:
            continue
        src.append("s = 0, n = 0, r = ()\n%s\ns say, n say, r say" % l)
        out += [str(st["s"]), str(st["n"]), "(%s)" % ", ".join(map(str, st["r"]))]
    return {"src": "\n".join(src) + "\n", "exp": "".join(x + "\n" for x in out), "nt": nt[0]}


PARTS = [Part("values", gen, common.run_program, 2500, 100000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("loops", loops, common.run_program, 2500, 100000, nontrivial=lambda k: k["nt"], show=common.show)]
