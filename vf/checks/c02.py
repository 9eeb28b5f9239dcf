"""Arithmetic and comparison of numbers, by both back ends, against a model of 63 bit integers and IEEE doubles."""
import math
from ..engine import Part
from .. import numsem as N
from . import common

ID = "C02"
RULE = ("a program computes up to 14 operations on generated operands (both integers, both doubles or mixed; small, around powers of two, "
        "around the ends of the integer range, at random), written with literals, variables, op= or in a function, by the bytecode VM and by the "
        "JIT, and prints the results, which are compared with Python's integers and IEEE doubles; non-trivial: a result overflows the integers, "
        "is fractional or negative, or the operands have different types")
ASSUMPTIONS = ["the printed form of a double (%.16f without trailing zeros) is part of the model", "NaN results are only used in comparisons"]

OPS = ["+", "-", "*", "/", "%", "**", "<", "<=", ">", ">=", "==", "!=", "<=>", "<<", ">>"]


def gint(c):
    k = c.weighted([(5, 0), (3, 1), (3, 2), (2, 3)])
    if k == 0:
        return c.n(0, 12) - c.pick([0, 0, 6, 12])
    if k == 1:
        v = (1 << c.n(0, 62)) + c.n(-2, 2)
    elif k == 2:
        v = c.pick([N.HI, N.HI - 1, N.HI // 2, N.HI // 3, -N.LO // 2, 1 << 31, 1 << 32, 3037000499, 3037000500, 1 << 53]) + c.n(-1, 1)
    else:
        v = c.bits(c.n(1, 62))
    if c.bool():
        v = -v
    return max(N.LO, min(N.HI, v))


def gdbl(c):
    k = c.weighted([(5, 0), (3, 1), (2, 2)])
    if k == 0:
        return c.n(-40, 40) / c.pick([1.0, 2.0, 4.0, 8.0, 10.0, 3.0])
    if k == 1:
        return (c.bits(30) - (1 << 29)) / float(1 << c.n(0, 40))
    return float(gint(c)) + c.pick([0.0, 0.5, -0.5])


def num(v):
    """where an expression may stand"""
    if isinstance(v, float) and not math.isfinite(v):
        return "0 % 0" if v != v else "1 / 0" if v > 0 else "0 - 1.0 / 0"
    if N.is_int(v):
        if v >= 0:
            return str(v)
        if v == N.LO:
            return "0 - %d - 1" % N.HI
        return "0 - %d" % -v
    s = N.lit(abs(v))
    return "0 - %s" % s if v < 0 else s


def opnd(v):
    """as an operand"""
    return num(v) if v >= 0 and math.isfinite(v) else "(%s)" % num(v)


def gen(c):
    lines, exp, nt = [], [], False
    depth = c.n(0, 3)
    for i in range(c.n(1, 14)):
        op = c.pick(OPS)
        a = gint(c) if c.bool(2, 3) else gdbl(c)
        b = (gint(c) if c.bool(2, 3) else gdbl(c)) if op not in ("<<", ">>") else c.n(0, 62)
        if a == 0 and isinstance(a, float):
            a = 0.0
        if b == 0 and isinstance(b, float):
            b = 0.0
        if op in ("/", "%", "*", "-", "+") and c.bool(1, 6):
            a, b = c.pick([N.LO, N.LO, N.LO + 1, N.HI, 1 << 61, -(1 << 61)]), c.pick([-1, -1, 1, 2, -2, 0, N.LO, N.HI])
        elif op in OPS[6:12] and c.bool(1, 6):
            z = c.pick([math.nan, math.inf, -math.inf])
            if c.bool(1, 4):
                b = c.pick([math.nan, math.inf, -math.inf])
            elif c.bool():
                b = a
            a, b = (z, b) if c.bool() else (b, z)
            c.tag("infinite or not a number")
        if op in ("==", "!=") and a == a and b == b and c.bool():
            b = a
        if op == "**":
            if c.bool(2, 3):
                a, b = c.n(-12, 12), c.n(0, 16)
            elif not N.is_int(b) or abs(b) > 20:
                b = c.n(0, 9)
        if op in ("<<", ">>"):
            a = min(N.HI, abs(gint(c))) >> (c.n(0, 61) if op == "<<" else 0)
            if op == ">>" and c.bool():
                a = -a
        try:
            r = N.binop(op, a, b)
        except N.Domain:
            c.tag("outside the model")
            continue
        if isinstance(r, float) and (r != r or (math.isfinite(r) and abs(r) > 1e15 and op == "**")):
            c.tag("outside the model")
            continue        # pow() of libm is not correctly rounded everywhere
        form = c.raw(5)
        x, y = num(a), num(b)
        if form == 1 and op in ("+", "-", "*", "/", "%", "**", "<<", ">>"):
            lines.append("v%d = %s\nv%d %s= %s\n(v%d) say" % (i, x, i, op, y, i))
        elif form == 2:
            lines.append("v%d = %s\nw%d = %s\n(v%d %s w%d) say" % (i, x, i, y, i, op, i))
        elif form == 3:
            lines.append("f%d = (a, b): a %s b.\n(f%d(%s, %s)) say" % (i, op, i, x, y))
        elif form == 4:
            lines.append("v%d = %s\ng%d = (b):\n  t = v%d %s b\n  t\n.\n(g%d(%s), 0) say" % (i, x, i, i, op, i, y))
        else:
            lines.append("(%s %s %s) say" % (opnd(a), op, opnd(b)))
        s = {True: "true", False: "false"}.get(r) if isinstance(r, bool) else N.fmt(r)
        exp.append("(%s%s)" % (s, ", 0" if form == 4 else ""))
        c.tag("op " + op)
        ii = N.is_int(a) and N.is_int(b)
        if ii and isinstance(r, float):
            c.tag("overflow")
        nt = nt or not ii or isinstance(r, float) or (not isinstance(r, bool) and r < 0)
    pad = "".join("p%d = %d\n" % (i, i) for i in range(6 * depth))     # registers further away
    return {"src": pad + "\n".join(lines) + "\n", "exp": "".join(e + "\n" for e in exp), "nt": nt}


def unary(c):
    lines, exp = [], []
    for i in range(c.n(1, 8)):
        a = gint(c) if c.bool(3, 4) else gdbl(c)
        k = c.pick(["-", "~", "+", "++", "--", "post++", "post--", "not", "cmp"])
        if k == "~" and not N.is_int(a):
            k = "-"
        lines.append("v%d = %s" % (i, num(a)))
        if k == "-":
            r = N.binop("-", 0, a)
            lines.append("(- v%d) say" % i)
        elif k == "+":
            r = N.binop("+", 0, a)
            lines.append("(%s v%d) say" % (c.pick(["+", "0 + +"]), i))
        elif k == "~":
            r = ~a
            lines.append("(~ v%d) say" % i)
        elif k == "not":
            r = False
            lines.append("(not v%d) say" % i)
        elif k == "cmp":
            b = gint(c) if c.bool() else gdbl(c)
            x, y = (a, b) if N.is_int(a) and N.is_int(b) else (float(a), float(b))
            r = (x > y) - (x < y)
            lines.append("(|v%d cmp(%s). + 0) say" % (i, num(b)))
        else:
            d = 1 if "+" in k else -1
            n = N.binop("+", a, d)
            lines.append("(%s) say" % (("++v%d" if d > 0 else "--v%d") % i if k[0] != "p" else ("v%d++" if d > 0 else "v%d--") % i))
            exp.append("(%s)" % N.fmt(a if k[0] == "p" else n))
            lines.append("(v%d) say" % i)
            r = n
        exp.append("(%s)" % ("false" if r is False else N.fmt(r)))
        c.tag("op " + k)
    return {"src": "\n".join(lines) + "\n", "exp": "".join(e + "\n" for e in exp), "nt": True}


PARTS = [Part("binary", gen, common.run_program, 9000, 400000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("unary", unary, common.run_program, 2500, 100000, nontrivial=lambda k: k["nt"], show=common.show)]
