"""Strings: immutable sequences of characters, whatever bytes each of them takes."""
import re
from ..engine import Part
from .. import strs, numsem
from . import common

ID = "C09"
RULE = ("histories of string operations (length, indexing, slices, ord, joins, concatenation, comparison, conversion to numbers and bytes, character-by-character "
        "copies) on generated Unicode strings, from empty to some 20000 characters, compared with a reference of character sequences; "
        "non-trivial: a string with a character of more than one byte, or of more than 255 bytes, takes part")
ASSUMPTIONS = ["strings contain no NUL character", "slices with an end before the start are only required to be a string"]


def idx(i, n):
    return 0 if i + n < 0 else i + n if i < 0 else min(i, n)


def tonum(s):
    if s == "":
        return "0"
    m = re.fullmatch(r"([+-]?)(\d*)", s)
    if m and len(m.group(2)) < 10:
        return str(int(m.group(2) or "0") * (-1 if m.group(1) == "-" else 1))
    m = re.match(r"[ \t\n]*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s)
    return numsem.fmt(float(m.group(0)) if m else 0.0)


def gen(c):
    src, exp = [], []
    vs = []           # name, value
    big = False

    def put(line, val):
        src.append(line)
        exp.append(val)

    def new(expr, val):
        nm = "s%d" % len(vs)
        src.append("%s = %s" % (nm, expr))
        vs.append((nm, val))
        return nm

    for _ in range(c.n(1, 4)):
        s = strs.text(c)
        new(strs.literal(c, s), s)
    if c.bool(1, 3):
        nm, v = c.pick(vs)
        k = c.n(1, 9)
        if v and len(v.encode()) * 2 ** k < 60000:
            src.append("b = %s" % nm)
            src.append("%d times: b = (b, b) join." % k)
            v = v * 2 ** k
            new("b", v)
            if c.bool():
                w = strs.char(c)
                new("(b, %s) join" % strs.literal(c, w), v + w)
    for _ in range(c.n(4, 30)):
        nm, v = c.pick(vs)
        n = len(v)
        k = c.weighted([(3, "length"), (5, "at"), (6, "slice"), (5, "ord"), (3, "join"), (3, "plus"), (3, "eq"), (4, "cmp"), (2, "number"), (2, "bytes"), (1, "each"),
                        (2, "print"), (1, "odd"), (1, "copy"), (2, "text"), (1, "chr"), (1, "words")])
        if k == "length":
            put("(%s length, 1) say" % nm, "(%d, 1)" % n)
        elif k == "text":
            s = strs.text(c)
            new(strs.literal(c, s), s)
        elif k == "at":
            i = c.n(-n - 1, n + 1) if c.bool(3, 4) else c.n(-6, 6)
            r = v[idx(i, n)] if idx(i, n) < n else ""
            put("(%s(%s), 1) say" % (nm, num(i)), "(%s, 1)" % r)
        elif k == "slice":
            f = c.raw(5)
            a = c.n(0, n + 1)
            if f == 0:
                e, r = "slice(%d, nil)" % a, v[min(a, n):]
            elif f == 1:
                a = c.n(-n - 1, -1)
                e, r = "slice(%s, nil)" % num(a), v[idx(a, n):]
            elif f == 2:
                b = c.n(a, n + 2)
                e, r = "slice(%d, %d)" % (a, b), v[a:b]
            elif f == 3:
                a, b = sorted((c.n(-n - 1, -1), c.n(-n - 1, -1)))
                e, r = "slice(%s, %s)" % (num(a), num(b)), v[idx(a, n):idx(b, n)]
            else:
                b = c.n(-n - 1, -1)
                if idx(b, n) < min(a, n):
                    continue
                e, r = "slice(%d, %s)" % (a, num(b)), v[min(a, n):idx(b, n)]
            if c.bool(1, 3) and len(vs) < 12:
                m = new("%s %s" % (nm, e), r)
                put("(%s, %s length, 1) say" % (m, m), "(%s, %d, 1)" % (r, len(r)))
            else:
                put("(%s %s, 1) say" % (nm, e), "(%s, 1)" % r)
        elif k == "ord":
            i = c.n(0, n + 1)
            o = ord(v[i]) if i < n else 0
            put("(%s ord(%d), 1) say" % (nm, i), "(%d, 1)" % o)
            if i == 0:
                put("(%s ord, 1) say" % nm, "(%d, 1)" % o)
        elif k == "join":
            xs = [c.pick(vs) if c.bool(3, 4) else c.pick([("7", "7"), ("nil", "nil"), ("true", "true"), ("-3", "-3"), ("(1, 2)", "(1, 2)"), ("1.5", "1.5")]) for _ in range(c.n(0, 6))]
            t = "(%s)" % ", ".join(x for x, y in xs) if xs else "()"
            if len(xs) == 1 and c.bool():
                pass
            if c.bool():
                r, e = "".join(y for x, y in xs), "%s join" % t
            else:
                sep = strs.text(c, 4)
                r, e = sep.join(y for x, y in xs), "%s join(%s)" % (t, strs.literal(c, sep))
            if len(r) > 30000:
                continue
            if len(vs) < 12:
                m = new(e, r)
                put("(%s length, %s, %s == %s) say" % (m, m, m, strs.literal(c, r) if len(r) < 200 else m), "(%d, %s, true)" % (len(r), r))
            else:
                put("(%s, 1) say" % e, "(%s, 1)" % r)
        elif k == "plus":
            xs = [c.pick(vs) for _ in range(c.n(2, 4))]
            if sum(len(y) for x, y in xs) > 30000 or len(vs) >= 12:
                continue
            r = "".join(y for x, y in xs)
            m = new(" + ".join(x for x, y in xs), r)
            put("(%s, %s length) say" % (m, m), "(%s, %d)" % (r, len(r)))
        elif k == "eq":
            m, w = c.pick(vs)
            put("(%s == %s, %s != %s) say" % (nm, m, nm, m), "(%s, %s)" % (("true", "false") if v == w else ("false", "true")))
            if n < 300:
                put("(%s == %s, 1) say" % (nm, strs.literal(c, v)), "(true, 1)")
        elif k == "cmp":
            m, w = c.pick(vs) if c.bool(3, 4) else ("12", "12")
            if m == nm and len(v) and c.bool():
                i = c.n(0, n - 1)
                w = v[:i] + strs.char(c) + v[i + 1:]
                if len(w) > 300:
                    continue
                m = strs.literal(c, w)
            src.append("r = %s cmp(%s)" % (nm, m))
            put("(r < 0, r == 0, r > 0) say", "(%s, %s, %s)" % tuple(str(x).lower() for x in (v < w, v == w, v > w)))
        elif k == "number":
            f = c.raw(5)
            if f == 0:
                s = str(c.n(-99999, 99999))
            elif f == 1:
                s = "%d%s" % (c.n(0, 99), c.pick(["x", " 5", "abc", ".", "e", "-1"]))
            elif f == 2:
                s = "%s%d.%d" % (c.pick(["", "-", "+"]), c.n(0, 9999), c.n(0, 99))
            elif f == 3:
                s = "".join(str(c.n(0, 9)) for _ in range(c.n(1, 25)))
            else:
                s = c.pick(["", "-", "+", "1e5", "1.5e-3", "000", "0012", "-0", "999999999", "1000000000", "2147483648", "abc", "nothing", ".5", "-.25", "1e400"])
                if s == "1e400":
                    continue
            put("(%s number, 1) say" % strs.literal(c, s), "(%s, 1)" % tonum(s))
        elif k == "bytes":
            b = v.encode()
            put("(%s bytes length, %s bytes string == %s, 1) say" % (nm, nm, nm), "(%d, true, 1)" % len(b))
            put("(%s bytes, 1) say" % nm, "(%s, 1)" % v)
        elif k == "each" and v.isascii() and 0 < n < 60:
            put("%s bytes each (x): ('<', x, '>') join print.\n'' say" % nm, "".join("<%s>" % x for x in v))
        elif k == "print":
            put(c.pick(["%s say", "%s string say", "%s clone say", "%s print\n'' say"]) % nm, v)
        elif k == "odd":
            a = c.n(-n - 3, n + 3)
            b = c.n(-n - 3, n + 3)
            put("(%s slice(%s, %s) kind == String, 1) say" % (nm, num(a), num(b)), "(true, 1)")
        elif k == "copy" and 0 < n < 80:
            back = c.bool()
            src.append("r = ''\ni = 0\nwhile (i < %s length):\n  r = %s\n  i = i + 1\n." % (nm, "(%s(i), r) join" % nm if back else "(r, %s(i)) join" % nm))
            put("(r, r length, r == %s) say" % nm, "(%s, %d, %s)" % (v[::-1] if back else v, n, str(v[::-1] == v or not back).lower()))
        elif k == "chr":
            i = c.n(1, 127)
            put("(%d chr, %d chr ord, 1) say" % (i, i), "(%s, %d, 1)" % (chr(i), i))
        elif k == "words":
            ws = [strs.text(c, 5) for _ in range(c.n(1, 30))]
            src.append("l = ()")
            for w in ws:
                src.append("l push(%s)" % strs.literal(c, w))
            r = " ".join(ws)
            if len(vs) < 12:
                new("l join(' ')", r)
            put("(l join(' '), 1) say", "(%s, 1)" % r)
    nt = any(len(y.encode()) > len(y) or len(y) > 255 for x, y in vs)
    return {"src": "\n".join(src) + "\n", "exp": "".join(e + "\n" for e in exp), "nt": nt}


def num(i):
    return str(i)


PARTS = [Part("histories", gen, common.run_program, 8000, 300000, nontrivial=lambda k: k["nt"], show=common.show)]
