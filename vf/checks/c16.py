"""Literals denote the values they spell, wherever in the source text they stand."""
from ..engine import Part
from .. import strs, numsem
from . import common

ID = "C16"
RULE = ("integer literals in decimal and hexadecimal, decimal fractions with and without exponent, strings in both quotes with every escape and with text of all UTF-8 lengths, from empty to some thousand bytes, "
        "between comments, blank lines and padding which move them over the buffer borders of the parser; their values, lengths and characters are compared with Python's; "
        "non-trivial: a text longer than 400 bytes, an escape, a number beyond 2^31, or a fraction")
ASSUMPTIONS = ["integer literals are below 2^62 in size, as the statement of integers says"]


def string(c, most):
    """(source, text)"""
    k = c.raw(10)
    if k < 3:
        s = strs.text(c, 60)
        return strs.literal(c, s), s
    if k < 7:
        n = c.weighted([(2, c.n(0, 20)), (2, c.n(200, 700)), (2, c.pick([255, 256, 495, 496, 497, 511, 512, 513, 1007, 1008, 1009, 1023, 1024, 1025, 2047, 2048, 2049]) + c.n(-3, 3)), (1, c.n(700, most))])
        unit = c.pick(["a", "ab", "é", "乔", "😀", "x é 😀", "'", "\\", '"', "\n", "0123456789"])
        s = (unit * (n // len(unit.encode()) + 1))
        b = s.encode()[:n]
        s = b.decode("utf-8", "ignore")
        # a marked place inside
        if s and c.bool():
            i = c.n(0, len(s))
            s = s[:i] + strs.char(c) + s[i:]
        return strs.literal(c if c.bool() else None, s), s
    # escapes one by one
    out, txt = [], []
    for _ in range(c.n(0, 30)):
        q = c.raw(7)
        if q == 0:
            e, v = c.pick([("\\n", "\n"), ("\\b", "\b"), ("\\f", "\f"), ("\\r", "\r"), ("\\t", "\t"), ('\\"', '"'), ("\\\\", "\\"), ("''", "''"), ("\\'", "'")])
        elif q == 1:
            o = c.pick(strs.EDGE[:5] + strs.EDGE[7:] + [1, 9, 0x20, 0x7e, 0x41]) if c.bool() else c.n(1, 0xd7ff)
            e, v = c.pick(["\\u%04x", "\\u%04X"]) % o, chr(o)
        elif q == 2:
            o = c.pick(strs.EDGE + [1, 0x41, 0x7f]) if c.bool() else c.n(0xe000, 0x10ffff)
            e, v = c.pick(["\\U{%x}", "\\U{%X}", "\\U{0%x}"]) % o, chr(o)
        elif q == 3:
            v = c.pick("acdeghijklmopqsvwxyz0123456789 !#$%&()*+,-./:;<=>?@[]^_`{|}~é乔😀")
            e = "\\" + v
        else:
            v = strs.char(c)
            e = v if not (v in '"\\' or v < " " and v not in "\t\n\r" or v == "\x7f") else ("\\" + v if v in '"\\' else "\\u%04x" % ord(v))
        out.append(e)
        txt.append(v)
    return '"%s"' % "".join(out), "".join(txt)


def integer(c):
    b = c.n(0, 61)
    n = c.bits(b) if b else 0
    if c.bool(1, 3):
        n = max(0, (1 << b) + c.n(-1, 1))
    n = min(n, (1 << 62) - 1)
    if c.bool(1, 3):
        h = c.pick(["%x", "%X"]) % n
        return "0x" + "0" * c.pick([0, 0, 0, 1, 2, 8] if n < 1 << 28 else [0]) + h, n
    if n and c.bool(1, 4):
        return "-%d" % n, -n
    return str(n), n


def fraction(c):
    i = c.pick(["0", str(c.n(1, 9)), str(c.n(1, 999999)), str(c.bits(53))])
    s = i
    k = c.raw(4)
    if k != 1:
        s += "." + c.pick([str(c.n(0, 9)), "%0*d" % (c.n(1, 20), c.n(0, 10 ** 6)), "5", "25", "0", "000"])
    if k < 2:
        s += "e" + c.pick("+-") + str(c.n(0, 30) if c.bool() else c.n(0, 320))
    if i != "0" and c.bool(1, 5):
        s = "-" + s
    return s, float(s)


def pad(c):
    k = c.raw(8)
    if k < 4:
        return ""
    if k == 4:
        return "# " + c.pick(["x", "é", "'", '"', "乔 "]) * c.n(0, 300) + "\n"
    if k == 5:
        return "\n" * c.n(1, 80)
    if k == 6:
        return " " * c.n(0, 600)
    return "# comment" + c.pick(["\n", "\r", "\r\n"])


def gen(c):
    lines, exp = [], []
    nt = False
    n = c.n(1, 14)
    base = c.weighted([(2, 0), (1, c.n(900, 1030)), (1, c.n(0, 3000))])
    if base:
        lines.append("#" + "." * base + "\n")
    # a long row of names which only fills the constants
    if c.bool(1, 8):
        m = c.pick([10, 120, 130, 250, 260, 600])
        lines.append("\n".join("k%d = %s" % (i, c.pick(["'k%d'" % i, str(i + 1000), "%d.5" % i])) for i in range(m)) + "\n")
        c.tag("many constants")
    for i in range(n):
        lines.append(pad(c))
        k = c.raw(8)
        if k < 4:
            src, s = string(c, 6000)
            nt |= len(s.encode()) > 400 or "\\" in src
            form = c.raw(4)
            if form == 0:
                lines.append("%s say" % src)
                exp.append(s)
            elif form == 1:
                lines.append("v = %s, v bytes length say" % src)
                exp.append(str(len(s.encode())))
            elif form == 2:
                lines.append("v = %s%s, v length say, v print, '.' say" % (pad(c) if 0 else "", src))
                exp.append("%d\n%s." % (len(s), s))
            else:
                j = c.n(0, max(0, len(s) - 1))
                lines.append("v = (%s, %d), v(0) slice(%d, nil) say, v(1) say" % (src, j, j))
                exp.append("%s\n%d" % (s[j:], j))
        else:
            src, v = integer(c) if k < 6 else fraction(c)
            nt |= k >= 6 or abs(v) > 1 << 31
            form = c.raw(4)
            if form == 0 or src[0] == "-":
                lines.append("v = %s, v say" % src)
                exp.append(numsem.fmt(v))
            elif form == 1:
                lines.append("%s say" % src)
                exp.append(numsem.fmt(v))
            elif form == 2:
                lines.append("(%s, 'x') say" % src)
                exp.append("(%s, x)" % numsem.fmt(v))
            else:
                lines.append("(k=%s) string say" % src)
                exp.append("(k=%s)" % numsem.fmt(v))
        lines.append(c.pick(["\n", "\n", "\r\n", "\r", " # end\n"]))
    return {"src": "".join(lines), "exp": "".join(x + "\n" for x in exp), "nt": nt}


PARTS = [Part("literals", gen, common.run_program, 7000, 300000, nontrivial=lambda k: k["nt"], show=common.show)]
