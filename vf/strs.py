"""String values and the ways of writing them in potion source."""

# the borders of the UTF-8 lengths, and ordinary text
EDGE = [0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0xfffd, 0xfeff, 0x2028, 0x85, 0xa0, 0xff, 0x100]
SPECIAL = "'\"\\ \t\n\r#:.,()[]=|?/%@;&$`~"
WORDS = ["a", "b", "abc", "hello", "world", "x", "it's", "乔纳森莱特", "é", "ß", "😀", "12", "-3", "nil", "the quick brown fox jumps over the lazy dog"]


def char(c):
    k = c.raw(10)
    if k < 5:
        return chr(c.n(97, 122))
    if k < 6:
        return chr(c.n(32, 126))
    if k < 7:
        return c.pick(SPECIAL)
    if k < 8:
        return chr(c.pick(EDGE))
    if k < 9:
        return chr(c.n(0xa1, 0x24ff))
    n = c.n(0x3000, 0x1f6ff)
    return chr(n if not 0xd800 <= n < 0xe000 else n + 0x800)


def text(c, most=40):
    k = c.raw(8)
    if k == 0:
        return ""
    if k < 3:
        return c.pick(WORDS)
    if k < 6:
        return "".join(char(c) for _ in range(c.small(1, most)))
    if k == 6:
        return "".join(chr(c.n(97, 122)) for _ in range(c.small(1, most)))
    return "".join(c.pick(WORDS) + c.pick(["", " ", ", "]) for _ in range(c.n(1, 6)))


ESC = {"\n": "\\n", "\b": "\\b", "\f": "\\f", "\r": "\\r", "\t": "\\t", '"': '\\"', "\\": "\\\\"}


def literal(c, s):
    """one of the spellings of s"""
    # control characters have no place in a source but as escapes
    ctl = [ch for ch in s if (ch < " " and ch not in "\t\n\r") or ch == "\x7f"]
    if not ctl and (c is None or c.bool()):
        return "'%s'" % s.replace("'", "''")
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '"' or ch == "\\":
            out.append(ESC[ch])
        elif ch in ESC and (ch in ctl or c and c.bool()):
            out.append(ESC[ch])
        elif o < 0x10000 and (ch in ctl or c and c.bool(1, 8)):
            out.append(("\\u%04X" if c and c.bool() else "\\u%04x") % o)
        else:
            out.append(ch)
    return '"%s"' % "".join(out)
