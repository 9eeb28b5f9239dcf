"""Any text is either compiled or refused: no crash, no hang, and nothing of a refused program runs."""
import os, resource, subprocess, time
from ..engine import Part
from .. import strs
from . import common

ID = "C15"
RULE = ("random bytes, sequences of tokens, and valid programs with bytes, tokens or stretches removed, inserted, exchanged or cut off are given to the compiler as a file, to -c and "
        "as -e: it ends with status 0 and no message or with status 1 or 2 and a syntax error, the same each way; valid programs with an error put between two of their statements are refused without any output; "
        "non-trivial: refused, or more than 200 bytes")
ASSUMPTIONS = ["brackets are nested less than 9 deep where they are not closed: the time the parser takes grows threefold with each (known finding)"]

TOKS = ("if elsif else while loop class return break continue times each to step say self nil true false and or not x y z f X Y 1 2 0 1.5 'a' \"b\" ( ) [ ] { } : . , | = == != < > <= >= "
        "+ - * / % ** ++ -- ! ~ & ^ << >> ? /a /b # \n ... := += -= *= => ; ` @ $ \\ \t \r é 😀 \x00 'abc \"\\u00e9\" \"\\x\" 0x1F 1e+5 0x .5 5. |= x[0] x['a'] ?m f() f(1, 2) (x=1) (x): x.").split(" ")


def program(c):
    from . import c04, c05, c08, c09, c11, c12, c03, c06
    g = c.weighted([(3, c04.gen), (3, c05.gen), (3, c08.gen), (1, c09.PARTS[0].gen), (2, c11.gen), (2, c12.gen), (1, c03.gen), (2, c06.positional)])
    return g(c)


def text(c):
    k = c.weighted([(2, "bytes"), (4, "tokens"), (6, "mutated")])
    c.tag(k)
    if k == "bytes":
        return bytes(c.n(0, 255) if c.bool() else c.n(32, 126) for _ in range(c.n(0, 80)))
    if k == "tokens":
        sep = c.pick(["", " "])
        return sep.join(c.pick(TOKS) for _ in range(c.n(0, 50))).encode()
    b = bytearray(program(c)["src"].encode())[:6000]
    for _ in range(c.n(1, 5)):
        if not b:
            break
        j = c.n(0, len(b) - 1)
        q = c.n(0, 6)
        if q < 2:
            del b[j:j + c.pick([1, 1, 2, 5, 30])]
        elif q == 2:
            b[j:j] = c.pick(TOKS).encode()
        elif q == 3:
            b[j] = c.n(0, 255)
        elif q == 4:
            e = c.n(0, len(b) - 1)
            b[j:j] = b[e:e + c.n(0, 20)]
        elif q == 5:
            del b[j:]
        else:
            t = c.pick(TOKS).encode()
            b[j:j + len(t)] = t
    return bytes(b)


def shallow(b):
    """unclosed brackets and groups, which the parser tries in many ways"""
    d = m = 0
    for x in b:
        if x in b"([{|":
            d += 1
            m = max(m, d)
        elif x in b")]}.":
            d = max(0, d - 1)
    return m < 8


def gen(c):
    b = text(c)
    if not shallow(b):
        c.tag("nested too deep")
        b = b"x"
    return {"text": b.decode("latin1")}


def outcome(r):
    e = r.err.decode("latin1")
    if r.rc == 0:
        return "accepted" if not e else "status 0 and %r" % e[:200]
    if r.rc in (1, 2) and "** Syntax error" in e:
        return "refused"
    return "status %d, %r" % (r.rc, e[:200])


def check(ctx, case):
    b = case["text"].encode("latin1")
    f = ctx.write("t.pn", b)
    o = outcome(ctx.run([ctx.potion, "--check", f]))
    if o not in ("accepted", "refused"):
        return "--check: " + o
    try:
        os.unlink(f + "b")
    except FileNotFoundError:
        pass
    r = ctx.run([ctx.potion, "-c", f])
    if (r.rc == 0) != (o == "accepted") or os.path.exists(f + "b") != (o == "accepted"):
        return "%s by --check; -c: status %d, %s" % (o, r.rc, "a file" if os.path.exists(f + "b") else "no file")
    if 0 not in b and b:
        p = outcome(ctx.run([ctx.potion, "--check", "-e", b]))
        if p != o:
            return "%s as a file, but %s as -e" % (o, p)
    return None


BAD = [")", "]", "(1, 2", "if (", "'abc", "\"abc", "a = = 2", "x: .. )", "}", "[1", "\"\\q\" )", ")(", "`", "1 say )", "? )", "class (", ";", "1 2)", "(1]", "'a' )", "1 * * 2"]


def refused(c):
    k = program(c)
    src = k["src"]
    bad = c.pick(BAD)
    lines = src.split("\n")
    # in front or at the end: all blocks are closed there
    n = len(lines)
    i = c.pick([0, n])
    lines.insert(i, bad)
    return {"src": "\n".join(lines) + "\n", "bad": bad, "first": i == 0}


def check_refused(ctx, case):
    # what is behind an unclosed string or bracket may be read as part of it
    for m in ("-B", "-X"):
        r = ctx.src(case["src"], m)
        if r.rc not in (1, 2) or r.out or b"** Syntax error" not in r.err:
            if case["first"] and case["bad"] in ("'abc", "\"abc", "(1, 2", "if (", "1 + ", "[1", "class ("):
                continue
            return "%s: %r added; status %d, output %r, message %r" % (m, case["bad"], r.rc, r.out[:100], r.err[:100])
    return None


def check_nest(ctx, case):
    """the time to read must not multiply with each bracket"""
    def t(n):
        f = ctx.write("n.pn", case["open"] * n)
        best = 9e9
        for _ in range(3):
            a = time.monotonic()
            subprocess.run([ctx.potion, "--check", f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=60)
            best = min(best, time.monotonic() - a)
        return best
    a, b = t(10), t(13)
    if b > 0.3 and b > a * 8:
        return "%d times %r are read in %.2f s, %d times in %.2f s" % (10, case["open"], a, 13, b)
    return None


PARTS = [Part("texts", gen, check, 9000, 500000, nontrivial=lambda k: len(k["text"]) > 200, show=lambda k: k["text"][:1500]),
         Part("refused", refused, check_refused, 2500, 100000, show=lambda k: k["src"][-800:]),
         Part("nesting", lambda c: {"open": c.pick(["x + ", "x say\n", "-", "not ", "if (x): y.\n"])}, check_nest, 5, 5)]
