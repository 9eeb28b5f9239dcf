"""Values of the wrong kind: an operator or a builtin that cannot work with them says so, and nothing else happens."""
import os
import re
from ..engine import Part
from .. import strs

ID = "C35"
RULE = ("sequences of operators and builtins, of which one operand or argument is of a kind they do not work with (every kind of value, as a variable, an element or the result of a call), are compared with the errors they have to give, with the "
        "values they must leave alone and with the statements that follow; non-trivial: at least three refusals of two different builtins or operators")
ASSUMPTIONS = ["the name of the parameter in the text of an error is not compared", "no operator is given a first operand that is neither a number nor a text, but in comparisons and powers"]

KINDS = ["nil", "bool", "int", "dbl", "str", "tup", "tbl", "fn", "cls", "bytes", "err", "obj", "file"]
NAME = {"nil": "NilKind", "bool": "Boolean", "int": "Integer", "dbl": "Number", "str": "String", "tup": "Tuple", "tbl": "Table", "fn": "Function",
        "cls": "Mixin", "bytes": "Bytes", "err": "Error", "obj": "Thing", "file": "File"}


def literal(c, k):
    if k == "nil":
        return "nil"
    if k == "bool":
        return c.pick(["true", "false"])
    if k == "int":
        return str(c.pick([1, 7, 0, 2, 255, 1 << 40]))
    if k == "dbl":
        return c.pick(["1.5", "0.0", "1e+100", "3.0"])
    if k == "str":
        return strs.literal(c, strs.text(c, 6))
    if k == "tup":
        return c.pick(["(1, 2)", "('a', nil, 3)", "(1, (2, 3))"])
    if k == "tbl":
        return c.pick(["(k=1)", "(a=(1, 2), b=nil)"])
    if k == "fn":
        return c.pick(["(x): x.", "(): 1.", "(x, y): x + y."])
    if k == "cls":
        return "Thing"
    if k == "bytes":
        return "'xyz' bytes"
    if k == "err":
        return "list(nil)"
    if k == "obj":
        return "Thing()"
    return "File('/dev/null', 'r')"


# what is called, what it wants, the kinds it takes
CLOSURE = ("Closure", ("fn",))
INTEGER = ("Integer", ("int",))
TEXT = ("String or Bytes", ("str", "bytes"))
CALLS = [
    ("t map(%s)", "block", CLOSURE), ("t each(%s)", "block", CLOSURE), ("t filter(%s)", "block", CLOSURE), ("t reduce(%s, 0)", "block", CLOSURE),
    ("h each(%s)", "block", CLOSURE), ("h map(%s)", "block", CLOSURE), ("h filter(%s)", "block", CLOSURE), ("b each(%s)", "block", CLOSURE),
    ("list(%s)", "size", INTEGER), ("n to(%s, f)", "end", INTEGER), ("n step(%s, 1, f)", "end", INTEGER), ("n step(9, %s, f)", "step", INTEGER),
    ("s slice(%s, 2)", "start", ("Integer", ("int", "nil"))), ("s slice(0, %s)", "end", ("Integer", ("int", "nil"))),
    ("h slice(%s)", "keys", ("Tuple", ("tup", "nil"))), ("b append(%s)", "str", TEXT),
    ("load(%s)", "file", ("String", ("str",))), ("File(%s, 'r')", "path", TEXT), ("File('/dev/null', %s)", "mode", TEXT),
    ("g read(%s)", "n", INTEGER), ("Thing def(%s, f)", "name", ("String", ("str",))), ("n isa?(%s)", None, (None, ("cls",))),
    ("g write(%s)", None, (None, ("nil", "bool", "int", "dbl", "str", "bytes"))),
    ("d to(9, f)", "self", None), ("d times(f)", "self", None), ("d step(9, 1, f)", "self", None),
    ("list(-%s)", "size", "neg"), ("g read(-%s)", "n", "neg"), ("n step(9, 0, f)", "step", "zero"), ("n step(-9, 0, f)", "step", "zero"),
    ("%s cmp(n)", None, "cmp"), ("%s cmp(t)", None, "cmp"),
]
FATAL = [("n times(%s)", "times"), ("n to(99, %s)", "to"), ("n step(99, 1, %s)", "step"), ("t sort(%s)", "sort"), ("t ins_sort(%s)", "sort"), ("t cmp(%s)", "cmp")]
CMP = ["<", "<=", ">", ">="]


def gen(c):
    src, out = ["Thing = class: /z = 1."], []
    count = [0]

    def tmp():
        count[0] += 1
        return "v%d" % count[0]

    def value(k):
        """an expression for a value of kind k"""
        lit = literal(c, k)
        v = tmp()
        w = c.raw(4)
        src.append("%s = %s" % (v, lit))
        if w <= 1:
            return v
        u = tmp()
        if w == 2:
            src.append("%s = (0, %s)" % (u, v))
            return "%s(1)" % u
        src.append("%s = (p): %s." % (u, v))
        return "%s(0)" % u

    s = strs.text(c, 8) or "abc"
    s = s + "xyz"
    t = [c.small(-9, 99) for _ in range(3 + c.small(0, 3))]
    n = 1 + c.small(0, 9)
    d = c.pick(["2.5", "0.0", "-1.5", "1e+30"])
    # the first arithmetic operand d is kept a text so that it prints as it is written
    src += ["s = %s" % strs.literal(c, s), "b = %s bytes" % strs.literal(c, s), "t = (%s)" % ", ".join(map(str, t)), "h = (k=1, m=2)", "n = %d" % n, "d = %s" % d,
            "f = (x): x.", "g = File('/dev/zero', 'r')", "done = list(0)"]
    if c.bool(1, 4):
        # the values move before they are used
        src.append("1 to(%d, (i): x = list(3000).)" % (c.n(20, 80)))
    steps = 0
    kinds = set()
    marks = 0

    def error(k, want):
        return "** Invalid type %s" % NAME[k] + (" for _, expected %s" % want if want else "")

    for _ in range(1 + c.small(0, 7)):
        k = c.pick(KINDS)
        if c.bool(1, 2):
            tpl, _, spec = c.pick(CALLS)
            if spec is None:
                e, x = tpl, error("dbl", "Integer")
            elif spec == "neg":
                e, x = tpl % (1 + c.small(0, 99)), error("int", "positive Integer")
            elif spec == "zero":
                e, x = tpl, error("int", "non-zero Integer")
            elif spec == "cmp":
                k = c.pick(["tbl", "fn", "cls", "bytes", "err", "obj", "file"])
                e, x = tpl % value(k), error(k, None)
            else:
                want, ok = spec
                while k in ok:
                    k = KINDS[(KINDS.index(k) + 1) % len(KINDS)]
                e, x = tpl % value(k), error(k, want)
            kinds.add(tpl)
            w = c.raw(3)
            if w == 0:
                src.append("r = %s" % e)
            elif w == 1:
                src.append("q = (): %s.\nr = q()" % e)
            else:
                src.append("r = (1, 2) map (i): %s.\nr = r(1)" % e)
            src.append("r kind say\nr say")
            out += ["Error", x]
        else:
            op = c.pick(CMP + CMP + ["+", "-", "*", "/", "%", "**", "<<", ">>", "<=>"])
            num = ["n", "d", "3", "-2", "1.5"]
            bad = [q for q in KINDS if q not in ("int", "dbl")]
            if k not in bad:
                k = c.pick(bad)
            v = value(k)
            if (op in CMP or op in ("**", "<=>")) and c.bool():
                a, b, x = v, c.pick(num), error(k, "Number")
                if c.bool(1, 3):
                    b = value(c.pick(bad))
            elif op == "+" and c.bool(1, 3):
                bad2 = [q for q in KINDS if q != "str"]
                if k == "str":
                    k = c.pick(bad2)
                    v = value(k)
                a, b, x = "s", v, error(k, "String")
                # the bytecode names what + works with when the text is first
                x = None
            else:
                a, b, x = c.pick(num), v, error(k, "Number")
            kinds.add(op)
            if op in CMP:
                # nothing of the block after the comparison runs
                src.append("r = (1, 2) map (i): x = %s %s %s, done push(i), 5." % (a, op, b))
            else:
                src.append("r = (1, 2) map (i): %s %s %s." % (a, op, b))
            if x is None:
                src.append("r(0) kind say")
                out.append("Error")
            else:
                src.append("r(0) say\nr(1) say")
                out += [x, x]
        steps += 1
        if c.bool(1, 3):
            src.append("n say")
            out.append(str(n))
    src += ["s say", "b say", "t say", "h length say", "h('k') say", "n say", "x = (): 42.", "x() say", "done say"]
    out += [s, s, "(%s)" % ", ".join(map(str, t)), "2", "1", str(n), "42", "()"]
    fatal = None
    if c.bool(1, 6):
        tpl, what = c.pick(FATAL)
        ok = ("nil", "bool", "fn") if what == "sort" else ("nil", "bool", "tup") if what == "cmp" else ("fn",)
        k = c.pick([q for q in KINDS if q not in ok])
        src += ["r = %s" % (tpl % value(k)), "'not here' say"]
        fatal = what
    return {"src": "\n".join(src) + "\n", "exp": "\n".join(out), "fatal": fatal, "nt": steps >= 3 and len(kinds) >= 2}


def plain(text):
    text = re.sub(r"(Invalid type \S+) for \S+, expected", r"\1 for _, expected", text)
    return [x for x in text.split("\n") if x]


def check(ctx, case):
    for m, label in (("-B", "bytecode VM"), ("-X", "JIT")):
        r = ctx.src(case["src"], m)
        got = plain(r.out.decode("utf-8", "backslashreplace"))
        exp = plain(case["exp"])
        for i in range(max(len(got), len(exp))):
            a = exp[i] if i < len(exp) else "<end>"
            b = got[i] if i < len(got) else "<end, exit status %d, %r>" % (r.rc, r.err[-200:])
            if a != b:
                return "%s: line %d: expected %r, got %r" % (label, i + 1, a[:200], b[:200])
        if case["fatal"] is None:
            if r.rc != 0:
                return "%s: exit status %d (stderr %r)" % (label, r.rc, r.err[-200:])
        elif r.rc != 2 or not r.err.startswith(b"** ") or case["fatal"].encode() not in r.err:
            return "%s: expected an end with a message about %s, exit status %d, %r" % (label, case["fatal"], r.rc, r.err[-200:])
    return None


OPEN = [("close", "close"), ("fgetc", "fgetc"), ("fgets", "fgets"), ("fputc(65)", "fputc"), ("fputs('a')", "fputs"), ("write('abc')", "fwrite"), ("fread(b, 2, 1)", "fread"),
        ("fflush", "fflush"), ("fseek(0, 0)", "fseek"), ("ftell", "ftell"), ("feof", "feof"), ("fileno", "fileno"), ("flockfile", "flockfile"), ("ftrylockfile", "ftrylockfile"),
        ("funlockfile", "funlockfile")]
WANTED = [("f fputs(%s)", TEXT), ("f fputc(%s)", INTEGER), ("f fread(%s, 1, 1)", TEXT), ("f fread(b, %s, 1)", INTEGER), ("f fread(b, 1, %s)", INTEGER), ("f fseek(%s, 0)", INTEGER),
          ("f fseek(0, %s)", INTEGER), ("f write('abc', %s, 1)", INTEGER), ("f write('abc', 1, %s)", INTEGER), ("fopen(%s, 'r')", TEXT), ("fopen('t.txt', %s)", TEXT),
          ("b fmemopen(%s)", TEXT), ("f freopen(%s, 'r', f)", TEXT), ("f freopen('t.txt', %s, f)", TEXT)]


def streams(c):
    body = "".join(c.pick("abcdefg \n") for _ in range(c.small(0, 60)))
    size = 3 + c.small(0, 20)
    buf = ("0123456789" * 4)[:size]
    src, out = ["load 'buffile'", "Thing = class: /z = 1.", "b = '%s' bytes" % buf, "f = fopen('t.txt', 'r+')"], []
    count, pos, kinds = [0], 0, set()
    steps = 1 + c.small(0, 7)

    def value(k):
        count[0] += 1
        v = "v%d" % count[0]
        src.append("%s = %s" % (v, literal(c, k)))
        return v

    for _ in range(steps):
        w = c.raw(3)
        if w == 0:
            tpl, (want, ok) = c.pick(WANTED)
            k = c.pick(KINDS)
            while k in ok or (k == "nil" and "write('abc', %" in tpl):
                k = KINDS[(KINDS.index(k) + 1) % len(KINDS)]
            src.append("r = %s" % (tpl % value(k)))
            out += ["Error", "** Invalid type %s for _, expected %s" % (NAME[k], want)]
            kinds.add(tpl)
        elif w == 1:
            # more than there is room for
            n = c.pick([1, 2, size, size + 1, 1 << 20, 1 << 40])
            m = size // n + 1 + c.small(0, 9)
            if c.bool(1, 4):
                n, m = -n, c.pick([1, 2, size])
            src.append("r = f %s(b, %d, %d)" % (c.pick(["fread", "write"]), n, m))
            out += ["Error", "** Invalid type Integer for _, expected Integer within the buffer"]
            kinds.add("size")
        else:
            src.append("r = f fgetc")
            out += ["Number", str(ord(body[pos]) if pos < len(body) else -1)]
            pos += 1
        src.append("r kind say\nr say")
    src += ["f ftell say", "b say"]
    out += [str(min(pos, len(body))), buf]
    if c.bool():
        src.append("f close say")
        out.append("0")
        for _ in range(1 + c.small(0, 4)):
            e, name = c.pick(OPEN)
            if c.bool(1, 6):
                src.append("g = fopen('t.txt', 'r')\ng fileno say")
                out.append("@")
            src.append("r = f %s\nr kind say\nr say" % e)
            out += ["Error", "** Error %s: Bad file descriptor" % name]
            kinds.add(e)
        src.append("b say\nr = fopen('t.txt', 'r')\nr fgetc say")
        out += [buf, str(ord(body[0]) if body else -1)]
    return {"src": "\n".join(src) + "\n", "exp": "\n".join(out), "fatal": None, "body": body, "nt": steps >= 3 and len(kinds) >= 2}


def check_streams(ctx, case):
    for m, label in (("-B", "bytecode VM"), ("-X", "JIT")):
        d = ctx.fresh()
        os.symlink(ctx.extra["lib"], os.path.join(d, "lib"))
        with open(os.path.join(d, "t.txt"), "w") as o:
            o.write(case["body"])
        with open(os.path.join(d, "x.pn"), "w") as o:
            o.write(case["src"])
        r = ctx.run([ctx.potion, m, "x.pn"], cwd=d)
        got, exp = plain(r.out.decode("utf-8", "backslashreplace")), plain(case["exp"])
        for i in range(max(len(got), len(exp))):
            a = exp[i] if i < len(exp) else "<end>"
            b = got[i] if i < len(got) else "<end, exit status %d, %r>" % (r.rc, r.err[-200:])
            if a != b and not (a == "@" and b.isdigit()):
                return "%s: line %d: expected %r, got %r" % (label, i + 1, a[:200], b[:200])
        if r.rc != 0:
            return "%s: exit status %d (stderr %r)" % (label, r.rc, r.err[-200:])
        left = sorted(os.listdir(d))
        if left != ["lib", "t.txt", "x.pn"]:
            return "%s: files made: %r" % (label, left)
        with open(os.path.join(d, "t.txt")) as h:
            now = h.read()
        if now != case["body"]:
            return "%s: the file holds %r, not %r" % (label, now[:80], case["body"][:80])
    return None


def prepare(paths):
    return {"lib": paths.lib}


def shown(case):
    return {"source": case["src"], "expected": case["exp"].split("\n")}


PARTS = [Part("kinds", gen, check, 5000, 60000, lambda case: case["nt"], shown),
         Part("streams", streams, check_streams, 2000, 24000, lambda case: case["nt"], shown)]
