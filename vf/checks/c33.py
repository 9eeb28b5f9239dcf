"""The code of a function: its tree is that of its text, and called or copied it is the function."""
import os
import re
from ..engine import Part
from .. import strs, progs
from . import common, c04, c05

ID = "C33"
RULE = ("functions of all kinds of statements and operators, laid out at random, are asked for their tree, which is compared with the tree they were written from; functions with and without defaults and captured variables are called, "
        "their code and copies of it are called with as many, fewer and more arguments, before and after redefinitions and collections, and compared with a model; the listings of the code of generated programs are checked "
        "(every jump, register, local and value lies within the function; a copy and the code read back from a compiled file list the same); non-trivial: at least ten nodes, three calls, twenty instructions")
ASSUMPTIONS = ["line breaks and trailing nils of a printed tree are layout", "code by itself sees nil in captured variables"]

LEVELS = [(("or", "or"), ("and", "and")), (("cmp", "<=>"), ("eq", "=="), ("neq", "!=")), (("gt", ">"), ("gte", ">="), ("lt", "<"), ("lte", "<=")),
          (("bitl", "<<"), ("bitr", ">>")), (("plus", "+"), ("minus", "-")), (("times", "*"), ("div", "/"), ("rem", "%")), (("pow", "**"),)]
NAMES = ["a", "b", "xs", "foo", "k9", "long_name", "Žx", "nilly", "orb", "nota"]


class Tree:
    def __init__(self, c):
        self.c, self.n = c, 0

    def gap(self):
        """after an operator or an opening, where lines may end"""
        return self.c.weighted([(6, " "), (1, "  "), (1, "\n   "), (1, " # note\n "), (1, "\r\n")])

    def sep(self):
        return self.c.weighted([(3, ", "), (3, "\n"), (1, " , "), (1, "\n\n  "), (1, " # says 'x'.\n")])

    def stmts(self, d, loop=False):
        k = 1 + (self.c.small(0, 2) if d > 0 else 0)
        both = [self.stmt(d, loop) for _ in range(k)]
        out = both[0][0]
        for t, _ in both[1:]:
            out += self.sep() + t
        return out, ", ".join(x for _, x in both)

    def target(self, d):
        c, n = self.c, self.c.pick(NAMES)
        w = c.raw(6)
        if w < 3:
            return n, 'expr (msg ("%s"))' % n
        if w == 3:
            return "%s /%s" % (n, "iv"), 'expr (msg ("%s"), path "iv")' % n
        if w == 4:
            return "?" + n, 'expr (query "%s")' % n
        t, x = self.op(1, d - 1)
        return "%s(%s)" % (n, t), 'expr (msg ("%s" list (%s)))' % (n, x)

    def stmt(self, d, loop=False):
        c = self.c
        self.n += 1
        k = c.weighted([(4, "expr"), (3, "asg"), (2 if d > 0 else 0, "if"), (1 if d > 0 else 0, "while"), (1, "opasg"), (1, "return"), (1 if loop else 0, "jump"), (1 if d > 0 else 0, "iter")])
        if k == "asg":
            t, x = self.target(d)
            if c.bool(1, 5):
                u, y = self.target(d)
                v, z = self.op(1, d)
                return "%s =%s%s =%s%s" % (t, self.gap(), u, self.gap(), v), "assign (%s assign (%s %s))" % (x, y, z)
            v, z = self.op(1, d)
            return "%s =%s%s" % (t, self.gap(), v), "assign (%s %s)" % (x, z)
        if k == "opasg":
            n = c.pick(NAMES)
            name, sign = c.pick([x for l in LEVELS for x in l if x[0] in ("plus", "minus", "times", "div", "rem", "pow", "bitl", "bitr")])
            v, z = self.op(1, d)
            return "%s %s=%s%s" % (n, sign, self.gap(), v), 'assign (expr (msg ("%s")) %s (expr (msg ("%s")) %s))' % (n, name, n, z)
        if k == "if":
            t, x = self.op(0, d - 1)
            b, y = self.stmts(d - 1, loop)
            out, tree = "if (%s):%s%s" % (t, self.gap(), b), 'msg ("if" list (%s) block (%s))' % (x, y)
            for _ in range(c.small(0, 2)):
                t, x = self.op(0, d - 1)
                b, y = self.stmts(d - 1, loop)
                out, tree = out + ".%selsif (%s):%s%s" % (c.pick([" ", "  "]), t, self.gap(), b), tree + ', msg ("elsif" list (%s) block (%s))' % (x, y)
            if c.bool():
                b, y = self.stmts(d - 1, loop)
                out, tree = out + ". else:%s%s" % (self.gap(), b), tree + ', msg ("else" nil block (%s))' % y
            return out + ".", "expr (%s)" % tree
        if k == "while":
            t, x = self.op(0, d - 1)
            b, y = self.stmts(d - 1, True)
            if c.bool(1, 3):
                return "loop:%s%s." % (self.gap(), b), 'expr (msg ("loop" nil block (%s)))' % y
            return "while (%s):%s%s." % (t, self.gap(), b), 'expr (msg ("while" list (%s) block (%s)))' % (x, y)
        if k == "return":
            t, x = self.op(0, d - 1)
            return "return (%s)" % t, 'expr (msg ("return" list (%s)))' % x
        if k == "jump":
            w = c.pick(["break", "continue"])
            return w, 'expr (msg ("%s"))' % w
        if k == "iter":
            n = c.pick(NAMES)
            b, y = self.stmts(d - 1)
            v = c.n(0, 9)
            return "%d times (%s):%s%s." % (v, n, self.gap(), b), 'expr (value (%d), msg ("times" list (expr (msg ("%s"))) block (%s)))' % (v, n, y)
        return self.op(0, d)

    def op(self, level, d):
        """an expression whose operators bind at least as strongly as the level's"""
        c = self.c
        if level >= len(LEVELS):
            return self.unary(d)
        if d <= 0 or not c.bool(1, 3):
            return self.op(level + 1, d)
        t, x = self.op(level + 1, d - 1)
        for _ in range(1 + c.small(0, 2)):
            name, sign = c.pick(LEVELS[level])
            u, y = self.op(level + 1, d - 1)
            self.n += 1
            t, x = "%s %s%s%s" % (t, sign, self.gap(), u), "%s (%s %s)" % (name, x, y)
        return t, x

    def unary(self, d):
        c = self.c
        w = c.weighted([(9, None), (1, "not"), (1, "~"), (1, "inc"), (1, "neg")])
        if w in ("not", "~") and d > 0:
            t, x = self.chain(d - 1)
            if w == "~":
                return "~" + t, "expr (wavy %s)" % x
            return c.pick(["!", "not "]) + t, "expr (not %s)" % x
        if w == "inc":
            n = c.pick(NAMES)
            s, v = c.pick([("++", "1"), ("--", "-1")])
            if c.bool():
                # a group keeps it from being taken for an operator
                return "|%s%s." % (s, n), 'expr (expr (expr (inc (msg ("%s") %s true))))' % (n, v)
            return "|%s%s." % (n, s), 'expr (expr (expr (inc (msg ("%s") %s))))' % (n, v)
        if w == "neg":
            n = c.pick(NAMES)
            return "|-%s." % n, 'expr (expr (expr (minus (value (0) msg ("%s")))))' % n
        return self.chain(d)

    def args(self, d):
        c = self.c
        k = c.small(0, 3)
        if not k:
            return "()", "list nil"
        ts, xs = [], []
        for _ in range(k):
            t, x = self.op(1, d - 1)
            if c.bool(1, 6):
                n = c.pick(NAMES)
                t, x = "%s=%s" % (n, t), 'assign (expr (msg ("%s")) %s)' % (n, x)
            ts.append(t), xs.append(x)
        out = ts[0]
        for t in ts[1:]:
            out += c.pick([", ", ",", ",\n  "]) + t
        return "(%s%s)" % (c.pick(["", " ", "\n"]), out), "list (%s)" % ", ".join(xs)

    def chain(self, d):
        c = self.c
        t, x = self.atom(d)
        xs = [x]
        closed = t.endswith(".")
        if t[-1] in "0123456789" or d <= 0 or closed:
            k = 0
        else:
            k = c.weighted([(4, 0), (3, 1), (1, 2)])
        for _ in range(k):
            w = c.raw(5)
            n = c.pick(NAMES)
            self.n += 1
            if w < 2:
                t, x = t + " " + n, 'msg ("%s")' % n
            elif w == 2:
                a, y = self.args(d)
                t, x = "%s %s%s" % (t, n, a), 'msg ("%s" %s)' % (n, y)
            elif w == 3:
                t, x = "%s /%s" % (t, n), 'path "%s"' % n
            else:
                t, x = "%s ?%s" % (t, n), 'query "%s"' % n
            xs.append(x)
        return t, "expr (%s)" % ", ".join(xs)

    def atom(self, d):
        c = self.c
        self.n += 1
        k = c.weighted([(4, "name"), (4, "int"), (1, "dbl"), (2, "str"), (1, "const"), (2 if d > 0 else 0, "call"), (1 if d > 0 else 0, "list"), (1 if d > 0 else 0, "group"), (1 if d > 0 else 0, "fn"), (1, "iv"), (1, "hex")])
        n = c.pick(NAMES)
        if k == "name":
            return n, 'msg ("%s")' % n
        if k == "int":
            v = c.pick([0, 1, 10, 4096, 1 << 40, c.n(0, 999)])
            return str(v), "value (%d)" % v
        if k == "hex":
            v = c.n(0, 1 << 20)
            return "0x%x" % v, "value (%d)" % v
        if k == "dbl":
            v = c.n(0, 99) + c.pick([0.5, 0.25, 0.125])
            return str(v), "value (%s)" % v
        if k == "str":
            s = c.pick(["", "a", "two", "Ärger", "x'y", "q" * 40])
            return strs.literal(c, s), 'value ("%s")' % s
        if k == "const":
            v = c.pick(["nil", "true", "false"])
            return v, "value (%s)" % v
        if k == "iv":
            return "/" + n, 'path "%s"' % n
        if k == "call":
            a, y = self.args(d)
            return n + a, 'msg ("%s" %s)' % (n, y)
        if k == "list":
            return self.args(d)
        if k == "group":
            t, x = self.op(1, d - 1)
            return "|%s%s." % (c.pick(["", " "]), t), "expr (%s)" % x
        ps = c.shuffle(NAMES)[:c.small(0, 3)]
        b, y = self.stmts(d - 1)
        return "(%s): %s." % (", ".join(ps), b), "proto (%s block (%s))" % ("list (%s)" % ", ".join('expr (msg ("%s"))' % p for p in ps) if ps else "list nil", y)


def plain(s):
    """without what is layout"""
    s = re.sub(r" ([),])", r"\1", " ".join(s.split()))
    while True:
        r = re.sub(r"(?: nil)+\)", ")", s)
        if r == s:
            return s
        s = r


def trees(c):
    t = Tree(c)
    src, exp, n = [], [], 0
    for i in range(1 + c.small(0, 2)):
        ps = c.shuffle(NAMES)[:c.small(0, 3)]
        out, tree = t.stmts(2 + c.small(0, 2))
        src.append("f%d = (%s): %s." % (i, ", ".join(ps), out))
        exp.append("block (%s)" % tree)
    ask = c.pick(["f%d code tree say", "f%d code clone tree say"])
    src = "\n".join(src) + "\n" + "\n".join((ask % i) + "\n'~~' say" for i in range(len(exp))) + "\n"
    return {"src": src, "exp": [plain(x) for x in exp], "nt": t.n >= 10}


def check_trees(ctx, case):
    for m, label in (("-B", "bytecode VM"), ("-X", "JIT")):
        r = ctx.src(case["src"], m)
        got = [plain(x) for x in r.out.decode("utf-8", "backslashreplace").split("~~")]
        if r.rc != 0 or got[-1:] != [""] or len(got) != len(case["exp"]) + 1:
            return "%s: exit status %d, %d trees, %r, %r" % (label, r.rc, len(got) - 1, r.out[:200], r.err[-200:])
        for i, (a, b) in enumerate(zip(case["exp"], got)):
            if a != b:
                k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                return "%s: tree of function %d: expected ...%r, got ...%r" % (label, i, a[max(0, k - 40):k + 80], b[max(0, k - 40):k + 80])
    return None


VALUES = [("7", "7"), ("-1", "-1"), ("'ab'", "ab"), ("'é'", "é"), ("2.5", "2.5"), ("true", "true"), ("(1, 'x')", "(1, x)"), ("nil", "nil"), ("0", "0"), ("1000000000000", "1000000000000")]


def calls(c):
    src, out, n = [], [], 0
    glob = []
    for i in range(c.small(0, 3)):
        v = c.pick(VALUES)
        glob.append(("g%d" % i, v))
        src.append("g%d = %s" % (i, v[0]))
    fns, codes = {}, {}

    def define(name):
        np = c.small(0, 6)
        nd = c.small(0, np) if c.bool() else 0
        ps = ["p%d" % i for i in range(np)]
        # signatures take numbers and texts
        dv = [None] * (np - nd) + [c.pick([v for v in VALUES if v[0] in ("7", "'ab'", "2.5", "true", "nil", "0")]) for _ in range(nd)]
        parts = []
        for _ in range(1 + c.small(0, 3)):
            w = c.raw(4)
            if w == 0 and glob:
                parts.append(("up", c.pick(glob)[0]))
            elif w == 1 and ps:
                parts.append(("inner", c.pick(ps)))
            elif w == 2 and ps:
                parts.append(("local", c.pick(ps)))
            else:
                parts.append(("par", c.pick(ps)) if ps else ("const", c.pick(VALUES)))
        body, items = [], []
        for j, (k, x) in enumerate(parts):
            if k == "local":
                body.append("z%d = (%s, %d)" % (j, x, j))
                items.append("z%d" % j)
            elif k == "inner":
                body.append("h%d = (q): (%s, q)." % (j, x))
                items.append("h%d(%d)" % (j, j))
            elif k == "const":
                items.append(x[0])
            else:
                items.append(x)
        body.append("(%s)" % ", ".join(items + ["0"]))
        sig = ", ".join(p if d is None else "%s:=%s" % (p, d[0]) for p, d in zip(ps, dv))
        src.append("%s = (%s): %s." % (name, sig, c.pick([", ", "\n  "]).join(body)))
        fns[name] = (ps, dv, parts)

    def value(fn, args, alone):
        """what the call gives; the code alone sees nil where variables were captured"""
        ps, dv, parts = fn
        bound = {p: (args[i] if args is not None and i < len(args) else "nil" if args is None or dv[i] is None else dv[i][1]) for i, p in enumerate(ps)}
        r = []
        for j, (k, x) in enumerate(parts):
            if k == "up":
                r.append("nil" if alone else dict(glob)[x][1])
            elif k == "local":
                r.append("(%s, %d)" % (bound[x], j))
            elif k == "inner":
                r.append("(%s, %d)" % (bound[x], j))
            elif k == "const":
                r.append(x[1])
            else:
                r.append(bound[x])
        return "(%s)" % ", ".join(r + ["0"])

    define("f0")
    nt = 0
    for _ in range(2 + c.small(0, 8)):
        k = c.weighted([(2, "def"), (3, "code"), (2, "clone"), (6, "call"), (3, "fcall"), (1, "same"), (1, "junk")])
        if k == "def":
            define("f%d" % c.n(0, 2))
        elif k == "code":
            f, v = c.pick(sorted(fns)), "c%d" % c.n(0, 3)
            src.append("%s = %s code" % (v, f))
            codes[v] = fns[f]
        elif k == "clone" and codes:
            w, v = c.pick(sorted(codes)), "c%d" % c.n(0, 3)
            src.append("%s = %s clone" % (v, w))
            codes[v] = codes[w]
            n += 1
        elif k == "call":
            if codes and c.bool(2, 3):
                e = c.pick(sorted(codes))
                fn = codes[e]
            else:
                e = c.pick(sorted(fns))
                fn = fns[e]
                e += " code" if c.bool() else " code clone"
            if c.bool(1, 8):
                args = None
                src.append("r = %s call" % e)
            else:
                m = len(fn[0]) if c.bool() else c.small(0, len(fn[0]) + 3)
                a = [c.pick(VALUES) for _ in range(m)]
                args = [x[1] for x in a]
                src.append("a = (%s)\nr = %s call(a)" % (", ".join(x[0] for x in a), e))
                if c.bool(1, 3):
                    src.append("a length say")
                    out.append(str(m))
            src.append("r say")
            out.append(value(fn, args, True))
            nt += 1
        elif k == "fcall":
            f = c.pick(sorted(fns))
            ps, dv, _ = fns[f]
            m = len(ps)
            a = [c.pick(VALUES) for _ in range(m)]
            if m:
                # nil arguments are given through a variable as well
                src.append("r = %s(%s)\nr say" % (f, ", ".join(x[0] for x in a)))
                out.append(value(fns[f], [x[1] for x in a], False))
                nt += 1
        elif k == "same" and codes:
            v = c.pick(sorted(codes))
            src.append("(%s string == %s clone string, %s tree string == %s clone tree string, %s kind == %s clone kind) say" % ((v,) * 6))
            out.append("(true, true, true)")
        elif k == "junk":
            src.append(c.pick(["x = list(30000)", "300 times (i): ('j', i) string.", "x = list(70000)"]))
    return {"src": "\n".join(src) + "\n", "exp": "\n".join(out) + ("\n" if out else ""), "nt": nt >= 3}


BOTH = {"move", "add", "sub", "mult", "div", "mod", "pow", "cmp", "eq", "neq", "lt", "lte", "gt", "gte", "bitl", "bitr", "bind", "call", "def", "gettable", "settable", "named"}
LAST = re.compile(r"^\[ *([0-9]+)\] (\S+) +(-?[0-9]+)(?: (-?[0-9]+))?(?: *; to (-?[0-9]+))?")


def listing(lines, i):
    """reads the listing of one function; gives the next line's index and what is wrong"""
    m = re.match(r"^; function definition: ([0-9]+) bytes$", lines[i])
    if not m:
        return i, "line %d: no start of a function: %r" % (i, lines[i])
    size = int(m[1])
    m = re.match(r"^; .*\) ([0-9]+) registers$", lines[i + 1])
    if not m:
        return i, "line %d: no head of a function: %r" % (i + 1, lines[i + 1])
    regs = int(m[1])
    i += 2
    have = {"path": 0, "local": 0, "upval": 0, "value": 0}
    protos, ops = 0, []
    while i < len(lines) and lines[i] != "; function end":
        x = lines[i]
        if x.startswith("; function definition"):
            i, bad = listing(lines, i)
            if bad:
                return i, bad
            protos += 1
            continue
        m = re.match(r"^\.(path|local|upval|value) .*; ([0-9]+)$", x)
        if m:
            if int(m[2]) != have[m[1]]:
                return i, "line %d: %s out of order" % (i, m[1])
            have[m[1]] += 1
            i += 1
            continue
        m = LAST.match(x)
        if not m:
            return i, "line %d: not understood: %r" % (i, x)
        ops.append((int(m[1]), m[2], int(m[3]), None if m[4] is None else int(m[4]), None if m[5] is None else int(m[5]), x))
        i += 1
    if i >= len(lines):
        return i, "the function does not end"
    if [o[0] for o in ops] != list(range(1, len(ops) + 1)) or size % len(ops) or size // len(ops) != 8 or not ops:
        return i, "%d bytes, %d operations" % (size, len(ops))
    for n, op, a, b, to, x in ops:
        if op == "jump" or to is not None:
            if to is None or not 1 <= to <= len(ops) + 1:
                return i, "jump out of the function: %r" % x
            if to != n + 1 + (a if op == "jump" else b):
                return i, "jump listed wrong: %r" % x
        if op != "jump" and not 0 <= a < regs:
            return i, "register %d of %d: %r" % (a, regs, x)
        if op in BOTH and not 0 <= b < regs:
            return i, "register %d of %d: %r" % (b, regs, x)
        for names, what, lim in ((("getlocal", "setlocal"), "local", have["local"]), (("getupval", "setupval"), "upval", have["upval"]), (("loadk", "getpath", "setpath"), "value", have["value"]),
                                 (("proto",), "function", protos)):
            if op in names and op not in ("getpath", "setpath") and not 0 <= b < lim:
                return i, "%s %d of %d: %r" % (what, b, lim, x)
    if ops[-1][1] not in ("return", "debug"):
        return i, "does not end with a return: %r" % ops[-1][5]
    return i + 1, None


def listed(c):
    prog = progs.program(c, **c.pick(c04.PROFILES + c05.PROFILES))
    body = progs.source(c, prog, False)
    return {"src": "fn = ():\n%s\n  0.\n" % body, "nt": len(body) > 400}


def check_listed(ctx, case):
    ask = "'%%' say\nfn code string say\n'%%' say\nfn code clone string say\n'%%' say\n"
    d = ctx.fresh()
    with open(d + "/M.pn", "w") as o:
        o.write(case["src"] + "fn\n")
    with open(d + "/a.pn", "w") as o:
        o.write(case["src"] + ask)
    with open(d + "/b.pn", "w") as o:
        o.write("fn = load('M')\n" + ask)
    r = ctx.run([ctx.potion, "-B", "a.pn"], cwd=d)
    parts = r.out.decode("utf-8", "backslashreplace").split("%%\n")
    if r.rc or len(parts) != 4:
        return "exit status %d, %r, %r" % (r.rc, r.out[-200:], r.err[-200:])
    lines = [x for x in parts[1].split("\n")]
    while lines and not lines[-1]:
        lines.pop()
    n, bad = listing(lines, 0)
    if bad or n != len(lines):
        return bad or "more after the end of the listing: %r" % lines[n:n + 2]
    if parts[2] != parts[1]:
        return "the copy is listed in another way: " + first(parts[1], parts[2])
    r = ctx.run([ctx.potion, "-c", "M.pn"], cwd=d)
    os.unlink(d + "/M.pn")
    for m, label in (("-B", "bytecode VM"), ("-X", "JIT")):
        r = ctx.run([ctx.potion, m, "b.pn"], cwd=d)
        p2 = r.out.decode("utf-8", "backslashreplace").split("%%\n")
        if r.rc or len(p2) != 4:
            return "%s: loaded: exit status %d, %r, %r" % (label, r.rc, r.out[-200:], r.err[-200:])
        if p2[1] != parts[1] or p2[2] != parts[1]:
            return "%s: the code of the compiled file is listed in another way: %s" % (label, first(parts[1], p2[1]) or first(parts[1], p2[2]))
    return None


def first(a, b):
    for x, y in zip(a.split("\n"), b.split("\n")):
        if x != y:
            return "%r, %r" % (x[:120], y[:120])
    return ""


PARTS = [Part("trees", trees, check_trees, 4000, 60000, lambda case: case["nt"], lambda case: {"source": case["src"], "expected": case["exp"]}),
         Part("calls", calls, common.run_program, 4000, 60000, lambda case: case["nt"], common.show),
         Part("listings", listed, check_listed, 1500, 20000, lambda case: case["nt"], lambda case: {"source": case["src"]})]
