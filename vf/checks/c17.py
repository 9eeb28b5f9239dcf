"""Licks: trees written in the data language and read back with name, text, licks and attr."""
from ..engine import Part
from .. import strs
from . import common

ID = "C17"
RULE = ("data language trees of generated shape (names, quoted and unquoted text, numbers, children, positional and named attributes, with expressions, parameters and other trees in them, "
        "built once, in loops and by functions) are printed, walked by a program and read member by member, attributes are changed, and all output is compared with a model of the trees; "
        "non-trivial: at least 10 licks or nesting of 3")
ASSUMPTIONS = ["items have a name, as the grammar also admits bare values, of which only a syntax tree is kept"]

HEAD = """walk = (n):
  '<' print
  n name print
  if (n text): ' ' print, n text print.
  if (n attr): ' @' print, n attr length print.
  if (n licks):
    '[' print
    l = n licks
    i = 0
    while (i < l length):
      walk(l(i))
      i++.
    ']' print.
  '>' print.
"""


class Lick:
    def __init__(self, name, inner=None, attr=None):
        self.name, self.inner, self.attr = name, inner, attr


class Attr:
    """positional values or named values, by reference"""
    def __init__(self, xs, named):
        self.xs, self.named = xs, named       # list, or list of [key, value]


class Tree:
    def __init__(self, items):
        self.items = items


class Param:
    def __init__(self, name, add=0):
        self.name, self.add = name, add


def show(v):
    if v is None:
        return "nil"
    if isinstance(v, Tree) and not v.items:
        return "()"
    if isinstance(v, Tree):
        return "[%s]" % ", ".join(show(x) for x in v.items)
    if isinstance(v, Attr):
        if v.named:
            if len(v.xs) > 1:
                raise ValueError
            return "(%s)" % ", ".join("%s=%s" % (k, show(x)) for k, x in v.xs)
        return "(%s)" % ", ".join(show(x) for x in v.xs)
    if isinstance(v, Lick):
        s = v.name
        if v.inner is not None:
            s += " " + show(v.inner)
        if v.attr is not None:
            s += " " + show(v.attr)
        return s
    return str(v)


def walk(v):
    s = "<" + v.name
    if isinstance(v.inner, str):
        s += " " + v.inner
    if v.attr is not None:
        s += " @%d" % len(v.attr.xs)
    if isinstance(v.inner, Tree):
        s += "[" + "".join(walk(x) for x in v.inner.items) + "]"
    return s + ">"


def count(v):
    if isinstance(v, Tree):
        if not hasattr(v, "size"):
            v.size = sum(count(x) for x in v.items)
        return v.size
    if isinstance(v, Lick):
        return 1 + count(v.inner) + (sum(count(x[1] if v.attr.named else x) for x in v.attr.xs) if v.attr else 0)
    return 0


def depth(v):
    if isinstance(v, Tree):
        return 1 + max([depth(x.inner) for x in v.items] + [0])
    return 0


def inst(v, env):
    """a fresh tree, with the parameters replaced"""
    if isinstance(v, Param):
        x = env[v.name]
        return x + v.add if v.add else x
    if isinstance(v, Tree):
        return v if getattr(v, "shared", 0) else Tree([inst(x, env) for x in v.items])
    if isinstance(v, Lick):
        return Lick(v.name, inst(v.inner, env), inst(v.attr, env))
    if isinstance(v, Attr):
        return Attr([[k, inst(x, env)] for k, x in v.xs] if v.named else [inst(x, env) for x in v.xs], v.named)
    return v


class Gen:
    def __init__(self, c):
        self.c = c
        self.lines = []
        self.exp = []
        self.trees = []          # (name, Tree)
        self.total = 0
        self.deep = 0

    def name(self):
        c = self.c
        k = c.raw(12)
        if k < 8:
            return c.pick(["a", "b", "html", "p", "window", "strong", "x1", "item", "Big", "_u"])
        if k == 8:
            return c.pick(["q?", "nil", "true", "if", "not", "and"])
        if k == 9:
            return c.pick(["Ĩx", "乔纳森", "d😀"])
        return "".join(chr(c.n(97, 122)) for _ in range(c.small(1, 30)))

    def scalar(self, params):
        """(source, model)"""
        c = self.c
        k = c.raw(8)
        if params and k < 4:
            p, kind = c.pick(params)
            if kind == "int" and c.bool():
                n = c.n(1, 9)
                return "%s + %d" % (p, n), Param(p, n)
            return p, Param(p)
        if k < 6:
            s = strs.text(c, 12)
            return strs.literal(c, s), s
        n = c.n(-99, 99)
        return str(n), n

    def attr(self, params, d):
        c = self.c
        n = c.weighted([(1, 0), (4, 1), (2, 2), (1, 3), (1, 6)])
        if n and c.bool(2, 3):
            ks = ["k", "width", "margin", "x", "y", "id", "zz", "href", "w1", "Cap", "q", "r"]
            ks = c.shuffle(ks)[:n]
            xs = [(k, self.value(params, d)) for k in ks]
            return "(%s)" % ", ".join("%s=%s" % (k, s) for k, (s, _) in xs), Attr([[k, m] for k, (_, m) in xs], True)
        xs = [self.value(params, d) for _ in range(n)]
        return "(%s)" % ", ".join(s for s, _ in xs), Attr([m for _, m in xs], False)

    def value(self, params, d):
        c = self.c
        k = c.raw(10)
        if k == 0 and d < 1:
            c.tag("tree as attribute")
            return self.tree(params, d + 1, 2)
        if k == 1 and self.trees:
            n, t = c.pick(self.trees)
            return n, t
        return self.scalar(params)

    def item(self, params, d):
        c = self.c
        nm = self.name()
        inner = attr = None
        si = sa = ""
        k = c.raw(12)
        if k < 3:
            s = strs.text(c, 20)
            si, inner = strs.literal(c, s), s
        elif k == 3:
            n = c.n(-99, 99)
            si, inner = str(n), n
        elif k == 4:
            s, m = self.scalar(params)
            c.tag("group as inner")
            si, inner = "|%s." % s if not s[-1].isdigit() else "|%s ." % s, m
        elif k == 5 and self.trees:
            n, t = c.pick(self.trees)
            c.tag("other tree as inner")
            si, inner = "|%s." % n, t
        elif k < 9 and d < 2:
            si, inner = self.tree(params, d + 1, 5)
        unq = False
        if not si and c.bool(1, 4):
            w = " ".join(c.pick(["foo", "bar", "some", "words"]) for _ in range(c.n(1, 3)))
            si, inner, unq = w, w, True
            c.tag("unquoted")
        if c.bool(1, 3):
            sa, attr = self.attr(params, d)
        gap = lambda: c.pick([" ", "  ", "\t", " "])
        if sa and si and not unq and c.bool():
            s = nm + gap() + si + gap() + sa
        else:
            s = nm + (gap() + sa if sa else "") + (gap() + si if si else "")
        return s, Lick(nm, inner, attr)

    def tree(self, params, d, most):
        c = self.c
        if d and c.bool(1, 12):
            return c.pick(["[]", "[ ]"]), Tree([])
        xs = [self.item(params, d) for _ in range(c.n(1, most))]
        sep = c.pick([", ", ", ", "\n  ", ",\n", " # é\n"]) if d < 2 else ", "
        if "#" in sep and any(isinstance(m.inner, str) and s.endswith(m.inner) for s, m in xs):
            sep = ", "           # unquoted text goes on to the end of the line
        src = xs[0][0]
        for s, _ in xs[1:]:
            src += sep + s
        return "[" + c.pick(["", "", " ", "\n"] if d < 2 else ["", " "]) + src + c.pick(["", "", ","]) + "]", Tree([m for _, m in xs])

    def keep(self, name, t):
        t.shared = 1
        n = count(t)
        self.total += n
        if n < 300:
            self.trees.append((name, t))
        self.deep = max(self.deep, depth(t))

    def out(self, src, s):
        self.lines.append(src)
        self.exp.append(s + "\n")

    def step(self):
        c = self.c
        k = c.weighted([(4, "tree"), (2, "fun"), (2, "show"), (3, "walk"), (6, "read"), (2, "set"), (1, "many")])
        n = len(self.lines)
        if k == "tree" or not self.trees and k != "many":
            s, t = self.tree([], 0, c.pick([1, 1, 2, 4, 12]))
            self.lines.append("t%d = %s" % (n, s))
            self.keep("t%d" % n, t)
        elif k == "fun":
            ps = [("a", "int"), ("b", "str")]
            s, t = self.tree(ps, 0, 3)
            self.lines.append("f%d = (a, b): %s." % (n, s) if not s.endswith("\n") else s)
            for j in range(c.n(1, 3)):
                v, w = c.n(-50, 50), strs.text(c, 8)
                self.lines.append("u%d_%d = f%d(%d, %s)" % (n, j, n, v, strs.literal(c, w)))
                self.keep("u%d_%d" % (n, j), inst(t, {"a": v, "b": w}))
        elif k == "many":
            m = c.pick([5, 33, 100])
            s, t = self.tree([("i", "int")], 2, 2)
            self.lines.append("m%d = ()\ni = 0\nwhile (i < %d):\n  m%d push(%s)\n  i++." % (n, m, n, s))
            j = c.n(0, m - 1)
            self.lines.append("v%d = m%d(%d)" % (n, n, j))
            self.keep("v%d" % n, inst(t, {"i": j}))
        else:
            nm, t = c.pick(self.trees)
            if not t.items:
                return
            i = c.n(0, len(t.items) - 1)
            x = t.items[i]
            if k == "show":
                try:
                    e = show(t)
                except ValueError:
                    return
                if len(e) < 4000:
                    self.out("%s string say" % nm, e)
            elif k == "walk":
                e = walk(x)
                if len(e) < 4000:
                    self.out("walk(%s(%d))\n'' say" % (nm, i), e)
            else:
                p = "%s(%d)" % (nm, i)
                while isinstance(x.inner, Tree) and x.inner.items and c.bool(2, 3):
                    j = c.n(0, len(x.inner.items) - 1)
                    self.lines.append("z%d = %s licks" % (len(self.lines), p))
                    p = "z%d(%d)" % (len(self.lines) - 1, j)
                    x = x.inner.items[j]
                self.lines.append("y = %s" % p)
                if k == "read":
                    q = c.n(0, 4)
                    if q == 0:
                        self.out("y name say", x.name)
                    elif q == 1:
                        self.out("y text say", show(x.inner) if isinstance(x.inner, str) else "nil")
                    elif q == 2:
                        l = len(x.inner.items) if isinstance(x.inner, Tree) else None
                        self.out("if (y licks): y licks length say. else: 'none' say.", "none" if l is None else str(l))
                    elif x.attr is None:
                        self.out("y attr say", "nil")
                    elif q == 3 and not x.attr.named:
                        self.out("w = y attr, w length say", str(len(x.attr.xs)))
                    elif x.attr.named:
                        key, v = c.pick(x.attr.xs) if c.bool(5, 6) else ("nokey", None)
                        try:
                            self.out("w = y attr, w(%s) say" % strs.literal(c, key), show(v))
                        except ValueError:
                            pass
                    elif x.attr.xs:
                        j = c.n(0, len(x.attr.xs) - 1)
                        try:
                            self.out("w = y attr, w(%d) say" % j, show(x.attr.xs[j]))
                        except ValueError:
                            pass
                elif x.attr is not None:
                    v = strs.text(c, 8)
                    if x.attr.named:
                        kv = c.pick(x.attr.xs)
                        self.lines.append("w = y attr, w put(%s, %s)" % (strs.literal(c, kv[0]), strs.literal(c, v)))
                        kv[1] = v
                    elif x.attr.xs:
                        j = c.n(0, len(x.attr.xs) - 1)
                        self.lines.append("w = y attr, w put(%d, %s)" % (j, strs.literal(c, v)))
                        x.attr.xs[j] = v
                    c.tag("attribute changed")


def gen(c):
    g = Gen(c)
    for _ in range(c.n(3, 16)):
        g.step()
    return {"src": HEAD + "\n".join(g.lines) + "\n", "exp": "".join(g.exp), "nt": g.total >= 10 or g.deep >= 3}


PARTS = [Part("trees", gen, common.run_program, 6000, 200000, nontrivial=lambda k: k["nt"], show=common.show)]
