"""Grouping: operators bind as documented, and layout (spacing, line ends, comments, separators) does not change meaning."""
from ..engine import Part
from .. import lang, numsem as N
from . import common

ID = "C03"
RULE = ("random expression trees over all compiled operators, assignments included, are written with the fewest parentheses the documented "
        "precedence and associativity allow and with every operation in parentheses, laid out with random spaces, comments, line ends (LF, CRLF, CR) "
        "and separators, and both spellings must print what a reference evaluation of the tree gives, by both back ends; non-trivial: the "
        "tree has two operators of different levels, or two of one level, without parentheses between them")
ASSUMPTIONS = ["binary - is followed by a space, as the grammar reads x -3 as a call", "pipe, caret and ampersand are not compiled and not generated"]

BIN = ["+", "-", "*", "/", "%", "**", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "<=>"]


AR = ["+", "-", "*", "/", "%", "**", "<<", ">>", "<=>"]


def tree(c, d, vars_, want="I"):
    """an expression of a small integer, or of any value (want "A")"""
    if want == "A" and d > 0 and c.bool(3, 4):
        k = c.weighted([(4, "cmp"), (3, "eq"), (2, "not"), (2, "logic")])
        if k == "cmp":
            return ["bin", c.pick(["<", ">", "<=", ">="]), tree(c, d - 1, vars_), tree(c, d - 1, vars_)]
        if k == "eq":
            return ["bin", c.pick(["==", "!="]), tree(c, d - 1, vars_, "A"), tree(c, d - 1, vars_, "A")]
        if k == "not":
            return ["not", tree(c, d - 1, vars_, "A")]
        return [c.pick(["and", "or"]), tree(c, d - 1, vars_, "A"), tree(c, d - 1, vars_, "A")]
    if d <= 0 or c.bool(1, 8):
        if vars_ and c.bool():
            return ["var", c.pick(vars_)]
        return ["lit", c.n(0, 12)]
    k = c.weighted([(14, "bin"), (2, "neg"), (1, "pos"), (1, "bnot"), (3, "logic"), (1, "asg")])
    if k == "bin":
        op = c.pick(AR)
        if op in ("<<", ">>", "**"):
            return ["bin", op, tree(c, min(d - 1, 1), vars_), ["bin", "%", tree(c, min(d - 2, 1), vars_), ["lit", 4]] if d > 1 and c.bool() else ["lit", c.n(0, 3)]]
        return ["bin", op, tree(c, d - 1, vars_), tree(c, d - 1, vars_)]
    if k in ("neg", "pos", "bnot"):
        return [k, tree(c, d - 1, vars_)]
    if k == "logic":
        return [c.pick(["and", "or"]), tree(c, d - 1, vars_), tree(c, d - 1, vars_)]
    if not vars_:
        return ["lit", c.n(0, 12)]
    return ["asg", c.pick(vars_), tree(c, d - 1, vars_)]


class Layout:
    def __init__(self, c, eol):
        self.c, self.eol = c, eol

    def sp(self):
        """inside a line"""
        return self.c.weighted([(10, " "), (2, "  "), (1, "\t"), (1, " \f"), (1, " \v ")])

    def ws(self):
        """where a line may end"""
        r = self.c.raw(12)
        if r < 9:
            return self.sp()
        if r == 9:
            return self.sp() + self.eol + self.sp()
        if r == 10:
            return " # " + self.c.pick(["", "x = 1", "a . b : c ) (", "日本 é", "'"]) + self.eol
        return self.eol

    def o(self):
        r = self.c.raw(5)
        return self.ws() if r == 4 else ""

    def sep(self):
        s = self.c.weighted([(6, self.eol), (2, ", "), (1, "," + self.eol), (1, self.eol + self.eol), (1, " # c" + self.eol), (1, self.eol + "# c, d" + self.eol + "  ")])
        return s

    def expr(self, e, full):
        k = e[0]
        if k == "lit":
            return str(e[1])
        if k == "var":
            return e[1]

        def sub(x, lvl):
            s = self.expr(x, full)
            p = lang.Printer()
            if p.level(x) < lvl or (full and x[0] not in ("lit", "var")):
                return "(" + self.o() + s + self.o() + ")"
            return s
        if k == "bin":
            l = lang.LEVEL[e[1]]
            return sub(e[2], l) + self.sp() + e[1] + self.ws() + sub(e[3], l + 1)
        if k in ("and", "or"):
            w = "&&" if k == "and" and self.c.bool(1, 4) else k
            return sub(e[1], 0) + self.sp() + w + self.ws() + sub(e[2], 1)
        if k == "neg":
            return "-" + self.ws() + sub(e[1], 11)
        if k == "pos":
            return "+" + self.ws() + sub(e[1], 11)
        if k == "bnot":
            return "~" + self.ws() + sub(e[1], 10)
        if k == "not":
            return self.c.pick(["not", "!"]) + self.ws() + sub(e[1], 10)
        if k == "asg":
            s = self.expr(e[2], full)
            p = lang.Printer()
            if p.level(e[2]) < 1 or s.startswith("("):
                s = "|" + s + "."
            return e[1] + self.sp() + "=" + self.ws() + s
        raise ValueError(k)


def adjacent(e):
    p = lang.Printer()
    for x in e[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            if x[0] in ("bin", "and", "or", "neg", "pos", "bnot", "not") and e[0] in ("bin", "and", "or"):
                return True
            if adjacent(x):
                return True
    return False


def gen(c):
    vs = ["a", "b", "cc"]
    prog = [["asg", v, ["lit", c.n(0, 9)]] for v in vs]
    nt = False
    for i in range(c.n(1, 3)):
        e = tree(c, c.n(2, 5), vs, "A" if c.bool() else "I")
        nt = nt or adjacent(e)
        x = "r%d" % i
        prog.append(["asg", x, e] if e[0] not in ("and", "or") else ["asg", x, ["bin", "==", e, ["lit", 3]]])
        prog.append(["say", [["var", x]] + [["var", v] for v in vs]])
    exp, st = lang.expected(prog)
    for k in st:
        if k.startswith("discard"):
            c.tag("outside the model")
    if exp is not None:
        # results that are doubles of unclear rounding are left out
        if any(t in exp for t in ("inf", "e+", "nan")) or any("." in w and len(w) > 22 for w in exp.replace(",", " ").split()):
            exp = None
    L = Layout(c, c.weighted([(6, "\n"), (1, "\r\n"), (1, "\r")]))
    srcs = []
    for full in (False, True):
        s = L.o()
        for st_ in prog:
            if st_[0] == "say":
                s += "(" + L.o() + (", ").join(v[1] for v in st_[1]) + L.o() + ")" + L.sp() + "say"
            else:
                s += L.expr(st_, full)
            s += L.sep()
        srcs.append(s)
    return {"src": srcs[0], "full": srcs[1], "exp": exp, "nt": nt and exp is not None}


def check(ctx, case):
    if case["exp"] is None:
        return None
    for w in ("src", "full"):
        d = common.run_program(ctx, {"src": case[w], "exp": case["exp"]})
        if d:
            return "%s: %s" % ({"src": "fewest parentheses", "full": "all parentheses"}[w], d)


PARTS = [Part("trees", gen, check, 6000, 200000, nontrivial=lambda k: k["nt"],
              show=lambda k: {"source": k["src"], "in full": k["full"], "expected": k["exp"]})]
