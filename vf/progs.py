"""Random programs of vf/lang.py that terminate and stay in the modelled subset, built around typed variables.

Types: I integer, A scalar, T tuple of integers, C loop counter (an I that is not assigned), ["F", n, result type]
"""
from . import lang, numsem

STRS = ["", "a", "abc", "it's", "x y", "é", "日本", "0", "nil", "a\tb", "tab. (q): #"]


class Gen:
    def __init__(self, c, **w):
        self.c = c
        self.n = 0
        self.w = dict(fn=2, upval=3, loop=3, cond=4, tuple=2, iter=2, ret=2, rec=1, hof=1, inc=2, anyv=2, trace=0, asgx=1,
                      float=0, named=0, default=0, depth=3, stmts=6, big=1, shadow=1)
        self.w.update(w)
        self.scopes = [dict()]
        self.loop = 0           # loops around, in this function
        self.infn = 0
        self.counter = 0
        self.budget = 40
        self.nodes = 450        # functions of more than 2047 operations are not compiled right (known finding)

    # ---- names
    def fresh(self, pre="v"):
        self.n += 1
        k = self.c.raw(12)
        if k == 11:
            return "%s%d_%s" % (pre, self.n, "long_name_here")
        if k == 10:
            return self.c.pick(["ĸ%d", "日本%d", "Дом%d", "_%d", "X_x%d"[2:]]) % self.n
        return "%s%d" % (pre, self.n)

    def vars(self, pred):
        out = []
        seen = set()
        for s in reversed(self.scopes):
            for x, t in s.items():
                if x not in seen:
                    seen.add(x)
                    if pred(t):
                        out.append(x)
        return out

    def typeof(self, x):
        for s in reversed(self.scopes):
            if x in s:
                return s[x]

    # ---- expressions
    def intlit(self):
        c = self.c
        k = c.raw(12)
        if k < 8:
            return ["lit", c.n(0, 9)]
        if k < 10:
            return ["lit", -c.n(1, 9)]
        if k == 10 or not self.w["big"]:
            return ["lit", c.n(10, 3000)]
        return ["lit", (1 << c.n(3, 40)) + c.n(-2, 2)]

    def depth(self, d):
        self.nodes -= 1
        return d if self.nodes > 150 else min(d, 1) if self.nodes > 0 else 0

    def I(self, d):
        c, w = self.c, self.w
        d = self.depth(d)
        iv = self.vars(lambda t: t in ("I", "C"))
        opts = [(3, "lit")]
        if iv:
            opts.append((8, "var"))
        if d > 0:
            opts += [(6, "bin"), (1, "neg")]
            if w["cond"]:
                opts += [(w["cond"], "if"), (1, "andor")]
            if self.vars(lambda t: t == "T") and w["tuple"]:
                opts.append((w["tuple"], "at"))
            if self.fns("I") and w["fn"]:
                opts.append((w["fn"] * 2, "call"))
            if w["trace"]:
                opts.append((w["trace"], "trace"))
            if self.vars(lambda t: t == "I"):
                if w["inc"]:
                    opts.append((w["inc"], "inc"))
                if w["asgx"]:
                    opts.append((w["asgx"], "asgx"))
        k = c.weighted(opts)
        if k == "lit":
            return self.intlit()
        if k == "var":
            return ["var", c.pick(iv)]
        if k == "bin":
            op = c.weighted([(4, "+"), (4, "-"), (2, "*"), (1, "/"), (2, "%")])
            if op == "*":
                return ["bin", "*", self.I(d - 1), ["lit", c.n(2, 9)]] if c.bool() else ["bin", "*", ["lit", c.n(2, 9)], self.I(d - 1)]
            if op in "/%":
                return ["bin", op, self.I(d - 1), ["lit", c.pick([7, 2, 3, 10, -3, 97])]]
            return ["bin", op, self.I(d - 1), self.I(d - 1)]
        if k == "neg":
            return ["neg", self.I(d - 1)]
        if k == "if":
            n = c.weighted([(5, 1), (2, 2), (1, 3)])
            c.tag("if-expression")
            return ["if", [[self.B(d - 1), self.body_expr(d - 1)] for _ in range(n)], self.body_expr(d - 1)]
        if k == "andor":
            r = c.raw(3)
            if r == 0:
                return ["or", self.A(d - 1, falsy=True), self.I(d - 1)]
            return ["and" if r == 1 else "or", self.I(d - 1), self.I(d - 1)]
        if k == "at":
            t = c.pick(self.vars(lambda t: t == "T"))
            return ["or", ["at", t, self.idx(d - 1)], self.intlit()]
        if k == "call":
            return self.call(c.pick(self.fns("I")), d - 1)
        if k == "trace":
            self.counter += 1
            return ["call", "tr", [["lit", self.counter], self.I(d - 1)]]
        x = c.pick(self.vars(lambda t: t == "I"))
        if k == "inc":
            return ["bin", "+", ["inc", x, c.pick([1, -1]), c.bool()], ["lit", 0]] if c.bool() else ["inc", x, c.pick([1, -1]), c.bool()]
        return ["bin", "+", ["asg", x, self.I(d - 1)], self.I(d - 1)]

    def body_expr(self, d):
        """a branch which ends in an I"""
        if self.c.bool(1, 4) and self.budget > 0:
            s = [self.stmt(0)]
            return [x for x in s if x[0] not in ("break", "continue", "ret")] + [self.I(d)]
        return [self.I(d)]

    def idx(self, d):
        c = self.c
        if c.bool(2, 3):
            return ["lit", c.n(0, 4)]
        return self.I(d)

    def B(self, d):
        c, w = self.c, self.w
        d = self.depth(d)
        k = c.weighted([(8, "cmp"), (2, "eq"), (1, "lit")] + ([(2, "not"), (3, "andor"), (w["anyv"], "any")] if d > 0 else []) +
                       ([(w["trace"] * 2, "trace")] if d > 0 and w["trace"] else []))
        if k == "cmp":
            return ["bin", c.pick(["<", ">", "<=", ">="]), self.I(d - 1), self.I(d - 1)]
        if k == "eq":
            if c.bool(1, 3):
                return ["bin", c.pick(["==", "!="]), self.A(d - 1), self.A(d - 1)]
            return ["bin", c.pick(["==", "!="]), ["bin", "%", self.I(d - 1), ["lit", 3]], ["lit", c.n(0, 2)]]
        if k == "lit":
            return ["lit", c.pick([True, False, None])]
        if k == "not":
            return ["not", self.B(d - 1)]
        if k == "andor":
            return [c.pick(["and", "or"]), self.B(d - 1), self.B(d - 1)]
        if k == "trace":
            self.counter += 1
            return ["call", "tr", [["lit", self.counter], self.B(d - 1)]]
        return self.A(d - 1)

    def A(self, d, falsy=False):
        c = self.c
        d = self.depth(d)
        av = self.vars(lambda t: t == "A")
        k = c.weighted([(4, "lit"), (4 if av else 0, "var"), (2 if d > 0 else 0, "I"), (2 if d > 0 else 0, "B")])
        if k == "lit":
            if falsy:
                return ["lit", c.pick([None, False, 0])]
            return ["lit", c.pick([None, False, True, 0, 1] + STRS)]
        if k == "var":
            return ["var", c.pick(av)]
        if k == "I":
            return self.I(d - 1)
        return self.B(d - 1)

    def fns(self, res):
        return self.vars(lambda t: isinstance(t, tuple) and t[0] == "F" and t[2] == res)

    def call(self, f, d):
        t = self.typeof(f)
        self.c.tag("call")
        return ["call", f, [self.I(min(d, 1)) for _ in range(t[1])]]

    # ---- statements
    def block(self, d, n=None):
        """a nested block of the same function: its variables are not used after it"""
        self.scopes.append({})
        k = self.c.n(1, n or 3)
        out = [self.stmt(d) for _ in range(k)]
        self.scopes.pop()
        return out

    def say(self):
        c = self.c
        iv = self.vars(lambda t: t in ("I", "A", "C", "T"))
        es = [self.I(1)] if not iv else [["var", c.pick(iv)] for _ in range(c.n(1, 2))]
        if c.bool(1, 3):
            es.append(self.I(2) if c.bool() else self.A(1))
        return ["say", es]

    def fnlit(self, nargs, res, d, selfname=None):
        """a function whose parameters are integers"""
        c = self.c
        saved_loop, self.loop = self.loop, 0
        self.infn += 1
        ps = []
        for _ in range(nargs):
            outer = self.vars(lambda t: t == "I")
            if self.w["shadow"] and outer and c.bool(self.w["shadow"], 6):
                p = c.pick(outer)
                if p in ps:
                    p = self.fresh("p")
                else:
                    c.tag("shadowing parameter")
            else:
                p = self.fresh("p")
            ps.append(p)
        self.scopes.append({p: "I" for p in ps})
        body = [self.stmt(d) for _ in range(c.n(0, 3))] if self.budget > 0 else []
        if res == "I":
            body.append(self.I(2))
        else:
            body.append(self.fnlit(res[1], res[2], d - 1))
        self.scopes.pop()
        self.infn -= 1
        self.loop = saved_loop
        return ["fn", ps, body]

    def stmt(self, d):
        c, w = self.c, self.w
        self.budget -= 1
        iv = self.vars(lambda t: t == "I")
        opts = [(3, "say"), (4, "new")]
        if iv:
            opts += [(5, "asg"), (2, "op="), (w["inc"], "inc")]
        opts.append((w["anyv"], "newA"))
        if self.vars(lambda t: t == "A"):
            opts.append((w["anyv"], "asgA"))
        if w["tuple"]:
            opts.append((w["tuple"], "newT"))
            if self.vars(lambda t: t == "T"):
                opts += [(w["tuple"], "put")]
        if self.fns("I"):
            opts.append((w["fn"], "callst"))
        if self.loop and w["loop"]:
            opts.append((2, "brk"))
        if self.infn and w["ret"]:
            opts.append((w["ret"], "ret"))
        if d > 0 and self.budget > 0 and self.nodes > 100:
            opts += [(w["cond"], "if"), (w["loop"], "while"), (w["loop"] // 2, "loop"), (w["iter"], "times"), (w["iter"], "to"),
                     (w["iter"] // 2, "step"), (w["fn"], "fn"), (w["rec"], "rec"), (w["hof"], "hof")]
            if self.vars(lambda t: t == "T"):
                opts.append((w["iter"], "each"))
        k = c.weighted([o for o in opts if o[0] > 0])
        c.tag("stmt " + k)
        if k == "say":
            return self.say()
        if k == "new":
            e = self.I(2)
            x = self.fresh()
            self.scopes[-1][x] = "I"
            return ["op=", x, "?=", e] if c.bool(1, 8) else ["asg", x, e]
        if k == "asg":
            e = self.I(3)
            return ["asg", c.pick(iv), ["bin", "%", e, ["lit", 9973]] if c.bool(2, 3) else e]
        if k == "op=":
            x = c.pick(iv)
            op = c.weighted([(3, "+"), (3, "-"), (1, "*"), (1, "%"), (1, "and"), (1, "or"), (1, "?=")])
            if op in "*%":
                return ["op=", x, op, ["lit", c.n(2, 9)]]
            return ["op=", x, op, self.I(2)]
        if k == "inc":
            return ["inc", c.pick(iv), c.pick([1, -1]), c.bool()]
        if k == "newA":
            e = self.A(2)
            x = self.fresh("q")
            self.scopes[-1][x] = "A"
            return ["asg", x, e]
        if k == "asgA":
            x = c.pick(self.vars(lambda t: t == "A"))
            return ["op=", x, "?=", self.A(2)] if c.bool(1, 3) else ["asg", x, self.A(2)]
        if k == "newT":
            es = [self.I(1) for _ in range(c.n(1, 5))]
            x = self.fresh("t")
            self.scopes[-1][x] = "T"
            return ["asg", x, ["tup", es]]
        if k == "put":
            x = c.pick(self.vars(lambda t: t == "T"))
            i = c.n(0, 3)
            # only where there is such an element
            return ["if", [[["bin", "<", ["lit", i], ["len", x]], [["put", x, ["lit", i], self.I(2)]]]], None]
        if k == "callst":
            return self.call(c.pick(self.fns("I")), 2)
        if k == "brk":
            return ["if", [[self.B(1), [c.pick([["break"], ["continue"]])]]], None]
        if k == "ret":
            return ["if", [[self.B(1), [["ret", self.I(1)]]]], None]
        if k == "if":
            n = c.weighted([(4, 1), (2, 2), (1, 3)])
            arms = [[self.B(2), self.block(d - 1)] for _ in range(n)]
            return ["if", arms, self.block(d - 1) if c.bool(2, 3) else None]
        if k in ("while", "loop"):
            i = self.fresh("i")
            self.scopes[-1][i] = "C"
            self.loop += 1
            body = self.block(d - 1)
            self.loop -= 1
            lim = c.n(1, 5)
            pre = ["asg", i, ["lit", 0]]
            inc = ["inc", i, 1, c.bool()] if c.bool() else ["asg", i, ["bin", "+", ["var", i], ["lit", 1]]]
            if k == "while":
                cond = ["bin", "<", ["var", i], ["lit", lim]]
                if c.bool(1, 4):
                    cond = ["and", cond, self.B(1)]
                return ["seq", [pre, ["while", cond, [inc] + body]]]
            return ["seq", [pre, ["loop", [inc, ["if", [[["bin", ">", ["var", i], ["lit", lim]], [["break"]]]], None]] + body]]]
        if k in ("times", "to", "step", "each"):
            self.scopes.append({})
            saved, self.loop = self.loop, 0
            self.infn += 1
            x = self.fresh("k") if k != "times" or c.bool(3, 4) else None
            if x:
                self.scopes[-1][x] = "C"
            tv = c.pick(self.vars(lambda t: t == "T")) if k == "each" else None
            body = [self.stmt(d - 1) for _ in range(c.n(1, 3))]
            if k == "each" and tv:
                # the tuple is not changed under the iteration: elements may be, its length not
                pass
            body.append(["lit", None] if c.bool(1, 3) else self.I(1))
            self.infn -= 1
            self.loop = saved
            self.scopes.pop()
            if k == "times":
                return ["times", ["lit", c.n(0, 5)], x, body]
            if k == "to":
                return ["to", ["lit", c.n(0, 5)], ["lit", c.n(0, 5)], x, body]
            if k == "step":
                return ["step", ["lit", c.n(0, 4)], ["lit", c.n(0, 9)], ["lit", c.n(1, 4)], x, body]
            return ["each", tv, x, body]
        if k == "fn":
            na = c.n(0, 3)
            f = self.fnlit(na, "I", d - 1)
            x = self.fresh("f")
            self.scopes[-1][x] = ("F", na, "I")
            return ["asg", x, f]
        if k == "hof":
            na, nb = c.n(0, 2), c.n(0, 2)
            f = self.fnlit(na, ("F", nb, "I"), d - 1)
            x = self.fresh("mk")
            self.scopes[-1][x] = ("F", na, ("F", nb, "I"))
            out = [["asg", x, f]]
            c.tag("closure factory")
            for _ in range(c.n(1, 3)):
                g = self.fresh("g")
                out.append(["asg", g, ["call", x, [self.I(1) for _ in range(na)]]])
                self.scopes[-1][g] = ("F", nb, "I")
            return ["seq", out]
        if k == "rec":
            f, p = self.fresh("r"), self.fresh("p")
            self.scopes.append({p: "C"})
            saved, self.loop = self.loop, 0
            base = self.I(1)
            step = self.I(1)
            self.loop = saved
            self.scopes.pop()
            self.scopes[-1][f] = ("F!", 1, "I")
            lit = ["lit", c.n(0, 9)]
            body = ["if", [[["bin", "<", ["var", p], ["lit", 1]], [base]]],
                    [["bin", c.pick(["+", "-"]), step, ["call", f, [["bin", "-", ["var", p], ["lit", c.n(1, 2)]]]]]]]
            y = self.fresh()
            out = ["seq", [["asg", f, ["fn", [p], [body]]], ["asg", y, ["call", f, [lit]]]]]
            self.scopes[-1][y] = "I"
            return out
        raise ValueError(k)


def flatten(stmts):
    out = []
    for s in stmts:
        if s and s[0] == "seq":
            out += flatten(s[1])
        else:
            out.append(flat(s))
    return out


def flat(e):
    if not isinstance(e, list) or not e:
        return e
    k = e[0]
    if k == "lit":
        return e
    if k == "if":
        return ["if", [[flat(cnd), flatten(b)] for cnd, b in e[1]], flatten(e[2]) if e[2] is not None else None]
    if k == "fn":
        return ["fn", e[1], flatten(e[2])]
    if k in ("while",):
        return [k, flat(e[1]), flatten(e[2])]
    if k == "loop":
        return [k, flatten(e[1])]
    if k in ("times", "to", "step", "each"):
        return [flat(x) if isinstance(x, list) and i < len(e) - 1 else x for i, x in enumerate(e[:-1])] + [flatten(e[-1])]
    return [flat(x) if isinstance(x, list) else x for x in e]


TRACE = ["asg", "tr", ["fn", ["n", "v"], [["say", [["var", "n"], ["var", "v"]]], ["var", "v"]]]]


def program(c, **w):
    """-> AST of a program which prints its variables at the end"""
    g = Gen(c, **w)
    prog = []
    if g.w["trace"]:
        prog.append(TRACE)
    for _ in range(c.n(2, g.w["stmts"])):
        prog.append(g.stmt(g.w["depth"]))
    iv = g.vars(lambda t: t in ("I", "A", "C", "T"))
    if iv:
        prog.append(["say", [["var", x] for x in iv[:12]]])
    return flatten(prog)


def source(c, prog, styled=True):
    p = lang.Printer((lambda n: c.raw(n)) if styled else None, parens=1 if styled else 0)
    return p.program(prog)
