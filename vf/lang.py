"""A subset of Potion: programs as nested lists, a printer, and a reference interpreter written from the documentation.

Expressions
  ["lit", v]                    int, double, string, true/false, nil
  ["var", x]  ["asg", x, e]  ["op=", x, op, e]  ["inc", x, +-1, pre?]
  ["bin", op, a, b]  ["and"|"or", a, b]  ["not", e]  ["neg", e]
  ["fn", [x...], [stmt...]]     (params may be ["x"], or ["x", default])
  ["call", f, [e...]]           call of the closure in the variable f;  ["named", f, [[x, e]...]]
  ["tup", [e...]]  ["at", t, e] ["put", t, e, e]
  ["if", [[cond, [stmt...]]...], [stmt...] or None]
  ["len", t]
Statements: expressions and
  ["say", [e...]]  ["while", e, [stmt...]]  ["loop", [stmt...]]  ["break"]  ["continue"]  ["exit"]  ["ret", e]
  ["times", e, x or None, [stmt...]]  ["to", e, e, x, [..]]  ["step", e, e, e, x, [..]]  ["each", t, x, [..]]
"""
from . import numsem as N

LEVEL = {"or": 0, "and": 0, "asg": 1, "op=": 1, "<=>": 2, "==": 2, "!=": 2, ">": 3, "<": 3, ">=": 3, "<=": 3,
         "<<": 6, ">>": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8, "**": 9, "not": 10, "neg": 10, "pos": 10, "bnot": 10, "atom": 11}


class Discard(Exception):
    pass


# ---------------------------------------------------------------- values

class Tup:
    def __init__(self, items):
        self.items = items


class Clo:
    def __init__(self, fn, frame):
        self.fn, self.frame = fn, frame


def show(v, out):
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, str):
        return v
    if N.is_num(v):
        s = N.fmt(v)
        if s is None:
            raise Discard("nan")
        return s
    if isinstance(v, Tup):
        return "(" + ", ".join(show(x, out) for x in v.items) + ")"
    raise Discard("printing %r" % v)


def test(v):
    return v is not None and v is not False


# ---------------------------------------------------------------- interpreter

class Break(Exception):
    pass


class Continue(Exception):
    pass


class Exit(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Scope:
    def __init__(self, parent=None):
        self.parent = parent
        self.locals = set()
        self.ups = {}

    def find(self, name):
        """how many scopes out the variable is, or None"""
        if name in self.locals:
            return 0
        if name in self.ups:
            return self.ups[name]
        d, s = 1, self.parent
        while s is not None:
            if name in s.locals:
                self.ups[name] = d
                x, k = self.parent, d - 1
                while k > 0:
                    x.ups[name] = k
                    x, k = x.parent, k - 1
                return d
            d, s = d + 1, s.parent
        return None

    def assign(self, name):
        d = self.find(name)
        if d is None:
            self.locals.add(name)
            d = 0
        return d


class Frame:
    __slots__ = ("vars", "up")

    def __init__(self, up):
        self.vars = {}
        self.up = up


def _frame(fr, d):
    while d:
        fr = fr.up
        d -= 1
    return fr


class Fn:
    pass


class Interp:
    def __init__(self, fuel=20000, out_limit=20000):
        self.fuel = fuel
        self.out = []
        self.size = 0
        self.out_limit = out_limit
        self.depth = 0
        self.stats = {}

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def burn(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Discard("fuel")

    def emit(self, s):
        self.out.append(s)
        self.size += len(s)
        if self.size > self.out_limit:
            raise Discard("output")

    def run(self, prog):
        sc = Scope()
        body = self.block(prog, sc)
        try:
            v = body(Frame(None))
        except Return as r:
            v = r.v
        except Exit:
            v = None
        except RecursionError:
            raise Discard("recursion")
        return "".join(self.out), v

    def block(self, stmts, sc):
        cs = [self.stmt(s, sc) for s in stmts]

        def run(fr):
            v = None
            for c in cs:
                v = c(fr)
            return v
        return run

    def stmt(self, s, sc):
        k = s[0]
        if k == "say":
            es = [self.expr(e, sc) for e in s[1]]

            def say(fr):
                self.burn()
                vals = [e(fr) for e in es]
                self.emit("(" + ", ".join(show(v, 0) for v in vals) + ")\n")
            return say
        if k == "while":
            cond = self.expr(s[1], sc)
            body = self.block(s[2], sc)

            def wh(fr):
                while True:
                    self.burn()
                    if not test(cond(fr)):
                        break
                    try:
                        body(fr)
                    except Break:
                        self.count("break")
                        break
                    except Continue:
                        self.count("continue")
            return wh
        if k == "loop":
            body = self.block(s[1], sc)

            def lp(fr):
                while True:
                    self.burn()
                    try:
                        body(fr)
                    except Break:
                        self.count("break")
                        break
                    except Continue:
                        self.count("continue")
            return lp
        if k == "break":
            def br(fr):
                raise Break()
            return br
        if k == "exit":
            def ex(fr):
                raise Exit()
            return ex
        if k == "continue":
            def co(fr):
                raise Continue()
            return co
        if k == "ret":
            e = self.expr(s[1], sc)

            def rt(fr):
                self.count("return")
                raise Return(e(fr))
            return rt
        if k in ("times", "to", "step", "each"):
            if k == "times":
                heads, x, blk = [s[1]], s[2], s[3]
            elif k == "to":
                heads, x, blk = [s[1], s[2]], s[3], s[4]
            elif k == "step":
                heads, x, blk = [s[1], s[2], s[3]], s[4], s[5]
            else:
                heads, x, blk = [["var", s[1]]], s[2], s[3]
            hs = [self.expr(h, sc) for h in heads]
            fn = self.fn([x] if x else [], blk, sc)

            def it(fr):
                hv = [h(fr) for h in hs]
                clo = Clo(fn, fr)
                self.count(k)
                if k == "each":
                    t = hv[0]
                    if not isinstance(t, Tup):
                        raise Discard("each")
                    i = 0
                    while i < len(t.items):
                        self.burn()
                        self.apply(clo, [t.items[i]] if x else [])
                        i += 1
                    return t
                if not all(N.is_int(h) and abs(h) < 1000 for h in hv):
                    raise Discard(k)
                if k == "times":
                    rng, rv = range(hv[0]), max(hv[0], 0)
                elif k == "to":
                    a, b = hv
                    rng, rv = (range(a, b + 1) if a <= b else range(a, b - 1, -1)), abs(b - a) + 1
                else:
                    if hv[2] <= 0:
                        raise Discard("step")
                    rng, rv = range(hv[0], hv[1] + 1, hv[2]), None
                for i in rng:
                    self.burn()
                    self.apply(clo, [i] if x else [])
                return rv
            return it
        return self.expr(s, sc)

    def fn(self, params, body, sc):
        f = Fn()
        f.params = [p if isinstance(p, list) else [p] for p in params]
        inner = Scope(sc)
        for p in f.params:
            inner.locals.add(p[0])
        f.body = self.block(body, inner)
        return f

    def apply(self, clo, args, named=None):
        if not isinstance(clo, Clo):
            raise Discard("call of a non-closure")
        self.burn()
        self.depth += 1
        if self.depth > 60:
            raise Discard("depth")
        f = clo.fn
        fr = Frame(clo.frame)
        if len(args) > len(f.params):
            raise Discard("arity")
        for i, p in enumerate(f.params):
            if i < len(args):
                fr.vars[p[0]] = args[i]
            elif named and p[0] in named:
                fr.vars[p[0]] = named[p[0]]
            elif len(p) > 1:
                fr.vars[p[0]] = p[1]
            else:
                raise Discard("arity")
        try:
            return f.body(fr)
        except Return as r:
            return r.v
        finally:
            self.depth -= 1

    def expr(self, e, sc):
        k = e[0]
        if k == "lit":
            v = e[1]
            return lambda fr: v
        if k == "var":
            d = sc.find(e[1])
            x = e[1]
            if d is None:
                raise Discard("unbound %s" % x)
            if d == 0:
                return lambda fr: fr.vars.get(x)
            return lambda fr: _frame(fr, d).vars.get(x)
        if k == "asg":
            x = e[1]
            d = sc.assign(x)
            r = self.expr(e[2], sc)

            def asg(fr):
                self.burn()
                v = r(fr)
                _frame(fr, d).vars[x] = v
                return v
            return asg
        if k == "op=":
            x, op = e[1], e[2]
            d = sc.assign(x)
            if op == "?=":
                r = self.expr(e[3], sc)

                def unset(fr):
                    self.burn()
                    vs = _frame(fr, d).vars
                    if vs.get(x) is None or vs.get(x) is False:
                        vs[x] = r(fr)
                    return vs[x]
                return unset
            if op in ("and", "or"):
                return self.expr(["asg", x, [op, ["var", x], e[3]]], sc)
            return self.expr(["asg", x, ["bin", op, ["var", x], e[3]]], sc)
        if k == "inc":
            x, dl, pre = e[1], e[2], e[3]
            d = sc.find(x)
            if d is None:
                raise Discard("unbound")

            def inc(fr):
                f = _frame(fr, d)
                old = f.vars.get(x)
                if not N.is_num(old):
                    raise Discard("inc")
                new = N.binop("+", old, dl)
                f.vars[x] = new
                return new if pre else old
            return inc
        if k == "bin":
            op, a, b = e[1], self.expr(e[2], sc), self.expr(e[3], sc)

            def bn(fr):
                x = a(fr)
                y = b(fr)
                try:
                    r = N.binop(op, x, y)
                except N.Domain as ex:
                    raise Discard(str(ex))
                if isinstance(r, float) and r != r:
                    raise Discard("nan")
                return r
            return bn
        if k == "and" or k == "or":
            a, b = self.expr(e[1], sc), self.expr(e[2], sc)
            if k == "and":
                def an(fr):
                    v = a(fr)
                    return b(fr) if test(v) else v
                return an

            def oor(fr):
                v = a(fr)
                return v if test(v) else b(fr)
            return oor
        if k == "not":
            a = self.expr(e[1], sc)
            return lambda fr: not test(a(fr))
        if k == "neg":
            return self.expr(["bin", "-", ["lit", 0], e[1]], sc)
        if k == "pos":
            return self.expr(["bin", "+", ["lit", 0], e[1]], sc)
        if k == "bnot":     # of whole numbers only
            a = self.expr(e[1], sc)

            def inv(fr):
                v = a(fr)
                if not N.is_int(v):
                    self.count("discard bnot")
                    raise Discard("~ of %r" % (v,))
                return ~v
            return inv
        if k == "fn":
            f = self.fn(e[1], e[2], sc)

            def mkc(fr):
                self.count("closure")
                return Clo(f, fr)
            return mkc
        if k == "call" or k == "named":
            g = self.expr(["var", e[1]], sc)
            if k == "call":
                args = [self.expr(a, sc) for a in e[2]]

                def call(fr):
                    f = g(fr)
                    return self.apply(f, [a(fr) for a in args])
                return call
            nm = [(x, self.expr(a, sc)) for x, a in e[2]]

            def ncall(fr):
                f = g(fr)
                return self.apply(f, [], {x: a(fr) for x, a in nm})
            return ncall
        if k == "tup":
            es = [self.expr(x, sc) for x in e[1]]
            return lambda fr: Tup([x(fr) for x in es])
        if k == "at":
            t, i = self.expr(["var", e[1]], sc), self.expr(e[2], sc)

            def at(fr):
                tv = t(fr)
                iv = i(fr)
                if not isinstance(tv, Tup) or not N.is_int(iv):
                    raise Discard("at")
                n = len(tv.items)
                if iv < 0:
                    iv += n
                return tv.items[iv] if 0 <= iv < n else None
            return at
        if k == "put":
            t, i, v = self.expr(["var", e[1]], sc), self.expr(e[2], sc), self.expr(e[3], sc)

            def put(fr):
                tv = t(fr)
                iv = i(fr)
                vv = v(fr)
                if not isinstance(tv, Tup) or not N.is_int(iv) or not 0 <= iv < len(tv.items) or isinstance(vv, Tup):
                    raise Discard("put")
                tv.items[iv] = vv
                return None
            return put
        if k == "len":
            t = self.expr(["var", e[1]], sc)

            def ln(fr):
                tv = t(fr)
                if not isinstance(tv, Tup):
                    raise Discard("len")
                return len(tv.items)
            return ln
        if k == "if":
            arms = []
            for cnd, blk in e[1]:
                cc = self.expr(cnd, sc)
                arms.append((cc, self.block(blk, sc)))
            els = self.block(e[2], sc) if e[2] is not None else None

            def iff(fr):
                self.burn()
                for n, (cc, b) in enumerate(arms):
                    if test(cc(fr)):
                        self.count("arm%d" % min(n, 3))
                        return b(fr)
                if els:
                    self.count("else")
                    return els(fr)
                return None
            return iff
        raise ValueError(k)


# ---------------------------------------------------------------- printer

def strlit(s):
    return "'" + s.replace("'", "''") + "'"


class Printer:
    """style(n) draws 0..n-1; 0 is the plain way to write something"""

    def __init__(self, style=None, parens=1):
        self.style = style or (lambda n: 0)
        self.parens = parens    # 0: only where needed; 1: sometimes more, by style

    def sp(self):
        r = self.style(12)
        if r == 9:
            return "  "
        if r == 10:
            return "\t"
        return " "

    def lit(self, v):
        if v is None:
            return "nil"
        if v is True:
            return "true"
        if v is False:
            return "false"
        if isinstance(v, str):
            if self.style(6) == 5 and all(32 <= ord(ch) < 127 and ch not in '"\\' for ch in v):
                return '"' + v + '"'
            return strlit(v)
        if N.is_int(v) and v >= 0 and self.style(10) == 9:
            return "0x%x" % v if self.style(2) else "0x%X" % v
        return N.lit(v)

    def level(self, e):
        k = e[0]
        if k == "bin":
            return LEVEL[e[1]]
        if k == "inc":
            return LEVEL["not"]
        if k in LEVEL:
            return LEVEL[k]
        if k == "if":
            return LEVEL["not"]
        if k == "lit" and N.is_num(e[1]) and e[1] < 0:
            return LEVEL["neg"]
        return 11

    def at(self, e, lvl, ind, operand=True):
        """e where an expression of at least level lvl is needed; parentheses group the operands of operators, |e. any expression"""
        s = self.expr(e, ind)
        need = self.level(e) < lvl
        if operand and (need or (self.parens and self.level(e) < 11 and self.style(9) == 8)):
            if self.style(8) == 7:
                return "( " + s + " )"
            return "(" + s + ")"
        if need or (self.parens and self.style(40) == 39):
            return "|" + s + "."
        return s

    def args(self, es, ind):
        return "(" + self.comma(ind).join(self.at(e, 0, ind, False) if e[0] not in ("asg", "op=") else self.expr(["bin", "+", e, ["lit", 0]], ind) for e in es) + ")"

    def comma(self, ind):
        r = self.style(14)
        if r == 12:
            return ","
        if r == 13:
            return ",\n" + " " * ind
        return ", "

    def expr(self, e, ind):
        k = e[0]
        if k == "lit":
            return self.lit(e[1])
        if k == "var":
            return e[1]
        if k == "asg":
            return "%s%s=%s%s" % (e[1], self.sp(), self.sp(), self.at(e[2], 1, ind, False))
        if k == "op=" and e[2] == "?=":
            return "?%s%s=%s%s" % (e[1], self.sp(), self.sp(), self.at(e[3], 1, ind, False))
        if k == "op=":
            op = {"and": "&&", "or": "||"}.get(e[2], e[2])
            return "%s %s=%s%s" % (e[1], op, self.sp(), self.at(e[3], 1, ind, False))
        if k == "inc":
            o = "++" if e[2] > 0 else "--"
            return o + e[1] if e[3] else e[1] + o
        if k == "bin":
            l = LEVEL[e[1]]
            return "%s%s%s%s%s" % (self.at(e[2], l, ind), self.sp(), e[1], self.sp(), self.at(e[3], l + 1, ind))
        if k in ("and", "or"):
            o = "&&" if k == "and" and self.style(4) == 3 else k
            return "%s %s %s" % (self.at(e[1], 0, ind), o, self.at(e[2], 1, ind))
        if k == "not":
            return ("not " if self.style(3) < 2 else "! ") + self.at(e[1], 10, ind)
        if k == "neg":
            return "- " + self.at(e[1], 11, ind)
        if k == "fn":
            return self.head(e[1]) + self.block(e[2], ind)
        if k == "call":
            return e[1] + (" " if self.style(8) == 7 else "") + self.args(e[2], ind)
        if k == "named":
            return e[1] + "(" + ", ".join("%s=%s" % (x, self.at(a, 2, ind, False)) for x, a in e[2]) + ")"
        if k == "tup":
            return self.args(e[1], ind)
        if k == "at":
            return e[1] + self.args([e[2]], ind)
        if k == "put":
            return "%s put%s" % (e[1], self.args([e[2], e[3]], ind))
        if k == "len":
            return "%s length" % e[1]
        if k == "if":
            s = ""
            for n, (cnd, blk) in enumerate(e[1]):
                s += "%s (%s)%s" % ("if" if n == 0 else " elsif", self.expr(cnd, ind), self.block(blk, ind))
            if e[2] is not None:
                s += " else" + self.block(e[2], ind)
            return s
        raise ValueError(k)

    def head(self, params):
        if not params:
            return "()" if self.style(3) else ""
        ps = []
        for p in params:
            p = p if isinstance(p, list) else [p]
            ps.append(p[0] if len(p) == 1 else "%s:=%s" % (p[0], self.lit(p[1])))
        return "(" + ", ".join(ps) + ")"

    def block(self, stmts, ind):
        """: stmts . """
        if len(stmts) <= 2 and all(s[0] not in ("while", "loop", "if", "times", "to", "step", "each") for s in stmts) and self.style(3):
            return ": " + ", ".join(self.stmt(s, ind + 2) for s in stmts) + "."
        return ":" + self.nl(ind + 2) + self.stmts(stmts, ind + 2) + self.nl(ind) + "."

    def nl(self, ind):
        r = self.style(16)
        if r == 13:
            return "\n\n" + " " * ind
        if r == 14:
            return " # a comment, with (parens: and. dots\n" + " " * ind
        if r == 15:
            return "\n" + "\t" * (ind // 2)
        return "\n" + " " * ind

    def stmts(self, stmts, ind):
        out = ""
        for n, s in enumerate(stmts):
            if n:
                prev = stmts[n - 1]
                out += ", " if self.style(7) == 6 else self.nl(ind)
            out += self.stmt(s, ind)
        return out

    def stmt(self, s, ind):
        k = s[0]
        if k == "say":
            return self.args(s[1], ind) + " say"
        if k == "while":
            return "while (%s)%s" % (self.expr(s[1], ind), self.block(s[2], ind))
        if k == "loop":
            return "loop" + self.block(s[1], ind)
        if k in ("break", "continue", "exit"):
            return k
        if k == "ret":
            return "return (%s)" % self.expr(s[1], ind)
        if k == "times":
            return "%s times%s%s" % (self.recv(s[1], ind), " (%s)" % s[2] if s[2] else "", self.block(s[3], ind))
        if k == "to":
            return "%s to %s (%s)%s" % (self.recv(s[1], ind), self.recv(s[2], ind), s[3], self.block(s[4], ind))
        if k == "step":
            return "%s step(%s, %s) (%s)%s" % (self.recv(s[1], ind), self.expr(s[2], ind), self.expr(s[3], ind), s[4], self.block(s[5], ind))
        if k == "each":
            return "%s each (%s)%s" % (s[1], s[2], self.block(s[3], ind))
        return self.expr(s, ind)

    def recv(self, e, ind):
        if e[0] in ("lit", "var"):
            return self.expr(e, ind)
        return "|" + self.expr(e, ind) + "."

    def program(self, prog):
        return self.stmts(prog, 0) + "\n"


def expected(prog, fuel=20000):
    """output of the reference interpreter, its statistics; None when the program leaves the modelled subset"""
    it = Interp(fuel)
    try:
        out, v = it.run(prog)
    except Discard as d:
        return None, {"discard " + str(d).split(" ")[0]: 1}
    return out, it.stats
