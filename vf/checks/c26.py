"""A parser generated by greg accepts, consumes and does what its grammar says."""
import os
from ..engine import Part
from ..choice import Choices
from . import common

ID = "C26"
RULE = ("random PEG grammars (rules, sequences, choices, repetitions, predicates, captures, variables, error actions, classes, escapes, comments and layout) are turned into parsers by greg, compiled with small and large initial buffers, "
        "some with guarded allocations that move on every growth, and run several times over generated inputs; every step must be the one of a PEG interpreter; non-trivial: some input is parsed with actions run and some input is rejected")
ASSUMPTIONS = ["grammars are free of left recursion and of repetitions of an empty match, which PEGs do not define", "gcc compiles the generated C correctly"]

SMALL = "abc1-_'\"\\] \n\t%"
NAMES = ["item", "r-x", "ws", "-", "space", "end-of-it", "utf8ish", "id", "sep", "comment", "A", "b2", "_x", "Value", "start"]
VARS = ["v1", "va", "w", "x_y", "q"]


# ---- grammars: tuples ----------------------------------------------------------------------------------
# ("dot",) ("lit", text) ("cls", neg, [(lo, hi)]) ("name", rule, var|None) ("act", k, kind...) ("pred", kind)
# ("begin",) ("end",) ("seq", [..]) ("alt", [..]) ("and", e) ("not", e) ("opt", e) ("star", e) ("plus", e) ("err", e, k)

def variables(e):
    k = e[0]
    if k == "name":
        return {e[2]} - {None}
    if k in ("seq", "alt"):
        return set().union(*[variables(x) for x in e[1]])
    if k in ("and", "not", "opt", "star", "plus", "err"):
        return variables(e[1])
    return set()


def defined(e, vs):
    """`e` without uses of variables its rule does not have"""
    k = e[0]
    if k == "act":
        return e if e[2] != "use" or e[3] in vs else (k, e[1], "val")
    if k in ("seq", "alt"):
        return (k, [defined(x, vs) for x in e[1]])
    if k in ("and", "not", "opt", "star", "plus", "err"):
        return (k, defined(e[1], vs)) + e[2:]
    return e


class Gen:
    def __init__(self, c):
        self.c = c
        self.n = c.weighted([(1, 1), (2, 2), (3, 3), (5, 2), (8, 1)])
        names = c.shuffle(NAMES)[:self.n]
        self.names = names
        self.eats = [False] * self.n
        self.rules = [None] * self.n
        self.k = 0
        self.size = 0
        # the rule parsing starts with: named start, or else the first one
        for i in range(self.n - 1, -1, -1):
            self.i = i
            self.vars = []
            self.nvars = c.weighted([(3, 0), (2, 1), (2, 2), (1, 4), (2, 5)])
            e, eats = self.expr(c.n(2, 5), False, True)
            self.rules[i] = defined(e, variables(e))
            self.eats[i] = eats

    def char(self):
        c = self.c
        k = c.raw(16)
        if k < 9:
            return c.pick("abc")
        if k < 13:
            return c.pick(SMALL)
        if k < 14:
            return chr(c.n(1, 31))
        if k < 15:
            return chr(c.n(32, 126))
        return chr(c.n(127, 255))

    def lit(self):
        c = self.c
        return ("lit", "".join(self.char() for _ in range(c.weighted([(1, 5), (2, 3), (3, 1), (0, 1)]))))

    def cls(self):
        c = self.c
        rs = []
        for _ in range(c.n(1, 4)):
            a = ord(self.char()) if not c.bool(1, 30) else 0
            if c.bool():
                b = c.n(a, min(255, a + 25)) if not c.bool(1, 6) else 255
                rs.append((a, b))
            else:
                rs.append((a, a))
        return ("cls", c.bool(1, 4), rs)

    def action(self):
        c = self.c
        self.k += 1
        k = c.raw(5)
        if k < 2:
            return ("act", self.k, "text")
        if k == 2:
            return ("act", self.k, "set", c.n(0, 99))
        if k == 3 and self.nvars:
            v = c.n(0, self.nvars - 1)
            return ("act", self.k, "use", VARS[v])
        return ("act", self.k, "val")

    def expr(self, d, eaten, top=False):
        """-> (expression, does a match of it always consume)"""
        c = self.c
        self.size += 1
        if self.size > 120:
            d = 0
        k = c.raw(20)
        if d <= 0 or k < 6:
            return self.atom(d, eaten)
        if k < 12:
            es, eats = [], False
            for _ in range(c.n(2, 4)):
                e, x = self.expr(d - 1, eaten or eats)
                es.append(e)
                eats = eats or x
            return ("seq", es), eats
        if k < 15:
            es = [self.expr(d - 1, eaten) for _ in range(c.n(2, 4))]
            return ("alt", [e for e, x in es]), all(x for e, x in es)
        e, x = self.expr(d - 1, eaten)
        if k == 15:
            return (c.pick(["and", "not"]), e), False
        if k == 16:
            return ("opt", e), False
        if k < 19:
            if not x:
                # a repeated element has to consume
                y = self.lit1()
                e = ("seq", [y, e] if c.bool() else [e, y])
            return (("star", e), False) if c.bool() else (("plus", e), True)
        self.k += 1
        return ("err", e, self.k), x

    def lit1(self):
        return ("lit", self.char()) if self.c.bool() else self.cls()

    def atom(self, d, eaten):
        c = self.c
        k = c.raw(16)
        if k < 4:
            l = self.lit()
            return l, len(l[1]) > 0
        if k < 6:
            return self.cls(), True
        if k == 6:
            return ("dot",), True
        if k < 10:
            lo = 0 if eaten else self.i + 1
            if lo < self.n:
                j = c.n(lo, self.n - 1)
                var = VARS[c.n(0, self.nvars - 1)] if self.nvars and c.bool(2, 3) else None
                return ("name", j, var), (j > self.i and self.eats[j])
            return self.cls(), True
        if k < 13:
            return self.action(), False
        if k < 15:
            e, x = self.expr(d - 1, eaten) if d > 0 else (self.lit1(), True)
            es = [("begin",), e, ("end",)]
            if c.bool(3, 4):
                es.append(self.action())
            return ("seq", es), x
        return ("pred", c.pick(["yes", "yes", "no", "len", "first"])), False


# ---- text of a grammar ---------------------------------------------------------------------------------
class Text:
    def __init__(self, c, g):
        self.c, self.g = c, g
        self.plain = not c.bool(1, 4)

    def sp(self):
        c = self.c
        if self.plain:
            return " "
        return "".join(c.pick([" ", "\t", "\n", "\r\n", "# note ' [ {\n", " "]) for _ in range(c.n(0, 2)))

    def sp1(self):
        return " " + self.sp()

    def octal(self, o, nxt):
        c = self.c
        if nxt is None or not nxt.isdigit():
            if c.bool() and o < 64:
                return "\\%o" % o
        return "\\%03o" % o

    def char(self, ch, special, nxt):
        c = self.c
        o = ord(ch)
        names = {7: "a", 8: "b", 27: "e", 12: "f", 10: "n", 13: "r", 9: "t", 11: "v"}
        if o in names:
            return "\\" + names[o] if c.bool(2, 3) else self.octal(o, nxt)
        if ch in "\\":
            return "\\\\"
        if ch in special or (ch in "'\"[]-" and c.bool(1, 4)):
            return "\\" + ch
        if o < 32 or o >= 127 or c.bool(1, 12):
            k = c.raw(3)
            if k == 0 or (k == 1 and o > 127):
                return "\\x%02x" % o if c.bool() else "\\x%02X" % o
            if k == 1 and o >= 128:
                return ch
            return self.octal(o, nxt)
        return ch

    def lit(self, s):
        q = self.c.pick("'\"")
        out = ""
        for i, ch in enumerate(s):
            out += self.char(ch, q, s[i + 1] if i + 1 < len(s) else None)
        return q + out + q

    def cls(self, neg, rs):
        out = "^" if neg else ""
        for lo, hi in rs:
            special = "]-\\" + ("^" if True else "")
            a = self.cchar(chr(lo))
            if lo == hi and not self.c.bool(1, 10):
                out += a
            else:
                out += a + "-" + self.cchar(chr(hi))
        return "[" + out + "]"

    def cchar(self, ch):
        if ch == "^":
            return "\\x5e" if self.c.bool() else "\\136"
        return self.char(ch, "]-[", "0")

    def expr(self, e, prec=0):
        """prec: 0 alternatives, 1 sequence, 2 error, 3 prefix, 4 suffix, 5 primary"""
        k = e[0]
        c = self.c

        def wrap(p, s):
            return s if p >= prec and not c.bool(1, 12) else "(" + self.sp() + s + self.sp() + ")"

        if k == "alt":
            return wrap(0, (self.sp() + "|" + self.sp()).join(self.expr(x, 1) for x in e[1]))
        if k == "seq":
            return wrap(1, self.sp1().join(self.expr(x, 2) for x in e[1]))
        if k == "err":
            return wrap(2, self.expr(e[1], 3) + self.sp() + "~" + self.sp() + "{ printf(\"E%d \"); }" % e[2])
        if k in ("and", "not"):
            x = self.expr(e[1], 4)
            return wrap(3, ("&" if k == "and" else "!") + self.sp() + ("(" + x + ")" if x[0] == "{" else x))
        if k == "pred":
            code = {"yes": "1", "no": "0", "len": "strlen(yytext) % 2 == 0", "first": "yytext[0] == 'a'"}[e[1]]
            return wrap(3, "&" + self.sp() + "{ " + code + " }")
        if k in ("opt", "star", "plus"):
            return wrap(4, self.expr(e[1], 5) + self.sp() + {"opt": "?", "star": "*", "plus": "+"}[k])
        if k == "dot":
            return "."
        if k == "lit":
            return self.lit(e[1])
        if k == "cls":
            return self.cls(e[1], e[2])
        if k == "name":
            n = self.g.names[e[1]]
            return (e[2] + self.sp() + ":" + self.sp() if e[2] else "") + n
        if k == "begin":
            return "<"
        if k == "end":
            return ">"
        assert k == "act"
        if e[2] == "text":
            # every byte but the last ones as a number, so that the output is plain text
            return "{ T(%d, G, yytext, yyleng, thunk); }" % e[1]
        if e[2] == "set":
            return "{ $$ = %d; if ($$ == %d) { printf(\"S%d \"); } }" % (e[3], e[3], e[1])
        if e[2] == "use":
            return "{ $$ = (%s * 3 + 1) %% 1009; printf(\"U%d=%%d \", $$); }" % (e[3], e[1])
        return "{ printf(\"V%d=%%d \", $$); $$ = ($$ + 7) %% 1009; }" % e[1]

    def grammar(self):
        c, g = self.c, self.g
        out = "%{\n#include <stdio.h>\nstatic int yyleng_ok;\nstruct _GREG;\n" \
              "#define T(k, G, t, n, th) do { printf(\"A%d:\", k); if ((th)->end > 0 && (th)->end >= (th)->begin) { int i_; printf(\"%d\", n); for (i_ = 0; i_ < n; i_++) printf(\".%02x\", t[i_] & 255); } printf(\" \"); } while (0)\n%}\n"
        for i, e in enumerate(g.rules):
            out += g.names[i] + self.sp() + "=" + self.sp() + self.expr(e, 0) + self.sp() + (";" if c.bool(1, 3) else "") + c.pick(["\n", "\n\n", "\r\n", " # c\n"])
        out += "%%\n" + MAIN
        return out


MAIN = r"""
int main(int argc, char **argv)
{
  int i, n, ok;
  for (i = 1; i < argc; i++) {
    GREG *G = yyparse_new(NULL);
    G->input = fopen(argv[i], "rb");
    for (n = 0; n < 6; n++) {
      ok = yyparse(G);
      printf("%s@%d\n", ok ? "ok" : "no", G->offset);
      if (!ok) break;
    }
    fclose(G->input);
    yyparse_free(G);
    printf("--\n");
  }
  return 0;
}
"""
CHUNK = """
#define YY_INPUT(buf, result, max_size) { result = (int)fread(buf, 1, (max_size) < %d ? (max_size) : %d, G->input); }
"""
GUARD = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static void *g_alloc(size_t n, int z) {
  char *p = malloc(n + 64);
  memcpy(p, &n, sizeof n);
  memset(p + 16, z ? 0 : 0xa5, n);
  memset(p + 16 + n, 0x5a, 48);
  return p + 16;
}
static size_t g_check(char *p) {
  size_t n; int i;
  memcpy(&n, p - 16, sizeof n);
  for (i = 0; i < 48; i++) if (p[n + i] != 0x5a) { fprintf(stderr, "wrote past the end of a block of %zu bytes\n", n); fflush(stdout); abort(); }
  return n;
}
static void g_free(void *p) { if (p) { size_t n = g_check(p); memset(p, 0xdd, n); free((char *)p - 16); } }
static void *g_realloc(void *p, size_t n) {
  void *q = g_alloc(n, 0);
  size_t o = g_check(p);
  memcpy(q, p, o < n ? o : n);
  g_free(p);
  return q;
}
#define YY_ALLOC(N, D) g_alloc(N, 0)
#define YY_CALLOC(N, S, D) g_alloc((N) * (S), 1)
#define YY_REALLOC(B, N, D) g_realloc(B, N)
#define YY_FREE(P) g_free(P)
"""


# ---- the interpreter -----------------------------------------------------------------------------------
class Limit(Exception):
    pass


class Peg:
    """Parses `text`; actions are collected while matching and run after it."""

    def __init__(self, g, text):
        self.g, self.text = g, text
        self.offset = 0
        self.out = []
        self.yy = 0
        self.steps = 0
        self.acted = False
        self.start = g.names.index("start") if "start" in g.names else 0
        self.nvars = [bool(variables(e)) for e in g.rules]

    def parse(self):
        self.pos = self.begin = self.end = 0
        self.thunks = []
        self.input = self.text[self.offset:]
        ok = self.rule(self.start)
        if ok:
            self.run()
        else:
            self.pos = 0
        self.offset += self.pos
        return ok

    def yytext(self, b, e):
        return self.input[b:e] if e > b else ""

    def run(self):
        stack = []
        self.acted = self.acted or any(t[0] == "act" for t in self.thunks)
        for t in self.thunks:
            if t[0] == "push":
                stack.append({})
            elif t[0] == "pop":
                stack.pop()
            elif t[0] == "set":
                stack[-1][t[1]] = self.yy
            else:
                _, e, b, en = t
                if e[2] == "text":
                    if en > 0 and en >= b:
                        s = self.yytext(b, en)
                        self.out.append("A%d:%d%s " % (e[1], len(s), "".join(".%02x" % ord(x) for x in s)))
                    else:
                        self.out.append("A%d: " % e[1])
                elif e[2] == "set":
                    self.yy = e[3]
                    self.out.append("S%d " % e[1])
                elif e[2] == "use":
                    self.yy = (stack[-1].get(e[3], 0) * 3 + 1) % 1009
                    self.out.append("U%d=%d " % (e[1], self.yy))
                else:
                    self.out.append("V%d=%d " % (e[1], self.yy))
                    self.yy = (self.yy + 7) % 1009

    def rule(self, i):
        pos, n = self.pos, len(self.thunks)
        if self.nvars[i]:
            self.thunks.append(("push",))
        if self.match(self.g.rules[i]):
            if self.nvars[i]:
                self.thunks.append(("pop",))
            return True
        self.pos = pos
        del self.thunks[n:]
        return False

    def attempt(self, e):
        pos, n = self.pos, len(self.thunks)
        if self.match(e):
            return True
        self.pos = pos
        del self.thunks[n:]
        return False

    def match(self, e):
        self.steps += 1
        if self.steps > 20000:
            raise Limit()
        k = e[0]
        s = self.input
        if k == "dot":
            if self.pos < len(s):
                self.pos += 1
                return True
            return False
        if k == "lit":
            if s.startswith(e[1], self.pos):
                self.pos += len(e[1])
                return True
            return False
        if k == "cls":
            if self.pos < len(s):
                o = ord(s[self.pos])
                if any(a <= o <= b for a, b in e[2]) != e[1]:
                    self.pos += 1
                    return True
            return False
        if k == "name":
            if not self.rule(e[1]):
                return False
            if e[2]:
                self.thunks.append(("set", e[2]))
            return True
        if k == "act":
            self.thunks.append(("act", e, self.begin, self.end))
            return True
        if k == "pred":
            t = self.yytext(self.begin, self.end)
            if "\0" in t:
                t = t[:t.index("\0")]
            return {"yes": True, "no": False, "len": len(t) % 2 == 0, "first": t[:1] == "a"}[e[1]]
        if k == "begin":
            self.begin = self.pos
            return True
        if k == "end":
            self.end = self.pos
            return True
        if k == "seq":
            return all(self.match(x) for x in e[1])
        if k == "alt":
            return any(self.attempt(x) for x in e[1])
        if k in ("and", "not"):
            pos, n = self.pos, len(self.thunks)
            r = self.match(e[1])
            self.pos = pos
            del self.thunks[n:]
            return r == (k == "and")
        if k == "opt":
            self.attempt(e[1])
            return True
        if k in ("star", "plus"):
            if k == "plus" and not self.match(e[1]):
                return False
            while self.attempt(e[1]):
                pass
            return True
        assert k == "err"
        if self.match(e[1]):
            return True
        self.out.append("E%d " % e[2])
        return False


class Sample:
    """Some text the grammar may accept."""

    def __init__(self, c, g):
        self.c, self.g, self.n = c, g, 0

    def expr(self, e):
        c = self.c
        self.n += 1
        if self.n > 200:
            return ""
        k = e[0]
        if k == "dot":
            return c.pick(SMALL)
        if k == "lit":
            return e[1]
        if k == "cls":
            if e[1]:
                return c.pick(SMALL)
            a, b = c.pick(e[2])
            return chr(c.n(a, b))
        if k == "name":
            return self.expr(self.g.rules[e[1]])
        if k == "seq":
            return "".join(self.expr(x) for x in e[1])
        if k == "alt":
            return self.expr(c.pick(e[1]))
        if k == "opt":
            return self.expr(e[1]) if c.bool() else ""
        if k == "star":
            return "".join(self.expr(e[1]) for _ in range(c.weighted([(0, 2), (1, 2), (3, 1), (12, 1)])))
        if k == "plus":
            return "".join(self.expr(e[1]) for _ in range(c.weighted([(1, 3), (2, 2), (5, 1)])))
        if k == "err":
            return self.expr(e[1])
        return ""


def gen(c):
    for _ in range(5):
        case = gen1(c)
        if case["nt"]:
            break
    return case


def gen1(c):
    g = Gen(c)
    conf = {"buf": c.pick([1, 2, 64, 16384]), "stack": c.pick([1, 2, 8, 1024]), "chunk": c.pick([0, 0, 1, 3, 700]), "guard": c.bool()}
    src = Text(c, g).grammar()
    start = g.names.index("start") if "start" in g.names else 0
    inputs, exp, nt, steps = [], "", [0, 0], 0
    for _ in range(c.n(4, 12)):
        k = c.raw(8)
        s = Sample(c, g).expr(g.rules[start]) if k < 6 else ""
        if k >= 5:
            s += "".join(c.pick(SMALL) for _ in range(c.n(0, 6)))
        if c.bool(1, 4) and s:
            p = c.n(0, len(s) - 1)
            s = s[:p] + (c.pick(SMALL) if c.bool() else "") + s[p + 1:]
        if c.bool(1, 5):
            s = s * c.pick([2, 3, 40])
        s = s[:3000]
        p = Peg(g, s)
        out = ""
        try:
            for _ in range(6):
                ok = p.parse()
                p.out.append("%s@%d\n" % ("ok" if ok else "no", p.offset))
                nt[0 if ok and p.acted else 1] += not ok or p.acted
                if not ok:
                    break
        except (Limit, RecursionError):
            continue
        inputs.append(s)
        exp += "".join(p.out) + "--\n"
    return {"src": src, "conf": conf, "inputs": inputs, "exp": exp, "nt": all(nt)}


def prepare(paths):
    return {"greg": paths.greg}


def check(ctx, case):
    d = ctx.fresh("g")
    gf = os.path.join(d, "g.y")
    with open(gf, "wb") as f:
        f.write(case["src"].encode("latin1"))
    r = ctx.run([ctx.extra["greg"], "-o", d + "/g.c", gf])
    if r.rc != 0 or not os.path.exists(d + "/g.c"):
        return "greg rejects the grammar (%s): %s" % (r.rc, (r.out + r.err).decode("latin1")[:300])
    cf = case["conf"]
    args = ["gcc", "-O0", "-w", "-g0", "-DYY_BUFFER_START_SIZE=%d" % cf["buf"], "-DYY_STACK_SIZE=%d" % cf["stack"], "-o", d + "/g"]
    with open(d + "/conf.h", "w") as f:
        f.write((CHUNK % (cf["chunk"], cf["chunk"]) if cf["chunk"] else "") + (GUARD if cf["guard"] else ""))
    args += ["-include", d + "/conf.h"]
    r = ctx.run(args + [d + "/g.c"], timeout=60)
    if r.rc != 0:
        return "the generated parser does not compile: %s" % (r.out + r.err).decode("latin1")[:400]
    files = []
    for i, s in enumerate(case["inputs"]):
        files.append(os.path.join(d, "i%d" % i))
        with open(files[-1], "wb") as f:
            f.write(s.encode("latin1"))
    r = ctx.run([d + "/g"] + files)
    if r.rc != 0:
        return "the generated parser ended with %s: %s" % (r.rc, (r.out + r.err).decode("latin1")[-600:])
    out = r.out.decode("latin1")
    if out != case["exp"]:
        a, b = case["exp"].split("--\n"), out.split("--\n")
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "input %r: expected %r, got %r" % (case["inputs"][i] if i < len(case["inputs"]) else "", x[-400:], y[-400:])
        return "expected %r, got %r" % (case["exp"][-300:], out[-300:])
    return None


def show(case):
    body = case["src"].split("%}\n", 1)[1].split("%%\n" + MAIN)[0]
    return "%s\n%s\n%r" % (case["conf"], body[:3000], case["inputs"])


PARTS = [Part("grammars", gen, check, quick=1500, thorough=40000, nontrivial=lambda c: c["nt"], show=show)]
