"""Continuations: calling one resumes the program where it was taken, as often as it is called."""
from ..engine import Part
from .. import build
from . import common, c14

ID = "C18"
RULE = ("programs of several functions take continuations at any depth of calls, loops and blocks, keep them, and call them back later: outwards, inwards into calls which have returned, and repeatedly; "
        "between them they say, count and allocate. A machine with immutable frames predicts the output; non-trivial: at least 3 continuations called, or one entered again after its function returned")
ASSUMPTIONS = ["local variables are read only where each way to the reading assigns them after the continuation was taken or not at all, so that it does not matter whether they are restored",
               "continuations are called from the interpreter they were taken in"]

FUEL = 4000


class Fun:
    def __init__(self, i):
        self.i, self.body = i, None
        self.depth = 0


class Gen:
    def __init__(self, c):
        self.c = c
        self.cells = 0
        self.conts = c.n(1, 4)
        self.funs = []
        self.n = 0
        self.locals = 0

    def block(self, level, calls, scope, most):
        """statements; scope: locals of this function body which are assigned"""
        c = self.c
        out = []
        scope = list(scope)
        for _ in range(c.n(1, most)):
            k = c.weighted([(4, "say"), (2, "sayx"), (4, "take"), (4, "jump"), (3, "call"), (1, "rec"), (2, "times"), (2, "while"), (2, "if"), (1, "junk"), (2, "expr"), (1, "ret")])
            self.n += 1
            if k == "say":
                out.append(("say", "s%d" % self.n))
            elif k == "sayx" and scope:
                out.append(("sayv", c.pick(scope)))
            elif k == "take":
                out.append(("take", c.n(0, self.conts - 1), c.bool()))
            elif k == "jump":
                out.append(("jump", c.n(0, self.conts - 1), self.cell(), c.n(1, 3)))
            elif k in ("call", "rec") and calls:
                v = "v%d" % self.n
                out.append(("call", v, c.pick(calls), c.n(0, 99) if k == "call" or not scope else c.pick(scope), c.n(0, 3) if k == "rec" else 0))
                scope.append(v)
            elif k == "times" and level < 2:
                out.append(("times", c.n(1, 3), "i%d" % self.n, self.block(level + 1, calls, ["i%d" % self.n], 3), c.bool()))
            elif k == "while" and level < 2:
                out.append(("while", self.cell(), c.n(1, 3), self.block(level + 1, calls, scope, 3)))
            elif k == "if" and level < 2:
                out.append(("if", self.cell(), c.n(1, 3), self.block(level + 1, calls, scope, 3)))
            elif k == "junk":
                out.append(("junk", c.n(0, 2), c.n(0, self.cells)))
            elif k == "expr" and calls:
                out.append(("expr", c.n(1, 50), c.pick(calls), c.n(1, 9)))
            elif k == "ret" and level == 0 and c.bool(1, 4):
                out.append(("ret", c.n(0, 99)))
                break
        return out

    def cell(self):
        self.cells += 1
        return self.cells - 1

    def program(self):
        c = self.c
        nf = c.n(0, 4)
        for i in range(nf):
            self.funs.append((self.block(0, list(range(i)), ["a"], 5), c.n(0, 9)))
        self.main = self.block(0, list(range(nf)), [], 8)
        # make sure something is taken and called
        if c.bool(3, 4):
            self.main.insert(c.n(0, len(self.main) // 2), ("take", 0, False))
            self.main.append(("jump", c.n(0, self.conts - 1), self.cell(), c.n(1, 3)))
        self.main.append(("say", "end"))


# --- printing
def src(st, ind):
    p = "  " * ind
    out = []
    for s in st:
        k = s[0]
        if k == "say":
            out.append(p + "'%s' say" % s[1])
        elif k == "sayv":
            out.append(p + "('v', %s) say" % s[1])
        elif k == "take":
            if s[2]:
                out.append(p + "k = here\n%sK put(%d, k)" % (p, s[1]))
            else:
                out.append(p + "K put(%d, here)" % s[1])
        elif k == "jump":
            out.append(p + "if (K(%d) and H(%d) < %d):\n%s  H put(%d, H(%d) + 1)\n%s  k = K(%d)\n%s  k ()." % (s[1], s[2], s[3], p, s[2], s[2], p, s[1], p))
        elif k == "call":
            out.append(p + "%s = f%d(%s, %d)" % (s[1], s[2], s[3], s[4]))
        elif k == "times":
            if s[4]:
                out.append(p + "%d times (%s):\n%s." % (s[1], s[2], src(s[3], ind + 1)))
            else:
                out.append(p + "0 to (%d, (%s):\n%s.)" % (s[1] - 1, s[2], src(s[3], ind + 1)))
        elif k == "while":
            out.append(p + "while (H(%d) < %d):\n%s  H put(%d, H(%d) + 1)\n%s." % (s[1], s[2], p, s[1], s[1], src(s[3], ind + 1)))
        elif k == "if":
            out.append(p + "if (H(%d) < %d):\n%s  H put(%d, H(%d) + 1)\n%s." % (s[1], s[2], p, s[1], s[1], src(s[3], ind + 1)))
        elif k == "junk":
            if s[1] == 0:
                out.append(p + "list(9000)")
            elif s[1] == 1:
                out.append(p + "%d times (i): ('junk', i, (i, i + 1)) string." % (5 + s[2]))
            else:
                out.append(p + "list(40000), list(40000)")
        elif k == "expr":
            out.append(p + "w = %d + f%d(%d, 0) * 2, ('x', w) say" % (s[1], s[2], s[3]))
        elif k == "ret":
            out.append(p + "return (%d)" % s[1])
    return "\n".join(out)


def source(g):
    out = ["K = (%s)" % ", ".join(["nil"] * g.conts) if g.conts > 1 else "K = list(1)", "H = ()", "%d times (i): H push(0)." % (g.cells + 1)]
    for i, (body, r) in enumerate(g.funs):
        out.append("f%d = (a, n):\n  ('f%d', a, n) say\n  if (n > 0): f%d(a + 1, n - 1).\n%s\n  a + %d." % (i, i, i, src(body, 1), r))
    out.append(src(g.main, 0))
    return "\n".join(out) + "\n"


# --- the machine: frames are immutable linked tuples
class Stop(Exception):
    pass


def run(g):
    """returns output, number of continuations called, number entered again after their function returned"""
    H = [0] * (g.cells + 1)
    K = [None] * g.conts
    out = []
    stat = {"jumps": 0, "inward": 0}
    # a frame: (kind, data, pc, locals, parent)
    frame = ("body", g.main, 0, {}, None)
    fuel = FUEL
    ret = None
    while frame is not None:
        fuel -= 1
        if fuel == 0:
            raise Stop()
        kind, data, pc, loc, up = frame
        if kind == "fun":                      # a call in its opening
            i, a, n, stage = data
            if stage == 0:
                out.append("(f%d, %d, %d)" % (i, a, n))
                f1 = ("fun", (i, a, n, 1), 0, loc, up)
                if n > 0:
                    frame = ("fun", (i, a + 1, n - 1, 0), 0, {}, ("drop", None, 0, {}, f1))
                else:
                    frame = f1
            elif stage == 1:
                frame = ("body", g.funs[i][0], 0, {"a": a}, ("fun", (i, a, n, 2), 0, loc, up))
            else:
                ret = a + g.funs[i][1]
                frame = up
            continue
        if kind == "drop":
            frame = up
            continue
        if kind == "assign":                   # the value of a call arrives
            k2, d2, p2, l2, u2 = up
            l2 = dict(l2)
            l2[data] = ret
            frame = (k2, d2, p2, l2, u2)
            continue
        if kind == "expr":
            out.append("(x, %d)" % (data + ret * 2))
            frame = up
            continue
        if kind == "times":
            n, var, body = data
            if pc < n:
                frame = ("block", body, 0, {var: pc}, ("times", data, pc + 1, loc, up))
            else:
                frame = up
            continue
        if kind == "while":
            c, n, body = data
            if H[c] < n:
                H[c] += 1
                frame = ("inner", body, 0, loc, frame)
            else:
                k2, d2, p2, l2, u2 = up
                frame = (k2, d2, p2, loc, u2)
            continue
        # a sequence of statements
        if pc == len(data):
            if kind == "inner":                # shares the locals of the body around
                k2, d2, p2, l2, u2 = up
                frame = (k2, d2, p2, loc, u2)
            else:
                frame = up
            continue
        s = data[pc]
        k = s[0]
        nxt = (kind, data, pc + 1, loc, up)
        frame = nxt
        if k == "say":
            out.append(s[1])
        elif k == "sayv":
            out.append("(v, %d)" % loc[s[1]])
        elif k == "take":
            K[s[1]] = nxt
        elif k == "jump":
            if K[s[1]] is not None and H[s[2]] < s[3]:
                H[s[2]] += 1
                stat["jumps"] += 1
                x = nxt
                while x is not None and x[1] is not K[s[1]][1]:
                    x = x[4]
                stat["inward"] += x is None
                frame = K[s[1]]
        elif k == "call":
            a = s[3] if isinstance(s[3], int) else loc[s[3]]
            frame = ("fun", (s[2], a, s[4], 0), 0, {}, ("assign", s[1], 0, {}, nxt))
        elif k == "expr":
            frame = ("fun", (s[2], s[3], 0, 0), 0, {}, ("expr", s[1], 0, {}, nxt))
        elif k == "times":
            frame = ("times", (s[1], s[2], s[3]), 0, {}, nxt)
        elif k == "while":
            frame = ("while", (s[1], s[2], s[3]), 0, loc, nxt)
        elif k == "if":
            if H[s[1]] < s[2]:
                H[s[1]] += 1
                frame = ("inner", s[3], 0, loc, nxt)
        elif k == "ret":
            ret = s[1]
            if up is None:
                frame = None
            else:
                frame = up[4]
    return out, stat


def gen(c):
    g = Gen(c)
    g.program()
    try:
        out, st = run(g)
    except Stop:
        c.tag("too long")
        return {"src": "1 say\n", "exp": "1\n", "nt": False}
    c.tag("jumps %d" % min(5, st["jumps"]))
    if st["inward"]:
        c.tag("into a call which returned")
    return {"src": source(g), "exp": "".join(x + "\n" for x in out), "nt": st["jumps"] >= 3 or st["inward"] > 0}


def prepare(paths):
    return build.build("gc").potion


def scheduled(c):
    k = gen(c)
    k["sched"] = c14.schedule(c)
    return k


PARTS = [Part("machine", gen, common.run_program, 5000, 200000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("machine, collecting", scheduled, c14.check, 2500, 100000, nontrivial=lambda k: k["nt"], show=common.show)]
