"""Byte buffers: one object under all its names, however it grows."""
from ..engine import Part
from .. import strs, build
from . import common, c14

ID = "C29"
RULE = ("histories of making, naming, copying, appending to (text, other buffers, themselves), indexing, iterating and converting byte buffers, also as table keys, members of collections and captured variables, are compared with a "
        "model; some run under generated schedules of collections; non-trivial: a buffer with two names or held in a collection is appended to")
ASSUMPTIONS = ["buffers contain no zero bytes"]


def prepare(paths):
    return build.build("gc").potion


class World:
    def __init__(self, c):
        self.c = c
        self.lines, self.out = [], []
        self.v = {}         # variable -> buffer (a bytearray, by identity)
        self.s = {}         # string variable -> text
        self.t = {}         # tuple variable -> list of buffers
        self.keys = []      # (buffer, value) of the table h
        self.fn = {}        # closure -> buffer
        self.nt = False
        self.lines.append("h = (0=0)")

    def say(self, src, b):
        self.lines.append(src)
        self.out.append((b if isinstance(b, (bytes, bytearray)) else b.encode()) + b"\n")

    def text(self):
        c = self.c
        if self.s and c.bool(1, 4):
            x = c.pick(sorted(self.s))
            return x, self.s[x].encode()
        t = strs.text(c, 40) if c.bool(3, 4) else c.pick(["ab", "é", "乔纳", "0123456789"]) * c.n(0, 120)
        t = t.replace("\0", "")
        return strs.literal(c, t), t.encode()

    def buf(self):
        """an expression for a buffer"""
        c = self.c
        k = c.raw(5)
        if k == 3 and self.t:
            x = c.pick(sorted(self.t))
            if self.t[x]:
                i = c.n(0, len(self.t[x]) - 1)
                return "%s(%d)" % (x, i), self.t[x][i]
        if k == 4 and self.fn:
            x = c.pick(sorted(self.fn))
            return "%s(0)" % x, self.fn[x]
        x = c.pick(sorted(self.v))
        return x, self.v[x]

    def shared(self, b):
        return sum(x is b for x in self.v.values()) + sum(x is b for t in self.t.values() for x in t) + sum(x is b for x in self.fn.values()) + sum(x is b for x, _ in self.keys) > 1

    def step(self):
        c = self.c
        k = c.weighted([(3, "new"), (8, "append"), (2, "alias"), (2, "clone"), (2, "string"), (3, "print"), (2, "length"), (3, "at"), (1, "each"), (2, "ord"), (2, "tuple"), (2, "key"), (2, "get"), (1, "fn"), (1, "eq"),
                        (1, "inside"), (1, "junk"), (1, "chars")])
        if k == "junk":
            self.lines.append(c.pick(["list(30000)", "200 times (i): ('j', i) string.", "list(70000)"]))
            return
        if k == "new" or not self.v:
            src, b = self.text()
            v = "b%d" % c.n(0, 4)
            self.lines.append("%s = %s bytes" % (v, src))
            self.v[v] = bytearray(b)
            return
        src, b = self.buf()
        if k == "append":
            q = c.raw(5)
            if q == 4 and len(b) < 30000:
                x, y = self.buf()
            elif q == 3:
                x, y = self.text()
                x, y = "t", y
                s, _ = self.buf()
                self.lines.append("t = %s string" % s)
                y = bytes(self.lookup(s))
            else:
                x, y = self.text()
            if len(b) + len(y) > 200000:
                return
            if self.shared(b):
                self.nt = True
            self.lines.append("%s append(%s)" % (src, x))
            b += bytes(y)
            if c.bool(1, 3):
                self.say("%s length say" % src, str(len(b)))
        elif k == "alias":
            v = "b%d" % c.n(0, 4)
            self.lines.append("%s = %s" % (v, src))
            self.v[v] = b
        elif k == "clone":
            v = "b%d" % c.n(0, 4)
            self.lines.append("%s = %s clone" % (v, src))
            self.v[v] = bytearray(b)
        elif k == "string":
            v = "s%d" % c.n(0, 2)
            self.lines.append("%s = %s string" % (v, src))
            self.s[v] = b.decode()
        elif k == "print":
            self.say(c.pick(["%s say", "%s print, '' say", "%s string say"]) % src, b)
        elif k == "length":
            self.say("%s length say" % src, str(len(b)))
        elif k == "chars":
            self.say("%s string length say" % src, str(len(b.decode())))
        elif k == "at":
            i = c.pick([0, len(b) - 1, len(b), -1, len(b) // 2]) if c.bool() else c.n(0, len(b) + 2)
            self.say("%s(%d) say" % (src, i) if "(" not in src else "x = %s\nx(%d) say" % (src, i), bytes(b[i:i + 1]) if 0 <= i < len(b) else b"nil")
        elif k == "each":
            if len(b) < 300:
                self.lines.append("n = 0, o = 'x' bytes\n%s each (e): n = n + 1, o append(e), o append('-')." % src)
                self.say("n say", str(len(b)))
                self.say("o say", b"x" + b"".join(bytes([x]) + b"-" for x in b))
        elif k == "ord":
            t = b.decode()
            if len(t) > 250:
                return
            i = c.n(0, max(len(t) - 1, 0))
            self.say("%s ord(%d) say" % (src, i), str(ord(t[i])) if t else "0")
        elif k == "tuple":
            v = "t%d" % c.n(0, 2)
            m = [self.buf() for _ in range(c.n(1, 4))]
            self.lines.append("%s = (%s, 0)" % (v, ", ".join(x for x, _ in m)))
            self.t[v] = [y for _, y in m]
        elif k == "inside":
            if self.t:
                x = c.pick(sorted(self.t))
                self.say("%s say" % x, b"(" + b"".join(bytes(y) + b", " for y in self.t[x]) + b"0)")
                self.say("%s join('+') say" % x, b"".join(bytes(y) + b"+" for y in self.t[x]) + b"0")
        elif k == "key":
            n = c.n(0, 99)
            self.lines.append("h put(%s, %d)" % (src, n))
            self.keys = [(x, y) for x, y in self.keys if x is not b] + [(b, n)]
        elif k == "get":
            self.say("h(%s) say" % src, str(next((y for x, y in self.keys if x is b), "nil")))
        elif k == "fn":
            v = "f%d" % c.n(0, 1)
            w = "w%s%d" % (v, len(self.lines))
            self.lines.append("%s = %s\n%s = (x): %s." % (w, src, v, w))
            self.fn[v] = b
        elif k == "eq":
            s2, b2 = self.buf()
            self.say("(%s == %s, 0) say" % (src, s2), "(%s, 0)" % ("true" if b is b2 else "false"))

    def lookup(self, s):
        if s in self.v:
            return self.v[s]
        if s in self.fn or s.endswith("(0)") and s[:-3] in self.fn:
            return self.fn[s[:-3]]
        x, i = s[:-1].split("(")
        return self.t[x][int(i)]


def gen(c):
    w = World(c)
    for _ in range(c.n(5, 50)):
        w.step()
    for v in sorted(w.v):
        w.say("%s say" % v, w.v[v])
    out = b"".join(w.out).decode("latin1")
    k = {"src": "\n".join(w.lines) + "\n", "exp": out, "nt": w.nt}
    if c.bool(1, 3):
        k["sched"] = c14.schedule(c)
    return k


def check(ctx, case):
    sched = case.get("sched")
    for m in ("-B", "-X"):
        src, s = case["src"], sched
        if sched and m == "-X":
            src, s = "list(60000)\n" + src, "@400000:" + sched
        f = ctx.write("t.pn", src)
        r = ctx.run([ctx.extra if sched else ctx.potion, m, f], env={"POTION_GC_SCHEDULE": s} if sched else None)
        r.out = r.out.decode("latin1").encode()
        e = common.diff(case["exp"], r, {"-B": "bytecode VM", "-X": "JIT"}[m] + (" collecting at " + s if s else ""))
        if e:
            return e
    return None


PARTS = [Part("buffers", gen, check, 3500, 150000, nontrivial=lambda k: k["nt"], show=lambda k: {"source": k["src"], "expected": k["exp"][:3000], "collections": k.get("sched")})]
