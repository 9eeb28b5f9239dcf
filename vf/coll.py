"""Histories on tuples and tables, with aliases, compared with Python lists and dicts."""
from . import strs


class Tup:
    def __init__(self, xs):
        self.xs = list(xs)


class Tab:
    def __init__(self, d):
        self.d = dict(d)       # key() -> (key, value)


class Box:
    """a reference: what it holds turns from a tuple into a table when the program does that"""
    def __init__(self, v):
        self.v = v

    @property
    def tup(self):
        return isinstance(self.v, Tup)

    @property
    def xs(self):
        return self.v.xs

    @property
    def d(self):
        return self.v.d


def key(k):
    return ("b", id(k)) if isinstance(k, Box) else ("bool", k) if isinstance(k, bool) else (type(k).__name__, k)


def show(v):
    if isinstance(v, Box):
        if v.tup:
            return "(%s)" % ", ".join(show(x) for x in v.xs)
        if len(v.d) > 1:
            raise ValueError("hash order")
        return "(%s)" % ", ".join("%s=%s" % (show(k), show(x)) for k, x in v.d.values())
    if v is None:
        return "nil"
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v)


def printable(v, depth=0, size=None):
    """has one printed form, of a reasonable size"""
    size = size if size is not None else [0]
    size[0] += 1
    if depth > 12 or size[0] > 3000:
        return False
    if isinstance(v, Box):
        if v.tup:
            return all(printable(x, depth + 1, size) for x in v.xs)
        return len(v.d) < 2 and all(printable(k, depth + 1, size) and printable(x, depth + 1, size) for k, x in v.d.values())
    return True


def reaches(v, b, seen=None):
    seen = set() if seen is None else seen
    if v is b:
        return True
    if not isinstance(v, Box) or id(v) in seen:
        return False
    seen.add(id(v))
    kids = v.xs if v.tup else [y for kx in v.d.values() for y in kx]
    return any(reaches(x, b, seen) for x in kids)


class World:
    def __init__(self, c, kind):
        self.c, self.kind = c, kind
        self.vars = []           # (name, Box)
        self.src, self.exp = [], []
        self.deep = False        # something beyond the ordinary took place
        self.steps = 0
        self.keep = []           # keeps ids of boxes alive

    def line(self, s, e=None):
        self.src.append(s)
        if e is not None:
            self.exp.append(e)

    def name(self, p="v"):
        self.steps += 1
        return "%s%d" % (p, self.steps)

    def scalar(self):
        c = self.c
        k = c.weighted([(8, "int"), (4, "str"), (1, "nil"), (1, "bool"), (1, "big")])
        if k == "int":
            v = c.n(-20, 99)
        elif k == "big":
            v = c.bits(61) * (-1 if c.bool() else 1)
        elif k == "str":
            v = c.pick(["a", "b", "key", "x y", "", "é", "日本", "long " * 12]) if c.bool() else strs.text(c, 6)
        elif k == "nil":
            v = None
        else:
            v = c.bool()
        return v, self.text(v)

    def text(self, v):
        if isinstance(v, str):
            return strs.literal(self.c, v)
        return show(v)

    def value(self, into=None):
        """a value to store into the box INTO"""
        c = self.c
        if self.vars and c.bool(1, 6):
            n, b = c.pick(self.vars)
            if into is None or not reaches(b, into):
                self.deep = True
                return b, n
        return self.scalar()

    def new(self, expr, box):
        self.keep.append(box)
        if len(self.vars) >= 8:
            n, _ = self.vars[self.c.n(0, 7)]
            self.vars = [(m, b) for m, b in self.vars if m != n]
        else:
            n = self.name()
        self.line("%s = %s" % (n, expr))
        self.vars.append((n, box))
        return n

    def say(self, expr, v):
        if not printable(v):
            return
        t = show(v)
        if len(t) > 6000:
            return
        self.line("(%s, 1) say" % expr, "(%s, 1)" % t)

    def seq(self, lo=0, hi=6):
        """a literal tuple"""
        c = self.c
        n = c.small(lo, hi)
        vs = [self.value() for _ in range(n)]
        return Tup([v for v, t in vs]), "(%s)" % ", ".join(t for v, t in vs)

    def make(self):
        c = self.c
        k = c.weighted([(6, "lit"), (2, "loop"), (1, "list"), (1, "alias"), (3 if self.kind == "table" else 0, "tab")])
        if k == "lit" or (k == "alias" and not self.vars):
            t, s = self.seq()
            return self.new(s, Box(t))
        if k == "alias":
            n, b = c.pick(self.vars)
            self.deep = True
            return self.new(n, b)
        if k == "list":
            n = c.n(0, 9)
            return self.new("list(%d)" % n, Box(Tup([None] * n)))
        if k == "tab":
            d, parts = {}, []
            for _ in range(c.small(1, 6)):
                kk = c.pick([c.n(0, 9), c.pick(["a", "b", "c1", "key"])])
                v, t = self.value()
                if key(kk) in d:
                    continue
                d[key(kk)] = (kk, v)
                parts.append("%s=%s" % (kk if not isinstance(kk, str) or c.bool() else "'%s'" % kk, t))
            return self.new("(%s)" % ", ".join(parts), Box(Tab(d)))
        n = c.weighted([(4, c.n(3, 40)), (2, c.n(40, 400)), (1, c.n(400, 2600))])
        m = c.pick(["push", "append", "unshift"]) if n < 500 else "push"
        x = self.new("()", Box(Tup([])))
        b = self.vars[-1][1]
        e, f = c.pick([("i", lambda i: i), ("i * 7 - 3", lambda i: i * 7 - 3), ("(i, 'x') join", lambda i: "%dx" % i), ("(i, i + 1)", lambda i: Box(Tup([i, i + 1])))])
        self.line("%d times (i): %s %s(%s)." % (n, x, m, e))
        vs = [f(i) for i in range(n)]
        b.v.xs = vs[::-1] if m == "unshift" else vs
        self.deep |= n > 40
        return x

    def place(self, stmt, x):
        """STMT on the variable X, directly or through a function's parameter or captured variable"""
        c = self.c
        k = c.weighted([(6, 0), (1, 1), (1, 2), (1, 3)])
        if k == 0:
            self.line(stmt.replace("\x01", x))
        elif k == 1:
            f = self.name("f")
            self.line("%s = (z): %s.\n%s(%s)" % (f, stmt.replace("\x01", "z"), f, x))
        elif k == 2:
            f = self.name("f")
            self.line("%s = (u): %s.\n%s(0)" % (f, stmt.replace("\x01", x), f))
        else:
            self.line("if (1 == 1): %s." % stmt.replace("\x01", x))

    def read(self, expr, x, v):
        c = self.c
        if not printable(v) or len(show(v)) > 6000:
            self.line(expr.replace("\x01", x))
            return
        k = c.weighted([(6, 0), (1, 1), (1, 2)])
        if k == 0:
            self.say(expr.replace("\x01", x), v)
        elif k == 1:
            f = self.name("f")
            self.line("%s = (z): (%s, 2).\n%s(%s) say" % (f, expr.replace("\x01", "z"), f, x), "(%s, 2)" % show(v))
        else:
            f = self.name("f")
            self.line("%s = (u): (%s, u).\n%s(3) say" % (f, expr.replace("\x01", x), f), "(%s, 3)" % show(v))

    # ------------------------------------------------------------ steps on tuples
    def large(self, x, b):
        """what a large tuple holds after an operation on all of it, looked at here and there"""
        c, xs = self.c, b.xs
        k = c.pick(["reverse", "nreverse", "slice", "clone", "index", "map", "push", "remove"])
        n = len(xs)
        y, ys = x, xs
        if k == "nreverse":
            self.place("\x01 nreverse", x)
            xs.reverse()
        elif k == "push":
            self.line("%s push('end')" % x)
            xs.append("end")
        elif k != "index":
            a, z = c.n(0, n // 2), c.n(n // 2, n - 1)
            e, ys = {"reverse": ("reverse", xs[::-1]), "slice": ("slice(%d, %d)" % (a, z), xs[a:z + 1]), "clone": ("clone", xs),
                     "map": ("map (q): (q, 1).", [Box(Tup([v, 1])) for v in xs]), "remove": ("remove(%d)" % a, xs[:a] + xs[a + 1:])}[k]
            self.new("%s %s" % (x, e), Box(Tup(ys)))
            y = [m for m, d in self.vars][-1] if len(self.vars) else x
            ys = self.vars[-1][1].xs
        n = len(ys)
        at = sorted({min(n - 1, i) for i in (0, 1, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, n - 2, n - 1) + tuple(c.n(0, n - 1) for _ in range(4))})
        for i in at:
            if printable(ys[i]):
                self.say(c.pick(["%s(%d)", "%s[%d]", "%s at(%d)"]) % (y, i), ys[i])
        self.deep = True

    def tuple_step(self, x, b):
        c, xs = self.c, b.xs
        n = len(xs)
        if n > 256 and c.bool():
            return self.large(x, b)
        k = c.weighted([(6, "push"), (4, "pop"), (4, "shift"), (4, "unshift"), (6, "put"), (6, "at"), (4, "index"), (2, "ends"), (3, "length"), (3, "clone"),
                        (5, "slice"), (3, "reverse"), (3, "remove"), (3, "delete"), (3, "map"), (3, "filter"), (2, "each"), (3, "reduce"), (3, "join"), (6, "say"),
                        (2, "bulk"), (3, "same"), (2, "kind"), (2, "grow"), (2, "cmp"), (1, "bsearch"), (1, "print"), (2 if self.kind == "table" else 0, "cast"), (1, "assigned")])
        ints = all(isinstance(v, int) and not isinstance(v, bool) and abs(v) < 1 << 40 for v in xs)
        if k == "push":
            v, t = self.value(b)
            self.place("\x01 %s(%s)" % (c.pick(["push", "append"]), t), x)
            xs.append(v)
            if c.bool(1, 4) and b.tup:
                # chained: each answers the tuple
                w, s = self.scalar()
                self.line("%s push(%s) push(%s)" % (x, s, s))
                xs += [w, w]
        elif k == "pop":
            self.read("\x01 pop", x, xs.pop() if xs else None)
        elif k == "shift":
            self.read("\x01 shift", x, xs.pop(0) if xs else None)
        elif k == "unshift":
            v, t = self.value(b)
            self.place("\x01 unshift(%s)" % t, x)
            xs.insert(0, v)
        elif k == "put":
            i = c.n(0, n) if c.bool(2, 3) else c.n(-n, n)
            v, t = self.value(b)
            if i == n or c.bool():
                self.place("\x01 put(%d, %s)" % (i, t), x)
            else:
                self.line("%s(%d) = %s" % (x, i, t))
            if i == n:
                xs.append(v)
            else:
                xs[i] = v
        elif k == "at":
            i = c.n(-n - 2, n + 2)
            v = xs[i] if -n <= i < n else None
            self.read(c.pick(["\x01 at(%d)", "\x01(%d)"]) % i, x, v)
        elif k == "index" and n:
            i = c.n(0, n - 1)
            if n > 256 and c.bool():
                i = min(n - 1, c.pick([255, 256, 1022, 1023, 1024, 1025, 2047, 2048]))
            f = c.raw(3)
            if not printable(xs[i]):
                return
            if f == 0:
                self.read("\x01[%d]" % i, x, xs[i])
            elif f == 1:
                self.line("j = %d" % i)
                self.say("%s[j]" % x, xs[i])
            else:
                g = self.name("f")
                e = c.pick(["%s = (j): (%s[j], 1).\n%s(%d) say" % (g, x, g, i), "j = %d\n%s = (u): (%s[j], u).\n%s(1) say" % (i, g, x, g),
                            "%s = (z, u):\n  j = u\n  (z[j], 1).\n%s(%s, %d) say" % (g, g, x, i)])
                self.line(e, "(%s, 1)" % show(xs[i]))
        elif k == "ends":
            self.read("\x01 first", x, xs[0] if xs else None)
            self.read("\x01 last", x, xs[-1] if xs else None)
        elif k == "length":
            self.read("\x01 length", x, n)
        elif k == "clone":
            self.new("%s clone" % x, Box(Tup(xs)))
        elif k == "slice":
            f = c.raw(5)
            a = c.n(-n - 2, n + 1)
            i = max(a + n, 0) if a < 0 else a
            if f == 0:
                e, r = "slice", list(xs)
            elif f == 1:
                e, r = "slice(%d, nil)" % a, xs[i:]
                if not r:
                    r = None
            else:
                z = c.n(-n - 2, n + 2)
                j = max(z + n, 0) if z < 0 else z
                if j < i:
                    i, j = j, i
                e, r = "slice(%d, %d)" % (a, z), xs[i:j + 1]
                if not r:
                    r = None
            if r is None:
                self.say("%s %s" % (x, e), None)
            else:
                self.new("%s %s" % (x, e), Box(Tup(r)))
        elif k == "reverse":
            if c.bool():
                self.new("%s reverse" % x, Box(Tup(xs[::-1])))
            else:
                self.place("\x01 nreverse", x)
                xs.reverse()
        elif k == "remove":
            i = c.n(0, n + 1)
            if n:
                self.new("%s remove(%d)" % (x, i), Box(Tup(xs[:i] + xs[i + 1:])))
        elif k == "delete":
            i = c.n(0, n + 1)
            self.place("\x01 delete(%d)" % i, x)
            del xs[i:i + 1]
        elif k == "map":
            f = c.raw(3)
            if f == 0 and ints:
                a = c.n(-9, 9)
                self.new("%s map (q): q * %d + 1." % (x, a), Box(Tup([v * a + 1 for v in xs])))
            elif f == 1:
                self.new("%s map (q): (q, 0)." % x, Box(Tup([Box(Tup([v, 0])) for v in xs])))
            elif printable(b):
                self.new("%s map (q): (q, '!') join." % x, Box(Tup([show(v) + "!" for v in xs])))
        elif k == "filter":
            if c.bool(1, 3):
                self.new("%s filter (q): q." % x, Box(Tup([v for v in xs if v is not None and v is not False])))
            elif ints and c.bool():
                a = c.n(-5, 50)
                if c.bool():
                    self.new("%s filter (q): q > %d." % (x, a), Box(Tup([v for v in xs if v > a])))
                else:
                    self.new("%s filter (q, i): q > i." % x, Box(Tup([v for i, v in enumerate(xs) if v > i])))
            else:
                a = c.n(2, 4)
                self.new("%s filter (q, i): i %% %d == 0." % (x, a), Box(Tup(xs[::a])))
        elif k == "each" and n < 30:
            if not printable(b):
                return
            if c.bool():
                self.line("%s each (q): (q, 1) say." % x)
                self.exp += ["(%s, 1)" % show(v) for v in xs]
            else:
                self.line("%s each (q, i): (i, q) say." % x)
                self.exp += ["(%d, %s)" % (i, show(v)) for i, v in enumerate(xs)]
        elif k == "reduce" and ints:
            a = c.n(1, 5)
            f = c.raw(2)
            if f == 0:
                self.say("%s reduce((p, q): p + q., %d)" % (x, a), a + sum(xs))
            elif printable(b):
                t = "s"
                for v in xs:
                    t = ("%s%s" % (t, v))[-200:] if n < 40 else t
                if n < 40 and len("s" + "".join(show(v) for v in xs)) < 200:
                    self.say("%s reduce((p, q): (p, q) join., 's')" % x, t)
        elif k == "join" and printable(b) and n < 300:
            s = self.c.pick(["", ", ", "-", "é"])
            self.say(c.pick(["%s join('%s')", "%s join(\"%s\")"]) % (x, s), s.join(show(v) for v in xs))
        elif k == "say":
            if printable(b) and len(show(b)) < 6000:
                self.line("%s say" % x, show(b))
        elif k == "bulk":
            m = c.n(1, 60)
            f = c.pick(["push", "pop", "shift", "unshift", "put"])
            self.deep = True
            if f == "push":
                self.line("%d times (i): %s push(i)." % (m, x))
                xs += range(m)
            elif f == "unshift":
                self.line("%d times (i): %s unshift(i)." % (m, x))
                xs[:0] = range(m)[::-1]
            elif f == "put":
                self.line("%d times (i): %s put(i + %d, i)." % (m, x, n))
                xs += range(m)
            elif f == "pop":
                self.line("%d times: %s pop." % (m, x))
                del xs[max(n - m, 0):]
            else:
                self.line("%d times: %s shift." % (m, x))
                del xs[:m]
        elif k == "same":
            y, d = c.pick(self.vars)
            self.read("\x01 == %s" % y, x, b is d)
            self.read("%s != \x01" % y, x, b is not d)
            if c.bool():
                h = self.name("h")
                self.line("%s = (%s, 1)" % (h, x))
                self.line("%s push(0) push(0) push(0)" % h)
                self.say("%s at(0) == %s" % (h, x), True)
        elif k == "kind":
            self.read("\x01 kind == Tuple", x, True)
        elif k == "grow":
            v, t = self.scalar()
            m = c.n(2, 12)
            self.line("i = 0\nwhile (i < %d):\n  %s push(%s)\n  i = i + 1\n." % (m, x, t))
            xs += [v] * m
        elif k == "cmp":
            ys = [d for m, d in self.vars if d.tup and d is not b and all(isinstance(v, int) and not isinstance(v, bool) and abs(v) < 1 << 40 for v in d.xs)]
            if ints and ys and n < 30:
                d = c.pick(ys)
                y = [m for m, e in self.vars if e is d][0]
                if c.bool(1, 3):
                    d = Box(Tup(xs))
                    if n and c.bool():
                        d.xs[c.n(0, n - 1)] += c.n(-1, 1)
                    y = show(d)
                self.line("r = %s cmp(%s)" % (x, y))
                self.line("(r < 0, r == 0, r > 0) say", "(%s, %s, %s)" % tuple(show(t) for t in (xs < d.xs, xs == d.xs, xs > d.xs)))
        elif k == "print" and printable(b) and len(show(b)) < 6000:
            self.line("%s print\n'' say" % x, "".join(show(v) if not isinstance(v, Box) else pr(v) for v in xs))
        elif k == "cast":
            kk, t = c.pick([(n + c.n(1, 9), None), ("name", "'name'"), (None, "nil"), (True, "true")])
            if kk is None or isinstance(kk, (str, bool)):
                self.place("\x01 put(%s, %s)" % (t, 5), x)
            else:
                self.place("\x01 put(%d, 5)" % kk, x)
            b.v = Tab({key(i): (i, v) for i, v in enumerate(xs)})
            b.v.d[key(kk)] = (kk, 5)
            self.deep = True
        elif k == "assigned":
            # a second name for the rest of the history
            self.new(x, b)
            self.deep = True
        self.steps += 1

    # ------------------------------------------------------------ steps on tables
    def key(self, d=None):
        """a key: (key, text)"""
        c = self.c
        if d and c.bool(1, 2):
            k = c.pick(list(d.values()))[0]
            if isinstance(k, Box):
                ns = [n for n, b in self.vars if b is k]
                if ns:
                    return k, ns[0]
            else:
                return k, self.text(k)
        r = c.weighted([(6, 0), (2, 1), (4, 2), (1, 3), (1, 4), (1, 5)])
        if r == 0:
            k = c.n(-9, 40)
        elif r == 1:
            k = c.pick([0, 1, -1, (1 << 31) - 1, 1 << 31, 1 << 32, 1 << 33, (1 << 61) - 1, c.bits(60)]) + c.n(0, 1)
        elif r == 2:
            k = c.pick(["a", "b", "c1", "key", "", "é", "other", "k%d" % c.n(0, 60)])
        elif r == 3:
            k = c.bool()
        elif r == 4:
            k = None
        else:
            xs = [(n, b) for n, b in self.vars if b.tup]
            if xs:
                n, k = c.pick(xs)
                return k, n
            k = 77
        return k, self.text(k)

    def table_step(self, x, b):
        c, d = self.c, b.d
        k = c.weighted([(8, "put"), (6, "at"), (5, "remove"), (3, "length"), (3, "keys"), (2, "values"), (2, "clone"), (3, "each"), (2, "map"), (2, "filter"), (2, "slice"),
                        (3, "bulk"), (2, "drain"), (2, "probe"), (2, "same"), (2, "say"), (2, "kind"), (2, "names"), (1, "assigned")])
        def get(kk):
            return d[key(kk)][1] if key(kk) in d else None
        if k == "put":
            kk, t = self.key(d)
            if isinstance(kk, Box) and reaches(kk, b):
                return
            v, s = self.value(b)
            if c.bool(2, 3):
                self.place("\x01 put(%s, %s)" % (t, s), x)
            else:
                self.line("%s(%s) = %s" % (x, t, s))
            if isinstance(kk, Box):
                self.keep.append(kk)
                self.deep = True
            d[key(kk)] = (kk, v)
        elif k == "at":
            kk, t = self.key(d)
            self.read(c.pick(["\x01 at(%s)", "\x01(%s)"]) % t.replace("\x01", "a"), x, get(kk)) if "\x01" not in t else None
        elif k == "remove":
            kk, t = self.key(d)
            if "\x01" in t:
                return
            self.place("\x01 remove(%s)" % t, x)
            d.pop(key(kk), None)
        elif k == "length":
            self.read("\x01 length", x, len(d))
        elif k == "keys":
            ks = [kk for kk, v in d.values()]
            if all(isinstance(q, int) and not isinstance(q, bool) for q in ks):
                if len(ks) < 300:
                    self.say("%s keys sort(true)" % x, Box(Tup(sorted(ks))))
            elif all(isinstance(q, str) for q in ks) and len(ks) < 300:
                self.say("%s keys sort((p, q): p cmp(q).)" % x, Box(Tup(sorted(ks))))
            else:
                self.say("%s keys length" % x, len(d))
            if all(isinstance(q, int) and not isinstance(q, bool) for q in ks) is False:
                self.line("r = %s keys filter (q): q kind == Number." % x)
                self.say("r length", sum(isinstance(q, int) and not isinstance(q, bool) for q in ks))
        elif k == "values":
            vs = [v for kk, v in d.values()]
            if all(isinstance(q, int) and not isinstance(q, bool) for q in vs) and len(vs) < 300:
                self.say("%s values sort(true)" % x, Box(Tup(sorted(vs))))
            else:
                self.say("%s values length" % x, len(vs))
        elif k == "clone":
            self.new("%s %s" % (x, c.pick(["clone", "slice"])), Box(Tab(d)))
        elif k == "each":
            ns = [v for kk, v in d.values() if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 1 << 40]
            self.line("n = 0\ns = 0\n%s each (k, v):\n  n = n + 1\n  if (v kind == Number): if ((v * v) < %d): s = s + v..\n.\n(n, s) say" % (x, 1 << 59),
                      "(%d, %d)" % (len(d), sum(v for v in ns if v * v < 1 << 59)))
        elif k == "map":
            self.line("r = %s map (k): 1." % x)
            self.say("r reduce((p, q): p + q., 0)", len(d))
            ns = [(kk, v) for kk, v in d.values()]
            if all(isinstance(q, int) and not isinstance(q, bool) and abs(q) < 1 << 40 for kv in ns for q in kv) and len(ns) < 200:
                self.line("r = %s map (k, v): k * 3 + v." % x)
                self.say("r sort(true)", Box(Tup(sorted(kk * 3 + v for kk, v in ns))))
        elif k == "filter":
            ns = list(d.values())
            if all(isinstance(q, int) and not isinstance(q, bool) and abs(q) < 1 << 40 for kv in ns for q in kv):
                a = c.n(-3, 20)
                if c.bool(1, 3):
                    self.new("%s filter (k, v): if (k > %d): v. else: nil.." % (x, a), Box(Tab({key(kk): (kk, v) for kk, v in ns if kk > a})))
                elif c.bool():
                    self.new("%s filter (k): k > %d." % (x, a), Box(Tab({key(kk): (kk, v) for kk, v in ns if kk > a})))
                else:
                    self.new("%s filter (k, v): v > %d." % (x, a), Box(Tab({key(kk): (kk, v) for kk, v in ns if v > a})))
        elif k == "slice":
            ks = [self.key(d) for _ in range(c.small(0, 6))]
            if any("\x01" in t for kk, t in ks):
                return
            self.new("%s slice(%s)" % (x, "(%s)" % ", ".join(t for kk, t in ks)), Box(Tab({key(kk): d[key(kk)] for kk, t in ks if key(kk) in d})))
        elif k == "bulk":
            m = c.weighted([(4, c.n(2, 40)), (2, c.n(40, 300)), (1, c.n(300, 1500))])
            self.deep = True
            f = c.raw(3)
            a, s = c.n(-50, 60), c.pick([1, 1, 2, 3, 8, 64, 1 << 20])
            if f < 2:
                self.line("%d times (i): %s put(i * %d + %d, i)." % (m, x, s, a))
                for i in range(m):
                    d[key(i * s + a)] = (i * s + a, i)
            else:
                self.line("%d times (i): %s put(('k', i) join, i)." % (m, x))
                for i in range(m):
                    d[key("k%d" % i)] = ("k%d" % i, i)
        elif k == "drain":
            m = c.n(1, 60)
            self.deep = True
            f = c.raw(3)
            a, s = c.n(-50, 60), c.pick([1, 1, 2, 3, 8])
            if f < 2:
                self.line("%d times (i): %s remove(i * %d + %d)." % (m, x, s, a))
                for i in range(m):
                    d.pop(key(i * s + a), None)
            else:
                self.line("%d times (i): %s remove(('k', i) join)." % (m, x))
                for i in range(m):
                    d.pop(key("k%d" % i), None)
        elif k == "probe":
            ks = list(d.values())
            a = c.n(0, max(len(ks) - 12, 0))
            for kk, v in ks[a:a + 12]:
                if isinstance(kk, Box):
                    ns = [n for n, q in self.vars if q is kk]
                    if ns:
                        self.say("%s(%s)" % (x, ns[0]), v)
                else:
                    self.say("%s(%s)" % (x, self.text(kk)), v)
        elif k == "same":
            y, e = c.pick(self.vars)
            self.read("\x01 == %s" % y, x, b is e)
        elif k == "say":
            if printable(b):
                self.line("%s say" % x, show(b))
        elif k == "kind":
            self.read("\x01 kind == Table", x, True)
        elif k == "names":
            ks = [kk for kk, v in d.values() if isinstance(kk, str) and kk.isascii() and kk.isalnum() and printable(v)]
            if ks:
                kk = c.pick(ks)
                self.read('\x01["%s"]' % kk, x, get(kk))
        elif k == "assigned":
            self.new(x, b)
            self.deep = True
        self.steps += 1

    def garbage(self):
        n = self.c.pick([50, 400, 2000])
        self.line(self.c.pick(["%d times (i): ('garbage ', i) join.", "%d times (i): (i, (i, i)).", "%d times (i): (i=i)."]) % n)
        self.deep = True

    def run(self, steps):
        c = self.c
        self.make()
        for _ in range(steps):
            r = c.weighted([(2, "make"), (1, "garbage"), (24, "step")])
            if r == "make":
                self.make()
            elif r == "garbage":
                self.garbage()
            else:
                x, b = c.pick(self.vars)
                (self.tuple_step if b.tup else self.table_step)(x, b)
        for x, b in self.vars:
            if b.tup:
                if printable(b) and len(show(b)) < 6000:
                    self.line("%s say" % x, show(b))
                self.say("%s length" % x, len(b.xs))
            else:
                self.say("%s length" % x, len(b.d))
                for kk, v in list(b.d.values())[:20]:
                    if not isinstance(kk, Box):
                        self.say("%s(%s)" % (x, self.text(kk)), v)
        return {"src": "\n".join(self.src) + "\n", "exp": "".join(e + "\n" for e in self.exp), "nt": self.deep}


def pr(b):
    """what print writes for a collection inside of a tuple"""
    if b.tup:
        return "".join(pr(v) if isinstance(v, Box) else show(v) for v in b.xs)
    return show(b)
