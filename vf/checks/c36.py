"""A host program in C: what it stores through the C interface is what it and the language read back."""
from ..engine import Part
from .. import build, numsem, strs
from . import common, c14

ID = "C36"
RULE = ("histories of operations of the C interface (texts, numbers, tuples, tables, byte buffers, classes, objects, functions written in C, signatures, evaluated code on both back ends, weak references, raw data, "
        "explicit minor and full collections, and collections at generated allocations) run by an interpreter of scripts linked with the library, compared step by step with a Python model of the values; "
        "non-trivial: at least 15 operations, with a collection or evaluated code among them")
ASSUMPTIONS = ["values are kept where the collector finds them (on the host's stack below the address it gave), and stores into objects are followed by the write barrier, as the interface asks for",
               "functions written in C are called with all their arguments, or from evaluated code"]

NREG = 20


def prepare(paths):
    return {"std": build.harness(paths, "embed.c"), "gc": build.harness(build.build("gc"), "embed.c")}


def esc(s):
    b = s.encode() if isinstance(s, str) else bytes(s)
    return "".join(chr(x) if 48 <= x <= 57 or 65 <= x <= 90 or 97 <= x <= 122 or x in b"_:=|.&" else "%%%02X" % x for x in b) or "-"


class T(list):
    __hash__ = object.__hash__


class H:
    def __init__(self):
        self.d = {}


class B:
    def __init__(self, b):
        self.b = bytearray(b)


class Cls:
    def __init__(self, parent, ivars):
        self.parent, self.ivars, self.meth, self.meta = parent, ivars, {}, {}

    def find(self, m):
        k = self
        while k:
            if m in k.meth:
                return k.meth[m]
            k = k.parent


class Obj:
    def __init__(self, cls):
        self.cls, self.iv = cls, dict.fromkeys(cls.ivars)


class Fn:
    """a function in C: which of them, its parameters as (name, how, default)"""

    def __init__(self, kind, sig=()):
        self.kind, self.sig, self.kept = kind, sig, None


class Block:
    """a function of the language"""

    def __init__(self, form, v=None):
        self.form, self.v = form, v


class Data:
    def __init__(self, n, s):
        self.n, self.s = n, s


class Ref:
    def __init__(self, v):
        self.v = v


class Lobby:
    pass


LOBBY = Lobby()
LEAF = (int, float, str, bool, type(None))


def leaf(v):
    return isinstance(v, LEAF)


def show(v, d=0):
    """the text of a value; None if it has none the model knows"""
    if v is None:
        return "nil"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return numsem.fmt(v)
    if isinstance(v, str):
        return v
    if isinstance(v, B):
        return v.b.decode()
    if v is LOBBY:
        return "Lobby"
    if isinstance(v, T):
        if d > 3 or len(v) > 400:
            return None
        xs = [show(x, d + 1) for x in v]
        return None if None in xs else "(%s)" % ", ".join(xs)
    if isinstance(v, H):
        if d > 3 or len(v.d) > 1:
            return None
        xs = [(show(k[1], d + 1), show(x, d + 1)) for k, x in v.d.items()]
        return None if any(None in x for x in xs) else "(%s)" % ", ".join("%s=%s" % x for x in xs)
    return None


def key(v):
    if isinstance(v, (bool, type(None))):
        return ("c", v)
    if isinstance(v, int):
        return ("i", v)
    if isinstance(v, str):
        return ("s", v)
    return ("o", id(v))


class World:
    def __init__(self, c):
        self.c = c
        self.r = [None] * NREG
        self.out = []       # script
        self.exp = []
        self.glob = {}
        self.names = 0
        self.tags = set()
        self.ext = {"N": {}, "S": {}, "T": {}}

    def op(self, *a):
        self.out.append(" ".join(str(x) for x in a))

    def pick(self, *kinds):
        """a register that holds a value of such a kind"""
        xs = [i for i, v in enumerate(self.r) if isinstance(v, kinds) and not (isinstance(v, bool) and int in kinds and bool not in kinds)]
        return self.c.pick(xs) if xs else None

    def any(self):
        """a register; not one with a weak reference, which the language follows wherever it reads it"""
        return self.c.pick([i for i, v in enumerate(self.r) if not isinstance(v, Ref)] or [self.clear()])

    def clear(self):
        self.op("const", 0, "nil")
        self.r[0] = None
        return 0

    def d(self):
        return self.c.n(0, NREG - 1)

    def text(self):
        c = self.c
        return c.weighted([(4, strs.text(c, 8)), (1, c.pick(["", "length", "string", "x" * 300, "ö" * 40, "y" * c.n(4090, 9000)])), (1, "t%d" % c.n(0, 30))]).replace("\0", "0")

    def value(self):
        """an operation that makes a value"""
        c, d = self.c, self.d()
        k = c.raw(9)
        if k < 2:
            s = self.text()
            if c.bool():
                self.op("str", d, esc(s))
            else:
                self.op("strn", d, esc(s))
            self.r[d] = s
        elif k == 2:
            a, b = self.text(), self.text()
            self.op("cat", d, esc(a), esc(b))
            self.r[d] = a + b
        elif k == 3:
            n = c.weighted([(3, c.n(-20, 20)), (1, c.pick([2**62 - 1, -2**62, 2**31, -2**31, 2**32 - 1]))])
            self.op("num", d, n)
            self.r[d] = n
        elif k == 4:
            x = c.pick([0.5, -2.25, 1e10, 3.0, 1 / 3, -0.001, 123456.789])
            if c.bool():
                self.op("dbl", d, repr(x))
            else:
                self.op("strtod", d, esc(repr(x)))
            self.r[d] = x
        elif k == 5:
            v = c.pick([None, True, False])
            self.op("const", d, {None: "nil", True: "true", False: "false"}[v])
            self.r[d] = v
        elif k == 6:
            a, b = c.pick(["ab", "", "ж"]), self.text()
            n, x = c.n(-99, 99), c.pick([0.5, 2.25, -1.0])
            self.op("fmt", d, esc(a), n, x, esc(b))
            self.r[d] = "%s|%d|%5.2f|%s|%s" % (a, n, x, "x" if a else "y", b)
        elif k == 7:
            a = self.any()
            self.op("dup", d, a)
            self.r[d] = self.r[a]
        else:
            s = self.text()
            o = c.pick(["bytes", "bstr", "bstr2"])
            self.op(o, d, esc(s))
            self.r[d] = B(s.encode())

    def tuples(self):
        c = self.c
        t = self.pick(T)
        k = c.raw(14)
        if t is None or k == 0:
            d = self.d()
            k = c.raw(4)
            if k == 0:
                self.op("tup0", d)
                self.r[d] = T()
            elif k == 1:
                a = self.any()
                self.op("tup1", d, a)
                self.r[d] = T([self.r[a]])
            elif k == 2:
                xs = [self.any() for _ in range(c.n(1, 12))]
                self.op("tupn", d, len(xs), *xs)
                self.r[d] = T([self.r[x] for x in xs])
            else:
                n = c.weighted([(3, c.n(1, 20)), (1, c.n(20, 300))])
                self.op("big", d, n)
                self.r[d] = T(["e%d" % i for i in range(n)])
            return
        v = self.r[t]
        a = self.any()
        if k < 4:
            for _ in range(c.n(1, 5)):
                self.op("push", t, a)
                v.append(self.r[a])
        elif k == 4:
            x = self.r[a]
            if isinstance(x, LEAF + (Obj, Fn, Data)) and not isinstance(x, float):
                same = [i for i, y in enumerate(v) if self.same(x, y)]
                self.op("unless", t, a)
                if not same:
                    v.append(x)
                self.exp.append(str(same[0] if same else len(v) - 1))
        elif k == 5:
            x = self.r[a]
            if isinstance(x, LEAF + (Obj, Fn, Data)) and not isinstance(x, float):
                same = [i for i, y in enumerate(v) if self.same(x, y)]
                self.op("find", t, a)
                self.exp.append(str(same[0] if same else -1))
        elif k == 6:
            d = self.d()
            self.op("shift", d, t)
            self.r[d] = v.pop(0) if v else None
        elif k == 7 and v:
            d, i = self.d(), c.n(0, len(v) - 1)
            self.op("get", d, t, i)
            self.r[d] = v[i]
        elif k == 8:
            d, i = self.d(), c.n(-len(v) - 2, len(v) + 2)
            self.op("at", d, t, i)
            self.r[d] = v[i] if -len(v) <= i < len(v) else None
        elif k in (9, 10) and v:
            i = c.n(0, len(v) - 1)
            self.op("set", t, i, a)
            v[i] = self.r[a]
        elif k == 11:
            self.op("len", t)
            self.exp.append("%d %d" % (len(v), not v))
        elif k == 12:
            if len(v) < 30 and all(show(x) is not None and "\n" not in show(x) for x in v):
                self.op("each", t)
                self.exp += ["%d %s" % (i, show(x)) for i, x in enumerate(v)]

    @staticmethod
    def same(x, y):
        if isinstance(x, LEAF) and isinstance(y, LEAF):
            return not isinstance(y, float) and type(x) is type(y) and x == y
        return x is y

    def tables(self):
        c = self.c
        t = self.pick(H)
        k = c.raw(7)
        if t is None or k == 0:
            d = self.d()
            self.op("tab", d)
            self.r[d] = H()
            return
        v = self.r[t]
        kr = self.pick(str, int) if c.bool(4, 5) else self.pick(T, H, Obj, bool)
        if kr is None:
            return
        kv = self.r[kr]
        if k < 5:
            a = self.any()
            self.op(c.pick(["put", "tput"]), t, kr, a)
            v.d[key(kv)] = (kv, self.r[a])
        else:
            d = self.d()
            self.op("tat", d, t, kr)
            self.r[d] = v.d.get(key(kv), (None, None))[1]

    def bytes_(self):
        c = self.c
        b = self.pick(B)
        if b is None:
            return self.value()
        v = self.r[b]
        k = c.raw(6)
        if k == 0:
            a = self.pick(str, B)
            if a is not None and len(v.b) < 20000:
                x = self.r[a]
                self.op("app", b, a)
                v.b += bytes(x.b) if isinstance(x, B) else x.encode()
        elif k == 1:
            s, n = self.text(), c.n(-3, 40000)
            self.op("printf", b, esc(s), n)
            v.b += ("<%s %d %05d %x>" % (s, n, n, n & 0xffff)).encode()
        elif k == 2:
            a = self.pick(int, float, str, bool, T)
            if a is not None and show(self.r[a]) is not None:
                self.op("objstr", b, a)
                v.b += show(self.r[a]).encode()
        elif k == 3:
            d = self.d()
            self.op("tostr", d, b)
            self.r[d] = v.b.decode()
        else:
            self.op("raw", b)
            self.exp.append("%d %s" % (len(v.b), v.b.decode()))

    # classes and objects
    IVS = ["a", "b", "c", "name", "kж", "x1"]

    def classes(self):
        c = self.c
        k = c.raw(8)
        o, cl = self.pick(Obj), self.pick(Cls)
        if cl is None or k == 0:
            d = self.d()
            p = self.pick(Cls) if c.bool() else None
            ivs = c.shuffle(self.IVS)[:c.n(0, 5)]
            par = self.r[p] if p is not None else None
            self.op("class", d, -1 if p is None else p, *[esc(x) for x in ivs])
            self.r[d] = Cls(par, list(dict.fromkeys(ivs + (par.ivars if par else []))))
            return
        if o is None or k == 1:
            d = self.d()
            self.op("new", d, cl)
            self.r[d] = Obj(self.r[cl])
            return
        v = self.r[o]
        if k < 4:
            a = self.any()
            n = c.pick(v.cls.ivars or self.IVS)
            self.op("iset", o, esc(n), a)
            if n in v.iv:
                v.iv[n] = self.r[a]
        elif k < 6:
            d = self.d()
            n = c.pick((v.cls.ivars or self.IVS) + [c.pick(self.IVS)])
            self.op("iget", d, o, esc(n))
            self.r[d] = v.iv.get(n)
        elif k == 6:
            # methods in C
            f = self.fn(c.pick([0, 0, 1, 4]))
            m = c.pick(["foo", "bar", "baz"])
            if c.bool(1, 4):
                w = c.pick("NST")
                d = self.d()
                self.op("vtab", d, w)
                self.r[d] = None
                self.op("meth", d, m, f.kind, esc(self.sig(f)))
                self.op("const", d, "nil")
                self.ext[w][m] = f
            else:
                self.op("meth", cl, m, f.kind, esc(self.sig(f)))
                self.r[cl].meth[m] = f
        else:
            m = c.pick(["foo", "bar", "baz"])
            a = self.pick(Obj, int, str, T)
            x = self.r[a]
            f = x.cls.find(m) if isinstance(x, Obj) else self.ext["N" if isinstance(x, int) else "S" if isinstance(x, str) else "T"].get(m)
            if f is None or isinstance(x, bool):
                return
            args = [self.any() for _ in f.sig]
            d = self.d()
            self.op("send", d, a, m, *args)
            self.r[d] = self.run(f, x, [self.r[i] for i in args])

    # functions
    def fn(self, kind):
        c = self.c
        n = c.n(0, 3) if kind == 0 else {1: 1, 2: 2, 3: 1, 4: 0}[kind]
        sig = []
        opt = False
        for i in range(n):
            how = c.weighted([(3, "o"), (1, "N"), (1, ""), (1, "default"), (1, "|")]) if kind == 0 else "o"
            if opt and how in ("|",):
                how = "o"
            if how == "|" and i and sig[-1][1] == "default":
                how = "default"
            opt = opt or how == "|"
            sig.append(("abc"[i], how, c.n(0, 99) if how == "default" else None))
        return Fn(kind, sig)

    def sig(self, f):
        t = ""
        for i, (n, how, d) in enumerate(f.sig):
            t += "|" if how == "|" else "," if i else ""
            t += n + (":=%d" % d if how == "default" else "=" + how if how in ("o", "N") else "")
        return t

    def run(self, f, me, args):
        """the value of a call of a function in C"""
        if f.kind == 0:
            return T([me] + args)
        if f.kind == 1:
            return T([7, me, args[0]])
        if f.kind == 2:
            return T([self.block(args[0], [args[1], i]) for i in range(3)])
        if f.kind == 3:
            old, f.kept = f.kept, args[0]
            return old
        return me

    def block(self, b, args):
        if isinstance(b, Fn):
            return self.run(b, LOBBY, (args + [None] * 3)[:len(b.sig)])
        if b.form == "pair":
            return T([args[0], args[1]])
        if isinstance(b.form, int):
            return T(args)
        if b.form == "first":
            return args[0]
        return T([args[0], b.v])

    def stated(self):
        """a call of the bytecode from C, which says how many arguments it gives: the others take their defaults"""
        c = self.c
        opts = c.bool()
        must, may = c.n(1 if opts else 0, 2), c.n(1, 2)
        sig, dflt = ", ".join("p%d" % i + c.pick(["", "=N"]) for i in range(must)), []
        for i in range(must, must + may):
            if opts:
                sig += ("|" if must == i else ", ") + "p%d=N" % i
                dflt.append(0)
            else:
                dflt.append(c.n(0, 99))
                sig += (", " if i else "") + "p%d:=%d" % (i, dflt[-1])
        d, e = self.d(), self.d()
        if d == e:
            return
        self.op("jit", 0)
        self.op("eval", d, esc("(%s): (%s)." % (sig, ", ".join("p%d" % i for i in range(must + may)))))
        self.r[d] = None
        n = c.n(max(1, must), must + may)
        args = [c.pick([i for i, v in enumerate(self.r) if not isinstance(v, Ref) and i != d]) for _ in range(4)]
        vals = [self.r[a] for a in args]
        self.op("ncall", e, d, n, *args)
        self.r[e] = T(vals[:n] + dflt[n - must:])
        self.op("const", d, "n")
        self.tags.add("stated")

    def functions(self):
        c = self.c
        f = self.pick(Fn, Block)
        k = c.raw(7)
        if k == 6:
            self.stated()
            return
        if f is None or k == 0:
            d = self.d()
            if c.bool(1, 4):
                a = self.any()
                self.op("keep", d, a)
                x = Fn(3, [("a", "o", None)])
                x.kept = self.r[a]
            else:
                x = self.fn(c.pick([0, 0, 1, 2, 4]))
                self.op("func", d, x.kind, esc(self.sig(x)) if x.sig else "-")
            self.r[d] = x
            return
        if k == 1:
            d = self.d()
            form = c.pick(["pair", "first", "mine", c.n(1, 14)])
            g = self.any() if form == "mine" else None
            if g is not None:
                if not self.plain(g):
                    return
                n = self.name(g)
            self.jit()
            ps = ", ".join("p%d" % i for i in range(form if form in range(15) else 0))
            self.op("eval", d, esc({form: "(%s): (%s)." % (ps, ps), "pair": "(x, y): (x, y).", "first": "(x, y): x.", "mine": "q = %s\n(x, y): (x, q)." % (n if g is not None else "")}[form]))
            self.r[d] = Block(form, self.r[g] if g is not None else None)
            return
        v = self.r[f]
        n = len(v.sig) if isinstance(v, Fn) else v.form if isinstance(v.form, int) else 2
        args = [self.any() for _ in range(n)]
        if isinstance(v, Fn) and v.kind == 2:
            # the first argument is called
            b = self.pick(Block)
            if b is None or isinstance(self.r[b].form, int):
                return
            args[0] = b
        d = self.d()
        if k < 4:
            self.op(c.pick(["call", "pcall"]) if n < 4 else "pcall", d, f, *args)
            me = LOBBY
            self.r[d] = self.block(v, [self.r[i] for i in args]) if isinstance(v, Block) else self.run(v, me, [self.r[i] for i in args])
        elif self.plain(*args):
            ns = [self.name(a) for a in args]
            g = self.name(f)
            if isinstance(v, Fn) and v.kind == 0 and n:
                # leave some out
                least = n
                for i, (nm, how, df) in enumerate(v.sig):
                    if how in ("default", "|"):
                        least = i
                        break
                m = c.n(max(1, least), n)
            else:
                m = n
            if m:
                self.jit()
                self.op("eval", d, esc("%s(%s)" % (g, ", ".join(ns[:m]))))
                vs = [self.r[i] for i in args[:m]]
                for nm, how, df in v.sig[m:] if isinstance(v, Fn) else []:
                    vs.append(df if how == "default" else 0 if how == "N" else None)
                self.r[d] = self.block(v, vs) if isinstance(v, Block) else self.run(v, LOBBY, vs)

    def plain(self, *regs):
        """whether the language can name these values without calling or renaming them"""
        return not any(isinstance(self.r[a], (Fn, Block, Lobby)) for a in regs)

    def name(self, a):
        """a global of the language which holds the value of a register"""
        n = "G%d" % self.names
        self.names = (self.names + 1) % 40
        self.op("glob", n, a)
        return n

    def jit(self):
        if self.c.bool(1, 3):
            self.op("jit", self.c.n(0, 1))

    def evaluate(self):
        c = self.c
        d = self.d()
        k = c.raw(8)
        self.tags.add("eval")
        self.jit()
        if k == 0:
            a = self.pick(T)
            x = self.any()
            if a is not None and self.plain(x):
                n, m = self.name(a), self.name(x)
                self.op("eval", d, esc("%s push(%s)" % (n, m)))
                self.r[a].append(self.r[x])
                self.r[d] = self.r[a]
        elif k == 1:
            a = self.pick(T)
            if a is not None:
                v = self.r[a]
                i = c.n(0, len(v) + 1)
                self.op("eval", d, esc("%s at(%d)" % (self.name(a), i)))
                self.r[d] = v[i] if i < len(v) else None
        elif k == 2:
            a, b = self.any(), self.any()
            if self.plain(a, b):
                n, m = self.name(a), self.name(b)
                self.op("eval", d, esc("x = %s\n(x, %s, 'end')" % (n, m)))
                self.r[d] = T([self.r[a], self.r[b], "end"])
        elif k == 3:
            a, b = self.pick(int), self.pick(int)
            if a is not None and abs(self.r[a]) < 1 << 60 and abs(self.r[b]) < 1 << 60:
                n, m = self.name(a), self.name(b)
                self.op("eval", d, esc("%s + %s" % (n, m)))
                self.r[d] = self.r[a] + self.r[b]
        elif k == 4:
            a, b = self.pick(H), self.pick(str, int)
            x = self.any()
            if a is not None and b is not None and self.plain(x):
                n, m, o = self.name(a), self.name(b), self.name(x)
                self.op("eval", d, esc("%s put(%s, %s)" % (n, m, o)))
                self.r[a].d[key(self.r[b])] = (self.r[b], self.r[x])
                self.r[d] = self.r[a]
        elif k == 5:
            a = self.pick(Obj)
            if a is not None and self.r[a].cls.ivars:
                v = c.pick([x for x in self.r[a].cls.ivars])
                n = self.name(a)
                x = self.any()
                if c.bool() or not self.plain(x):
                    self.op("eval", d, esc("x = %s\nx /%s" % (n, v)))
                    self.r[d] = self.r[a].iv[v]
                else:
                    m = self.name(x)
                    self.op("eval", d, esc("x = %s\nx /%s = %s\nx /%s" % (n, v, m, v)))
                    self.r[a].iv[v] = self.r[x]
                    self.r[d] = self.r[x]
        elif k == 6:
            a = self.pick(Cls)
            if a is not None:
                self.op("eval", d, esc("%s()" % self.name(a)))
                self.r[d] = Obj(self.r[a])
        else:
            s = self.text()
            self.op("eval", d, esc(strs.literal(c, s)))
            self.r[d] = s

    def signature(self):
        c = self.c
        names = c.shuffle(["x", "y", "z", "abc", "q1"])[:c.n(1, 5)]
        t, least, opt, bar = "", 0, False, c.n(0, len(names) - 1) if c.bool(1, 3) else None
        for i, n in enumerate(names):
            if bar == i:
                t, opt = t + "|", True
            elif i:
                t += ","
            k = c.raw(4)
            t += n
            if k == 0:
                t += "=" + c.pick("NSouT")
            elif k == 1 and bar != i + 1:
                t += ":=" + c.pick(["5", "46", "58", "124", "nil", "true"])
                opt = True
            if not opt:
                least += 1
        self.op("sig", esc(t))
        self.exp.append("%d %d %s %s" % (len(names), least, t, " ".join("%s=%d" % (n, i) for i, n in enumerate(names))))

    def rest(self):
        c = self.c
        k = c.raw(5)
        d = self.d()
        if k == 0:
            n, s = c.n(1, 400), c.n(0, 99)
            self.op("data", d, n, s)
            self.r[d] = Data(n, s)
        elif k == 1:
            a = self.pick(Data)
            if a is not None:
                v = self.r[a]
                self.op("dcheck", a, v.n, v.s)
                self.exp.append("%d 0" % v.n)
        elif k == 2:
            a = self.any()
            if not isinstance(self.r[a], Ref):
                self.op("ref", d, a)
                self.r[d] = Ref(self.r[a])
        elif k == 3:
            a = self.pick(Ref)
            if a is not None:
                self.op("deref", d, a)
                self.r[d] = self.r[a].v
        else:
            self.signature()

    def look(self):
        c = self.c
        a = self.any()
        v = self.r[a]
        k = c.raw(5)
        if k == 0:
            b = self.any()
            if not isinstance(v, float) and not isinstance(self.r[b], float):
                self.op("eq", a, b)
                self.exp.append("%d" % self.same(v, self.r[b]))
        elif k == 1:
            if not isinstance(v, Ref):
                ptr = not (v is None or isinstance(v, (bool, int)))
                self.op("is", a)
                self.exp.append("%d%d%d%d%d%d%d%d%d %s" % (ptr, v is None, isinstance(v, bool), isinstance(v, int) and not isinstance(v, bool), isinstance(v, float), isinstance(v, T),
                                                          isinstance(v, str), isinstance(v, H), isinstance(v, (Fn, Block)), "f" if v is None or v is False else "t"))
        elif k == 2 and isinstance(v, int) and not isinstance(v, bool):
            self.op("int", a)
            self.exp.append(str(v))
        elif k == 3 and isinstance(v, float):
            self.op("val", a)
            self.exp.append("%.17g" % v)
        else:
            s = show(v)
            if s is not None:
                self.op("show", a)
                self.exp.append(s)

    def collect(self):
        c = self.c
        k = c.raw(3)
        self.tags.add("gc")
        if k == 2:
            self.op("junk", c.weighted([(3, c.n(1, 200)), (1, c.n(200, 4000))]))
        else:
            self.op("gc", k)

    def run_all(self):
        c = self.c
        for _ in range(c.weighted([(2, c.n(5, 20)), (3, c.n(20, 120))])):
            f = c.weighted([(5, self.value), (5, self.tuples), (3, self.tables), (2, self.bytes_), (4, self.classes), (4, self.functions), (4, self.evaluate), (2, self.rest), (4, self.look), (3, self.collect)])
            f()
        for a in range(NREG):
            s = show(self.r[a])
            if s is not None:
                self.op("show", a)
                self.exp.append(s)


def gen(c):
    w = World(c)
    w.run_all()
    for t in w.tags:
        c.tag(t)
    k = {"script": w.out, "exp": w.exp + ["end"], "nt": len(w.out) > 15 and bool(w.tags)}
    if c.bool(1, 3):
        k["sched"] = c14.schedule(c)
    return k


def check(ctx, case):
    sched = case.get("sched")
    for h in ("std", "gc") if sched else ("std",):
        r = ctx.run([ctx.extra[h]], stdin=("\n".join(case["script"]) + "\n").encode(), env={"POTION_GC_SCHEDULE": sched} if h == "gc" else None)
        e = common.diff("".join(x + "\n" for x in case["exp"]), r, "host program" + (" collecting at " + sched if h == "gc" else ""))
        if e:
            return e + " (stderr %r)" % r.err[-300:].decode("utf-8", "replace")
    return None


PARTS = [Part("host programs", gen, check, 9000, 300000, nontrivial=lambda k: k["nt"], show=lambda k: {"script": k["script"][-40:], "expected": k["exp"][-20:]})]
