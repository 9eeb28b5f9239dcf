"""Objects: instance variables, constructors, methods, inheritance, redefinition, class methods, extended built-in kinds."""
from ..engine import Part
from . import common

ID = "C08"
RULE = ("histories of class definitions (inheriting, with and without constructor), method definitions and redefinitions, object creation, calls, reads and "
        "writes of instance variables, queries and kind tests are run against a Python object model, on both back ends; "
        "non-trivial: at least two classes or a redefinition, and at least three calls")
ASSUMPTIONS = ["instance variables a class does not have are only read (nil), not written", "class variables are not part of the language"]

BUILTIN = [("Number", ["7", "0", "0 - 3"], [7, 0, -3]), ("String", ["'ab'", "''"], ["ab", ""]), ("Tuple", ["(1, 2)", "()"], ["(1, 2)", "()"]),
           ("Boolean", ["true", "false"], ["true", "false"])]


class Skip(Exception):
    pass


class Cls:
    def __init__(self, name, parent):
        self.name, self.parent = name, parent
        self.ivars = list(parent.ivars) if parent else []
        self.ctor = parent.ctor if parent else None
        self.methods, self.meta = {}, {}
        self.kids = 0

    def find(self, m, root):
        c = self
        while c:
            if m in c.methods:
                return c.methods[m]
            c = c.parent
        return root.get(m)

    def isa(self, k):
        c = self
        while c:
            if c is k:
                return True
            c = c.parent
        return False


class Obj:
    def __init__(self, cls):
        self.cls, self.iv = cls, {v: None for v in cls.ivars}


class World:
    def __init__(self, c):
        self.c = c
        self.root = {}      # methods of Object
        self.classes, self.objs = [], []
        self.fuel = 400

    # expressions: ints only; a nil operand makes the case outside the model
    def expr(self, ivs, ps, d=2):
        c = self.c
        k = c.raw(4) if d else c.raw(3)
        if k == 0 and ps:
            return ("p", c.pick(ps))
        if k == 1 and ivs:
            return ("iv", c.pick(ivs))
        if k == 3:
            return (c.pick("+-*"), self.expr(ivs, ps, d - 1), self.expr(ivs, ps, d - 1))
        return ("n", c.n(0, 50))

    def text(self, e, lvl=0):
        if e[0] == "n":
            return str(e[1])
        if e[0] == "p":
            return e[1]
        if e[0] == "iv":
            return "/" + e[1]
        l = 2 if e[0] == "*" else 1
        s = "%s %s %s" % (self.text(e[1], l), e[0], self.text(e[2], l + 1))
        return "(%s)" % s if l < lvl else s

    def val(self, e, obj, env):
        if e[0] == "n":
            return e[1]
        if e[0] == "p":
            v = env[e[1]]
        elif e[0] == "iv":
            v = obj.iv.get(e[1]) if isinstance(obj, Obj) else None
        else:
            a, b = self.val(e[1], obj, env), self.val(e[2], obj, env)
            v = a + b if e[0] == "+" else a - b if e[0] == "-" else a * b
        if not isinstance(v, int) or isinstance(v, bool) or abs(v) > 1 << 55:
            raise Skip()
        return v

    def show(self, v):
        if v is None:
            return "nil"
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, Obj):
            s = self.send(v, "string", [], quiet=True)
            if s is Skip:
                raise Skip()
            return self.show(s)
        if isinstance(v, tuple):
            return "(%s)" % ", ".join(self.show(x) for x in v)
        return str(v)

    def new(self, cls, args):
        o = Obj(cls)
        if cls.ctor:
            ps, asg = cls.ctor
            if len(args) != len(ps):
                raise Skip()
            env = dict(zip(ps, args))
            for iv, e in asg:
                o.iv[iv] = self.val(e, o, env) if e[0] != "raw" else env[e[1]]
        elif args:
            raise Skip()
        return o

    def find(self, o, m):
        if isinstance(o, Obj):
            return o.cls.find(m, self.root)
        k = "Number" if isinstance(o, int) and not isinstance(o, bool) else None
        if isinstance(o, tuple) and o and o[0] == "__b":
            k = o[1]
        if k and (k, m) in self.root:
            return self.root[(k, m)]
        return self.root.get(m)

    def send(self, o, m, args, quiet=False):
        self.fuel -= 1
        if self.fuel < 0:
            raise Skip()
        f = self.find(o, m)
        if f is None:
            if quiet:
                return Skip
            raise Skip()
        return self.apply(f, o, args)

    def apply(self, f, o, args):
        k = f["k"]
        if k == "value":
            if args:
                raise Skip()
            return f["v"]
        if len(args) != len(f["ps"]):
            raise Skip()
        env = dict(zip(f["ps"], args))
        if k == "expr":
            return self.val(f["e"], o, env)
        if k == "set":
            if not isinstance(o, Obj) or any(iv not in o.iv for iv, e in f["as"]):
                raise Skip()
            for iv, e in f["as"]:
                o.iv[iv] = self.val(e, o, env)
            return o
        if k == "tuple":
            return tuple(o.iv.get(v) for v in f["vs"])
        if k == "send":
            r = self.send(o, f["m"], [self.val(e, o, env) for e in f["args"]])
            if not isinstance(r, int) or isinstance(r, bool):
                raise Skip()
            return r + f["n"]
        if k == "peer":
            p = env[f["ps"][0]]
            r = self.send(p, f["m"], [])
            s = self.val(f["e"], o, env)
            if not isinstance(r, int) or isinstance(r, bool):
                raise Skip()
            return r - s
        if k == "rec":
            n = env["p0"]
            if not isinstance(n, int) or n > 12:
                raise Skip()
            r = self.val(f["e"], o, env) if n < 1 else None
            if r is None:
                r = self.send(o, f["m"], [n - 1])
                if not isinstance(r, int) or isinstance(r, bool):
                    raise Skip()
                r += 1
            if abs(r) > 1 << 55:
                raise Skip()
            return r
        if k == "each":
            if not isinstance(o, Obj) or f["iv"] not in o.iv:
                raise Skip()
            for x in f["xs"]:
                v = o.iv[f["iv"]]
                if not isinstance(v, int):
                    raise Skip()
                o.iv[f["iv"]] = v + x
            return o.iv[f["iv"]]
        if k == "new":
            return self.new(f["cls"], [self.val(e, o, env) for e in f["args"]])
        if k == "str":
            return "".join(self.show(self.val(e, o, env)) if e[0] != "s" else e[1] for e in f["parts"])
        raise AssertionError(k)

    def method(self, cls_ivars, name):
        c = self.c
        ivs = cls_ivars
        ps = ["p%d" % i for i in range(c.small(0, 3))]
        sig = "(%s)" % ", ".join(ps)
        k = c.pick(["expr", "expr", "set", "tuple", "send", "send", "peer", "rec", "each", "new", "value"])
        if k in ("set", "each", "tuple") and not ivs:
            k = "expr"
        if k == "new" and not self.classes:
            k = "value"
        if k == "value":
            v, s = c.pick([(12, "12"), ("const", "'const'"), (True, "true"), (None, "nil"), (-1, "-1")])
            return {"k": k, "ps": [], "v": v}, s
        if k == "expr":
            e = self.expr(ivs, ps)
            return {"k": k, "ps": ps, "e": e}, "%s: %s." % (sig, self.text(e))
        if k == "set":
            a = [(c.pick(ivs), self.expr(ivs, ps)) for _ in range(c.n(1, 2))]
            sep = c.pick([", ", "\n  "])
            return {"k": k, "ps": ps, "as": a}, "%s: %s%sself." % (sig, sep.join("/%s = %s" % (v, self.text(e)) for v, e in a), sep)
        if k == "tuple":
            vs = [c.pick(ivs) for _ in range(c.n(1, 4))]
            return {"k": k, "ps": ps, "vs": vs}, "%s: (%s)." % (sig, ", ".join("/" + v for v in vs))
        if k == "send":
            m = self.mname()
            args = [self.expr(ivs, ps, 1) for _ in range(c.small(0, 2))]
            n = c.n(0, 9)
            call = m + ("(%s)" % ", ".join(self.text(e) for e in args) if args else "")
            return {"k": k, "ps": ps, "m": m, "args": args, "n": n}, "%s: %s%s + %d." % (sig, c.pick(["self ", ""]), call, n)
        if k == "peer":
            m = self.mname()
            ps = ps or ["p0"]
            e = self.expr(ivs, ps[1:], 1)
            return {"k": k, "ps": ps, "m": m, "e": e}, "(%s): p0 %s%s - %s." % (", ".join(ps), m, "", self.text(e, 2))
        if k == "rec":
            e = self.expr(ivs, [], 1)
            return {"k": k, "ps": ["p0"], "m": name, "e": e}, "(p0): if (p0 < 1): %s. else: self %s(p0 - 1) + 1.." % (self.text(e), name)
        if k == "each":
            iv = c.pick(ivs)
            xs = [c.n(0, 9) for _ in range(c.n(1, 3))]
            return {"k": k, "ps": [], "iv": iv, "xs": xs}, "():\n  me = self\n  (%s) each (v): me /%s = me /%s + v.\n  /%s." % (", ".join(map(str, xs)), iv, iv, iv)
        if k == "new":
            cls = c.pick(self.classes)
            n = len(cls.ctor[0]) if cls.ctor else 0
            args = [self.expr(ivs, ps, 1) for _ in range(n)]
            return {"k": k, "ps": ps, "cls": cls, "args": args}, "%s: %s(%s)." % (sig, cls.name, ", ".join(self.text(e) for e in args))

    def mname(self):
        return self.c.pick(["ma", "mb", "mc", "md", "size", "length", "name", "add", "m_1", "a_rather_long_method_name_of_more_than_a_few_words", "at", "first", "remove"])


IVS = ["x", "y", "z", "left", "size", "ma", "an_instance_variable_with_a_long_name", "w1", "w2", "w3", "w4", "w5", "w6", "w7"]


def gen(c):
    w = World(c)
    src, exp = [], []
    calls = redefs = 0
    inside = c.bool(1, 5)
    nobj = 0

    deep = c.bool(1, 6)         # a long line of classes

    def defclass():
        par = w.classes[-1] if deep and w.classes and c.bool(9, 10) else (w.classes[-1] if c.bool() else c.pick(w.classes)) if w.classes and c.bool(3, 4) else None
        i = len(w.classes)
        # a capital makes a global; its class then has a name
        k = Cls(("k%d" if inside or c.bool(1, 3) else "K%d") % i, par)
        head = "%s = %sclass" % (k.name, par.name + " " if par else "")
        if par and c.bool(1, 4):
            src.append(head)
        else:
            ps = ["p%d" % j for j in range(c.small(0, 4))]
            asg = []
            known = []
            for _ in range(c.n(1, 12 if c.bool(1, 8) else 5)):
                iv = c.pick(IVS)
                e = w.expr(known, ps, 2) if c.bool(2, 3) or not ps else ("raw", c.pick(ps))
                asg.append((iv, e))
                if e[0] != "raw":
                    known.append(iv)
                for v in [iv]:
                    if v not in k.ivars:
                        k.ivars.append(v)
            k.ctor = (ps, asg)
            sep = c.pick([", ", "\n  "])
            src.append("%s (%s): %s." % (head, ", ".join(ps), sep.join("/%s = %s" % (v, e[1] if e[0] == "raw" else w.text(e)) for v, e in asg)))
        w.classes.append(k)

    def build(cls):
        n = len(cls.ctor[0]) if cls.ctor else 0
        args, txt = [], []
        for _ in range(n):
            if w.objs and c.bool(1, 6):
                nm, o = c.pick(w.objs)
                args.append(o)
                txt.append(nm)
            elif c.bool(1, 10):
                args.append("s t")
                txt.append("'s t'")
            else:
                v = c.n(0, 90)
                args.append(v)
                txt.append(str(v))
        return args, "%s(%s)" % (cls.name, ", ".join(txt))

    for _ in range(c.n(3, 9) if deep else 1):
        defclass()
    for _ in range(c.n(6, 40)):
        k = c.weighted([(2, "class"), (6, "method"), (4, "object"), (10, "call"), (2, "chain"), (3, "read"), (3, "write"), (2, "query"), (2, "kind"), (1, "alias"),
                        (1, "meta"), (2, "builtin"), (1, "string"), (2, "hold"), (1, "can"), (1 if c.bool(1, 10) else 0, "many"), (1, "unknown")])
        w.fuel = 400
        try:
            if k == "class" and len(w.classes) < 12:
                for _ in range(c.n(1, 6) if deep else 1):
                    defclass()
            elif k == "method":
                cls = c.pick(w.classes)
                name = w.mname()
                f, t = w.method(cls.ivars, name)
                if f["k"] == "new" and f["cls"].name.islower() and not inside and False:
                    continue
                if name in cls.methods:
                    redefs += 1
                form = c.raw(8)
                if form == 0:
                    src.append("%s def('%s', %s)" % (cls.name, name, t))
                else:
                    src.append("%s %s = %s" % (cls.name, name, t))
                cls.methods[name] = f
            elif k == "object":
                cls = c.pick(w.classes)
                args, t = build(cls)
                o = w.new(cls, args)
                nm = "o%d" % nobj
                nobj += 1
                src.append("%s = %s" % (nm, t))
                w.objs.append((nm, o))
            elif k in ("call", "chain", "hold", "query") and w.objs:
                nm, o = c.pick(w.objs)
                names = [m for m in o.cls.methods] + [m for m in (o.cls.parent.methods if o.cls.parent else [])] + [w.mname()]
                m = c.pick(names)
                f = w.find(o, m)
                if f is None:
                    continue
                # a failing evaluation must not leave its effects in the model
                saved = [(x, dict(x.iv)) for x in reach(w.objs)]
                args, txt = [], []
                for j in range(len(f["ps"])):
                    if f["k"] == "peer" and j == 0:
                        n2, o2 = c.pick(w.objs)
                        args.append(o2)
                        txt.append(n2)
                    else:
                        v = c.n(0, 9)
                        args.append(v)
                        txt.append(str(v))
                # m() with a method of no parameters calls what m returns
                par = "(%s)" % ", ".join(txt) if txt else ""
                try:
                    if k == "hold":
                        r = w.show((w.send(o, m, args),))[1:-1]
                        line = "h = (0, %s)\n(h at(1) %s%s, 1) say" % (nm, m, par) if c.bool() else "h = (q=%s)\n(h('q') %s%s, 1) say" % (nm, m, par)
                    elif k == "query":
                        # without arguments ?m only asks whether there is a method
                        r = w.show((w.send(o, m, args),))[1:-1] if par else "true"
                        line = "(%s ?%s%s, 1) say" % (nm, m, par)
                    elif k == "chain":
                        r1 = w.send(o, m, args)
                        if not isinstance(r1, Obj):
                            raise Skip()
                        v = c.pick(r1.cls.ivars)
                        r = w.show(r1.iv[v])
                        line = "(%s %s%s /%s, 1) say" % (nm, m, par, v)
                    elif f["k"] == "tuple" and not args and c.bool():
                        # arguments for a method without parameters go to its result
                        i = c.n(0, len(f["vs"]) - 1)
                        r = w.show(w.send(o, m, args)[i])
                        line = "(%s %s(%d), 1) say" % (nm, m, i)
                    else:
                        r = w.show(w.send(o, m, args))
                        line = "(%s %s%s, 1) say" % (nm, m, par)
                    src.append(line)
                    exp.append("(%s, 1)" % r)
                    calls += 1
                    c.tag("call " + f["k"])
                except Skip:
                    for x, d in saved:
                        x.iv = d
            elif k == "read" and w.objs:
                nm, o = c.pick(w.objs)
                v = c.pick(o.cls.ivars + ["nosuch"])
                exp.append("(%s, 1)" % w.show(o.iv.get(v)))
                src.append("(%s /%s, 1) say" % (nm, v))
            elif k == "write" and w.objs:
                nm, o = c.pick(w.objs)
                v = c.pick(o.cls.ivars)
                if c.bool(1, 5):
                    n2, o2 = c.pick(w.objs)
                    o.iv[v] = o2
                    src.append("%s /%s = %s" % (nm, v, n2))
                else:
                    n = c.n(0, 99)
                    o.iv[v] = n
                    src.append("%s /%s = %d" % (nm, v, n))
            elif k == "unknown" and w.objs:
                nm, o = c.pick(w.objs)
                m = w.mname()
                if w.find(o, m) is None and m not in ("size", "name", "at", "first", "remove", "add", "length"):
                    src.append("(%s %s, %s ?%s, %s can('%s'), 1) say" % (nm, m, nm, m, nm, m))
                    exp.append("(nil, false, false, 1)")
                    if c.bool():
                        # what the call would have been given is not evaluated
                        src.append("z = 0\nq = (%s ?%s(z = z + 1%s))\n(q, z, 1) say" % (nm, m, c.pick(["", ", 2"])))
                        exp.append("((nil), 0, 1)")
            elif k == "can" and w.objs:
                nm, o = c.pick(w.objs)
                m = w.mname()
                if w.find(o, m):
                    src.append("(%s can('%s'), %s ?%s, 1) say" % (nm, m, nm, m))
                    exp.append("(true, true, 1)")
            elif k == "kind" and w.objs:
                nm, o = c.pick(w.objs)
                cls = c.pick(w.classes)
                par = o.cls.parent.name if o.cls.parent else "Object"
                src.append("(%s kind == %s, %s isa?(%s), %s subclass?(%s), %s parent == %s, %s kind == %s) say"
                           % (nm, cls.name, nm, cls.name, nm, cls.name, o.cls.name, par, nm, o.cls.name))
                same = o.cls is cls
                exp.append("(%s, %s, %s, true, true)" % tuple(w.show(x) for x in (same, same, o.cls.isa(cls))))
                if c.bool():
                    src.append("(%s, 1) say" % ", ".join("%s subclass?(%s)" % (nm, x.name) for x in w.classes))
                    exp.append("(%s, 1)" % ", ".join(w.show(o.cls.isa(x)) for x in w.classes))
                if c.bool(1, 3):
                    # only nil is nil
                    z = c.pick([nm, "nil", "false", "0", "''", "(0, 1)", "1.5", "true", cls.name, "'nil'", "(k=nil)"])
                    src.append("z = %s\n(z nil?, %s nil?, %s /%s nil?, |z. nil?, z) at(3) say" % (z, nm, nm, o.cls.ivars[0]) if o.cls.ivars else "z = %s\n(z nil?, 1) at(0) say" % z)
                    exp.append("true" if z == "nil" else "false")
                if c.bool(1, 4):
                    # a value in place takes one word, and there is no code but of a function
                    src.append("z = (a): a. code kind\n(5 size, nil size, false size, z(%s) nil?) say" % c.pick(["", "1", "1, 2"]))
                    exp.append("(8, 8, 8, true)")
            elif k == "alias" and w.objs:
                nm, o = c.pick(w.objs)
                n2 = "o%d" % nobj
                nobj += 1
                src.append("%s = %s" % (n2, nm))
                w.objs.append((n2, o))
                n3, o3 = c.pick(w.objs)
                src.append("(%s == %s, %s == %s) say" % (n2, nm, n3, nm))
                exp.append("(true, %s)" % w.show(o3 is o))
            elif k == "meta":
                cls = c.pick(w.classes)
                ps = ["p%d" % i for i in range(c.small(0, 2))]
                e = w.expr([], ps)
                m = c.pick(["make", "ma", "mb"])
                src.append("%s meta %s = (%s): %s." % (cls.name, m, ", ".join(ps), w.text(e)))
                args = [c.n(0, 9) for _ in ps]
                src.append("(%s %s(%s), 1) say" % (cls.name, m, ", ".join(map(str, args))))
                exp.append("(%s, 1)" % w.show(w.val(e, None, dict(zip(ps, args)))))
                calls += 1
            elif k == "builtin":
                kind, lits, vals = c.pick(BUILTIN)
                m = c.pick(["bx", "by", "bz"])
                n = c.n(0, 9)
                what = c.raw(3)
                if what == 0:
                    src.append("%s %s = (p): p + %d." % (kind, m, n))
                    call, r = "%s(4)" % m, str(4 + n)
                elif what == 1:
                    src.append("%s %s = (): (self, %d)." % (kind, m, n))
                    call, r = m, None
                else:
                    src.append("%s %s = %d" % (kind, m, n))
                    call, r = m, str(n)
                i = c.n(0, len(lits) - 1)
                src.append("b = %s\n(b %s, 1) say" % (lits[i], call))
                exp.append("(%s, 1)" % (r if r is not None else "(%s, %d)" % (vals[i], n)))
                calls += 1
            elif k == "string":
                cls = c.pick(w.classes)
                if not cls.ivars:
                    continue
                v = c.pick(cls.ivars)
                f = {"k": "str", "ps": [], "parts": [("s", "obj "), ("iv", v)]}
                src.append("%s string = (): ('obj ', /%s) join." % (cls.name, v))
                cls.methods["string"] = f
            elif k == "many":
                cls = c.pick(w.classes)
                n = c.n(20, 120)
                ms = ["g%d" % i for i in range(n)]
                src.append("\n".join("%s %s = (): %d." % (cls.name, m, i) for i, m in enumerate(ms)))
                for i, m in enumerate(ms):
                    cls.methods[m] = {"k": "expr", "ps": [], "e": ("n", i)}
        except Skip:
            continue
    if inside:
        s = "run = ():\n%s\n0.\nrun()\n" % "\n".join(src)
    else:
        s = "\n".join(src) + "\n"
    return {"src": s, "exp": "".join(e + "\n" for e in exp), "nt": calls >= 3 and (len(w.classes) > 1 or redefs > 0)}


def texts(c):
    """the text of a built-in kind is what its method says, also where printing calls it"""
    src, exp = [], []
    if c.bool(2, 3):
        vals = [c.pick([0, 1, 2, 3, 4, 5, 7, 100, -1, -2, 2 ** 61]) for _ in range(c.n(1, 4))]
        k = c.pick([0, 1, 2, 3, 4, vals[0]])
        src.append("Number string = (): if (self == %d): 'it'. else: if (self > %d): 'more'. else: 'less'..." % (k, k))
        src.append("(%s, %d) say\n(%s, %d) join say\n%d string print\n'' say" % (", ".join(str(v) for v in vals), k, ", ".join(str(v) for v in vals), k, k))
        t = ["it" if v == k else "more" if v > k else "less" for v in vals + [k]]
        exp += ["(%s)" % ", ".join(t), "".join(t), "it"]
    if c.bool(2, 3):
        vals = [c.bool() for _ in range(c.n(1, 4))]
        src.append("Boolean string = (): if (self): 'yes'. else: 'no'..\n(%s, '') say\n%s say" % (", ".join(str(v).lower() for v in vals), str(vals[0]).lower()))
        t = ["yes" if v else "no" for v in vals]
        exp += ["(%s, )" % ", ".join(t), t[0]]
    return {"src": "\n".join(src) + "\n", "exp": "".join(e + "\n" for e in exp), "nt": bool(src)}


def reach(objs):
    seen = []
    todo = [o for n, o in objs]
    while todo:
        o = todo.pop()
        if any(o is x for x in seen):
            continue
        seen.append(o)
        todo += [v for v in o.iv.values() if isinstance(v, Obj)]
    return seen


def wide(c):
    """classes with many instance variables, each of which stays apart from the others"""
    src, exp = [], []
    classes = []        # (name, all ivars, own constructor's [(ivar, kind, k)], params)
    stems = c.pick([["v"], ["v", "w", "x"], ["name", "names", "nam"], ["ж", "a"], ["abcdefghijklmnop", "abcdefghijklmnoq"]])
    for i in range(c.n(1, 4)):
        par = c.pick(classes) if classes and c.bool(3, 4) else None
        n = c.weighted([(2, c.n(1, 9)), (3, c.n(8, 40)), (1, c.n(40, 120))])
        base = len(par[1]) if par else 0
        new = ["%s%d" % (stems[j % len(stems)], base + j) for j in range(n)]
        old = [v for v in (par[1] if par else []) if c.bool(1, 6)]
        ps = ["p%d" % j for j in range(c.n(0, 5))]
        asg = []
        for v in c.shuffle(new + old):
            if ps and c.bool(1, 3):
                asg.append((v, "p", c.n(0, len(ps) - 1), c.n(0, 9)))
            else:
                asg.append((v, "n", c.n(0, 999), 0))
        if c.bool(1, 4):        # written twice
            v = c.pick(asg)[0]
            asg.append((v, "n", c.n(0, 999), 0))
        name = ("K%d" if c.bool() else "k%d") % i
        body = c.pick([", ", "\n  "]).join("/%s = %s" % (v, "%s + %d" % (ps[a], b) if k == "p" else a) for v, k, a, b in asg)
        src.append("%s = %sclass (%s): %s." % (name, par[0] + " " if par else "", ", ".join(ps), body))
        classes.append((name, (par[1] if par else []) + new, asg, ps))
    objs = []
    meths = {}
    for i in range(c.n(1, 4)):
        name, ivs, asg, ps = cls = c.pick(classes)
        args = [c.n(0, 99) for _ in ps]
        iv = dict.fromkeys(ivs)
        for v, k, a, b in asg:
            iv[v] = args[a] + b if k == "p" else a
        src.append("o%d = %s(%s)" % (i, name, ", ".join(map(str, args))))
        objs.append((i, cls, iv))
    show = lambda x: "nil" if x is None else str(x).lower()
    for s in range(c.n(2, 14)):
        i, cls, iv = c.pick(objs)
        k = c.raw(9)
        v = c.pick(cls[1])
        if k == 0:
            n = c.weighted([(4, c.n(0, 9999)), (1, c.pick([None, False, True]))])
            src.append("o%d /%s = %s" % (i, v, show(n)))
            iv[v] = n
        elif k == 8:        # what methods it has
            ms = meths.setdefault(cls[0], set())
            if ms:
                m, no = c.pick(sorted(ms)), "m%d" % (s + 50)
                src.append("(|%s methods., 1) at(0) length say\nt = %s methods\n(t at('%s') kind, t at('%s'), o%d can('%s'), o%d can('%s')) say" % (cls[0], cls[0], m, no, i, m, i, no))
                exp += [str(len(ms)), "(Function, nil, true, false)"]
            continue
        elif k == 6:        # is it there
            vs = [c.pick(cls[1] + ["none"]) for _ in range(c.n(1, 8))]
            meths.setdefault(cls[0], set()).add("q%d" % s)
            src.append("%s q%d = (): (%s, 1).\nr = o%d q%d\nr say" % (cls[0], s, ", ".join("?/" + x for x in vs), i, s))
            exp.append("(%s, 1)" % ", ".join(show(iv.get(x) is not None and iv.get(x) is not False) for x in vs))
        elif k == 7:        # set what is not
            vs = [(c.pick(cls[1]), c.n(0, 99)) for _ in range(c.n(1, 8))]
            meths.setdefault(cls[0], set()).add("e%d" % s)
            src.append("%s e%d = (x):\n%s  self.\no%d e%d(%d)" % (cls[0], s, "".join("  ?/%s = x + %d\n" % x for x in vs), i, s, s))
            for x, n in vs:
                if iv[x] is None or iv[x] is False:
                    iv[x] = s + n
        elif k == 1:
            src.append("(o%d /%s, 1) say" % (i, v))
            exp.append("(%s, 1)" % show(iv[v]))
        elif k == 2:
            vs = [c.pick(cls[1]) for _ in range(c.n(1, 12))]
            meths.setdefault(cls[0], set()).add("m%d" % s)
            src.append("%s m%d = (): (%s).\nr = o%d m%d\nr say" % (cls[0], s, ", ".join("/" + x for x in vs + ["none"]), i, s))
            exp.append("(%s, nil)" % ", ".join(show(iv[x]) for x in vs))
        elif k == 3:
            vs = [(c.pick(cls[1]), c.n(0, 99)) for _ in range(c.n(1, 30))]
            meths.setdefault(cls[0], set()).add("w%d" % s)
            src.append("%s w%d = (x):\n%s  self.\no%d w%d(%d)" % (cls[0], s, "".join("  /%s = x + %d\n" % x for x in vs), i, s, s))
            for x, n in vs:
                iv[x] = s + n
        elif k == 4:
            src.append(c.pick(["list(30000)", "60 times (j): ('g', j) string."]))
        else:
            vs = cls[1]
            meths.setdefault(cls[0], set()).add("a%d" % s)
            src.append("%s a%d = (): (%s).\nr = o%d a%d\nr say" % (cls[0], s, ", ".join("/" + x for x in vs), i, s))
            exp.append("(%s)" % ", ".join(show(iv[x]) for x in vs))
    return {"src": "\n".join(src) + "\n", "exp": "".join(x + "\n" for x in exp), "nt": any(len(x[1]) > 8 for x in classes)}


PARTS = [Part("histories", gen, common.run_program, 8000, 300000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("wide", wide, common.run_program, 1200, 40000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("texts", texts, common.run_program, 500, 10000, nontrivial=lambda k: k["nt"], show=common.show)]
