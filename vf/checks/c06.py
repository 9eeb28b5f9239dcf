"""Calls: arguments reach the parameters they are meant for, missing ones get their defaults, wrong numbers are refused."""
from ..engine import Part
from . import common

ID = "C06"
RULE = ("functions of up to 12 parameters (mandatory, optional after |, with a default, typed) are called with generated arguments by position, "
        "by name in any order, from functions, with argument expressions that print when evaluated, and recursively; the printed values are compared with "
        "a binding model; calls with too few or too many arguments must end the program with an arity error before the body runs; "
        "non-trivial: more than one argument, or a default or name is used, or the call is refused")
ASSUMPTIONS = ["a call without any argument is not refused, the language uses it to get at a function", "at most 14 parameters where arguments are missing"]


def val(c):
    """(source, printed)"""
    k = c.raw(6)
    if k == 0:
        return (str(c.n(0, 99)),) * 2
    if k == 1:
        s = c.pick(["a", "bc", "it is", ""])
        return "'%s'" % s, s
    if k == 2:
        return (c.pick(["true", "false", "nil"]),) * 2
    if k == 3:
        a, b = c.n(0, 50), c.n(0, 50)
        return "%d + %d" % (a, b), str(a + b)
    if k == 4:
        a, b = c.n(0, 9), c.n(0, 9)
        return "(%d, %d)" % (a, b), "(%d, %d)" % (a, b)
    a = c.n(0, 99)
    return "id(%d)" % a, str(a)


def positional(c):
    src, exp = ["id = (x): x.", "tr = (n, v): n say, v."], ""
    nt = False
    fs = []
    for i in range(c.n(1, 3)):
        n = c.small(0, 12)
        loc = c.n(0, 6)
        ps = ["p%d" % j for j in range(n)]
        fs.append(n)
        order = c.shuffle(ps)
        src.append("f%d = (%s):\n%s  (%s) say\n  %s\n." % (i, ", ".join(ps), "".join("  l%d = %d\n" % (k, k) for k in range(loc)), ", ".join(order + ["l%d" % (loc - 1) if loc else "0"]),
                                                         c.pick(ps) if ps else "7"))
        fs[-1] = (n, order, loc, src[-1].split("\n")[-2].strip())
    tr = 0
    for _ in range(c.n(1, 5)):
        i = c.n(0, len(fs) - 1)
        n, order, loc, res = fs[i]
        vals = [val(c) for _ in range(n)]
        traced = c.bool(1, 3)
        args = []
        for s, p in vals:
            if traced and "(" not in s:
                tr += 1
                args.append("tr(%d, %s)" % (tr, s))
                exp += "%d\n" % tr
            else:
                args.append(s)
        call = "f%d(%s)" % (i, ", ".join(args))
        d = {"p%d" % j: p for j, (s, p) in enumerate(vals)}
        d["7"] = "7"
        line = "(%s)" % ", ".join([d[p] for p in order] + [str(loc - 1) if loc else "0"])
        form = c.raw(3)
        if form == 1 and not traced:
            src.append("w = (): z = 5, %s.\n(w(), 1) say" % call)
        elif form == 2:
            src.append("g = f%d\nr = g(%s)\n(r, 1) say" % (i, ", ".join(args)))
        else:
            src.append("(%s, 1) say" % call)
        exp += line + "\n(%s, 1)\n" % d[res]
        nt = nt or n > 1
    return {"src": "\n".join(src) + "\n", "exp": exp, "nt": nt}


def sig(c):
    """[(name, kind, source of default, printed default)], the text of the signature"""
    ps, txt = [], ""
    nm, nopt = c.n(0, 4), c.n(0, 4)
    if c.bool(1, 5):
        nm, nopt = c.n(0, 5), c.n(4, 9)
    typed = c.bool(1, 3)
    for i in range(nm):
        t = c.pick(["", "=o", "=N"]) if typed else ""
        ps.append(("m%d" % i, "m", None))
        txt += (", " if i else "") + "m%d%s" % (i, t)
    bar = c.bool() and nopt and nm
    for i in range(nopt):
        if bar:
            # x=N | y, without a type after one with a type, is a syntax error
            t, d = c.pick([("=N", "0"), ("=S", ""), ("=o", "nil"), ("", "nil")][:3 if i == 0 and nm and "=" in txt.split(",")[-1] else 4])
            txt += (" | " if i == 0 else ", ") + "o%d%s" % (i, t)
            ps.append(("o%d" % i, "o", d))
        else:
            s, p = c.pick([("0", "0"), ("12", "12"), ("'x y'", "x y"), ("'m0'", "m0"), ("'o1'", "o1"), ("58", "58"), ("124", "124"), ("nil", "nil"), ("true", "true"), ("2.5", "2.5")])
            txt += (", " if ps else "") + "o%d:=%s" % (i, s)
            ps.append(("o%d" % i, "d", p))
    return ps, txt, nm


def flexible(c):
    ps, txt, nm = sig(c)
    names = [p[0] for p in ps]
    order = c.shuffle(names)
    host = c.weighted([(4, "function"), (2, "method"), (1, "constructor"), (2, "captured")])
    body = "(%s) say" % ", ".join(order + ["0"])
    src = ["id = (x): x."]
    name = "f"
    if host == "method":
        src.append("M = class (): 1.\nM f = (%s): %s, 1.\no = M ()" % (txt, body))
        name = "o f"
    elif host == "constructor":
        src.append("M = class (%s): %s." % (txt, body))
        name = "M "
    elif host == "captured":
        src.append("n = 0\nf = (%s): n++, %s, n." % (txt, body))
    else:
        src.append("f = (%s): %s, 1." % (txt, body))
    c.tag(host)
    exp = ""
    nt = False
    full = True
    for _ in range(c.n(1, 6)):
        k = c.n(max(nm, 1), max(len(ps), 1)) if ps else 0
        if k == 0 or k > len(ps):
            break
        vals = [val(c) for _ in range(k)]
        bind = {p[0]: (vals[i][1] if i < k else p[2]) for i, p in enumerate(ps)}
        if any(v is None for v in bind.values()):
            continue
        if c.bool(1, 3) and host != "constructor":
            args = ["%s=%s" % (names[i], vals[i][0]) for i in c.shuffle(range(k))]
            c.tag("by name")
            nt = True
        else:
            args = [v[0] for v in vals]
        if any(a.split("=", 1)[-1][0] == "(" for a in args) and "=" in args[0]:
            continue        # k=(…) is a call
        call = "%s(%s)" % (name, ", ".join(args))
        src.append(c.pick(["r = %s", "(%s, 0) length", "w = (): u = 1, %s.\nw()"]) % call)
        exp += "(%s)\n" % ", ".join([bind[x] for x in order] + ["0"])
        nt = nt or k < len(ps) or k > 1
        full = full and k == len(ps)
        if k < len(ps):
            c.tag("defaults filled")
    return {"src": "\n".join(src) + "\n", "exp": exp, "nt": nt, "modes": ["-B", "-X"]}


def refused(c):
    ps, txt, nm = sig(c)
    low = c.bool()
    k = c.n(1, nm - 1) if low and nm > 1 else len(ps) + c.n(1, 4)
    if not ps:
        return {"src": "1\n", "exp": None, "what": "", "nt": False}
    form = c.raw(3)
    call = "f(%s)" % ", ".join(str(i) for i in range(k))
    src = "f = (%s): 'in the body' say.\n'before' say\n" % txt
    if form == 1:
        src += "w = (x): %s, 'after in w' say.\nw(1)\n" % call
    elif form == 2:
        src += "w = (g): g(%s).\nw(f)\n" % ", ".join(str(i) for i in range(k))
    else:
        src += "r = %s\n" % call
    if form == 0:
        src += "'after' say\n"
    c.tag("too few" if k < nm else "too many")
    return {"src": src, "exp": "before\n", "what": "Not enough arguments" if k < nm else "Too many arguments", "nt": True}


def check_refused(ctx, case):
    if case["exp"] is None:
        return None
    for mode in ("-B", "-X"):
        r = ctx.src(case["src"], mode, opts=("-I",))
        got = r.text()
        if r.rc != 0 or not got.startswith(case["exp"]) or case["what"] not in got or "in the body" in got or "after" in got:
            return "%s: expected %r and an error %r, got %r (status %d)" % (mode, case["exp"], case["what"], got[-300:], r.rc)


def deep(c):
    """recursion: the frames of one function do not mix"""
    n = c.small(1, 2000)
    na = c.n(1, 6)
    k = c.n(0, na - 1)
    ps = ["p%d" % i for i in range(na)]
    nxt = []
    for i in range(na):
        nxt.append("n - 1" if i == 0 else ps[(i + 1) % na] if ps[(i + 1) % na] != "p0" else "p%d" % i)
    ps[0] = "n"
    nxt = [x.replace("p0", "n") for x in nxt]
    loc = c.n(0, 5)
    body = "".join("  l%d = %s + %d\n" % (i, ps[i % na], i) for i in range(loc))
    tail = "+ l%d - l%d" % (loc - 1, loc - 1) if loc else ""
    src = "r = (%s):\n%s  if (n < 1): %s. else: 1 + r(%s) %s.\n.\n(r(%s), 0) say\n" % (
        ", ".join(ps), body, ps[k], ", ".join(nxt), tail, ", ".join([str(n)] + [str(i * 10) for i in range(1, na)]))

    st = [n] + [i * 10 for i in range(1, na)]
    depth = 0
    while st[0] >= 1:
        env = dict(zip(ps, st))
        st = [env["n"] - 1 if x == "n - 1" else env[x] for x in nxt]
        depth += 1
    return {"src": src, "exp": "(%d, 0)\n" % (depth + st[k]), "nt": n > 3}


def signatures(c):
    """what a function says of its parameters"""
    src, exp, nt = [], "", False
    for i in range(c.n(1, 3)):
        n = c.small(0, 8)
        names = c.shuffle(["x", "y", "zed", "a1", "b_2", "it", "ж0", "value", "n"])[:n]
        bar = c.n(1, n - 1) if n > 1 and c.bool(1, 3) else None
        decl, text, least, opt = "", "", 0, False
        for j, p in enumerate(names):
            if bar == j:
                decl, text, opt = decl + c.pick([" | ", "|"]), text + "|", True
            elif j:
                decl, text = decl + c.pick([", ", ","]), text + ","
            k = c.raw(5)
            if bar is not None and j < bar and k > 2:
                k = 0
            if bar == j and typed and k < 2:        # (x=N|y) is not in the grammar
                k = 2
            typed = k == 2
            if k < 2:
                decl, text = decl + p, text + p
            elif k == 2:
                t = c.pick("NSoTb")
                decl, text = decl + p + "=" + t, text + p + "=" + t
            else:
                d, v = c.weighted([(3, (lambda x: (str(x), str(x)))(c.weighted([(3, c.n(0, 9)), (2, c.pick([46, 58, 124, 61, 44, 45])), (1, c.n(-300, 70000))]))),
                                   (2, ("'%s'" % (c.pick(["a", "", "it", ".", "|", ":"])),) * 2), (1, ("nil", "nil")), (1, ("true", "true")), (1, ("1.5", "1.5"))])
                decl, text, opt = decl + p + ":=" + d, text + p + ":=" + v.strip("'"), True
            if not opt:
                least += 1
        f = "f%d" % i
        where = c.raw(4)
        name = ""
        if where == 0:
            src.append("%s = (%s): %d." % (f, decl, i))
        elif where == 1:
            src.append("mk%d = (q): (%s): %d..\n%s = mk%d(1)" % (i, decl, i, f, i))
        elif where == 2:
            src.append("t%d = ((%s): %d., 5)\n%s = t%d at(0)" % (i, decl, i, f, i))
        else:
            name = " m%d" % i
            src.append("%s = (%s): %d.\n%sNumber def(%s, %s)" % (f, decl, i, c.pick(["", "list(30000)\n"]), c.pick(["'m%d'" % i, "'m' + '%d'" % i]), f))
        if c.bool(1, 4):
            src.append("list(30000)\n60 times (j): ('t', j) string.")
        for _ in range(c.n(1, 3)):
            k = c.raw(4)
            if k == 0:
                src.append("%s string say" % f)
                exp += "function%s(%s)\n" % (name, text)
            elif k == 1:
                src.append("%s arity say" % f)
                exp += "%d\n" % n
            elif k == 2:
                src.append("%s minargs say" % f)
                exp += "%d\n" % least
            else:
                src.append("(%s, %d) say" % (f, i))
                exp += "(function%s(%s), %d)\n" % (name, text, i)
        nt = nt or n > 1
    return {"src": "\n".join(src) + "\n", "exp": exp, "nt": nt}


NT = lambda k: k["nt"]
PARTS = [Part("positional", positional, common.run_program, 4000, 150000, nontrivial=NT, show=common.show),
         Part("defaults and names", flexible, common.run_program, 4000, 150000, nontrivial=NT, show=common.show),
         Part("refused", refused, check_refused, 1500, 50000, nontrivial=NT, show=common.show),
         Part("signatures", signatures, common.run_program, 1500, 50000, nontrivial=NT, show=common.show),
         Part("recursion", deep, common.run_program, 1200, 40000, nontrivial=NT, show=common.show)]
