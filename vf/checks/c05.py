"""Closures: variables are found where the program text says, and shared by the closures over one activation of a function."""
from ..engine import Part
from . import common

ID = "C05"
RULE = ("a generated program with nested functions, closure factories, recursion, shadowing parameters and assignments to captured variables "
        "is run by the bytecode VM and by the JIT and its whole output compared with a reference interpreter with explicit frames; "
        "non-trivial: the reference run made a closure in a function that had captured a variable")
ASSUMPTIONS = []

PROFILES = [dict(fn=6, rec=1, hof=3, upval=5, loop=1, cond=1, iter=1, depth=3, stmts=8, shadow=3),
            dict(fn=3, rec=0, hof=6, upval=5, loop=1, cond=1, iter=2, depth=4, stmts=6, tuple=1),
            dict(fn=3, rec=2, hof=2, trace=1, loop=1, cond=2, iter=4, depth=3, stmts=6, asgx=3, inc=4)]


def gen(c):
    return common.progcase(c, c.pick(PROFILES), ("closure", "times", "to", "step", "each"))


def counters(c):
    """several closures over the variables of one activation, kept in tuples, called in any order"""
    nv, nf, na = c.n(1, 4), c.n(1, 5), c.n(1, 3)
    vs = ["u%d" % i for i in range(nv)]
    fs = []
    src = ["mk = (x):"]
    deep = c.n(0, 2)
    for i, v in enumerate(vs):
        src.append("  %s = x + %d" % (v, i))
    for j in range(nf):
        v, w, k = c.pick(vs), c.pick(vs), c.n(1, 9)
        kind = c.pick(["get", "add", "set", "mix", "count"])
        fs.append((kind, v, w, k))
        body = {"get": "%s" % v, "add": "%s += y, %s" % (v, v), "set": "%s = y + %d, %s" % (v, k, v),
                "mix": "%s = %s + %s + y, %s - %d" % (v, v, w, v, k), "count": "%s++, %s" % (v, v)}[kind]
        fn = "(y): %s." % body
        for d in range(deep):
            fn = "(y%d):\n    q%d = %s\n    q%d(y%d).\n" % (d, d, fn.replace("\n", "\n  "), d, d)
        src.append("  f%d = %s" % (j, fn))
    src.append("  (%s)." % ", ".join("f%d" % j for j in range(nf)))
    exp = ""
    state = []
    for a in range(na):
        x = c.n(0, 50)
        src.append("o%d = mk(%d)" % (a, x))
        for j in range(nf):
            src.append("g%d_%d = o%d(%d)" % (a, j, a, j))
        state.append({v: x + i for i, v in enumerate(vs)})
    for _ in range(c.n(3, 16)):
        a, j, y = c.n(0, na - 1), c.n(0, nf - 1), c.n(0, 20)
        kind, v, w, k = fs[j]
        s = state[a]
        if kind == "get":
            r = s[v]
        elif kind == "add":
            s[v] += y
            r = s[v]
        elif kind == "set":
            s[v] = y + k
            r = s[v]
        elif kind == "mix":
            s[v] = s[v] + s[w] + y
            r = s[v] - k
        else:
            s[v] += 1
            r = s[v]
        if abs(r) > 1 << 60:
            break
        src.append("(%d, g%d_%d(%d)) say" % (a, a, j, y))
        exp += "(%d, %d)\n" % (a, r)
        c.tag(kind)
    return {"src": "\n".join(src) + "\n", "exp": exp, "nt": na > 1 or nf > 1}


M = 100003


def deep(c):
    """deep recursion: every activation keeps its arguments, locals and captured variables until its callee is back"""
    n = c.small(1, 1200)
    na, nl = c.n(1, 5), c.n(1, 6)
    ps = ["p%d" % i for i in range(na)]
    how = c.weighted([(4, "direct"), (2, "two"), (2, "method"), (1, "times"), (1, "captured"), (1, "tuple")])
    perm = c.shuffle(list(range(na)))
    lk = [(c.n(0, na - 1), c.n(1, 9)) for _ in range(nl)]
    cap = c.bool(2, 3)          # a closure over a local of each activation
    late = c.bool()             # called after the callee is back
    pad = c.weighted([(3, 0), (1, c.n(1, 60)), (1, c.n(60, 300))])
    junk = c.pick(["", "", "  list(%d)\n" % c.n(1, 40), "  s = ('x', n) string\n"])
    dflt = c.bool(1, 3)
    if how == "times":
        n = min(n, 100)       # each takes a stack of the bytecode VM
    init = [c.n(0, 99) for _ in range(na)]
    k, extra = c.n(1, 9), c.n(0, 50)
    sig = ["n"] + ps + (["d := %d" % extra] if dflt else [])
    args = ["n - 1"] + [ps[perm[i]] + " + %d" % i for i in range(na)]
    body = ""
    for i in range(pad):
        body += "  z%d = n\n" % i
    for i, (a, m) in enumerate(lk):
        body += "  l%d = %s * %d + n\n" % (i, ps[a], m)
    if cap:
        body += "  g = (y): l0 = l0 + y, l0.\n"
        if not late:
            body += "  g(%d)\n" % k
    body += junk
    body += "  total = total + 1\n" if how != "method" else "  Total = Total + 1\n"
    call = {"direct": "f(%s)", "two": "h(%s)", "method": "self down(%s)", "times": None, "captured": "k(%s)", "tuple": "fs(0)(%s)"}[how]
    A = ", ".join(args)
    if how == "times":
        body += "  r = 0\n  if (n > 0): 1 times (j): r = f(%s)..\n" % A
    elif how == "captured":
        body += "  k = (x): f(%s).\n  r = 0\n  if (n > 0): r = k(0).\n" % A
    elif how == "tuple":
        body += "  r = 0\n  if (n > 0):\n    q = fs(0)\n    r = q(%s).\n" % A
    else:
        body += "  r = 0\n  if (n > 0): r = %s.\n" % (call % A)
    if cap and late:
        body += "  g(%d)\n" % k
    body += "  r = r + %s%s\n" % (" + ".join("l%d" % i for i in range(nl)), " + d" if dflt else "")
    body += "  " + " + ".join(ps) + " + r % 100003\n"
    A0 = ", ".join([str(n)] + [str(x) for x in init])
    if how == "method":
        src = "Total = 0\nDeep = class: /v = 1.\nDeep down = (%s):\n%s.\no = Deep()\nx = o down(%s)\n(x, Total) say\n" % (", ".join(sig), body, A0)
    else:
        src = "total = 0\n" + ("h = 0\n" if how == "two" else "") + ("fs = (0, 0)\n" if how == "tuple" else "")
        src += "f = 0\nf = (%s):\n%s.\n" % (", ".join(sig), body)
        if how == "two":
            src += "h = (n%s): f(n%s).\n" % ("".join(", " + p for p in ps), "".join(", " + p for p in ps))
        if how == "tuple":
            src += "fs put(0, f)\n"
        src += "x = f(%s)\n(x, total) say\n" % A0
    # the model, one list of activations
    acts, cur = [], list(init)
    for d in range(n, -1, -1):
        ls = [cur[a] * m + d for a, m in lk]
        if cap:
            ls[0] += k
        acts.append((cur, ls))
        cur = [cur[perm[i]] + i for i in range(na)]
    v = 0
    for ps_, ls in reversed(acts):
        v = sum(ps_) + (v + sum(ls) + (extra if dflt else 0)) % M
    return {"src": src, "exp": "(%d, %d)\n" % (v, n + 1), "nt": n > 20}


PARTS = [Part("deep recursion", deep, common.run_program, 1000, 40000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("programs", gen, common.run_program, 7000, 300000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("shared variables", counters, common.run_program, 3000, 100000, nontrivial=lambda k: k["nt"], show=common.show)]
