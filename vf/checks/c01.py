"""The bytecode VM and the JIT run a program the same way."""
from ..engine import Part
from . import common

ID = "C01"
RULE = ("programs of all the generators of this framework, and straight-line programs over up to 150 local variables, parameters and captured variables, so that each kind of "
        "instruction meets every register number; output, final value (-I) and exit status of both back ends must agree, the wide programs also with a model; "
        "non-trivial: inside the common language and it prints something, or more than 16 variables")
ASSUMPTIONS = ["programs with type errors are outside the common language: the VM ends the function with an error, jitted code goes on, and jitted comparisons do not check types"]


def gen(c):
    from . import c02, c03, c04, c05, c06, c08, c09, c11, c12, c13
    g = c.weighted([(4, c04.gen), (4, c05.gen), (1, c05.counters), (2, c02.gen), (3, c06.positional), (2, c03.gen), (3, c08.gen),
                    (2, c09.PARTS[0].gen), (2, c11.gen), (2, c12.gen), (1, c13.gen)])
    k = g(c)
    c.tag("from " + g.__module__[-3:])
    ok = k["exp"] is not None and k.get("modes") is None
    # the value of the last statement: something both define
    return {"src": k["src"] + "\n(1, 'end')\n", "exp": k["exp"] if ok else None, "nt": ok and bool(k["exp"])}


def check(ctx, case):
    if case["exp"] is None:
        return None
    b = ctx.src(case["src"], "-B", opts=["-I"])
    x = ctx.src(case["src"], "-X", opts=["-I"])
    if x.rc != b.rc:
        return "exit status %d of the JIT, %d of the VM (VM %r, JIT %r)" % (x.rc, b.rc, b.out[-100:], x.out[-100:])
    if b.out != x.out:
        return common.diff(b.text(), x, "JIT against VM")
    if not b.text().rstrip("\n").endswith("(1, end)"):
        return "final value (1, end) expected at the end of %r" % b.out[-60:]
    return None


def show_num(v):
    return {True: "true", False: "false", None: "nil"}.get(v, str(v)) if v is None or isinstance(v, bool) else str(v)


def wide(c):
    """straight-line code over many registers"""
    n = c.weighted([(3, c.n(2, 14)), (3, c.n(12, 20)), (3, c.n(20, 60)), (1, c.n(60, 400))])
    params = c.n(0, min(n, 12)) if c.bool() else 0
    ups = c.n(0, min(n // 2, 24)) if c.bool() else 0
    vs = ["r%d" % i for i in range(n)]
    st = {}
    src = []
    ind = ""
    # the first UPS variables belong to an outer function, the next PARAMS are parameters
    outer, par, loc = vs[:ups], vs[ups:ups + params], vs[ups + params:]
    if ups:
        src.append("outer = ():")
        ind = "  "
        for v in outer:
            st[v] = c.n(-100, 100)
            src.append("%s%s = %s" % (ind, v, st[v] if st[v] >= 0 else "0 - %d" % -st[v]))
    args = []
    fn = ups or params or c.bool()
    if fn:
        for v in par:
            st[v] = c.n(0, 1000)
            args.append(str(st[v]))
        src.append("%sinner = (%s):" % (ind, ", ".join(par)))
        ind += "  "
    for v in loc:
        st[v] = c.n(0, 100)
        src.append("%s%s = %d" % (ind, v, st[v]))
    out = []
    tr = lambda x: x is not None and x is not False
    for k in range(c.n(4, 30)):
        a, b, d = c.pick(vs), c.pick(vs), c.pick(vs)
        op = c.pick(["add", "sub", "mul", "cmp", "if", "tuple", "get", "getv", "call", "named", "or", "not", "while", "string", "table", "neg", "mod", "blk", "inc", "msg"])
        c.tag(op)
        if op in ("add", "sub", "mul"):
            s = {"add": "+", "sub": "-", "mul": "*"}[op]
            w = {"add": st[a] + st[b], "sub": st[a] - st[b], "mul": st[a] * st[b]}[op]
            if abs(w) > 1 << 40:
                continue
            st[d] = w
            src.append("%s%s = %s %s %s" % (ind, d, a, s, b))
        elif op == "mod":
            k = c.n(1, 50)
            st[d] = abs(st[a]) % k if st[a] >= 0 else -(-st[a] % k)
            src.append("%s%s = %s %% %d" % (ind, d, a, k))
        elif op == "neg":
            st[d] = -st[a]
            src.append("%s%s = - %s" % (ind, d, a))
        elif op == "inc":
            how = c.pick(["%s++", "%s--", "%s += 7", "%s -= 3", "%s *= 2"])
            w = {"%s++": st[d] + 1, "%s--": st[d] - 1, "%s += 7": st[d] + 7, "%s -= 3": st[d] - 3, "%s *= 2": st[d] * 2}[how]
            if abs(w) > 1 << 40:
                continue
            st[d] = w
            src.append(ind + how % d)
        elif op == "cmp":
            s = c.pick(["<", "<=", ">", ">=", "==", "!="])
            t = {"<": st[a] < st[b], "<=": st[a] <= st[b], ">": st[a] > st[b], ">=": st[a] >= st[b], "==": st[a] == st[b], "!=": st[a] != st[b]}[s]
            src.append("%s(%s %s %s, %s) say" % (ind, a, s, b, d))
            out.append("(%s, %d)" % ("true" if t else "false", st[d]))
        elif op == "if":
            t = st[a] < st[b]
            if t:
                st[d] = st[b]
            else:
                st[d] = st[a]
            src.append("%sif (%s < %s): %s = %s. else: %s = %s." % (ind, a, b, d, b, d, a))
        elif op == "tuple":
            xs = [c.pick(vs) for _ in range(c.n(2, 12))]
            src.append("%s(%s) say" % (ind, ", ".join(xs)))
            out.append("(%s)" % ", ".join(str(st[x]) for x in xs))
        elif op == "get":
            src.append("%stt = (%s, %s, %s)\n%s%s = tt[1]" % (ind, a, b, a, ind, d))
            st[d] = st[b]
        elif op == "getv":
            i = c.n(0, 2)
            src.append("%stt = (%s, %s, %s), ii = %d\n%s%s = tt(ii)" % (ind, a, b, d, i, ind, d))
            st[d] = [st[a], st[b], st[d]][i]
        elif op == "call":
            xs = [c.pick(vs) for _ in range(c.n(1, 8))]
            src.append("%sff = (%s): (%s)." % (ind, ", ".join("p%d" % i for i in range(len(xs))), ", ".join("p%d" % i for i in reversed(range(len(xs))))))
            src.append("%s(ff(%s), %s) say" % (ind, ", ".join(xs), d))
            out.append("((%s), %d)" % (", ".join(str(st[x]) for x in reversed(xs)), st[d]))
        elif op == "named":
            src.append("%sgg = (x, y, z): (z, y, x).\n%s(gg(%s, %s, %s), 0) say" % (ind, ind, a, b, d))
            out.append("((%d, %d, %d), 0)" % (st[d], st[b], st[a]))
        elif op == "or":
            src.append("%s%s = |false or %s." % (ind, d, a) if c.bool() else "%s%s = |nil or %s." % (ind, d, a))
            st[d] = st[a]
        elif op == "not":
            src.append("%s(not %s, ! (%s == %s)) say" % (ind, a, b, d))
            out.append("(false, %s)" % ("true" if st[b] != st[d] else "false"))
        elif op == "while":
            m = c.n(1, 4)
            src.append("%sww = 0\n%swhile (ww < %d): ww = ww + 1, %s = %s + ww." % (ind, ind, m, d, d))
            st[d] += m * (m + 1) // 2
        elif op == "string":
            src.append("%s(%s string, %s) say" % (ind, a, d))
            out.append("(%d, %d)" % (st[a], st[d]))
        elif op == "table":
            src.append("%shh = (aa=%s, bb=%s)\n%s(hh('bb'), hh('aa'), %s) say" % (ind, a, b, ind, d))
            out.append("(%d, %d, %d)" % (st[b], st[a], st[d]))
        elif op == "blk":
            src.append("%s3 times (q): %s = %s + q." % (ind, d, d))
            st[d] += 3
        else:
            src.append("%s%s = %s abs" % (ind, d, a))
            st[d] = abs(st[a])
    for i in range(0, n, 12):
        src.append("%s(%s, 0) say" % (ind, ", ".join(vs[i:i + 12])))
        out.append("(%s, 0)" % ", ".join(str(st[v]) for v in vs[i:i + 12]))
    if fn:
        ind = ind[2:]
        src.append("%s0." % (ind + "  "))
        src.append("%sinner(%s)" % (ind, ", ".join(args)))
    if ups:
        src.append("  0.")
        src.append("outer()")
    c.tag("%d+ registers" % (n // 16 * 16))
    return {"src": "\n".join(src) + "\n", "exp": "".join(o + "\n" for o in out), "nt": n > 16}


PARTS = [Part("programs", gen, check, 4000, 200000, nontrivial=lambda k: k["nt"], show=lambda k: k["src"]),
         Part("wide", wide, common.run_program, 4000, 200000, nontrivial=lambda k: k["nt"], show=common.show)]
