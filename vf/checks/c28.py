"""Several interpreters in one process do not notice each other."""
from ..engine import Part
from .. import build
from . import common, c25

ID = "C28"
RULE = ("histories of interpreters created, running programs with known output on both back ends and destroyed, in one process: interleaved on one thread, and one per thread running at the same time; programs keep state of their own "
        "(globals, methods of the built-in kinds, classes, evaluated code) in every interpreter; each program must print what it prints alone; non-trivial: at least two interpreters alive at once, or two threads")
ASSUMPTIONS = ["interpreters are created through the C interface the way the tool itself does it, with a stack address of their thread", "random numbers are process-wide and left out"]

WRAP = ["fwrite", "fputs", "fputc", "putc", "putchar", "puts", "printf", "fprintf", "__printf_chk", "__fprintf_chk", "fflush"]


def prepare(paths):
    return build.harness(paths, "interps.c", libs=["-Wl,--wrap=" + w for w in WRAP])


def program(c, jit, last=False):
    s, e, m = c25.inner(c, last)
    if ("-X" if jit else "-B") in m and "rand" not in s:
        return s + "\nnil\n", e
    return "'small' say\n", "small\n"


class World:
    """the state programs see in one interpreter"""

    def __init__(self):
        self.glob = {}
        self.meth = {}
        self.cls = {}
        self.done = False


def stateful(c, w):
    """a program that changes or shows the state of its interpreter"""
    src, out = [], []
    for _ in range(c.n(1, 5)):
        k = c.raw(9)
        if k == 0:
            g = c.pick(["Shared", "Counter", "Zz"])
            w.glob[g] = c.n(0, 9999)
            src.append("%s = %d" % (g, w.glob[g]))
        elif k == 1:
            g = c.pick(["Shared", "Counter", "Zz"])
            if g in w.glob:
                src.append("%s say" % g)
                out.append("%d\n" % w.glob[g])
        elif k == 2:
            m = (c.pick(["Number", "String", "Tuple"]), c.pick(["tag", "mark"]))
            w.meth[m] = c.n(0, 9999)
            src.append("%s %s = (): %d." % (m[0], m[1], w.meth[m]))
        elif k in (3, 4):
            m = (c.pick(["Number", "String", "Tuple"]), c.pick(["tag", "mark"]))
            src.append("r = %s %s\nr say" % ({"Number": "5", "String": "'x'", "Tuple": "(1, 2)"}[m[0]], m[1]))
            out.append("%s\n" % w.meth.get(m, "nil"))
        elif k == 5:
            n = c.pick(["Box", "Pt"])
            w.cls[n] = c.n(0, 9999)
            src.append("%s = class: /v = %d.\n%s v = (): /v." % (n, w.cls[n], n))
        elif k == 6:
            n = c.pick(["Box", "Pt"])
            if n in w.cls:
                src.append("%s() v say" % n)
                out.append("%d\n" % w.cls[n])
        elif k == 8:
            # enough for several collections
            src.append("i = 0\nwhile (i < %d): u = list(%d), i = i + 1." % (c.n(1, 60), c.n(10, 9000)))
        else:
            n = c.pick(["alpha", "beta", "gamma", "tag", "v"])
            src.append("t = (%s=%d)\nt('%s') say" % (n, len(n), n))
            out.append("%d\n" % len(n))
    return "\n".join(src + ["nil"]) + "\n", "".join(out)


def gen(c):
    steps, alive, exp, nt = [], {}, "", 0
    for _ in range(c.n(2, 14)):
        k = c.raw(10)
        if not alive or k < 2 and len(alive) < 6:
            s = c.pick([i for i in range(6) if i not in alive])
            alive[s] = World()
            steps.append(["new", s])
            nt = max(nt, len(alive))
            exp += "==\n"
        elif k == 2:
            s = c.pick(sorted(alive))
            del alive[s]
            steps.append(["del", s])
            exp += "==\n"
        else:
            s = c.pick(sorted(alive))
            w = alive[s]
            jit = c.bool()
            if c.bool(2, 3) or w.done:
                src, e = stateful(c, w)
            else:
                w.done = w.done or c.bool(1, 4)
                src, e = program(c, jit, w.done)
            steps.append(["run", s, int(jit), src])
            exp += e + "==\n"
    return {"steps": steps, "exp": exp, "nt": nt > 1}


def gen_threads(c):
    steps, exp = [], ""
    for _ in range(c.n(1, 3)):
        jit = int(c.bool())
        times = c.n(1, 4)
        ps = []
        for _ in range(c.n(2, 8)):
            if c.bool(1, 3):
                ps.append(stateful(c, World()))
            else:
                ps.append(program(c, jit, c.bool(1, 4)))
            exp += ps[-1][1] * times + "--\n"
        steps.append(["par", jit, times, [p[0] for p in ps]])
        exp += "==\n"
    return {"steps": steps, "exp": exp, "nt": True}


# what holds of every number i, and of K, the thread's own one: statements which count what does not
HOLDS = [
    "x = k string\n  if (x number != k): n = n + 1.",
    "x = ('k', i + K) join\n  if (x slice(1, nil) number != i + K): n = n + 1.",
    "x = k * 0.5, y = x string number\n  if (y < x): n = n + 1.\n  if (y > x): n = n + 1.",
    "if ((i, K, 'z') string != ('(', i, ', ', K, ', z)') join): n = n + 1.",
    "t = (i % 7, K % 5, 3, i % 3, 9, i % 11) sort(true)\n  if (t(0) > t(1)): n = n + 1.\n  if (t(5) < t(4)): n = n + 1.",
    "t = (a=i, b=K)\n  t put(i, K)\n  if (t(i) != K): n = n + 1.\n  if (t('a') != i): n = n + 1.",
    "x = 65 + k % 26\n  if (x chr ord != x): n = n + 1.",
    "x = i % 9\n  if (('aöü€bzxé9' slice(x, x + 1)) != 'aöü€bzxé9'(x)): n = n + 1.",
    "b = ('x', i) join bytes\n  b append('yz')\n  if (b string != ('x', i, 'yz') join): n = n + 1.",
    "f = (a): a + K.\n  if (f(i) != i + K): n = n + 1.",
    "o = Own(i + K)\n  if (o get != i + K): n = n + 1.",
    "if ((i, i + K) cmp((i, i + K)) != 0): n = n + 1.",
    "x = 0\n  (i, K, 1) each (v): x = x + v.\n  if (x != i + K + 1): n = n + 1.",
    "x = 0\n  3 times (j): x = x + j * i.\n  if (x != i * 3): n = n + 1.",
    "x = k * 1.0, y = k ** 2\n  if (y sqrt string != x string): n = n + 1.",
    "x = 0.25 * i\n  if (x integer != i / 4): n = n + 1.",
    "if ((i, 'a', K) join(', ') != ((i string + ', a, ') + K string)): n = n + 1.",
    "l = [p (a=i) 'q']\n  if (l string != ('[p q (a=', i, ')]') join): n = n + 1.",
    "if (i % 50 == 0): if (('a = ', i, ', a + ', K) join eval != i + K): n = n + 1..",
]


def busy(c):
    """threads which turn values of their own into texts, tuples and back, at the same time"""
    js = c.shuffle(list(range(len(HOLDS))))[:c.n(1, 4)]
    ps = []
    for i in range(c.n(2, 8)):
        src = ["Own = class (x): /x = x.\nOwn get = (): /x.\nK = %d\nn = 0\ni = 0\nk = K\nwhile (i < %d):" % (10 ** c.n(0, 6) * (i + 1), c.n(3, 6) * 1000 // len(js))]
        src += ["  " + HOLDS[j] for j in (js if c.bool(2, 3) else js[::-1])]
        ps.append("\n".join(src + ["  i = i + 1\n  k = i + K\n.\nn say\nnil"]) + "\n")
    return {"steps": [["par", int(c.bool()), 1, ps]], "exp": "0\n--\n" * len(ps) + "==\n", "nt": True}


def check(ctx, case):
    lines, n = [], 0
    for st in case["steps"]:
        if st[0] == "run":
            n += 1
            lines.append("run %d %d %s" % (st[1], st[2], ctx.write("p%d.pn" % n, st[3])))
        elif st[0] == "par":
            fs = []
            for s in st[3]:
                n += 1
                fs.append(ctx.write("p%d.pn" % n, s))
            lines.append("par %d %d %s" % (st[1], st[2], " ".join(fs)))
        else:
            lines.append("%s %d" % tuple(st))
    r = ctx.run([ctx.extra], stdin=("\n".join(lines) + "\n").encode())
    return common.diff(case["exp"], r, "the process")


def show(case):
    return [st[:3] + [x[:400] for x in (st[3] if st[0] == "par" else [st[3]])] if len(st) > 2 else st for st in case["steps"]]


PARTS = [Part("histories", gen, check, 3500, 100000, nontrivial=lambda k: k["nt"], show=show),
         Part("threads", gen_threads, check, 1500, 50000, show=show),
         Part("busy threads", busy, check, 300, 10000, show=show)]
