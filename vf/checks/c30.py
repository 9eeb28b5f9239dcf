"""The memory a program needs follows what it holds, not how long it has run."""
import os, re, resource, signal, subprocess, threading
from .. import build, engine
from ..engine import Part, Hang

ID = "C30"
RULE = ("loops whose every turn makes values of many kinds (strings, tuples, tables, bytes, doubles, closures, objects, licks, errors), drops most of them and keeps a bounded window of others "
        "in tuples, tables, queues and objects, run for n and for several times n turns by the bytecode VM and by the JIT; the peak of resident memory must stay within a quarter and 6 MB of the shorter run's, what is mapped at the end within a quarter and 96 MB; the same of one program with few and with many scheduled collections, minor or full, with 48 MB; "
        "non-trivial: more than one kind of values and at least 100000 turns or 100 collections")
ASSUMPTIONS = ["classes, evaluated source text and continuations are not made in the loop: the first are never freed, the machine code of the second is kept by design, a continuation keeps the stack it was made on"]

# statement of the loop's body -> (setup, body); {i} is the turn, {n} a small number that differs from place to place, {k} a unique suffix
KINDS = {
    "join": ("", "s = ('abc{n}', i string) join"),
    "plus": ("", "s = 'k' + i string"),
    "slice": ("", "j = i * 7919, s = j string slice(1, nil)"),
    "grow": ("g{k} = ''", "g{k} = g{k} + i string\n  if (g{k} length > 600): g{k} = ''."),
    "number": ("", "x = ('1', i string) join number"),
    "tuple": ("", "t = (i, (i, {n}), i + 1)"),
    "push": ("", "t = (1, 2), t push(i), t push(4), t push(5), t push(i string), t push(6)"),
    "ops": ("", "t = (3, i, 2, {n}) reverse, t = t slice(1, 2), t = (t, t) clone, s = t string"),
    "list": ("", "if (i % {n}0 == 0): t = list(i % 700), t(0) = i."),
    "sort": ("", "if (i % {n} == 0): t = (i % 5, 3, i % 7, 1) sort(true)."),
    "table": ("", "t = (a=i, b=(i), c='x')"),
    "puts": ("h{k} = (a=1)", "h{k} put(i, (i)), h{k} remove(i)"),
    "strputs": ("h{k} = (a=1)", "k = ('k', i string) join, h{k} put(k, i), h{k} remove(k)"),
    "dblputs": ("h{k} = (a=1)", "h{k} put('d', i * 0.5)"),
    "delayed": ("h{k} = (a=1)", "h{k} put(('k', i string) join, i string)\n  j = i - {n}0\n  if (j >= 0): h{k} remove(('k', j string) join)."),
    "queue": ("q{k} = (1, 2, 3)", "q{k} push(i * 1.5), q{k} push(i string), q{k} pop, q{k} pop"),
    "window": ("w{k} = list({n}00)", "w{k}(i % {n}00) = (i, i string)"),
    "strwindow": ("w{k} = (a=1)", "w{k} put(i % {n}00, ('str', i string) join)"),
    "chain": ("c{k} = nil", "c{k} = (i, c{k})\n  if (i % {n}00 == 0): c{k} = nil."),
    "rewrite": ("r{k} = (0, 0, 0)", "r{k} put(i % 3, (i, i * 0.5))"),
    "closure": ("mk{k} = (x): (): x + 1..", "f = mk{k}(i), x = f()"),
    "counter": ("ct{k} = (x): (): x = x + 1, (x, x * 0.5) length..\ncc{k} = ct{k}(0)", "x = cc{k}()"),
    "object": ("C{k} = class (x): /x = x, /y = ().\nC{k} add = (v): /y = (/x, v).\n", "o = C{k}(i), o add(i string), s = o"),
    "keep": ("K{k} = class (x): /x = x.\nK{k} set = (v): /x = v.\nko{k} = K{k}(0)", "ko{k} set((i, i string))"),
    "double": ("d{k} = 0.5", "d{k} = d{k} + i * 0.25"),
    "bytes": ("", "b = ('abc', i string) join bytes, b append('def{n}')"),
    "lick": ("", "l = [a (x=i) 'foo{n}']"),
    "error": ("e{k} = (x): x.", "1 times (j): e{k}(i, 2, 3)."),
    "call": ("rc{k} = (n): if (n < 1): ('end', i string) join. else: rc{k}(n - 1)..", "x = rc{k}(i % {n})"),
    "each": ("", "if (i % 4 == 0): (i, 2, 3) each (v): t = (v, i string).."),
    "times": ("", "if (i % 4 == 0): 3 times (j): s = ('t', j string, i string) join.."),
    "big": ("", "x = i * 4611686018427387904"),
    "file": ("", "if (i % 5 == 0): f = File('t.pn', 'r'), s = f read({n}), f close."),
    "cmp": ("", "x = (i, 'a') cmp((i, 'b')), s = (i % 3, i) string hash"),
    "maxmin": ("", "s = (i, (i * 0.5, nil, true, 'x'), 'y') string ord"),
    "print": ("", "if (i % 1000 == 0): i say."),
}


def prepare(paths):
    return build.build("gc").potion


def gen(c):
    names = sorted(KINDS)
    ks = c.shuffle(names)[:c.weighted([(3, c.n(1, 3)), (2, c.n(3, 8))])]
    setup, body = [], []
    for j, k in enumerate(ks):
        c.tag(k)
        a, b = KINDS[k]
        n = c.n(2, 9)
        for l, x in ((setup, a), (body, b)):
            if x:
                l.append(x.replace("{k}", "%d" % j).replace("{n}", "%d" % n))
    place = c.pick(["loop", "function", "block", "closure"])
    lo = c.n(20, 50) * 1000 // max(1, len(ks) // 3)
    return {"setup": "\n".join(setup), "body": "\n  ".join(body), "place": place, "kinds": ks, "lo": lo, "hi": lo * c.n(4, 12)}


# KB; the two generations grow with what is collected late, to some 64 MB at most
MAPPED = 98304

# at its end a program says how many pages are mapped
SIZE = "sf = File('/proc/self/statm', 'r')\n('pages ', sf read(60) string) join say\n"


def source(case, n):
    b = case["body"]
    if case["place"] == "block":
        p = "%d times (i):\n  %s\n.\n" % (n, b)
    else:
        p = "i = 0\nwhile (i < %d):\n  i = i + 1\n  %s\n.\n" % (n, b)
        if case["place"] == "function":
            # the setup's variables are its own
            return "main = ():\n%s\n%s'ok' say.\nmain()\n%s'done' say\n" % (case["setup"], p, SIZE)
        if case["place"] == "closure":
            return "%s\ni = 0\nturn = ():\n  i = i + 1\n  %s\n.\nwhile (i < %d): turn().\n'ok' say\n%s'done' say\n" % (case["setup"], b, n, SIZE)
    return "%s\n%s'ok' say\n%s'done' say\n" % (case["setup"], p, SIZE)


def peak(ctx, argv, timeout=120, env=None):
    """peak of resident memory in KB, exit status, end of the output, KB mapped at the end"""
    out = os.path.join(ctx.dir, "out")
    with open(out, "wb") as f:
        p = subprocess.Popen(argv, cwd=ctx.dir, env={**engine.ENV, **(env or {})}, stdout=f, stderr=f, stdin=subprocess.DEVNULL, start_new_session=True)
    late = []

    def end():
        late.append(1)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    t = threading.Timer(timeout, end)
    t.start()
    try:
        _, st, ru = os.wait4(p.pid, 0)
        p.returncode = os.waitstatus_to_exitcode(st)
    finally:
        t.cancel()
    if late:
        raise Hang("no result after %d s" % timeout)
    with open(out, "rb") as f:
        b = f.read()
    b = b[-200:].decode("utf-8", "replace")
    m = re.search(r"ok\npages (\d+)[ \d]*\n*done\n$", b)
    return ru.ru_maxrss, p.returncode, b, int(m.group(1)) * (resource.getpagesize() // 1024) if m else None


def check(ctx, case):
    for mode, label in (("-B", "bytecode VM"), ("-X", "JIT")):
        m = []
        for n in (case["lo"], case["hi"]):
            r, rc, out, v = peak(ctx, [ctx.potion, mode, ctx.write("t.pn", source(case, n))])
            if rc or v is None:
                return "%s: %d turns: exit status %d, output ends with %r" % (label, n, rc, out[-60:])
            m.append((r, v))
        for what, j, slack in (("need", 0, 6144), ("leave mapped", 1, MAPPED)):
            a, b = m[0][j], m[1][j]
            if b > a * 1.25 + slack:
                return "%s: %d turns %s %.1f MB, %d turns %s %.1f MB" % (label, case["lo"], what, a / 1024, case["hi"], what, b / 1024)


def collected(c):
    """the same turns with few and with many collections"""
    k = gen(c)
    k["lo"] = k["hi"] = c.n(8, 20) * 1000
    k["gap"] = c.n(1, 8) * 16384
    k["full"] = c.pick(["f", "f", ""])
    k["few"] = c.n(3, 10)
    k["many"] = k["few"] + c.n(100, 250)
    return k


def check_collected(ctx, case):
    m = []
    f = ctx.write("t.pn", source(case, case["hi"]))
    for n in (case["few"], case["many"]):
        s = ",".join("%d%s" % (case["gap"], case["full"]) for _ in range(n))
        r, rc, out, v = peak(ctx, [ctx.extra, "-B", f], env={"POTION_GC_SCHEDULE": s})
        if rc or v is None:
            return "%d collections: exit status %d, output ends with %r" % (n, rc, out[-60:])
        m.append((r, v))
    for what, j, slack in (("need", 0, 6144), ("leave mapped", 1, 49152)):
        a, b = m[0][j], m[1][j]
        if b > a * 1.25 + slack:
            return "the same program with %d collections: %s %.1f MB, with %d collections: %s %.1f MB" % (case["few"], what, a / 1024, case["many"], what, b / 1024)


def show(case):
    return {"program": source(case, case["hi"]), "turns": [case["lo"], case["hi"]]}


PARTS = [Part("loops", gen, check, 180, 12000, nontrivial=lambda k: len(k["kinds"]) > 1 and k["hi"] >= 100000, show=show),
         Part("collections", collected, check_collected, 100, 12000, nontrivial=lambda k: len(k["kinds"]) > 1 and k["many"] > 100, show=show)]
