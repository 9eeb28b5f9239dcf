"""Program checks: one generated program, its expected output, both back ends."""
import re
from .. import lang, progs


def diff(exp, r, mode):
    got = r.out.decode("utf-8", "backslashreplace")
    if " fd: #>" in exp:
        got = re.sub(r" fd: \d+>", " fd: #>", got)
    if r.rc != 0:
        return "%s: exit status %d after %r (stderr %r)" % (mode, r.rc, got[-200:], r.err[-200:].decode("latin1"))
    if got != exp:
        a, b = exp.splitlines(), got.splitlines()
        for i in range(max(len(a), len(b))):
            x = a[i] if i < len(a) else "<end>"
            y = b[i] if i < len(b) else "<end>"
            if x != y:
                return "%s: line %d: expected %r, got %r" % (mode, i + 1, x[:300], y[:300])
        return "%s: expected %r, got %r" % (mode, exp[-100:], got[-100:])
    return None


def run_program(ctx, case, modes=("-B", "-X")):
    if case.get("exp") is None:
        return None
    for m in case.get("modes", modes):
        d = diff(case["exp"], ctx.src(case["src"], m), {"-B": "bytecode VM", "-X": "JIT"}[m])
        if d:
            return d
    return None


def progcase(c, profile, need=(), fuel=20000, styled=True):
    prog = progs.program(c, **profile)
    exp, st = lang.expected(prog, fuel)
    for k in st:
        if k.startswith("discard"):
            c.tag("outside the model")
        else:
            c.tag("runs " + k)
    src = progs.source(c, prog, styled)
    return {"src": src, "exp": exp, "nt": exp is not None and any(st.get(k) for k in need)}


def show(case):
    return {"source": case["src"], "expected": case["exp"]}
