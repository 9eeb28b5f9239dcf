"""The command line."""
import os
from ..engine import Part
from .. import build
from . import common

ID = "C24"
RULE = ("command lines of any options in any order (back ends, inspection, search directories, modules with and without arguments, code, checking, compiling, unknown options, --, files and arguments which look like options) are run on generated "
        "modules and programs; output, messages and files written are compared with a model of the command line; non-trivial: at least three options of different kinds")
ASSUMPTIONS = ["the debugger, the interactive prompt and the emitters for C and executables, which the source calls unfinished, are not run", "verbose output is only checked to contain the program's output"]

TEXT = ["a", "b c", "-B", "-e", "--", "-I", "x.pn", "é", "'", '"', "1", "--check", "-Lq", ""]


def word(c):
    return c.pick(TEXT) if c.raw(3) else "".join(c.pick("abz09 -_=é☃.,") for _ in range(c.n(0, 8)))


def tup(xs):
    return "(%s)" % ", ".join(xs)


def program(c, mods):
    """a list of statements: (source, effect) — effect('B' or 'X', argv, loaded) gives (lines, goes on)"""
    out = []
    for _ in range(c.n(1, 5)):
        k = c.raw(6)
        if k == 0:
            out.append(("argv say", lambda m, a: ([tup(a)], True)))
        elif k == 1:
            i = c.n(0, 4)
            out.append(("argv(%d) say" % i, lambda m, a, i=i: ([a[i] if i < len(a) else "nil"], True)))
        elif k == 2:
            out.append(("argv length say", lambda m, a: ([str(len(a))], True)))
        elif k == 3:
            t = c.pick(["x", "y z", "é"])
            out.append(("'%s' say" % t, lambda m, a, t=t: ([t], True)))
        elif k == 4:
            # the wrong number of arguments ends the program
            out.append(("f = (x): x say.\nf('p', 'q')", lambda m, a: ([], False)))
        else:
            out.append(("g = (x): x * 2.\ng(21) say", lambda m, a: (["42"], True)))
    v = c.n(0, 99)
    out.append(("%d" % v, lambda m, a: ([], v)))
    return out


def gen(c):
    dirs = ["d1", "d2", "d 3"]
    files, mods = {}, []
    for n in c.shuffle(["Ma", "Mb", "M0c"])[:c.n(0, 3)]:
        d = c.pick(dirs + ["."])
        ar = c.n(0, 2)
        files[d + "/" + n + ".pn"] = "'loading %s' say\n%s = (%s): ('%s called', %s) join(' ') say.\n" % (n, n, ", ".join("xyz"[:ar]), n, ", ".join("xyz"[:ar]) or "0")
        mods.append((n, d, ar))
    prog = program(c, mods)
    src = "\n".join(s for s, _ in prog)
    if c.bool(1, 8):
        src, prog = c.pick(["x = (1", "'a' say\n)", "1 say\nx: y: ("]), None
    name = c.pick(["p.pn", "q r.pn", "é.pn", "d1/p.pn", "noext"])
    pre = src + c.pick(["", "\n"])
    files[name] = pre
    argv, err, mode, insp, act = [], [], "X", False, "run"
    load, path, kinds, target = [], [], set(), "bc"
    head = None
    code, fn = None, None
    for _ in range(c.n(0, 7)):
        k = c.raw(11)
        kinds.add(k)
        if k == 0:
            argv.append(c.pick(["-B", "--bytecode"]))
            mode, act = "B", "run"
        elif k == 1:
            argv.append(c.pick(["-X", "--x86"]))
            mode, act = "X", "run"
        elif k == 2:
            argv.append(c.pick(["-I", "--inspect"]))
            insp = True
        elif k == 3:
            d = c.pick(dirs)
            argv += ["-L", d] if c.bool() else ["-L" + d]
            path.append(d)
        elif k < 6 and mods:
            n, d, ar = c.pick(mods)
            if d != "." and c.raw(4):
                argv += ["-L", d] if c.bool() else ["-L" + d]
                path.append(d)
            args = [str(c.n(0, 99)) for _ in range(ar)]
            argv.append("-M" + n + ("=" + ",".join(args) if args else c.pick(["", "", "="])))
            load.append((n, d, args or ["0"]))
        elif k == 6:
            argv.append("--check")
            act = "check"
        elif k == 7:
            argv.append(c.pick(["-c", "--compile", "--compile=bc", "--compile=bc", "--compile=nosuch", "--compile=é,x"]))
            act = "compile"
            target = argv[-1].split("=")[1].split(",")[0] if "=" in argv[-1] else "bc"
        elif k == 8:
            u = c.pick(["-q", "--foo", "-Bx", "--inspec", "-", "--compil", "---"])
            argv.append(u)
            err.append("** Unrecognized option: %s" % u)
        elif k == 9 and c.bool(1, 4):
            o, head = c.pick([("-v", "potion "), ("--version", "potion "), ("-h", "usage: potion "), ("--help", "usage: potion "), ("-s", "sizeof("), ("--stats", "sizeof(")])
            argv.append(o)
            break
        elif k == 10 and c.bool():
            cd = src
            if prog is None and not mods:
                continue
            argv += ["-e", cd] if c.bool() else ["-e" + cd]
            if argv[-1] == "-e":
                argv.pop()
                argv += ["-e", cd]
            code = (len(load), cd)
    # every -M after -e comes too late for the code, so leave those out
    if code:
        load = load[:code[0]]
    rest = []
    if head is None:
        if c.bool(1, 5):
            argv.append("--")
            dd = True
        else:
            dd = False
        if not code:
            k = c.raw(12)
            fn = name if k else "nosuch.pn"
            argv.append(fn)
        rest = [word(c) for _ in range(c.n(0, 4))]
        if code and not dd and rest and rest[0].startswith("-"):
            rest[0] = "z" + rest[0]
        argv += rest
    # model
    out, files_out, rc = [], {}, 0
    if head is None and fn == "nosuch.pn":
        err.append("** nosuch.pn does not exist.")
    elif head is None and prog is None:
        rc, out = 1, None
        if act == "compile" and code:
            pass
    elif head is None and act == "run":
        a = [fn if not code else "-e"] + rest
        dead = False
        for n, d, args in load:
            if d == "." or d in path:
                out.append("loading " + n)
            elif not any(m == n and (e == "." or e in path) for m, e, _ in mods):
                err.append("** can't find %s" % n)
                # the name is unknown: the machine stops, compiled code goes on with nil
                dead = True
                break
            out.append("%s called %s" % (n, " ".join(args)))
        if dead:
            out, rc = None, None
        else:
            val = None
            for s, f in prog:
                l, v = f(mode, a)
                out += l
                val = v
                if v is False:
                    break
            if insp:
                out.append("** Too many arguments to function(x). Allowed 1, given 2\n" if val is False else str(val))
    elif head is None and act == "compile":
        if code:
            return gen(c)    # -c has no file to compile
        if target != "bc":
            err.append("** failed loading the compile/%s module" % target)
            files_out[fn + "." + target] = False
        else:
          out += ["** compiled code saved to %sb" % fn, "** run it with: potion %sb" % fn]
          files_out[fn + "b"] = True
    k = len(kinds)
    runs = None
    if True in files_out.values():
        a = [fn + "b", "k"]
        lines, dead = [], False
        for n, d, args in load:
            if not any(m == n and (e == "." or e in path) for m, e, _ in mods):
                dead = True
            lines += ["loading " + n, "%s called %s" % (n, " ".join(args))]
        for s, f in prog:
            l, v = f("B", a)
            lines += l
            if v is False:
                break
        runs = None if dead else {"argv": ["-L" + p for p in path] + ["-B", fn + "b", "k"], "out": "".join(x + "\n" for x in lines)}
    return {"argv": argv, "files": files, "out": None if out is None else "".join(x + "\n" for x in out), "head": head, "err": err, "rc": rc, "runs": runs, "made": sorted(files_out), "nt": k >= 3}


def check(ctx, case):
    d = ctx.fresh("cli")
    for n, s in case["files"].items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(s)
    for n in ("d1", "d2", "d 3"):
        os.makedirs(os.path.join(d, n), exist_ok=True)
    before = sorted(os.listdir(d))
    r = ctx.run([ctx.potion] + case["argv"], cwd=d)
    o, e = r.out.decode("utf-8", "replace"), r.err.decode("utf-8", "replace")
    if case["rc"] is not None and r.rc != case["rc"]:
        return "exit %s, expected %s\n%s%s" % (r.rc, case["rc"], o[-300:], e[-300:])
    if case["rc"] is None and r.rc not in (0, 2):
        return "exit %s\n%s%s" % (r.rc, o[-300:], e[-300:])
    if case["head"] is not None:
        if not o.startswith(case["head"]):
            return "expected %r, got %r" % (case["head"], o[:200])
    elif case["out"] is not None and o != case["out"]:
        return "expected output %r, got %r (errors %r)" % (case["out"], o[:2000], e[:300])
    for m in case["err"]:
        if m not in e:
            return "expected the message %r, got %r" % (m, e[:500])
    if case["rc"] == 0 and not case["err"] and e:
        return "unexpected message %r" % e[:500]
    after = sorted(os.listdir(d))
    if case["runs"]:
        q = ctx.run([ctx.potion] + case["runs"]["argv"], cwd=d)
        if q.out.decode("utf-8", "replace") != case["runs"]["out"] or q.rc != 0:
            return "the compiled file: expected %r, got %r, exit %s" % (case["runs"]["out"], q.out[:2000], q.rc)
    elif [x for x in after if x not in case["made"]] != before:
        return "files appeared: %r" % [x for x in after if x not in before]
    return None


def show(case):
    return {"argv": case["argv"], "files": case["files"], "out": case["out"]}


PARTS = [Part("lines", gen, check, 8000, 200000, nontrivial=lambda k: k["nt"], show=show)]
