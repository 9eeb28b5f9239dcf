"""Files: what is written is what is read, by bytes, position and mode."""
import os
import re
import struct
import subprocess
import tempfile
from ..engine import Part
from .. import strs, numsem
from . import common

ID = "C19"
RULE = ("histories of operations on several handles of several files (opening in each mode, also twice, missing files and directories; reading and writing text, bytes, integers, fractions, booleans and other values; "
        "copies of binary contents; closing, use after closing, handles for descriptors) and reading of lines from standard input are compared with a model of files, descriptions and descriptors, "
        "and so are the contents of the files afterwards; non-trivial: at least two handles open at once, or more than 1000 bytes in one operation")
ASSUMPTIONS = ["local regular files: reads and writes are not cut short by the system", "at most 140000 bytes are read at once, as the buffer is on the stack"]


def prepare(paths):
    """the first descriptor a program gets"""
    base = {}
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "t.pn")
        with open(f, "w") as o:
            o.write("File('probe', 'w') say\n")
        for m in ("-B", "-X"):
            r = subprocess.run([paths.potion, m, f], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            base[m] = int((re.search(rb"fd: ([0-9]+)>", r.stdout) or [0, b"3"])[1])
    return base


class Desc:
    def __init__(self, name, r, w, app):
        self.name, self.r, self.w, self.app, self.pos = name, r, w, app, 0


MODES = {"r": (1, 0, 0, 0, 0), "r+": (1, 1, 0, 0, 0), "w": (0, 1, 1, 1, 0), "w+": (1, 1, 1, 1, 0), "a": (0, 1, 1, 0, 1), "a+": (1, 1, 1, 0, 1)}


def blob(c):
    k = c.raw(8)
    if k == 7:
        n = c.pick([32767, 32768, 40001, 65535, 65536, 65537, 100000]) + c.n(0, 3)
        return bytes((i * 7 + i // 251) % 256 for i in range(n))
    k %= 4
    if k == 0:
        return bytes(c.n(0, 255) for _ in range(c.n(0, 60)))
    if k == 1:
        return bytes([c.n(0, 255)]) * c.n(0, 3000) + bytes(range(c.n(1, 256)))
    return strs.text(c, 80).encode()


class World:
    def __init__(self, c):
        self.c = c
        self.files = {}
        self.init = {}
        self.fds = {}
        self.h = {}             # variable -> [fd, path or None]
        self.data = {}          # variable -> bytes
        self.out, self.lines = [], []
        self.nt = False
        for i in range(c.n(0, 3)):
            self.files["f%d" % i] = bytearray(blob(c))
        self.init = {k: bytes(v) for k, v in self.files.items()}

    def say(self, src, text):
        self.lines.append(src)
        self.out.append(text if isinstance(text, bytes) else text.encode())
        self.out.append(b"\n")

    def step(self):
        c = self.c
        k = c.weighted([(4, "open"), (6, "write"), (6, "read"), (2, "print"), (2, "close"), (1, "fd"), (1, "string"), (1, "bad"), (2, "copy"), (2, "look"), (1, "junk"), (2, "grow")])
        n = len(self.lines)
        if k == "open" or not self.h and k != "bad":
            m = c.pick(sorted(MODES))
            p = c.pick(["f0", "f1", "f2", "f3", "ö 4"])
            r, w, creat, trunc, app = MODES[m]
            v = "h%d" % c.n(0, 4)
            self.lines.append("%s = File(%s, '%s')" % (v, strs.literal(c, p), m))
            if p not in self.files and not creat:
                self.say("%s print, '.' say" % v, "** Error open: No such file or directory\n.")
                self.h.pop(v, None)
                return
            if trunc or p not in self.files:
                self.files[p] = bytearray()
            fd = 0                # counted from the first which is free
            while fd in self.fds:
                fd += 1
            self.fds[fd] = Desc(p, r, w, app)
            self.h[v] = [fd, p]
            if len(self.fds) > 1:
                self.nt = True
            return
        if k == "bad":
            q = c.raw(4)
            if q == 0:
                self.say("File('f0', %s) say" % c.pick(["'x'", "''", "'rw'", "'R'", "'r '", "'wb'"]), "nil")
            elif q == 1:
                self.say("File('.', 'w') print, '.' say", "** Error open: Is a directory\n.")
            elif q == 2:
                self.say("File('no/f0', '%s') print, '.' say" % c.pick(sorted(MODES)), "** Error open: No such file or directory\n.")
            else:
                self.say("File('d', '%s') print, '.' say" % c.pick(["w", "r+", "a"]), "** Error open: Is a directory\n.")
            return
        if k == "grow":
            x = c.pick(["g0", "g1"])
            if x not in self.data or c.bool(1, 3):
                s = "a" + strs.text(c, 12)
                self.lines.append("%s = %s bytes" % (x, strs.literal(c, s)))
                self.data[x] = s.encode()
            s = strs.text(c, 20)
            m = c.pick([1, 1, 2, 3, 20, 200])
            self.lines.append("%d times: %s append(%s)." % (m, x, strs.literal(c, s)))
            self.data[x] += s.encode() * m
            return
        v = c.pick(sorted(self.h))
        fd, path = self.h[v]
        d = self.fds.get(fd)
        if k == "write":
            q = c.raw(8)
            if q < 3:
                s = strs.text(c, 60) if c.bool(3, 4) else c.pick(["ab", "é", "0123456789\n"]) * c.n(0, 900)
                src, b = strs.literal(c, s), s.encode()
                if c.bool(1, 3):
                    src = "(%s bytes)" % src if 0 else "%s bytes" % src
            elif q == 3:
                i = c.pick([0, 1, -1, 255, 256, 2 ** 31, -2 ** 31, 2 ** 61 - 1, -2 ** 61]) if c.bool() else c.n(-10 ** 6, 10 ** 6)
                src, b = numsem.lit(i), struct.pack("<q", i)
            elif q == 4:
                x = c.n(-10 ** 6, 10 ** 6) / c.pick([2, 3, 7, 1000]) + 0.125
                src, b = numsem.lit(x), struct.pack("<d", x)
            elif q == 5:
                t = c.bool()
                src, b = "true" if t else "false", b"\x01" if t else b"\x00"
            elif q == 6 and self.data:
                x = c.pick(sorted(self.data))
                src, b = x, self.data[x]
                c.tag("bytes read are written")
            else:
                self.say("%s write(nil) say" % v, "nil")
                return
            self.write("%s write(%s) say" % (v, src), d, b, str(len(b)))
        elif k == "print":
            src, s = c.pick([("12", "12"), ("(1, 'é')", "(1, é)"), ("nil", "nil"), ("true", "true"), ("1.5", "1.5"), ("''", ""), ("(k=2)", "(k=2)"), ("'text\n'", "text\n")])
            self.write("%s print(%s) say" % (v, src), d, s.encode(), "")
        elif k == "read" or k == "copy":
            m = c.weighted([(4, c.n(1, 30)), (2, c.n(0, 3)), (2, c.n(100, 5000)), (1, c.n(5000, 40000)), (1, c.n(32000, 140000))])
            if d is None or not d.r:
                self.say("%s read(%d) print, '.' say" % (v, m), "** Error read: Bad file descriptor\n.")
                return
            b = bytes(self.files[d.name][d.pos:d.pos + m])
            d.pos += len(b)
            x = "b%d" % c.n(0, 3)
            self.lines.append("%s = %s read(%d)" % (x, v, m))
            if len(b) > 1000:
                self.nt = True
            if not b:
                self.data.pop(x, None)
                self.say("%s say" % x, "nil")
                return
            self.data[x] = b
            self.say("%s length say" % x, str(len(b)))
            if k == "read":
                self.look(x)
        elif k == "look":
            if self.data:
                self.look(c.pick(sorted(self.data)))
        elif k == "close":
            self.say("%s close say" % v, "nil")
            self.fds.pop(fd, None)
            self.h[v] = [-1, path]
        elif k == "fd":
            if fd in self.fds:
                w = "h%d" % c.n(0, 4)
                self.lines.append("%s = File fd(%%FD%d%%)" % (w, fd))
                self.h[w] = [fd, None]
                c.tag("second handle for a descriptor")
        elif k == "string":
            self.say("%s say" % v, "<closed file>" if fd == -1 else "<file %s fd: %%FD%d%%>" % (path, fd) if path else "<file fd: %%FD%d%%>" % fd)
        elif k == "junk":
            self.lines.append(c.pick(["list(30000)", "200 times (i): ('j', i) string.", "list(70000)"]))

    def write(self, src, d, b, ret):
        if d is None or not d.w:
            self.say(src.replace(" say", " print, '.' say") if 0 else src[:-4] + " print, '.' say", "** Error write: Bad file descriptor\n.")
            return
        f = self.files[d.name]
        if d.app and b:
            d.pos = len(f)
        if len(b):
            if d.pos > len(f):
                f.extend(bytes(d.pos - len(f)))
            f[d.pos:d.pos + len(b)] = b
            d.pos += len(b)
        if len(b) > 1000:
            self.nt = True
        self.say(src, ret)

    def look(self, x):
        c, b = self.c, self.data[x]
        if 0 not in b and c.bool(2, 3):
            self.say("%s say" % x, b)
        else:
            i = [j for j in sorted(set(c.pick([0, len(b) - 1, len(b) // 2, c.n(0, len(b) - 1)]) for _ in range(4))) if b[j]]
            if i:
                self.say("%s, '' say" % ", ".join("%s(%d) print" % (x, j) for j in i), bytes(b[j] for j in i))
            self.say("%s(%d) say" % (x, len(b)), "nil")


def gen(c):
    w = World(c)
    for _ in range(c.n(4, 30)):
        w.step()
    tr = lambda b: bytes(b).decode("latin1")
    return {"src": "\n".join(w.lines) + "\n", "exp": tr(b"".join(w.out)), "init": {k: tr(v) for k, v in w.init.items()},
            "end": {k: tr(v) for k, v in w.files.items()}, "nt": w.nt}


def check(ctx, case):
    for m in ("-B", "-X"):
        d = ctx.fresh("fs")
        os.mkdir(os.path.join(d, "d"))
        for k, v in case["init"].items():
            with open(os.path.join(d, k), "wb") as f:
                f.write(v.encode("latin1"))
        fds = lambda s: re.sub("%FD([0-9]+)%", lambda x: str(int(x.group(1)) + ctx.extra[m]), s)
        src = ctx.write("t.pn", fds(case["src"]))
        r = ctx.run([ctx.potion, m, src], cwd=d)
        r.out = r.out.decode("latin1").encode()
        e = common.diff(fds(case["exp"]), r, {"-B": "bytecode VM", "-X": "JIT"}[m])
        if e:
            return e
        got = {k: open(os.path.join(d, k), "rb").read().decode("latin1") for k in os.listdir(d) if k != "d"}
        if got != case["end"]:
            for k in sorted(set(got) | set(case["end"])):
                if got.get(k) != case["end"].get(k):
                    return "%s: file %r: expected %r, got %r" % (m, k, (case["end"].get(k) or "none")[:300], (got.get(k) or "none")[:300])
    return None


def stdin(c):
    """lines of standard input"""
    b = b""
    for _ in range(c.n(0, 12)):
        k = c.raw(6)
        if k < 3:
            b += strs.text(c, 60).replace("\n", " ").encode()
        elif k == 3:
            b += b"x" * c.pick([1021, 1022, 1023, 1024, 1025, 2045, 2046, 2047, 3000])
        elif k == 4:
            b += c.pick(["é", "a", "乔"]).encode() * c.n(0, 700)
        b += c.pick([b"\n", b"\n", b"\n", b"\r\n", b"\n\n"])
    if c.bool(1, 3):
        b += b"no newline"
    want = []
    i = 0
    while i < len(b):
        j = b.find(b"\n", i)
        j = len(b) if j < 0 else j + 1
        j = min(j, i + 1023)
        want.append(b[i:j])
        i = j
    n = c.n(0, len(want) + 2)
    src = "%d times (i):\n  l = read\n  if (l):\n    l bytes length say, l print, '|' say.\n  else: 'end' say..\n" % n
    out = b"".join(b"%d\n%s|\n" % (len(x), x) for x in want[:n]) + b"end\n" * max(0, n - len(want))
    return {"src": src, "in": b.decode("latin1"), "exp": out.decode("latin1"), "nt": len(b) > 1000}


def check_stdin(ctx, case):
    for m in ("-B", "-X"):
        src = ctx.write("t.pn", case["src"])
        r = ctx.run([ctx.potion, m, src], stdin=case["in"].encode("latin1"))
        r.out = r.out.decode("latin1").encode()
        e = common.diff(case["exp"], r, {"-B": "bytecode VM", "-X": "JIT"}[m])
        if e:
            return e
    return None


def environ(c):
    env = {}
    for i in range(c.n(1, 12)):
        env[c.pick(["A", "POTION_X", "x", "K%d" % i, "Ö", "LONG"])] = strs.text(c, 40).replace("\0", "") if c.bool(3, 4) else "=a=b" * c.n(0, 300)
    ks = sorted(env)
    lines, out = [], []
    for _ in range(c.n(1, 6)):
        k = c.pick(ks + ["NOT_SET"])
        lines.append("Env(%s) say" % strs.literal(c, k))
        out.append(env.get(k, "nil"))
    return {"src": "\n".join(lines) + "\n", "exp": "".join(x + "\n" for x in out), "env": env}


def check_env(ctx, case):
    for m in ("-B", "-X"):
        src = ctx.write("t.pn", case["src"])
        e = common.diff(case["exp"], ctx.run([ctx.potion, m, src], env=case["env"]), {"-B": "bytecode VM", "-X": "JIT"}[m])
        if e:
            return e
    return None


PARTS = [Part("files", gen, check, 4000, 150000, nontrivial=lambda k: k["nt"], show=lambda k: {"source": k["src"], "expected": k["exp"], "before": k["init"], "after": k["end"]}),
         Part("lines", stdin, check_stdin, 800, 30000, nontrivial=lambda k: k["nt"], show=lambda k: {"source": k["src"], "input": k["in"][:500]}),
         Part("environment", environ, check_env, 400, 10000, show=common.show)]
