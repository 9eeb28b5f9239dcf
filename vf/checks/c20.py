"""Buffered files: a stream is the file, whatever is buffered."""
import os
import re
import subprocess
import tempfile
from ..engine import Part
from .. import strs, build
from . import common, c14, c19

ID = "C20"
RULE = ("histories of operations on streams (opened by name in each mode, temporary, over bytes in memory, reopened) - characters, lines, blocks, seeking, flushing, the end of file, closing, removing - are compared with a model of "
        "position, end-of-file flag and contents, and so are the files left behind; some run under generated schedules of collections; non-trivial: two streams or more, and a seek between reads and writes")
ASSUMPTIONS = ["as in C, reads and writes on one stream are separated by a seek, and a stream is not used after it has been closed",
               "fread stays within the length of its buffer"]


def prepare(paths):
    base = {}
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "t.pn")
        os.symlink(paths.lib, os.path.join(d, "lib"))
        with open(f, "w") as o:
            o.write("load 'buffile'\nfopen('probe', 'w') say\n")
        for m in ("-B", "-X"):
            r = subprocess.run([paths.potion, m, f], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            base[m] = int((re.search(rb"fd: ([0-9]+)>", r.stdout) or [0, b"3"])[1])
    g = build.build("gc")
    return {"base": base, "gc": g.potion, "gclib": g.lib, "lib": paths.lib}


class Stream:
    def __init__(self, path, buf, r, w, app, fd, mem=None):
        self.path, self.buf, self.r, self.w, self.app, self.fd, self.mem = path, buf, r, w, app, fd, mem
        self.pos, self.eof, self.last, self.unsure = 0, False, None, app
        self.file = path        # the file it is on, also when it has no name


NAMES = ["f0", "f1", "f2", "f3", "ö 4"]


class World:
    def __init__(self, c, memory=False):
        self.c = c
        self.files = {}
        for i in range(c.n(0, 3)):
            self.files["f%d" % i] = bytearray(self.blob())
        self.init = {k: bytes(v) for k, v in self.files.items()}
        self.h, self.data = {}, {}
        self.lines, self.out = ["load 'buffile'"], []
        self.seeks = self.most = 0
        self.lost = set()       # descriptors no stream can close any more
        self.memory = memory

    def blob(self):
        c = self.c
        k = c.raw(6)
        if k == 5:
            return (b"%09d\n" * 1000) % tuple(range(1000)) * c.n(2, 8)
        if k == 0:
            return bytes(c.n(1, 255) for _ in range(c.n(0, 60)))
        if k == 1:
            return b"".join(bytes([c.n(97, 122)]) * c.pick([0, 3, 100, 1021, 1022, 1023, 1024, 2046, 4095, 4096, 4097]) + b"\n" for _ in range(c.n(1, 5)))
        if k == 2:
            return bytes(range(1, 256)) * c.n(1, 20)
        return "\n".join(strs.text(c, 30).replace("\0", "") for _ in range(c.n(0, 6))).encode()

    def say(self, src, text):
        self.lines.append(src)
        self.out.append(text if isinstance(text, bytes) else text.encode())
        self.out.append(b"\n")

    def fd(self):
        used = {s.fd for s in self.h.values()} | self.lost
        n = 0
        while n in used:
            n += 1
        return n

    def drop(self, v):
        """the variable is about to be used for another stream"""
        if v in self.h:
            self.say("%s close say" % v, "0")
            del self.h[v]

    def opened(self):
        self.most = max(self.most, len(self.h))

    def step(self):
        c = self.c
        k = "mem" if self.memory and not self.h else c.weighted([(0 if self.memory else 4, "open"), (5, "write"), (2, "fputs"), (2, "fputc"), (3, "fgets"), (3, "fgetc"), (4, "fread"), (4, "seek"), (3, "tell"), (2, "eof"), (2, "flush"), (2, "close"),
                        (1, "unlink"), (1, "string"), (0 if self.memory else 1, "tmp"), (3 if self.memory else 0, "mem"), (1, "reopen"), (1, "junk"), (1, "bad"), (1, "cat")])
        if k == "bad":
            q = c.raw(2)
            if q == 0:
                self.say("fopen('none', 'r%s') print, '.' say" % c.pick(["", "+", "b"]), "** Error open: No such file or directory\n.")
            else:
                self.say("fopen('no/f0', '%s') print, '.' say" % c.pick(sorted(c19.MODES)), "** Error open: No such file or directory\n.")
            return
        if k == "cat":
            free = [p for p in NAMES if p in self.files and not any(s.file == p for s in self.h.values()) and self.files[p] and 0 not in self.files[p]]
            if free:
                p = c.pick(free)
                self.say("x = File(%s, 'r'), x read(50) print, x close, '.' say" % strs.literal(c, p), bytes(self.files[p][:50]) + b".")
            return
        if k == "junk":
            if not self.memory:
                self.lines.append(c.pick(["list(30000)", "200 times (i): ('j', i) string.", "list(70000)"]))
            return
        if k == "open" or not self.h and k not in ("mem", "tmp"):
            free = [p for p in NAMES if not any(s.file == p for s in self.h.values())]
            if not free:
                return
            p, m = c.pick(free), c.pick(sorted(c19.MODES))
            r, w, creat, trunc, app = c19.MODES[m]
            v = "h%d" % c.n(0, 3)
            self.drop(v)
            src = "%s = fopen(%s, '%s')" % (v, strs.literal(c, p), m if c.bool(3, 4) else m[0] + "b" + m[1:])
            self.lines.append(src)
            if p not in self.files and not creat:
                self.say("%s print, '.' say" % v, "** Error open: No such file or directory\n.")
                return
            if trunc or p not in self.files:
                self.files[p] = bytearray()
            self.h[v] = Stream(p, self.files[p], r, w, app, self.fd())
            self.opened()
            if c.bool(1, 8) and len(self.lost) < 4:
                # another stream over the descriptor, which has no name
                fd = self.h[v].fd
                self.lost.add(self.fd())
                self.lines.append("e = %s\n%s = tmpfile\n%s fdopen(e fileno, '%s')" % (v, v, v, m))
                self.h[v].path = None
                self.say("%s fileno say" % v, "%%FD%d%%" % fd)
                c.tag("over a descriptor")
            return
        if k == "tmp":
            v = "h%d" % c.n(0, 3)
            self.drop(v)
            self.lines.append("%s = tmpfile" % v)
            self.h[v] = Stream(None, bytearray(), 1, 1, 0, self.fd())
            self.opened()
            return
        if k == "mem":
            v = "h%d" % c.n(0, 3)
            self.drop(v)
            b = (strs.text(c, 60).replace("\0", "") or "x").encode()
            m = c.pick(["r", "r+"])
            x = "m" + v[1]
            self.lines.append("%s = %s bytes" % (x, strs.literal(c, b.decode())))
            self.lines.append("%s = %s fmemopen('%s')" % (v, x, m))
            # as glibc mixes up positions when both are done on a stream over memory, r+ is for writing only
            self.h[v] = Stream(None, bytearray(b), m == "r", m == "r+", 0, None, x)
            self.opened()
            return
        v = c.pick(sorted(self.h))
        s = self.h[v]
        if k in ("write", "fputs", "fputc"):
            self.write(v, s, k)
        elif k in ("fgets", "fgetc", "fread"):
            self.read(v, s, k)
        elif k == "seek":
            self.seek(v, s)
        elif k == "tell":
            if not s.unsure:
                self.say("%s ftell say" % v, str(s.pos))
        elif k == "eof":
            self.say("%s feof say" % v, "true" if s.eof else "false")
        elif k == "flush":
            self.say("%s fflush say" % v, "true")
            if s.mem and s.w and 0 not in s.buf:
                self.say("%s say" % s.mem, bytes(s.buf))
        elif k == "close":
            self.say("%s close say" % v, "0")
            del self.h[v]
            if s.mem and s.w and 0 not in s.buf:
                self.say("%s say" % s.mem, bytes(s.buf))
        elif k == "unlink":
            if s.mem:
                return
            del self.h[v]
            if s.path:
                self.say("%s unlink say" % v, "true")
                del self.files[s.path]
            else:
                self.say("%s unlink kind say" % v, "Error")
        elif k == "string":
            if s.path:
                self.say("%s say" % v, "<buffile %s fd: %%FD%d%%>" % (s.path, s.fd))
            if s.fd is not None:
                self.say("%s fileno say" % v, "%%FD%d%%" % s.fd)
        elif k == "reopen":
            free = [p for p in NAMES if not any(t.file == p and t is not s for t in self.h.values())]
            p, m = c.pick(free), c.pick(sorted(c19.MODES))
            r, w, creat, trunc, app = c19.MODES[m]
            if s.mem or p not in self.files and not creat:
                return
            self.lines.append("%s freopen(%s, '%s', %s)" % (v, strs.literal(c, p), m, v))
            if trunc or p not in self.files:
                self.files[p] = bytearray()
            self.h[v] = Stream(p, self.files[p], r, w, app, s.fd)
            c.tag("reopened")

    def turn(self, v, s, to):
        """as C asks for between reading and writing"""
        if s.last and s.last != to and s.r and s.w:
            self.seek(v, s, plain=True)
        s.last = to

    def seek(self, v, s, plain=False):
        c = self.c
        self.seeks += 1
        n = len(s.buf)
        wh = c.raw(3)
        if s.unsure:
            wh = 0
        to = c.pick([0, n, s.pos, n // 2]) if c.bool() else c.n(0, n)
        if not plain and not s.mem and s.w and not s.app and c.bool(1, 8):
            to = n + (c.n(1, 50) if c.bool(3, 4) or n > 70000 else c.n(20000, 40000))
        if plain and c.bool():
            wh, to = (1, s.pos) if not s.unsure else (0, 0)
        if not plain and c.bool(1, 10) and not s.unsure:
            off = -c.n(1, 9)
            if wh == 1:
                off -= s.pos
            if wh == 2:
                off -= n
            self.say("%s fseek(%d, %d) print, '.' say" % (v, off, wh), "** Error fseek: Invalid argument\n.")
            return
        off = to - (0, s.pos, n)[wh]
        self.say("%s fseek(%d, %d) say" % (v, off, wh), "true")
        s.pos, s.eof, s.last, s.unsure = to, False, None, False

    def write(self, v, s, k):
        c = self.c
        if s.w:
            self.turn(v, s, "w")
        q = c.raw(6)
        if k == "fputc":
            b = c.pick([0, 10, 127, 128, 255, 256, 300]) if c.bool(1, 3) else c.n(32, 126)
            if not s.w:
                self.say("%s fputc(%d) say" % (v, b), "-1")
                return
            if s.mem and s.pos >= len(s.buf):
                return
            self.say("%s fputc(%d) say" % (v, b), str(b & 255))
            self.put(s, bytes([b & 255]))
            return
        if self.data and q == 0:
            x = c.pick(sorted(self.data))
            if c.bool(1, 3):
                t = strs.text(c, 300).replace("\0", "")
                self.lines.append("%s append(%s)" % (x, strs.literal(c, t)))
                self.data[x] += t.encode()
            src, b = x, self.data[x]
        else:
            t = strs.text(c, 60).replace("\0", "") if c.bool(3, 4) else c.pick(["ab", "é", "0123456789\n"]) * c.n(0, 900)
            src, b = strs.literal(c, t), t.encode()
            if q == 1:
                src += " bytes"
        if k == "fputs":
            if 0 in b or not b:
                return
            if not s.w:
                self.say("%s fputs(%s) say" % (v, src), "-1")
                return
            if s.mem and s.pos + len(b) > len(s.buf):
                return
            self.say("%s fputs(%s) kind say" % (v, src), "Number")
            self.put(s, b)
            return
        if not b:
            return
        items, size = 1, len(b)
        arg = "nil, 1"
        if q > 2:
            size = c.n(1, len(b))
            items = c.n(1, len(b) // size)
            arg = "%d, %d" % (size, items)
        if s.mem and s.pos + size * items > len(s.buf):
            return
        if not s.w:
            self.say("%s write(%s, %s) print, '.' say" % (v, src, arg), "** Error fwrite: Bad file descriptor\n.")
            return
        self.say("%s write(%s, %s) say" % (v, src, arg), str(items))
        self.put(s, b[:size * items])

    def put(self, s, b):
        if not b:
            return
        if s.app:
            s.pos, s.unsure = len(s.buf), False
        if s.pos > len(s.buf):
            s.buf.extend(bytes(s.pos - len(s.buf)))
        s.buf[s.pos:s.pos + len(b)] = b
        s.pos += len(b)

    def read(self, v, s, k):
        c = self.c
        if s.mem and not s.r:
            return
        if not s.r:
            if k == "fgetc":
                self.say("%s fgetc say" % v, "-1")
            elif k == "fgets":
                self.say("%s fgets say" % v, "nil")
            else:
                self.lines.append("b = 'abc' bytes")
                self.say("%s fread(b, 1, 2) print, b say" % v, "** Error fread: Bad file descriptor\nabc")
            return
        if s.unsure:
            self.seek(v, s, plain=True)
        self.turn(v, s, "r")
        left = bytes(s.buf[s.pos:]) if not s.eof else b""
        if k == "fgetc":
            for _ in range(c.n(1, 3)):
                self.say("%s fgetc say" % v, str(left[0]) if left else "-1")
                if left:
                    s.pos += 1
                    left = left[1:]
                else:
                    s.eof = True
        elif k == "fgets":
            x = "d%d" % c.n(0, 3)
            self.lines.append("%s = %s fgets" % (x, v))
            j = left.find(b"\n") + 1 or len(left)
            if j > 1023:
                j = 1023
            line = left[:j]
            s.pos += len(line)
            if len(line) < 1023 and not line.endswith(b"\n"):
                s.eof = True
            if not line:
                self.data.pop(x, None)
                self.say("%s say" % x, "nil")
                return
            if 0 in line:
                line = line[:line.index(0)]
            self.data[x] = line
            self.say("%s length say" % x, str(len(line)))
            self.say("%s print, '.' say" % x, line + b".")
        else:
            full = strs.text(c, 60).replace("\0", "") if c.bool(2, 3) else "x" * c.n(1, 6000)
            if not full:
                return
            x = "d%d" % c.n(0, 3)
            self.lines.append("%s = %s bytes" % (x, strs.literal(c, full)))
            full = full.encode()
            size = c.n(1, min(len(full), 9)) if c.bool() else c.n(1, len(full))
            n = c.n(1, len(full) // size)
            got = left[:size * n]
            s.pos += len(got)
            self.data[x] = got + full[len(got):]
            if len(got) < size * n:
                s.eof = True
                self.say("%s fread(%s, %d, %d) kind say" % (v, x, size, n), "Error")
            else:
                self.say("%s fread(%s, %d, %d) say" % (v, x, size, n), str(n))
            if 0 in self.data[x]:
                self.say("%s length say" % x, str(len(full)))
            else:
                self.say("%s say" % x, self.data[x])


def memory(c):
    return gen(c, True)


def gen(c, memory=False):
    w = World(c, memory)
    for _ in range(c.n(4, 12 if memory else 40)):
        w.step()
        if memory and sum(map(len, w.lines)) > 1500:
            break  # no collection happens in so short a program: see the known finding
    tr = lambda b: bytes(b).decode("latin1")
    k = {"src": "\n".join(w.lines) + "\n", "exp": tr(b"".join(w.out)), "init": {a: tr(v) for a, v in w.init.items()},
         "end": {a: tr(v) for a, v in w.files.items()}, "nt": (w.most > 1 or memory) and w.seeks > 0}
    if not memory and c.bool(1, 4):
        k["sched"] = c14.schedule(c)
    return k


def check(ctx, case, sub=None):
    sub = sub or (lambda s, m: re.sub("%FD([0-9]+)%", lambda x: str(int(x.group(1)) + ctx.extra["base"][m]), s))
    sched = case.get("sched")
    for m in ("-B", "-X"):
        d = ctx.fresh("fs")
        os.symlink(ctx.extra["gclib" if sched else "lib"], os.path.join(d, "lib"))
        for k, v in case["init"].items():
            with open(os.path.join(d, k), "wb") as f:
                f.write(v.encode("latin1"))
        src, s = sub(case["src"], m), sched
        if sched and m == "-X":
            src, s = "list(60000)\n" + src, "@400000:" + sched
        f = ctx.write("t.pn", src)
        if sched:
            r = ctx.run([ctx.extra["gc"], m, f], cwd=d, env={"POTION_GC_SCHEDULE": s})
        else:
            r = ctx.run([ctx.potion, m, f], cwd=d)
        r.out = r.out.decode("latin1").encode()
        e = common.diff(sub(case["exp"], m), r, {"-B": "bytecode VM", "-X": "JIT"}[m] + (" collecting at " + s if s else ""))
        if e:
            return e
        got = {k: open(os.path.join(d, k), "rb").read().decode("latin1") for k in os.listdir(d) if k != "lib"}
        if got != case["end"]:
            for k in sorted(set(got) | set(case["end"])):
                if got.get(k) != case["end"].get(k):
                    return "%s: file %r: expected %r, got %r" % (m, k, case["end"].get(k, "none")[:300], got.get(k, "none")[:300])
    return None


STALE = {"src": "load 'buffile'\nb = 'abcdefgh' bytes\nh = b fmemopen('r')\n200 times (i): list(2000).\nh fgets say\nb say\n", "exp": "abcdefgh\nabcdefgh\n", "init": {}, "end": {}, "nt": True, "sched": "20000,@500000,@900000,@1500000f,@2000000"}
SHOW = lambda k: {"source": k["src"], "expected": k["exp"], "before": k["init"], "after": k["end"], "collections": k.get("sched")}
PARTS = [Part("streams", gen, check, 3000, 150000, nontrivial=lambda k: k["nt"], show=SHOW),
         Part("memory", memory, check, 700, 30000, nontrivial=lambda k: k["nt"], show=SHOW)]
