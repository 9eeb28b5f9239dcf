"""The prompt: lines edited at a terminal, read from a pipe, and evaluated one after another."""
import fcntl, os, select, signal, struct, subprocess, termios, time
from ..engine import Part, Hang, ENV
from .. import strs
from . import common

ID = "C32"
RULE = ("sessions of lines typed at a terminal of generated width with generated keys (characters, moves, deletions, swaps, history, words, pasted text of any length), the same lines from a pipe or a terminal without editing, with a history of "
        "earlier sessions, are compared with a model of the line, the cursor, what the terminal shows, the history and its file; sessions of the interactive prompt are compared with a model of the values each line has and prints; "
        "non-trivial: a key besides characters, or several lines that depend on one another")
ASSUMPTIONS = ["the terminal understands the few escape sequences the editor writes, as all terminals do", "lines are ASCII where keys edit them: the editor works on bytes"]

HISTORY = 100
LINE = 4095

ESC = {"left": "\x1b[D", "right": "\x1b[C", "up": "\x1b[A", "down": "\x1b[B", "del": "\x1b[3~", "^a": "\x01", "^b": "\x02", "^d": "\x04", "^e": "\x05", "^f": "\x06", "^h": "\x08", "bs": "\x7f", "^k": "\x0b",
       "^l": "\x0c", "^n": "\x0e", "^p": "\x10", "^t": "\x14", "^u": "\x15", "^w": "\x17"}
NAMES = sorted(ESC)


class Model:
    """an editor of lines with a history, as its keys are documented"""

    def __init__(self, old):
        self.h = list(old)[-HISTORY:]

    def begin(self):
        self.buf, self.pos, self.i = "", 0, 0
        if len(self.h) == HISTORY:
            del self.h[0]
        self.h.append("")

    def key(self, k):
        """False when the key ends the session"""
        b, p = self.buf, self.pos
        if k in ("left", "^b"):
            self.pos = max(0, p - 1)
        elif k in ("right", "^f"):
            self.pos = min(len(b), p + 1)
        elif k in ("bs", "^h"):
            if p:
                self.buf, self.pos = b[:p - 1] + b[p:], p - 1
        elif k == "^d" and not b:
            return False
        elif k in ("del", "^d"):
            self.buf = b[:p] + b[p + 1:]
        elif k == "^a":
            self.pos = 0
        elif k == "^e":
            self.pos = len(b)
        elif k == "^k":
            self.buf = b[:p]
        elif k == "^u":
            self.buf, self.pos = "", 0
        elif k == "^t":
            if 0 < p < len(b):
                self.buf = b[:p - 1] + b[p] + b[p - 1] + b[p + 1:]
                if p != len(b) - 1:
                    self.pos = p + 1
        elif k == "^w":
            q = p
            while q and b[q - 1] == " ":
                q -= 1
            while q and b[q - 1] != " ":
                q -= 1
            self.buf, self.pos = b[:q] + b[p:], q
        elif k in ("up", "^p", "down", "^n"):
            if len(self.h) > 1:
                self.h[-1 - self.i] = b
                j = self.i + (1 if k in ("up", "^p") else -1)
                if 0 <= j < len(self.h):
                    self.i = j
                    self.buf = self.h[-1 - j]
                    self.pos = len(self.buf)
        elif k == "^l":
            pass
        else:
            for x in k:
                if len(self.buf) < LINE:
                    self.buf = self.buf[:self.pos] + x + self.buf[self.pos:]
                    self.pos += 1
        return True

    def end(self):
        self.h.pop()
        self.add(self.buf)
        return self.buf

    def add(self, line):
        if len(self.h) == HISTORY:
            del self.h[0]
        self.h.append(line)

    def row(self, prompt, cols):
        """what the terminal shows, and where its cursor is"""
        n, b, p = len(prompt), self.buf, self.pos
        shift = max(0, n + p - cols + 1)
        return (prompt + b[shift:])[:cols], n + p - shift


def screen(data, cols):
    """the row and the cursor a terminal has after DATA"""
    row, cur, i = [" "] * cols, 0, 0
    while i < len(data):
        x = data[i]
        if x == 27 and data[i + 1:i + 2] == b"[":
            j = i + 2
            while j < len(data) and not 64 <= data[j] < 127:
                j += 1
            if j >= len(data):
                return None
            arg, op = data[i + 2:j].decode("latin1"), chr(data[j])
            n = int(arg) if arg.isdigit() else 0
            if op == "G":
                cur = max(0, n - 1)
            elif op == "C":
                cur = min(cols - 1, cur + max(1, n))
            elif op == "K":
                row[cur:] = [" "] * (cols - cur)
            elif op == "H":
                cur = 0
            elif op == "J":
                row = [" "] * cols
            else:
                return "unexpected sequence %r" % data[i:j + 1], -1
            i = j + 1
            continue
        if x >= 32:
            if cur < cols:
                row[cur] = chr(x)
            cur += 1
        i += 1
    return "".join(row).rstrip(" "), cur


def quote(s):
    return "'%s'" % s.replace("'", "''")


def words(c, most=12):
    return "".join(c.pick(list("abcdefghij") + [" ", " ", "x", "'", '"', "\\", "~", "[", "3", "A", "#", "%", "0"]) for _ in range(c.small(0, most)))


def keys(c):
    """the sessions: lists of keys; text stands for itself"""
    prompt = c.weighted([(4, ">> "), (2, "> "), (1, "?"), (1, "name: "), (1, "%s%n ")])
    cols = c.weighted([(5, 80), (3, c.n(10, 40)), (1, c.n(41, 200)), (1, 0)])
    old = []
    for _ in range(c.weighted([(5, 0), (3, c.n(1, 5)), (1, c.n(95, 105))])):
        old.append(words(c) if len(old) < 8 else "old %d" % len(old))
    lines = []
    total = c.n(98, 110) if c.raw(40) == 39 else c.n(1, 5)
    short = total > 20
    for _ in range(total):
        l = []
        if c.raw(40) == 39 and not short:
            n = c.pick([LINE - 1, LINE, LINE + 1, LINE + 5, c.n(200, 3000)])
            l.append(("".join(chr(33 + (i * 7 + n) % 90) for i in range(n))))
        else:
            for _ in range(c.small(0, 3 if short else 30)):
                k = c.raw(3)
                if k == 0:
                    l.append(words(c) or "a")
                elif k == 1:
                    l.append(c.pick(["left", "bs", "del", "up", "down", "right", "^a", "^d", "^w"]))
                else:
                    l.append(c.pick(NAMES))
        lines.append(l)
    return {"prompt": prompt, "cols": cols, "old": old, "lines": lines, "end": c.pick(["^d", "^c"]), "mode": c.pick(["-B", "-X"])}


def expected(case):
    """what each line is and shows, and the keys up to the one which ends the session"""
    m = Model(case["old"])
    out, sent = [], []
    for l in case["lines"]:
        m.begin()
        s = ""
        for k in l:
            s += ESC.get(k, k)
            if not m.key(k):
                return out, sent + [s]
        row = m.row(case["prompt"], case["cols"] or 80)
        out.append((m.end(), row))
        sent.append(s + "\r")
    return out, sent + ["\x03" if case["end"] == "^c" else "\x04"]


KEYSRC = """load 'readline'
loop:
  l = readline(%s)
  2 chr print
  if (not l): 'end' print, 3 chr print, "\\n" print, break.
  '=' print, l print
  3 chr print
  "\\n" print
.
"""


def check_keys(ctx, case):
    d = ctx.fresh("rl")
    os.symlink(ctx.p.lib, os.path.join(d, "lib"))
    if case["old"]:
        with open(d + "/history.txt", "w") as f:
            f.write("".join(x + "\n" for x in case["old"]))
    with open(d + "/t.pn", "w") as f:
        f.write(KEYSRC % quote(case["prompt"]))
    exp, lines = expected(case)
    return session(ctx, d, case["mode"], case, exp, lines)


def take(data, seg, waiting, results):
    """the lines which have come out"""
    if not waiting:
        e = data.find(b"\x03", seg)
        if e >= 0:
            results.append(bytes(data[seg:e]))
            return e + 2, True
    return seg, waiting


def session(ctx, d, mode, case, exp, lines):
    master, slave = os.openpty()
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", 24, case["cols"], 0, 0))
    t = termios.tcgetattr(slave)
    t[1] &= ~termios.OPOST
    termios.tcsetattr(slave, termios.TCSANOW, t)
    p = subprocess.Popen([ctx.potion, mode, "t.pn"], cwd=d, env=dict(ENV, TERM="xterm"), stdin=slave, stdout=slave, stderr=subprocess.PIPE, start_new_session=True)
    os.set_blocking(master, False)
    data, pend, at, want = bytearray(), b"", 0, case["prompt"].encode()
    sent, seg, results = 0, 0, []
    waiting = True
    limit = time.time() + 40
    try:
        while True:
            if time.time() > limit:
                raise Hang("no result after 40 s")
            done = p.poll() is not None
            rd, wr, _ = select.select([master], [master] if pend and not done else [], [], (0 if len(results) > len(exp) else 2) if done else 0.002 if len(lines) <= sent else 1)
            if rd:
                try:
                    b = os.read(master, 65536)
                except BlockingIOError:
                    b = None
                except OSError:
                    b = b""
                if b == b"":
                    break
                if b:
                    data += b
                    if len(data) > 64 << 20:
                        return "endless output"
            seg, waiting = take(data, seg, waiting, results)
            if waiting and len(data) >= seg and data[seg:seg + len(want)] == want:
                waiting = False
                if sent < len(lines):
                    pend += lines[sent].encode()
                sent += 1
            if pend and wr:
                # keys are never torn: a terminal hands them over whole
                n = len(pend)
                if n > 512:
                    n = 512
                    while n < len(pend) and 0x1b in pend[n - 3:n + 1]:
                        n -= 1
                try:
                    n = os.write(master, pend[:n])
                    pend = pend[n:]
                except OSError:
                    pass
            if done and (not rd or len(results) > len(exp)):
                break
        err = p.stderr.read()
        p.wait(timeout=10)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        p.stderr.close()
        os.close(master)
        os.close(slave)
    if p.returncode < 0:
        return "status %d after %r" % (p.returncode, results[-1:])
    for i, r in enumerate(results):
        shown, _, text = r.partition(b"\x02")
        if i >= len(exp):
            if text != b"end":
                return "the session ends with %r, not at its end" % text
            break
        line, row = exp[i]
        if text != b"=" + line.encode():
            return "line %d is %r, expected %r" % (i + 1, text.decode("latin1"), "=" + line)
        if not shown.endswith(b"\n"):
            return "line %d is not ended: %r" % (i + 1, shown[-20:])
        got = screen(shown[:-1], case["cols"] or 80)
        if got != (row[0].rstrip(" "), row[1]):
            return "line %d shows %r with the cursor at %d, expected %r, %d" % (i + 1, got[0], got[1], row[0].rstrip(" "), row[1])
    if len(results) != len(exp) + 1:
        return "%d lines read, expected %d and the end" % (len(results), len(exp))
    h = open(d + "/history.txt").read() if os.path.exists(d + "/history.txt") else ""
    # what the end of the session leaves unsaved is not part of the file
    m2 = history(case, len(exp))
    if h != m2:
        return "the history is %r, expected %r" % (h[-300:], m2[-300:])
    if err:
        return "stderr %r" % err[:200]
    return None


def history(case, n):
    """the file after N lines"""
    m = Model(case["old"])
    if not n:
        return "".join(x + "\n" for x in case["old"])
    for l in case["lines"][:n]:
        m.begin()
        for k in l:
            m.key(k)
        m.end()
    return "".join(x + "\n" for x in m.h)


def show_keys(case):
    return "%d columns, %d old lines, prompt %r: %s" % (case["cols"], len(case["old"]), case["prompt"], str(case["lines"])[:600])


# lines from a pipe

PIPESRC = """load 'readline'
loop:
  l = readline(%s)
  if (not l): break.
  (l length, ' ', l) join say
.
'end' say
"""


def pipe(c):
    lines = []
    for _ in range(c.n(0, 8)):
        k = c.raw(8)
        if k == 0:
            n = c.pick([LINE - 1, LINE, LINE + 1, 2 * LINE, 2 * LINE + 3, c.n(300, 9000)])
            lines.append("".join(chr(97 + (i * 7 + n) % 26) for i in range(n)))
        elif k < 3:
            lines.append("")
        else:
            lines.append(strs.text(c, 20).replace("\n", " ").replace("\r", " ").replace("\0", " "))
    return {"lines": lines, "last": c.bool(), "dumb": c.bool(1, 3), "old": ["old %d" % i for i in range(c.weighted([(3, 0), (2, c.n(1, 4)), (1, c.n(95, 103))]))], "mode": c.pick(["-B", "-X"]),
            "prompt": c.pick([">> ", "", "ask: "])}


def check_pipe(ctx, case):
    d = ctx.fresh("rl")
    os.symlink(ctx.p.lib, os.path.join(d, "lib"))
    if case["old"]:
        with open(d + "/history.txt", "w") as f:
            f.write("".join(x + "\n" for x in case["old"]))
    with open(d + "/t.pn", "w") as f:
        f.write(PIPESRC % quote(case["prompt"]))
    text = "\n".join(case["lines"]) + ("\n" if case["last"] and case["lines"] else "")
    raw = text.encode("utf-8")
    got = []
    while raw:
        e = raw.find(b"\n", 0, LINE)
        if e < 0:
            e = min(LINE, len(raw))
            got.append(raw[:e])
            raw = raw[e:]
        else:
            got.append(raw[:e])
            raw = raw[e + 1:]
    if any(len(x) >= LINE for x in got):
        try:
            [x.decode() for x in got]
        except UnicodeDecodeError:
            return None
    r = ctx.run([ctx.potion, case["mode"], "t.pn"], stdin=text.encode(), cwd=d, env={"TERM": "dumb" if case["dumb"] else "xterm"})
    exp = b"".join((case["prompt"].encode() if case["dumb"] else b"") + b"%d %s\n" % (len(x.decode()), x) for x in got)
    exp += (case["prompt"].encode() if case["dumb"] else b"") + b"end\n"
    if r.rc or r.out != exp:
        return common.diff(exp.decode("utf-8", "replace"), r, "lines") or "rc %d" % r.rc
    m = Model(case["old"])
    for x in got:
        m.add(x.decode())
    h = open(d + "/history.txt", "rb").read() if os.path.exists(d + "/history.txt") else b""
    want = "".join(x + "\n" for x in (m.h if got else case["old"])).encode()
    if h != want:
        return "the history is %r, expected %r" % (h[-300:], want[-300:])
    return None


# the interactive prompt

def prompt(c):
    """lines of code, what each prints and its value"""
    src, out = [], []
    ints, texts, tups, funs = {}, {}, {}, {}

    def num():
        k = c.raw(4)
        if k == 0 and ints:
            n = c.pick(sorted(ints))
            return n, ints[n]
        if k == 1:
            (a, x), (b, y) = num0(), num0()
            return "%s + %s" % (a, b), x + y
        return num0()

    def num0():
        if ints and c.bool():
            n = c.pick(sorted(ints))
            return n, ints[n]
        v = c.n(0, 10 ** c.n(1, 6))
        return str(v), v

    def say(v):
        out.append("=> %s\n" % v)

    def tup(v):
        return "(%s)" % ", ".join(map(str, v)) if v else "()"
    for _ in range(c.n(1, 10)):
        k = c.raw(16)
        if k == 0:
            src.append("")
        elif k == 1:
            e, v = num()
            src.append(e)
            say(v)
        elif k == 2:
            n = "N%d" % c.n(1, 4)
            e, v = num()
            src.append("%s = %s" % (n, e))
            ints[n] = v
            say(v)
        elif k == 3:
            t = words(c)
            n = "S%d" % c.n(1, 3)
            src.append("%s = %s" % (n, quote(t)))
            texts[n] = t
            say(t)
        elif k == 4 and texts:
            n = c.pick(sorted(texts))
            if c.bool():
                src.append("%s say, %s length" % (n, n))
                out.append(texts[n] + "\n")
                say(len(texts[n]))
            else:
                m = c.pick(sorted(texts))
                src.append("%s + %s" % (n, m))
                say(texts[n] + texts[m])
        elif k == 5:
            n = "T%d" % c.n(1, 3)
            v = [c.n(0, 99) for _ in range(c.n(0, 5))]
            src.append("%s = (%s)" % (n, ", ".join(map(str, v))))
            tups[n] = v
            say(tup(v))
        elif k == 6 and tups:
            n = c.pick(sorted(tups))
            e, v = num()
            src.append("%s push(%s)" % (n, e))
            tups[n].append(v)
            say(tup(tups[n]))
        elif k == 7 and tups:
            n = c.pick(sorted(tups))
            j = c.pick(["length", "map", "alias"])
            if j == "length":
                src.append("%s length" % n)
                say(len(tups[n]))
            elif j == "map":
                a = c.n(1, 9)
                src.append("%s map (x): x * %d." % (n, a))
                say(tup([x * a for x in tups[n]]))
            else:
                m = "T%d" % c.n(1, 3)
                src.append("%s = %s" % (m, n))
                tups[m] = tups[n]
                say(tup(tups[n]))
        elif k == 8:
            n = "F%d" % c.n(1, 3)
            a = c.n(0, 99)
            src.append("%s = (a, b): a * %d + b." % (n, a))
            funs[n] = a
            say("function %s(a,b)" % n)
        elif k == 9 and funs:
            n = c.pick(sorted(funs))
            (e, v), (f, w) = num0(), num0()
            src.append("%s(%s, %s)" % (n, e, f))
            say(v * funs[n] + w)
        elif k == 10:
            v = c.n(0, 99)
            src.append("v = %d, w = v + 1, w * v" % v)
            say((v + 1) * v)
        elif k == 11:
            v = c.n(0, 6)
            src.append("s = 0, %d times (i): s = s + i., s say, nil" % v)
            out.append("%d\n" % (v * (v - 1) // 2))
            say("nil")
        elif k == 12:
            src.append("%s # %s" % (quote(words(c).replace("\\", "")), words(c)))
            say(src[-1][1:].split("' # ")[0].replace("''", "'")) if "' # " in src[-1] else src.pop()
        elif k == 13:
            src.append(c.pick(["true", "false"]))
            say(src[-1])
        elif k == 14:
            src.append("1 + nil")
            out.append("** Invalid type NilKind for num, expected Number\n")
        else:
            e, v = num0()
            src.append("if (%s > 500): 'big'. else: 'small'." % e)
            say("big" if v > 500 else "small")
    return {"src": src, "exp": "".join(out), "nl": c.bool(), "nt": len(src) > 2}


def check_prompt(ctx, case):
    d = ctx.fresh("rl")
    os.symlink(ctx.p.lib, os.path.join(d, "lib"))
    text = "\n".join(case["src"]) + ("\n" if case["nl"] else "")
    r = ctx.run([ctx.potion], stdin=text.encode(), cwd=d, env={"TERM": "xterm"})
    return common.diff(case["exp"] + "\n", r, "prompt")


PARTS = [Part("keys", keys, check_keys, 2500, 60000, nontrivial=lambda k: any(x in ESC for l in k["lines"] for x in l), show=show_keys),
         Part("pipe", pipe, check_pipe, 1000, 20000, nontrivial=lambda k: len(k["lines"]) > 1, show=lambda k: str(k)[:800]),
         Part("prompt", prompt, check_prompt, 2500, 60000, nontrivial=lambda k: k["nt"], show=lambda k: "\n".join(k["src"]))]
