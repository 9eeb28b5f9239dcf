"""Random numbers: the generator's sequence, from any seed, through any mix of integers and fractions."""
from ..engine import Part
from .. import numsem
from . import common

ID = "C22"
RULE = ("programs which seed the generator (seeds small, negative, beyond 32 bits), draw integers and fractions in any order, in loops and functions, and seed it again are compared with an independent implementation of "
        "the Mersenne Twister; names which come into use after the same seed again stay different as instance variables, methods and keys; non-trivial: more than 624 draws, so that the state is generated anew, or two seeds")
ASSUMPTIONS = ["the generator is the published MT19937 with its single word initialization, as the source says"]


class MT:
    def __init__(self, seed):
        s = [seed & 0xffffffff]
        for i in range(1, 624):
            s.append((1812433253 * (s[-1] ^ (s[-1] >> 30)) + i) & 0xffffffff)
        self.s, self.i = s, 624

    def int(self):
        s = self.s
        if self.i == 624:
            for k in range(624):
                y = (s[k] & 0x80000000) | (s[(k + 1) % 624] & 0x7fffffff)
                s[k] = s[(k + 397) % 624] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0)
            self.i = 0
        y = s[self.i]
        self.i += 1
        y ^= y >> 11
        y ^= (y << 7) & 0x9d2c5680
        y ^= (y << 15) & 0xefc60000
        return y ^ (y >> 18)

    def double(self):
        a, b = self.int() >> 5, self.int() >> 6
        return (a * 67108864.0 + b) * (1.0 / 9007199254740992.0)


def gen(c):
    src, out = [], []
    g, n, seeds = None, 0, 0
    for _ in range(c.n(2, 14)):
        k = c.raw(6) if g else 0
        if k == 0:
            s = c.pick([0, 1, 5489, -1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 7, 2 ** 31, -2 ** 40 + 3, 2 ** 62 - 1]) if c.bool() else c.n(-10 ** 9, 10 ** 9)
            src.append("srand(%s)" % (s if s >= 0 else "0 - %d" % -s))
            g = MT(s)
            seeds += 1
        elif k < 3:
            m = c.n(1, 20)
            src.append("%d times: rand say." % m if m > 3 else ", ".join(["rand say"] * m))
            out += [str(g.int()) for _ in range(m)]
            n += m
        elif k == 3:
            m = c.n(1, 20)
            src.append("%d times: %s rand say." % (m, c.pick(["1", "1.5", "0"])))
            out += [numsem.fmt(g.double()) for _ in range(m)]
            n += 2 * m
        elif k == 4:
            m = c.n(1, 900)
            src.append("a = 0\n%d times: a = (a + rand) %% 1000003.\na say" % m)
            a = 0
            for _ in range(m):
                a = (a + g.int()) % 1000003
            out.append(str(a))
            n += m
        else:
            m = c.n(1, 400)
            src.append("a = 0, b = 0.0\n%d times:\n  a = a + rand %% 1000\n  b = b + 1 rand.\na say\nb say" % m)
            a, b = 0, 0.0
            for _ in range(m):
                a += g.int() % 1000
                b += g.double()
            out += [str(a), numsem.fmt(b)]
            n += 3 * m
    return {"src": "\n".join(src) + "\n", "exp": "".join(x + "\n" for x in out), "nt": n > 624 or seeds > 1}


def names(c):
    """names first used after the generator was seeded, again and again with the same seed, remain different names"""
    n = c.n(2, 12)
    pre = "n%d" % c.n(0, 9)
    ns = ["%s%c" % (pre, 97 + i) for i in range(n)]
    seed = c.pick([0, 1, 5489]) if c.bool() else c.n(0, 10 ** 6)
    src, out = [], []
    for i, x in enumerate(ns):
        if i == 0 or c.raw(6):
            src.append("srand(%d)" % seed)
        if c.bool(1, 4):
            src.append("rand")
        src.append('"%s" eval' % c.pick(["1 %s", "(%s=1)", "(x): x /%s."]).replace("%s", x))
    have = sorted(set(c.pick(ns) for _ in range(c.n(1, n))))
    params = ", ".join("p%d" % i for i in range(len(have)))
    meths = sorted(set(c.pick(ns) for _ in range(c.n(1, n))))
    vals = [c.n(1, 99) for _ in have]
    body = ["A = class(%s): %s." % (params, ", ".join("/%s = p%d" % (x, i) for i, x in enumerate(have)))]
    body += ["A %s = (): %d." % (x, 100 + ns.index(x)) for x in meths]
    body.append("o = A(%s)" % ", ".join(map(str, vals)))
    t = [x for x in ns if c.raw(3)]
    if t:
        body.append("t = (%s)" % ", ".join("%s=%d" % (x, 200 + ns.index(x)) for x in t))
    for x in ns:
        body.append("o /%s say, o %s say" % (x, x))
        out += [str(vals[have.index(x)]) if x in have else "nil", str(100 + ns.index(x)) if x in meths else "nil"]
        if t:
            body.append("t('%s') say" % x)
            out.append(str(200 + ns.index(x)) if x in t else "nil")
    b = "\n".join(body)
    src.append("'%s' eval" % b.replace("'", "''"))
    return {"src": "\n".join(src) + "\n", "exp": "".join(x + "\n" for x in out), "nt": True}


PARTS = [Part("sequences", gen, common.run_program, 1500, 40000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("names", names, common.run_program, 700, 20000, nontrivial=lambda k: k["nt"], show=common.show)]
