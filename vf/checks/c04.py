"""Control flow: the statements executed, and their order, are those of the documented meaning."""
from ..engine import Part
from . import common

ID = "C04"
RULE = ("a generated program with if/elsif/else, while, loop, break, continue, return, and/or, times/to/step/each and traced calls is run by "
        "the bytecode VM and by the JIT and its whole output compared with a reference interpreter; non-trivial: the reference run took a "
        "branch, left a loop early, returned early or iterated")
ASSUMPTIONS = ["the value of an if without an arm that is taken, of while and of loop is not specified and not used"]

PROFILES = [dict(fn=1, rec=1, hof=0, trace=2, loop=4, cond=6, iter=3, depth=3, stmts=7),
            dict(fn=2, rec=1, hof=0, trace=0, loop=6, cond=5, iter=4, ret=5, depth=4, stmts=5, tuple=1),
            dict(fn=0, rec=0, hof=0, trace=4, loop=1, cond=8, iter=0, depth=3, stmts=6, tuple=0)]
NEED = ("arm0", "arm1", "arm2", "else", "break", "continue", "return", "times", "to", "step", "each")


def gen(c):
    return common.progcase(c, c.pick(PROFILES), NEED)


def jumps(c):
    """long bodies with many ways out: break, continue and return in every arm of a loop, long chains of elsif, and, or"""
    from .. import lang, progs
    v = lambda x: ["var", x]
    L = lambda n: ["lit", n]
    bn = lambda o, a, b: ["bin", o, a, b]

    def pad():
        k = c.weighted([(6, c.n(0, 2)), (3, c.n(0, 12)), (1, c.n(10, 60))])
        return [["asg", "x", bn("%", bn("+", bn("*", v("x"), L(c.n(2, 5))), c.pick([v("i"), L(c.n(0, 9))])), L(997))] for _ in range(k)]

    def cond(m):
        k = c.raw(6)
        e = bn("==", bn("%", v("i"), L(m)), L(c.n(0, m - 1)))
        if k == 4:
            return ["not", bn("!=", bn("%", v("i"), L(m)), L(c.n(0, m - 1)))]
        if k == 5:
            n = c.n(2, 8)
            op = c.pick(["and", "or"])
            for _ in range(n):
                e = [op, e, bn(c.pick(["<", ">", "==", "!="]), bn("%", v(c.pick(["i", "x"])), L(c.n(2, 5))), L(c.n(0, 3)))]
        return e

    def out():
        k = c.weighted([(8, "continue"), (2, "break"), (1, "exit")] + ([(2, "ret")] if fn else []))
        return ["ret", bn("+", v("i"), L(1000))] if k == "ret" else [k]

    def body(depth):
        b = []
        for _ in range(c.n(1, 9)):
            b += pad()
            k = c.weighted([(6, "way"), (2, "chain"), (1, "value"), (1 if depth else 0, "inner")])
            m = c.n(3, 16)
            if k == "way":
                b.append(["if", [[cond(m), pad() + [["say", [L(len(b)), v("i")]], out()]]], None])
            elif k == "chain":
                arms = [[cond(m), pad() + ([["say", [v("x")]]] if c.bool() else []) + ([out()] if c.bool(1, 3) else [["asg", "x", L(j)]])] for j in range(c.n(2, 12))]
                b.append(["if", arms, pad() + [["asg", "x", bn("+", v("x"), L(1))]] if c.bool() else None])
            elif k == "value":
                b.append(["asg", "x", ["if", [[cond(m), [L(j)]] for j in range(c.n(1, 10))], [bn("+", v("x"), L(1))]]])
            else:
                b += [["asg", "j", L(0)], ["while", bn("<", v("j"), L(c.n(1, 5))), [["inc", "j", 1, True]] + pad() + [["if", [[cond(m), [c.pick([["continue"], ["break"]])]]], None]] + pad()]]
        return b

    fn = c.bool()
    n = c.n(1, 20)
    lp = body(1)
    if c.bool():
        lp = ["while", bn("<", v("i"), L(n)), [["asg", "i", bn("+", v("i"), L(1))]] + lp]
    else:
        lp = ["loop", [["asg", "i", bn("+", v("i"), L(1))], ["if", [[bn(">", v("i"), L(n)), [["break"]]]], None]] + lp]
    prog = [["asg", "i", L(0)], ["asg", "x", L(c.n(0, 9))], ["asg", "j", L(0)], lp, ["say", [v("i"), v("x"), v("j")]]]
    if fn:
        prog = [["asg", "f", ["fn", ["p"], prog + [v("x")]]], ["asg", "r", ["call", "f", [L(1)]]], ["say", [v("r")]]]
    exp, st = lang.expected(prog, 60000)
    return {"src": progs.source(c, prog, True), "exp": exp, "nt": exp is not None and len(exp) > 20}


PARTS = [Part("programs", gen, common.run_program, 10000, 400000, nontrivial=lambda k: k["nt"], show=common.show),
         Part("jumps", jumps, common.run_program, 1200, 60000, nontrivial=lambda k: k["nt"], show=common.show)]
