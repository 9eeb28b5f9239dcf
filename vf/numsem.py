"""Potion's numbers: integers of 63 bits, which become doubles when a result does not fit, and doubles."""
import decimal, math, struct

LO, HI = -(1 << 62), (1 << 62) - 1


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_num(v):
    return is_int(v) or isinstance(v, float)


def fits(v):
    return LO <= v <= HI


def mk(v):
    return v if fits(v) else float(v)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def fdiv(x, y):
    if y == 0.0:
        if x == 0.0 or x != x:
            return math.nan
        return math.copysign(math.inf, x) * math.copysign(1.0, y)
    try:
        return x / y
    except OverflowError:
        return math.copysign(math.inf, x) * math.copysign(1.0, y)


def fmul(x, y):
    return x * y


def fmod(x, y):
    if y == 0.0 or math.isinf(x) or x != x or y != y:
        return math.nan
    return math.fmod(x, y)


class Domain(Exception):
    """outside of what is specified"""


def fpow(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        # sign of the overflow: negative base with an odd integral exponent
        if x < 0 and y == math.floor(y) and math.fmod(y, 2.0) != 0.0:
            return -math.inf
        return math.inf
    except ValueError:
        if x == 0.0 and y < 0:
            if math.copysign(1.0, x) < 0 and y == math.floor(y) and math.fmod(y, 2.0) != 0.0:
                return -math.inf
            return math.inf
        return math.nan


def binop(op, a, b):
    ii = is_int(a) and is_int(b)
    if op in ("==", "!="):
        if isinstance(a, float) and isinstance(b, float):
            r = a == b
        elif is_num(a) and is_num(b):
            r = type(a) is type(b) and a == b
        else:
            r = same(a, b)
        return r if op == "==" else not r
    if not (is_num(a) and is_num(b)):
        raise Domain("%s on non-numbers" % op)
    if op in ("<", "<=", ">", ">="):
        x, y = (a, b) if ii else (float(a), float(b))
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    if op == "<=>":
        op, a, b = "-", b, a
    if op == "+":
        return mk2(a + b, a, b, lambda x, y: x + y) if ii else float(a) + float(b)
    if op == "-":
        return mk2(a - b, a, b, lambda x, y: x - y) if ii else float(a) - float(b)
    if op == "*":
        return mk2(a * b, a, b, lambda x, y: x * y) if ii else float(a) * float(b)
    if op == "/":
        if ii and b != 0:
            r = tdiv(a, b)
            return r if fits(r) else float(a) / float(b)
        return fdiv(float(a), float(b))
    if op == "%":
        if ii and b != 0:
            return a - b * tdiv(a, b)
        return fmod(float(a), float(b))
    if op == "**":
        z = fpow(float(a), float(b))
        if ii and abs(z) < 2147483647:
            return int(z)
        return z
    if op == "<<":
        if not ii or not 0 <= b <= 62 or a < 0 or not fits(a << b):
            raise Domain("<<")
        return a << b
    if op == ">>":
        if not ii or not 0 <= b <= 62:
            raise Domain(">>")
        return a >> b
    raise Domain(op)


def mk2(r, a, b, f):
    return r if fits(r) else f(float(a), float(b))


def same(a, b):
    """==, on everything but numbers: identity; strings are interned"""
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if is_num(a) or is_num(b):
        return type(a) is type(b) and a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return a is b


def fmt(v):
    """string of a number"""
    if is_int(v):
        return str(v)
    if v != v:
        return None         # the sign of a nan is not specified
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    s = "%.16f" % v
    s = s.rstrip("0")
    return s + "0" if s.endswith(".") else s


def lit(v):
    """source of a literal"""
    if is_int(v):
        return str(v)
    s = repr(v)
    if "e" in s or "inf" in s or "nan" in s:
        s = format(decimal.Decimal(s), "f")
        if "." not in s:
            s += ".0"
    return s
