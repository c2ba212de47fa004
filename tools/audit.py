"""Offline audit of the sampled event logs, with Python integers as a second, independent oracle.

A line is `<op> <operands...> <result>`; numbers are signed hexadecimal."""
import math


def h(s):
    return int(s, 16)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


BIN = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "div": tdiv,
    "rem": lambda a, b: a - b * tdiv(a, b),
    "gcd": math.gcd,
    "shl": lambda a, b: a << b,
    "shr": lambda a, b: (a >> b) if a >= 0 else -((-a) >> b),
    "and": lambda a, b: a & b,
    "or": lambda a, b: a | b,
    "xor": lambda a, b: a ^ b,
    "pow": lambda a, b: a ** b,
    "cmp": lambda a, b: (a > b) - (a < b),
}


def check(f):
    op = f[0]
    if op in BIN:
        return BIN[op](h(f[1]), h(f[2])) == h(f[3])
    if op.startswith("w") and op[1:] in BIN:
        # wrapped: wadd <bits> <s|u> a b res
        return wrap(BIN[op[1:]](h(f[3]), h(f[4])), int(f[1]), f[2] == "s") == h(f[5])
    if op == "radix":
        # radix <r> <text> <value>
        return int(f[2], int(f[1])) == h(f[3])
    return None


def audit(path):
    n, bad = 0, []
    try:
        fh = open(path)
    except OSError:
        return 0, []
    with fh:
        for line in fh:
            f = line.split()
            if not f:
                continue
            try:
                ok = check(f)
            except (ValueError, IndexError, ZeroDivisionError, KeyError) as e:
                ok = False
            if ok is None:
                continue
            n += 1
            if not ok:
                bad.append(line.strip()[:2000])
    return n, bad
