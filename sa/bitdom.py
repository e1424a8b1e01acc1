"""Bit provenance: every bit of a value is 0, 1, a bit of a symbol, or unknown. Used to see through shifts, masks, xor and sums of
disjoint parts that the linear forms of the main domain do not."""
from dom import *

T = None


def bv(eng, st, v, w):
    if type(v) is int:
        return [(v >> i) & 1 for i in range(w)]
    if type(v) is not tuple or v == UNDEF:
        return [T] * w
    k = v[0]
    if k == 's':
        ws = v[2]
        z, hi = eng.zeros(st, v, ws)
        n = hi.bit_length()
        out = [0 if i < z or i >= n else (v, i) for i in range(ws)]
        return (out + [0] * w)[:w]
    if k == 'l':
        c, d = tolin(v, w)
        acc = bv(eng, st, c, w)
        for t, q in d.items():
            if q & (q - 1):
                return [T] * w
            sh = q.bit_length() - 1
            acc = plus(acc, ([0] * sh + bv(eng, st, t, w))[:w])
        return acc
    if k == 'o':
        op = v[1]
        if op in ('and', 'or', 'xor'):
            a, b = bv(eng, st, v[3], w), bv(eng, st, v[4], w)
            return [BIT[op](x, y) for x, y in zip(a, b)]
        if op == 'zext':
            return (bv(eng, st, v[3], v[4]) + [0] * w)[:w]
        if op == 'trunc':
            return bv(eng, st, v[3], v[4])[:w]
        if op == 'lshr' and type(v[4]) is int:
            return (bv(eng, st, v[3], w)[v[4]:] + [0] * w)[:w]
        if op == 'shl' and type(v[4]) is int:
            return ([0] * v[4] + bv(eng, st, v[3], w))[:w]
        if op == 'mul' and type(v[4]) is int and v[4] & (v[4] - 1) == 0:
            return ([0] * (v[4].bit_length() - 1) + bv(eng, st, v[3], w))[:w]
    return [T] * w


def plus(a, b):
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        if x == 0:
            out.append(y)
        elif y == 0:
            out.append(x)
        else:
            return out + [T] * (len(a) - i)
    return out


def _and(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1:
        return x
    return x if x is not T and x == y else T


def _or(x, y):
    if x == 1 or y == 1:
        return 1
    if x == 0:
        return y
    if y == 0:
        return x
    return x if x is not T and x == y else T


def _xor(x, y):
    if x == 0:
        return y
    if y == 0:
        return x
    if x is not T and x == y:
        return 0
    return T


BIT = {'and': _and, 'or': _or, 'xor': _xor}


def simplify(eng, st, v, w):
    """the constant or symbol that v is bit for bit, or v"""
    if type(v) is not tuple or v == UNDEF or v[0] not in 'lo':
        return v
    b = bv(eng, st, v, w)
    if T in b:
        return v
    if all(type(x) is int for x in b):
        return sum(x << i for i, x in enumerate(b))
    a = set()
    atoms(v, a)
    # one symbol, or a sum of two of which no bits overlap
    for s in sorted(a, key=repr):
        if b == bv(eng, st, s, w):
            return zext(s, s[2], w) if s[2] < w else s if s[2] == w else trunc(s, s[2], w)
    return v
