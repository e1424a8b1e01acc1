"""The value domain of the abstract interpreter.

A value is one of
    int                       a known constant (unsigned, already masked to its width)
    ('p', obj, off)           address: abstract object + offset (int or value)
    ('f', name)               address of a function
    ('s', name, w)            an unknown w-bit value, named by the site that produced it
    ('l', w, c, ((t,k),...))  c + sum k*t  modulo 2^w  (affine form; t are non-affine terms)
    ('o', op, w, args...)     an uninterpreted pure operation
    ('cmp', pred, w, a, b)    one-bit atom: pred in eq, ult, slt
    ('not', atom)
    ('agg', (v, ...))         first class aggregate
    ('u',)                    undefined / uninitialised
plus property specific content tokens ('k', ...), which are opaque to the engine.
There is no solver anywhere: the operations below are the whole theory."""

UNDEF = ('u',)


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def is_const(v):
    return type(v) is int


def sym(name, w):
    return ('s', name, w)


def width(v, default=64):
    if type(v) is int:
        return default
    k = v[0]
    if k == 's':
        return v[2]
    if k == 'l':
        return v[1]
    if k == 'o':
        return v[2]
    if k in ('cmp', 'not'):
        return 1
    return 64


def tolin(v, w):
    """-> (c, {atom: coef})"""
    if type(v) is int:
        return v, {}
    if v[0] == 'l':
        return v[2], dict(v[3])
    return 0, {v: 1}


def fromlin(c, d, w):
    m = mask(w)
    c &= m
    items = [(t, k & m) for t, k in d.items() if k & m]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=repr)
    return ('l', w, c, tuple(items))


def add(a, b, w):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return (a + b) & mask(w)
    if tb is int and b == 0:
        return a
    if ta is int and a == 0:
        return b
    if a == UNDEF or b == UNDEF:
        return UNDEF
    if ta is not int and a[0] == 'p':
        if tb is not int and b[0] in ('p', 'f'):
            return ('o', 'add', w, a, b)
        return mkptr(a[1], add(a[2], b, 64))
    if tb is not int and b[0] == 'p':
        return add(b, a, w)
    if w == 1:
        return xor(a, b, 1)
    ca, da = tolin(a, w)
    cb, db = tolin(b, w)
    for t, k in db.items():
        da[t] = da.get(t, 0) + k
    return fromlin(ca + cb, da, w)


def mkptr(obj, off):
    return ('p', obj, off)


def neg(a, w):
    return mul(a, mask(w), w)


def sub(a, b, w):
    if type(b) is int:
        return add(a, (-b) & mask(w), w)
    if a == UNDEF or b == UNDEF:
        return UNDEF
    if a == b:
        return 0
    if type(a) is not int and a[0] == 'p' and b[0] == 'p':
        if a[1] == b[1]:
            return sub(a[2], b[2], w)
        return ('o', 'sub', w, a, b)
    if type(a) is not int and a[0] == 'p':
        return mkptr(a[1], sub(a[2], b, 64))
    if b[0] == 'p':
        return ('o', 'sub', w, a, b)
    return add(a, neg(b, w), w)


def mul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & mask(w)
    if a == UNDEF or b == UNDEF:
        return UNDEF
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if a[0] in ('p', 'f'):
            return ('o', 'mul', w, a, b)
        c, d = tolin(a, w)
        return fromlin(c * b, {t: k * b for t, k in d.items()}, w)
    if repr(a) > repr(b):
        a, b = b, a
    return ('o', 'mul', w, a, b)


def notv(a):
    if type(a) is int:
        return a ^ 1
    if a[0] == 'not':
        return a[1]
    return ('not', a)


def xor(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    if a == UNDEF or b == UNDEF:
        return UNDEF
    if a == b:
        return 0
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if w == 1:
            return notv(a)
        if a[0] == 'o' and a[1] == 'zext' and a[4] == 1 and b == 1:
            return zext(notv(a[3]), 1, w)
        if b == mask(w):
            return sub(mask(w), a, w)
    return ('o', 'xor', w, a, b) if type(b) is int or repr(a) < repr(b) else ('o', 'xor', w, b, a)


def cmpv(pred, a, b, w):
    """one-bit value in normal form"""
    if a == UNDEF or b == UNDEF:
        return UNDEF
    if pred == 'ne':
        return notv(cmpv('eq', a, b, w))
    if pred == 'ugt':
        return cmpv('ult', b, a, w)
    if pred == 'ule':
        return notv(cmpv('ult', b, a, w))
    if pred == 'uge':
        return notv(cmpv('ult', a, b, w))
    if pred == 'sgt':
        return cmpv('slt', b, a, w)
    if pred == 'sle':
        return notv(cmpv('slt', b, a, w))
    if pred == 'sge':
        return notv(cmpv('slt', a, b, w))
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        if pred == 'eq':
            return int(a == b)
        if pred == 'ult':
            return int(a < b)
        return int(sgn(a, w) < sgn(b, w))
    if a == b:
        return 1 if pred == 'eq' else 0
    if w == 1:
        if pred == 'eq':
            return notv(xor(a, b, 1))
    if pred == 'eq':
        if ia:
            a, b = b, a
            ia, ib = ib, ia
        # constants / functions / distinct objects
        if a[0] == 'f' or (not ib and b[0] == 'f'):
            if ib:
                return 0
            if a[0] == 'f' and b[0] == 'f':
                return int(a == b)
            if a[0] == 'p' or b[0] == 'p':
                return 0
        if a[0] == 'p' and ib:
            if b == 0:
                return 0
            return ('cmp', 'eq', w, a, b)
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                return cmpv('eq', a[2], b[2], 64)
            return 0
        if a[0] == 'o' and a[1] in ('zext', 'sext'):
            w0 = a[4]
            if ib:
                lo = b & mask(w0)
                ok = (lo == b) if a[1] == 'zext' else ((sgn(lo, w0) & mask(w)) == b)
                if not ok:
                    return 0
                return cmpv('eq', a[3], lo, w0)
            if b[0] == 'o' and b[1] == a[1] and b[4] == w0:
                return cmpv('eq', a[3], b[3], w0)
        if a[0] == 'o' and a[1] == 'ptrdiff0':
            pass
        if a[0] == 'p' or (not ib and b[0] == 'p'):
            if not ib and repr(a) > repr(b):
                a, b = b, a
            return ('cmp', 'eq', w, a, b)
        # affine normalisation: atom side = rest
        ca, da = tolin(a, w)
        cb, db = tolin(b, w)
        for t, k in db.items():
            da[t] = (da.get(t, 0) - k) & mask(w)
        da = {t: k for t, k in da.items() if k}
        c = (cb - ca) & mask(w)
        if not da:
            return int(c == 0)
        items = sorted(da.items(), key=repr)
        t0, k0 = items[0]
        if k0 & 1 and k0 != 1:
            if k0 == mask(w):
                items = [(t, (-k) & mask(w)) for t, k in items]
                c = (-c) & mask(w)
        if len(items) == 1 and items[0][1] == 1:
            if (items[0][0][0] == 'o' and items[0][0][1] in ('zext', 'sext')):
                t = items[0][0]
                w0 = t[4]
                lo = c & mask(w0)
                ok = (lo == c) if t[1] == 'zext' else ((sgn(lo, w0) & mask(w)) == c)
                if not ok:
                    return 0
                return cmpv('eq', t[3], lo, w0)
            return ('cmp', 'eq', w, items[0][0], c)
        if len(items) == 2 and items[0][1] == 1 and items[1][1] == mask(w):
            if c == 0:
                return ('cmp', 'eq', w, items[0][0], items[1][0])
        return ('cmp', 'eq', w, fromlin(0, dict(items), w), c)
    if pred == 'ult':
        if ib and b == 0:
            return 0
        if ib and b == 1:
            return cmpv('eq', a, 0, w)
        if ia and a == 0:
            return notv(cmpv('eq', b, 0, w))
        if ia and a == mask(w):
            return 0
        if not ia and not ib and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
            return cmpv('ult', a[2], b[2], 64)
        for x, y, flip in ((a, b, False), (b, a, True)):
            if type(x) is not int and x[0] == 'o' and x[1] == 'zext':
                w0 = x[4]
                if type(y) is int:
                    if y > mask(w0):
                        return 0 if flip else 1
                    return cmpv('ult', y, x[3], w0) if flip else cmpv('ult', x[3], y, w0)
                if y[0] == 'o' and y[1] == 'zext' and y[4] == w0:
                    return cmpv('ult', y[3], x[3], w0) if flip else cmpv('ult', x[3], y[3], w0)
    if pred == 'slt':
        for x, y, flip in ((a, b, False), (b, a, True)):
            if type(x) is not int and x[0] == 'o' and x[1] == 'zext':
                w0 = x[4]
                if type(y) is int:
                    if sgn(y, w) < 0:
                        return 1 if flip else 0
                    return cmpv('ult', y, x, w) if flip else cmpv('ult', x, y, w)
                if y[0] == 'o' and y[1] == 'zext' and y[4] == w0:
                    return cmpv('ult', y[3], x[3], w0) if flip else cmpv('ult', x[3], y[3], w0)
            if type(x) is not int and x[0] == 'o' and x[1] == 'sext':
                w0 = x[4]
                if type(y) is int:
                    lo = y & mask(w0)
                    if (sgn(lo, w0) & mask(w)) == y:
                        return cmpv('slt', lo, x[3], w0) if flip else cmpv('slt', x[3], lo, w0)
                elif y[0] == 'o' and y[1] == 'sext' and y[4] == w0:
                    return cmpv('slt', y[3], x[3], w0) if flip else cmpv('slt', x[3], y[3], w0)
        if not ia and not ib and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
            return cmpv('slt', a[2], b[2], 64)
    return ('cmp', pred, w, a, b)


def zext(v, w0, w):
    if type(v) is int:
        return v
    if v == UNDEF:
        return v
    if w0 == w:
        return v
    if v[0] == 'o' and v[1] == 'zext':
        return ('o', 'zext', w, v[3], v[4])
    if v[0] == 'k':
        return v
    return ('o', 'zext', w, v, w0)


def sext(v, w0, w):
    if type(v) is int:
        return sgn(v, w0) & mask(w)
    if v == UNDEF or v[0] == 'k':
        return v
    if v[0] == 'o' and v[1] == 'zext' and v[4] < w0:
        return ('o', 'zext', w, v[3], v[4])
    if v[0] == 'o' and v[1] == 'sext':
        return ('o', 'sext', w, v[3], v[4])
    return ('o', 'sext', w, v, w0)


def trunc(v, w0, w):
    if type(v) is int:
        return v & mask(w)
    if v == UNDEF or v[0] == 'k':
        return v
    if v[0] == 'o' and v[1] in ('zext', 'sext'):
        wi = v[4]
        if wi == w:
            return v[3]
        if wi > w:
            return trunc(v[3], wi, w)
        return (zext if v[1] == 'zext' else sext)(v[3], wi, w)
    if v[0] == 'l' and w > 1:
        c, d = tolin(v, w0)
        r = c & mask(w)
        for t, k in d.items():
            r = add(r, mul(trunc(t, w0, w), k & mask(w), w), w)
        return r
    if v[0] == 'o' and v[1] == 'trunc':
        return ('o', 'trunc', w, v[3], v[4])
    if v[0] == 'o' and v[1] == 'mul' and w > 1:
        return mul(trunc(v[3], w0, w), trunc(v[4], w0, w), w)
    return ('o', 'trunc', w, v, w0)


def bits(a, b, op, w):
    if type(a) is int and type(b) is int:
        return (a & b) if op == 'and' else (a | b)
    if a == UNDEF or b == UNDEF:
        # 0 & undef is still 0
        if op == 'and' and (a == 0 or b == 0):
            return 0
        return UNDEF
    if a == b:
        return a
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if op == 'and':
            if b == 0:
                return 0
            if b == mask(w):
                return a
            if a[0] == 'o' and a[1] == 'zext' and (b & mask(a[4])) == mask(a[4]):
                return a
            if a[0] == 'o' and a[1] == 'and' and type(a[4]) is int:
                return bits(a[3], a[4] & b, op, w)
            if b & (b + 1) == 0:  # low mask
                n = b.bit_length()
                t = trunc(a, w, n)
                if type(t) is int or not (t[0] == 'o' and t[1] == 'trunc'):
                    return zext(t, n, w)
        else:
            if b == 0:
                return a
            if b == mask(w):
                return b
    elif repr(a) > repr(b):
        a, b = b, a
    return ('o', op, w, a, b)


def shl(a, b, w):
    if type(b) is int:
        if b >= w:
            return UNDEF
        return mul(a, 1 << b, w)
    if a == UNDEF or b == UNDEF:
        return UNDEF
    return ('o', 'shl', w, a, b)


def generic(op, a, b, w):
    if type(a) is int and type(b) is int:
        if op == 'udiv':
            return a // b if b else UNDEF
        if op == 'urem':
            return a % b if b else UNDEF
        if op in ('sdiv', 'srem'):
            if b == 0:
                return UNDEF
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == 'sdiv' else x - q * y) & mask(w)
        if op == 'lshr':
            return a >> b if b < w else UNDEF
        if op == 'ashr':
            return (sgn(a, w) >> b) & mask(w) if b < w else UNDEF
    if a == UNDEF or b == UNDEF:
        return UNDEF
    if b == 0 and op in ('udiv', 'sdiv', 'urem', 'srem'):
        return UNDEF
    if type(b) is int:
        if op in ('udiv', 'sdiv') and b == 1:
            return a
        if op in ('urem', 'srem') and b == 1:
            return 0
        if op in ('lshr', 'ashr') and b == 0:
            return a
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            # (k*t)/k for pointer differences: the caller knows it is exact
            pass
        if op == 'udiv' and b & (b - 1) == 0:
            return ('o', 'lshr', w, a, b.bit_length() - 1)
        if op == 'urem' and b & (b - 1) == 0:
            return bits(a, b - 1, 'and', w)
    if a == 0:
        return 0
    return ('o', op, w, a, b)


def binop(op, a, b, w):
    if op == 'add':
        return add(a, b, w)
    if op == 'sub':
        return sub(a, b, w)
    if op == 'mul':
        return mul(a, b, w)
    if op == 'xor':
        return xor(a, b, w)
    if op in ('and', 'or'):
        return bits(a, b, op, w)
    if op == 'shl':
        return shl(a, b, w)
    return generic(op, a, b, w)


def atoms(v, out):
    """every symbol occurring in v"""
    if type(v) is int or type(v) is str or v is None:
        return
    if type(v) is tuple:
        if v and v[0] == 's' and len(v) == 3:
            out.add(v)
            return
        for x in v:
            if type(x) is tuple:
                atoms(x, out)


def rewrite(v, eqs):
    """apply the equalities eqs: {term: value} bottom up, re-normalising"""
    if not eqs or type(v) is int:
        return v
    r = eqs.get(v)
    if r is not None:
        return rewrite(r, eqs)
    k = v[0]
    if k in ('s', 'f', 'u', 'k'):
        return v
    if k == 'p':
        if type(v[2]) is int:
            return v
        return ('p', v[1], rewrite(v[2], eqs))
    if k == 'l':
        w = v[1]
        out = v[2]
        ch = False
        for t, c in v[3]:
            t2 = rewrite(t, eqs)
            if t2 is not t:
                ch = True
            out = add(out, mul(t2, c, w), w)
        return out if ch else v
    if k == 'o':
        op, w = v[1], v[2]
        if op in ('zext', 'sext', 'trunc'):
            a = rewrite(v[3], eqs)
            if a is v[3]:
                return v
            return {'zext': zext, 'sext': sext, 'trunc': trunc}[op](a, v[4], w)
        args = tuple(rewrite(x, eqs) if type(x) in (tuple, int) else x for x in v[3:])
        if args == v[3:]:
            return v
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor') \
                and len(args) == 2:
            return binop(op, args[0], args[1], w)
        return ('o', op, w) + args
    if k == 'cmp':
        a = rewrite(v[3], eqs)
        b = rewrite(v[4], eqs)
        if a is v[3] and b is v[4]:
            return v
        return cmpv(v[1], a, b, v[2])
    if k == 'not':
        return notv(rewrite(v[1], eqs))
    if k == 'agg':
        return ('agg', tuple(rewrite(x, eqs) for x in v[1]))
    return v


def show(v):
    if type(v) is int:
        return str(v) if v < 10 ** 6 else hex(v)
    if type(v) is not tuple or not v:
        return str(v)
    k = v[0]
    if k == 's':
        return "<%s>" % (v[1][-1] if type(v[1]) is tuple and type(v[1][-1]) is str else '.'.join(map(str, v[1]))
                         if type(v[1]) is tuple else v[1])
    if k == 'p':
        return "&%s%s" % (showobj(v[1]), '' if v[2] == 0 else '+' + show(v[2]))
    if k == 'l':
        return '(' + ' + '.join(([show(v[2])] if v[2] else []) +
                               [(show(t) if c == 1 else '%d*%s' % (sgn(c, v[1]), show(t))) for t, c in v[3]]) + ')'
    if k == 'cmp':
        return "(%s %s %s)" % (show(v[3]), {'eq': '==', 'ult': '<u', 'slt': '<s'}[v[1]], show(v[4]))
    if k == 'not':
        return '!' + show(v[1])
    if k == 'o':
        return "%s(%s)" % (v[1], ', '.join(show(x) for x in v[3:]))
    if k == 'agg':
        return '{' + ', '.join(show(x) for x in v[1]) + '}'
    if k == 'u':
        return 'undef'
    if k == 'f':
        return '@' + v[1]
    if k == 'k':
        return 'k(' + ','.join(show(x) if type(x) is tuple else str(x) for x in v[1:]) + ')'
    return str(v)


def showobj(o):
    if type(o) is tuple:
        return '.'.join(str(x) if type(x) is not tuple else showobj(x) for x in o)
    return str(o)
