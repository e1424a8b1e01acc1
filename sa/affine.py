"""Exact values of the form c + k*x (mod 2^w) for one symbol x with known bounds: casts, divisions by constants and comparisons of such
values are decided wherever they are the same for all x within the bounds."""
from dom import *


class Affine:
    def __init__(self, x, w, signed, lo, hi):
        self.x, self.w, self.signed, self.lo, self.hi = x, w, signed, lo, hi
        self.all = lo, hi

    def install(self, eng):
        eng.hooks['simplify'] = self.simplify
        eng.hooks['cast'] = self.cast
        eng.hooks['decide'] = self.decide
        eng.hooks['assume'] = self.assume
        return self

    def at(self, st):
        """the bounds of x on the path"""
        self.lo, self.hi = st.iv.get('affine', self.all)

    def assume(self, eng, st, pred, w, a, b, truth):
        """narrows the bounds of x by a comparison that is now known"""
        self.at(st)
        x, y = self.lin(a, w), self.lin(b, w)
        s = pred[0] == 's'
        f, g = x and self.fit(x, w, s), y and self.fit(y, w, s)
        if not f or not g:
            return
        c, k = f[0] - g[0], f[1] - g[1]
        if not k:
            return
        lo, hi = self.lo, self.hi
        if pred == 'eq':
            if truth:
                lo = hi = -c // k
        else:
            if not truth:  # c + k*x >= 0
                lo, hi = (max(lo, -(c // k)), hi) if k > 0 else (lo, min(hi, c // -k))
            else:          # c + k*x <= -1
                lo, hi = (lo, min(hi, (-1 - c) // k)) if k > 0 else (max(lo, -((-1 - c) // -k)), hi)
        if lo <= hi:
            st.iv['affine'] = lo, hi

    def lin(self, v, w):
        """(c, k) with v = c + k*x modulo 2^w, or None"""
        if type(v) is int:
            return v, 0
        if v == self.x:
            return (0, 1) if w <= self.w or w == self.w else None
        if v[0] == 'o' and v[1] in ('zext', 'sext') and v[3] == self.x:
            return (0, 1) if (v[1] == 'sext') == bool(self.signed) or self.lo >= 0 and (not self.signed or self.hi < 1 << (self.w - 1)) and (v[1] == 'zext' or self.hi < 1 << (self.w - 1)) else None
        if v[0] == 'o' and v[1] == 'trunc' and v[4] >= w:
            return self.lin(v[3], v[4])
        if v[0] == 'l':
            c, d = tolin(v, w)
            k = 0
            for t, f in d.items():
                a = self.lin(t, w)
                if a is None:
                    return None
                c, k = c + f * a[0], k + f * a[1]
            return c & mask(w), sgn(k & mask(w), w)
        return None

    def term(self, c, k, w):
        a = self.x
        if w < self.w:
            a = trunc(a, self.w, w)
        elif w > self.w:
            a = (sext if self.signed else zext)(a, self.w, w)
        k &= mask(w)
        return fromlin(c & mask(w), {a: k}, w) if k else c & mask(w)

    def fit(self, ck, w, signed):
        """c such that c + k*x is within the range of the type for all x"""
        c, k = ck[0], sgn(ck[1] & mask(w), w)
        base = -(1 << (w - 1)) if signed else 0
        l, h = sorted((c + k * self.lo, c + k * self.hi))
        d = (l - base) // (1 << w) * (1 << w)
        l, h = l - d, h - d
        return (c - d, k, l, h) if h < base + (1 << w) else None

    def range(self, v, w):
        """unsigned bounds of v"""
        if type(v) is int:
            return v, v
        a = self.lin(v, w)
        f = a and self.fit(a, w, False)
        if f:
            return f[2], f[3]
        if v[0] == 'o' and v[1] in ('udiv', 'lshr') and type(v[4]) is int and 0 <= v[4] and (v[1] == 'udiv' or v[4] < w):
            d = v[4] if v[1] == 'udiv' else 1 << v[4]
            l, h = self.range(v[3], w)
            return (l // d, h // d) if d else (0, mask(w))
        if v[0] == 'o' and v[1] == 'zext':
            return self.range(v[3], v[4])
        if v[0] == 'l':
            c, d = tolin(v, w)
            l = h = c
            for t, k in d.items():
                k = sgn(k, w)
                x = self.range(t, w)
                l, h = l + min(k * x[0], k * x[1]), h + max(k * x[0], k * x[1])
            d = l >> w << w
            if h - d <= mask(w):
                return l - d, h - d
        return 0, mask(w)

    def cast(self, eng, st, op, v, w0, w):
        self.at(st)
        a = self.lin(v, w0) if v != UNDEF and type(v) is tuple else None
        if a is None:
            return None
        if op == 'trunc':
            return self.term(a[0], a[1], w)
        f = self.fit(a, w0, op == 'sext')
        return self.term(f[0], f[1], w) if f else None

    def simplify(self, eng, st, v, w):
        self.at(st)
        if type(v) is tuple and v[0] == 'o' and (v[1] == 'urem' or v[1] == 'and' and type(v[4]) is int and not v[4] & (v[4] + 1)) and type(v[4]) is int and v[4]:
            # the remainder is linear where the quotient is constant
            a = self.lin(v[3], w)
            f = a and self.fit(a, w, False)
            d = v[4] + (v[1] == 'and')
            if f and f[2] // d == f[3] // d:
                return self.term(f[0] - f[2] // d * d, f[1], w)
        if type(v) is tuple and v[0] in ('o', 'l') and (v[0] == 'l' or v[1] in ('udiv', 'lshr')):
            l, h = self.range(v, w)
            if l == h:
                return l
        return v

    def decide(self, eng, st, pred, w, a, b):
        self.at(st)
        s = pred[0] == 's'
        x, y = self.lin(a, w), self.lin(b, w)
        if x and y and pred != 'eq':
            f, g = self.fit(x, w, s), self.fit(y, w, s)
            if f and g:
                d = [(f[0] - g[0]) + (f[1] - g[1]) * z for z in (self.lo, self.hi)]
                l, h = min(d), max(d)
                if pred[1:] == 'lt':
                    return True if h < 0 else False if l >= 0 else None
                if pred[1:] == 'le':
                    return True if h <= 0 else False if l > 0 else None
            return None
        if s:
            return None
        (la, ha), (lb, hb) = self.range(a, w), self.range(b, w)
        if pred == 'eq':
            if x and y:
                c, k = (x[0] - y[0]) & mask(w), (x[1] - y[1]) & mask(w)
                if not k:
                    return c == 0
                f = self.fit((c, k), w, False)
                if f and f[2] > 0:
                    return False
            return False if ha < lb or hb < la else True if la == ha == lb == hb else None
        if pred == 'ult':
            return True if ha < lb else False if la >= hb else None
        return None
