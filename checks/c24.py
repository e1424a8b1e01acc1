"""ipow: for every listed exponent and a symbolic base, the value returned is the product of exactly exp factors `base`, every
multiplication in it was tested for overflow; an exception is raised only when a product of at most exp factors overflowed."""
import build
import equiv
import par
import wit
from dom import *
from engine import State

PRE = '''#include <dice/template-library/ipow.hpp>
#include <cstdint>
#include <stdexcept>
namespace d = dice::template_library;
template<typename A, typename B> inline constexpr bool same = false;
template<typename A> inline constexpr bool same<A, A> = true;
'''
TY = {'i8': ('signed char', 8, 1), 'u8': ('unsigned char', 8, 0), 'i16': ('short', 16, 1), 'u16': ('unsigned short', 16, 0),
      'i32': ('int', 32, 1), 'u32': ('unsigned', 32, 0), 'i64': ('long', 64, 1), 'u64': ('unsigned long', 64, 0)}


def exps(t, thorough):
    _, w, s = TY[t]
    if w == 8 and thorough:
        out = set(range(256))
    else:
        out = set(range(0, 72 if thorough else 36)) | {63, 64, 65, 126, 127, 128, 129, 255}
        if w > 8:
            out |= {256, 257, 1000, 4095, 32766, 32767}
        top = (1 << (w - s)) - 1
        out |= {top, top - 1, top >> 1, (top >> 1) + 1}
        if s:
            out |= {-1, -2, -3, -4, -7, -8, -127, -128, -top, -top - 1}
            if w > 8:
                out |= {-255, -256, -257, -32767, -32768}
        out = {e for e in out if -(1 << (w - 1)) * s <= e <= top}
    return sorted(e & mask(w) for e in out)


class Bad(Exception):
    pass


def degree(v, b):
    return 1 if v == b else 0 if v == 1 else v[1][1] if type(v) is tuple and v[0] == 's' and v[1][0] == 'pow' else None


def power_name(b):
    """products of powers of the base are represented by the sum of their exponents"""
    def simplify(eng, st, v, w):
        if type(v) is tuple and v[0] == 'o' and v[1] == 'mul':
            i, j = degree(v[3], b), degree(v[4], b)
            if i is not None and j is not None:
                return ('s', ('pow', i + j), w)
        return v
    return simplify


class Run:
    """decides what a path says about powers of the base"""

    def __init__(self, eng, st, b, w, signed):
        self.eng, self.st, self.b, self.w, self.signed = eng, st, b, w, signed
        self.ok = set()

    def power(self, v):
        """v is base^k: k; with the overflow of every multiplication in it refuted by the facts of the path"""
        k = degree(v, self.b)
        if k is not None and k > 1 and k not in self.ok:
            for f, t in self.flags():
                i, j = degree(f[3], self.b), degree(f[4], self.b)
                if not t and i and j and i + j == k and self.power(f[3]) and self.power(f[4]):
                    self.ok.add(k)
                    break
            else:
                raise Bad('base^%d is used although its overflow was not tested' % k)
        return k

    def overflowed(self):
        """powers of the base the path has found to overflow"""
        out = []
        for f, t in self.flags():
            if t:
                k = self.power(f[3]), self.power(f[4])
                if None not in k:
                    out.append(k[0] + k[1])
        return out

    def flags(self):
        for f in self.st.mon.get('#flags', ()):
            d = self.eng.decide(self.st, f)
            if d is not None:
                yield f, d


def note(eng, st, I, kind, a, b, v, ov):
    if type(ov) is tuple and kind.endswith('mul'):
        st.mon['#flags'] = st.mon.get('#flags', ()) + (ov,)


def base_value(eng, st, b, w):
    v = eng.norm(st, b)
    if type(v) is int:
        return v
    iv = eng.interval(st, b, w)
    if iv and iv[0] == iv[1]:
        return iv[0]
    for k in (0, 1, mask(w)):
        if eng.decide(st, cmpv('eq', b, k, w)) is True:
            return k
    return None


def one(chk, bt, et, thorough):
    bty, w, sg = TY[bt]
    ety, ew, es = TY[et]
    src = PRE + 'extern "C" %s go(%s b, %s e) { static_assert(same<decltype(d::ipow(b, e)), %s>); return d::ipow(b, e); }\n' % (bty, bty, ety, bty)
    mod = build.compile_bc(src)
    b = ('s', ('base',), w)
    for e in exps(et, thorough):
        if len(chk.v) > 4:
            break
        ev = sgn(e, ew) if es else e
        what = 'ipow<%s, %s>' % (bt, et)
        eng = equiv.engine(mod)
        eng.max_unroll = 300
        eng.hooks['ovf'] = note
        eng.hooks['simplify'] = power_name(b)
        eng.trace = False
        st = State()
        outs = []
        # the sign of the base (and the special bases of negative exponents) are fixed before the call
        cases = [cmpv('ult', b, 2, w)] if not sg else [cmpv('eq', b, mask(w), w), cmpv('eq', b, 0, w), cmpv('eq', b, 1, w)]
        if not sg:
            cases = [cmpv('eq', b, 0, w), cmpv('eq', b, 1, w), cmpv('ugt', b, 1, w)]
        else:
            cases += [('&', cmpv('slt', b, mask(w), w)), ('&', cmpv('sgt', b, 1, w))]
        for c in cases:
            if c[0] == '&':
                c = c[1]
            for s in eng.assume(st.copy(), c, True):
                outs += [(c, o) for o in eng.call(s, 'go', [b, e])]
        n = 0
        for c, (kind, v, s) in outs:
            n += 1
            run = Run(eng, s, b, w, sg)
            bv = base_value(eng, s, b, w)
            at = 'base %s, exponent %d' % ('symbolic' if bv is None else sgn(bv, w) if sg else bv, ev)
            try:
                if kind == 'ret':
                    value(chk, what, at, run, eng.norm(s, v), bv, ev)
                elif kind == 'throw':
                    thrown(chk, what, at, run, v, bv, ev, c)
                else:
                    chk.violate(what, '%s: ends in %s' % (at, v))
            except Bad as x:
                chk.violate(what, '%s: %s' % (at, x))
        for k, v in eng.viol.items():
            chk.violate('%s/%s' % (what, v['kind']), 'exponent %d: %s' % (ev, v['msg']), loc=v['loc'], path=v['path'])
        chk.engine(eng)
        chk.count('paths', n)
        chk.count('exponents')


def rng(w, sg):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, mask(w))


def exact(bv, ev, w, sg):
    """base^exp truncated towards zero; None if it is not representable"""
    x = sgn(bv, w) if sg else bv
    if ev < 0:
        return {1: 1, -1: -1 if ev & 1 else 1}.get(x, 0)
    if x in (0, 1, -1):
        return (1 if not ev or x == 1 else 0 if x == 0 else -1 if ev & 1 else 1)
    if ev > w:
        return None
    v = x ** ev
    lo, hi = rng(w, sg)
    return v if lo <= v <= hi else None


def value(chk, what, at, run, v, bv, ev):
    w, sg = run.w, run.signed
    if type(v) is not int and bv is not None:
        v = run.eng.norm(run.st, v)
        k = run.power(v)
        if k is not None:
            v = (sgn(bv, w) if sg else bv) ** min(k, 2 * w + (k & 1)) & mask(w) if abs(sgn(bv, w) if sg else bv) < 2 else v
    if type(v) is int:
        if bv is not None:
            x = exact(bv, ev, w, sg)
            if x is None or v != x & mask(w):
                raise Bad('returns %d instead of %s' % (sgn(v, w) if sg else v, 'raising an exception' if x is None else x))
            return
        want = 0 if ev < 0 else 1 if ev == 0 else None
        if v != want:
            raise Bad('returns %d%s' % (v, '' if want is None else ' instead of %d' % want))
        return
    k = run.power(v)
    if k is None:
        raise Bad('cannot show that the result is a power of the base: %s' % show(v))
    if k != ev:
        raise Bad('returns the product of %d factors' % k)


def thrown(chk, what, at, run, v, bv, ev, case):
    w, sg = run.w, run.signed
    t = v[1] if type(v) is tuple else v
    if bv is not None:
        if exact(bv, ev, w, sg) is not None:
            raise Bad('raises %s although the result is representable' % (t,))
    elif ev < 0:
        raise Bad('raises %s' % (t,))
    else:
        ks = run.overflowed()
        if not any(k <= ev for k in ks):
            raise Bad('raises %s %s' % (t, 'because base^%d overflows' % min(ks) if ks else 'although no product overflowed'))
    neg = sg and (run.eng.decide(run.st, cmpv('slt', run.b, 0, w)) is True) and ev & 1
    want = 'underflow_error' if neg else 'overflow_error'
    if want not in str(t):
        raise Bad('raises %s instead of %s' % (t, want))


def witnesses():
    A = []
    for t, (n, w, sg) in TY.items():
        lo, hi = rng(w, sg)
        lit = {8: 'INT8', 16: 'INT16', 32: 'INT32', 64: 'INT64'}[w]
        for x in (2, 3, 5, 7, 10) + ((-2, -3, -10) if sg else ()):
            k = 0
            while lo <= x ** (k + 1) <= hi:
                k += 1
            def c(v):
                return '(%s) %s' % (n, '(-%dl-1)' % (-v - 1) if v < 0 else '%du%s' % (v, 'l' if v > 2 ** 32 else ''))
            A.append((n, 'd::ipow((%s) %d, %d) == %s' % (n, x, k, c(x ** k)), 'the largest power of %d in %s' % (x, n)))
    return A


def rejects():
    R = []
    for t, (n, w, sg) in TY.items():
        R.append(('overflow-' + t, 'constexpr auto x = d::ipow((%s) 2, %d);' % (n, w - sg), 'constexpr auto x = d::ipow((%s) 2, %d);' % (n, w - sg - 1)))
    for a in ('double', 'void *'):
        R.append(('base', 'using T = %s; T a{}; auto f() { return d::ipow(a, 1); }' % a, 'using T = long; T a{}; auto f() { return d::ipow(a, 1); }'))
        R.append(('exponent', 'using T = %s; T a{}; auto f() { return d::ipow(1, a); }' % a, 'using T = long; T a{}; auto f() { return d::ipow(1, a); }'))
    return R


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR: symbolic base, the term of the result is a product of exactly exp factors whose multiplications were all tested for overflow on the path'
    chk.headers = ['ipow.hpp']
    wit.asserts(chk, 'constants', PRE, witnesses())
    wit.asserts(chk, 'constants-clang', PRE, witnesses(), build.CLANG)
    wit.reject(chk, 'rejected', PRE, rejects())
    todo = [(b, e, True) for b in TY for e in TY]
    par.run(chk, one, todo)
    chk.require('exponents', chk.counts['exponents'], 500)
    chk.require('paths', chk.counts['paths'], 3000)
    return ''
