"""range(): symbolic start; for concrete stop and step the starts are partitioned by the number of elements that remain; every pair of
operations (next, nth, next_back, nth_back) is followed by remaining, next and next_back on copies and compared with the progression."""
import affine
import build
import equiv
import par
import wit
from dom import *
from engine import State

PRE = '''#include <dice/template-library/ranges.hpp>
#include <cstdint>
#include <limits>
#include <optional>
namespace d = dice::template_library;
struct Out { long n; struct { long has; %(T)s v; } r[6]; };
using T = %(T)s; using S = %(S)s;
using R = d::ranges_algo_detail::range_iterator<T, S>;
template<typename O> inline void put(Out *o, int i, O const &x) { o->r[i].has = x.has_value(); if (x) o->r[i].v = *x; }
#define W extern "C" __attribute__((used)) void
'''
TY = {'i8': ('signed char', 8, 1), 'u8': ('unsigned char', 8, 0), 'i16': ('short', 16, 1), 'u16': ('unsigned short', 16, 0), 'c16': ('char16_t', 16, 0),
      'i32': ('int', 32, 1), 'u32': ('unsigned', 32, 0), 'i64': ('long', 64, 1), 'u64': ('unsigned long', 64, 0)}
PAIRS = [('i8', 'i8'), ('u8', 'u8'), ('u8', 'i32'), ('i8', 'i64'), ('i16', 'i16'), ('u16', 'u16'), ('u16', 'i16'), ('c16', 'i32'), ('i32', 'i32'), ('u32', 'u32'), ('u32', 'i32'), ('i32', 'i64'),
         ('u32', 'i8'), ('i64', 'i64'), ('u64', 'u64'), ('u64', 'i64'), ('u64', 'i8'), ('i64', 'i16')]
FULL = [('i8', 'i8'), ('u8', 'u8'), ('i64', 'i64'), ('u64', 'u64'), ('u64', 'i8'), ('u32', 'i32')]  # with every pair of operations also in the quick run
HUGE = (1 << 64) - 1
OPS = {'next': ('x.next()', 0), 'nth0': ('x.nth(0)', 0), 'nth1': ('x.nth(1)', 1), 'nth2': ('x.nth(2)', 2), 'nthx': ('x.nth(n)', HUGE), 'back': ('x.next_back()', -1), 'back0': ('x.nth_back(0)', -1),
       'back1': ('x.nth_back(1)', -2), 'back2': ('x.nth_back(2)', -3), 'backx': ('x.nth_back(n)', -HUGE - 1)}
FWD = ('next', 'nth0', 'nth1')


def rng(t):
    _, w, s = TY[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, mask(w))


def apply(lo, hi, op):
    """the remaining elements are number lo..hi-1: (element, lo, hi)"""
    k = OPS[op][1]
    if k >= 0:
        return (lo + k, lo + k + 1, hi) if lo + k < hi else (None, hi, hi)
    k = -k - 1
    return (hi - 1 - k, lo, hi - 1 - k) if hi - 1 - k >= lo else (None, lo, lo)


def source(t, s):
    src = PRE % {'T': TY[t][0], 'S': TY[s][0]}
    fs = []
    for a in OPS:
        for b in OPS:
            n = 'p_%s_%s' % (a, b)
            src += 'W %s(T c, T e, S s, Out *o) { unsigned long const n = -1ul; R x{c, e, s}; put(o, 0, %s); put(o, 1, %s); o->n = x.remaining(); R y = x, z = x; put(o, 2, y.next()); put(o, 3, z.next_back()); }\n' % (n, OPS[a][0], OPS[b][0])
            fs.append((n, (a, b)))
    # without a known number of elements
    src += 'W many(T c, T e, S s, Out *o) { R x{c, e, s}; put(o, 0, x.next()); put(o, 1, x.nth(0)); put(o, 2, x.nth(1)); }\n'
    src += '''W view(T c, T e, S s, Out *o) { auto v = d::range(c, e, s); static_assert(std::is_same_v<decltype(v), d::range_view<T, S>>); o->n = v.size();
        put(o, 0, v.empty() || !v ? std::nullopt : std::optional<T>{v.front()}); put(o, 1, v.empty() ? std::nullopt : std::optional<T>{v.back()}); put(o, 2, v.size() > 1 ? std::optional<T>{v[1]} : std::nullopt);
        auto i = v.begin(); put(o, 3, i == v.end() ? std::nullopt : std::optional<T>{*i}); auto r = v.reversed(); auto j = r.begin(); put(o, 4, j == r.end() ? std::nullopt : std::optional<T>{*j});
        v.advance(1); i = v.begin(); put(o, 5, i == v.end() ? std::nullopt : std::optional<T>{*i}); }
'''
    if t == s:
        src += 'W two(T c, T e, S s, Out *o) { auto v = d::range(c, e); static_assert(std::is_same_v<decltype(v), d::range_view<T, T>>); auto i = v.begin(); put(o, 0, i == v.end() ? std::nullopt : std::optional<T>{*i}); if (i == v.end()) return; ++i; put(o, 1, i == v.end() ? std::nullopt : std::optional<T>{*i}); }\n'
        src += 'W onearg(T c, T e, S s, Out *o) { auto v = d::range(e); static_assert(std::is_same_v<decltype(v), d::range_view<T, T>>); auto i = v.begin(); put(o, 0, i == v.end() ? std::nullopt : std::optional<T>{*i}); if (i == v.end()) return; ++i; put(o, 1, i == v.end() ? std::nullopt : std::optional<T>{*i}); }\n'
    return src, fs


def limits_of(t, s, thorough):
    lo, hi = rng(t)
    stops = {5, 100, hi, hi - 1, lo, lo + 1} | ({0, hi >> 1, lo + 100, -7, 77} if thorough else set())
    slo, shi = rng(s)
    steps = {1, 2, 7, shi, -1, -3, slo} | ({100, -100, 3, 5, 64, -2, -7, shi - 1, slo + 1, hi, -hi, 300, -300} if thorough else set())
    return sorted(x for x in stops if lo <= x <= hi), sorted(x for x in steps if slo <= x <= shi and x)


def cells(t, stop, step, most):
    """(from, to, number of elements or None) for the start; starts whose distance is a multiple of the step are cells of their own"""
    lo, hi = rng(t)
    a = abs(step)
    out = []
    if step > 0:
        out.append((stop, hi, 0))
        end = stop
        for k in [*range(1, most + 1), None, None]:
            out += [(max(lo, end - a + 1), end - 1, k), (end - a, end - a, k)]
            end -= a
        out.append((lo, end - 1, None))
        if end - 1 >= lo:
            out.append((lo, lo, -((lo - stop) // a)))
    else:
        out.append((lo, stop, 0))
        beg = stop
        for k in [*range(1, most + 1), None, None]:
            out += [(beg + 1, min(hi, beg + a - 1), k), (beg + a, beg + a, k)]
            beg += a
        out.append((beg + 1, hi, None))
        if beg + 1 <= hi:
            out.append((hi, hi, -((stop - hi) // a)))
    return [(x, y, k) for x, y, k in out if x <= y and lo <= x and y <= hi]


def run(chk, mod, what, fn, t, s, stop, step, cell, expect):
    """expect: list of (slot, element number or None); number of elements left or None"""
    _, w, sg = TY[t]
    _, sw, ssg = TY[s]
    lo, hi, k = cell
    c = ('s', ('start',), w)
    if lo == hi:
        c = lo & mask(w)
    viol = []
    n, slots = expect
    outs = []
    # a range that crosses the sign is looked at in two parts
    parts = [(lo, -1), (0, hi)] if sg and lo < 0 <= hi and lo != hi else [(lo, hi)]
    for l, h in parts:
        eng, st = equiv.engine(mod), State()
        eng.extobj(st, 'o')
        if lo != hi:
            affine.Affine(c, w, sg, l, h).install(eng)
        outs += [(eng,) + o for o in eng.call(st, fn, [c, stop & mask(w), step & mask(sw), ('p', ('x', 'o'), 0)])]
        chk.engine(eng)
        viol += list(eng.viol.values())
    at = 'start %s, stop %d, step %d' % (lo if lo == hi else 'in [%d, %d]' % (lo, hi), stop, step)
    for v in viol:
        chk.violate('%s/%s' % (what, v['kind']), '%s: %s' % (at, v['msg']), loc=v['loc'], path=v['path'])
    if not outs and not viol:
        chk.violate(what, '%s: never returns' % at)
    for eng, kind, v, s2 in outs:
        if kind != 'ret':
            chk.violate(what, '%s: ends in %s' % (at, v))
            return
        m = {x: eng.norm(s2, y[1]) for x, y in s2.cells(('x', 'o')).items()}
        if n is not None:
            r = m.get(0)
            if r != n and eng.decide(s2, cmpv('eq', r, n & HUGE, 64)) is not True:
                chk.violate(what, '%s: reports %s remaining elements instead of %d' % (at, show(r) if r is not None else 'no', n))
                return
        for i, e in slots:
            has, val = m.get(8 + 16 * i), m.get(16 + 16 * i)
            if has != int(e is not None):
                chk.violate(what, '%s: result %d is %s' % (at, i, 'missing' if has == 0 else 'not empty' if e is None else 'undecided: %s' % show(has) if has is not None else 'not written'))
                return
            if e is not None:
                want = add(c, (step * e) & mask(w), w)
                if val != want and (val is None or eng.decide(s2, cmpv('eq', val, want, w)) is not True):
                    chk.violate(what, '%s: result %d is %s instead of start + %d*step' % (at, i, show(val) if val is not None else 'not written', e))
                    return
    chk.count('cases')


def job(chk, t, s, thorough, part, parts):
    src, fs = source(t, s)
    mod = build.compile_bc(src)
    stops, steps = limits_of(t, s, thorough)
    lo, hi = rng(t)
    todo = [(a, b) for a in stops for b in steps]
    for stop, step in todo[part::parts]:
        for cell in cells(t, stop, step, 5 if thorough else 3):
            if len(chk.v) > 2:
                return
            k = cell[2]
            if k is None:
                run(chk, mod, 'range<%s, %s>/next' % (t, s), 'many', t, s, stop, step, cell, (None, [(0, 0), (1, 1), (2, 3)]))
                continue
            for n, (a, b) in fs:
                if not thorough and (t, s) not in FULL and b not in ('next', 'back1') and (a, b) not in (('next', 'nthx'), ('back', 'backx')):
                    continue
                x, l, h = apply(0, k, a)
                y, l, h = apply(l, h, b)
                exp = [(0, x), (1, y), (2, l if l < h else None), (3, h - 1 if l < h else None)]
                run(chk, mod, 'range<%s, %s>/%s,%s' % (t, s, a, b), n, t, s, stop, step, cell, (h - l, exp))
            run(chk, mod, 'range<%s, %s>/view' % (t, s), 'view', t, s, stop, step, cell,
                (k, [(0, 0 if k else None), (1, k - 1 if k else None), (2, 1 if k > 1 else None), (3, 0 if k else None), (4, k - 1 if k else None), (5, 1 if k > 1 else None)]))
            if t == s and step == 1:
                exp = (None, [(0, 0), (1, 1 if k > 1 else None)] if k else [(0, None)])
                run(chk, mod, 'range<%s>(start, stop)' % t, 'two', t, s, stop, step, cell, exp)
        if t == s and step == 1:
            k = max(0, stop)
            run(chk, mod, 'range<%s>(stop)' % t, 'onearg', t, s, stop, step, (0, 0, k), (None, [(0, 0), (1, 1 if k > 1 else None)] if k else [(0, None)]))


def types():
    A = [('', '')]
    A.append(('constexpr', 'd::range(10, 0, -3).size() == 4 && d::range(10, 0, -3).back() == 1 && d::range(3)[2] == 2 && d::range(0u, 10u, 3).front() == 0'))
    A.append(('types', 'std::is_same_v<decltype(d::range(3)), d::range_view<int, int>> && std::ranges::view<decltype(d::range(3))> && std::ranges::sized_range<decltype(d::range(3u))>'))
    return A


ZERO = '''#include <dice/template-library/ranges.hpp>
namespace d = dice::template_library;
'''


def zero(chk):
    """a zero step is refused"""
    src = ZERO + ''.join('extern "C" __attribute__((used)) void z%d(%s a, %s b, %s c) { (void) d::range(a, b, c); }\n' % (i, TY[t][0], TY[t][0], TY[s][0]) for i, (t, s) in enumerate(PAIRS))
    mod = build.compile_bc(src)
    for i, (t, s) in enumerate(PAIRS):
        w, sw = TY[t][1], TY[s][1]
        a, b, c = ('s', ('a',), w), ('s', ('b',), w), ('s', ('c',), sw)
        eng = equiv.engine(mod)
        for truth in (True, False):
            for st in eng.assume(State(), cmpv('eq', c, 0, sw), truth):
                for kind, v, s2 in eng.call(st, 'z%d' % i, [a, b, c]):
                    bad = kind == 'throw' and 'invalid_argument' in str(v[1])
                    if bad != truth or kind not in ('ret', 'throw'):
                        chk.violate('range<%s, %s>/zero step' % (t, s), 'a step of zero is accepted' if truth else 'a step that is not zero is refused')
        chk.engine(eng)
        chk.count('zero_steps')


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR with a symbolic start over cells with a known number of elements, results compared with affine terms'
    chk.headers = ['ranges.hpp', 'next_to_range.hpp']
    wit.asserts(chk, 'constexpr', ZERO, types()[1:])
    wit.asserts(chk, 'constexpr-clang', ZERO, types()[1:], build.CLANG)
    par.run(chk, zero, [()])
    par.run(chk, job, [(t, s, chk.thorough, i, 4) for t, s in PAIRS for i in range(4)])
    chk.require('cases', chk.counts['cases'], 20000)
    return ''
