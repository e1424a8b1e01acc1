"""switch_cases: for a symbolic condition, every path calls exactly one function, with the constant that the path's facts force the
condition to be."""
import build
import equiv
import wit
from c18 import LIM, lit
from dom import *

PRE = '''#include <dice/template-library/switch_cases.hpp>
#include <memory>
#include <type_traits>
namespace d = dice::template_library;
namespace arch { %s long dflt(); long dfltl(); }
template<typename A, typename B> inline constexpr bool same = false;
template<typename A> inline constexpr bool same<A, A> = true;
// instantiable only for the values of the interval, and only with constants of the interval's type
template<typename T, T lo, T hi> struct F {
  F() = default; F(F const &) = delete;
  template<T k> long operator()(std::integral_constant<T, k>) & { static_assert(lo <= k && k < hi); return arch::onl(k); }
  template<T k> long operator()(std::integral_constant<T, k>) && { static_assert(lo <= k && k < hi); return arch::on(k); }
};
template<typename T, T lo, T hi> struct R {
  template<T k> long &operator()(std::integral_constant<T, k>) const { static_assert(lo <= k && k < hi); return arch::ref(k); }
};
template<typename T, T lo, T hi> struct V {
  template<T k> void operator()(std::integral_constant<T, k>) const { static_assert(lo <= k && k < hi); arch::v(k); }
};
struct D { D() = default; D(D const &) = delete; long operator()() & { return arch::dfltl(); } long operator()() && { return arch::dflt(); } };
struct DR { long &operator()() const { return arch::rdflt(); } };
struct DV { void operator()() const { arch::vdflt(); } };
struct B { long operator()(std::true_type) & { return arch::onl(true); } long operator()(std::false_type) & { return arch::onl(false); }
           long operator()(std::true_type) && { return arch::on(true); } long operator()(std::false_type) && { return arch::on(false); } };
#define W extern "C" __attribute__((used))
'''


def intervals(t, thorough):
    lo, hi = LIM[t]
    I = [(0, 1), (1, 0)]
    if hi > 1:
        I += [(0, 0), (2, 5), (5, 2), (0, 3), (3, 0), (1, 2), (hi, hi - 3), (hi - 2, hi), (lo, lo + 2), (lo + 3, lo), (hi - 1, hi), (hi, hi)]
        I += [(0, 40)] if t in ('int', 'unsigned char') else []
        I += [(260, 0)] if t in ('short',) else []  # wider than 8 bits
    if lo < 0:
        I += [(-2, 2), (2, -2), (-3, -1), (-1, 0)]
    if thorough and 'char' in t and '16' not in t:
        I += [(lo, hi), (hi, lo)]
    return sorted(set(I))


class Sw:
    def __init__(self, chk, mod):
        self.chk, self.mod = chk, mod

    def analyse(self, name, t, a, b, form):
        """form: l/r category of the functions; d: with default; single: one bound"""
        chk = self.chk
        lo, hi = min(a, b), max(a, b)
        w = width_of(t)
        fn = self.mod.fns[name]
        eng = equiv.engine(self.mod)
        eng.max_depth = 1600
        from engine import State
        what = 'switch_cases<%s, %d, %d>/%s' % (t, a, b, form)

        def go(st, arg):
            return eng.call(st, name, [arg])

        arg = ('s', ('cond',), w)
        outs = go(State(), arg)
        seen = set()
        weak = False
        for kind, v, s in outs:
            calls = [e for e in s.ev]
            chk.count('paths')
            if kind == 'end' and v[0] in ('assert', 'unreachable') or kind == 'end' and not calls:
                # no default: only outside the interval
                for k in range(lo, hi):
                    if eng.decide(s, cmpv('eq', eng.norm(s, arg), k & mask(w), w)) is not False:
                        weak = True
                if form[0] == 'd':
                    chk.violate(what, 'ends in %s although there is a default function' % (v,))
                seen.add('end')
                continue
            if len(calls) != 1:
                chk.violate(what, 'calls %s, expected exactly one call' % [e[1] for e in calls])
                return
            e = calls[0]
            base = e[1].split('(')[0].replace('arch::', '')
            exp = {'l': 'onl', 'r': 'on', 'R': 'ref', 'V': 'v'}[form[1]]
            dn = {'l': 'dfltl', 'r': 'dflt', 'R': 'rdflt', 'V': 'vdflt'}[form[1]]
            if base == exp:
                k = e[2][0]
                k = sgn(k, w) if LIM[t][0] < 0 else k
                if not lo <= k < hi:
                    chk.violate(what, 'case %d outside the interval is called' % k)
                    return
                if eng.norm(s, arg) != k & mask(w) and eng.decide(s, cmpv('eq', eng.norm(s, arg), k & mask(w), w)) is not True:
                    weak = True
                seen.add(k)
            elif base == dn:
                for k in range(lo, hi):
                    if eng.decide(s, cmpv('eq', eng.norm(s, arg), k & mask(w), w)) is not False:
                        weak = True
                seen.add('default')
            else:
                chk.violate(what, 'calls %s' % e[1])
                return
            if kind == 'ret' and form[1] != 'V' and equiv.canon(eng, s, v) != e[3]:
                chk.violate(what, 'the result of the call is not returned unchanged')
                return
            if kind == 'throw' and v[1] != 'USER':
                chk.violate(what, 'exception replaced')
        for k, v in eng.viol.items():
            chk.violate('%s/%s' % (what, v['kind']), v['msg'], loc=v['loc'], path=v['path'])
        chk.engine(eng)
        chk.count('intervals')
        full = set(range(lo, hi))
        if not weak:
            miss = full - seen
            if miss:
                chk.violate(what, 'no path calls the case %s' % sorted(miss)[0])
            if form[0] == 'd' and 'default' not in seen and hi - lo < 2 ** w:
                chk.violate(what, 'the default function is never called')
            return
        # the facts do not separate the cases: decide them value by value
        chk.count('decided_value_by_value')
        L, H = LIM[t]
        for c in sorted(full | {x for x in (lo - 1, hi, lo - 2, hi + 1, L, H, 0, (L + lo) // 2, (H + hi) // 2) if L <= x <= H}):
            eng = equiv.engine(self.mod)
            eng.max_depth = 1600
            for kind, v, s in eng.call(State(), name, [c & mask(w)]):
                base = [(e[1].split('(')[0].replace('arch::', ''), e[2][0] if e[2] else None) for e in s.ev]
                want = [(exp_of(form), c & mask(w))] if lo <= c < hi else [(dflt_of(form), None)] if form[0] == 'd' else []
                if base != want:
                    chk.violate(what, 'condition %d calls %s, expected %s' % (c, base, want))
                    return


def exp_of(form):
    return {'l': 'onl', 'r': 'on', 'R': 'ref', 'V': 'v'}[form[1]]


def dflt_of(form):
    return {'l': 'dfltl', 'r': 'dflt', 'R': 'rdflt', 'V': 'vdflt'}[form[1]]


def width_of(t):
    return {'bool': 1, 'char': 8, 'short': 16, 'char16_t': 16, 'int': 32, 'unsigned': 32, 'long': 64}[t.split()[-1]]


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR with a symbolic condition; type-level witnesses that only values of the interval are instantiated'
    chk.headers = ['switch_cases.hpp']
    decl = ''.join('long on(%s); long onl(%s); long &ref(%s); void v(%s); ' % (t, t, t, t) for t in LIM) + 'long &rdflt(); void vdflt();'
    src = PRE % decl
    todo = []
    A = []
    for t in LIM:
        for a, b in intervals(t, chk.thorough):
            lo, hi = lit(t, min(a, b)), lit(t, max(a, b))
            la, lb = lit(t, a), lit(t, b)
            P = '<%s, %s, %s>' % (t, lo, hi)
            for dflt in (1, 0):
                if a == b and not dflt:
                    continue
                for cat in 'lrRV':
                    if cat in 'RV' and t not in ('int', 'signed char', 'unsigned long', 'bool'):
                        continue
                    for single in (0, 1):
                        if single and a != 0:
                            continue
                        n = 'w%d' % len(todo)
                        T = '%s' % (lb if single else la + ', ' + lb)
                        ty = {'l': 'long', 'r': 'long', 'R': 'long &', 'V': 'void'}[cat]
                        fo = {'l': 'F%s f; D g; ' % P, 'r': '', 'R': '', 'V': ''}[cat]
                        fa = {'l': 'f', 'r': 'F%s{}' % P, 'R': 'R%s{}' % P, 'V': 'V%s{}' % P}[cat]
                        ga = {'l': 'g', 'r': 'D{}', 'R': 'DR{}', 'V': 'DV{}'}[cat]
                        call = 'd::switch_cases<%s>(c, %s%s)' % (T, fa, ', ' + ga if dflt else '')
                        src += 'W %s %s(%s c) { %sstatic_assert(same<decltype(%s), %s>); return %s; }\n' % (ty, n, t, fo, call, ty, call)
                        todo.append((n, t, a, b, ('d' if dflt else 'n') + cat + ('1' if single else '')))
    src += 'W long bl(bool c) { B b; return d::switch_bool(c, b); }\nW long br(bool c) { static_assert(same<decltype(d::switch_bool(c, B{})), long>); return d::switch_bool(c, B{}); }\n'
    mod = build.compile_bc(src)
    sw = Sw(chk, mod)
    for x in todo:
        sw.analyse(*x)
    from engine import State
    for n, f in (('bl', 'onl'), ('br', 'on')):
        for c in (0, 1):
            eng = equiv.engine(mod)
            for kind, v, s in eng.call(State(), n, [c]):
                if [(e[1].split('(')[0], e[2]) for e in s.ev] != [('arch::' + f, (c,))] or kind == 'ret' and v != s.ev[0][3] or kind not in ('ret', 'throw'):
                    chk.violate('switch_bool/' + n, 'condition %d calls %s' % (c, [(e[1], e[2]) for e in s.ev]))
            chk.count('paths')
    chk.require('intervals', chk.counts['intervals'], 200)
    return ''
