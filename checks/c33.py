"""Integer literals: written literals are type-level witnesses; called with a symbolic value the operators are followed in the compiler IR."""
import build
import equiv
import wit
from dom import *
from engine import State

T = {'u8': ('std::uint8_t', 8, 0), 'i8': ('std::int8_t', 8, 1), 'u16': ('std::uint16_t', 16, 0), 'i16': ('std::int16_t', 16, 1), 'u32': ('std::uint32_t', 32, 0), 'i32': ('std::int32_t', 32, 1),
     'u64': ('std::uint64_t', 64, 0), 'i64': ('std::int64_t', 64, 1), 'usize': ('std::size_t', 64, 0), 'isize': ('std::ptrdiff_t', 64, 1), 'uptr': ('std::uintptr_t', 64, 0), 'iptr': ('std::intptr_t', 64, 1)}
PRE = '''#include <dice/template-library/stdint.hpp>
#include <type_traits>
#include <utility>
using namespace dice::template_library::literals;
'''
PLAIN = '''#include <cstdint>
'''


def forms(v):
    """ways to write v"""
    s = str(v)
    g = lambda s, n: "'".join([s[max(0, i - n):i] for i in range(len(s), 0, -n)][::-1])
    return [s, g(s, 3), hex(v), hex(v).upper().replace('0X', '0X'), '0x' + g('%x' % v, 4), '0%o' % v, bin(v), '0B' + g(bin(v)[2:], 8)]


def check(chk):
    chk.technique = 'type-level witnesses; abstract interpretation of the compiler IR with a symbolic value'
    chk.headers = ['stdint.hpp']
    A = []
    for s, (t, w, sg) in T.items():
        top = (1 << (w - sg)) - 1
        vals = {0, 1, 2, 7, 8, 9, 10, 42, 99, 100, 127, top, top - 1, top // 2, top // 2 + 1, top // 3}
        for b in (8, 15, 16, 31, 32, 33, 52, 53, 54, 62, 63):
            if b <= w - sg:
                vals |= {(1 << b) - 1, ((1 << b) - 2)} | ({1 << b, (1 << b) + 1} if b < w - sg else set())
        if w == 8:
            vals |= set(range(top + 1))
        for v in sorted(vals):
            for f in sorted(set(forms(v))):
                A.append(('%s/%s' % (s, f), '%s_%s == %s%dull && std::is_same_v<decltype(%s_%s), %s>' % (f, s, '', v, f, s, t), '%s_%s is not the value %d of type %s' % (f, s, v, t)))
        A.append((s + '/noexcept', 'noexcept(%d_%s) && noexcept(0_%s)' % (top, s, s)))
        A.append((s + '/constant', 'std::integral_constant<%s, 3_%s>::value == 3 && [] { int a[5_%s]; switch (7_%s) { case 7_%s: return sizeof(a) == 5 * sizeof(int); } return false; }()' % (t, s, s, s, s)))
        if sg and w == 64:
            A.append((s + '/negative', '-1_%s < 0 && std::is_same_v<decltype(-1_%s), %s> && -%d_%s == %d' % (s, s, t, top, s, -top)))
        elif not sg:
            A.append((s + '/compare', '%d_%s > 0' % (top, s)))
    wit.asserts(chk, 'literals', PRE, A)
    wit.asserts(chk, 'literals-clang', PRE, A, build.CLANG)
    # every value of the small types, in case the operators can only be used in constant expressions
    allv = PRE + '''template<auto f, std::size_t... i> constexpr bool same(std::index_sequence<i...>) { return ((f.template operator()<i>() == i) && ...); }
'''
    B = []
    for s, (t, w, sg) in T.items():
        if w <= 16:
            for c in range(0, (1 << (w - sg)), 4096) if chk.thorough else [0]:
                n = min(4096 if chk.thorough else 600, (1 << (w - sg)) - c)
                B.append(('%s/values %d to %d' % (s, c, c + n - 1), 'same<[]<unsigned long long i>() { return operator""_%s(%dull + i) - %d; }>(std::make_index_sequence<%d>{})' % (s, c, c, n)))
    wit.asserts(chk, 'every', allv, B)
    # symbolic values; not possible if the operators are consteval, then the written literals decide
    src = PRE + ''.join('extern "C" %s x_%s(unsigned long long v) { return operator""_%s(v); }\n' % (t, s, s) for s, (t, w, sg) in T.items())
    ok, log = build.syntax(src)
    if not ok and 'consteval' not in log and 'immediate function' not in log:
        raise build.WitnessRejected('the operators cannot be called with a value', log)
    if ok:
        mod = build.compile_bc(src)
        for s, (t, w, sg) in T.items():
            eng = equiv.engine(mod)
            v = ('s', ('value',), 64)
            sts = eng.assume(State(), cmpv('ule', v, (1 << (w - sg)) - 1, 64), True)
            n = 0
            want = trunc(v, 64, w) if w < 64 else v
            for kind, r, st in [o for st in sts for o in eng.call(st, 'x_' + s, [v])]:
                n += 1
                chk.count('paths')
                if kind != 'ret':
                    chk.violate('symbolic/' + s, '_%s does not return for a value that fits (%s)' % (s, kind))
                elif eng.norm(st, r) != eng.norm(st, want) and eng.decide(st, cmpv('eq', r, want, w)) is not True:
                    chk.violate('symbolic/' + s, '_%s returns %s for the value %s that fits' % (s, show(eng.norm(st, r)), show(v)))
            chk.engine(eng)
            for x in eng.viol.values():
                chk.violate('symbolic/%s/%s' % (s, x['kind']), x['msg'], loc=x['loc'], path=x['path'])
            if not n:
                raise RuntimeError('no path through ' + s)
    return 'Written literals of twelve suffixes in eight notations; every value of the 8 bit types; symbolic values of all types.'
