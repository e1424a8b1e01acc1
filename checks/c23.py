"""pointer_tag_pair: pointer (aligned symbol) and tag (symbol below 2^bits) come back unchanged from every way to pack them; packing
asserts its preconditions; comparison is that of the packed word; type-level witnesses for what must be rejected."""
import bitdom
import build
import equiv
import wit
from dom import *
from engine import State

PRE = '''#include <dice/template-library/pointer_tag_pair.hpp>
#include <cstdint>
#include <type_traits>
#include <utility>
namespace d = dice::template_library;
template<typename A, typename B> inline constexpr bool same = false;
template<typename A> inline constexpr bool same<A, A> = true;
#define W extern "C" __attribute__((used))
enum class Eb : unsigned char { a = 0, b = 7, c = 255 };
enum El : unsigned long { l0 };
template<unsigned A> struct alignas(A) O { char c[A]; };
template<unsigned A> struct Ba { O<A> o; };
template<unsigned A> struct De : O<16>, Ba<A> {};
template<typename T, typename Tag, unsigned B> using P = d::pointer_tag_pair<T, Tag, B>;
'''
TAGS = {'unsigned char': 8, 'unsigned short': 16, 'unsigned': 32, 'unsigned long': 64, 'Eb': 8, 'El': 64, 'bool': 1}


def configs(thorough):
    out = []
    for a in (1, 2, 4, 8, 16, 64):
        n = a.bit_length() - 1
        for b in range(n + 1):
            if not thorough and a in (16, 64) and 1 < b < n - 1:
                continue
            for t in TAGS:
                if not thorough and t in ('unsigned short', 'El') and b not in (0, n):
                    continue
                out.append((a, b, t))
    return out


def source(cfgs):
    s, todo = PRE, []

    def fn(kind, cfg, code):
        nonlocal s
        n = 'w%d' % len(todo)
        s += code.replace('NAME', n) + '\n'
        todo.append((n, kind, cfg))

    for c in cfgs:
        a, b, t = c
        T = 'O<%d>' % a
        p = 'P<%s, %s, %d>' % (T, t, b)
        ways = {'ctor': p + ' x{p, t};', 'copy': p + ' y{p, t}; %s x = y; ' % p, 'assign': p + ' y{p, t}; %s x; x = y;' % p, 'tagged': p + ' y{p, t}; %s x = %s::from_tagged(y.tagged_pointer());' % (p, p),
                'over': p + ' x = %s::template from_overaligned<%d>(p, t);' % (p, a), 'swap': p + ' x, y{p, t}; swap(x, y);', 'swap2': p + ' x{p, t}, y; swap(x, y); swap(y, x);',
                'reset': p + ' x = nullptr; x = %s{p, t};' % p}
        for w, code in ways.items():
            if w == 'swap2' and b != 1:
                continue
            fn('ptr:' + w, c, 'W %s *NAME(%s *p, %s t) { %s static_assert(same<decltype(x.pointer()), %s *>); return x.pointer(); }' % (T, T, t, code, T))
            fn('tag:' + w, c, 'W %s NAME(%s *p, %s t) { %s static_assert(same<decltype(x.tag()), %s>); return x.tag(); }' % (t, T, t, code, t))
        fn('ptr:bind', c, 'W %s *NAME(%s *p, %s t) { auto [q, s] = %s{p, t}; static_assert(same<decltype(q), %s *>); return q; }' % (T, T, t, p, T))
        fn('tag:bind', c, 'W %s NAME(%s *p, %s t) { auto const [q, s] = %s{p, t}; static_assert(same<std::remove_const_t<decltype(s)>, %s>); return s; }' % (t, T, t, p, t))
        fn('ptr:get', c, 'W %s *NAME(%s *p, %s t) { return get<0>(%s{p, t}); }' % (T, T, t, p))
        fn('tag:get', c, 'W %s NAME(%s *p, %s t) { %s const x{p, t}; return get<1>(x); }' % (t, T, t, p))
        fn('null:ptr', c, 'W %s *NAME(%s t) { %s x{nullptr, t}; return x.pointer(); }' % (T, t, p))
        fn('null:tag', c, 'W %s NAME(%s t) { %s x{nullptr, t}; return x.tag(); }' % (t, t, p))
        fn('zero', c, 'W bool NAME() { %s x, y = nullptr; return x.pointer() == nullptr && y.pointer() == nullptr && x.tag() == (%s) 0 && y.tag() == (%s) 0 && x.tagged_pointer() == nullptr; }' % (p, t, t))
        fn('other', c, 'W %s *NAME(%s *p, %s t) { %s y{p, t}; %s x{nullptr, t}; x = y; y = nullptr; return x.pointer(); }' % (T, T, t, p, p))
        if t == 'bool' and b > 1:
            fn('ptr:word', c, 'W %s *NAME(%s *p, unsigned long w) { if (w >= %d) return p; return %s::from_tagged(reinterpret_cast<%s::tagged_pointer_type>(reinterpret_cast<uintptr_t>(p) | w)).pointer(); }' % (T, T, 1 << b, p, p))
        if t in ('unsigned', 'Eb'):
            for op in ('==', '!=', '<', '>', '<=', '>='):
                fn('cmp:' + op, c, 'W bool NAME(void *p, void *q) { return %s::from_tagged(p) %s %s::from_tagged(q); }' % (p, op, p))
            fn('round', c, 'W void *NAME(void *p) { return %s::from_tagged(p).tagged_pointer(); }' % p)
            # packed representation of const, void and base class pointers
            fn('ptr:const', c, 'W %s const *NAME(%s const *p, %s t) { return P<%s const, %s, %d>{p, t}.pointer(); }' % (T, T, t, T, t, b))
            fn('ptr:toconst', c, 'W %s const *NAME(%s *p, %s t) { return P<%s const, %s, %d>{p, t}.pointer(); }' % (T, T, t, T, t, b))
            fn('ptr:void', c, 'W void *NAME(%s *p, %s t) { return P<void, %s, %d>{p, t}.pointer(); }' % (T, t, t, b))
            fn('tag:void', c, 'W %s NAME(%s *p, %s t) { return P<void, %s, %d>{p, t}.tag(); }' % (t, T, t, t, b))
            fn('ptr:voidover', c, 'W void *NAME(void *p, %s t) { return P<void, %s, %d>::template from_overaligned<%d>(p, t).pointer(); }' % (t, t, b, a))
            fn('tag:voidover', c, 'W %s NAME(void *p, %s t) { return P<void, %s, %d>::template from_overaligned<%d>(p, t).tag(); }' % (t, t, t, b, a))
            if a <= 16:
                fn('base:ptr', c, 'W Ba<%d> *NAME(De<%d> *p, %s t) { return P<Ba<%d>, %s, %d>{p, t}.pointer(); }' % (a, a, t, a, t, b))
                fn('base:tag', c, 'W %s NAME(De<%d> *p, %s t) { return P<Ba<%d>, %s, %d>{p, t}.tag(); }' % (t, a, t, a, t, b))
                fn('base:ptr', c, 'W Ba<%d> *NAME(De<%d> *p, %s t) { return P<Ba<%d>, %s, %d>::template from_overaligned<16>(p, t).pointer(); }' % (a, a, t, a, t, b))
    return s, todo


class An:
    def __init__(self, chk, mod):
        self.chk, self.mod = chk, mod

    def run(self, name, args, pre=None):
        eng = equiv.engine(self.mod)
        eng.hooks['simplify'] = bitdom.simplify
        st = State()
        st.mon['#align'] = tuple((x, n) for x, n in args if n) + (((('s', ('ptr',), 64), 4),) if self.what.split('/')[1].startswith('base') else ())
        sts = [st]
        if pre:
            sts = eng.assume(st, pre, True)
        outs = []
        for s in sts:
            outs += eng.call(s, name, [x for x, n in args])
        for k, v in eng.viol.items():
            self.chk.violate('%s/%s' % (self.what, v['kind']), v['msg'], loc=v['loc'], path=v['path'])
        self.chk.engine(eng)
        self.chk.count('paths', len(outs))
        return eng, outs

    def asserted(self, name, args, why, pre=None):
        eng, outs = self.run(name, args, pre)
        for kind, v, s in outs:
            if kind != 'end':
                self.chk.violate(self.what + '/precondition', '%s is accepted without an assertion' % why)
                return
        self.chk.count('preconditions')

    def one(self, name, kind, cfg):
        a, b, t = cfg
        self.what = 'pointer_tag_pair<align %d, %s, %d>/%s' % (a, t, b, kind)
        chk = self.chk
        w = TAGS[t] if kind != 'ptr:word' else 64  # any pattern of the tag bits, whatever the tag type
        lim = 1 << b
        fits = 1 << w > lim - 1 and w > b or 1 << w > lim  # the tag type can hold more than the bits
        p, tag = ('s', ('ptr',), 64), ('s', ('tag',), w)
        ok = cmpv('ult', tag, lim, w) if lim < 1 << w else None
        bad = cmpv('uge', tag, lim, w) if lim < 1 << w else None
        k = kind.split(':')[0]
        if kind == 'zero':
            eng, outs = self.run(name, [])
            for kd, v, s in outs:
                if kd != 'ret' or v != 1:
                    chk.violate(self.what, 'a default constructed or null pair is not null with tag 0')
            return
        if k == 'cmp':
            q = ('s', ('q',), 64)
            op = {'==': 'eq', '!=': 'ne', '<': 'ult', '>': 'ugt', '<=': 'ule', '>=': 'uge'}[kind[4:]]
            for rel in ('ult', 'eq', 'ugt'):
                eng, outs = self.run(name, [(p, 0), (q, 0)], cmpv(rel, p, q, 64))
                want = {'eq': rel == 'eq', 'ne': rel != 'eq', 'ult': rel == 'ult', 'ugt': rel == 'ugt', 'ule': rel != 'ugt', 'uge': rel != 'ult'}[op]
                for kd, v, s in outs:
                    r = v if type(v) is int else eng.decide(s, v) if kd == 'ret' else None
                    if kd != 'ret' or r is None or bool(r) != want:
                        chk.violate(self.what, 'compares packed words that are %s to %s' % ({'eq': 'equal', 'ult': 'ascending', 'ugt': 'descending'}[rel], r))
                        return
            chk.count('round_trips')
            return
        if k == 'round':
            args, want = [(p, 0)], p
            ok = None
        elif k == 'null':
            args, want = [(tag, 0)], 0 if kind == 'null:ptr' else tag
        elif k in ('ptr', 'tag', 'other'):
            args, want = [(p, b), (tag, 0)], tag if k == 'tag' else p
        else:
            args, want = [(sub(p, 16, 64), 0), (tag, 0)], p if kind == 'base:ptr' else tag
        eng, outs = self.run(name, args, ok)
        rets = 0
        for kd, v, s in outs:
            if kd != 'ret':
                chk.violate(self.what, 'ends in %s although its preconditions hold' % (v,))
                return
            rets += 1
            x = bitdom.simplify(eng, s, eng.norm(s, v), 64 if want is not tag else w)
            wd = 64 if want is not tag else w
            if x != eng.norm(s, want) and eng.decide(s, cmpv('eq', x, eng.norm(s, want), wd)) is not True:
                # a null base pointer stays null
                if k == 'base' and want is not tag and eng.decide(s, cmpv('eq', args[0][0], 0, 64)) is True and x == 0:
                    continue
                chk.violate(self.what, 'returns %s instead of %s' % (show(x), 'its tag' if want is tag else 'null' if k == 'null' else 'its pointer'))
                return
        if not rets:
            chk.violate(self.what, 'never returns')
            return
        chk.count('round_trips')
        if k in ('round', 'other') or ':swap' in kind or kind == 'ptr:word':
            return
        if bad is not None:
            self.asserted(name, args, 'a tag that does not fit', bad)
        if k in ('ptr', 'tag') and b:
            for c in (1, lim - 1) if lim > 2 else (1,):
                # any misaligned pointer: aligned + c
                self.asserted_ptr(name, p, b, c, tag, ok)

    def asserted_ptr(self, name, p, b, c, tag, ok):
        eng = equiv.engine(self.mod)
        eng.hooks['simplify'] = bitdom.simplify
        st = State()
        st.mon['#align'] = ((p, b),)
        for s in eng.assume(st, ok, True) if ok else [st]:
            for kind, v, s2 in eng.call(s, name, [add(p, c, 64), tag]):
                if kind != 'end':
                    self.chk.violate(self.what + '/precondition', 'a pointer that is not aligned (lowest bits %s) is accepted without an assertion' % bin(c))
                    return
        self.chk.count('preconditions')


def types():
    A = []
    for a in (1, 2, 4, 8, 64):
        n = a.bit_length() - 1
        T = 'O<%d>' % a
        A.append(('bits', 'd::pointer_tag_pair<%s, unsigned>::bits_requested == %d' % (T, n)))
        for b in range(n + 2):
            p = 'P<%s, unsigned, %d>' % (T, b)
            ok = 'true' if b <= n else 'false'
            A.append(('bits', 'std::is_constructible_v<%s, %s *, unsigned> == %s && %s::bits_requested == %d' % (p, T, ok, p, b)))
            A.append(('bits', 'std::is_constructible_v<P<void, unsigned, %d>, %s *, unsigned> == %s' % (b, T, ok)))
            A.append(('bits', 'std::is_constructible_v<P<void, unsigned, %d>, void *, unsigned> == %s' % (b, 'true' if not b else 'false')))
        A.append(('size', 'sizeof(P<%s, Eb, %d>) == sizeof(void *) && std::is_trivially_copyable_v<P<%s, Eb, %d>>' % (T, n, T, n)))
        A.append(('types', 'same<P<%s, Eb, 0>::pointer_type, %s *> && same<P<%s, Eb, 0>::tag_type, Eb> && same<P<%s const, Eb, 0>::tagged_pointer_type, void const *> && same<P<%s, Eb, 0>::tagged_pointer_type, void *>' % (T, T, T, T, T)))
    A.append(('null', 'std::is_convertible_v<std::nullptr_t, P<int, Eb, 2>> && std::is_default_constructible_v<P<int, Eb, 2>>'))
    A.append(('constness', '!std::is_constructible_v<P<int, unsigned, 2>, int const *, unsigned> && std::is_constructible_v<P<int const, unsigned, 2>, int *, unsigned>'))
    A.append(('bases', '!std::is_constructible_v<P<De<4>, unsigned, 2>, Ba<4> *, unsigned> && std::is_constructible_v<P<Ba<4>, unsigned, 2>, De<4> *, unsigned> && !std::is_constructible_v<P<int, unsigned, 2>, long *, unsigned>'))
    A.append(('tuple', 'std::tuple_size<P<int, Eb, 2>>::value == 2 && std::tuple_size<P<int, Eb, 2> const>::value == 2 && same<std::tuple_element_t<0, P<int, Eb, 2>>, int *> && same<std::tuple_element_t<1, P<int, Eb, 2>>, Eb>'))
    for e in ('constexpr_null() == 3', 'constexpr_swap() == 2'):
        A.append(('constexpr', e))
    R = [('tag-type', 'P<int, %s, 1> x;' % t, 'P<int, unsigned, 1> x;') for t in ('int', 'signed char', 'float', 'void *', 'Es')]
    R.append(('function', 'P<void(), unsigned, 0> x;', 'P<void (*)(), unsigned, 0> x;'))
    for pa, b in ((1, 1), (2, 2), (4, 3), (8, 4)):
        h = 'auto f(char *p) { return P<char, unsigned, %d>::template from_overaligned<%d>(p, 0u); }'
        R.append(('overaligned', h % (b, pa), h % (b, pa * 2)))
    R.append(('overaligned', 'int x; auto f() { return P<int, unsigned, 2>::template from_overaligned<4>(5, 0u); }', 'int x; auto f() { return P<int, unsigned, 2>::template from_overaligned<4>(&x, 0u); }'))
    return A, R


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR with an aligned symbolic pointer and a symbolic tag, assertions as precondition checks; type-level and compile-fail witnesses'
    chk.headers = ['pointer_tag_pair.hpp']
    A, R = types()
    pre = PRE + 'enum class Es : int {};\nconstexpr int constexpr_null() { P<int, unsigned, 2> x{nullptr, 3}; return x.tag(); }\nconstexpr int constexpr_swap() { P<int, unsigned, 2> x{nullptr, 3}, y{nullptr, 2}; swap(x, y); return x.tag(); }\n'
    wit.asserts(chk, 'pointer_tag_pair', pre, A)
    wit.asserts(chk, 'pointer_tag_pair-clang', pre, A, build.CLANG)
    wit.reject(chk, 'rejected', pre, R)
    src, todo = source(configs(chk.thorough))
    mod = build.compile_bc(src)
    an = An(chk, mod)
    for x in todo:
        an.one(*x)
    chk.require('round_trips', chk.counts['round_trips'], 500)
    chk.require('preconditions', chk.counts['preconditions'], 500)
    return ''
