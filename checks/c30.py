"""fmt_join: the formatter is followed in the compiler IR over ranges whose elements have an opaque formatter; everything written to the
output is an event. The events must be the elements in order with the separator between them."""
import build
import equiv
import par
import wit
from dom import *
from engine import State

PRE = '''#include <dice/template-library/fmt_join.hpp>
#include <array>
#include <cstddef>
#include <iterator>
#include <list>
#include <span>
#include <string>
#include <string_view>
#include <vector>
namespace d = dice::template_library;
namespace arch { void elem(int, int); void wr(char); void bad(int); int spec(char const *); }
using CH = %s;
struct E { int id; E(int i) : id{i} {} E(E const &o) : id{o.id} {} E &operator=(E const &o) { id = o.id; return *this; } };
// an element that a range gives away only once
struct Mv { int id; explicit Mv(int i) : id{i} {} Mv(Mv &&o) : id{o.id} { o.id = -1; } Mv &operator=(Mv &&o) { id = o.id; o.id = -1; return *this; } };
// an output that must be kept up to date: writes through an old position are wrong if they are not the last thing known
struct Out {
    using difference_type = std::ptrdiff_t; using iterator_category = std::output_iterator_tag;
    Out &operator*() { return *this; } Out &operator++() { return *this; } Out operator++(int) { return *this; }
    Out &operator=(CH c) { arch::wr((char) c); return *this; }
    Out &operator=(std::basic_string_view<CH> s) { for (CH c : s) arch::wr((char) c); return *this; }
    int mark = 0;
};
struct Ctx { Out o; using iterator = Out; using char_type = CH; Out out() { return o; } void advance_to(Out x) { o = x; } };
struct PCtx { CH const *b; CH const *e; CH const *begin() const { return b; } CH const *end() const { return e; } };
// a formatter that remembers what it parsed
template<typename T> struct Fm { int opt = 0;
    constexpr auto parse(auto &c) { if (c.b != c.e) opt = 1 + (int) *c.b; return c.b + (c.b != c.e); }
    auto format(T const &e, auto &ctx) const { arch::elem(e.id, opt); return ctx.out(); } };
template<> struct std::formatter<E, CH> : Fm<E> {};
template<> struct std::formatter<Mv, CH> : Fm<Mv> {};
// ranges of n elements id, id+1, ...
struct Src { int id, n; int k = 0; int buf = -1; };
template<bool copyable, bool value, typename T> struct It {
    using value_type = T; using difference_type = std::ptrdiff_t;
    Src *s; mutable T cur;
    explicit It(Src *s) : s{s}, cur{s->n ? s->id : -1} {}
    It(It &&o) : s{o.s}, cur{o.cur.id} { o.s = nullptr; } It &operator=(It &&o) { s = o.s; cur = T{o.cur.id}; o.s = nullptr; return *this; }
    It(It const &o) requires copyable : s{o.s}, cur{o.cur.id} {} It &operator=(It const &o) requires copyable { s = o.s; cur = T{o.cur.id}; return *this; }
    std::conditional_t<value, T, T &> operator*() const { if (s->k >= s->n) arch::bad(0); if constexpr (value) return T{s->id + s->k}; else { cur = T{s->id + s->k}; return cur; } }
    It &operator++() { if (s->k >= s->n) arch::bad(1); ++s->k; return *this; }
    void operator++(int) { ++*this; }
    friend bool operator==(It const &a, std::default_sentinel_t) { return a.s->k >= a.s->n; }
};
// may be iterated once; begin is const or not
template<bool c, bool v, bool cst, typename T = E> struct Rg : std::ranges::view_base { Src *s; explicit Rg(Src &s) : s{&s} {}
    Rg(Rg &&) = default; Rg &operator=(Rg &&) = default; Rg(Rg const &) requires c = default; Rg &operator=(Rg const &) requires c = default;
    int begun = 0;
    It<c, v, T> begin() requires (!cst) { if (begun++) arch::bad(2); return It<c, v, T>{s}; } It<c, v, T> begin() const requires cst { return It<c, v, T>{s}; } std::default_sentinel_t end() const { return {}; } };
// forward iterators
struct Fw { using value_type = E; using difference_type = std::ptrdiff_t; E const *p = nullptr; E const *e = nullptr;
    E const &operator*() const { if (p == e) arch::bad(0); return *p; } Fw &operator++() { if (p == e) arch::bad(1); ++p; return *this; } Fw operator++(int) { Fw t = *this; ++*this; return t; } bool operator==(Fw const &o) const { return p == o.p; } };
template<typename J> void run(J &&j, int opt) { Ctx c; PCtx p; CH spec[2] = {(CH) 'x', (CH) '}'}; p.b = spec + !opt; p.e = spec + 1; std::formatter<std::remove_cvref_t<J>, CH> f; auto r = f.parse(p); if (r != spec + 1) arch::bad(3); f.format(j, c); }
template<typename S> void sepw(S const &s) { for (CH c : s) arch::wr((char) c); }
// the reference
inline void ref(int id, int n, int opt, std::basic_string_view<CH> sep) { for (int i = 0; i < n; ++i) { if (i) for (CH c : sep) arch::wr((char) c); arch::elem(id + i, opt ? 1 + 'x' : 0); } }
#define W extern "C" __attribute__((used)) void
'''
SEPS = {'char': ("%s','", "%s\",\""), 'literal': ('%s", "', '%s", "'), 'empty': ('%s""', '%s""'), 'string': ('std::basic_string<CH>{%s"--"}', '%s"--"'), 'view': ('std::basic_string_view<CH>{%s"a\\0b", 3}', 'std::basic_string_view<CH>{%s"a\\0b", 3}'),
        'array': ('std::array<CH, 2>{(CH) \'x\', (CH) \'y\'}', '%s"xy"'), 'lvalue': ('sep', '%s"; "'), 'span': ('std::span<CH const>{sp, 2}', '%s"pq"'), 'emptyview': ('std::basic_string_view<CH>{}', '%s""'), 'nul': ("CH{}", 'std::basic_string_view<CH>{%s"\\0", 1}')}


def elems(n):
    return ', '.join('E{id + %d}' % i for i in range(n))


def ranges(n):
    R = {'vector': ('std::vector<E> r{%s};' % elems(n) if n else 'std::vector<E> r;', 'r'), 'const vector': ('std::vector<E> const r{%s};' % elems(n) if n else 'std::vector<E> const r{};', 'r'),
         'rvalue vector': ('std::vector<E> r{%s};' % elems(n) if n else 'std::vector<E> r;', 'std::move(r)'),
         'span': ('E a[%d] = {%s}; std::span<E> r{a, %d};' % (n + 1, elems(n + 1), n), 'r'),
         'forward': ('E a[%d] = {%s}; std::ranges::subrange<Fw> r{Fw{a, a + %d}, Fw{a + %d, a + %d}};' % (n + 1, elems(n + 1), n, n, n), 'r'),
         'filter': ('E a[%d] = {%s}; auto r = std::span<E>{a, %d} | std::views::filter([](E const &e) { return e.id != -1; });' % (2 * n + 1, ', '.join('E{-1}, E{id + %d}' % i for i in range(n)) + (', ' if n else '') + 'E{-1}', 2 * n + 1), 'r'),
         'transform': ('int a[%d] = {%s}; auto r = std::span<int>{a, %d} | std::views::transform([](int i) { return E{i}; });' % (n + 1, ', '.join('id + %d' % i for i in range(n + 1)), n), 'r'),
         }
    if n:
        R['array'] = ('E r[%d] = {%s};' % (n, elems(n)), 'r')
        R['initializer list'] = ('', '{%s}' % elems(n))
    for c in (0, 1):
        for v in (0, 1):
            for k in (0, 1):
                R['%s single pass %s%s' % ('copyable' if c else 'move-only', 'by value' if v else 'by reference', ' const' if k else '')] = ('Src s{id, %d}; Rg<%d, %d, %d> r{s};' % (n, c, v, k), 'std::move(r)' if not c else 'r')
    R['move-only elements'] = ('Src s{id, %d}; Rg<0, 0, 0, Mv> r{s};' % n, 'std::move(r)')
    return R


def job(chk, CH, L, n, part, parts):
    src = PRE % CH
    names = []
    for rn, (setup, r) in list(ranges(n).items())[part::parts]:
        for sn, (s, ref) in SEPS.items():
            for opt in (0, 1):
                i = len(names)
                s2, r2 = (s % L if '%s' in s else s), (ref % L if '%s' in ref else ref)
                pre = 'std::basic_string<CH> sep{%s"; "}; CH const sp[2] = {(CH) \'p\', (CH) \'q\'}; (void) sp; ' % L
                for how in (('run(d::fmt_join(%s, %s), %d);' % (r, s2, opt)), 'auto j = d::fmt_join(%s, %s); run(j, %d);' % (r, s2, opt)):
                    src += 'W x_%d(int id) { %s%s %s }\nW r_%d(int id) { ref(id, %d, %d, %s); }\n' % (len(names), pre, setup, how, len(names), n, opt, r2)
                    names.append('%s of %d, separator %s%s%s' % (rn, n, sn, ', specification' if opt else '', ', ' + CH))
                    if s == 'sep' or rn == 'initializer list':
                        break
    mod = build.compile_bc(src)
    for i, what in enumerate(names):
        res = []
        for p in 'xr':
            eng = equiv.engine(mod)
            x = ('s', ('id',), 32)
            sts = [s1 for s0 in eng.assume(State(), cmpv('sge', x, 0, 32), True) for s1 in eng.assume(s0, cmpv('slt', x, 1 << 20, 32), True)]
            outs = [o for s0 in sts for o in eng.call(s0, '%s_%d' % (p, i), [x])]
            if p == 'x':
                chk.engine(eng)
                for v in eng.viol.values():
                    chk.violate('%s/%s' % (what, v['kind']), v['msg'], loc=v['loc'], path=v['path'])
            res.append(sorted({tuple((e[1].split('(')[0].replace('arch::', ''), e[2]) for e in s.ev if e[0] == 'call') for o, v, s in outs if o == 'ret'}, key=repr))
        chk.count('cases')
        x, r = res
        if len(r) != 1:
            raise RuntimeError('reference of %s has %d outcomes' % (what, len(r)))
        if x != r:
            say = lambda ev: ' '.join('%s(%s)' % (n, ', '.join(show(a) for a in args)) for n, args in ev) or 'nothing'
            chk.violate(what, 'writes %s instead of %s' % (say(x[0]) if x else 'nothing and never returns', say(r[0])))
        if len(chk.v) > 3:
            return


TPRE = PRE % 'char' + '''
#include <format>
#include <sstream>
#include <map>
template<typename... A> concept can_join = requires (A &&...a) { d::fmt_join(std::forward<A>(a)...); };
using V = std::vector<int>;
inline std::string use(V &v, std::string const &s) { V const c; int arr[3] = {1, 2, 3}; return std::format("{}{:03}{}", d::fmt_join(v, ", "), d::fmt_join(c, s), d::fmt_join(V{1, 2}, 'x')) + std::format("{:x}", d::fmt_join(arr, std::string_view{"-"}))
    + std::format("{}", d::fmt_join(v | std::views::filter([](int i) { return i > 2; }), "|")) + std::format("{}", d::fmt_join({1, 2, 3}, s)) + std::format("{}", d::fmt_join(std::views::iota(1, 4), "")) + std::format("{}", d::fmt_join(std::vector<bool>{true}, ",")); }
inline std::wstring wuse(V &v) { return std::format(L"{}{}", d::fmt_join(v, L", "), d::fmt_join(v, L'x')); }
'''


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR over an opaque element formatter, output writes as events'
    chk.headers = ['fmt_join.hpp']
    A = [('ranges', 'can_join<V &, char> && can_join<V const &, std::string const &> && can_join<V, std::string> && !can_join<int, char>'),
         ('lazy', 'std::is_same_v<decltype(d::fmt_join(std::declval<V &>(), \',\').range), std::ranges::ref_view<V>> && std::is_same_v<decltype(d::fmt_join(std::declval<V>(), \',\').range), std::ranges::owning_view<V>>')]
    wit.asserts(chk, 'use', TPRE, A)
    wit.asserts(chk, 'use-clang', TPRE, A, build.CLANG)
    most = 5 if chk.thorough else 3
    jobs = [('char', '', n, i, 3) for n in range(most + 1) for i in range(3)] + [('wchar_t', 'L', n, i, 2) for n in ((0, 2) if not chk.thorough else range(most + 1)) for i in range(2)]
    par.run(chk, job, jobs)
    chk.require('cases', chk.counts['cases'], 1000)
    return 'Every combination of range kind, length, separator kind and specification; elements have symbolic identities.'
