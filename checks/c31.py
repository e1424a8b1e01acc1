"""format_to_ostream: which operator<< is chosen for every kind of type and stream is decided by the compiler; what is called, with which stream
and value, is followed in the compiler IR with the formatting functions of the standard library replaced by ones that record."""
import re
import build
import equiv
import wit
from dom import *
from engine import State

HEAD = '''#include <bitset>
#include <chrono>
#include <complex>
#include <concepts>
#include <cstddef>
#include <filesystem>
#include <format>
#include <iostream>
#include <iterator>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace arch { int conv(int); void own(void const *, int); void val(int, int); void put(void const *, int); int text(); void oops(int); }
'''
# the standard library, with formatting that records: the text of a value is its identity
SHADOW = '''namespace w {
namespace std {
using namespace ::std;
template<typename C, typename Tr = ::std::char_traits<C>> struct ostreambuf_iterator {
    using iterator_category = ::std::output_iterator_tag; using value_type = void; using difference_type = ::std::ptrdiff_t; using pointer = void; using reference = void; using char_type = C; using traits_type = Tr; using ostream_type = ::std::basic_ostream<C, Tr>;
    ostream_type *s; ostreambuf_iterator(ostream_type &s) noexcept : s{&s} {}
    ostreambuf_iterator &operator*() { return *this; } ostreambuf_iterator &operator++() { return *this; } ostreambuf_iterator &operator++(int) { return *this; }
    ostreambuf_iterator &operator=(C c) { arch::put(s, (int) c); return *this; } bool failed() const noexcept { return false; } };
int idof(auto const &a) { if constexpr (::std::is_enum_v<::std::remove_cvref_t<decltype(a)>>) return (int) a; else return a.id; }
template<typename C, typename It, typename... A> It emit(It it, C const *f, A const &...a) {
    int n = 0;
    for (; *f; ++f) if (*f == C('{') && f[1] == C('}')) { ++f; int k = n++; ((k-- == 0 ? (arch::val(idof(a), (int) sizeof(C)), void()) : void()), ...); if (n > (int) sizeof...(A)) arch::oops(1); *it++ = C('V'); } else *it++ = *f;
    return it; }
template<typename It, typename... A> It format_to(It it, ::std::format_string<A...> f, A &&...a) { return emit<char>(it, f.get().data(), a...); }
template<typename It, typename... A> It format_to(It it, ::std::wformat_string<A...> f, A &&...a) { return emit<wchar_t>(it, f.get().data(), a...); }
template<typename... A> ::std::string format(::std::format_string<A...> f, A &&...a) { ::std::string r; emit<char>(::std::back_inserter(r), f.get().data(), a...); return r; }
template<typename... A> ::std::wstring format(::std::wformat_string<A...> f, A &&...a) { ::std::wstring r; emit<wchar_t>(::std::back_inserter(r), f.get().data(), a...); return r; }
template<typename... A> struct Args { ::std::tuple<A const &...> t; };
template<typename... A> Args<A...> make_format_args(A &...a) { return {{a...}}; }
template<typename... A> Args<A...> make_wformat_args(A &...a) { return {{a...}}; }
template<typename It, typename... A> It vformat_to(It it, ::std::string_view f, Args<A...> const &a) { return ::std::apply([&](auto &...x) { return emit<char>(it, f.data(), x...); }, a.t); }
template<typename It, typename... A> It vformat_to(It it, ::std::wstring_view f, Args<A...> const &a) { return ::std::apply([&](auto &...x) { return emit<wchar_t>(it, f.data(), x...); }, a.t); }
template<typename... A> ::std::string vformat(::std::string_view f, Args<A...> const &a) { ::std::string r; vformat_to(::std::back_inserter(r), f, a); return r; }
}
#include <dice/template-library/format_to_ostream.hpp>
}
'''
FMT = '''template<typename C> struct Fm { constexpr auto parse(auto &c) { return c.begin(); } auto format(auto const &x, auto &c) const { return c.out(); } };
'''
TRAITS = '''template<typename C> struct Tr : ::std::char_traits<C> {};
struct Derived : ::std::ostringstream { int extra; };
struct Mine : ::std::ostringstream { int mine; };
'''
B, OS = '::std::basic_ostream', '::std::basic_ostream<C, T>'


def own(n, k, const='const &'):
    return 'template<typename C, typename T> %s &operator<<(%s &s, %s %s x) { arch::own(&s, x.id); return s; }' % (OS, OS, n, const)


# name, namespace, definition, formatters (n: narrow, w: wide, m: only if not const), expected for narrow and wide streams
KINDS = []
for ns in ('', 'user'):
    for f in ('', 'n', 'w', 'nw'):
        e = ('fmt' if 'n' in f else 'none', 'fmt' if 'w' in f else 'none')
        KINDS.append(('Plain', ns, 'struct %s { int id; };', f, e))
        KINDS.append(('Friend', ns, 'struct %(n)s { int id; template<typename C, typename T> friend %(os)s &operator<<(%(os)s &s, %(n)s const &x) { arch::own(&s, x.id); return s; } };', f, ('own', 'own')))
        KINDS.append(('Free', ns, 'struct %(n)s { int id; }; template<typename C, typename T> %(os)s &operator<<(%(os)s &s, %(n)s const &x) { arch::own(&s, x.id); return s; }', f, ('own', 'own')))
        KINDS.append(('Value', ns, 'struct %(n)s { int id; }; template<typename C, typename T> %(os)s &operator<<(%(os)s &s, %(n)s x) { arch::own(&s, x.id); return s; }', f, ('own', 'own')))
        KINDS.append(('NarrowOnly', ns, 'struct %(n)s { int id; }; inline ::std::ostream &operator<<(::std::ostream &s, %(n)s const &x) { arch::own(&s, x.id); return s; }', f, ('own', e[1])))
        KINDS.append(('WideOnly', ns, 'struct %(n)s { int id; }; inline ::std::wostream &operator<<(::std::wostream &s, %(n)s const &x) { arch::own(&s, x.id); return s; }', f, (e[0], 'own')))
        KINDS.append(('Base', ns, 'struct %(n)sB { int id; template<typename C, typename T> friend %(os)s &operator<<(%(os)s &s, %(n)sB const &x) { arch::own(&s, x.id); return s; } }; struct %(n)s : %(n)sB {};', f, ('own', 'own')))
        KINDS.append(('Conv', ns, 'struct %(n)s { int id; operator int() const { return arch::conv(id); } };', f, ('conv', 'conv')))
        KINDS.append(('Crtp', ns, 'template<typename D> struct %(n)sB { template<typename C, typename T> friend %(os)s &operator<<(%(os)s &s, D const &x) { arch::own(&s, x.id); return s; } }; struct %(n)s : %(n)sB<%(n)s> { int id; };', f, ('own', 'own')))
        KINDS.append(('Generic', 'g_%s_%s' % (ns, f), 'struct %(n)s { int id; }; template<typename S, typename X> S &operator<<(S &s, X const &x) requires requires { x.id; } { arch::own(&s, x.id); return s; }', f, ('own', 'own')))
        KINDS.append(('Conv2Own', ns, 'struct %(n)sT { int id; template<typename C, typename T> friend %(os)s &operator<<(%(os)s &s, %(n)sT x) { arch::own(&s, x.id); return s; } }; struct %(n)s { int id; operator %(n)sT() const { return {id}; } };', f, (e[0], e[1])))
        KINDS.append(('NonConst', ns, 'struct %(n)s { int id; };', f.replace('n', 'm'), ('none' if f else 'none', e[1])))
        KINDS.append(('MoveOnly', ns, 'struct %(n)s { int id; %(n)s(%(n)s &&) = default; };', f, e))
        KINDS.append(('Stream', ns, 'struct %(n)s { int id; }; inline Mine &operator<<(Mine &s, %(n)s const &x) { arch::own(static_cast<::std::ostream *>(&s), x.id); return s; }', f, e))
for ns in ('', 'user'):
    for f in ('', 'n', 'w', 'nw'):
        e = ('fmt' if 'n' in f else 'none', 'fmt' if 'w' in f else 'none')
        KINDS.append(('Enum', ns, 'enum %s : int {};', f, ('std', 'std')))
        KINDS.append(('EnumOwn', ns, 'enum class %(n)s : int {}; template<typename C, typename T> %(os)s &operator<<(%(os)s &s, %(n)s x) { arch::own(&s, (int) x); return s; }', f, ('own', 'own')))
        KINDS.append(('EnumClass', ns, 'enum class %s : int {};', f, e))
        KINDS.append(('Rvalue', ns, 'struct %(n)s { int id; template<typename C, typename T> friend %(os)s &operator<<(%(os)s &s, %(n)s &&x) { arch::own(&s, x.id); return s; } };', f, e))
# Conv2Own: the own operator of the target is found through a conversion only if the type is associated: it is not


def expect(k, f, e, s, w):
    """what writing to a stream must do"""
    if k == 'Stream' and s == 'Mine':
        return 'own'
    if k in ('NarrowOnly', 'WideOnly') and 'Tr' in s:
        return 'fmt' if 'nw'[w] in f else 'none'
    return e[w]


def types():
    out = []
    for i, (k, ns, code, f, e) in enumerate(KINDS):
        n = '%s%d' % (k, i)
        d = code % {'n': n, 'os': OS} if '%(' in code else code % n
        full = ns + '::' + n if ns else n
        out.append((k, n, ns, d, f, e, full))
    return out


def declare(inside):
    s = TRAITS
    for k, n, ns, d, f, e, full in types():
        s += 'namespace %s { %s }\n' % (ns, d) if ns else d + '\n'
    return s


def formatters(pre):
    s = FMT
    for k, n, ns, d, f, e, full in types():
        q = pre + full
        if 'n' in f:
            s += 'template<> struct std::formatter<%s, char> : Fm<char> {};\n' % q
        if 'w' in f:
            s += 'template<> struct std::formatter<%s, wchar_t> : Fm<wchar_t> {};\n' % q
        if 'm' in f:
            s += 'template<> struct std::formatter<%s, char> { constexpr auto parse(auto &c) { return c.begin(); } auto format(%s &x, auto &c) const { return c.out(); } };\n' % (q, q)
    return s


def forward():
    s = ''
    for k, n, ns, d, f, e, full in types():
        s += 'namespace %s { struct %s; }\n' % (ns, n) if ns else 'struct %s;\n' % n
    return s


STREAMS = [('::std::ostream', 0), ('::std::wostream', 1), ('::std::ostringstream', 0), ('Derived', 0), ('::std::basic_ostream<char, Tr<char>>', 0), ('::std::basic_ostream<wchar_t, Tr<wchar_t>>', 1), ('::std::wostringstream', 1), ('Mine', 0)]
STD = ['int', 'char', 'signed char', 'unsigned char', 'bool', 'short', 'unsigned', 'long', 'unsigned long long', 'float', 'double', 'long double', 'char const *', 'char *', 'void *', 'void const *', 'std::nullptr_t', 'char[4]', 'std::string', 'std::string_view',
       'std::thread::id', 'std::filesystem::path', 'std::error_code', 'std::complex<double>', 'std::bitset<3>', 'std::unique_ptr<int>', 'std::shared_ptr<int>', 'std::chrono::seconds', 'std::chrono::year_month_day', 'int *', 'Unscoped', 'signed char const *', 'std::vector<bool>::reference']
NOSTD = ['std::byte', 'std::vector<int>', 'std::optional<int>', 'std::pair<int, int>', 'std::monostate', 'Scoped', 'struct Incomplete', 'std::variant<int>', 'Empty', 'Abstract']


def check(chk):
    chk.technique = 'overload resolution witnesses for every kind of type; abstract interpretation of the compiler IR of the calls'
    chk.headers = ['format_to_ostream.hpp']
    # which types can be written: overload resolution by the compiler, with the real standard library
    tl = HEAD + '#include <dice/template-library/format_to_ostream.hpp>\n' + declare(False) + formatters('') + '''
enum Unscoped { ua }; enum class Scoped { sa }; struct Empty {}; struct Abstract { virtual void f() = 0; };
template<typename S, typename T> concept can = requires (S &s, T const &t) { s << t; };
template<typename S, typename T> concept canl = requires (S &s, T &t) { s << t; };
template<typename S, typename T> concept canr = requires (S &s, T (*f)()) { s << f(); };
template<typename T> bool exists(T const &) { return true; }
template<typename S, typename T> using res = decltype(std::declval<S &>() << std::declval<T const &>());
'''
    A = []
    for k, n, ns, d, f, e, full in types():
        for s, w in STREAMS:
            ok = expect(k, f, e, s, w) != 'none'
            what = '%s, formatters %s, to %s' % (k + (' in namespace ' + ns if ns else ''), f or 'none', s)
            A.append((what, '%scan<%s, %s> && %scanr<%s, %s>' % ('' if ok else '!', s, full, '' if ok or k == 'Rvalue' else '!', s, full), '%s %s be written to %s, formatters: %s' % (k, 'must' if ok else 'must not', s, f or 'none')))
            if ok:
                A.append((what + '/result', 'std::is_base_of_v<std::ios_base, std::remove_reference_t<res<%s, %s>>> && std::is_lvalue_reference_v<res<%s, %s>>' % (s, full, s, full)))
            if k != 'NonConst' or w:
                A.append((what + '/lvalue', '%scanl<%s, %s>' % ('' if ok else '!', s, full)))
    for t in STD:
        A.append(('std/' + t, 'can<std::ostream, %s> && std::is_same_v<res<std::ostream, %s>, std::ostream &>' % (t, t), 'writing %s became impossible, ambiguous or has another result' % t))
    for t in NOSTD:
        A.append(('std/' + t, '!can<std::ostream, %s> && !can<std::wostream, %s>' % (t, t), '%s is not formattable but can be written' % t))
    for t in ('wchar_t', 'char8_t const *', 'char16_t'):
        A.append(('std/' + t, '!can<std::ostream, %s>' % t, '%s must not be written to narrow streams' % t))
    wit.asserts(chk, 'types', tl, A)
    wit.asserts(chk, 'types-clang', tl, A, build.CLANG)
    # the text of a value goes through the real standard library
    body = ''
    for k, n, ns, d, f, e, full in types():
        for s, w in STREAMS:
            if expect(k, f, e, s, w) == 'fmt':
                body += 'void u_%d(%s &s, %s const &x) { s << x << x; }\n' % (len(body), s, full)
    ok, log = build.syntax(tl + body)
    if not ok:
        raise build.WitnessRejected('values that are formattable cannot be written', log)
    ok, log = build.syntax(tl + body, build.CLANG)
    if not ok:
        raise build.WitnessRejected('values that are formattable cannot be written (clang)', log)
    # what is called
    src = HEAD + SHADOW + 'namespace w {\n' + declare(True).replace('::std::', 'std::') + '}\n' + formatters('w::') + 'using namespace w;\nnamespace w {\n'
    jobs = []
    for k, n, ns, d, f, e, full in types():
        for s, w in STREAMS:
            kind = expect(k, f, e, s, w)
            if kind == 'none':
                continue
            jobs.append((len(jobs), kind, w, '%s%s, formatters %s, to %s' % (k, ' in namespace ' + ns if ns else '', f or 'none', s)))
            src += 'extern "C" void *x_%d(%s &s, %s const &x) { return (void *) static_cast<%s *>(&(s << x)); }\n' % (jobs[-1][0], s, full, 'std::basic_ostream<%s, %s>' % (('wchar_t' if w else 'char'), '%s<%s>' % ('Tr' if 'Tr' in s else 'std::char_traits', 'wchar_t' if w else 'char')))
    mod = build.compile_bc(src + '}\n')

    def stdop(eng, st, I, a, fn):
        st.ev = st.ev + (('std', re.sub(r'.*operator<<', 'operator<<', fn.dem), tuple(eng.norm(st, x) for x in a)),)
        return [('ret', a[0], st)]

    def insert(eng, st, I, a, fn):
        n = eng.norm(st, a[2])
        p = eng.ptr(st, a[1], I, 'text')
        w = 4 if 'wchar_t' in fn.dem else 1
        if type(n) is not int or p is None:
            raise RuntimeError('text of unknown length')
        for k in range(n):
            c = eng.norm(st, eng.load(st, p[0], add(p[1], k * w, 64), w, I))
            st.ev = st.ev + (('call', 'arch::put(void const*, int)', (eng.norm(st, a[0]), c), None),)
        return [('ret', a[0], st)]

    for i, kind, w, what in jobs:
        eng = equiv.engine(mod)
        eng.model(r'^std::(__cxx11::)?(basic_)?w?ostream(<.*>)?::operator<<\(|^(std::)?(basic_)?w?ostream.* std::operator<<|^std::operator<<', stdop)
        eng.model(r'std::__ostream_insert<', insert)
        st = State()
        eng.extobj(st, 's')
        eng.extobj(st, 'x')
        S = ('p', ('x', 's'), 0)
        eng.store(st, ('x', 'x'), 0, 4, ('s', ('id',), 32))
        n = 0
        for o, v, s in eng.call(st, 'x_%d' % i, [S, ('p', ('x', 'x'), 0)]):
            if o == 'throw' and ('bad_alloc' in str(v[1]) or 'length' in str(v[1])):
                continue
            n += 1
            chk.count('paths')
            ev = tuple((e[0] if e[0] == 'std' else e[1].split('(')[0].replace('arch::', ''), tuple(eng.norm(s, x) for x in e[2])) for e in s.ev if e[0] in ('call', 'call-throw', 'std'))
            ID = ('s', ('id',), 32)
            if kind == 'own':
                good = len(ev) == 1 and ev[0] == ('own', (S, ID))
            elif kind == 'conv':
                good = len(ev) == 2 and ev[0] == ('conv', (ID,)) and ev[1][0] == 'std' and ev[1][1][0] == S and ev[1][1][1] == ('s', ('ev', 0), 32)
            elif kind == 'std':
                good = len(ev) == 1 and ev[0][0] == 'std' and ev[0][1] == (S, ID)
            else:
                good = ev == (('val', (ID, 4 if w else 1)), ('put', (S, ord('V'))))
            if o == 'throw' and v[1] == 'USER':
                continue  # own operators and formatters may throw
            if o != 'ret':
                chk.violate(what + '/end', '%s: ends with %s' % (what, o))
            elif not good:
                say = '; '.join('%s(%s)' % (a, ', '.join(show(x) for x in b)) for a, b in ev) or 'nothing'
                chk.violate(what, '%s: must %s, but calls %s' % (what, {'own': 'use its own operator<< once', 'std': 'use the operator of the standard library', 'conv': 'be converted and use the operator of the target', 'fmt': 'write the formatted value once'}[kind], say))
            elif eng.norm(s, v) != S:
                chk.violate(what + '/returns', '%s: returns %s instead of the stream' % (what, show(v)))
        chk.engine(eng)
        for x in eng.viol.values():
            chk.violate('%s/%s' % (what, x['kind']), x['msg'], loc=x['loc'], path=x['path'])
        chk.count('cases')
        if not n and not chk.violations:
            raise RuntimeError('no path: ' + what)
        if len(chk.violations) > 5:
            break
    if not chk.violations:
        chk.require('cases', chk.counts['cases'], 300)
    return 'Eighteen kinds of types with every combination of formatters, in the global and another namespace, for eight kinds of streams.'
