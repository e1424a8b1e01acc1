"""overloaded, match, bind_front, DICE_MEMFN and DICE_DBG against hand written references: the same events (which callable, with which arguments
in which value category) in the same order and the same result on every path; types by type-level witnesses."""
import itertools
import build
import equiv
import wit
from dom import *

COMMON = '''#include <cstddef>
#include <concepts>
#include <format>
#include <functional>
#include <iostream>
#include <iterator>
#include <memory>
#include <print>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
namespace arch { long arg(int, int); long ret(); long h(int); long hi(int, long); void copied(int); int *ref(); void put(int, int); void oops(int); void when(int); int get(int); void visit(int); }
struct A { int id; explicit A(int i) noexcept : id{i} {} A(A const &o) : id{o.id} { arch::copied(o.id); } A(A &&o) noexcept : id{o.id} { o.id = -1; } A &operator=(A const &) = delete; A &operator=(A &&o) noexcept { id = o.id; o.id = -1; return *this; } };
struct M { int id; explicit M(int i) noexcept : id{i} {} M(M &&o) noexcept : id{o.id} { o.id = -1; } };
template<typename T> constexpr int cat = (std::is_lvalue_reference_v<T> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0);
template<typename T> void see(T &&x) { if constexpr (requires { x.id; }) arch::arg(cat<T &&>, x.id); else arch::arg(cat<T &&> + 10, (int) x); }
#define W extern "C" __attribute__((used))
'''
# what every callable does with its arguments
OBS = '''struct Obs { template<typename... T> long operator()(T &&...a) const { (see(std::forward<T>(a)), ...); return arch::ret(); } };
inline constexpr Obs obs{};
struct ObsRef { template<typename... T> int &operator()(T &&...a) const { (see(std::forward<T>(a)), ...); return *arch::ref(); } };
struct ObsX { template<typename... T> int &&operator()(T &&...a) const { (see(std::forward<T>(a)), ...); return std::move(*arch::ref()); } };
struct ObsC { template<typename... T> int const &operator()(T &&...a) const { (see(std::forward<T>(a)), ...); return *arch::ref(); } };
struct ObsV { template<typename... T> void operator()(T &&...a) const { (see(std::forward<T>(a)), ...); arch::ret(); } };
struct ObsM { template<typename... T> M operator()(T &&...a) const { (see(std::forward<T>(a)), ...); return M{(int) arch::ret()}; } };
inline long fn(A a, A const &b) { arch::arg(20, a.id); arch::arg(21, b.id); return arch::ret(); }
struct Mem { int id; explicit Mem(int i) : id{i} {} Mem(Mem const &o) : id{o.id} { arch::copied(o.id); } Mem(Mem &&o) noexcept : id{o.id} { o.id = -1; }
    long l(A &&a) & { arch::arg(30, id); see(std::move(a)); return arch::ret(); } long c(A &a) const & { arch::arg(31, id); see(a); return arch::ret(); } long r(A const &a) && { arch::arg(32, id); see(a); return arch::ret(); } long any(A a) const { arch::arg(33, id); arch::arg(34, a.id); return arch::ret(); } };
'''
SELF = [('b', 0), ('std::as_const(b)', 1), ('std::move(b)', 2), ('std::move(std::as_const(b))', 3)]
RES = {'Obs': ('long', 'return %s;', 'return arch::ret();'), 'ObsRef': ('int *', 'return &%s;', 'return arch::ref();'), 'ObsX': ('int *', 'int &&r = %s; return &r;', 'return arch::ref();'), 'ObsC': ('int const *', 'return &%s;', 'return arch::ref();'),
       'ObsV': ('void', '%s;', 'arch::ret();'), 'ObsM': ('int', 'return %s.id;', 'return (int) arch::ret();')}


def bind():
    P = []
    args = {'l': ('a%d', 0), 'c': ('std::as_const(a%d)', 1), 'r': ('std::move(a%d)', 2)}
    for nb, nr in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1), (1, 2), (3, 0), (2, 2)):
        combos = list(itertools.product('lcr', repeat=nb + nr)) if nb + nr <= 2 else [('l',) * nb + ('r',) * nr, ('r',) * nb + ('l',) * nr, ('c', 'r', 'l', 'r')[:nb + nr], ('r', 'c', 'r', 'l')[:nb + nr]]
        for cs in combos:
            for self_, sc in SELF:
                for o in (RES if (nb, nr) in ((1, 1), (0, 1)) and cs in (('l', 'r'), ('r', 'l'), ('l',), ('r',)) else ['Obs']):
                    t, call, ret = RES[o]
                    decl = ''.join('A a%d{i + %d}; ' % (k, k) for k in range(nb + nr))
                    ba = ', '.join(args[c][0] % k for k, c in enumerate(cs[:nb]))
                    ra = ', '.join(args[c][0] % (nb + k) for k, c in enumerate(cs[nb:]))
                    x = decl + 'auto b = d::bind_front<%s{}>(%s); ' % (o, ba) + call % ('%s(%s)' % (self_, ra))
                    r = ''.join('arch::copied(i + %d); ' % k for k, c in enumerate(cs[:nb]) if c != 'r')
                    r += ''.join('arch::arg(%d, i + %d); ' % (sc, k) for k in range(nb)) + ''.join('arch::arg(%d, i + %d); ' % (args[c][1], nb + k) for k, c in enumerate(cs[nb:])) + ret
                    P.append((t, x, r))
        # called twice, and a copy of the wrapper
    P.append(('long', 'A a0{i}; auto b = d::bind_front<Obs{}>(a0); b(1); return std::move(b)(2);', 'arch::copied(i); arch::arg(0, i); arch::arg(12, 1); arch::ret(); arch::arg(2, i); arch::arg(12, 2); return arch::ret();'))
    P.append(('long', 'A a0{i}; auto b = d::bind_front<Obs{}>(std::move(a0)); auto const c = b; return c();', 'arch::copied(i); arch::arg(1, i); return arch::ret();'))
    P.append(('long', 'A a0{i}; auto b = d::bind_front<Obs{}>(std::move(a0)); auto c = std::move(b); return c();', 'arch::arg(0, i); return arch::ret();'))
    P.append(('long', 'M m{i}; auto b = d::bind_front<Obs{}>(std::move(m)); return std::move(b)();', 'arch::arg(2, i); return arch::ret();'))
    P.append(('long', 'A a0{i}; auto b = d::bind_front<Obs{}>(std::ref(a0)); return d::bind_front<[](std::reference_wrapper<A> r) { return arch::hi(1, r.get().id); }>(std::ref(a0))();', 'return arch::hi(1, i);'))
    P.append(('long', 'int x[2] = {i, 5}; auto b = d::bind_front<[](int *p, int k) { return arch::hi(p[0], p[k]); }>(x); return b(1);', 'return arch::hi(i, 5);'))
    P.append(('long', 'auto b = d::bind_front<&fn>(A{i}); A c{7}; return b(c);', 'arch::copied(i); arch::arg(20, i); arch::arg(21, 7); return arch::ret();'))
    P.append(('long', 'auto b = d::bind_front<&fn>(A{i}); A c{7}; return std::move(b)(c);', 'arch::arg(20, i); arch::arg(21, 7); return arch::ret();'))
    P.append(('long', 'auto b = d::bind_front<fn>(); return b(A{i}, A{3});', 'arch::arg(20, i); arch::arg(21, 3); return arch::ret();'))
    P.append(('long', 'auto o = [x = 5](char) { return 0L; }; struct O : decltype(o), decltype(d::bind_front<Obs{}>(A{i})) { }; O b{o, d::bind_front<Obs{}>(A{i})}; return static_cast<decltype(d::bind_front<Obs{}>(A{i})) const &>(b)(A{2});', 'arch::arg(1, i); arch::arg(2, 2); return arch::ret();'))
    # members
    P.append(('long', 'auto b = d::bind_front<&Mem::l>(Mem{i}); return b(A{4});', 'arch::arg(30, i); arch::arg(2, 4); return arch::ret();'))
    P.append(('long', 'auto const b = d::bind_front<&Mem::c>(Mem{i}); A a{4}; return b(a);', 'arch::arg(31, i); arch::arg(0, 4); return arch::ret();'))
    P.append(('long', 'auto b = d::bind_front<&Mem::r>(Mem{i}); A a{4}; return std::move(b)(a);', 'arch::arg(32, i); arch::arg(1, 4); return arch::ret();'))
    P.append(('long', 'Mem m{i}; auto b = d::bind_front<&Mem::l>(&m); A a{4}; return b(std::move(a));', 'arch::arg(30, i); arch::arg(2, 4); return arch::ret();'))
    P.append(('long', 'Mem m{i}; auto b = d::bind_front<&Mem::c>(std::ref(m)); A a{4}; return b(a);', 'arch::arg(31, i); arch::arg(0, 4); return arch::ret();'))
    P.append(('long', 'Mem m{i}; auto b = d::bind_front<&Mem::any>(m, A{5}); return b();', 'arch::copied(i); arch::copied(5); arch::arg(33, i); arch::arg(34, 5); return arch::ret();'))
    P.append(('long', 'Mem m{i}; return d::bind_front<&Mem::any>(std::move(m), A{5})();', 'arch::arg(33, i); arch::arg(34, 5); return arch::ret();'))
    P.append(('long', 'auto b = d::bind_front<&Mem::l>(); Mem m{i}; return b(m, A{4});', 'arch::arg(30, i); arch::arg(2, 4); return arch::ret();'))
    P.append(('int', 'auto b = d::bind_front<&Mem::id>(Mem{i}); b() = 5; Mem m{b()}; return m.id;', 'return 5;'))
    P.append(('int', 'Mem m{i}; auto b = d::bind_front<&Mem::id>(&m); ++b(); return m.id;', 'return i + 1;'))
    return P


BIND_T = COMMON.replace('namespace arch {', '#include <dice/template-library/functional.hpp>\nnamespace d = dice::template_library;\nnamespace arch {') + OBS + '''
template<int k> struct Ne { int operator()(A &) const noexcept(k == 0) { return 0; } int operator()(A const &) const noexcept(k == 1) { return 1; } int operator()(A &&) const noexcept(k == 2) { return 2; } int operator()(A const &&) const noexcept(k == 3) { return 3; } };
template<int k> using B = decltype(d::bind_front<Ne<k>{}>(A{1}));
struct Id { template<typename T> constexpr T &&operator()(T &&x) const noexcept { return static_cast<T &&>(x); } };
using BI = decltype(d::bind_front<Id{}>(std::declval<A const &>()));
constexpr int sum(int a, int b, int c) { return a * 100 + b * 10 + c; }
struct P { int a; constexpr int get(int k) const { return a + k; } };
template<typename F, typename... T> concept calls = requires { std::declval<F>()(std::declval<T>()...); };
struct Cn { int operator()(A const &) noexcept { return 0; } int operator()(A const &) const { return 1; } };
struct Cq { int operator()(A const &) & noexcept; int operator()(A const &) && noexcept; int operator()(A const &) const & { return 1; } int operator()(A const &) const && noexcept; };
'''


def bind_types():
    A = []
    for k in range(4):
        for j, q in enumerate(('&', 'const &', '&&', 'const &&')):
            A.append(('noexcept %d %d' % (k, j), '%snoexcept(std::declval<B<%d> %s>()())' % ('' if k == j else '!', k, q)))
    for q in ('&', 'const &', '&&', 'const &&'):
        A.append(('result ' + q, 'std::is_same_v<decltype(std::declval<BI %s>()()), A %s>' % (q, q)))
    A += [('target is constant', '!noexcept(std::declval<decltype(d::bind_front<Cn{}>(std::declval<A>()))>()()) && !noexcept(std::declval<decltype(d::bind_front<Cn{}>())>()(std::declval<A>())) && !noexcept(std::declval<decltype(d::bind_front<Cq{}>(std::declval<A>()))>()())'),
          ('constant', 'd::bind_front<sum>(1)(2, 3) == 123 && d::bind_front<sum>(1, 2)(3) == 123 && d::bind_front<sum>(1, 2, 3)() == 123 && d::bind_front<&sum>()(1, 2, 3) == 123'),
          ('constant member', 'd::bind_front<&P::get>(P{4})(2) == 6 && d::bind_front<&P::a>(P{4})() == 4'),
          ('storage', 'std::is_copy_constructible_v<decltype(d::bind_front<Obs{}>(std::declval<A &>()))> && std::is_move_constructible_v<decltype(d::bind_front<Obs{}>(M{1}))> && !std::is_copy_constructible_v<decltype(d::bind_front<Obs{}>(M{1}))>'),
          ('argument noexcept', 'noexcept(std::declval<decltype(d::bind_front<[](A const &, int) noexcept {}>(std::declval<A>()))>()(1)) && !noexcept(std::declval<decltype(d::bind_front<[](A, int) noexcept {}>(std::declval<A &>())) &>()(1)) && noexcept(std::declval<decltype(d::bind_front<[](A, int) noexcept {}>(std::declval<A>()))>()(1))'),
          ('rest noexcept', 'noexcept(std::declval<decltype(d::bind_front<Ne<2>{}>())>()(std::declval<A>())) && !noexcept(std::declval<decltype(d::bind_front<Ne<0>{}>())>()(std::declval<A>())) && noexcept(std::declval<decltype(d::bind_front<Ne<0>{}>())>()(std::declval<A &>()))')]
    return A


OVL = COMMON.replace('namespace arch {', '#include <dice/template-library/overloaded.hpp>\n#include <dice/template-library/variant2.hpp>\nnamespace d = dice::template_library;\nnamespace arch {') + '''
// an own variant whose visit is found by its arguments
namespace own { struct Var { int idx; A a; M m; explicit Var(int i) : idx{i}, a{i}, m{i + 1} {} };
template<typename F, typename V> requires std::same_as<std::remove_cvref_t<V>, Var> decltype(auto) visit(F &&f, V &&v) { arch::visit(cat<V &&>); if (arch::get(0)) return std::forward<F>(f)(std::forward<V>(v).a); return std::forward<F>(f)(std::forward<V>(v).m); } }
struct Base {}; struct Der : Base {}; struct FromInt { FromInt(int) noexcept {} };
struct MoveOnlyFn { M m; explicit MoveOnlyFn(int i) : m{i} {} long operator()(M const &x) { return arch::hi(m.id, x.id); } };
'''
HANDLERS = {'int': '[](int x) { return arch::hi(1, x); }', 'long': '[](long x) { return arch::hi(2, x); }', 'A&': '[](A &x) { return arch::hi(3, x.id); }', 'Ac': '[](A const &x) { return arch::hi(4, x.id); }', 'Am': '[](A &&x) { return arch::hi(5, x.id); }',
            'auto': '[](auto const &) { return arch::hi(6, 0); }', 'autom': '[](auto &&x) { return arch::hi(7, cat<decltype(x)>); }', 'two': '[](int x, long y) { return arch::hi(8, x + y); }', 'zero': '[] { return arch::hi(9, 0); }', 'mut': '[n = 0L](int x) mutable { ++n; return arch::hi(10 + n, x); }',
            'Base': '[](Base const &) { return arch::hi(12, 0); }', 'FromInt': '[](FromInt) { return arch::hi(13, 0); }', 'str': '[](char const *) { return arch::hi(14, 0); }', 'req': '[](std::integral auto) { return arch::hi(15, 0); }'}
OBJ = {'int': 'struct { long operator()(int x) const { return arch::hi(1, x); } }'}


def method(h):
    """the same handler as a member of one overload set"""
    import re
    s = HANDLERS[h]
    m = re.match(r'\[(.*?)\](?:\((.*?)\))? ?(mutable )?\{(.*)\}$', s)
    cap, par, mut, body = m.groups()
    return 'long operator()(%s)%s {%s}' % (par or '', '' if mut else ' const', body), cap + ';' if cap else ''


SETS = [(['int'], ['i', "'c'", '2L', 'true']), (['int', 'long'], ['i', '2L', "'c'", 'short(3)']), (['long', 'int'], ['i', '2L']), (['A&', 'Ac', 'Am'], ['a', 'std::as_const(a)', 'A{i}', 'std::move(a)']), (['Ac'], ['a', 'A{i}']), (['Ac', 'Am'], ['a', 'A{i}']),
        (['int', 'auto'], ['i', '2L', 'a', 'nullptr', '"x"']), (['auto', 'int'], ['i', '2L', 'a']), (['int', 'autom'], ['i', '2', 'a', 'std::as_const(a)', 'A{i}']), (['zero', 'int', 'two'], ['', 'i', 'i, 2L', '2L, i']),
        (['mut', 'A&'], ['i', 'a']), (['Base', 'int'], ['Der{}', 'Base{}', 'i']), (['FromInt', 'long'], ['i', '2L']), (['FromInt', 'A&'], ['i', 'a']), (['str', 'int'], ['"x"', 'i', '0']), (['req', 'str', 'auto'], ['i', '"x"', '2.0', "'c'"]), (['req', 'int'], ['i', '2L'])]


def over():
    P = []
    for hs, args in SETS:
        for a in args:
            for form in ('%s', 'std::move(%s)') + (() if 'mut' in hs else ('std::as_const(%s)',)):
                ms = [method(h) for h in hs]
                x = 'A a{i}; auto o = d::overloaded{%s}; return %s(%s);' % (', '.join(HANDLERS[h] for h in hs), form % 'o', a)
                r = 'A a{i}; struct O { %s %s O() {} }; O o; return %s(%s);' % (' '.join(m[0] for m in ms), ' '.join(('long ' if m[1] else '') + m[1].replace('= 0L', '= 0') for m in ms), form % 'o', a)
                if any('auto' in m[0] for m in ms):
                    continue  # no member templates in local classes; see below
                P.append(('long', x, r))
    # generic handlers: the expected handler is named
    for hs, a, exp in [(['int', 'auto'], 'i', 'arch::hi(1, i)'), (['int', 'auto'], '2L', 'arch::hi(6, 0)'), (['auto', 'int'], 'a', 'arch::hi(6, 0)'), (['auto', 'int'], 'i', 'arch::hi(1, i)'), (['int', 'autom'], 'a', 'arch::hi(7, 0)'), (['int', 'autom'], 'std::as_const(a)', 'arch::hi(7, 1)'),
                       (['int', 'autom'], 'A{i}', 'arch::hi(7, 2)'), (['int', 'autom'], 'i', 'arch::hi(1, i)'), (['int', 'autom'], '2', 'arch::hi(1, 2)'), (['Ac', 'autom'], 'a', 'arch::hi(7, 0)'), (['Ac', 'autom'], 'std::as_const(a)', 'arch::hi(4, i)'), (['A&', 'autom'], 'a', 'arch::hi(3, i)'), (['A&', 'autom'], 'A{i}', 'arch::hi(7, 2)'),
                       (['req', 'str', 'auto'], '2.0', 'arch::hi(6, 0)'), (['req', 'int'], 'i', 'arch::hi(1, i)'), (['req', 'int'], '2L', 'arch::hi(15, 0)')]:
        P.append(('long', 'A a{i}; auto o = d::overloaded{%s}; return o(%s);' % (', '.join(HANDLERS[h] for h in hs), a), 'return %s;' % exp))
    P.append(('long', 'MoveOnlyFn f{i}; auto o = d::overloaded{std::move(f), [](int x) { return arch::hi(1, x); }}; M m{9}; o(3); return o(m);', 'arch::hi(1, 3); return arch::hi(i, 9);'))
    P.append(('long', 'auto f = [i](A const &x) { return arch::hi(i, x.id); }; auto o = d::overloaded{f, [](int) { return 0L; }}; auto p = d::overloaded{o, [](char const *) { return 1L; }}; return p(A{4}) + o(A{5});', 'long x = arch::hi(i, 4); return x + arch::hi(i, 5);'))
    # match
    VC = [('v', 0), ('std::as_const(v)', 1), ('std::move(v)', 2), ('std::move(std::as_const(v))', 3)]
    for e, c in VC:
        P.append(('long', 'own::Var v{i}; return d::match(%s, [](auto &&x) { see(std::forward<decltype(x)>(x)); return arch::ret(); });' % e, 'arch::visit(%d); if (arch::get(0)) arch::arg(%d, i); else arch::arg(%d, i + 1); return arch::ret();' % (c, c, c)))
        P.append(('int *', 'own::Var v{i}; return &d::match(%s, [](A const &x) -> int & { arch::h(1); return *arch::ref(); }, [](M const &x) -> int & { arch::h(2); return *arch::ref(); });' % e, 'arch::visit(%d); if (arch::get(0)) arch::h(1); else arch::h(2); return arch::ref();' % c))
        P.append(('void', 'own::Var v{i}; auto f = [](A const &x) { arch::h(x.id); }; d::match(%s, f, [](auto const &x) { arch::hi(2, x.id); });' % e, 'arch::visit(%d); if (arch::get(0)) arch::h(i); else arch::hi(2, i + 1);' % c))
    for V in ('std::variant<A, long, M>', 'd::variant2<A, long>'):
        alts = ['A{i}', '(long) i', 'M{i}'][:3 if 'std' in V else 2]
        for k, alt in enumerate(alts):
            for e, c in VC:
                mk = '%s v{std::in_place_type<%s>, %s}; ' % (V, ['A', 'long', 'M'][k], alt[2:-1] if alt[0] in 'AM' else alt)
                P.append(('long', mk + 'return d::match(%s, [](long x) { return arch::hi(1, x); }, [](auto &&x) { see(std::forward<decltype(x)>(x)); return arch::hi(2, 0); });' % e, 'arch::arg(%d, i); return arch::hi(2, 0);' % c if k != 1 else 'return arch::hi(1, i);'))
                P.append(('long', mk + 'return d::match(%s, [](long const &x) { return arch::hi(1, x); }, [](A const &x) { return arch::hi(2, x.id); }%s);' % (e, ', [](M const &x) { return arch::hi(3, x.id); }' if 'std' in V else ''), 'return arch::hi(%d, i);' % (2, 1, 3)[k]))
    P.append(('long', 'std::variant<int, long> v{i}; long n = 0; d::match(v, [&](int &x) { x += 1; n += 1; }, [&](long) { n += 10; }); return arch::hi(n, std::get<int>(v));', 'return arch::hi(1, i + 1);'))
    P.append(('long', 'std::variant<M, int> v{std::in_place_type<M>, i}; MoveOnlyFn f{3}; return d::match(v, std::move(f), [](int) { return 0L; });', 'return arch::hi(3, i);'))
    P.append(('int', 'std::variant<M, int> v{std::in_place_type<M>, i}; M r = d::match(std::move(v), [](M &&x) { return std::move(x); }, [](int k) { return M{k}; }); return r.id + (int) arch::hi(0, std::get<M>(v).id);', 'return i + (int) arch::hi(0, -1);'))
    return P


OVL_T = OVL + '''
constexpr auto o1 = d::overloaded{[](int) noexcept { return 1; }, [](long) { return 2L; }, [](auto const &) noexcept { return 'c'; }};
struct Vis { constexpr int operator()(int) const { return 4; } }; struct VisM { int operator()(long) { return 5; } };
template<typename O, typename... T> concept calls = requires (O o, T ...t) { o(t...); };
constexpr std::variant<int, long> cv{3}; constexpr std::variant<int, long> cl{4L};
struct Fin { int x; template<typename T> constexpr T &&operator()(T &&t) const { return static_cast<T &&>(t); } };
'''
OVL_A = [('pick', 'o1(1) == 1 && o1(1L) == 2L && o1(nullptr) == \'c\''), ('noexcept', 'noexcept(o1(1)) && !noexcept(o1(1L)) && noexcept(o1(nullptr))'),
         ('types', 'std::is_same_v<decltype(o1(1)), int> && std::is_same_v<decltype(o1(1L)), long> && std::is_same_v<decltype(o1(nullptr)), char>'),
         ('rejects', '!calls<decltype(d::overloaded{[](int) {}, [](char const *) {}}), A> && calls<decltype(d::overloaded{[](int) {}, [](char const *) {}}), long>'),
         ('ambiguous', '!calls<decltype(d::overloaded{[](long) {}, [](double) {}}), int>'),
         ('const', 'calls<d::overloaded<Vis, VisM> const, int> && calls<d::overloaded<Vis, VisM>, long>'),
         ('aggregate', 'd::overloaded<Vis>{}(3) == 4 && std::is_trivially_copyable_v<d::overloaded<Vis, VisM>>'),
         ('match reference', 'std::is_same_v<decltype(d::match(std::declval<std::variant<int> &>(), Fin{})), int &> && std::is_same_v<decltype(d::match(std::declval<std::variant<int>>(), Fin{})), int &&> && std::is_same_v<decltype(d::match(std::declval<std::variant<int> const &>(), Fin{})), int const &> && std::is_same_v<decltype(d::match(std::declval<d::variant2<int, long> &>(), [](auto const &) -> int const & { static int k; return k; })), int const &>')]

MEM = COMMON.replace('namespace arch {', '#include <dice/template-library/memfn.hpp>\nnamespace arch {') + '''
struct B0 { int base; template<typename... T> long inherited(T &&...a) const { arch::arg(49, base); (see(std::forward<T>(a)), ...); return arch::ret(); } };
struct S : B0 { int id; explicit S(int i) : B0{i + 100}, id{i} {} S(S const &) = delete;
    template<typename... T> long obs(T &&...a) { arch::arg(40, id); (see(std::forward<T>(a)), ...); return arch::ret(); }
    template<typename... T> long obs(T &&...a) const { arch::arg(41, id); (see(std::forward<T>(a)), ...); return arch::ret(); }
    template<typename... T> int &ref(T &&...a) { (see(std::forward<T>(a)), ...); return *arch::ref(); }
    template<typename... T> void vd(T &&...a) { (see(std::forward<T>(a)), ...); arch::ret(); }
    template<typename... T> M mv(T &&...a) { (see(std::forward<T>(a)), ...); return M{(int) arch::ret()}; }
    int data() { return id; } long by(A a, A const &b) { arch::arg(42, a.id); arch::arg(43, b.id); return arch::ret(); } static long st(int x) { return arch::hi(44, x); }
'''
MEM_P = [('long', 'auto f = DICE_MEMFN(obs); return f();', 'arch::arg(40, i); return arch::ret();', ''), ('long', 'auto f = DICE_MEMFN(obs); return f();', 'arch::arg(41, i); return arch::ret();', 'const'),
         ('long', 'A a{1}; auto f = DICE_MEMFN(obs, a); return f();', 'arch::arg(40, i); arch::arg(0, 1); return arch::ret();', ''),
         ('long', 'A const a{1}; A b{2}; auto f = DICE_MEMFN(obs, a, b); return f(A{3}, b);', 'arch::arg(40, i); arch::arg(1, 1); arch::arg(0, 2); arch::arg(2, 3); arch::arg(0, 2); return arch::ret();', ''),
         ('long', 'A a{1}; auto f = DICE_MEMFN(obs, std::move(a)); return f(std::as_const(a));', 'arch::arg(40, i); arch::arg(2, 1); arch::arg(1, 1); return arch::ret();', ''),
         ('long', 'A a{1}; auto const f = DICE_MEMFN(obs); f(a); f(std::as_const(a)); return f(std::move(a));', ''.join('arch::arg(40, i); arch::arg(%d, 1); %sarch::ret();' % (c, 'return ' if c == 2 else '') for c in (0, 1, 2)), ''),
         ('int *', 'A a{1}; auto f = DICE_MEMFN(ref); return &f(a);', 'arch::arg(0, 1); return arch::ref();', ''), ('void', 'auto f = DICE_MEMFN(vd); f(A{2});', 'arch::arg(2, 2); arch::ret();', ''), ('int', 'auto f = DICE_MEMFN(mv); return f(A{2}).id;', 'arch::arg(2, 2); return (int) arch::ret();', ''),
         ('long', 'auto f = DICE_MEMFN(by, A{5}); return f(A{6});', 'arch::arg(42, 5); arch::arg(43, 6); return arch::ret();', ''), ('long', 'A a{5}; auto f = DICE_MEMFN(by, a); return f(a);', 'arch::copied(5); arch::arg(42, 5); arch::arg(43, 5); return arch::ret();', ''),
         ('long', 'auto f = DICE_MEMFN(by); M m{1}; return std::move(f)(A{6}, A{7});', 'arch::arg(42, 6); arch::arg(43, 7); return arch::ret();', ''), ('int', 'auto f = DICE_MEMFN(data); id = 7; return f();', 'return 7;', ''), ('long', 'auto f = DICE_MEMFN(st); return f(8);', 'return arch::hi(44, 8);', ''),
         ('long', 'int k = 1; auto f = DICE_MEMFN(st, k); k = 2; return f();', 'return arch::hi(44, 2);', ''), ('long', 'auto f = DICE_MEMFN(st, arch::get(3)); arch::when(0); f(); return f();', 'arch::when(0); arch::hi(44, arch::get(3)); return arch::hi(44, arch::get(3));', ''),
         ('long', 'auto f = DICE_MEMFN(inherited, base); return f(A{1});', 'arch::arg(49, i + 100); arch::arg(10, i + 100); arch::arg(2, 1); return arch::ret();', ''),
         ('int', 'auto f = DICE_MEMFN(mv, M{3}); auto g = f; return g(M{4}).id;', 'arch::arg(2, 3); arch::arg(2, 4); return (int) arch::ret();', '')]

DBG = COMMON.replace('namespace arch {', '#include <dice/template-library/dbg.hpp>\nnamespace arch {') + '''
namespace w { namespace std { using namespace ::std;
struct Err {} inline cerr, clog; struct Out {} inline cout;
template<typename C = char, typename Tr = int> struct ostreambuf_iterator { using iterator_category = ::std::output_iterator_tag; using value_type = void; using difference_type = ::std::ptrdiff_t; using pointer = void; using reference = void;
    int s; ostreambuf_iterator(Err &e) : s{&e == &cerr ? 2 : 3} {} ostreambuf_iterator(Out &) : s{1} {} ostreambuf_iterator &operator*() { return *this; } ostreambuf_iterator &operator++() { return *this; } ostreambuf_iterator &operator++(int) { return *this; }
    ostreambuf_iterator &operator=(int c) { arch::put(s, c); return *this; } };
template<typename C, typename Tr = int> using ostream_iterator = ostreambuf_iterator<C, Tr>;
struct Str { int n = 0; int c[120]; using value_type = int; void push_back(int x) { c[n++] = x; } };
inline Err &operator<<(Err &e, Str const &s) { for (int k = 0; k < s.n; ++k) arch::put(&e == &cerr ? 2 : 3, s.c[k]); return e; }
inline Err &operator<<(Err &e, ::std::string_view s) { for (char c : s) arch::put(&e == &cerr ? 2 : 3, c); return e; }
inline Err &operator<<(Err &e, char c) { arch::put(&e == &cerr ? 2 : 3, c); return e; }
template<typename It> It num(It it, long v) { if (v >= 10) it = num(it, v / 10); *it++ = char('0' + v % 10); return it; }
inline Err &operator<<(Err &e, int v) { num(ostreambuf_iterator<char>{e}, v); return e; }
template<typename It, typename T> It one(It it, T const &x) { if constexpr (::std::is_convertible_v<T const &, ::std::string_view>) for (char c : ::std::string_view{x}) *it++ = c; else if constexpr (::std::is_integral_v<T>) it = num(it, (long) x); else *it++ = x.id + 1000; return it; }
template<typename It, typename... A> It emit(It it, char const *f, A const &...a) {
    int n = 0;
    for (; *f; ++f) if (*f == '{' && f[1] == '}') { ++f; int k = n++; ((k-- == 0 ? (void) (it = one(it, a)) : (void) 0), ...); if (n > (int) sizeof...(A)) arch::oops(1); } else if ((*f == '{' || *f == '}') && f[1] == *f) *it++ = *f++; else if (*f == '{' || *f == '}') arch::oops(2); else *it++ = *f;
    return it; }
template<typename It, typename F, typename... A> It format_to(It it, F const &f, A &&...a) { return emit(it, f, a...); }
template<typename F, typename... A> Str format(F const &f, A &&...a) { Str r; emit(::std::back_inserter(r), f, a...); return r; }
template<typename F, typename... A> void print(Err &e, F const &f, A &&...a) { emit(ostreambuf_iterator<char>{e}, f, a...); }
template<typename F, typename... A> void println(Err &e, F const &f, A &&...a) { *emit(ostreambuf_iterator<char>{e}, f, a...)++ = '\\n'; }
template<typename F, typename... A> void print(FILE *e, F const &f, A &&...a) { emit(ostreambuf_iterator<char>{cerr}, f, a...); if (e != stderr) arch::oops(3); }
template<typename F, typename... A> void println(FILE *e, F const &f, A &&...a) { *emit(ostreambuf_iterator<char>{cerr}, f, a...)++ = '\\n'; if (e != stderr) arch::oops(3); }
}
inline A &la(A &a) { arch::when(1); return a; } inline A const &ca(A &a) { arch::when(2); return a; } inline A &&xa(A &a) { arch::when(3); return std::move(a); } inline A pa(int i) { arch::when(4); return A{i}; } inline M pm(int i) { arch::when(5); return M{i}; } inline void txt(char const *s) { for (; *s; ++s) arch::put(2, *s); }
}
#line 42 "some/dir/file.cpp"
'''


def dbg():
    P = []

    def text(expr, v='$'):
        return r'txt("[file.cpp:42] %s = "); %s txt("\n");' % (expr.replace('\\', '\\\\').replace('"', '\\"'), v)
    D = lambda id: 'arch::put(2, %s + 1000);' % id
    P.append(('void *', 'A a{i}; return &DICE_DBG(la(a)) == &a ? (void *) 1 : (void *) 2;', 'arch::when(1); ' + text('la(a)', D('i')) + ' return (void *) 1;'))
    P.append(('void *', 'A a{i}; return &DICE_DBG(a) == &a ? (void *) 1 : (void *) 2;', text('a', D('i')) + ' return (void *) 1;'))
    P.append(('void *', 'A a{i}; return &DICE_DBG(ca(a)) == &a ? (void *) 1 : (void *) 2;', 'arch::when(2); ' + text('ca(a)', D('i')) + ' return (void *) 1;'))
    P.append(('int', 'A a{i}; A b = DICE_DBG(xa(a)); return b.id + a.id;', 'arch::when(3); ' + text('xa(a)', D('i')) + ' return i - 1;'))
    P.append(('int', 'A a{i}; A b = DICE_DBG(la(a)); return b.id + a.id;', 'arch::when(1); ' + text('la(a)', D('i')) + ' arch::copied(i); return i + i;'))
    P.append(('int', 'A b = DICE_DBG(pa(i)); return b.id;', 'arch::when(4); ' + text('pa(i)', D('i')) + ' return i;'))
    P.append(('int', 'M b = DICE_DBG(pm(i)); return b.id;', 'arch::when(5); ' + text('pm(i)', D('i')) + ' return i;'))
    P.append(('int', 'M m{i}; M b = DICE_DBG(std::move(m)); return b.id + m.id;', text('std::move(m)', D('i')) + ' return i - 1;'))
    P.append(('int', 'int k = 5; int b = DICE_DBG(++k) + DICE_DBG(k); return b + k;', text('++k', 'txt("6");') + text('k', 'txt("6");') + ' return 18;'))
    P.append(('int', 'int k = 5; int b = DICE_DBG(k++); return b * 10 + k;', text('k++', 'txt("5");') + ' return 56;'))
    P.append(('int', 'int k = 5; DICE_DBG(k) = 7; return k;', text('k', 'txt("5");') + ' return 7;'))
    P.append(('int', 'int b = DICE_DBG(2 + 3 * 4); return b;', text('2 + 3 * 4', 'txt("14");') + ' return 14;'))
    P.append(('int', 'return DICE_DBG("a{}b%d\\n")[1];', text('"a{}b%d\\n"', 'txt("a{}b%d\\n");') + " return '{';"))
    P.append(('int', 'return DICE_DBG(DICE_DBG(3) + 1);', text('3', 'txt("3");') + text('DICE_DBG(3) + 1', 'txt("4");') + ' return 4;'))
    P.append(('int', 'if (DICE_DBG(i) >= 0 || true) { int val = 3; return DICE_DBG(val); } return 0;', None))
    P = [p for p in P if p[2]]
    P.append(('int', 'int val = 3; return DICE_DBG(val);', text('val', 'txt("3");') + ' return 3;'))
    P.append(('int', 'auto f = [](auto x) { return DICE_DBG(x); }; return f(4);', text('x', 'txt("4");') + ' return 4;'))
    return P


DBG_T = COMMON.replace('namespace arch {', '#include <dice/template-library/dbg.hpp>\nnamespace arch {') + '''
inline A make(); inline A const cmake(); struct Nc { int id; }; struct Big { int x[100]; };
template<> struct std::formatter<A> { constexpr auto parse(auto &c) { return c.begin(); } auto format(A const &, auto &c) const { return c.out(); } };
template<> struct std::formatter<M> { constexpr auto parse(auto &c) { return c.begin(); } auto format(M const &, auto &c) const { return c.out(); } };
template<> struct std::formatter<Nc> { constexpr auto parse(auto &c) { return c.begin(); } auto format(Nc &, auto &c) const { return c.out(); } };
inline void compiles(A &a, A const &c, Nc &n) { int k = DICE_DBG(3); DICE_DBG(n).id = DICE_DBG(std::string{"x"}).size() + DICE_DBG("lit")[k]; (void) DICE_DBG(true); if (DICE_DBG(k > 3) && DICE_DBG(2.5) > 1) {} auto x = [&] { return DICE_DBG(k); }; x(); }
'''
DBG_A = [('lvalue', 'std::is_same_v<decltype(DICE_DBG(std::declval<A &>())), A &> && std::is_same_v<decltype(DICE_DBG(std::declval<A const &>())), A const &>'),
         ('xvalue', 'std::is_same_v<decltype(DICE_DBG(std::declval<A>())), A &&> && std::is_same_v<decltype(DICE_DBG(std::declval<A const>())), A const &&>'),
         ('prvalue', 'std::is_same_v<std::remove_reference_t<decltype(DICE_DBG(2 + 3L))>, long> && !std::is_lvalue_reference_v<decltype(DICE_DBG(2))>'),
         ('array', 'std::is_same_v<decltype(DICE_DBG("abc")), char const (&)[4]>')]


def check(chk):
    chk.technique = 'equivalence with hand written references by abstract interpretation of the compiler IR; type-level witnesses'
    chk.headers = ['overloaded.hpp', 'functional.hpp', 'memfn.hpp', 'dbg.hpp']
    wit.asserts(chk, 'bind_front', BIND_T, bind_types())
    wit.asserts(chk, 'bind_front-gcc/overloaded', OVL_T, OVL_A)
    wit.asserts(chk, 'overloaded-clang', OVL_T, OVL_A, build.CLANG)
    wit.asserts(chk, 'bind_front-clang', BIND_T, bind_types(), build.CLANG)
    wit.asserts(chk, 'dbg', DBG_T, DBG_A)
    wit.asserts(chk, 'dbg-clang', DBG_T, DBG_A, build.CLANG)

    def blocks(P):
        return ['W %s x_%d(int i) { %s }\nW %s r_%d(int i) { %s }\n' % (t, k, x, t, k, r) for k, (t, x, r) in enumerate(P)]

    def named(group, head, W, P):
        n = len(chk.violations)
        equiv.many(chk, group, head, W)
        for v in chk.violations[n:]:
            k = v['id'].split('/')[1]
            if k.isdigit():
                v['msg'] = '%s: %s' % (P[int(k)][1], v['msg'])
    P = bind()
    named('bind_front', BIND_T, blocks(P), P)
    P = over()
    named('overloaded', OVL, blocks(P), P)
    P = dbg()
    named('dbg', DBG, ['#line 42 "some/dir/file.cpp"\nnamespace w { W %s x_%d(int i) { %s }\nW %s r_%d(int i) { %s } }\n' % (t, k, x, t, k, r) for k, (t, x, r) in enumerate(P)], P)
    src = MEM + ''.join('%s t_%d() %s { %s }\n' % (t, k, q, x) for k, (t, x, r, q) in enumerate(MEM_P)) + '};\n'
    named('memfn', src, ['W %s x_%d(int i) { S s{i}; %ss.t_%d(); }\nW %s r_%d(int i) { %s }\n' % (t, k, 'return ' if t != 'void' else '', k, t, k, r) for k, (t, x, r, q) in enumerate(MEM_P)], MEM_P)
    chk.require('equivalences', chk.counts.get('equivalences', 0), 400)
    return 'Every call is compared with its reference; arguments have symbolic identities and every opaque operation may throw.'
