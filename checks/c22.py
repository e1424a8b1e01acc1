"""standard_layout_tuple and the tuple algorithms: types and layout by static assertions, element access, construction, comparison and
traversal against plain aggregates in the compiler IR."""
import itertools
import build
import greedy
import equiv
import wit
from c17 import patterns

PRE = '''#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
#include <array>
#include <compare>
#include <memory>
#include <tuple>
#include <utility>
namespace d = dice::template_library;
template<typename A, typename B> inline constexpr bool same = false;
template<typename A> inline constexpr bool same<A, A> = true;
template<typename ...Ts> using S = d::standard_layout_tuple<Ts...>;
struct Em {};
struct Mo { long v; Mo(Mo &&) = default; Mo(long a) : v(a) {} };
struct NSL { virtual ~NSL(); int a; };
struct Fin final { short s; };
struct No { No() = delete; No(No const &) = delete; };
template<typename T, std::size_t I> concept can_get = requires (T &t) { t.template get<I>(); };
'''
POOL = ['int', 'char', 'long', 'int const *', 'Fin', 'double', 'short']
CATS = ['&', 'const &', '&&', 'const &&']


def types(thorough):
    A = []
    N = 5 if thorough else 4
    for n in range(N + 1):
        for p in patterns(n):
            xs = [POOL[i] for i in p]
            t = 'S<%s>' % ', '.join(xs)
            A.append(('size', 'std::tuple_size_v<%s> == %d && %s::size() == %d' % (t, n, t, n)))
            A.append(('standard_layout', 'std::is_standard_layout_v<%s> && std::is_trivially_copyable_v<%s> && std::is_nothrow_default_constructible_v<%s>' % (t, t, t)))
            A.append(('copy', 'std::is_copy_constructible_v<%s> && std::is_copy_assignable_v<%s> && std::is_constructible_v<%s, %s &> && std::is_constructible_v<%s, %s const &&>' % (t, t, t, t, t, t)))
            if n:
                A.append(('layout/space', 'sizeof(%s) >= %s' % (t, ' + '.join('sizeof(%s)' % x for x in xs))))
            for i, x in enumerate(xs):
                A.append(('tuple_element', 'same<std::tuple_element_t<%d, %s>, %s>' % (i, t, x)))
                for c in CATS:
                    A.append(('get', 'same<decltype(std::declval<%s %s>().template get<%d>()), %s %s>' % (t, c, i, x, c)))
                    if xs.count(x) == 1:
                        A.append(('get-type', 'same<decltype(std::declval<%s %s>().template get<%s>()), %s %s>' % (t, c, x, x, c)))
            # explicit constructors: number of arguments
            for m in range(n + 2):
                ok = 'true' if m == n and m else 'false'
                if n and m:
                    a = ''.join(', ' + x for x in (xs + ['int'])[:m])
                    A.append(('construct', 'std::is_constructible_v<%s%s> == %s' % (t, a, ok)))
                    if m != n - 1:  # n arguments of which the first is the tag: not specified
                        A.append(('construct', 'std::is_constructible_v<%s, d::individual_construct_t%s> == %s' % (t, a, ok)))
                    A.append(('construct', '!std::is_convertible_v<%s, %s>' % (xs[0], t)))
            A.append(('construct', 'std::is_default_constructible_v<%s>' % t))
    A.append(('standard_layout', '!std::is_standard_layout_v<S<int, NSL>> && !std::is_standard_layout_v<S<NSL>>'))
    A.append(('construct', '!std::is_copy_constructible_v<S<int, Mo>> && std::is_move_constructible_v<S<int, Mo>> && std::is_constructible_v<S<int, Mo>, int, Mo> && std::is_constructible_v<S<Mo>, Mo>'))
    A.append(('construct', '!std::is_default_constructible_v<S<int, Mo>> && !std::is_default_constructible_v<S<No>> && !std::is_default_constructible_v<S<int, No>>'))
    A.append(('construct', 'std::is_constructible_v<S<long>, int> && std::is_constructible_v<S<S<long>>, S<long>> && std::is_empty_v<S<>> && std::is_default_constructible_v<S<>>'))
    A.append(('get', 'same<decltype(std::declval<S<int const> &>().template get<0>()), int const &> && same<decltype(std::declval<S<int const> &&>().template get<0>()), int const &&>'))
    return A


def constexprs():
    pre = PRE + '''
constexpr int sum() { S<int, long, char> t{1, 2L, 'c'}; auto c = t; c.get<0>() = 5; auto [a, b, x] = c; return d::tuple_fold(c, 100, [](int &&acc, auto e) { return acc * 2 + int(e); }) + a; }
constexpr int each() { int r = 0; d::tuple_for_each(std::tuple{1, 2L, 3}, [&](auto x) { r = r * 10 + int(x); }); return r; }
constexpr int tfold() { return d::tuple_type_fold<std::tuple<char, int[4], char[2]>>(1, []<typename T>(int &&a) { return a * 20 + int(sizeof(T)); }); }
constexpr int teach() { int r = 0; d::tuple_type_for_each<std::tuple<char, int[4], char[2]>>([&]<typename T>() { r = r * 20 + int(sizeof(T)); }); return r; }
constexpr bool uni() { S<int, long> t{d::uniform_construct, 7}; return t.get<0>() == 7 && t.get<long>() == 7 && t == S<int, long>{7, 7L} && (t <=> S<int, long>{7, 8L}) < 0; }
constexpr bool zero() { S<> a, b; S<> c{d::uniform_construct, 1, 2}; S<> e{d::individual_construct}; return a == b && (a <=> c) == 0 && a == e; }
'''
    return pre, [('tuple_fold', "sum() == ((100 * 2 + 5) * 2 + 2) * 2 + 'c' + 5"), ('tuple_for_each', 'each() == 123'), ('tuple_type_fold', 'tfold() == ((1 * 20 + 1) * 20 + 16) * 20 + 2'), ('tuple_type_for_each', 'teach() == 20 * (20 * 1 + 16) + 2'),
                 ('uniform', 'uni()'), ('empty', 'zero()')]


def rejections():
    R = []
    for n in (1, 2, 4):
        t = 'S<%s>' % ', '.join(POOL[:n])
        for how in ('auto f(%s &t) { return t.template get<IX>(); }', 'auto f(%s t) { return std::move(t).template get<IX>(); }'):
            for bad in (n, n + 1, '~std::size_t(0)'):
                R.append(('get/out-of-range', (how % t).replace('IX', str(bad)), (how % t).replace('IX', str(n - 1))))
        for o, c, go, gc in ((n, 0, n - 1, 1), (0, n + 1, 0, n), (n - 1, 2, n - 1, 1), (n + 1, 0, n - 1, 1), ('~std::size_t(0)', 1, 0, 1), (1, '~std::size_t(0)', 0, 1)):
            h = 'auto *f(S<%s> &t) { return &t.template subtuple<O, C>(); }' % ', '.join(['int'] * n)
            R.append(('subtuple/out-of-range', h.replace('O,', '%s,' % o).replace('C>', '%s>' % c), h.replace('O,', '%s,' % go).replace('C>', '%s>' % gc)))
    h = 'auto f(S<int, char, int> &t) { return t.template get<%s>(); }'
    R.append(('get-type/duplicate', h % 'int', h % 'char'))
    R.append(('get-type/absent', h % 'long', h % 'char'))
    # the elements of these subtuples do not lie where the tuple has them
    h = 'auto &f(%s &t) { return t.template subtuple<0, 2>(); }'
    R.append(('subtuple/layout', h % 'S<char, char, long>', h % 'S<char, char, char>'))
    R.append(('subtuple/layout', 'auto &f(S<int, char, char, long> &t) { return t.template subtuple<1, 2>(); }', 'auto &f(S<int, char, char, char> &t) { return t.template subtuple<1, 2>(); }'))
    R.append(('subtuple/not-standard-layout', h % 'S<int, NSL>', h % 'S<int, int>'))
    return R


HEAD = PRE + '''#define W extern "C" __attribute__((used))
namespace arch {
long make(int, long); long copyc(int, long); long copya(int, long); long move(int, long); void at(int, int, long); void at(int, int); long step(int, long, int, long); long step(int, long); long pure(long, long) noexcept;
long ret(int, int, long); long &ref(int, int, long); void dtor(int, long) noexcept; bool eq(int, long, long) noexcept; signed char cmp(int, long, long) noexcept; long lv(int, long); long clv(int, long); long rv(int, long); long crv(int, long);
}
struct Z { long a; };
// counts every construction with its category
template<int I> struct V { long v;
  V() : v(arch::make(I, 0)) {} V(int) = delete;
  V(V const &o) : v(arch::copyc(I, o.v)) {} V(V &&o) : v(arch::move(I, o.v)) {} ~V() { arch::dtor(I, v); }
  using A = Z;
  explicit V(A &a) : v(arch::lv(I, a.a)) {} explicit V(A const &a) : v(arch::clv(I, a.a)) {} explicit V(A &&a) : v(arch::rv(I, a.a)) {} explicit V(A const &&a) : v(arch::crv(I, a.a)) {}
  V &operator=(V const &o) { v = arch::copya(I, o.v); return *this; }
};
template<int I> struct U { long v; explicit U(Z &z) : v(arch::lv(I, z.a)) {} explicit U(Z const &z) : v(arch::lv(I, z.a)) {} explicit U(Z &&z) : v(arch::rv(I, z.a)) {} U(Z const &z, long b) : v(arch::make(I, z.a + b)) {} U() : v(arch::make(I, 77)) {} };
template<int I> struct L { long v; explicit L(Z const &z) : v(arch::lv(I, z.a)) {} L(Z const &z, long b) : v(arch::make(I, z.a + b)) {} L() : v(arch::make(I, 77)) {} };
template<int I> struct Q { long v; bool operator==(Q const &o) const noexcept { return arch::eq(I, v, o.v); }
  std::strong_ordering operator<=>(Q const &o) const noexcept { auto c = arch::cmp(I, v, o.v); return c < 0 ? std::strong_ordering::less : c > 0 ? std::strong_ordering::greater : std::strong_ordering::equal; } };
template<int I> struct E { long v; };
struct At { template<int I> void operator()(E<I> &e) { arch::at(0, I, e.v); } template<int I> void operator()(E<I> const &e) { arch::at(1, I, e.v); } template<int I> void operator()(E<I> &&e) { arch::at(2, I, e.v); } template<int I> void operator()(E<I> const &&e) { arch::at(3, I, e.v); } };
struct Rt { template<int I> long operator()(E<I> const &e) const { return arch::ret(1, I, e.v); } };
struct Rr { template<int I> long &operator()(E<I> const &e) const { return arch::ref(1, I, e.v); } };
struct Ad { template<int I> long *operator()(E<I> &e) const { return &e.v; } };
struct Fo { template<int I> long operator()(long &&a, E<I> &e) const { return arch::step(0, a, I, e.v); } template<int I> long operator()(long &&a, E<I> const &e) const { return arch::step(1, a, I, e.v); } template<int I> long operator()(long &&a, E<I> &&e) const { return arch::step(2, a, I, e.v); } };
struct Ac { long v; explicit Ac(long v) : v(v) {} Ac(Ac &&) = default; Ac &operator=(Ac &&) = default; };
struct Fm { template<int I> Ac operator()(Ac &&a, E<I> const &e) const { return Ac{arch::step(1, a.v, I, e.v)}; } };
struct Ft { template<typename T> void operator()() const { T::hit(); } };
struct Fr { template<typename T> long operator()() const { return T::hit(); } };
struct Fl { template<typename T> long operator()(long &&a) const { return T::hit(a); } };
struct Fla { template<typename T> Ac operator()(Ac &&a) const { return Ac{T::hit(a.v)}; } };
template<int I> struct T { static long hit() { return arch::ret(5, I, 0); } static long hit(long a) { return arch::step(I, a); } T() = delete; };
// tuple-like types with get as a member or found by argument dependent lookup
namespace own {
struct M { E<0> a; E<1> b; template<std::size_t I> auto &get() { if constexpr (I) return b; else return a; } template<std::size_t I> auto &get() const { if constexpr (I) return b; else return a; } };
struct N { E<0> a; E<1> b; };
template<std::size_t I> auto &get(N &n) { if constexpr (I) return n.b; else return n.a; }
template<std::size_t I> auto &get(N const &n) { if constexpr (I) return n.b; else return n.a; }
template<std::size_t I> auto &&get(N &&n) { if constexpr (I) return std::move(n.b); else return std::move(n.a); }
}
template<> struct std::tuple_size<own::M> : std::integral_constant<std::size_t, 2> {};
template<> struct std::tuple_size<own::N> : std::integral_constant<std::size_t, 2> {};
'''


def events(thorough):
    W = []

    def both(n, sig, x, r):
        W.append('W %s { %s }\nW %s { %s }\n' % (sig % ('x_' + n), x, sig % ('r_' + n), r))

    N = 5 if thorough else 4
    for n in range(N + 1):
        P = ', '.join('long a%d' % i for i in range(n))
        Pp = lambda x: ', '.join('long %s%d' % (x, i) for i in range(n))
        for perm in (tuple(range(n)), tuple((3 * i + 2) % 5 for i in range(n))) if n > 1 else (tuple(range(n)),):
            k = 's%d_%s' % (n, ''.join(map(str, perm)))
            es = ['E<%d>' % v for v in perm]
            tt = 'S<%s>' % ', '.join(es)
            init = ', '.join('E<%d>{a%d}' % (v, i) for i, v in enumerate(perm))
            mk = '%s t{%s};' % (tt, init)
            # access: read every element; write through one and read all; the object is the same for each category
            for i in range(n):
                both('read_%s_%d' % (k, i), 'long %%s(%s)' % P, mk + ' return t.get<%d>().v;' % i, 'return a%d;' % i)
                both('readt_%s_%d' % (k, i), 'long %%s(%s)' % P, mk + ' return std::as_const(t).get<E<%d>>().v;' % perm[i], 'return a%d;' % i)
                for c, e in enumerate(('t', 'std::as_const(t)', 'std::move(t)', 'std::move(std::as_const(t))')):
                    both('same_%s_%d_%d' % (k, i, c), 'bool %%s(%s)' % P, mk + ' auto &&q = %s.get<%d>(); auto &&q2 = %s.get<E<%d>>(); return &q == &t.get<%d>() && &q2 == &q;' % (e, i, e, perm[i], i), 'return true;')
                both('write_%s_%d' % (k, i), 'long %%s(%s, long x)' % P, mk + ' t.get<%d>().v = x; return %s;' % (i, ' ^ '.join('%d * t.get<%d>().v' % (3 ** j, j) for j in range(n))),
                     'return %s;' % ' ^ '.join('%d * %s' % (3 ** j, 'x' if j == i else 'a%d' % j) for j in range(n)))
                both('off_%s_%d' % (k, i), 'bool %%s(%s)' % P, mk + ' auto p = (char *) &t.get<%d>() - (char *) &t; return %s;' % (
                    i, 'p == 0' if not i else 'p >= (char *) &t.get<%d>() - (char *) &t + long(sizeof(%s)) && p + sizeof(%s) <= sizeof t' % (i - 1, es[i - 1], es[i])), 'return true;')
            if n:
                both('bind_%s' % k, 'long %%s(%s)' % P, mk + ' auto &[%s] = t; return %s;' % (', '.join('b%d' % i for i in range(n)), ' ^ '.join('%d * b%d.v' % (3 ** j, j) for j in range(n))), 'return %s;' % ' ^ '.join('%d * a%d' % (3 ** j, j) for j in range(n)))
                both('copy_%s' % k, 'long %%s(%s)' % P, mk + ' auto u = t; auto w(std::move(t)); t.get<0>().v = 5; %s x{u}; x = w; return %s;' % (tt, ' ^ '.join('%d * x.get<%d>().v + u.get<%d>().v' % (3 ** j, j, j) for j in range(n))),
                     'return %s;' % ' ^ '.join('%d * a%d + a%d' % (3 ** j, j, j) for j in range(n)))
            for i in range(n):
                for m in range(1, n - i + 1):
                    sub = ' auto &s = t.subtuple<%d, %d>(); static_assert(same<decltype(s), S<%s> &>); return %s;' % (i, m, ', '.join(es[i:i + m]), ' & '.join('(&s.get<%d>() == &t.get<%d>())' % (j, i + j) for j in range(m)))
                    both('sub_%s_%d_%d' % (k, i, m), 'bool %%s(%s)' % P, mk + sub, 'return true;')
                    ty = 'S<%s>' % ', '.join(es[i:i + m])
                    both('subc_%s_%d_%d' % (k, i, m), 'bool %%s(%s)' % P, mk + ' auto &&s = std::as_const(t).subtuple<%d, %d>(); auto &&r = std::move(t).subtuple<%d, %d>(); static_assert(same<decltype(s), %s const &> && same<decltype(r), %s &&>); return %s;' % (
                        i, m, i, m, ty, ty, ' & '.join('(&s.get<%d>() == &t.get<%d>()) & (&r.get<%d>() == &t.get<%d>())' % (j, i + j, j, i + j) for j in range(m))), 'return true;')
            # comparison
            if n:
                mq = ' '.join('S<%s> t%s{%s};' % (', '.join('Q<%d>' % v for v in perm), x, ', '.join('Q<%d>{%s%d}' % (v, x, i) for i, v in enumerate(perm))) for x in 'ab')
                PP = Pp('a') + ', ' + Pp('b')
                both('eq_' + k, 'bool %%s(%s)' % PP, mq + ' return ta == tb;', 'return ' + ' && '.join('arch::eq(%d, a%d, b%d)' % (v, i, i) for i, v in enumerate(perm)) + ';')
                both('ne_' + k, 'bool %%s(%s)' % PP, mq + ' return ta != tb;', 'return !(' + ' && '.join('arch::eq(%d, a%d, b%d)' % (v, i, i) for i, v in enumerate(perm)) + ');')
                both('cmp_' + k, 'int %%s(%s)' % PP, mq + ' auto c = ta <=> tb; return c < 0 ? -1 : c > 0 ? 1 : 0;',
                     ' '.join('if (auto c = arch::cmp(%d, a%d, b%d); c != 0) return c < 0 ? -1 : 1;' % (v, i, i) for i, v in enumerate(perm)) + ' return 0;')
            # traversal
            tups = [('slt', tt, '%s t{%s};' % (tt, init)), ('std', 'std::tuple<%s>' % ', '.join(es), 'std::tuple<%s> t{%s};' % (', '.join(es), init))]
            if n == 2:
                tups.append(('pair', 'std::pair<%s>' % ', '.join(es), 'std::pair<%s> t{%s};' % (', '.join(es), init)))
            if perm == tuple(range(n)) and n:
                tups.append(('array', 'std::array<E<0>, %d>' % n, 'std::array<E<0>, %d> t{%s};' % (n, ', '.join('E<0>{a%d}' % i for i in range(n)))))
            if perm == (0, 1):
                tups += [('memget', 'own::M', 'own::M t{%s};' % init), ('adlget', 'own::N', 'own::N t{%s};' % init)]
            for nm, ty, mkt in tups:
                ids = [0] * n if nm == 'array' else perm
                kk = '%s_%s' % (nm, k)
                for c, e, w in ((0, 't', 0), (1, 'std::as_const(t)', 1), (2, 'std::move(t)', 0)):
                    both('each%d_%s' % (c, kk), 'void %%s(%s)' % P, mkt + ' d::tuple_for_each(%s, At{});' % e, ' '.join('arch::at(%d, %d, a%d);' % (w, v, i) for i, v in enumerate(ids)))
                both('eachl_%s' % kk, 'void %%s(%s)' % P, mkt + ' At f; d::tuple_for_each(t, f);', ' '.join('arch::at(0, %d, a%d);' % (v, i) for i, v in enumerate(ids)))
                if n:
                    both('eachret_%s' % kk, 'long %%s(%s)' % P, mkt + ' static_assert(same<decltype(d::tuple_for_each(t, Rt{})), long>); return d::tuple_for_each(t, Rt{});', ' '.join('%sarch::ret(1, %d, a%d);' % ('return ' if i == n - 1 else '', v, i) for i, v in enumerate(ids)))
                    both('eachref_%s' % kk, 'long &%%s(%s)' % P, mkt + ' static_assert(same<decltype(d::tuple_for_each(t, Rr{})), long &>); return d::tuple_for_each(t, Rr{});', ' '.join('%sarch::ref(1, %d, a%d);' % ('return ' if i == n - 1 else '', v, i) for i, v in enumerate(ids)))
                    lastp = 'std::get<%d>(t)' % (n - 1) if nm in ('std', 'pair', 'array') else 't.get<%d>()' % (n - 1) if nm != 'adlget' else 't.b'
                    both('eachaddr_%s' % kk, 'bool %%s(%s)' % P, mkt + ' return d::tuple_for_each(t, Ad{}) == &%s.v;' % lastp, 'return true;')
                for c, e in ((0, 't'), (1, 'std::as_const(t)'), (2, 'std::move(t)')):
                    both('fold%d_%s' % (c, kk), 'long %%s(%sc)' % (P + ', long ' if P else 'long '), mkt + ' static_assert(same<decltype(d::tuple_fold(%s, c, Fo{})), long>); return d::tuple_fold(%s, c, Fo{});' % (e, e), ' '.join('c = arch::step(1, c, %d, a%d);' % (v, i) for i, v in enumerate(ids)) + ' return c;')
                both('foldm_%s' % kk, 'long %%s(%sc)' % (P + ', long ' if P else 'long '), mkt + ' Ac a{c}; Ac const &r = d::tuple_fold(t, std::move(a), Fm{}); return r.v;', ' '.join('c = arch::step(1, c, %d, a%d);' % (v, i) for i, v in enumerate(ids)) + ' return c;')
                both('foldc_%s' % kk, 'long %%s(%sc)' % (P + ', long ' if P else 'long '), mkt + ' long const k = c; auto f = Fo{}; long r = d::tuple_fold(t, k, f); return r ^ (3 * k);', 'long k = c; ' + ' '.join('c = arch::step(1, c, %d, a%d);' % (v, i) for i, v in enumerate(ids)) + ' return c ^ (3 * k);')
            # type level: the types need not be constructible
            tys = ', '.join('T<%d>' % v for v in perm)
            for nm, ty in (('std', 'std::tuple<%s>' % tys), ('slt', 'S<%s>' % tys), ('pair', 'std::pair<%s>' % tys if n == 2 else None)):
                if not ty:
                    continue
                kk = '%s_%s' % (nm, k)
                both('teach_%s' % kk, 'void %s()', 'd::tuple_type_for_each<%s>(Ft{});' % ty, ' '.join('arch::ret(5, %d, 0);' % v for v in perm))
                if n:
                    both('teachr_%s' % kk, 'long %s()', 'return d::tuple_type_for_each<%s>(Fr{});' % ty, ' '.join('%sarch::ret(5, %d, 0);' % ('return ' if i == n - 1 else '', v) for i, v in enumerate(perm)))
                both('tfold_%s' % kk, 'long %s(long c)', 'static_assert(same<decltype(d::tuple_type_fold<%s>(c, Fl{})), long>); return d::tuple_type_fold<%s>(c, Fl{});' % (ty, ty), ' '.join('c = arch::step(%d, c);' % v for v in perm) + ' return c;')
                both('tfoldm_%s' % kk, 'long %s(long c)', 'return d::tuple_type_fold<%s>(Ac{c}, Fla{}).v;' % ty, ' '.join('c = arch::step(%d, c);' % v for v in perm) + ' return c;')
        if not n:
            continue
        # construction: order, category, exceptions; compared with a plain aggregate
        vs = ['V<%d>' % (i + 1) for i in range(n)]
        agg = 'struct R { %s };' % ' '.join('%s m%d;' % (v, i) for i, v in enumerate(vs))
        cats = {'l': ('x%d', ''), 'c': ('std::as_const(x%d)', ''), 'r': ('std::move(x%d)', ''), 'k': ('std::move(std::as_const(x%d))', '')}
        for cc in sorted(set(['l' * n, 'c' * n, 'r' * n, 'k' * n, ('lrck' * 2)[:n], ('krlc' * 2)[:n]])):
            dcl = ' '.join('V<%d>::A x%d{a%d};' % (i + 1, i, i) for i in range(n))
            args = ', '.join(cats[c][0] % i for i, c in enumerate(cc))
            ra = ', '.join('%s(%s)' % (vs[i], cats[c][0] % i) for i, c in enumerate(cc))
            hash_t = ' ^ '.join('%d * t.get<%d>().v' % (3 ** j, j) for j in range(n))
            hash_r = ' ^ '.join('%d * t.m%d.v' % (3 ** j, j) for j in range(n))
            both('ctor_%d_%s' % (n, cc), 'long %%s(%s)' % P, dcl + ' S<%s> t(%s); return %s;' % (', '.join(vs), args, hash_t), agg + dcl + ' R t{%s}; return %s;' % (ra, hash_r))
            both('ind_%d_%s' % (n, cc), 'long %%s(%s)' % P, dcl + ' S<%s> t(d::individual_construct, %s); return %s;' % (', '.join(vs), args, hash_t), agg + dcl + ' R t{%s}; return %s;' % (ra, hash_r))
        dcl = ' '.join('V<%d>::A x%d{a%d};' % (i + 1, i, i) for i in range(n))
        for op, code in (('copyc', 'auto u = t;'), ('movec', 'auto u = std::move(t);'), ('copya', 'auto u = t; u = t;')):
            args = ', '.join('x%d' % i for i in range(n))
            ra = ', '.join('%s(x%d)' % (vs[i], i) for i in range(n))
            if n <= 3:
                both('%s_%d' % (op, n), 'long %%s(%s)' % P, dcl + ' S<%s> t(%s); %s return %s;' % (', '.join(vs), args, code, hash_t.replace('t.', 'u.')), agg + dcl + ' R t{%s}; %s return %s;' % (ra, code, hash_r.replace('t.', 'u.')))
        both('def_%d' % n, 'long %s()', 'S<%s> t; return %s;' % (', '.join(vs), hash_t), agg + ' R t; return %s;' % hash_r)
        us = ['U<%d>' % i for i in range(n - 1)] + ['L<%d>' % (n - 1)]
        agg = 'struct R { %s };' % ' '.join('%s m%d;' % (v, i) for i, v in enumerate(us))
        for c, e in (('l', 'z'), ('c', 'std::as_const(z)'), ('r', 'std::move(z)')):
            both('uni_%d_%s' % (n, c), 'long %s(long a)', 'Z z{a}; S<%s> t{d::uniform_construct, %s}; return %s;' % (', '.join(us), e, hash_t), 'Z z{a}; ' + agg + ' R t{%s}; return %s;' % (', '.join('%s(z)' % u for u in us), hash_r))
        both('uni2_%d' % n, 'long %s(long a, long b)', 'Z z{a}; S<%s> t{d::uniform_construct, std::move(z), b}; return %s;' % (', '.join(us), hash_t), 'Z z{a}; ' + agg + ' R t{%s}; return %s;' % (', '.join('%s(z, b)' % u for u in us), hash_r))
        both('uni0_%d' % n, 'long %s()', 'S<%s> t{d::uniform_construct}; return %s;' % (', '.join(us), hash_t), agg + ' R t{%s}; return %s;' % (', '.join('%s()' % u for u in us), hash_r))
    return W


def check(chk):
    chk.technique = 'type-level and compile-fail witnesses for access, layout and construction; abstract interpretation of the compiler IR of access, construction, comparison and traversal against plain aggregates'
    chk.headers = ['standard_layout_tuple.hpp', 'tuple_algorithm.hpp']
    A = types(chk.thorough)
    wit.asserts(chk, 'tuple', PRE, A)
    wit.asserts(chk, 'tuple-clang', PRE, A, build.CLANG)
    for cc in (None, build.CLANG):
        pre, C = constexprs()
        wit.asserts(chk, 'constexpr' + ('' if cc is None else '-clang'), pre, C, cc)
    wit.reject(chk, 'rejected', PRE, rejections())
    equiv.many(chk, 'tuple', HEAD, events(chk.thorough))
    chk.require('type_level_assertions', chk.counts['type_level_assertions'], 500)
    chk.require('equivalences', chk.counts['equivalences'], 300)
    greedy.check(chk, 'standard_layout_tuple.hpp', greedy.TUPLE)
    return ''
