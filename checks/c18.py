"""integral sequences, integral_template_tuple/variant and the compile time loops against ranges computed here."""
import build
import equiv
import wit

LIM = {'bool': (0, 1), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-32768, 32767), 'unsigned short': (0, 65535), 'int': (-2 ** 31, 2 ** 31 - 1),
       'unsigned': (0, 2 ** 32 - 1), 'long': (-2 ** 63, 2 ** 63 - 1), 'unsigned long': (0, 2 ** 64 - 1), 'char16_t': (0, 65535)}
PRE = '''#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/integral_template_variant.hpp>
#include <dice/template-library/for.hpp>
#include <utility>
#include <variant>
namespace d = dice::template_library;
template<typename A, typename B> inline constexpr bool same = false;
template<typename A> inline constexpr bool same<A, A> = true;
template<typename ...Ts> using L = d::type_list::type_list<Ts...>;
template<typename I> struct X { template<I i> struct T { long v; auto operator<=>(T const &) const = default; }; };
'''


def lit(t, v):
    if t == 'bool':
        return 'true' if v else 'false'
    if v == -2 ** 63:
        return '%s(-9223372036854775807L - 1)' % t.split()[-1] if ' ' not in t else 'static_cast<%s>(-9223372036854775807L - 1)' % t
    return 'static_cast<%s>(%d%s)' % (t, v, 'UL' if v > 2 ** 63 - 1 else 'L')


def rng(a, b):
    return list(range(a, b)) if a <= b else list(range(a, b, -1))


def ranges(t, thorough):
    lo, hi = LIM[t]
    W = 6 if thorough else 4
    pts = sorted({x for x in list(range(-W // 2, W // 2 + 1)) + list(range(lo, lo + 4)) + list(range(hi - 3, hi + 1)) if lo <= x <= hi})
    R = [(a, b) for a in pts for b in pts if abs(a - b) <= 8]
    if 'char' in t and '16' not in t:
        R += [(lo, hi), (hi, lo), (lo, 0), (0, lo), (lo + 28, hi - 27), (hi, hi - 200)]
    return sorted(set(R))


def asserts(thorough):
    A = []
    for t in LIM:
        for a, b in ranges(t, thorough):
            r = rng(a, b)
            la, lb = lit(t, a), lit(t, b)
            vs = ''.join(', ' + lit(t, v) for v in r)
            A.append(('make_integer_sequence', 'same<d::make_integer_sequence<%s, %s, %s>, std::integer_sequence<%s%s>>' % (t, la, lb, t, vs)))
            if len(r) > 10:
                continue
            A.append(('make_integral_constant_list', 'same<d::make_integral_constant_list<%s, %s, %s>, L<%s>>' % (t, la, lb, ', '.join('std::integral_constant<%s, %s>' % (t, lit(t, v)) for v in r))))
            if t == 'unsigned long':
                A.append(('make_index_sequence', 'same<d::make_index_sequence<%s, %s>, std::index_sequence<%s>>' % (la, lb, vs[2:])))
            T = 'X<%s>::T' % t
            el = ['%s<%s>' % (T, lit(t, v)) for v in r]
            tup = 'd::integral_template_tuple<%s, %s, %s>' % (la, lb, T)
            var = 'd::integral_template_variant<%s, %s, %s>' % (la, lb, T)
            A.append(('tuple/size', 'std::tuple_size_v<d::standard_layout_tuple<%s>> == %d && std::is_base_of_v<d::standard_layout_tuple<%s>, %s>' % (', '.join(el), len(el), ', '.join(el), tup)))
            A.append(('tuple/index_type', 'same<%s::index_type, %s>' % (tup, t)))
            A.append(('variant/alternatives', 'same<%s::underlying_type, std::variant<%s>>' % (var, ', '.join(el) or 'std::monostate')))
            A.append(('variant/index_type', 'same<%s::index_type, %s>' % (var, t)))
            for v in r:
                e = '%s<%s>' % (T, lit(t, v))
                A.append(('tuple/value_type', 'same<%s::value_type<%s>, %s>' % (tup, lit(t, v), e)))
                A.append(('variant/value_type', 'same<%s::value_type<%s>, %s>' % (var, lit(t, v), e)))
                for c in ('%s &', '%s const &', '%s &&', '%s const &&'):
                    for what, w in (('tuple', tup), ('variant', var)):
                        A.append((what + '/get', 'same<decltype(std::declval<%s>().template get<%s>()), %s>' % (c % w, lit(t, v), c % e)))
    return A


def rejections():
    R = []
    tmpl = '''#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/integral_template_variant.hpp>
namespace d = dice::template_library;
template<int> struct E { long v; auto operator<=>(E const &) const = default; };
'''
    for a, b in ((0, 3), (3, 0), (-2, 1), (-1, -3)):
        step = 1 if a < b else -1
        inside = a
        for out in (b, a - step, b + step):
            for n, code in (('tuple-get', 'auto f(d::integral_template_tuple<%d, %d, E> &t) { return t.get<IX>().v; }'),
                            ('variant-get', 'auto f(d::integral_template_variant<%d, %d, E> &t) { return t.get<IX>().v; }'),
                            ('variant-emplace', 'void f(d::integral_template_variant<%d, %d, E> &t) { t.emplace<IX>(); }'),
                            ('variant-holds', 'bool f(d::integral_template_variant<%d, %d, E> &t) { return t.holds_alternative<IX>(); }'),
                            ('variant-construct', 'd::integral_template_variant<%d, %d, E> f(E<IX> const &t) { return t; }'),
                            ('variant-construct-move', 'd::integral_template_variant<%d, %d, E> f(E<IX> &&t) { return std::move(t); }'),
                            ('subtuple-to', 'auto &f(d::integral_template_tuple<%d, %d, E> &t) { return t.subtuple<A0, IX>(); }'.replace('A0', str(inside))),
                            ('subtuple-from', 'auto &f(d::integral_template_tuple<%d, %d, E> &t) { return t.subtuple<IX, B0>(); }'.replace('B0', str(b)))):
                bad, good = out, inside
                if n == 'subtuple-to':
                    good = inside + step
                    if out == b or out == a - step and False:
                        continue  # the end of the range is a valid end of a subtuple
                if n == 'subtuple-from' and out == b:
                    continue
                c = code % (a, b)
                R.append(('%s/%d..%d/%d' % (n, a, b, out), c.replace('IX', str(bad)), c.replace('IX', str(good))))
    return tmpl, R


def events():
    s = PRE + '''#define W extern "C" __attribute__((used))
namespace arch {
void on(bool); void on(signed char); void on(unsigned char); void on(short); void on(unsigned short); void on(int); void on(unsigned); void on(long); void on(unsigned long); void on(char16_t);
void at(int, long) noexcept; long pure(int, long) noexcept; void ty(int); bool eq(int, long, long) noexcept; signed char cmp(int, long, long) noexcept;
}
template<int I> struct Ty {};
template<int I> struct E { long v; auto operator<=>(E const &) const = default; };
template<int I> struct Q { long v; bool operator==(Q const &o) const noexcept { return arch::eq(I, v, o.v); }
  std::strong_ordering operator<=>(Q const &o) const noexcept { auto c = arch::cmp(I, v, o.v); return c < 0 ? std::strong_ordering::less : c > 0 ? std::strong_ordering::greater : std::strong_ordering::equal; } };
struct On { template<typename C> void operator()(C) { arch::on(static_cast<typename C::value_type>(C::value)); } };
struct OnT { template<typename T> void operator()(); };
template<> void OnT::operator()<Ty<0>>() { arch::ty(0); }
template<> void OnT::operator()<Ty<1>>() { arch::ty(1); }
template<> void OnT::operator()<Ty<2>>() { arch::ty(2); }
template<> void OnT::operator()<Ty<3>>() { arch::ty(3); }
struct At { template<int I> void operator()(E<I> &e) { arch::at(I, e.v); } template<int I> void operator()(E<I> const &e) { arch::at(1000 + I, e.v); } template<int I> void operator()(E<I> &&e) { arch::at(I, e.v); } };
struct Pu { template<int I> long operator()(E<I> &e) { return arch::pure(I, e.v); } };
struct Vi { template<int I> long operator()(E<I> &e) { return arch::pure(I, e.v); } template<int I> long operator()(E<I> const &e) { return arch::pure(100 + I, e.v); }
            template<int I> long operator()(E<I> &&e) { return arch::pure(200 + I, e.v); } template<int I> long operator()(E<I> const &&e) { return arch::pure(300 + I, e.v); } long operator()(std::monostate) { return 0; } };
'''
    W = []

    def both(n, sig, x, r):
        W.append('W %s { %s }\nW %s { %s }\n' % (sig % ('x_' + n), x, sig % ('r_' + n), r))

    for i, ts in enumerate(((), (0,), (3, 1), (2, 2, 0), (1, 0, 3, 2))):
        tl = ', '.join('Ty<%d>' % t for t in ts)
        if ts:
            both('types_%d' % i, 'void %s()', 'd::for_types<%s>(OnT{});' % tl, ' '.join('arch::ty(%d);' % t for t in ts))
        both('typesl_%d' % i, 'void %s()', 'OnT f; d::for_types<%s>(f);' % tl, ' '.join('arch::ty(%d);' % t for t in ts))
    for i, vs in enumerate(((), (('int', 3),), (('int', -1), ('unsigned char', 255), ('int', -1)), (('long', 2 ** 40), ('bool', 1), ('char16_t', 9), ('short', -2), ('unsigned long', 2 ** 64 - 1)))):
        for f, a in (('', 'On{}'), ('l', 'f')):
            both('values%s_%d' % (f, i), 'void %s()', ('On f; ' if f else '') + 'd::for_values<%s>(%s);' % (', '.join(lit(*v) for v in vs), a),
                 ' '.join('arch::on(%s);' % lit(*v) for v in vs))
    k = 0
    for t in LIM:
        for a, b in ranges(t, False):
            r = rng(a, b)
            if len(r) > 5 and len(r) != 255 or len(r) == 255 and a > 0:
                continue
            k += 1
            both('range_%d' % k, 'void %s()', 'd::for_range<%s, %s>(On{});' % (lit(t, a), lit(t, b)), ' '.join('arch::on(%s);' % lit(t, v) for v in r))
    for k, (a, b) in enumerate(((0, 3), (2, -1), (-4, -1), (5, 6), (1, 1), (0, -4))):
        r = rng(a, b)
        n = len(r)
        P = ', '.join('long a%d' % i for i in range(n))
        tup = 'd::integral_template_tuple<%d, %d, E>' % (a, b)
        tq = 'd::integral_template_tuple<%d, %d, Q>' % (a, b)
        mk = '%s t{%s};' % (tup, ', '.join(['d::individual_construct'] * (n < 2) + ['E<%d>{a%d}' % (v, i) for i, v in enumerate(r)]))
        for i, v in enumerate(r):
            both('tget_%d_%d' % (k, i), 'long %s(' + P + ')', mk + ' return t.get<%d>().v;' % v, 'return a%d;' % i)
            both('tset_%d_%d' % (k, i), 'long %s(' + P + ', long n)', mk + ' t.get<%d>().v = n; return %s;' % (v, ' ^ '.join('%d * t.get<%d>().v' % (3 ** j, w) for j, w in enumerate(r))),
                 'return %s;' % ' ^ '.join('%d * %s' % (3 ** j, 'n' if i == j else 'a%d' % j) for j in range(n)))
        both('any_tvisit_%d' % k, 'void %s(' + P + ')', mk + ' t.visit(At{});', ' '.join('arch::at(%d, a%d);' % (v, i) for i, v in enumerate(r)))
        both('any_tvisitc_%d' % k, 'void %s(' + P + ')', mk + ' std::as_const(t).visit(At{});', ' '.join('arch::at(%d, a%d);' % (1000 + v, i) for i, v in enumerate(r)))
        both('any_tvisitr_%d' % k, 'void %s(' + P + ')', mk + ' std::move(t).visit(At{});', ' '.join('arch::at(%d, a%d);' % (v, i) for i, v in enumerate(r)))
        if n:
            both('any_tvisitv_%d' % k, 'long %s(' + P + ')', mk + ' return t.visit(Pu{});', 'long r = 0; ' + ' '.join('r = arch::pure(%d, a%d);' % (v, i) for i, v in enumerate(r)) + ' return r;')
            Pq = P + ', ' + P.replace('a', 'b')
            mq = ' '.join('%s t%s{%s};' % (tq, x, ', '.join(['d::individual_construct'] * (n < 2) + ['Q<%d>{%s%d}' % (v, x, i) for i, v in enumerate(r)])) for x in 'ab')
            both('teq_%d' % k, 'bool %s(' + Pq + ')', mq + ' return ta == tb;', 'return ' + ' && '.join('arch::eq(%d, a%d, b%d)' % (v, i, i) for i, v in enumerate(r)) + ';')
            both('tcmp_%d' % k, 'int %s(' + Pq + ')', mq + ' auto c = ta <=> tb; return c < 0 ? -1 : c > 0 ? 1 : 0;',
                 ' '.join('if (auto c = arch::cmp(%d, a%d, b%d); c != 0) return c < 0 ? -1 : 1;' % (v, i, i) for i, v in enumerate(r)) + ' return 0;')
        for i in range(n):
            for j in range(i + 1, n + 1):
                bb = r[j] if j < n else b
                sub = ' auto &s = t.subtuple<%d, %d>(); static_assert(same<decltype(s), d::integral_template_tuple<%d, %d, E> &>); return %s;' % (
                    r[i], bb, r[i], bb, ' ^ '.join('%d * s.get<%d>().v' % (3 ** m, r[m]) for m in range(i, j)))
                both('tsub_%d_%d_%d' % (k, i, j), 'long %s(' + P + ')', mk + sub, 'return %s;' % ' ^ '.join('%d * a%d' % (3 ** m, m) for m in range(i, j)))
        # variant
        var = 'd::integral_template_variant<%d, %d, E>' % (a, b)
        if not n:
            both('vempty_%d' % k, 'bool %s()', '%s v; return v.template holds_alternative<std::monostate>() && v.to_underlying().index() == 0;' % var, 'return true;')
            continue
        both('vdef_%d' % k, 'int %s()', '%s v; return v.index();' % var, 'return %d;' % a)
        for i, v in enumerate(r):
            for m, how in enumerate(('%s v{E<%d>{x}};' % (var, v), '%s v; v.emplace<%d>(x);' % (var, v), '%s v{E<%d>{-1}}; v.emplace<%d>(E<%d>{x});' % (var, r[-1], v, v),
                                     '%s v{std::in_place_type<E<%d>>, x};' % (var, v), 'E<%d> e{x}; %s v(e);' % (v, var), '%s u{E<%d>{x}}; %s v; v = u;' % (var, v, var),
                                     '%s u{E<%d>{x}}; %s v(std::move(u));' % (var, v, var), '%s u{E<%d>{x}}; %s v(u); u.emplace<%d>(5);' % (var, v, var, v))):
                N = '%d_%d_%d' % (k, i, m)
                both('vindex_' + N, 'int %s(long x)', how + ' return v.index();', 'return %d;' % v)
                both('vvisit_' + N, 'long %s(long x)', how + ' return v.visit(Vi{});', 'return arch::pure(%d, x);' % v)
                for w in r:
                    both('vget_%s_%d' % (N, w + 50), 'long %s(long x)', how + ' return v.get<%d>().v;' % w, 'return x;' if v == w else 'throw std::bad_variant_access{};')
                    both('vholds_%s_%d' % (N, w + 50), 'int %s(long x)', how + ' return v.holds_alternative<%d>() + 2 * v.holds_alternative<E<%d>>();' % (w, w), 'return %d;' % (3 * (v == w)))
                if m:
                    continue
                both('vund_' + N, 'long %s(long x)', how + ' return static_cast<long>(v.to_underlying().index());', 'return %d;' % i)
                both('vvisitc_' + N, 'long %s(long x)', how + ' return std::as_const(v).visit(Vi{});', 'return arch::pure(%d, x);' % (100 + v))
                both('vvisitr_' + N, 'long %s(long x)', how + ' return std::move(v).visit(Vi{});', 'return arch::pure(%d, x);' % (200 + v))
                both('vvisitk_' + N, 'long %s(long x)', how + ' return std::move(std::as_const(v)).visit(Vi{});', 'return arch::pure(%d, x);' % (300 + v))
                both('vemplr_' + N, 'bool %s(long x)', '%s v; auto &q = v.emplace<%d>(x); return &q == &v.get<%d>() && q.v == x;' % (var, v, v), 'return true;')
                for j, w in enumerate(r):
                    vq = 'd::integral_template_variant<%d, %d, Q>' % (a, b)
                    mq = '%s u{Q<%d>{x}}, v{Q<%d>{y}};' % (vq, v, w)
                    both('veq_%s_%d' % (N, j), 'bool %s(long x, long y)', mq + ' return u == v;', 'return arch::eq(%d, x, y);' % v if i == j else 'return false;')
                    both('vcmp_%s_%d' % (N, j), 'int %s(long x, long y)', mq + ' auto c = u <=> v; return c < 0 ? -1 : c > 0 ? 1 : 0;',
                         'auto c = arch::cmp(%d, x, y); return c < 0 ? -1 : c > 0 ? 1 : 0;' % v if i == j else 'return %d;' % (-1 if i < j else 1))
    return s, W


def check(chk):
    chk.technique = 'type-level witnesses for every range of a window and at the limits of each integral type; compile-fail witnesses for indices outside the range; ' \
                    'equivalence of loops, access, visitation and comparison with references by abstract interpretation of the compiler IR'
    chk.headers = ['integral_template_tuple.hpp', 'integral_template_variant.hpp', 'integral_sequence.hpp', 'for.hpp']
    A = asserts(chk.thorough)
    wit.asserts(chk, 'integral', PRE, A)
    wit.asserts(chk, 'integral-clang', PRE, A[::1 if chk.thorough else 3], build.CLANG)
    pre, R = rejections()
    wit.reject(chk, 'out-of-range', pre, R)
    head, W = events()
    equiv.many(chk, 'integral', head, W)
    chk.require('type_level_assertions', chk.counts['type_level_assertions'], 3000)
    chk.require('equivalences', chk.counts['equivalences'], 300)
    return ''
