"""type_list: every operation against list algebra computed here, over all equality patterns of lists up to a length and all
outcomes of predicates on them; for_each and fold are followed in the compiler IR."""
import itertools
import random
import build
import equiv
import wit

PRE = '''#include <dice/template-library/type_list.hpp>
#include <array>
#include <tuple>
#include <utility>
#include <variant>
namespace tl = dice::template_library::type_list;
template<typename ...Ts> using L = tl::type_list<Ts...>;
template<typename A, typename B> inline constexpr bool same = false;
template<typename A> inline constexpr bool same<A, A> = true;
template<int I> struct U;
template<int I> struct E {};
struct Fin final {};
struct Abs { virtual void f() = 0; };
struct Imm { Imm(Imm &&) = delete; ~Imm() = delete; };
template<typename T> inline constexpr int ix = -1;
template<unsigned M> struct P { template<typename T> constexpr bool operator()(std::type_identity<T>) const { return (M >> ix<T>) & 1u; } };
template<unsigned M> struct Pc { template<typename T> constexpr std::bool_constant<((M >> ix<T>) & 1u) != 0> operator()(std::type_identity<T>) const { return {}; } };
struct Tr { template<typename T> constexpr std::type_identity<E<ix<T>>> operator()(std::type_identity<T>) const { return {}; } };
struct Tid { template<typename T> constexpr std::type_identity<T> operator()(std::type_identity<T>) const { return {}; } };
struct Gn { template<std::size_t I> constexpr std::type_identity<E<int(I * 3 + 1)>> operator()(std::integral_constant<std::size_t, I>) const { return {}; } };
template<typename ...Ts> struct Tp;
template<typename TL> inline constexpr bool has_type = requires { typename TL::type; };
template<typename TL> inline constexpr bool has_value = requires { TL::value; };
template<typename T, auto v> inline constexpr bool is_val = T::value == v;
struct oT { using type = E<1>; };
struct oV { static constexpr int value = 5; };
struct oTV { using type = E<2>; static constexpr int value = 6; };
struct oN {};
struct oVoid { using type = void; };
struct oF { static constexpr bool value = false; };
'''
POOLS = [['int', 'int const', 'int &', 'int &&', 'unsigned', 'int const &', 'long'],
         ['void', 'U<0>', 'Abs', 'Fin', 'Imm', 'int()', 'int[]'],
         ['L<>', 'L<int>', 'L<L<>>', 'E<0>', 'E<1>', 'std::type_identity<int>', 'tl::nullopt']]


def patterns(n):
    """restricted growth strings: equality patterns of n elements"""
    def go(p, k):
        if len(p) == n:
            yield tuple(p)
            return
        for i in range(k + 1):
            yield from go(p + [i], max(k, i + 1))
    yield from go([], 0)


def lst(xs):
    return 'L<%s>' % ', '.join(xs)


def items(thorough, pool):
    N = 6 if thorough else 5
    A = []
    T = POOLS[pool]

    def add(e):
        A.append(('%s' % e.split('<')[0].strip('!('), e))

    def same(op, a, b):
        A.append((op, 'same<%s, %s>' % (a, b)))

    def val(op, a, v):
        A.append((op, '%s == %s' % (a, v)))

    pats = [p for n in range(N + 1) for p in patterns(n)]
    rnd = random.Random(7)
    for n in (9, 17, 33):
        pats.append(tuple(rnd.randrange(len(T) - 1) for _ in range(n)))
    for p in pats:
        if p and max(p) >= len(T):
            continue
        xs = [T[i] for i in p]
        l = lst(xs)
        n = len(xs)
        val('size', 'tl::size_v<%s>' % l, n)
        if n:
            same('first', 'tl::first_t<%s>' % l, xs[0])
            same('last', 'tl::last_t<%s>' % l, xs[-1])
        else:
            A.append(('first', '!has_type<tl::first<%s>>' % l))
            A.append(('last', '!has_type<tl::last<%s>>' % l))
        for i in range(n + 2):
            if i < n:
                same('nth', 'tl::nth_t<%s, %d>' % (l, i), xs[i])
            else:
                A.append(('nth', '!has_type<tl::nth<%s, %d>>' % (l, i)))
        A.append(('nth', '!has_type<tl::nth<%s, std::size_t(-1)>>' % l))
        for i in range(n + 1):
            same('drop', 'tl::drop_t<%s, %d>' % (l, i), lst(xs[i:]))
            same('take', 'tl::take_t<%s, %d>' % (l, i), lst(xs[:i]))
            same('concat', 'tl::concat_t<%s, %s>' % (lst(xs[:i]), lst(xs[i:])), l)
            for j in range(i, n + 1) if n <= 4 else ():
                same('concat', 'tl::concat_t<%s, %s, %s>' % (lst(xs[:i]), lst(xs[i:j]), lst(xs[j:])), l)
                same('flatten', 'tl::flatten_t<L<%s, %s, %s>>' % (lst(xs[:i]), lst(xs[i:j]), lst(xs[j:])), l)
        same('concat', 'tl::concat_t<%s>' % l, l)
        same('concat', 'tl::concat_t<%s>' % ', '.join(lst([x]) for x in xs), l)
        same('flatten', 'tl::flatten_t<L<%s>>' % ', '.join(lst([x]) for x in xs), l)
        same('apply', 'tl::apply_t<%s, Tp>' % l, 'Tp<%s>' % ', '.join(xs))
        same('unpack', 'tl::unpack_t<Tp<%s>>' % ', '.join(xs), l)
        same('unpack', 'tl::unpack_t<%s>' % l, l)
        same('transform', 'tl::transform_t<%s, Tr{}>' % l, lst(['E<%d>' % i for i in p]))
        same('transform', 'tl::transform_t<%s, Tid{}>' % l, l)
        u = list(dict.fromkeys(xs))
        same('unique', 'tl::unique_t<%s>' % l, lst(u)) if n < 16 else None
        val('all_distinct', 'tl::all_distinct_v<%s>' % l, 'true' if len(u) == n else 'false') if n < 16 else None
        val('all_same', 'tl::all_same_v<%s>' % l, 'true' if len(u) < 2 else 'false')
        for t in T:
            val('count', 'tl::count_v<%s, %s>' % (l, t), xs.count(t))
            val('contains', 'tl::contains_v<%s, %s>' % (l, t), 'true' if t in xs else 'false')
        k = len(u)
        for m in range(1 << k) if n <= 6 else [0, (1 << k) - 1, 1, 2, 1 << (k - 1), 5, 10]:
            # masks over the distinct types of the list
            on = [bool(m >> u.index(x) & 1) for x in xs]
            mm = sum(1 << T.index(x) for x in u if m >> u.index(x) & 1)
            f = ('P<%du>{}' if (m + n) % 3 else 'Pc<%du>{}') % mm
            same('filter', 'tl::filter_t<%s, %s>' % (l, f), lst([x for x, o in zip(xs, on) if o]))
            val('all_of', 'tl::all_of_v<%s, %s>' % (l, f), 'true' if all(on) else 'false')
            val('any_of', 'tl::any_of_v<%s, %s>' % (l, f), 'true' if any(on) else 'false')
            val('none_of', 'tl::none_of_v<%s, %s>' % (l, f), 'true' if not any(on) else 'false')
            if any(on):
                same('find_if', 'tl::find_if_t<%s, %s>' % (l, f), xs[on.index(True)])
                val('position', 'tl::position_v<%s, %s>' % (l, f), on.index(True))
            else:
                A.append(('find_if', '!has_type<tl::find_if<%s, %s>>' % (l, f)))
                A.append(('position', '!has_value<tl::position<%s, %s>>' % (l, f)))
                same('opt', 'tl::opt_t<tl::find_if<%s, %s>>' % (l, f), 'tl::nullopt')
                A.append(('opt', 'tl::opt_v<tl::position<%s, %s>> == tl::nullopt{}' % (l, f)))
    if pool == 0:
        for n in list(range(9)) + [40]:
            same('generate', 'tl::generate_t<%d, Gn{}>' % n, lst(['E<%d>' % (3 * i + 1) for i in range(n)]))
        for ty, vals in (('int', [3, -1, 3, 0]), ('unsigned char', [255, 0]), ('bool', [1, 0, 1]), ('long', []), ('std::size_t', [0, 1, 2, 3])):
            same('integer_sequence_to_type_list', 'tl::integer_sequence_to_type_list_t<std::integer_sequence<%s>>' % ', '.join([ty] + list(map(str, vals))),
                 lst(['std::integral_constant<%s, %d>' % (ty, v) for v in vals]))
        for n in range(5):
            xs = ['int', 'int &', 'U<0> *', 'int const', 'char &&'][:n]
            same('tuple_to_type_list', 'tl::tuple_to_type_list_t<std::tuple<%s>>' % ', '.join(xs), lst(xs))
            same('tuple_to_type_list', 'tl::tuple_to_type_list_t<std::array<int, %d>>' % n, lst(['int'] * n))
        same('tuple_to_type_list', 'tl::tuple_to_type_list_t<std::pair<int, char &>>', lst(['int', 'char &']))
        same('unpack', 'tl::unpack_t<std::pair<int, char &>>', lst(['int', 'char &']))
        for o, t, v in (('oT', 'E<1>', None), ('oV', None, '5'), ('oTV', 'E<2>', '6'), ('oN', None, None), ('oVoid', 'void', None), ('oF', None, 'false')):
            same('opt', 'tl::opt_t<%s>' % o, t or 'tl::nullopt')
            A.append(('opt', ('tl::opt_v<%s> == %s' % (o, v)) if v else 'same<decltype(tl::opt_v<%s>), tl::nullopt const>' % o))
            A.append(('opt', 'same<std::remove_const_t<decltype(tl::opt_v<%s>)>, %s>' % (o, {None: 'tl::nullopt', 'false': 'bool'}.get(v, 'int'))))
        A.append(('nullopt', '(tl::nullopt{} == tl::nullopt{}) && !(tl::nullopt{} != tl::nullopt{})'))
    return A


EVENTS = '''#include <dice/template-library/type_list.hpp>
namespace tl = dice::template_library::type_list;
template<int> struct E {};
namespace arch {
void on(int);
struct Acc { long v; Acc(Acc const &) = delete; Acc(Acc &&o) : v(o.v) {} Acc &operator=(Acc &&o) { v = o.v; return *this; } explicit Acc(long v) : v(v) {} };
long step(long, int);
}
struct F { template<int I> void operator()(std::type_identity<E<I>>) { arch::on(I); } };
struct G { template<int I> long operator()(long a, std::type_identity<E<I>>) { return arch::step(a, I); }
           template<int I> arch::Acc operator()(arch::Acc &&a, std::type_identity<E<I>>) { return arch::Acc{arch::step(a.v, I)}; } };
#define W extern "C" __attribute__((used))
'''


def events():
    s = EVENTS
    for n in range(6):
        for rep in (0, 1):
            xs = [(3 * i + 1) % 5 if not rep else i // 2 for i in range(n)]
            l = 'tl::type_list<%s>' % ', '.join('E<%d>' % x for x in xs)
            k = '%d_%d' % (n, rep)
            s += 'W void x_each_%s() { tl::for_each<%s>(F{}); }\n' % (k, l)
            s += 'W void r_each_%s() { %s }\n' % (k, ' '.join('arch::on(%d);' % x for x in xs))
            s += 'W void x_eachl_%s() { F f; tl::for_each<%s>(f); }\n' % (k, l)
            s += 'W void r_eachl_%s() { %s }\n' % (k, ' '.join('arch::on(%d);' % x for x in xs))
            s += 'W long x_fold_%s(long a) { return tl::fold<%s>(a, G{}); }\n' % (k, l)
            s += 'W long x_foldm_%s(long a) { return tl::fold<%s>(arch::Acc{a}, G{}).v; }\n' % (k, l)
            for f in ('fold', 'foldm'):
                s += 'W long r_%s_%s(long a) { %s return a; }\n' % (f, k, ' '.join('a = arch::step(a, %d);' % x for x in xs))
    return s


def check(chk):
    chk.technique = 'type-level witnesses over all equality patterns of lists and all predicate outcomes, against list algebra computed independently; abstract interpretation of for_each and fold'
    chk.headers = ['type_list.hpp']
    for pool in range(3):
        T = POOLS[pool]
        pre = PRE + ''.join('template<> inline constexpr int ix<%s> = %d;\n' % (t, i) for i, t in enumerate(T))
        its = items(chk.thorough, pool)
        seen = set()
        for cc in ((None,) if pool else (None, build.CLANG)):
            wit.asserts(chk, 'type_list%s' % ('' if cc is None else '-clang'), pre, its, cc)
        if pool == 0:
            # the branch for compilers without __type_pack_element
            wit.asserts(chk, 'type_list-without-builtin', '#include <dice/template-library/macro_util.hpp>\n#undef DICE_COMPILER_HAS_BUILTIN\n#define DICE_COMPILER_HAS_BUILTIN(x) 0\n' + pre,
                        [i for i in its if i[0] in ('first', 'last', 'nth')])
    equiv.pairs(chk, 'type_list', events())
    chk.require('type_level_assertions', chk.counts['type_level_assertions'], 5000)
    return ''
