"""lazy_conditional / lazy_switch: every condition vector up to a length, unselected providers that cannot be instantiated."""
import itertools
import build
import wit

PRE = '''#include <dice/template-library/lazy_conditional.hpp>
namespace d = dice::template_library;
template<typename A, typename B> inline constexpr bool same = false;
template<typename A> inline constexpr bool same<A, A> = true;
template<int I> struct E {};
template<typename T> inline constexpr bool never = false;
template<typename T> struct G { using type = T; };
template<typename T> struct Gs { static constexpr int other = 1; using type = T; private: Gs(); };
template<typename T> struct Gb : G<T> {};
// providers that must not be touched unless they are selected
template<int I> struct Inc;                                             // incomplete
template<int I> struct Sa { static_assert(never<E<I>>, "instantiated"); using type = E<I>; };   // ill-formed when instantiated
template<int I> struct No { };                                          // no type
template<int I> struct Ty { using type = typename E<I>::nothing; };      // ill-formed member
template<int I> struct Ba : E<I>::nothing { using type = int; };         // ill-formed base
struct Abs { virtual void f() = 0; };
struct Undef;
template<typename T> concept has_type = requires { typename T::type; };
struct CI { static constexpr int condition = 3; using provider = G<int>; };
struct CN { static constexpr bool condition = true; };
struct CP { using provider = G<int>; };
struct CX { struct X {}; static constexpr X condition{}; using provider = G<int>; };
struct CE { struct X { explicit constexpr operator bool() const { return true; } }; static constexpr X condition{}; using provider = G<int>; };
'''
BAD = ['Inc<%d>', 'Sa<%d>', 'No<%d>', 'Ty<%d>', 'Ba<%d>', 'int(%d)', 'int', 'void', 'int &']
TYPES = ['E<1>', 'int const &', 'void', 'Undef', 'Abs', 'int()', 'int[]', 'E<2> &&', 'int volatile']


def bad(k, i):
    b = BAD[k % len(BAD)]
    if b.startswith('int('):
        return 'Sa<%d>' % (100 + i)
    return b % i if '%' in b else b


def items(N):
    A = []
    k = 0
    for c in (0, 1):
        for t in TYPES:
            for j in range(len(BAD)):
                good, no = ('G', 'Gs', 'Gb')[j % 3] + '<%s>' % t, bad(j, k)
                k += 1
                args = '%s, %s' % ((good, no) if c else (no, good))
                A.append(('lazy_conditional', 'same<d::lazy_conditional_t<%s, %s>, %s>' % ('true' if c else 'false', args, t)))
                A.append(('lazy_conditional', 'same<typename d::lazy_conditional<%s, %s>::type, %s>' % ('true' if c else 'false', args, t)))
        # the provider's own nested conditionals stay lazy, too
        A.append(('lazy_conditional/nested', 'same<d::lazy_conditional_t<%s, d::lazy_conditional<%s, G<E<1>>, Sa<%d>>, d::lazy_conditional<%s, G<E<2>>, Sa<%d>>>, E<%d>>' % (
            ('true', 'true', 900, 'false', 901, 1) if c else ('false', 'false', 902, 'true', 903, 2))))
    for n in range(N + 1):
        for conds in itertools.product((0, 1), repeat=n):
            for dflt in (1, 0):
                sel = conds.index(1) if 1 in conds else None
                if sel is None and not dflt:
                    continue
                for rot in range(3 if n else 1):
                    t = TYPES[(k + rot) % len(TYPES)]
                    cs = []
                    for i, c in enumerate(conds):
                        k += 1
                        p = 'G<%s>' % t if i == sel else bad(k + rot, k)
                        cs.append('d::case_<%s, %s>' % ('true' if c else 'false', p))
                    k += 1
                    dp = 'G<%s>' % t if sel is None else bad(k + rot, k)
                    if dflt:
                        a = ', '.join([dp] + cs)
                        A.append(('lazy_switch_default', 'same<d::lazy_switch_default_t<%s>, %s>' % (a, t)))
                        A.append(('lazy_switch_default', 'same<typename d::lazy_switch_default<%s>::type, %s>' % (a, t)))
                    else:
                        a = ', '.join(cs)
                        A.append(('lazy_switch', 'same<d::lazy_switch_t<%s>, %s>' % (a, t)))
                        A.append(('lazy_switch', 'same<typename d::lazy_switch<%s>::type, %s>' % (a, t)))
    # the same well-formed provider in several cases: the first matching one decides
    for n in range(2, 5):
        for conds in itertools.product((0, 1), repeat=n):
            cs = ', '.join('d::case_<%s, G<E<%d>>>' % ('true' if c else 'false', i) for i, c in enumerate(conds))
            r = conds.index(1) if 1 in conds else 99
            A.append(('lazy_switch_default/order', 'same<d::lazy_switch_default_t<G<E<99>>, %s>, E<%d>>' % (cs, r)))
            if r != 99:
                A.append(('lazy_switch/order', 'same<d::lazy_switch_t<%s>, E<%d>>' % (cs, r)))
    for t in TYPES:
        A.append(('type_provider', 'd::type_provider<G<%s>> && d::type_provider<Gs<%s>> && d::type_provider<Gb<%s>>' % (t, t, t)))
    for t in ('int', 'E<1>', 'No<1>', 'void', 'int &', 'Inc<1>', 'int[3]', 'G<int> &', 'G<int> *'):
        A.append(('type_provider', '!d::type_provider<%s>' % t))
    for c in ('true', 'false'):
        for i in range(len(BAD)):
            A.append(('lazy_case', 'd::lazy_case<d::case_<%s, %s>> && d::case_<%s, %s>::condition == %s' % (c, bad(i, 500 + i), c, bad(i, 500 + i), c)))
            A.append(('lazy_case', 'same<d::case_<%s, %s>::provider, %s>' % (c, bad(i, 500 + i), bad(i, 500 + i))))
    A.append(('lazy_case', 'd::lazy_case<CI> && !d::lazy_case<CN> && !d::lazy_case<CP> && !d::lazy_case<CX> && !d::lazy_case<CE> && !d::lazy_case<int>'))
    return A


def check(chk):
    chk.technique = 'type-level witnesses: every condition vector with providers that fail to instantiate in all unselected places; compile-fail witnesses without a match'
    chk.headers = ['lazy_conditional.hpp']
    A = items(6 if chk.thorough else 5)
    wit.asserts(chk, 'lazy', PRE, A)
    wit.asserts(chk, 'lazy-clang', PRE, A, build.CLANG)
    R = []
    for n in range(4):
        cs = ['d::case_<false, G<E<%d>>>' % i for i in range(n)]
        R.append(('lazy_switch/no-match', 'using T = d::lazy_switch_t<%s>; T *p;' % ', '.join(cs), 'using T = d::lazy_switch_t<%s>; T *p;' % ', '.join(cs + ['d::case_<true, G<int>>'])))
        # and the selected provider is really used
    for c, a in (('true', '%s, G<int>'), ('false', 'G<int>, %s')):
        for b in ('Inc<1>', 'Sa<1>', 'No<1>', 'int'):
            R.append(('lazy_conditional/selected', 'using T = d::lazy_conditional_t<%s, %s>; T *p;' % (c, a % b), 'using T = d::lazy_conditional_t<%s, %s>; T *p;' % (c, a % 'G<long>')))
    R.append(('lazy_switch/non-case', 'using T = d::lazy_switch_t<d::case_<true, G<int>>, int>; T *p;', 'using T = d::lazy_switch_t<d::case_<true, G<int>>, d::case_<true, G<int>>>; T *p;'))
    wit.reject(chk, 'rejected', PRE, R)
    chk.require('type_level_assertions', chk.counts['type_level_assertions'], 300)
    return ''
