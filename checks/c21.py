"""type_traits: qualifier transfer against C++'s own qualifier algebra computed here, for all combinations; predicates; forwarding
casts return the same object, followed in the compiler IR."""
import itertools
import build
import equiv
import wit

PRE = '''#include <dice/template-library/type_traits.hpp>
#include <functional>
#include <utility>
namespace d = dice::template_library;
template<typename A, typename B> inline constexpr bool same = false;
template<typename A> inline constexpr bool same<A, A> = true;
template<int I> struct E {};
struct Abs { virtual void f() = 0; };
struct Inc;
enum class En { a };
struct Fin final {};
struct Empty {};
struct EmptyD : Empty { using type = int; void f(); static int s; };
struct NoDef { NoDef() = delete; NoDef(NoDef const &) = delete; ~NoDef(); };
struct NonEmpty { char c; };
struct Virt { virtual ~Virt(); };
struct Big { alignas(64) char c; };
struct HasRef { int &r; };
struct HasEmpty { Empty e; };
struct BitF { int : 0; };
template<typename T> struct Tmpl {};
struct Priv { private: Priv(); };
auto lam = [] {};
int cap;
struct TwoE : Empty, E<1> {};
struct VB : virtual Empty {};
// overloads by value category of the callee and of the argument, each with its own result type
struct F {
  E<0> operator()(int &) &; E<1> operator()(int const &) &; E<2> operator()(int &&) &; E<3> operator()(int const &&) &;
  E<4> operator()(int &) const &; E<5> operator()(int const &) const &; E<6> operator()(int &&) const &; E<7> operator()(int const &&) const &;
  E<8> operator()(int &) &&; E<9> operator()(int const &) &&; E<10> operator()(int &&) &&; E<11> operator()(int const &&) &&;
  E<12> operator()(int &) const &&; E<13> operator()(int const &) const &&; E<14> operator()(int &&) const &&; E<15> operator()(int const &&) const &&;
};
template<typename R> struct K { R operator()(); R operator()(int, Abs &); };
struct M { int m; long f(int) &; short f2() const &&; void g() noexcept; };
struct OnlyMove { OnlyMove(OnlyMove &&); };
struct Conv { operator int() const; };
'''
BASE = ['int', 'E<0>', 'int *', 'Abs', 'Inc', 'En']
ARR = ['int[3]', 'int[]']
FUN = ['int()', 'void(char) noexcept']
CV = [(0, 0), (1, 0), (0, 1), (1, 1)]


class T:
    """base, const, volatile, reference ('' & &&)"""

    def __init__(self, b, c=0, v=0, r=''):
        self.b, self.c, self.v, self.r = b, c, v, r

    def __str__(self):
        q = ' const' * self.c + ' volatile' * self.v
        if '[' in self.b:
            e, n = self.b.split('[')
            return 'std::type_identity_t<%s%s[%s>%s' % (e, q, n, self.r)
        if '(' in self.b:
            return 'std::type_identity_t<%s>%s' % (self.b, self.r)
        return '%s%s%s' % (self.b, q, ' ' + self.r if self.r else '')

    def cv(self, c, v):
        if self.r or '(' in self.b:  # references and functions have no qualifiers
            return T(self.b, self.c, self.v, self.r)
        return T(self.b, self.c | c, self.v | v, self.r)

    def ref(self, r):
        if not r:
            return T(self.b, self.c, self.v, self.r)
        return T(self.b, self.c, self.v, '&' if '&' in (r, self.r) else '&&')


def all_types(thorough):
    out = [T('void', c, v) for c, v in CV]
    for b in BASE + ARR:
        for c, v in CV:
            for r in ('', '&', '&&'):
                out.append(T(b, c, v, r))
    for b in FUN:
        for r in ('', '&', '&&'):
            out.append(T(b, 0, 0, r))
    return out


def items(thorough):
    A = []
    ts = all_types(thorough)

    def same(op, t, e):
        for f in ('d::%s_t<%s>' % (op, t), 'typename d::%s<%s>::type' % (op, t)):
            A.append((op, 'same<%s, %s>' % (f, e)))

    for f in ts:
        if not thorough and f.b in ('Inc', 'En'):
            continue
        top = ('' if f.r else 'x')
        fc, fv = (f.c, f.v) if top else (0, 0)  # a reference type is itself not qualified
        for t in ts:
            a = '%s, %s' % (f, t)
            same('copy_const', a, t.cv(fc, 0))
            same('copy_volatile', a, t.cv(0, fv))
            same('copy_cv', a, t.cv(fc, fv))
            if 'void' == t.b and f.r:
                continue  # no reference to void
            same('copy_reference', a, t.ref(f.r))
            same('copy_cvref', a, t.cv(f.c, f.v).ref(f.r))
    # zero-sized types
    for t, z in [('void', 0), ('int', 0), ('char', 0), ('bool', 0), ('int *', 0), ('std::nullptr_t', 0), ('En', 0), ('int[3]', 0), ('NonEmpty', 0), ('Virt', 0), ('Big', 0), ('HasRef', 0), ('HasEmpty', 0), ('VB', 0), ('double', 0), ('M', 0),
                 ('Empty', 1), ('EmptyD', 1), ('Fin', 1), ('NoDef', 1), ('TwoE', 1), ('Priv', 1), ('E<0>', 1), ('Tmpl<NonEmpty>', 1), ('decltype(lam)', 1), ('std::less<>', 1), ('std::allocator<int>', 1), ('std::integral_constant<int, 3>', 1), ('BitF', 1), ('F', 1),
                 ('std::type_identity_t<int (*)()>', 0), ('Empty[2]', 0), ('int M::*', 0)]:
        A.append(('is_zst', 'd::is_zst_v<%s> == %s && d::is_zst<%s>::value == %s' % (t, 'true' if z else 'false', t, 'true' if z else 'false')))
        A.append(('is_zst', 'std::is_base_of_v<std::bool_constant<%s>, d::is_zst<%s>>' % ('true' if z else 'false', t)))
        for q in ('const', 'volatile', 'const volatile') if t[-1] not in '])' and t != 'void' and '(*)' not in t else ():
            A.append(('is_zst', 'd::is_zst_v<%s %s> == %s' % (t, q, 'true' if z else 'false')))
    # strict invocability: overload resolution for each category of callee and argument
    cats = [('F &', 0), ('F const &', 1), ('F &&', 2), ('F const &&', 3), ('F', 2), ('F const', 3)]
    args = [('int &', 0), ('int const &', 1), ('int &&', 2), ('int const &&', 3), ('int', 2)]

    def inv(r, f, aa, v):
        a = ', '.join([r, f] + aa)
        A.append(('is_strict_invocable_r', 'd::is_strict_invocable_r_v<%s> == %s && d::is_strict_invocable_r<%s>::value == %s' % (a, v, a, v)))

    for f, fk in cats:
        for a, ak in args:
            for r in range(16):
                inv('E<%d>' % r, f, [a], 'true' if r == 4 * fk + ak else 'false')
            inv('void', f, [a], 'false')
            inv('E<%d> const' % (4 * fk + ak), f, [a], 'false')
            inv('E<%d> &&' % (4 * fk + ak), f, [a], 'false')
        inv('E<0>', f, [], 'false')
        inv('E<0>', f, ['E<1>'], 'false')
        inv('E<%d>' % (4 * fk + 2), f, ['int', 'int'], 'false')
        inv('E<%d>' % (4 * fk + 2), f, ['Conv'], 'true')
    RS = ['int', 'long', 'int &', 'int &&', 'int const &', 'int const &&', 'void', 'E<0>', 'Abs &', 'int *', 'OnlyMove', 'Inc']
    for k in RS:
        for r in RS:
            if k == 'Inc' or r == 'Inc' and k != 'Inc':
                continue
            v = 'true' if k == r else 'false'
            inv(r, 'K<%s>' % k, [], v)
            inv(r, 'K<%s> &' % k, ['int', 'Abs &'], v)
            inv(r, 'K<%s> const' % k, [], 'false')
            inv(r, 'K<%s> const &' % k, [], 'false')
            inv(r, 'K<%s>' % k, ['int'], 'false')
            inv(r, 'K<%s> &' % k, ['int', 'Abs const &'], 'false')
            if k != 'Abs &':
                inv(r, '%s (*)(char)' % k, ['int'], v)
                inv(r, '%s (&)(char)' % k, ['int'], v)
                inv(r, '%s (*)(char)' % k, ['int *'], 'false')
    for f, aa, r in [('int M::*', ['M &'], 'int &'), ('int M::*', ['M const &'], 'int const &'), ('int M::*', ['M'], 'int &&'), ('int M::*', ['M const'], 'int const &&'), ('int M::*', ['M *'], 'int &'), ('int M::*', ['M const *'], 'int const &'),
                     ('int M::*', ['std::reference_wrapper<M>'], 'int &'),
                     ('long (M::*)(int) &', ['M &', 'int'], 'long'), ('long (M::*)(int) &', ['M', 'int'], None), ('long (M::*)(int) &', ['M const &', 'int'], None), ('long (M::*)(int) &', ['M *', 'short'], 'long'),
                     ('short (M::*)() const &&', ['M'], 'short'), ('short (M::*)() const &&', ['M const'], 'short'), ('short (M::*)() const &&', ['M &'], None), ('void (M::*)() noexcept', ['M &'], 'void'), ('void (M::*)() noexcept', ['M const &'], None)]:
        for q in ('int', 'int &', 'int &&', 'int const &', 'int const &&', 'long', 'short', 'void'):
            inv(q, f, aa, 'true' if q == r else 'false')
    for f in ('int', 'void', 'int *', 'E<0>', 'E<0> &'):
        inv('int', f, [], 'false') if f != 'void' else None
    # forward_like: constness and value category of T
    for b in ('int', 'E<0>', 'Abs', 'int[3]', 'int *', 'Inc'):
        for tc, tr in itertools.product((0, 1), ('', '&', '&&')):
            for tb in ('int', 'E<1>', 'Abs'):
                t = T(tb, tc, 0, tr)
                for uc, uv in CV:
                    u = T(b, uc, uv)
                    r = T(b, uc | tc, uv, '&' if tr == '&' else '&&')
                    # from an lvalue; an xvalue argument gives the same
                    for ur in ('&', '&&'):
                        if tb == 'Abs' and not tr:
                            continue
                        A.append(('forward_like', 'same<decltype(d::forward_like<%s>(std::declval<%s>())), %s> && noexcept(d::forward_like<%s>(std::declval<%s>()))' % (t, T(b, uc, uv, ur), r, t, T(b, uc, uv, ur))))
    return A


def moves():
    """DICE_MOVE_IF_VALUE for each kind of name: type here, identity of the object in the IR"""
    head = PRE + '#define W extern "C" __attribute__((used))\nstruct X { int v; X(X const &) = delete; X(X &&); };\nstruct S { int v; int &r; int const &cr; int &&rr; int const &&crr; };\n' \
                 'namespace arch { void on(int); void on(X &&); void take(X *); }\n'
    w = []
    kinds = [('int %s = a;', 'int &&'), ('int &%s = a;', 'int &'), ('int const &%s = a;', 'int const &'), ('int &&%s = std::move(a);', 'int &&'), ('int const &&%s = std::move(a);', 'int const &&'),
             ('int volatile %s = a;', None), ('int *%s = &a;', 'int *&&'), ('int *&&%s = std::move(pa);', 'int *&&'), ('int *const &%s = pa;', 'int *const &')]
    for i, (dcl, t) in enumerate(kinds):
        if not t:
            continue
        w.append('W bool x_move_%d(int a) { int *pa = &a; (void) pa; %s static_assert(same<decltype(DICE_MOVE_IF_VALUE(n)), %s>); auto &&q = DICE_MOVE_IF_VALUE(n); return &q == &n; }\nW bool r_move_%d(int a) { return true; }\n' % (i, dcl % 'n', t, i))
    for m, t in (('v', 'int &&'), ('r', 'int &'), ('cr', 'int const &'), ('rr', 'int &&'), ('crr', 'int const &&')):
        w.append('W bool x_member_%s(int a) { S s{a, a, a, std::move(a), std::move(a)}; static_assert(same<decltype(DICE_MOVE_IF_VALUE(s.%s)), %s>); auto &&q = DICE_MOVE_IF_VALUE(s.%s); return &q == &s.%s; }\nW bool r_member_%s(int a) { return true; }\n' % (m, m, t, m, m, m))
    # as a function parameter of a template: forwards an object of its own, never copies
    w.append('template<typename T> inline bool par(T x, void *p) { auto &&q = DICE_MOVE_IF_VALUE(x); return same<decltype(q), T &&> && (!std::is_reference_v<T> || (void *) &q == p) && (void *) &q == (void *) &x; }\n')
    for i, (t, e) in enumerate([('int &', 'a'), ('int', 'a'), ('int const &', 'a'), ('int &&', 'std::move(a)'), ('int const &&', 'std::move(a)'), ('X &', '*x'), ('X const &', '*x'), ('X &&', 'std::move(*x)'), ('X const &&', 'std::move(*x)')]):
        ptr = '&a' if 'int' in t else 'x'
        w.append('W bool x_param_%d(int a, X *x) { return par<%s>(%s, (void *) %s); }\nW bool r_param_%d(int a, X *x) { return true; }\n' % (i, t, e, ptr, i))
    for i, (t, c, q) in enumerate(itertools.product(('int', 'X', 'Abs', 'int const'), ('', 'const '), ('&', '&&', ''))):
        tt = 'long %s%s' % (c, q)
        cat = 'std::move(*p)' if i % 2 else '*p'
        w.append('W bool x_fl_%d(%s *p) { auto &&q = d::forward_like<%s>(%s); return &q == p; }\nW bool r_fl_%d(%s *p) { return true; }\n' % (i, t, tt, cat, i, t))
    return head, w


def check(chk):
    chk.technique = 'type-level witnesses over all qualifier, reference and category combinations against the qualifier algebra; abstract interpretation of the forwarding casts'
    chk.headers = ['type_traits.hpp']
    A = items(chk.thorough)
    wit.asserts(chk, 'type_traits', PRE, A)
    wit.asserts(chk, 'type_traits-clang', PRE, A, build.CLANG)
    head, w = moves()
    equiv.pairs(chk, 'cast', head + ''.join(w))
    # constant evaluation
    wit.asserts(chk, 'constexpr', PRE + 'constexpr int g = 3; constexpr bool fl() { int x = 1; d::forward_like<int &&>(x); int const &c = d::forward_like<int const &>(x); return &c == &x; }\n'
                'constexpr int mv() { int x = 4; int &&r = DICE_MOVE_IF_VALUE(x); r = 5; return x; }\n',
                [('forward_like', 'd::forward_like<int &>(g) == 3'), ('forward_like', 'fl()'), ('DICE_MOVE_IF_VALUE', 'mv() == 5')])
    chk.require('type_level_assertions', chk.counts['type_level_assertions'], 5000)
    chk.require('equivalences', chk.counts['equivalences'], 25)
    return ''
