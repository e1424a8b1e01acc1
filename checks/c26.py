"""range algorithms: every outcome of the element comparisons (equivalence relations, weak orders, three-way results, predicates) on
ranges of up to four elements, over random access, copyable and move-only single pass iterators."""
import itertools
import os
import build
import greedy
import equiv
import par
import wit
from c25 import orders
from dom import *
from engine import State

PRE = '''#include <dice/template-library/ranges.hpp>
#include <array>
#include <compare>
#include <cstddef>
#include <iterator>
#include <span>
#include <vector>
namespace d = dice::template_library;
namespace arch { bool eq(int, int); bool lt(int, int); int cmp(int, int); bool pred(int); void bad(int); void out(int); }
template<int K> struct Elem {
    int id;
    explicit Elem(int i) : id{i} {}
    Elem(Elem const &o) : id{o.id} {}
    Elem &operator=(Elem const &o) { id = o.id; return *this; }
    bool operator==(Elem const &o) const requires (K != 1) { return arch::eq(id, o.id); }
    bool operator<(Elem const &o) const requires (K != 2) { return arch::lt(id, o.id); }
    bool operator>(Elem const &o) const requires (K != 2) { return arch::lt(o.id, id); }
    bool operator<=(Elem const &o) const requires (K != 2) { return !arch::lt(o.id, id); }
    bool operator>=(Elem const &o) const requires (K != 2) { return !arch::lt(id, o.id); }
    std::weak_ordering spaceship(Elem const &o) const { int c = arch::cmp(id, o.id); return c < 0 ? std::weak_ordering::less : c > 0 ? std::weak_ordering::greater : std::weak_ordering::equivalent; }
};
using E = Elem<0>; // ordered and hashable
using L = Elem<1>; // ordered only
using H = Elem<2>; // hashable only
struct U { int id; explicit U(int i) : id{i} {} U(U const &o) : id{o.id} {} U &operator=(U const &o) { id = o.id; return *this; } }; // no comparison
struct F : U { using U::U; };
template<> struct std::hash<E> { size_t operator()(E const &) const { return 0; } };
template<> struct std::hash<H> { size_t operator()(H const &) const { return 0; } };
struct Three { int id; explicit Three(int i) : id{i} {} Three(Three const &o) : id{o.id} {} bool operator==(Three const &o) const { return arch::cmp(id, o.id) == 0; }
    std::weak_ordering operator<=>(Three const &o) const { int c = arch::cmp(id, o.id); return c < 0 ? std::weak_ordering::less : c > 0 ? std::weak_ordering::greater : std::weak_ordering::equivalent; } };
struct Eq { template<typename A, typename B> bool operator()(A const &a, B const &b) const { return arch::eq(a.id, b.id); } };
struct EqS { int state; explicit EqS(int s) : state{s} {} template<typename A, typename B> bool operator()(A const &a, B const &b) const { return arch::eq(a.id, b.id) == (state == 7); } };
struct Lt { template<typename A, typename B> bool operator()(A const &a, B const &b) const { return arch::lt(a.id, b.id); } };
struct Gt { template<typename A, typename B> bool operator()(A const &a, B const &b) const { return arch::lt(b.id, a.id); } };
struct LtS { int state; explicit LtS(int s) : state{s} {} template<typename A, typename B> bool operator()(A const &a, B const &b) const { return arch::lt(a.id, b.id) == (state == 7); } };
struct LtI { bool operator()(int a, int b) const { return arch::lt(a, b); } };
struct Id { template<typename A> int operator()(A const &a) const { return a.id; } };
struct IdS { int state; explicit IdS(int s) : state{s} {} int operator()(E const &a) const { return state == 5 ? a.id : -3; } };
struct IdF { int state; explicit IdF(int s) : state{s} {} int operator()(F const &a) const { return state == 6 ? a.id : -4; } };
struct PrS { int state; explicit PrS(int s) : state{s} {} template<typename A> bool operator()(A const &a) const { return arch::pred(a.id) == (state == 7); } };
struct Pr { template<typename A> bool operator()(A const &a) const { return arch::pred(a.id); } };
struct CmpW { template<typename A, typename B> std::weak_ordering operator()(A const &a, B const &b) const { int c = arch::cmp(a.id, b.id); return c < 0 ? std::weak_ordering::less : c > 0 ? std::weak_ordering::greater : std::weak_ordering::equivalent; } };
struct CmpP { template<typename A, typename B> std::partial_ordering operator()(A const &a, B const &b) const { int c = arch::cmp(a.id, b.id); return c < 0 ? std::partial_ordering::less : c > 1 ? std::partial_ordering::unordered : c > 0 ? std::partial_ordering::greater : std::partial_ordering::equivalent; } };
struct CmpI { int state; explicit CmpI(int s) : state{s} {} std::strong_ordering operator()(int a, int b) const { int c = arch::cmp(a, b); return (c < 0) != (state != 7) && c ? std::strong_ordering::less : c ? std::strong_ordering::greater : std::strong_ordering::equal; } };
struct CmpS { std::strong_ordering operator()(int a, int b) const { int c = arch::cmp(a, b); return c < 0 ? std::strong_ordering::less : c > 0 ? std::strong_ordering::greater : std::strong_ordering::equal; } };
template<typename O> int code(O o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
// a source that can be read once: the buffer is overwritten when the iterator moves on
template<typename T> struct Src { T const *p; T const *e; T buf; Src(T const *p, T const *e) : p{p}, e{e}, buf{p == e ? T{-1} : *p} {}
    void next() { if (p == e) { arch::bad(1); } ++p; if (p == e) buf = T{-1}; else buf = *p; } };
template<typename T, bool copyable, bool value> struct In {
    using value_type = T; using difference_type = std::ptrdiff_t;
    Src<T> *s;
    explicit In(Src<T> &x) : s{&x} {}
    In(In &&o) : s{o.s} { o.s = nullptr; }
    In &operator=(In &&o) { s = o.s; o.s = nullptr; return *this; }
    In(In const &) requires copyable = default; In &operator=(In const &) requires copyable = default;
    std::conditional_t<value, T, T const &> operator*() const { if (s->p == s->e) arch::bad(0); return s->buf; }
    In &operator++() { s->next(); return *this; }
    void operator++(int) { ++*this; }
    friend bool operator==(In const &a, std::default_sentinel_t) { return a.s->p == a.s->e; }
};
template<typename T, bool c, bool v> struct Rg { Src<T> *s; In<T, c, v> begin() const { return In<T, c, v>{*s}; } std::default_sentinel_t end() const { return {}; } };
template<typename T, bool c, bool v> inline constexpr bool std::ranges::enable_view<Rg<T, c, v>> = true;
// a forward iterator that may only be compared with and dereferenced inside its range
template<typename T> struct Fw {
    using value_type = T; using difference_type = std::ptrdiff_t;
    T const *p = nullptr; T const *e = nullptr;
    T const &operator*() const { if (p == e) arch::bad(0); return *p; }
    Fw &operator++() { if (p == e) arch::bad(1); ++p; return *this; }
    Fw operator++(int) { Fw o = *this; ++*this; return o; }
    friend bool operator==(Fw const &a, Fw const &b) { return a.p == b.p; }
};
#define SIG(n) extern "C" __attribute__((used)) int n(int a, int b, int c, int e)
'''


def kinds(t, n, pre='x', names='abce'):
    """(declaration, range expression, first, last)"""
    els = ', '.join('%s{%s}' % (t, v) for v in names[:n])
    A = '%s const %sa[%d] = {%s}; ' % (t, pre, n, els) if n else '%s const %sa[1] = {%s{-2}}; ' % (t, pre, t)
    out = [('span', A, 'std::span<%s const>{%sa, %d}' % (t, pre, n), '(%s const *) %sa' % (t, pre), '%sa + %d' % (pre, n)),
           ('forward', A, 'std::ranges::subrange(Fw<%s>{%sa, %sa + %d}, Fw<%s>{%sa + %d, %sa + %d})' % (t, pre, pre, n, t, pre, n, pre, n), 'Fw<%s>{%sa, %sa + %d}' % (t, pre, pre, n), 'Fw<%s>{%sa + %d, %sa + %d}' % (t, pre, n, pre, n))]
    for nm, c, v in (('single-pass', 1, 0), ('move-only', 0, 0), ('values', 0, 1)):
        S = A + 'Src<%s> %ss{%sa, %sa + %d}; ' % (t, pre, pre, pre, n)
        out.append((nm, S, 'Rg<%s, %d, %d>{&%ss}' % (t, c, v, pre), 'In<%s, %d, %d>{%ss}' % (t, c, v, pre), 'std::default_sentinel'))
    return out


def forms():
    out = []

    def add(alg, mode, n, code, m=0):
        out.append(('w%d' % len(out), alg, mode, n, m, code))

    def three(alg, mode, f, n, K, arg, rng=True, t=''):
        nm, decl, r, b, e = K
        c = ', ' + arg if arg else ''
        add(alg, mode, n, decl + 'return d::%s(%s%s);' % (f, r, c))
        add(alg, mode, n, decl + 'return d::%s(%s, %s%s);' % (f, b, e, c))
        add(alg, mode, n, decl + 'return %s | d::%s(%s);' % (r, f, arg))

    for n in range(5):
        for K in kinds('E', n):
            three('all_equal', 'eq', 'all_equal', n, K, '')
            for arg in ('', 'Eq{}', 'EqS{7}'):
                three('all_distinct', 'eq', 'all_distinct', n, K, arg)
            for arg in ('', 'Lt{}', 'LtI{}, Id{}', 'LtI{}, IdS{5}'):
                three('is_sorted_unique', 'lt', 'is_sorted_unique', n, K, arg)
            three('is_sorted_unique', 'gt', 'is_sorted_unique', n, K, 'Gt{}')
            for f in ('all_of', 'any_of', 'none_of'):
                for arg in ('Pr{}', 'PrS{7}'):
                    three(f, 'pred', f, n, K, arg)
            if K[0] in ('span', 'forward'):
                for f in ('empty', 'non_empty'):
                    add(f, 'none', n, K[1] + 'return d::%s(%s);' % (f, K[2]))
                    add(f, 'none', n, K[1] + 'return d::%s(%s, %s);' % (f, K[3], K[4]))
                    add(f, 'none', n, K[1] + 'return %s | d::%s;' % (K[2], f))
            if K[0] != 'move-only' and K[0] != 'values':
                for arg, x in (('E{a}', 0), ('E{a}, Eq{}', 0), ('E{c}', 2), ('E{c}, EqS{7}', 2), ('E{99}', None), ('U{a}, Eq{}', 0), ('U{a}, EqS{7}', 0)):
                    if arg[0] == 'U':
                        K = [k for k in kinds('U', n) if k[0] == K[0]][0]
                    if n > 2 or x != 2:
                        add('remove_element', ('eq', x), n, K[1] + 'auto v = %s | d::remove_element(%s); for (auto const &y : v) arch::out(y.id); return 0;' % (K[2], arg))
        for K in kinds('U', n):
            for arg in ('Eq{}', 'EqS{7}'):
                three('all_equal', 'eq', 'all_equal', n, K, arg)
            for arg in ('Lt{}', 'LtS{7}', 'LtI{}, Id{}'):
                three('is_sorted_unique', 'lt', 'is_sorted_unique', n, K, arg)
        for t, mode in (('E', 'eq'), ('L', 'lt'), ('H', 'eq')):
            for K in kinds(t, n):
                three('all_distinct', mode, 'all_distinct', n, K, '')
                if K[0] != 'move-only' and K[0] != 'values' and K[0] != 'single-pass':
                    add('unique', mode, n, K[1] + 'auto v = %s | d::unique; for (auto const &y : v) arch::out(y.id); return 0;' % K[2])
                    add('unique', mode, n, K[1] + 'auto v = d::unique(%s); for (auto i = v.begin(); i != v.end(); ++i) arch::out((*i).id); return 0;' % K[2])
                if K[0] == 'single-pass':
                    add('unique', mode, n, K[1] + 'auto v = %s | d::unique; for (auto const &y : v) arch::out(y.id); return 0;' % K[2])
    for n in range(3):
        for m in range(3):
            for i, K in enumerate(kinds('E', n, 'x', 'ab')):
                J = kinds('E', m, 'y', 'ce')[i if n != m else (i + 1) % 5]
                for arg, mode in (('CmpW{}', 'cmp3'), ('CmpP{}', 'cmp4'), ('CmpS{}, Id{}, Id{}', 'cmp3')):
                    add('lexicographical_compare_three_way', mode, n, K[1] + J[1] + 'return code(d::lexicographical_compare_three_way(%s, %s, %s));' % (K[2], J[2], arg), m)
                    add('lexicographical_compare_three_way', mode, n, K[1] + J[1] + 'return code(d::lexicographical_compare_three_way(%s, %s, %s, %s, %s));' % (K[3], K[4], J[3], J[4], arg), m)
                J = kinds('F', m, 'y', 'ce')[i if n != m else (i + 1) % 5]
                add('lexicographical_compare_three_way', 'cmp3', n, K[1] + J[1] + 'return code(d::lexicographical_compare_three_way(%s, %s, CmpI{7}, IdS{5}, IdF{6}));' % (K[2], J[2]), m)
                add('lexicographical_compare_three_way', 'cmp3', n, K[1] + J[1] + 'return code(d::lexicographical_compare_three_way(%s, %s, %s, %s, CmpI{7}, IdS{5}, IdF{6}));' % (K[3], K[4], J[3], J[4]), m)
            K, J = kinds('Three', n, 'x', 'ab')[0], kinds('Three', m, 'y', 'ce')[0]
            add('lexicographical_compare_three_way', 'cmp3', n, K[1] + J[1] + 'return code(d::lexicographical_compare_three_way(%s, %s));' % (K[2], J[2]), m)
    return out


def partitions(n):
    """equivalence relations as class vectors"""
    out = []

    def rec(v):
        if len(v) == n:
            out.append(tuple(v))
            return
        for c in range(max(v, default=-1) + 2):
            rec(v + [c])
    rec([])
    return out


VALS = [('s', ('v', i), 32) for i in range(4)]


def scenarios(form):
    """(answers, expected result, expected output)"""
    name, alg, mode, n, m, code = form
    m0 = mode[0] if type(mode) is tuple else mode
    if m0 == 'none':
        yield None, int((n == 0) == (alg == 'empty')), ()
    elif m0 == 'pred':
        for p in itertools.product((0, 1), repeat=n):
            yield p, {'all_of': all(p), 'any_of': any(p), 'none_of': not any(p)}[alg], ()
    elif m0 in ('eq', 'lt', 'gt'):
        x = mode[1] if type(mode) is tuple else None
        k = max(n, 1 if x == 0 else 0)
        for r in (partitions(k) if m0 == 'eq' else orders(k)) or [()]:
            c = r[:n]
            first = tuple(i for i in range(n) if c[i] not in c[:i])
            if alg == 'all_equal':
                yield r, len(set(c)) <= 1, ()
            elif alg == 'all_distinct':
                yield r, len(set(c)) == n, ()
            elif alg == 'unique':
                yield r, 0, first
            elif alg == 'remove_element':
                yield r, 0, tuple(i for i in range(n) if x is None or c[i] != r[x])
            else:
                yield r, all((c[i] < c[i + 1]) if m0 == 'lt' else (c[i] > c[i + 1]) for i in range(n - 1)), ()
    else:
        for r in itertools.product((-1, 0, 1) if m0 == 'cmp3' else (-1, 0, 1, 2), repeat=min(n, m)):
            want = next((x for x in r if x), (n > m) - (n < m))
            yield r, want, ()


def one(chk, mod, form):
    name, alg, mode, n, m, code = form
    lex = alg.startswith('lexi')
    m0 = mode[0] if type(mode) is tuple else mode
    for ans, want, outw in scenarios(form):
        bad = []

        def idx(eng, st, x):
            x = eng.norm(st, x)
            if x in VALS:
                i = VALS.index(x)
                if i < len(ans or ()) or lex:
                    return i
            return x if m0 == 'eq' and x == 99 else None

        def binary(kind):
            def f(eng, st, I, args, fn):
                i, j = idx(eng, st, args[0]), idx(eng, st, args[1])
                if i is None or j is None:
                    bad.append('compares something that is not an element of the range')
                    return []
                if kind == 'cmp':
                    if i > 1 or j < 2:
                        if i < 2 or j > 1:
                            bad.append('compares elements of the same range')
                            return []
                        r = ans[j] if j == i - 2 else None
                        r = -r if r in (-1, 1) else r
                    else:
                        r = ans[i] if i == j - 2 else None
                    if r is None:
                        bad.append('compares elements at different positions')
                        return []
                    return [('ret', r & 0xffffffff, st)]
                if 99 in (i, j):
                    r = i == j
                elif kind == 'eq':
                    r = ans[i] == ans[j]
                else:
                    r = ans[i] < ans[j]
                return [('ret', int(r), st)]
            return f

        def unary(eng, st, I, args, fn):
            i = idx(eng, st, args[0])
            if i is None:
                bad.append('applies the predicate to something that is not an element of the range')
                return []
            return [('ret', int(ans[i]), st)]

        def misuse(eng, st, I, args, fn):
            bad.append('%s an iterator at the end of the range' % ('dereferences' if args[0] == 0 else 'increments'))
            return []

        def output(eng, st, I, args, fn):
            st.mon['#out'] = st.mon.get('#out', ()) + (eng.norm(st, args[0]),)
            return [('ret', None, st)]

        eng = equiv.engine(mod)
        eng.oom = False
        for k in ('eq', 'lt', 'cmp'):
            eng.model(r'^arch::%s\(' % k, binary(k))
        eng.model(r'^arch::pred', unary)
        eng.model(r'^arch::bad', misuse)
        eng.model(r'^arch::out', output)
        outs = eng.call(State(), name, list(VALS))
        chk.engine(eng)
        at = '%s elements%s, outcomes %s: %s' % (n, ' and %d' % m if lex else '', ','.join(map(str, ans or ())), code)
        for k, v in eng.viol.items():
            chk.violate('%s/%s' % (alg, v['kind']), '%s: %s' % (at, v['msg']), loc=v['loc'], path=v['path'])
        for b in bad[:1]:
            chk.violate(alg, '%s: %s' % (at, b))
        if not outs and not bad and not eng.viol:
            chk.violate(alg, '%s: never returns' % at)
        for kind, v, s in outs:
            o = tuple(VALS.index(x) if x in VALS else x for x in s.mon.get('#out', ()))
            if kind != 'ret':
                chk.violate(alg, '%s: ends in %s' % (at, v))
            elif v != int(want) & 0xffffffff:
                chk.violate(alg, '%s: returns %s instead of %s' % (at, show(v), int(want)))
            elif o != outw:
                chk.violate(alg, '%s: yields elements %s instead of %s' % (at, list(o), list(outw)))
        chk.count('cases')


def job(rec, *fs):
    src = PRE + ''.join('SIG(%s) { %s }\n' % (f[0], f[5]) for f in fs)
    mod = build.compile_bc(src, extra=['-I' + os.path.join(build.VERIF, 'witness/stub')])
    for f in fs:
        if len(rec.v) > 20:
            break
        one(rec, mod, f)


def types():
    A = []
    A3 = 'std::array<int, 3>{%s}'
    for f, good, bad in (('all_equal', '4, 4, 4', '4, 4, 5'), ('is_sorted_unique', '1, 2, 4', '1, 2, 2')):
        for e, r in ((good, ''), (bad, '!')):
            A.append((f, '%s(%s | d::%s()) && %sd::%s(%s)' % (r, A3 % e, f, r, f, A3 % e)))
    for f, v in (('all_of', '!'), ('any_of', ''), ('none_of', '!')):
        A.append((f, '%s(%s | d::%s([](int x) { return x == 2; }))' % (v, A3 % '1, 2, 3', f)))
    A.append(('empty', '!(%s | d::empty) && (%s | d::non_empty) && d::empty(std::array<int, 0>{}) && !d::non_empty(std::array<int, 0>{})' % (A3 % '1, 2, 3', A3 % '1, 2, 3')))
    for a, b, r in (('1, 2, 3', '1, 2, 4', 'less'), ('1, 2, 3', '1, 2, 3', 'equal'), ('2, 2, 3', '1, 9, 9', 'greater')):
        A.append(('lexicographical', 'd::lexicographical_compare_three_way(%s, %s) == std::strong_ordering::%s' % (A3 % a, A3 % b, r)))
    for c in ('strong', 'weak', 'partial'):
        A.append(('lexicographical', 'std::is_same_v<decltype(d::lexicographical_compare_three_way(std::array<int, 1>{}, std::array<int, 1>{}, [](int, int) { return std::%s_ordering::less; })), std::%s_ordering>' % (c, c)))
    A.append(('bool', 'std::is_same_v<decltype(std::vector<bool>{} | d::all_equal()), bool> && std::is_same_v<decltype(d::is_sorted_unique(std::vector<bool>{})), bool>'))
    return A


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR over every outcome of the element comparisons, iterator misuse and foreign elements as events; type-level witnesses'
    chk.headers = ['ranges.hpp']
    chk.assumptions.append('std::set and std::unordered_set are replaced by a model (witness/stub)')
    wit.asserts(chk, 'constexpr', PRE, types())
    wit.asserts(chk, 'constexpr-clang', PRE, types(), build.CLANG)
    fs = forms()
    par.run(chk, job, [fs[i::24] for i in range(24)])
    chk.require('cases', chk.counts['cases'], 5000)
    greedy.check(chk, 'ranges.hpp', greedy.RANGES)
    return ''
