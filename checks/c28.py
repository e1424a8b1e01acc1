"""next_to_iter, next_to_range and next_to_view over an archetype iterator: sequences of operations are followed in the compiler IR and
compared with a plain index that is moved by the same operations."""
import itertools
import build
import equiv
import par
import wit
from dom import *
from engine import State

PRE = '''#include <dice/template-library/next_to_range.hpp>
#include <cstddef>
#include <iterator>
#include <limits>
#include <memory>
#include <optional>
#include <ranges>
#include <utility>
namespace d = dice::template_library;
namespace arch { void end(int); void elem(int, long); void num(unsigned long); void bad(int); }
// an element that is gone after it was moved from
struct V { long v; V(long x) : v{x} {} V(V const &o) : v{o.v} {} V(V &&o) noexcept : v{o.v} { o.v = -1; } V &operator=(V const &o) { v = o.v; return *this; }
    V &operator=(V &&o) noexcept { long x = o.v; o.v = -1; v = x; return *this; } ~V() { v = -2; } };
inline long get(long v) { return v; }
inline long get(V const &v) { return v.v; }
template<typename T> struct Data {
    using value_type = T;
    unsigned long lo, hi; long b;
    Data(unsigned long n, long b) : lo{0}, hi{n}, b{b} {}
    std::optional<T> next() { if (lo >= hi) return std::nullopt; return T(b + 7 * (long) lo++); }
    std::optional<T> next_back() { if (lo >= hi) return std::nullopt; return T(b + 7 * (long) --hi); }
protected:
    std::optional<T> skip(unsigned long n) { if (n >= hi - lo) { lo = hi; return std::nullopt; } lo += n; return next(); }
    std::optional<T> skip_back(unsigned long n) { if (n >= hi - lo) { hi = lo; return std::nullopt; } hi -= n; return next_back(); }
};
template<typename T> struct Full : Data<T> { using Data<T>::Data; std::optional<T> nth(size_t n) { return this->skip(n); } std::optional<T> nth_back(size_t n) { return this->skip_back(n); }
    size_t remaining() const { return this->hi - this->lo; } };
template<typename T> struct Plain : Data<T> { using Data<T>::Data; };
template<typename T> struct Once : Full<T> { using Full<T>::Full; Once(Once &&) = default; Once &operator=(Once &&) = default; };
// cannot be copied and is made from an argument that is gone after it was moved from
template<typename T> struct Own : Once<T> { Own(unsigned long n, V o) : Once<T>(n, o.v) {} Own(Own &&) = default; Own &operator=(Own &&) = default; };
template<typename T> struct Fwd { using value_type = T; unsigned long lo, hi; long b; Fwd(unsigned long n, long b) : lo{0}, hi{n}, b{b} {}
    std::optional<T> next() { if (lo >= hi) return std::nullopt; return T(b + 7 * (long) lo++); } };
// the reference: an index
template<typename T, bool back> struct Ref {
    unsigned long p, n; long b; T cur;
    Ref(unsigned long n, long b) : p{0}, n{n}, b{b}, cur{at(0)} {}
    T at(unsigned long i) const { return T(i < n ? b + 7 * (long) (back ? n - 1 - i : i) : 0); }
    bool operator==(std::default_sentinel_t) const { return p == n; }
    T &operator*() { return cur; }
    T *operator->() { return &cur; }
    Ref &operator+=(size_t k) { if (k == 0) return *this; p = k >= n - p ? n : p + k; cur = at(p); return *this; }
    Ref operator+(size_t k) const { Ref r{*this}; r += k; return r; }
    Ref &operator++() { return *this += 1; }
    Ref operator++(int) { Ref r{*this}; *this += 1; return r; }
    std::optional<T> peek() { if (n - p < 2) return std::nullopt; return at(p + 1); }
};
template<typename T> void show(int i, std::optional<T> const &o) { if (o) arch::elem(i, get(*o)); else arch::end(i); }
template<typename I> bool see(int i, I &x) {
    if ((x == std::default_sentinel) != (std::default_sentinel == x) || (x != std::default_sentinel) == (x == std::default_sentinel)) arch::bad(1);
    if (x == std::default_sentinel) { arch::end(i); return false; }
    if (std::addressof(*x) != x.operator->()) arch::bad(2);
    arch::elem(i, get(*x)); return true;
}
template<typename I> void drain(int i, I &x) { for (int k = 0; k < 5 && see(i, x); ++k) ++x; }
using SZ = size_t;
template<typename T, bool B> using D = d::detail_next_to_iter::next_to_iter_impl<T, B ? d::detail_next_to_iter::direction::backward : d::detail_next_to_iter::direction::forward>;
#define W extern "C" __attribute__((used)) void
'''
# x: the iterator so far, y: a new one
OPS = {
    'pre': 'if (&++$x != &$x) arch::bad(3);', 'post': 'I $y = $x++; see(11, $y);', 'post0': '$x++;',
    'add0': 'if (&($x += 0) != &$x) arch::bad(4);', 'add1': '$x += 1;', 'add2': '$x += 2;', 'add3': '$x += 3;', 'addmax': '$x += SZ(-1);',
    'plus0': 'I $y = $x + 0;', 'plus1': 'I $y = $x + 1;', 'plus2': 'I $y = $x + 2;', 'plusmax': 'I $y = $x + SZ(-1);',
    'peek': 'show(12, $x.peek());', 'see': 'see(13, $x);', 'see!': 'if (see(14, $x)) *$x = T(99);',
    'copy()': 'I $y($x);', 'copy{}': 'I $y{$x};', 'copy=': 'auto $y = $x;', 'copyconst': 'I $y{std::as_const($x)};', 'capture': 'auto l$y = [$x]() mutable { return $x; }; I $y = l$y();',
    'optional': 'std::optional<I> o$y; o$y.emplace($x); I $y{*o$y};', 'move': 'I $y{std::move($x)};', 'assign': 'I $y{2ul, 5l}; $y = $x;', 'massign': 'I $y{3ul, 6l}; $y = std::move($x);', 'swap': 'I $y{3ul, 6l}; std::swap($x, $y);',
}
COPIES = {'post', 'plus0', 'plus1', 'plus2', 'plusmax', 'copy()', 'copy{}', 'copy=', 'copyconst', 'capture', 'optional', 'assign'}
SKIPS = {'add0', 'add1', 'add2', 'add3', 'addmax', 'plus0', 'plus1', 'plus2', 'plusmax'}
GONE = {'move', 'massign'}
CORE = ['pre', 'post', 'add1', 'add2', 'addmax', 'plus1', 'peek', 'copy{}']


def body(seq):
    cur, n, live, code = 'x0', 0, ['x0'], ''
    for op in seq:
        t = OPS[op]
        new = 'x%d' % (n + 1)
        code += t.replace('$x', cur).replace('$y', new) + ' '
        if '$y' in t:
            n += 1
            if op in GONE:
                live.remove(cur)
            live.append(new)
            if op != 'post':
                cur = new
    for v in live:
        code += 'drain(%s, %s); ' % (v[1:], v)
    return code


VARIANTS = [('Full<long>', 'long', 0, True, True), ('Full<V>', 'V', 1, True, True), ('Plain<V>', 'V', 0, False, True), ('Plain<long>', 'long', 1, False, True), ('Once<V>', 'V', 0, True, False), ('Once<long>', 'long', 1, True, False)]


def seqs(skip, copy, thorough):
    ok = [o for o in OPS if (skip or o not in SKIPS) and (copy or o not in COPIES)]
    core = [o for o in (OPS if thorough else CORE) if o in ok]
    out = [()] + [(o,) for o in ok] + list(itertools.product(ok, repeat=2)) + list(itertools.product(core, repeat=3))
    return sorted(set(out), key=lambda s: (len(s), s))


def sequences(chk, base, T, back, ss):
    src = PRE
    for i, s in enumerate(ss):
        src += 'template<typename I, typename T> void p%d(unsigned long n, long b) { I x0{n, b}; %s}\n' % (i, body(s))
        src += 'W x_%d(unsigned long n, long b) { p%d<D<%s, %d>, %s>(n, b); }\nW r_%d(unsigned long n, long b) { p%d<Ref<%s, %d>, %s>(n, b); }\n' % (i, i, base, back, T, i, i, T, back, T)
    compare(chk, src, [(str(i), '%s %s after %s' % ('next_back_to_reverse_iter' if back else 'next_to_iter', base, ', '.join(s) or 'nothing')) for i, s in enumerate(ss)])


def compare(chk, src, names, lens=range(5)):
    mod = build.compile_bc(src)
    for n, what in names:
        for k in lens:
            res = []
            for p in 'xr':
                eng = equiv.engine(mod)
                outs = eng.call(State(), p + '_' + n, [k, ('s', ('first',), 64)])
                if p == 'x':
                    chk.engine(eng)
                    for v in eng.viol.values():
                        chk.violate('%s/%s' % (what, v['kind']), '%d elements: %s' % (k, v['msg']), loc=v['loc'], path=v['path'])
                res.append(sorted({(o, tuple(tuple(e[:3]) for e in s.ev if e[0] == 'call')) for o, v, s in outs if o == 'ret'}, key=repr))
            chk.count('cases')
            x, r = res
            if not r:
                raise RuntimeError('reference has no outcome')
            if x != r:
                a, b = (x[0][1] if x else None), r[0][1]
                i = 0
                while a and i < min(len(a), len(b)) and a[i] == b[i]:
                    i += 1
                chk.violate(what, '%d elements: observation %d is %s instead of %s' % (k, i, say(a, i) if a is not None else 'never made', say(b, i)))
                break
        if len(chk.v) > 3:
            return


def say(ev, i):
    if i >= len(ev):
        return 'nothing'
    return '%s(%s)' % (ev[i][1].split('(')[0].replace('arch::', ''), ', '.join(show(x) for x in ev[i][2]))


RANGES = [('d::next_to_range<Full<long>>', 'long', 'full', False), ('d::next_to_range<Plain<V>>', 'V', 'plain', False), ('d::next_to_range<Once<long>>', 'long', 'once', False), ('d::next_to_range<Own<long>>', 'long', 'own', False),
          ('d::next_to_view<Full<V>>', 'V', 'full', True), ('d::next_to_view<Plain<long>>', 'long', 'plain', True), ('d::next_to_view<Fwd<V>>', 'V', 'fwd', True), ('d::next_to_range<Fwd<long>>', 'long', 'fwd', False)]


def range_programs(R, T, kind, view):
    """(name, code using the range r, code of the reference with F and B iterators)"""
    P = []
    loop = 'for (auto &&e : %s) arch::elem(1, get(e)); arch::end(1); '
    refF, refB = ('{ Ref<%s, %d> i{n, b}; for (; i != std::default_sentinel; ++i) arch::elem(1, get(*i)); arch::end(1); } ' % (T, k) for k in (0, 1))
    walk = '{ auto i = r.%s(); auto e = r.%s(); for (; i != e; ++i) arch::elem(1, get(*i)); arch::end(1); } '
    P.append(('loop', loop % 'r' * 2, refF * 2))
    P.append(('const', 'auto const &c = r; ' + loop % 'c' + 'auto i = c.begin(); ++i; auto j = c.begin(); drain(2, j); drain(3, i); ', refF + 'Ref<%s, 0> i{n, b}; ++i; Ref<%s, 0> j{n, b}; drain(2, j); drain(3, i); ' % (T, T)))
    P.append(('cbegin', walk % ('cbegin', 'cend') * 2 + walk % ('begin', 'end'), refF * 3))
    if kind != 'fwd':
        P.append(('rbegin', walk % ('rbegin', 'rend') * 2 + walk % ('crbegin', 'crend') + walk % ('begin', 'end'), refB * 3 + refF))
        P.append(('reversed', loop % 'r.reversed()' * 2, refB * 2))
        P.append(('both', 'auto i = r.begin(); auto j = r.rbegin(); if (see(4, i)) ++i; if (see(5, j)) ++j; drain(4, i); drain(5, j); ',
                  'Ref<%s, 0> i{n, b}; Ref<%s, 1> j{n, b}; if (see(4, i)) ++i; if (see(5, j)) ++j; drain(4, i); drain(5, j); ' % (T, T)))
    P.append(('other', '%s q{n, %s}; ' % (R, 'V{b + 1000}' if kind == 'own' else 'b + 1000') + loop % 'r' + loop % 'q' + loop % 'r', refF + refF.replace('{n, b}', '{n, b + 1000}') + refF))
    if True:
        P.append(('copy', 'auto s = r; auto t{r}; auto i = s.begin(); ++i; auto u = s; ' + loop % 's' + loop % 't' + loop % 'u', refF * 3))
    if kind == 'full':
        P.append(('size', 'arch::num(r.size()); arch::num(r.empty()); arch::num(r ? 1 : 0); arch::num(std::ranges::size(r)); ', 'arch::num(n); arch::num(n == 0); arch::num(n != 0); arch::num(n); '))
    if view:
        acc = 'if (n > 0) arch::elem(6, get(r.front())); '
        racc = 'if (n > 0) arch::elem(6, b + 0); '
        if kind != 'fwd':
            acc += 'if (n > 0) arch::elem(7, get(r.back())); '
            racc += 'if (n > 0) arch::elem(7, b + 7 * (long) (n - 1)); '
        if kind == 'full':
            acc += 'for (SZ i = 0; i < n; ++i) arch::elem(8, get(r[i])); '
            racc += 'for (SZ i = 0; i < n; ++i) arch::elem(8, b + 7 * (long) i); '
        P.append(('access', acc * 2 + loop % 'r', racc * 2 + refF))
        if kind == 'full':
            for a in (0, 1, 2, 3, 'SZ(-1)'):
                for b2 in (0, 1, 'SZ(-1)'):
                    P.append(('advance%s,%s' % (a, b2), 'if (&r.advance(%s) != &r) arch::bad(5); r.advance(%s); ' % (a, b2) + loop % 'r' + 'arch::num(r.size()); if (!r.empty()) { arch::elem(6, get(r.front())); arch::elem(7, get(r.back())); arch::elem(8, get(r[0])); } ' + loop % 'r.reversed()',
                              'SZ s = 0; for (SZ k : {SZ(%s), SZ(%s)}) s = k >= n - s ? n : s + k; for (SZ i = s; i < n; ++i) arch::elem(1, b + 7 * (long) i); arch::end(1); arch::num(n - s); if (s < n) { arch::elem(6, b + 7 * (long) s); arch::elem(7, b + 7 * (long) (n - 1)); arch::elem(8, b + 7 * (long) s); } for (SZ i = n; i > s; --i) arch::elem(1, b + 7 * (long) (i - 1)); arch::end(1); ' % (a, b2)))
    return P


def ranges(chk, R, T, kind, view):
    P = range_programs(R, T, kind, view)
    mk = 'V own{b}; %s r{n, std::move(own)};' % R if kind == 'own' else '%s r{n, b};' % R
    src = PRE + ''.join('W x_%d(unsigned long n, long b) { %s %s}\nW r_%d(unsigned long n, long b) { %s}\n' % (i, mk, x, i, r) for i, (_, x, r) in enumerate(P))
    compare(chk, src, [(str(i), '%s: %s' % (R, p[0])) for i, p in enumerate(P)])


TPRE = PRE.replace('namespace arch', '''#include <vector>
namespace arch''') + '''
template<typename R> concept has_rbegin = requires (R const &r) { r.rbegin(); r.crbegin(); r.rend(); r.crend(); r.reversed(); };
template<typename R> concept no_rbegin = !requires (R const &r) { r.rbegin(); } && !requires (R const &r) { r.crbegin(); } && !requires (R const &r) { r.reversed(); };
template<typename R> concept has_size = requires (R const &r) { r.size(); r.empty(); static_cast<bool>(r); };
template<typename R> concept has_access = requires (R &r) { r.front(); r.back(); r[1]; r.advance(1); };
template<typename I> concept skips = requires (I i) { i += 1; };
template<typename I> concept skips_copy = requires (I const i) { { i + 1 } -> std::same_as<I>; };
struct Back { using value_type = int; int n = 3; std::optional<int> next_back() { return n ? std::optional<int>{--n} : std::nullopt; } };
struct Count { using value_type = int; int n; int e; constexpr Count(int n, int e) : n{n}, e{e} {} constexpr std::optional<int> next() { return n < e ? std::optional<int>{n++} : std::nullopt; }
    constexpr std::optional<int> next_back() { return n < e ? std::optional<int>{--e} : std::nullopt; }
    constexpr std::optional<int> nth(size_t k) { if (k >= remaining()) { n = e; return {}; } n += (int) k; return next(); } constexpr size_t remaining() const { return (size_t) (e - n); } };
consteval int sum(auto &&r) { int s = 0, k = 1; for (int x : r) s += k++ * x; return s; }
using FL = d::next_to_iter<Full<long>>; using OL = d::next_to_iter<Once<long>>; using PL = d::next_to_iter<Plain<V>>;
'''


def types():
    A = []
    for R, kind, view in [('d::next_to_range<Full<V>>', 'full', 0), ('d::next_to_range<Plain<long>>', 'plain', 0), ('d::next_to_range<Once<V>>', 'once', 0), ('d::next_to_range<Fwd<long>>', 'fwd', 0),
                          ('d::next_to_view<Full<long>>', 'full', 1), ('d::next_to_view<Plain<V>>', 'plain', 1), ('d::next_to_view<Fwd<long>>', 'fwd', 1)]:
        A.append((R + '/range', 'std::ranges::input_range<%s> && std::ranges::input_range<%s const> && std::ranges::view<%s> == %d && std::ranges::sized_range<%s> == %d' % (R, R, R, view, R, kind == 'full')))
        A.append((R + '/reverse', ('no_rbegin<%s>' if kind == 'fwd' else 'has_rbegin<%s>') % R))
        A.append((R + '/size', 'has_size<%s> == %d' % (R, kind == 'full')))
        if view:
            A.append((R + '/access', 'has_access<%s> == %d' % (R, kind == 'full')))
    A += [('iterators', 'std::input_iterator<FL> && std::input_iterator<OL> && std::input_iterator<PL> && std::sentinel_for<std::default_sentinel_t, FL> && std::sentinel_for<std::default_sentinel_t, OL>'),
          ('copies', 'std::copyable<FL> && !std::is_copy_constructible_v<OL> && std::movable<OL> && std::is_same_v<decltype(std::declval<OL &>()++), void> && std::is_same_v<decltype(std::declval<FL &>()++), FL>'),
          ('skips', 'skips<FL> && skips_copy<FL> && skips<OL> && !skips_copy<OL> && !skips<PL> && !skips_copy<PL>'),
          ('reverse skips', 'skips<d::next_back_to_reverse_iter<Full<V>>> && !skips<d::next_back_to_reverse_iter<Plain<V>>>'),
          ('references', 'std::is_same_v<std::iter_reference_t<FL>, long &> && std::is_same_v<std::iter_value_t<FL>, long> && std::is_same_v<decltype(std::declval<FL &>().operator->()), long *>'),
          ('concepts', 'd::next_iterator<Full<V>> && d::next_back_iterator<Full<V>> && d::nth_iterator<Full<V>> && d::nth_back_iterator<Full<V>> && d::sized_next_iterator<Full<V>> && !d::next_iterator<Back> && d::next_back_iterator<Back> && !d::nth_iterator<Plain<V>> && !d::nth_back_iterator<Plain<V>> && !d::sized_next_iterator<Plain<V>> && !d::next_back_iterator<Fwd<V>>'),
          ('backward only', 'std::input_iterator<d::next_back_to_reverse_iter<Back>>'),
          ('constexpr', 'sum(d::next_to_range<Count>{2, 5}) == 2 + 6 + 12 && sum(d::next_to_view<Count>{2, 5}) == 20 && d::next_to_view<Count>{2, 5}.front() == 2 && d::next_to_view<Count>{2, 5}.back() == 4 && d::next_to_view<Count>{2, 5}[1] == 3 && sum(d::next_to_view<Count>{2, 5}.reversed()) == 4 + 6 + 6'),
          ('views', 'sum(d::next_to_view<Count>{1, 5} | std::views::take(2)) == 5 && sum(d::next_to_view<Count>{1, 5} | std::views::drop(2)) == 11')]
    return A


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR: sequences of iterator operations over an archetype with symbolic elements against an index; type-level witnesses'
    chk.headers = ['next_to_range.hpp']
    wit.asserts(chk, 'types', TPRE, types())
    wit.asserts(chk, 'types-clang', TPRE, types(), build.CLANG)
    jobs = []
    for base, T, back, skip, copy in VARIANTS:
        ss = seqs(skip, copy, chk.thorough)
        n = max(1, len(ss) // 150)
        jobs += [(base, T, back, ss[i::n]) for i in range(n)]
    par.run(chk, sequences, jobs)
    par.run(chk, ranges, RANGES)
    chk.require('cases', chk.counts['cases'], 2000)
    return 'Operation sequences on iterators of ranges with 0 to 4 elements (symbolic values), compared observation by observation with an index moved by the same operations.'
