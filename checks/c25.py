"""opt_min/opt_max/opt_minmax: every presence pattern and every weak order of up to four operands, elements symbolic; the result is
an extremal present operand, empty operands are never compared, iterators stay inside the range."""
import itertools
import build
import equiv
import par
import wit
from dom import *
from engine import State

PRE = '''#include <dice/template-library/opt_minmax.hpp>
#include <array>
#include <compare>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <optional>
#include <span>
#include <vector>
namespace d = dice::template_library;
namespace arch { bool lt(int, int); void bad(int); }
struct E {
    int id;
    explicit E(int i) : id{i} {}
    E(E const &o) : id{o.id} {}
    E &operator=(E const &o) { id = o.id; return *this; }
    bool operator<(E const &o) const { return arch::lt(id, o.id); }
    bool operator>(E const &o) const { return arch::lt(o.id, id); }
    bool operator<=(E const &o) const { return !arch::lt(o.id, id); }
    bool operator>=(E const &o) const { return !arch::lt(id, o.id); }
    bool operator==(E const &o) const { return !arch::lt(id, o.id) && !arch::lt(o.id, id); }
};
struct Rev { bool operator()(E const &a, E const &b) const { return arch::lt(b.id, a.id); } };
struct Fwd { bool operator()(E const &a, E const &b) const { return arch::lt(a.id, b.id); } };
inline bool fwd(E const &a, E const &b) { return arch::lt(a.id, b.id); }
// a comparator with state that cannot be default constructed
struct Sel { bool rev; explicit Sel(bool r) : rev{r} {} bool operator()(E const &a, E const &b) const { return rev ? arch::lt(b.id, a.id) : arch::lt(a.id, b.id); } };
using O = std::optional<E>;
inline O mk(bool h, int v) { if (h) return E{v}; return std::nullopt; }
// single pass iterator that cannot be copied; counts what is left
template<typename T> struct In {
    using value_type = T; using difference_type = std::ptrdiff_t;
    T const *p; T const *e; bool read = false;
    In(T const *p, T const *e) : p{p}, e{e} {}
    In(In &&) = default; In &operator=(In &&) = default;
    T const &operator*() const { if (p == e) arch::bad(0); return *p; }
    In &operator++() { if (p == e) arch::bad(1); ++p; return *this; }
    void operator++(int) { ++*this; }
    friend bool operator==(In const &a, std::default_sentinel_t) { return a.p == a.e; }
};
template<typename T> struct Rg { T const *p; T const *e; In<T> begin() const { return {p, e}; } std::default_sentinel_t end() const { return {}; } };
struct Out { int h, mn, mx; };
inline void put(O const &r, Out *o) { o->h = r.has_value(); if (r) { o->mn = r->id; o->mx = r->id; } }
template<typename T> inline void put(std::optional<d::opt_minmax_result<T>> const &r, Out *o) { o->h = r.has_value(); if (r) { o->mn = r->min.id; o->mx = r->max.id; } }
#define SIG(n) extern "C" __attribute__((used)) void n(bool h0, bool h1, bool h2, bool h3, int a, int b, int c, int e, Out *o)
'''
OPS = {'min': 'opt_min', 'max': 'opt_max', 'minmax': 'opt_minmax'}
CMPS = {'': (0, ''), 'rev': (1, 'Rev{}'), 'fwd': (0, 'Fwd{}'), 'fp': (0, '&fwd'), 'sel': (1, 'Sel{true}'), 'greater': (1, 'std::greater<>{}')}


def arr(n, t='O'):
    el = ['mk(h%d, %s)' % (i, x) if t == 'O' else '%s{%s}' % (t, x) for i, x in enumerate('abce'[:n])]
    return ', '.join(el)


def forms():
    """(name, n, reversed, all present, operation, code)"""
    out = []

    def add(n, rev, full, op, code):
        out.append(('w%d' % len(out), n, rev, full, op, code))

    for op, f in OPS.items():
        for cn, (rev, c) in CMPS.items():
            cc = ', ' + c if c else ''
            add(2, rev, 0, op, 'O const x = mk(h0, a), y = mk(h1, b); put(d::%s(x, y%s), o);' % (f, cc))
            for n in (3, 4):
                add(n, rev, 0, op, 'put(d::%s({%s}%s), o);' % (f, arr(n), cc))
            for n in (1, 2, 3, 4) if cn in ('', 'rev') else (3,):
                A = 'O const x[] = {%s}; ' % arr(n)
                add(n, rev, 0, op, A + 'put(d::%s_element(x%s), o);' % (f, cc))
                add(n, rev, 0, op, A + 'put(d::%s_element(&x[0], x + %d%s), o);' % (f, n, cc))
                add(n, rev, 0, op, A + 'put(x | d::%s_element(%s), o);' % (f, c))
                add(n, rev, 0, op, A + 'put(Rg<O>{x, x + %d} | d::%s_element(%s), o);' % (n, f, c))
                add(n, rev, 0, op, A + 'put(d::%s_element(Rg<O>{x, x + %d}%s), o);' % (f, n, cc))
                add(n, rev, 0, op, A + 'put(d::%s_element(In<O>{x, x + %d}, std::default_sentinel%s), o);' % (f, n, cc))
                add(n, rev, 0, op, A + 'put(d::%s_element(std::span<O const>{x, %d}%s), o);' % (f, n, cc))
                B = 'E const x[] = {%s}; ' % arr(n, 'E')
                add(n, rev, 1, op, B + 'put(d::%s_element(x%s), o);' % (f, cc))
                add(n, rev, 1, op, B + 'put(Rg<E>{x, x + %d} | d::%s_element(%s), o);' % (n, f, c))
            for t in ('O', 'E'):
                add(0, rev, 0, op, 'put(d::%s_element(std::span<%s const>{}%s), o);' % (f, t, cc))
                add(0, rev, 0, op, '%s const x{E{a}}; put(Rg<%s>{&x, &x} | d::%s_element(%s), o);' % (t, t, f, c))
            add(0, rev, 0, op, 'put(d::%s(std::initializer_list<O>{}%s), o);' % (f, cc))
    return out


def orders(k):
    """all weak orders of k things as rank vectors"""
    seen = set()
    for r in itertools.product(range(k), repeat=k):
        m = sorted(set(r))
        seen.add(tuple(m.index(x) for x in r))
    return sorted(seen)


def job(rec, *fs):
    mod = build.compile_bc(PRE + ''.join('SIG(%s) { %s }\n' % (f[0], f[5]) for f in fs))
    for f in fs:
        one(rec, mod, f)


def one(chk, mod, form):
    name, n, rev, full, op, code = form
    what = 'opt_' + op
    vals = [('s', ('v', i), 32) for i in range(4)]
    seen = set()
    for mask in range(1 << n):
        if full and mask != (1 << n) - 1:
            continue
        present = [i for i in range(n) if mask >> i & 1]
        for ranks in orders(len(present)):
            rank = dict(zip(present, ranks))
            bad = []

            def lt(eng, st, I, args, fn):
                i = [vals.index(x) if x in vals else None for x in (eng.norm(st, y) for y in args)]
                if i[0] not in rank or i[1] not in rank:
                    bad.append('compares an operand that is not present')
                    return []
                return [('ret', int(rank[i[0]] < rank[i[1]]), st)]

            def misuse(eng, st, I, args, fn):
                bad.append('%s an iterator at the end of the range' % ('dereferences' if args[0] == 0 else 'increments'))
                return []

            eng = equiv.engine(mod)
            eng.model(r'^arch::lt', lt)
            eng.model(r'^arch::bad', misuse)
            st = State()
            eng.extobj(st, 'o')
            outs = eng.call(st, name, [int(i in rank) for i in range(4)] + vals + [('p', ('x', 'o'), 0)])
            chk.engine(eng)
            at = 'presence %s, order %s: %s' % (bin(mask)[2:].zfill(n)[::-1] if n else '-', ','.join(map(str, ranks)), code)
            for k, v in eng.viol.items():
                chk.violate('%s/%s' % (what, v['kind']), '%s: %s' % (at, v['msg']), loc=v['loc'], path=v['path'])
            for b in bad[:1]:
                chk.violate(what, '%s: %s' % (at, b))
            if not outs and not bad and not eng.viol:
                chk.violate(what, '%s: never returns' % at)
            for kind, v, s in outs:
                if kind != 'ret':
                    chk.violate(what, '%s: ends in %s' % (at, v))
                    continue
                cells = {k: eng.norm(s, c) for k, (sz, c) in s.cells(('x', 'o')).items()}
                if cells.get(0) != int(bool(present)):
                    chk.violate(what, '%s: the result is %s' % (at, 'empty' if present else 'not empty'))
                    continue
                for off, low, nm in ((4, not rev, 'minimum'), (8, rev, 'maximum')):
                    if not present or op == 'max' and off == 4 or op == 'min' and off == 8:
                        continue
                    x = cells.get(off)
                    i = vals.index(x) if x in vals else None
                    if i not in rank:
                        chk.violate(what, '%s: the %s is not one of the operands that are present' % (at, nm))
                    elif rank[i] != (min if low else max)(ranks):
                        chk.violate(what, '%s: operand %d is not the %s' % (at, i, nm))
            chk.count('cases')


def types():
    A = []
    for f in ('opt_min', 'opt_max', 'opt_minmax'):
        R = 'std::optional<d::opt_minmax_result<int>>' if f == 'opt_minmax' else 'std::optional<int>'
        for e in ('d::%s(std::optional<int>{}, std::optional<int>{})', 'd::%s({std::optional<int>{}})', 'd::%s_element(std::vector<std::optional<int>>{})', 'd::%s_element(std::vector<int>{})', 'std::vector<int>{} | d::%s_element',
                  'd::%s_element((int const *) 0, (int const *) 0)', 'std::vector<std::optional<int> const *>{} | d::%s_element'):
            if e.endswith('element'):
                e += '()'
            if 'const *>' in e:
                continue
            A.append((f, 'std::is_same_v<decltype(%s), %s>' % (e % f, R)))
    for f, v in (('min', 2), ('max', 7)):
        A.append((f, 'd::opt_%s(std::initializer_list<std::optional<int>>{std::nullopt, 5, 7, 2, std::nullopt}) == %d' % (f, v)))
        A.append((f, 'd::opt_%s(std::optional<int>{}, std::optional<int>{5}) == 5 && d::opt_%s(std::optional<int>{5}, std::optional<int>{}) == 5 && !d::opt_%s(std::optional<int>{}, std::optional<int>{})' % (f, f, f)))
    A.append(('minmax', 'd::opt_minmax(std::initializer_list<std::optional<int>>{std::nullopt, 5, 7, 2, std::nullopt})->min == 2 && d::opt_minmax(std::optional<int>{3}, std::optional<int>{1})->max == 3'))
    return A


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR over every presence pattern and weak order of symbolic operands, comparisons of absent operands and iterator misuse as events; type-level witnesses'
    chk.headers = ['opt_minmax.hpp']
    wit.asserts(chk, 'types', PRE, types())
    wit.asserts(chk, 'types-clang', PRE, types(), build.CLANG)
    fs = forms()
    par.run(chk, job, [fs[i::16] for i in range(16)])
    chk.require('cases', chk.counts['cases'], 3000)
    return ''
