"""noexcept honesty: no exception of a user operation ends in std::terminate. Every operation is analysed over element types of
which exactly one operation may throw, so that each conjunct a noexcept condition lacks shows up."""
import os
import re
from concurrent.futures import ProcessPoolExecutor
import build
import models
from closure import *
from dom import *
from engine import Engine, State

MAIN = os.getpid()
NAMES = ['default construction', 'copy construction', 'move construction', 'copy assignment', 'move assignment', 'swap', 'comparison or hash',
         'construction from a value', 'call']
DC, CC, MC, CA, MA, SW, CMP, IC, OP, NOSW = [1 << i for i in range(10)]
TYPES = [DC, CC, MC, CA, MA, SW, CMP, IC, OP, NOSW | MC, NOSW | MA, NOSW | CC, NOSW | CA, 1023 & ~OP]


def what(f):
    n = [NAMES[i] for i in range(9) if f & 1 << i]
    return 'any operation' if len(n) > 4 else ', '.join(n)


def scenarios():
    """(component, headers, {entry name: (expression, flags, params)})"""
    S = []

    def add(comp, exprs, types=TYPES, params=''):
        ent = []
        for f in types:
            for e in exprs:
                ent.append((e.replace('$F', str(f)).replace('$X', 'nx::X<%d>' % f), f, params))
        S.append((comp, ent))

    var = ['copy', 'move', 'assign_copy', 'assign_move', 'swap_', 'eq', 'cmp', 'hash']
    one = ['from_copy', 'from_move', 'from_copy2', 'from_move2', 'assign_value', 'assign_value_move', 'assign_value2', 'assign_value2_move',
           'def', 'in_place', 'in_place_t', 'emplace']
    for a, b in (('$X', 'nx::Y<0>'), ('nx::Y<0>', '$X'), ('$X', 'nx::Y<$F>')):
        ex = ['variant2<%s, %s, %d, %d>::%s()' % (a, b, i, j, o) for i in (0, 1) for j in (0, 1) for o in var if j == 0 or o not in ('copy', 'move', 'hash')]
        ex += ['variant2<%s, %s, %d, %d>::%s()' % (a, b, i, 1 - i, o) for i in (0, 1) for o in one]
        add('variant2', ex)
    add('integral_template_variant', ['itv<$X>::%s()' % o for o in (
        'def', 'copy', 'move', 'assign_copy', 'assign_copy2', 'assign_move', 'assign_move2', 'from_copy', 'from_move', 'in_place', 'emplace')])
    fl = ('def', 'copy', 'move', 'assign_copy', 'assign_move', 'swap_')
    D = 'dtl::dynamic_extent'
    add('flex_array', ['flex<$X, 2, 2>::%s()' % o for o in fl] + ['flex<$X, %s, 2>::%s()' % (D, o) for o in fl + ('convert',)])
    add('flex_array', ['flex<$X, %s, %s>::%s()' % (D, D, o) for o in fl + ('convert',)])
    add('mutex', ['mutex<$X>::%s()' % o for o in ('def', 'copy', 'move', 'in_place', 'shared_def', 'shared_copy', 'shared_move', 'shared_in_place')])
    al = ('def', 'copy', 'move', 'assign_copy', 'assign_move', 'convert', 'allocate', 'from_move', 'in_place', 'swap_')
    for L in ('limit', 'poly', 'poly2', 'poly3', 'offs'):
        add({'limit': 'limit_allocator', 'offs': 'offset_ptr_stl_allocator'}.get(L, 'polymorphic_allocator'),
            ['allocs<%s, $F>::%s()' % (L, o) for o in al])
    add('inplace_polymorphic', ['inplace<$F>::%s()' % o for o in ('def', 'copy', 'move', 'assign_copy', 'assign_move', 'in_place', 'emplace')])
    add('calls', ['calls<false>::%s()' % o for o in ('for_types', 'for_values', 'for_range', 'bind_front', 'tuple_fold', 'tuple_fold1', 'tuple_type_fold',
                                                    'tuple_for_each', 'variant2_visit', 'variant_match', 'itv_visit')], [OP])
    add('values', ['values<$X>::%s()' % o for o in ('slt_def', 'slt_copy', 'slt_move', 'slt_assign', 'slt_uniform', 'fold_acc', 'opt_min', 'bind_call',
                                                    'bind_value')])
    # actions on exit and failure must not throw, those on success may
    add('defer', ['guard<$X>::%s_%s()' % (o, p) for o in ('copy', 'move', 'make') for p in ('exit', 'fail', 'success')], [CC, MC, CC | MC])
    add('defer', ['guard<$X>::%s_success()' % o for o in ('copy', 'move', 'make')], [OP, OP | CC, OP | MC])
    for c in ('channel', 'exchange_channel'):
        ops = ['pop', 'try_pop', 'begin', 'next', 'iter_copy', 'iter_move', 'emplace', 'try_emplace']
        add(c, ['channel<$X, dtl::%s<$X>>::%s(c, d)' % (c, o) for o in ('iter_assign_copy', 'iter_assign_move')] + ['channel<$X, dtl::%s<$X>>::%s(c)' % (c, o) for o in ops] +
            ['channel<$X, dtl::%s<$X>>::%s(c, x)' % (c, o) for o in ('push_copy', 'push_move', 'try_push_copy', 'try_push_move')],
            params='dtl::%s<$X> &c, $X &x, dtl::%s<$X> &d' % (c, c))
    return S


def source(ent):
    out = ['#include "nx.hpp"']
    for k, (e, f, params) in enumerate(ent):
        out.append('extern "C" void e%d(%s) { %s; }' % (k, params.replace('$X', 'nx::X<%d>' % f), e))
    return '\n'.join(out) + '\n'


class Nx:
    def __init__(self, mod):
        self.mod = mod
        self.eng = e = Engine(mod)
        models.install(e)
        e.trace = False
        e.oom = False
        e.model(r'^(nx::|swap\(nx::)|^(bool |std::strong_ordering )?nx::X<\d+u>::|^nx::X', self.user)
        e.model(r'^std::uncaught_exceptions\(\)', self.uncaught)
        e.model(r'^pthread_mutex_(lock|trylock|unlock|init|destroy)$', self.zero)
        e.model(r'^pthread_rwlock_(rdlock|wrlock|unlock|init|destroy)$', self.zero)
        e.model(r'^std::condition_variable::(~?condition_variable|notify_one|notify_all)\(', models.m_noop)
        e.model(r'^std::condition_variable::wait\(', self.wait)
        e.model(r'(^|[ &*])std::deque<nx::', self.deque)
        e.model(r'boost::interprocess::ipcdetail::offset_ptr_to_(offset|raw_pointer)', self.off)
        self.user_calls = set()
        self.forks = 0

    def zero(self, eng, st, I, args, fn):
        return [('ret', 0, st)]

    def uncaught(self, eng, st, I, args, fn):
        u = ('s', ('uncaught',), 32)
        st.iv[u] = (0, 1 << 30)
        return [('ret', add(u, st.mon.get('#unc', 0) & mask(32), 32), st)]

    def wait(self, eng, st, I, args, fn):
        """other threads may do anything to the channel meanwhile"""
        for c in (('x', 'c'), ('x', 'd')):
            i = st.objs[c]
            if i[5] >= 3:
                return []
            st.objs[c] = i[:5] + (i[5] + 1,)
            st.mem[c] = {}
            st._own.add(c)
        return [('ret', None, st)]

    def off(self, eng, st, I, args, fn):
        return [('ret', eng.gensym(st, 64, 'off', I), st)]

    def user(self, eng, st, I, args, fn):
        if not fn.decl:
            return None
        self.user_calls.add(fn.dem)
        outs = []
        if not fn.nounwind:
            self.forks += 1
            outs.append(eng.raise_(st.copy(), fn.dem, I))
        r = None
        if fn.rty.k == 'ptr':
            r = args[0]
        elif fn.rty.k == 'int':
            r = eng.gensym(st, fn.rty.bits, 'user', I)
        elif fn.rty.k == 'struct':
            r = ('agg', tuple(eng.gensym(st, e.bits or 64, 'user', I) for _, e in fn.rty.elts))
        outs.append(('ret', r, st))
        return outs

    def deque(self, eng, st, I, args, fn):
        m = re.search(r'std::deque<nx::X<(\d+)u>, std::allocator<nx::X<\d+u> ?> ?>::(~?\w+|operator\[\])(<.*>)?\((.*)\)', fn.dem)
        f, name, targ, sig = int(m.group(1)), m.group(2), m.group(3) or '', m.group(4)
        outs = []
        if name in ('emplace_back', 'push_back'):
            op = targ or sig
            bit = IC if 'int' in op else CC if 'const&' in op else MC
            if f & bit:
                self.forks += 1
                outs.append(eng.raise_(st.copy(), 'deque construction', I))
        r = None
        if name in ('front', 'back', 'emplace_back', 'operator[]'):
            r = ('p', ('x', 'elem'), 0)
            if ('x', 'elem') not in st.objs:
                st.objs[('x', 'elem')] = ('x', 8, 16, True, True, 0)
        elif name in ('empty', 'size', 'max_size'):
            r = eng.gensym(st, fn.rty.bits, 'deque', I)
        elif name not in ('deque', '~deque', 'pop_front', 'pop_back', 'push_back', 'clear'):
            raise RuntimeError('deque operation ' + fn.dem)
        return outs + [('ret', r, st)]

    def run(self, k, ent):
        """-> [(function that terminates, path)] of one scenario, whether it can also finish"""
        st = State()
        args = []
        if ent[2]:
            for n in ('c', 'x', 'd'):
                o = ('x', n)
                st.objs[o] = ('x', None, 16, True, True, 0)
                st.mem[o] = {}
                st._own.add(o)
                args.append(('p', o, 0))
        self.bad = []
        eng = self.eng

        def term(eng, st, I, args, fn):
            fr = eng.frames
            path = ['%s:%d' % (f.site.file, f.site.line) for f in fr if f.site is not None]
            lib = [f for f in fr if 'dice::template_library' in f.fn.dem]
            fn0 = I.fn.dem if I is not None and I.fn else ''
            inner = lib[-1].fn.dem if lib else fn0
            self.bad.append((inner, path))
            return [('end', ('terminate', ''), st)]

        eng.model(r'^(std::terminate\(\)|__clang_call_terminate|__cxa_call_unexpected)$', term)
        outs = eng.call(st, 'e%d' % k, args)
        return self.bad, [o[0] for o in outs]


def job(arg):
    try:
        return job1(arg)
    finally:
        if os.getpid() != MAIN:
            build.cleanup()


def job1(arg):
    n, comp, ent = arg
    mod = build.compile_bc(source(ent))
    res = []
    steps = 0
    fns = set()
    forks = calls = 0
    for k, e in enumerate(ent):
        x = Nx(mod)
        try:
            bad, kinds = x.run(k, e)
        except Exception as ex:
            raise RuntimeError('%s with %s: %r' % (e[0], what(e[1]), ex))
        res.append((e, bad, sorted(set(kinds)), x.forks, len(x.user_calls)))
        steps += x.eng.steps
        fns |= {mod.fns[f].dem for f in x.eng.fns_analysed}
    return comp, res, steps, fns


def promises():
    """expressions that are noexcept for element types that never throw"""
    P = []
    for n in ('dtl::variant2<N, M>', 'dtl::flex_array<N, 2>', 'dtl::flex_array<N, dtl::dynamic_extent, 2>', 'inplace<0>::V',
              'limit<0, long>', 'poly<0, long>', 'poly2<0, long>', 'poly3<0, long>', 'offs<0, long>', 'dtl::channel<N>::iterator',
              'dtl::exchange_channel<N>::iterator'):
        P += ['std::is_nothrow_%s_v<%s>' % (t, n) for t in ('copy_constructible', 'move_constructible', 'copy_assignable', 'move_assignable', 'destructible')]
    P += ['std::is_nothrow_%s_v<itv<N>::V>' % t for t in ('move_constructible', 'move_assignable', 'destructible')]
    for n in ('dtl::variant2<N, M>', 'itv<N>::V', 'dtl::flex_array<N, 2>', 'dtl::flex_array<N, dtl::dynamic_extent, 2>',
              'dtl::flex_array<N, dtl::dynamic_extent>', 'inplace<0>::V', 'limit<0, long>', 'poly<0, long>', 'poly2<0, long>', 'offs<0, long>'):
        P += ['std::is_nothrow_swappable_v<%s>' % n]
    for n in ('dtl::flex_array<N, dtl::dynamic_extent>', 'dtl::mutex_guard<N>', 'dtl::shared_mutex_guard<N>', 'dtl::pool_allocator<long, 8>'):
        P += ['std::is_nothrow_move_constructible_v<%s>' % n, 'std::is_nothrow_move_assignable_v<%s>' % n]
    for n in ('dtl::variant2<N, M>', 'itv<N>::V', 'dtl::mutex<N>', 'dtl::shared_mutex<N>'):
        for a in ('', ', N const &', ', N &&') if 'itv' not in n else ('', ', typename itv<N>::E<1> const &', ', typename itv<N>::E<0> &&'):
            P.append('std::is_nothrow_constructible_v<%s%s>' % (n, a))
    P += ['noexcept(std::declval<dtl::variant2<N, M> const &>() == std::declval<dtl::variant2<N, M> const &>())',
          'noexcept(std::declval<dtl::variant2<N, M> const &>() <=> std::declval<dtl::variant2<N, M> const &>())',
          'noexcept(std::hash<dtl::variant2<N, M>>{}(std::declval<dtl::variant2<N, M> const &>()))',
          'std::is_nothrow_assignable_v<dtl::variant2<N, M> &, N const &>', 'std::is_nothrow_assignable_v<dtl::variant2<N, M> &, M &&>',
          'std::is_nothrow_constructible_v<poly2<0, char>, poly2<0, long> const &>', 'std::is_nothrow_constructible_v<limit<0, char>, limit<0, long> const &>',
          'std::is_nothrow_constructible_v<offs<0, char>, offs<0, long> const &>',
          'noexcept(dtl::for_types<int, long>(nx::fn<true>{}))', 'noexcept(dtl::for_values<1, 2>(nx::fn<true>{}))',
          'std::is_nothrow_invocable_v<decltype(dtl::bind_front<nx::fn<true>{}>(1)), int>',
          'noexcept(std::declval<dtl::channel<N> &>().push(std::declval<N>()))', 'noexcept(std::declval<dtl::channel<N> &>().try_push(std::declval<N>()))',
          'noexcept(std::declval<dtl::channel<N> &>().pop())', 'noexcept(std::declval<dtl::channel<N> &>().try_pop())',
          'noexcept(std::declval<dtl::exchange_channel<N> &>().push(std::declval<N>()))', 'noexcept(std::declval<dtl::exchange_channel<N> &>().pop())',
          'noexcept(std::declval<dtl::channel<N> &>().close())', 'noexcept(std::declval<dtl::exchange_channel<N> &>().close())']
    return P


def check_promises(chk):
    P = promises()
    src = '#include "nx.hpp"\n#include <dice/template-library/pool_allocator.hpp>\nusing N = nx::X<0>; using M = nx::Y<0>;\n#define P(n, ...) static_assert(__VA_ARGS__, "promise " #n)\n'
    src += ''.join('P(%d, %s);\n' % (i, p) for i, p in enumerate(P))
    ok, log = build.syntax(src)
    chk.count('nothrow_promises', len(P))
    if not ok:
        bad = sorted({int(x) for x in re.findall(r'static assertion failed: promise (\d+)', log)})
        if not bad:
            raise build.WitnessRejected('noexcept promises do not compile', log)
        for i in bad:
            chk.violate('promise/' + P[i], 'does not hold although no operation of the element types can throw')


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR: exception propagation from every user operation to the nearest noexcept boundary'
    chk.headers = ['variant2.hpp', 'integral_template_variant.hpp', 'flex_array.hpp', 'mutex.hpp', 'shared_mutex.hpp', 'channel.hpp', 'exchange_channel.hpp',
                   'limit_allocator.hpp', 'polymorphic_allocator.hpp', 'inplace_polymorphic.hpp', 'functional.hpp', 'for.hpp', 'tuple_algorithm.hpp',
                   'standard_layout_tuple.hpp', 'opt_minmax.hpp', 'overloaded.hpp', 'defer.hpp']
    chk.assumptions.append('std::deque is modelled; memory exhaustion is not an operation of a user type; destructors do not throw')
    check_promises(chk)
    S = scenarios()
    jobs = [(n, c, e[i::max(1, len(e) // 60)]) for n, (c, e) in enumerate(S) for i in range(max(1, len(e) // 60))]
    chk.fns = set()
    thrown = {}
    found = {}
    with ProcessPoolExecutor(8) as ex:
        for comp, res, steps, fns in ex.map(job, jobs):
            chk.count('instructions', steps)
            chk.fns |= fns
            for (expr, f, params), bad, kinds, forks, calls in res:
                chk.count('operations_analysed')
                chk.count('user_throw_points', forks)
                thrown[comp] = thrown.get(comp, 0) + forks
                for inner, path in bad:
                    d = re.sub(r'\[abi:\w+\]', '', inner)
                    d = re.sub(r'nx::[XY]<\d+u?>', 'T', d)
                    d = re.sub(r'nx::Al<(\w+), \d+u?>', r'Al<\1>', d)
                    d = re.sub(r'(up|ibase|ider)<\d+u?', r'\1<', d)
                    d = re.sub(r'XILj\d+E', 'XILjE', d)
                    g = found.setdefault((comp, d), ([], [], path))
                    for lst, v in ((g[0], what(f)), (g[1], expr)):
                        if v not in lst:
                            lst.append(v)
    for (comp, d), (ops, exprs, path) in found.items():
        chk.violate('%s/%s' % (comp, d[:180]), 'is noexcept, but an exception of %s of its element types ends in std::terminate there (as in %s)' % (
            ', '.join(o for o in ops if o != 'any operation') or ops[0], exprs[0]), path=path)
    for c, n in thrown.items():
        if not n:
            raise RuntimeError('no user operation of %s can throw' % c)
    chk.require('operations_analysed', chk.counts['operations_analysed'], 1000)
    return ''
